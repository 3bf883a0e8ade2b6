@raw
/// `r` lists, in order, exactly the maximal spans of chars[start..end) satisfying p
#[verifier::opaque]
spec fn spans_upto(chars: Seq<char>, start: int, pos: int, p: spec_fn(char) -> bool, r: Seq<(usize, usize)>) -> bool {
    &&& forall|k: int| 0 <= k < r.len() ==> start <= (#[trigger] r[k]).0 < r[k].1 <= pos
    &&& forall|k: int, i: int| 0 <= k < r.len() && (#[trigger] r[k]).0 <= i < r[k].1 ==> p(#[trigger] chars[i])
    &&& forall|k: int| 0 < k < r.len() ==> r[k - 1].1 < (#[trigger] r[k]).0
    &&& forall|k: int, i: int| 0 < k < r.len() && r[k - 1].1 <= i < (#[trigger] r[k]).0 ==> !p(#[trigger] chars[i])
    &&& forall|i: int| start <= i < (if r.len() == 0 { pos } else { r[0].0 as int }) ==> !p(#[trigger] chars[i])
    &&& r.len() > 0 ==> forall|i: int| r.last().1 <= i < pos ==> !p(#[trigger] chars[i])
}
/// the predicate a closure decides
spec fn decides<F: Fn(char) -> bool>(f: F, p: spec_fn(char) -> bool) -> bool {
    &&& forall|c: char| #[trigger] f.requires((c,))
    &&& forall|c: char, b: bool| #[trigger] f.ensures((c,), b) ==> b == p(c)
}
proof fn spans_none(chars: Seq<char>, start: int, p: spec_fn(char) -> bool)
    ensures spans_upto(chars, start, start, p, seq![]),
{ reveal(spans_upto); }
proof fn spans_skip(chars: Seq<char>, start: int, pos: int, p: spec_fn(char) -> bool, r: Seq<(usize, usize)>)
    requires spans_upto(chars, start, pos, p, r), !p(chars[pos]), start <= pos,
    ensures spans_upto(chars, start, pos + 1, p, r), r.len() > 0 ==> r.last().1 < pos + 1,
{ reveal(spans_upto); if r.len() > 0 { assert(r[r.len() - 1].1 <= pos); } }
proof fn spans_push(chars: Seq<char>, start: int, a: usize, b: usize, p: spec_fn(char) -> bool, r: Seq<(usize, usize)>)
    requires spans_upto(chars, start, a as int, p, r), start <= a < b, r.len() > 0 ==> r.last().1 < a,
        forall|i: int| a <= i < b ==> p(#[trigger] chars[i]),
    ensures spans_upto(chars, start, b as int, p, r.push((a, b))),
{
    reveal(spans_upto);
    let q = r.push((a, b));
    assert forall|k: int, i: int| 0 < k < q.len() && q[k - 1].1 <= i < (#[trigger] q[k]).0 implies !p(#[trigger] chars[i]) by { if k == r.len() { assert(q[k - 1] == r.last()); } else { assert(q[k] == r[k]); assert(q[k - 1] == r[k - 1]); } }
    assert forall|k: int| 0 < k < q.len() implies q[k - 1].1 < (#[trigger] q[k]).0 by { if k == r.len() { assert(q[k - 1] == r.last()); } else { assert(q[k] == r[k]); assert(q[k - 1] == r[k - 1]); } }
}
spec fn step(r: Seq<(usize, usize)>, pos: int, hit: bool) -> Seq<(usize, usize)> {
    if !hit { r } else if r.len() > 0 && r.last().1 == pos { r.drop_last().push((r.last().0, (pos + 1) as usize)) } else { r.push((pos as usize, (pos + 1) as usize)) }
}
#[verifier::spinoff_prover]
proof fn spans_exist(chars: Seq<char>, start: int, end: int, p: spec_fn(char) -> bool)
    requires 0 <= start <= end <= usize::MAX,
    ensures exists|r: Seq<(usize, usize)>| spans_upto(chars, start, end, p, r),
    decreases end - start
{
    if start == end { spans_none(chars, start, p); }
    else {
        spans_exist(chars, start, end - 1, p);
        let e1 = end - 1;
        let r = choose|r: Seq<(usize, usize)>| spans_upto(chars, start, e1, p, r);
        let q = step(r, end - 1, p(chars[end - 1]));
        assert(spans_upto(chars, start, end, p, q)) by {
            reveal(spans_upto);
            if !p(chars[end - 1]) {}
            else if r.len() > 0 && r.last().1 == end - 1 {
                let d = r.drop_last();
                assert forall|k: int| 0 <= k < q.len() implies k < d.len() && q[k] == r[k] || k == d.len() && q[k] == (r.last().0, end as usize) by {}
                assert forall|k: int, i: int| 0 <= k < q.len() && (#[trigger] q[k]).0 <= i < q[k].1 implies p(#[trigger] chars[i]) by { assert(r[k].0 == q[k].0); if i < r[k].1 {} }
                assert forall|k: int| 0 < k < q.len() implies q[k - 1].1 < (#[trigger] q[k]).0 by { assert(r[k - 1].1 < r[k].0); }
                assert forall|k: int, i: int| 0 < k < q.len() && q[k - 1].1 <= i < (#[trigger] q[k]).0 implies !p(#[trigger] chars[i]) by { assert(r[k - 1].1 <= i < r[k].0); }
            } else { 
                if r.len() > 0 { assert(r[r.len() - 1].1 <= end - 1); }
                spans_push(chars, start, (end - 1) as usize, end as usize, p, r); }
        }
    }
}
@fn translator/indication.rs find_spans loops=3
@sig fn find_spans<F: Fn(char) -> bool>(chars: &[char], start: usize, end: usize, predicate: F, Ghost(p): Ghost<spec_fn(char) -> bool>) -> (r: Vec<(usize, usize)>)
@spec
    requires start <= end <= chars@.len(), decides(predicate, p),
    ensures spans_upto(chars@, start as int, end as int, p, r@),
@entry
    proof { spans_none(chars@, start as int, p); }
@loop 0
    invariant
        start <= pos <= end <= chars@.len(), decides(predicate, p),
        spans_upto(chars@, start as int, pos as int, p, spans@),
        spans@.len() > 0 ==> spans@.last().1 <= pos,
        spans@.len() > 0 && spans@.last().1 == pos && pos < end ==> !p(chars@[pos as int]),
    ensures pos >= end,
    decreases end - pos,
@loop 0 start
    let ghost pos0 = pos;
@loop 1
    invariant
        pos0 <= pos,
        start <= pos <= end <= chars@.len(), decides(predicate, p),
        spans_upto(chars@, start as int, pos as int, p, spans@),
        spans@.len() > 0 ==> spans@.last().1 <= pos,
        spans@.len() > 0 && spans@.last().1 == pos && pos < end ==> !p(chars@[pos as int]),
    ensures pos < end ==> p(chars@[pos as int]),
    decreases end - pos,
@loop 1 start
    proof { spans_skip(chars@, start as int, pos as int, p, spans@); }
@loop 2
    invariant
        start <= span_start < end, span_start <= pos <= end <= chars@.len(), decides(predicate, p),
        p(chars@[span_start as int]),
        forall|i: int| span_start <= i < pos ==> p(#[trigger] chars@[i]),
    ensures
        pos < end ==> !p(chars@[pos as int]), span_start < pos,
    decreases end - pos,
@loop 2 post
    proof { spans_push(chars@, start as int, span_start, pos, p, spans@); }
