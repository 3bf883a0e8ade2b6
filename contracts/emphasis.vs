@include indication_types.vs
@include spans.vs
@raw
struct EmphasisSpan { class: String, range: std::ops::Range<usize> }
@type translator/indication/emphasis.rs EmitKind
@type translator/indication/emphasis.rs ClassIndicator
@type translator/indication/emphasis.rs Indicator
@raw
/// its signs stand for no character
spec fn quiet(t: ClassIndicator) -> bool { sign_or_none(t.emphletter) && sign_or_none(t.begemph) && sign_or_none(t.endemph) && sign_or_none(t.begemphword) && sign_or_none(t.endemphword) && sign_or_none(t.begemphphrase) && sign_or_none(t.endemphphrase) }
spec fn all_quiet(i: Indicator) -> bool { forall|k: int| 0 <= k < i.classes@.len() ==> quiet(#[trigger] i.classes@[k]) }
type Tagged = (usize, ResolvedTranslation, EmitKind);
type Tagged4 = (usize, ResolvedTranslation, EmitKind, usize);
uninterp spec fn span_class(s: EmphasisSpan) -> Seq<char>;
#[verifier::external_body]
fn same_class(s: &EmphasisSpan, name: &String) -> (r: bool) ensures r == (s.class@ == name@) { s.class == *name }
fn bool_at(v: &[bool], i: usize) -> (r: bool)
    ensures r == (i < v@.len() && v@[i as int]),
{ if i < v.len() { v[i] } else { false } }
/// separates words: the table's mode characters, or white space when there are none
spec fn sep(t: ClassIndicator, c: char) -> bool {
    if t.emphmodechars@ =~= Set::<char>::empty() { is_ws(t.character_classes, c) } else { t.emphmodechars@.contains(c) }
}
/// position i carries the emphasis of class t
spec fn emphasised(t: ClassIndicator, s: Seq<char>, spans: Seq<EmphasisSpan>, i: int) -> bool {
    !t.noemphchars@.contains(s[i]) && exists|k: int| 0 <= k < spans.len() && (#[trigger] spans[k]).class@ == t.class_name@ && spans[k].range.start <= i < spans[k].range.end
}
spec fn tag(p: int, t: Option<ResolvedTranslation>, k: EmitKind) -> Seq<Tagged> { if t is Some { seq![(p as usize, t->0, k)] } else { seq![] } }
/// first non-separator of s[a..b), or a
spec fn first_word(t: ClassIndicator, s: Seq<char>, a: int, b: int, from: int) -> int decreases b - from {
    if from >= b { a } else if !sep(t, s[from]) { from } else { first_word(t, s, a, b, from + 1) }
}
/// behind the last non-separator of s[a..b), or dflt
spec fn last_word(t: ClassIndicator, s: Seq<char>, a: int, upto: int, dflt: int) -> int decreases upto - a {
    if upto <= a { dflt } else if !sep(t, s[upto - 1]) { upto } else { last_word(t, s, a, upto - 1, dflt) }
}
proof fn first_bounds(t: ClassIndicator, s: Seq<char>, a: int, b: int, from: int)
    requires a <= from <= b,
    ensures a <= first_word(t, s, a, b, from) <= b, from < b ==> first_word(t, s, a, b, from) < b,
    decreases b - from
{ if from < b && sep(t, s[from]) { first_bounds(t, s, a, b, from + 1); } }
proof fn last_bounds(t: ClassIndicator, s: Seq<char>, a: int, upto: int, dflt: int)
    requires a <= upto,
    ensures last_word(t, s, a, upto, dflt) == dflt || a < last_word(t, s, a, upto, dflt) <= upto,
    decreases upto - a
{ if a < upto && sep(t, s[upto - 1]) { last_bounds(t, s, a, upto - 1, dflt); } }

spec fn single(t: ClassIndicator, w: (usize, usize)) -> Seq<Tagged> {
    if w.1 - w.0 == 1 && t.emphletter is Some { tag(w.0 as int, t.emphletter, EmitKind::Unordered) }
    else { tag(w.0 as int, t.begemphword, EmitKind::Unordered) }
}
spec fn each(t: ClassIndicator, ws: Seq<(usize, usize)>) -> Seq<Tagged> decreases ws.len() {
    if ws.len() == 0 { seq![] } else { each(t, ws.drop_last()) + single(t, ws.last()) }
}
/// emphasis that covers whole words only
spec fn clean(t: ClassIndicator, ws: Seq<(usize, usize)>) -> Seq<Tagged> {
    if t.begemphphrase is Some && ws.len() >= t.len_phrase {
        tag(ws[0].0 as int, t.begemphphrase, EmitKind::Unordered)
            + (if t.endemphphrase_before { single(t, ws.last()) } else { tag(ws.last().1 as int, t.endemphphrase, EmitKind::Unordered) })
    } else { each(t, ws) }
}
spec fn chars_in(ws: Seq<(usize, usize)>) -> int decreases ws.len() {
    if ws.len() == 0 { 0 } else { chars_in(ws.drop_last()) + (ws.last().1 - ws.last().0) }
}
/// emphasis that starts or ends inside a word
spec fn partial(t: ClassIndicator, s: Seq<char>, a: int, b: int, ws: Seq<(usize, usize)>) -> Seq<Tagged> {
    if chars_in(ws) == 1 && t.emphletter is Some { tag(ws[0].0 as int, t.emphletter, EmitKind::Unordered) }
    else if t.begemphword is Some {
        tag(a, t.begemphword, EmitKind::Unordered)
            + (if b < s.len() && !sep(t, s[b]) { tag(b, t.endemphword, EmitKind::Unordered) } else { seq![] })
    } else if t.begemphphrase is Some {
        tag(a, t.begemphphrase, EmitKind::Unordered) + (if b < s.len() { tag(b, t.endemphphrase, EmitKind::Unordered) } else { seq![] })
    } else { seq![] }
}
/// everything one maximal emphasised run s[a..b) gives rise to
spec fn run_events(t: ClassIndicator, s: Seq<char>, a: int, b: int, ws: Seq<(usize, usize)>) -> Seq<Tagged> {
    let first = first_word(t, s, a, b, a);
    if t.begemph is Some {
        tag(first, t.begemph, EmitKind::Open { run_end: b as usize })
            + (if t.endemph is Some { tag(last_word(t, s, a, b, b), t.endemph, EmitKind::Close { emit_start: first as usize }) } else { seq![] })
    } else if ws.len() == 0 { seq![] }
    else {
        let last = last_word(t, s, a, b, a);
        if (first == 0 || sep(t, s[first - 1])) && (last >= s.len() || sep(t, s[last])) { clean(t, ws) } else { partial(t, s, a, b, ws) }
    }
}
spec fn words_in(t: ClassIndicator, s: Seq<char>, a: int, b: int, ws: Seq<(usize, usize)>) -> bool { spans_upto(s, a, b, word_pred(t), ws) }
spec fn word_pred(t: ClassIndicator) -> spec_fn(char) -> bool { |c: char| !sep(t, c) }
/// some word list of the run is what was emitted
spec fn run_emits(t: ClassIndicator, s: Seq<char>, a: int, b: int, ev: Seq<Tagged>, ws: Seq<(usize, usize)>) -> bool { words_in(t, s, a, b, ws) && ev == run_events(t, s, a, b, ws) }
proof fn words_bounds(s: Seq<char>, a: int, b: int, p: spec_fn(char) -> bool, r: Seq<(usize, usize)>, k: int)
    requires spans_upto(s, a, b, p, r), 0 <= k < r.len(),
    ensures a <= r[k].0 < r[k].1 <= b, k > 0 ==> r[k - 1].1 < r[k].0,
{ reveal(spans_upto); }
/// the maximal runs of active positions before `pos`, and what they emit
spec fn on(active: Seq<bool>, i: int) -> bool { i < active.len() && active[i] }
struct Runs { at: Seq<(int, int)>, ws: Seq<Seq<(usize, usize)>> }
#[verifier::opaque]
spec fn runs_upto(t: ClassIndicator, s: Seq<char>, active: Seq<bool>, pos: int, r: Runs) -> bool {
    &&& r.at.len() == r.ws.len()
    &&& forall|k: int| 0 <= k < r.at.len() ==> 0 <= (#[trigger] r.at[k]).0 < r.at[k].1 <= pos && words_in(t, s, r.at[k].0, r.at[k].1, r.ws[k])
    &&& forall|k: int, i: int| 0 <= k < r.at.len() && (#[trigger] r.at[k]).0 <= i < r.at[k].1 ==> #[trigger] on(active, i)
    &&& forall|i: int| 0 <= i < pos && #[trigger] on(active, i) ==> covered(r.at, i)
    &&& forall|k: int| 0 < k < r.at.len() ==> r.at[k - 1].1 < (#[trigger] r.at[k]).0
}
spec fn covered(at: Seq<(int, int)>, i: int) -> bool { exists|k: int| 0 <= k < at.len() && (#[trigger] at[k]).0 <= i < at[k].1 }
spec fn all_events(t: ClassIndicator, s: Seq<char>, r: Runs, n: int) -> Seq<Tagged> decreases n {
    if n <= 0 { seq![] } else { all_events(t, s, r, n - 1) + run_events(t, s, r.at[n - 1].0, r.at[n - 1].1, r.ws[n - 1]) }
}
spec fn add_run(r: Runs, a: int, b: int, ws: Seq<(usize, usize)>) -> Runs { Runs { at: r.at.push((a, b)), ws: r.ws.push(ws) } }
proof fn add_run_events(t: ClassIndicator, s: Seq<char>, r: Runs, a: int, b: int, ws: Seq<(usize, usize)>, n: int)
    requires 0 <= n <= r.at.len(), r.at.len() == r.ws.len(),
    ensures all_events(t, s, add_run(r, a, b, ws), n) == all_events(t, s, r, n),
    decreases n
{ if n > 0 { add_run_events(t, s, r, a, b, ws, n - 1); } }
@fn translator/indication/emphasis.rs ClassIndicator::is_emphasis_word_separator
@spec
    ensures r == sep(*self, ch),
@fn translator/indication/emphasis.rs ClassIndicator::active_positions loops=2 slice=spans
@subst span . class == self . class_name =>> same_class ( span , & self . class_name )
@subst span . range . end . min ( n ) =>> usize_min ( span . range . end , n )
@spec
    ensures r@.len() == chars@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i] <==> emphasised(*self, chars@, spans@, i)),
@loop 0
    invariant
        __i0 <= spans@.len(), active@.len() == n == chars@.len(),
        forall|i: int| 0 <= i < n ==> (#[trigger] active@[i] <==> emphasised(*self, chars@, spans@.take(__i0 as int), i)),
    decreases spans@.len() - __i0,
@loop 0 start
    let ghost before = active@;
    let ghost k0 = __i0 as int;
@loop 1
    invariant
        active@.len() == n == chars@.len(), end <= n, k0 < spans@.len(), before.len() == n, *span == spans@[k0],
        forall|i: int| 0 <= i < n ==> (#[trigger] active@[i] <==> before[i] || (span.range.start <= i < pos && i < end && !self.noemphchars@.contains(chars@[i]))),
@loop 0 end
    proof {
        assert forall|i: int| 0 <= i < n implies (#[trigger] active@[i] <==> emphasised(*self, chars@, spans@.take(__i0 as int), i)) by {
            let old = spans@.take(k0);
            let new = spans@.take(__i0 as int);
            if emphasised(*self, chars@, old, i) { let k = choose|k: int| 0 <= k < old.len() && (#[trigger] old[k]).class@ == self.class_name@ && old[k].range.start <= i < old[k].range.end; assert(new[k] == old[k]); }
            if emphasised(*self, chars@, new, i) && !emphasised(*self, chars@, old, i) { let k = choose|k: int| 0 <= k < new.len() && (#[trigger] new[k]).class@ == self.class_name@ && new[k].range.start <= i < new[k].range.end; if k < k0 { assert(old[k] == new[k]); } assert(k == k0); }
            assert(new[k0] == spans@[k0]);
        }
    }
@loop 0 post
    proof { assert(spans@.take(spans@.len() as int) =~= spans@); }
@fn translator/indication/emphasis.rs ClassIndicator::find_word_segments
@subst find_spans ( chars , run_start , run_end , | c | { ! self . is_emphasis_word_separator ( c ) } ) =>> find_spans ( chars , run_start , run_end , vxraw ! ( "|c: char| -> (b: bool) ensures b == !sep(*self, c) { !self.is_emphasis_word_separator(c) }, Ghost(word_pred(*self))" ) )
@spec
    requires run_start <= run_end <= chars@.len(),
    ensures words_in(*self, chars@, run_start as int, run_end as int, r@),
@fn translator/indication/emphasis.rs ClassIndicator::emit_single_word
@spec
    requires word_start <= word_end,
    ensures final(result)@ == old(result)@ + single(*self, (word_start, word_end)),
@fn translator/indication/emphasis.rs ClassIndicator::emit_clean_words loops=1 slice=words
@spec
    requires words@.len() > 0, forall|k: int| 0 <= k < words@.len() ==> (#[trigger] words@[k]).0 <= words@[k].1,
    ensures final(result)@ == old(result)@ + clean(*self, words@),
@loop 0
    invariant
        __i0 <= words@.len(), forall|k: int| 0 <= k < words@.len() ==> (#[trigger] words@[k]).0 <= words@[k].1,
        result@ == old(result)@ + each(*self, words@.take(__i0 as int)),
    decreases words@.len() - __i0,
@loop 0 start
    proof { assert(words@.take(__i0 + 1).drop_last() =~= words@.take(__i0 as int)); }
@loop 0 post
    proof { assert(words@.take(words@.len() as int) =~= words@); }
@fn translator/indication/emphasis.rs ClassIndicator::emit_partial loops=1
@spec
    requires run_start <= run_end <= chars@.len(), words_in(*self, chars@, run_start as int, run_end as int, words@), words@.len() > 0,
    ensures final(result)@ == old(result)@ + partial(*self, chars@, run_start as int, run_end as int, words@),
@loop 0
    invariant
        __i0 <= words@.len(), words_in(*self, chars@, run_start as int, run_end as int, words@), run_start <= run_end <= chars@.len(),
        __acc0 as int == chars_in(words@.take(__i0 as int)),
        __acc0 <= (if __i0 == 0 { 0 } else { words@[__i0 - 1].1 - run_start }),
    decreases words@.len() - __i0,
@loop 0 start
    proof {
        assert(words@.take(__i0 + 1).drop_last() =~= words@.take(__i0 as int));
        words_bounds(chars@, run_start as int, run_end as int, word_pred(*self), words@, __i0 as int);
    }
@loop 0 post
    proof { assert(words@.take(words@.len() as int) =~= words@); }
@fn translator/indication/emphasis.rs ClassIndicator::emit_run optmap
@spec
    requires run_start < run_end <= chars@.len(),
    ensures exists|ev: Seq<Tagged>, ws: Seq<(usize, usize)>| #[trigger] run_emits(*self, chars@, run_start as int, run_end as int, ev, ws) && final(result)@ == old(result)@ + ev,
@loop 0
    invariant_except_break __acc0 is None,
        first_word(*self, chars@, run_start as int, run_end as int, run_start as int) == first_word(*self, chars@, run_start as int, run_end as int, __i0 as int),
    invariant run_start <= __i0 <= __s0 == run_end <= chars@.len(), run_start < run_end,
    ensures
        __acc0 is Some ==> __acc0->0 == first_word(*self, chars@, run_start as int, run_end as int, run_start as int),
        __acc0 is None ==> run_start == first_word(*self, chars@, run_start as int, run_end as int, run_start as int),
    decreases __s0 - __i0,
@loop 1
    invariant_except_break __acc1 is None,
        last_word(*self, chars@, run_start as int, run_end as int, run_end as int) == last_word(*self, chars@, run_start as int, __i1 as int, run_end as int),
    invariant run_start <= __i1 <= __s1 == run_end <= chars@.len(), run_start < run_end,
    ensures
        __acc1 is Some ==> exists|e: usize| __acc1 == Some(e) && e < run_end && e + 1 == last_word(*self, chars@, run_start as int, run_end as int, run_end as int),
        __acc1 is None ==> run_end == last_word(*self, chars@, run_start as int, run_end as int, run_end as int),
    decreases __i1 - run_start,
@loop 2
    invariant_except_break __acc2 is None,
        first_word(*self, chars@, run_start as int, run_end as int, run_start as int) == first_word(*self, chars@, run_start as int, run_end as int, __i2 as int),
    invariant run_start <= __i2 <= __s2 == run_end <= chars@.len(), run_start < run_end,
    ensures
        __acc2 is Some ==> __acc2->0 == first_word(*self, chars@, run_start as int, run_end as int, run_start as int),
        __acc2 is None ==> run_start == first_word(*self, chars@, run_start as int, run_end as int, run_start as int),
    decreases __s2 - __i2,
@loop 3
    invariant_except_break __acc3 is None,
        last_word(*self, chars@, run_start as int, run_end as int, run_start as int) == last_word(*self, chars@, run_start as int, __i3 as int, run_start as int),
    invariant run_start <= __i3 <= __s3 == run_end <= chars@.len(), run_start < run_end,
    ensures
        __acc3 is Some ==> exists|e: usize| __acc3 == Some(e) && e < run_end && e + 1 == last_word(*self, chars@, run_start as int, run_end as int, run_start as int),
        __acc3 is None ==> run_start == last_word(*self, chars@, run_start as int, run_end as int, run_start as int),
    decreases __i3 - run_start,
@entry
    proof {
        first_bounds(*self, chars@, run_start as int, run_end as int, run_start as int);
        last_bounds(*self, chars@, run_start as int, run_end as int, run_start as int);
    }
@before if words . is_empty
    proof {
        assert forall|k: int| 0 <= k < words@.len() implies (#[trigger] words@[k]).0 <= words@[k].1 by {
            words_bounds(chars@, run_start as int, run_end as int, word_pred(*self), words@, k);
        }
        assert(result@ =~= old(result)@ + Seq::<Tagged>::empty());
    }
@before return
    proof {
        spans_exist(chars@, run_start as int, run_end as int, word_pred(*self));
        let ws = choose|ws: Seq<(usize, usize)>| spans_upto(chars@, run_start as int, run_end as int, word_pred(*self), ws);
        let ev = run_events(*self, chars@, run_start as int, run_end as int, ws);
        assert(result@ =~= old(result)@ + ev);
        assert(run_emits(*self, chars@, run_start as int, run_end as int, ev, ws));
    }
@before2 return
    proof { assert(run_emits(*self, chars@, run_start as int, run_end as int, Seq::<Tagged>::empty(), words@)); }
@exit
    proof { assert(run_emits(*self, chars@, run_start as int, run_end as int, run_events(*self, chars@, run_start as int, run_end as int, words@), words@)); }
@raw
proof fn runs_push(t: ClassIndicator, s: Seq<char>, active: Seq<bool>, a: int, b: int, r: Runs, ws: Seq<(usize, usize)>)
    requires runs_upto(t, s, active, a, r), 0 <= a < b, r.at.len() > 0 ==> r.at.last().1 < a, words_in(t, s, a, b, ws),
        forall|i: int| a <= i < b ==> #[trigger] on(active, i),
    ensures runs_upto(t, s, active, b, add_run(r, a, b, ws)),
        all_events(t, s, add_run(r, a, b, ws), (r.at.len() + 1) as int) == all_events(t, s, r, r.at.len() as int) + run_events(t, s, a, b, ws),
{
    reveal(runs_upto);
    let q = add_run(r, a, b, ws);
    add_run_events(t, s, r, a, b, ws, r.at.len() as int);
    assert(q.at[r.at.len() as int] == (a, b));
    assert forall|k: int| 0 <= k < q.at.len() implies 0 <= (#[trigger] q.at[k]).0 < q.at[k].1 <= b && words_in(t, s, q.at[k].0, q.at[k].1, q.ws[k]) by { if k < r.at.len() { assert(q.at[k] == r.at[k]); assert(q.ws[k] == r.ws[k]); } }
    assert forall|i: int| 0 <= i < b && #[trigger] on(active, i) implies covered(q.at, i) by {
        if i < a { assert(covered(r.at, i)); let k = choose|k: int| 0 <= k < r.at.len() && (#[trigger] r.at[k]).0 <= i < r.at[k].1; assert(q.at[k] == r.at[k]); }
        else { assert(q.at[r.at.len() as int].0 <= i); }
    }
    assert forall|k: int| 0 < k < q.at.len() implies q.at[k - 1].1 < (#[trigger] q.at[k]).0 by { if k < r.at.len() { assert(q.at[k] == r.at[k]); assert(q.at[k - 1] == r.at[k - 1]); } else { assert(q.at[k - 1] == r.at.last()); } }
}
proof fn runs_skip(t: ClassIndicator, s: Seq<char>, active: Seq<bool>, pos: int, r: Runs)
    requires runs_upto(t, s, active, pos, r), !on(active, pos),
    ensures runs_upto(t, s, active, pos + 1, r), r.at.len() > 0 ==> r.at.last().1 < pos + 1,
{ reveal(runs_upto); if r.at.len() > 0 { assert(r.at[r.at.len() - 1].1 <= pos); } }
proof fn runs_none(t: ClassIndicator, s: Seq<char>, active: Seq<bool>)
    ensures runs_upto(t, s, active, 0, Runs { at: seq![], ws: seq![] }),
{ reveal(runs_upto); }
@fn translator/indication/emphasis.rs ClassIndicator::emit loops=2
@subst ! active . get ( pos ) . copied ( ) . unwrap_or ( false ) =>> ! bool_at ( active , pos )
@subst active . get ( pos ) . copied ( ) . unwrap_or ( false ) =>> bool_at ( active , pos )
@spec
    ensures exists|r: Runs| runs_upto(*self, chars@, active@, chars@.len() as int, r)
        && final(result)@ == old(result)@ + #[trigger] all_events(*self, chars@, r, r.at.len() as int),
@entry
    let ghost mut r = Runs { at: seq![], ws: seq![] };
    proof { runs_none(*self, chars@, active@); assert(result@ =~= old(result)@ + all_events(*self, chars@, r, 0)); }
@loop 0
    invariant
        pos <= n == chars@.len(), runs_upto(*self, chars@, active@, pos as int, r),
        r.at.len() > 0 ==> r.at.last().1 <= pos, r.at.len() > 0 && r.at.last().1 == pos && pos < n ==> !on(active@, pos as int),
        result@ == old(result)@ + all_events(*self, chars@, r, r.at.len() as int),
    decreases n - pos,
@loop 0 start
    let ghost pos0 = pos;
    proof { if !on(active@, pos as int) { runs_skip(*self, chars@, active@, pos as int, r); } }
@loop 1
    invariant
        pos <= n == chars@.len(), run_start <= pos, forall|i: int| run_start <= i < pos ==> #[trigger] on(active@, i),
        run_start == pos0, on(active@, pos0 as int), pos0 < n,
    ensures pos < n ==> !on(active@, pos as int), pos > run_start,
    decreases n - pos,
@before self . emit_run
    let ghost before = result@;
@loop 0 end
    proof {
        let (ev, ws) = choose|ev: Seq<Tagged>, ws: Seq<(usize, usize)>| #[trigger] run_emits(*self, chars@, run_start as int, run_end as int, ev, ws) && result@ == before + ev;
        runs_push(*self, chars@, active@, run_start as int, run_end as int, r, ws);
        let q = add_run(r, run_start as int, run_end as int, ws);
        assert(before + run_events(*self, chars@, run_start as int, run_end as int, ws) =~= old(result)@ + all_events(*self, chars@, q, q.at.len() as int));
        r = q;
    }

@raw
/// `v.sort_by_key(|(pos, _, _, _)| *pos)` - std's stable sort, by position
#[verifier::external_body]
fn sort_tagged(v: &mut Vec<Tagged4>)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), forall|x: int, y: int| 0 <= x < y < final(v)@.len() ==> (#[trigger] final(v)@[x]).0 <= (#[trigger] final(v)@[y]).0,
        final(v)@.len() == old(v)@.len(),
{ v.sort_by_key(|(pos, _, _, _)| *pos) }
#[verifier::external_body]
fn swap_tagged(v: &mut Vec<Tagged4>, a: usize, b: usize)
    requires a < old(v)@.len(), b < old(v)@.len(),
    ensures final(v)@ == old(v)@.update(a as int, old(v)@[b as int]).update(b as int, old(v)@[a as int]),
{ v.swap(a, b) }
proof fn swap_multiset(s: Seq<Tagged4>, a: int, b: int)
    requires 0 <= a < s.len(), 0 <= b < s.len(), a != b,
    ensures s.update(a, s[b]).update(b, s[a]).to_multiset() == s.to_multiset(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(s.update(a, s[b]).update(b, s[a]).to_multiset() =~= s.to_multiset());
}
/// x has to precede y when both apply at one position
spec fn precedes(x: Tagged4, y: Tagged4) -> bool {
    x.0 == y.0 && match (x.2, y.2) {
        // opens: the run that ends latest is the outermost; then the class defined last
        (EmitKind::Open { run_end: a }, EmitKind::Open { run_end: b }) => a > b || (a == b && x.3 > y.3),
        // closes: what opened last closes first; then the class defined first
        (EmitKind::Close { emit_start: a }, EmitKind::Close { emit_start: b }) => a > b || (a == b && x.3 < y.3),
        _ => false,
    }
}
spec fn ordered(s: Seq<Tagged4>, n: int) -> bool { forall|x: int, y: int| 0 <= x < y < n ==> !precedes(#[trigger] s[y], #[trigger] s[x]) }
spec fn by_position(s: Seq<Tagged4>) -> bool { forall|x: int, y: int| 0 <= x < y < s.len() ==> (#[trigger] s[x]).0 <= (#[trigger] s[y]).0 }
/// what class k contributes
spec fn class_emits(t: ClassIndicator, s: Seq<char>, spans: Seq<EmphasisSpan>, ev: Seq<Tagged>) -> bool {
    exists|a: Seq<bool>, r: Runs| a.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> (a[i] <==> #[trigger] emphasised(t, s, spans, i)))
        && #[trigger] runs_upto(t, s, a, s.len() as int, r) && ev == all_events(t, s, r, r.at.len() as int)
}
spec fn tagged(ev: Seq<Tagged>, k: int) -> Seq<Tagged4> { ev.map(|i: int, e: Tagged| (e.0, e.1, e.2, k as usize)) }
spec fn collected(c: Seq<Seq<Tagged>>, n: int) -> Seq<Tagged4> decreases n { if n <= 0 { seq![] } else { collected(c, n - 1) + tagged(c[n - 1], n - 1) } }
proof fn collected_push(c: Seq<Seq<Tagged>>, e: Seq<Tagged>, n: int)
    requires 0 <= n <= c.len(),
    ensures collected(c.push(e), n) == collected(c, n),
    decreases n
{ if n > 0 { collected_push(c, e, n - 1); } }
spec fn stripped(s: Seq<Tagged4>) -> Seq<Event> { s.map(|i: int, e: Tagged4| (e.0, e.1)) }
/// the event list of all classes, in the order the stack rule prescribes
spec fn arranged(i: Indicator, s: Seq<char>, spans: Seq<EmphasisSpan>, c: Seq<Seq<Tagged>>, all: Seq<Tagged4>) -> bool {
    &&& c.len() == i.classes@.len()
    &&& forall|k: int| 0 <= k < c.len() ==> class_emits(i.classes@[k], s, spans, #[trigger] c[k])
    &&& all.to_multiset() == collected(c, c.len() as int).to_multiset()
    &&& by_position(all) && ordered(all, all.len() as int)
}
@fn translator/indication/emphasis.rs Indicator::precompute loops=5 owned=raw owned_iter
@subst events . sort_by_key ( | ( pos , _ , _ , _ ) | * pos ) =>> sort_tagged ( & mut events )
@subst 0 .. events . len ( ) =>> 0 .. n_events
@subst events . swap ( current , k ) =>> swap_tagged ( & mut events , current , k )
@spec
    ensures exists|c: Seq<Seq<Tagged>>, all: Seq<Tagged4>| #[trigger] arranged(*self, input@, spans@, c, all) && r@ == stripped(all),
@entry
    let ghost mut c: Seq<Seq<Tagged>> = seq![];
@loop 0
    invariant
        __i0 <= self.classes@.len(), chars@ == input@, c.len() == __i0,
        forall|k: int| 0 <= k < c.len() ==> class_emits(self.classes@[k], input@, spans@, #[trigger] c[k]),
        events@ == collected(c, c.len() as int),
    decreases self.classes@.len() - __i0,
@loop 0 start
    let ghost before = events@;
    let ghost c0 = c;
@loop 1 pre
    let ghost ev = raw@;
    proof {
        assert(Seq::<Tagged>::empty() + ev =~= ev);
        let t = self.classes@[c0.len() as int];
        let r = choose|r: Runs| runs_upto(t, chars@, active@, chars@.len() as int, r) && ev =~= Seq::<Tagged>::empty() + #[trigger] all_events(t, chars@, r, r.at.len() as int);
        assert(Seq::<Tagged>::empty() + all_events(t, chars@, r, r.at.len() as int) =~= all_events(t, chars@, r, r.at.len() as int));
        assert(class_emits(t, input@, spans@, ev));
    }
@loop 1
    invariant __i1 <= __s1@.len(), __s1@ == ev, class_idx == c0.len(), events@ == before + tagged(ev.take(__i1 as int), class_idx as int),
    decreases __s1@.len() - __i1,
@loop 1 start
    proof { assert(tagged(ev.take(__i1 + 1), class_idx as int) =~= tagged(ev.take(__i1 as int), class_idx as int).push((ev[__i1 as int].0, ev[__i1 as int].1, ev[__i1 as int].2, class_idx))); }
@loop 1 post
    proof {
        assert(ev.take(ev.len() as int) =~= ev);
        c = c0.push(ev);
        collected_push(c0, ev, c0.len() as int);
        assert(forall|k: int| 0 <= k < c0.len() ==> #[trigger] c[k] == c0[k]);
    }
@loop 2 pre
    let ghost ms = events@.to_multiset();
    let ghost len = events@.len();
    let n_events = events.len();
    let ghost pos0 = events@.map(|i: int, e: Tagged4| e.0);
@loop 2
    invariant
        n_events == len, events@.len() == len, events@.to_multiset() == ms, ordered(events@, i as int), by_position(events@),
@loop 3
    invariant
        __i2 <= __s2 == i, i < events@.len(), events@.len() == len, events@.to_multiset() == ms, by_position(events@),
        __i2 <= current <= i,
        // everything but the element on its way down is in order
        forall|x: int, y: int| 0 <= x < y <= i && x != current && y != current ==> !precedes(#[trigger] events@[y], #[trigger] events@[x]),
        forall|y: int| current < y <= i ==> !precedes(#[trigger] events@[y], events@[current as int]),
        forall|x: int| __i2 <= x < current ==> !precedes(events@[current as int], #[trigger] events@[x]),
    ensures ordered(events@, i + 1),
    decreases __i2,
@loop 3 start
    let ghost ev0 = events@;
    let ghost cur0 = current;
@before swap_tagged
    proof { swap_multiset(events@, current as int, k as int); }
@loop 4 pre
    let ghost all = events@;
@loop 4
    invariant __i3 <= __s3@.len(), __acc3@ == stripped(all.take(__i3 as int)), all == __s3@,
    decreases __s3@.len() - __i3,
@loop 4 start
    proof { assert(stripped(all.take(__i3 + 1)) =~= stripped(all.take(__i3 as int)).push((all[__i3 as int].0, all[__i3 as int].1))); }
@loop 4 post
    proof { assert(all.take(all.len() as int) =~= all); assert(arranged(*self, input@, spans@, c, all)); }
@raw
// ---- no sign outside of the text ----
spec fn tagged_upto(s: Seq<Tagged>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 <= n && sign(s[i].1) }
proof fn each_upto(t: ClassIndicator, ws: Seq<(usize, usize)>, n: int)
    requires quiet(t), forall|k: int| 0 <= k < ws.len() ==> (#[trigger] ws[k]).0 <= ws[k].1 <= n,
    ensures tagged_upto(each(t, ws), n),
    decreases ws.len(),
{ if ws.len() > 0 { let d = ws.drop_last(); assert(forall|k: int| 0 <= k < d.len() ==> #[trigger] d[k] == ws[k]); each_upto(t, d, n); assert(ws[ws.len() - 1].0 <= n); } }
proof fn run_upto(t: ClassIndicator, s: Seq<char>, a: int, b: int, ws: Seq<(usize, usize)>)
    requires quiet(t), 0 <= a < b <= s.len() <= usize::MAX, words_in(t, s, a, b, ws),
    ensures tagged_upto(run_events(t, s, a, b, ws), s.len() as int),
{
    first_bounds(t, s, a, b, a);
    last_bounds(t, s, a, b, a);
    last_bounds(t, s, a, b, b);
    assert forall|k: int| 0 <= k < ws.len() implies (#[trigger] ws[k]).0 <= ws[k].1 <= s.len() by { words_bounds(s, a, b, word_pred(t), ws, k); }
    each_upto(t, ws, s.len() as int);
    if ws.len() > 0 { assert(ws[0].0 <= s.len()); assert(ws[ws.len() - 1].1 <= s.len()); }
}
proof fn class_upto(t: ClassIndicator, s: Seq<char>, active: Seq<bool>, r: Runs, m: int)
    requires quiet(t), runs_upto(t, s, active, s.len() as int, r), 0 <= m <= r.at.len(), s.len() <= usize::MAX,
    ensures tagged_upto(all_events(t, s, r, m), s.len() as int),
    decreases m,
{
    if m > 0 {
        class_upto(t, s, active, r, m - 1);
        assert(0 <= r.at[m - 1].0 < r.at[m - 1].1 <= s.len() && words_in(t, s, r.at[m - 1].0, r.at[m - 1].1, r.ws[m - 1])) by { reveal(runs_upto); }
        run_upto(t, s, r.at[m - 1].0, r.at[m - 1].1, r.ws[m - 1]);
    }
}
proof fn collected_upto(i: Indicator, s: Seq<char>, spans: Seq<EmphasisSpan>, c: Seq<Seq<Tagged>>, m: int)
    requires all_quiet(i), 0 <= m <= c.len() == i.classes@.len(), forall|k: int| 0 <= k < c.len() ==> class_emits(i.classes@[k], s, spans, #[trigger] c[k]), s.len() <= usize::MAX,
    ensures forall|x: int| 0 <= x < collected(c, m).len() ==> (#[trigger] collected(c, m)[x]).0 <= s.len() && sign(collected(c, m)[x].1),
    decreases m,
{
    if m > 0 {
        collected_upto(i, s, spans, c, m - 1);
        let t = i.classes@[m - 1];
        let ev = c[m - 1];
        let (a, r) = choose|a: Seq<bool>, r: Runs| a.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> (a[i] <==> #[trigger] emphasised(t, s, spans, i)))
            && #[trigger] runs_upto(t, s, a, s.len() as int, r) && ev == all_events(t, s, r, r.at.len() as int);
        assert(class_emits(t, s, spans, ev));
        assert(r.at.len() == r.ws.len()) by { reveal(runs_upto); }
        class_upto(t, s, a, r, r.at.len() as int);
        let d = collected(c, m - 1);
        assert forall|x: int| 0 <= x < collected(c, m).len() implies (#[trigger] collected(c, m)[x]).0 <= s.len() && sign(collected(c, m)[x].1) by {
            if x < d.len() { assert(collected(c, m)[x] == d[x]); } else { assert(collected(c, m)[x] == tagged(ev, m - 1)[x - d.len()]); assert(ev[x - d.len()].0 <= s.len() && sign(ev[x - d.len()].1)); }
        }
    }
}
proof fn th_inside(i: Indicator, s: Seq<char>, spans: Seq<EmphasisSpan>, c: Seq<Seq<Tagged>>, all: Seq<Tagged4>)
    requires all_quiet(i), arranged(i, s, spans, c, all), s.len() <= usize::MAX,
    ensures all_upto(stripped(all), s.len() as int),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let k = collected(c, c.len() as int);
    collected_upto(i, s, spans, c, c.len() as int);
    assert forall|x: int| 0 <= x < all.len() implies (#[trigger] all[x]).0 <= s.len() && sign(all[x].1) by {
        assert(all.to_multiset().count(all[x]) > 0);
        assert(k.to_multiset().count(all[x]) > 0);
        assert(k.contains(all[x]));
    }
}
@raw
// ---- what the rules of the table make of it ----
#[verifier::external_body]
struct TableContext { id: usize }
uninterp spec fn classes(c: TableContext) -> CharacterClasses;
impl TableContext {
    #[verifier::external_body]
    fn character_classes(&self) -> (r: &CharacterClasses) ensures *r == classes(*self) { unimplemented!() }
}
impl Clone for CharacterClasses {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// `CharacterClasses::default()`; replaced before anything is asked of it
#[verifier::external_body]
fn no_classes() -> (r: CharacterClasses) { unimplemented!() }
/// `HashMap<String, ClassIndicator>`
#[verifier::external_body]
struct ClassMap { id: usize }
impl ClassMap {
    uninterp spec fn view(&self) -> Map<Seq<char>, ClassIndicator>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, ClassIndicator>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.dom().contains(k@) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: String, v: ClassIndicator) ensures final(self)@ == old(self)@.insert(k@, v) { unimplemented!() }
    /// `get_mut(k).unwrap()`
    #[verifier::external_body]
    fn at(&mut self, k: &str) -> (r: &mut ClassIndicator)
        requires old(self)@.dom().contains(k@),
        ensures *r == old(self)@[k@], final(self)@ == old(self)@.insert(k@, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &String) -> (r: Option<ClassIndicator>)
        ensures final(self)@ == old(self)@.remove(k@), r == (if old(self)@.dom().contains(k@) { Some(old(self)@[k@]) } else { None::<ClassIndicator> }),
    { unimplemented!() }
}
@type translator/indication/emphasis.rs IndicatorBuilder derive= retype=classes:HashMap<String,ClassIndicator>=>ClassMap
@type parser.rs Position
@raw
type B = IndicatorBuilder;
spec fn in_map(b: B, name: Seq<char>) -> bool { b.classes@.dom().contains(name) }
/// the classes in the order in which the rules name them first, each once
spec fn listed(v: Seq<String>, name: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == name }
spec fn orderly(b: B) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < b.class_order@.len() ==> (#[trigger] b.class_order@[i])@ != (#[trigger] b.class_order@[j])@
    &&& forall|n: Seq<char>| #[trigger] in_map(b, n) <==> listed(b.class_order@, n)
    &&& forall|n: Seq<char>| #[trigger] in_map(b, n) ==> b.classes@[n].class_name@ == n && quiet(b.classes@[n])
}
/// a class of which only the name is known
spec fn fresh(c: ClassIndicator, name: Seq<char>) -> bool {
    c.class_name@ == name && c.emphletter is None && c.begemph is None && c.endemph is None && c.begemphword is None && c.endemphword is None && c.begemphphrase is None && c.endemphphrase is None
        && c.endemphphrase_before && c.len_phrase == 4 && c.emphmodechars@ == Set::<char>::empty() && c.noemphchars@ == Set::<char>::empty()
}
/// the class of that name, as known so far
spec fn known(b: B, name: Seq<char>, c: ClassIndicator) -> bool { if in_map(b, name) { c == b.classes@[name] } else { fresh(c, name) } }
/// only the class of that name may have changed, to what it is now
spec fn told(b: B, name: Seq<char>, a: B) -> bool {
    &&& a.classes@ =~= b.classes@.insert(name, a.classes@[name])
    &&& if in_map(b, name) { a.class_order == b.class_order } else { a.class_order@.len() == b.class_order@.len() + 1 && a.class_order@.drop_last() =~= b.class_order@ && a.class_order@.last()@ == name }
}
proof fn told_orderly(b: B, name: Seq<char>, a: B)
    requires orderly(b), told(b, name, a), a.classes@[name].class_name@ == name, quiet(a.classes@[name]),
    ensures orderly(a),
{
    let (o, n) = (b.class_order@, a.class_order@);
    if !in_map(b, name) {
        assert(n =~= o.push(n.last()));
        assert(!listed(o, name));
        assert forall|i: int, j: int| 0 <= i < j < n.len() implies (#[trigger] n[i])@ != (#[trigger] n[j])@ by { if j == o.len() { assert(n[i] == o[i]); } else { assert(n[i] == o[i] && n[j] == o[j]); } }
        assert forall|x: Seq<char>| #[trigger] in_map(a, x) <==> listed(n, x) by {
            assert(in_map(b, x) <==> listed(o, x));
            if listed(o, x) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i])@ == x; assert(n[i]@ == x); }
            if listed(n, x) { let i = choose|i: int| 0 <= i < n.len() && (#[trigger] n[i])@ == x; if i < o.len() { assert(o[i]@ == x); } }
            if x == name { assert(n[o.len() as int]@ == name); }
        }
    }
    assert forall|x: Seq<char>| #[trigger] in_map(a, x) implies a.classes@[x].class_name@ == x && quiet(a.classes@[x]) by { if x != name { assert(in_map(b, x)); } }
    assert forall|x: Seq<char>| #[trigger] in_map(a, x) <==> listed(n, x) by { if in_map(b, name) { assert(in_map(a, x) <==> in_map(b, x)); } }
}
@fn translator/indication/emphasis.rs make_translation
@subst origin.clone() =>> Some(origin.clone())
@entry
    proof { reveal_strlit(""); }
@spec
    ensures sign_of(Some(r), dots@, *origin),
@fn translator/indication/emphasis.rs ClassIndicator::new
@subst CharacterClasses::default() =>> no_classes()
@spec
    ensures fresh(r, class_name@), quiet(r),
@fn translator/indication/emphasis.rs ClassIndicator::is_indicating
@spec
    ensures r == indicating(*self),
@fn translator/indication/emphasis.rs IndicatorBuilder::new
@subst HashMap::new() =>> ClassMap::new()
@spec
    ensures orderly(r), r.class_order@.len() == 0,
@fn translator/indication/emphasis.rs IndicatorBuilder::class_mut
@subst self.classes.get_mut(name).unwrap() =>> self.classes.at(name)
@subst name.to_string() =>> own(name)
@spec
    requires orderly(*old(self)),
    ensures known(*old(self), name@, *r), quiet(*r), r.class_name@ == name@,
        final(self).classes@ =~= old(self).classes@.insert(name@, *final(r)), told(*old(self), name@, *final(self)),
@fn translator/indication/emphasis.rs IndicatorBuilder::emphclass
@exit
    proof { told_orderly(*old(self), name@, *self); }
@spec
    requires orderly(*old(self)),
    ensures orderly(*final(self)), told(*old(self), name@, *final(self)), known(*old(self), name@, final(self).classes@[name@]),
@fn translator/indication/emphasis.rs IndicatorBuilder::emphletter
@exit
    proof { told_orderly(*old(self), name@, *self); }
@spec
    requires orderly(*old(self)),
    ensures orderly(*final(self)), told(*old(self), name@, *final(self)), sign_of(final(self).classes@[name@].emphletter, dots@, *origin),
        exists|c: ClassIndicator| #[trigger] known(*old(self), name@, c) && final(self).classes@[name@] == (ClassIndicator { emphletter: final(self).classes@[name@].emphletter, ..c }),
@fn translator/indication/emphasis.rs IndicatorBuilder::begemphword
@exit
    proof { told_orderly(*old(self), name@, *self); }
@spec
    requires orderly(*old(self)),
    ensures orderly(*final(self)), told(*old(self), name@, *final(self)), sign_of(final(self).classes@[name@].begemphword, dots@, *origin),
        exists|c: ClassIndicator| #[trigger] known(*old(self), name@, c) && final(self).classes@[name@] == (ClassIndicator { begemphword: final(self).classes@[name@].begemphword, ..c }),
@fn translator/indication/emphasis.rs IndicatorBuilder::endemphword
@exit
    proof { told_orderly(*old(self), name@, *self); }
@spec
    requires orderly(*old(self)),
    ensures orderly(*final(self)), told(*old(self), name@, *final(self)), sign_of(final(self).classes@[name@].endemphword, dots@, *origin),
        exists|c: ClassIndicator| #[trigger] known(*old(self), name@, c) && final(self).classes@[name@] == (ClassIndicator { endemphword: final(self).classes@[name@].endemphword, ..c }),
@fn translator/indication/emphasis.rs IndicatorBuilder::begemphphrase
@exit
    proof { told_orderly(*old(self), name@, *self); }
@spec
    requires orderly(*old(self)),
    ensures orderly(*final(self)), told(*old(self), name@, *final(self)), sign_of(final(self).classes@[name@].begemphphrase, dots@, *origin),
        exists|c: ClassIndicator| #[trigger] known(*old(self), name@, c) && final(self).classes@[name@] == (ClassIndicator { begemphphrase: final(self).classes@[name@].begemphphrase, ..c }),
@fn translator/indication/emphasis.rs IndicatorBuilder::begemph
@exit
    proof { told_orderly(*old(self), name@, *self); }
@spec
    requires orderly(*old(self)),
    ensures orderly(*final(self)), told(*old(self), name@, *final(self)), sign_of(final(self).classes@[name@].begemph, dots@, *origin),
        exists|c: ClassIndicator| #[trigger] known(*old(self), name@, c) && final(self).classes@[name@] == (ClassIndicator { begemph: final(self).classes@[name@].begemph, ..c }),
@fn translator/indication/emphasis.rs IndicatorBuilder::endemph
@exit
    proof { told_orderly(*old(self), name@, *self); }
@spec
    requires orderly(*old(self)),
    ensures orderly(*final(self)), told(*old(self), name@, *final(self)), sign_of(final(self).classes@[name@].endemph, dots@, *origin),
        exists|c: ClassIndicator| #[trigger] known(*old(self), name@, c) && final(self).classes@[name@] == (ClassIndicator { endemph: final(self).classes@[name@].endemph, ..c }),
@fn translator/indication/emphasis.rs IndicatorBuilder::endemphphrase
@exit
    proof { told_orderly(*old(self), name@, *self); }
@spec
    requires orderly(*old(self)),
    ensures orderly(*final(self)), told(*old(self), name@, *final(self)), sign_of(final(self).classes@[name@].endemphphrase, dots@, *origin),
        exists|c: ClassIndicator| #[trigger] known(*old(self), name@, c) && final(self).classes@[name@] == (ClassIndicator { endemphphrase: final(self).classes@[name@].endemphphrase, endemphphrase_before: position is Before, ..c }),
@fn translator/indication/emphasis.rs IndicatorBuilder::lenemphphrase
@exit
    proof { told_orderly(*old(self), name@, *self); }
@spec
    requires orderly(*old(self)),
    ensures orderly(*final(self)), told(*old(self), name@, *final(self)), final(self).classes@[name@].len_phrase == len,
        exists|c: ClassIndicator| #[trigger] known(*old(self), name@, c) && final(self).classes@[name@] == (ClassIndicator { len_phrase: final(self).classes@[name@].len_phrase, ..c }),
@fn translator/indication/emphasis.rs IndicatorBuilder::emphmodechars
@subst chars.chars().collect() =>> set_of(chars)
@exit
    proof { told_orderly(*old(self), name@, *self); }
@spec
    requires orderly(*old(self)),
    ensures orderly(*final(self)), told(*old(self), name@, *final(self)), final(self).classes@[name@].emphmodechars@ == chars@.to_set(),
        exists|c: ClassIndicator| #[trigger] known(*old(self), name@, c) && final(self).classes@[name@] == (ClassIndicator { emphmodechars: final(self).classes@[name@].emphmodechars, ..c }),
@fn translator/indication/emphasis.rs IndicatorBuilder::noemphchars
@subst chars.chars().collect() =>> set_of(chars)
@exit
    proof { told_orderly(*old(self), name@, *self); }
@spec
    requires orderly(*old(self)),
    ensures orderly(*final(self)), told(*old(self), name@, *final(self)), final(self).classes@[name@].noemphchars@ == chars@.to_set(),
        exists|c: ClassIndicator| #[trigger] known(*old(self), name@, c) && final(self).classes@[name@] == (ClassIndicator { noemphchars: final(self).classes@[name@].noemphchars, ..c }),
@raw
spec fn indicating(t: ClassIndicator) -> bool { t.emphletter is Some || t.begemphword is Some || t.begemph is Some || t.begemphphrase is Some }
/// the classes that have a sign, in order, with the table's character classes
spec fn kept(b: B, x: CharacterClasses, n: int) -> Seq<ClassIndicator> decreases n {
    if n <= 0 { seq![] } else {
        let c = b.classes@[b.class_order@[n - 1]@];
        if indicating(c) { kept(b, x, n - 1).push(ClassIndicator { character_classes: x, ..c }) } else { kept(b, x, n - 1) }
    }
}
proof fn kept_quiet(b: B, x: CharacterClasses, n: int)
    requires orderly(b), n <= b.class_order@.len(),
    ensures forall|k: int| 0 <= k < kept(b, x, n).len() ==> quiet(#[trigger] kept(b, x, n)[k]),
    decreases n,
{ if n > 0 { kept_quiet(b, x, n - 1); assert(listed(b.class_order@, b.class_order@[n - 1]@)); assert(in_map(b, b.class_order@[n - 1]@)); let c = b.classes@[b.class_order@[n - 1]@]; assert(quiet(c)); assert(quiet(ClassIndicator { character_classes: x, ..c }));
    let (p, q) = (kept(b, x, n - 1), kept(b, x, n));
    assert forall|k: int| 0 <= k < q.len() implies quiet(#[trigger] q[k]) by { if k < p.len() { assert(q[k] == p[k]); } } } }
@fn translator/indication/emphasis.rs IndicatorBuilder::build loops=1 owned_iter
@spec
    requires orderly(self),
    ensures r is Some <==> kept(self, classes(*ctx), self.class_order@.len() as int).len() > 0,
        r is Some ==> r->0.classes@ == kept(self, classes(*ctx), self.class_order@.len() as int) && all_quiet(r->0),
@entry
    let ghost b = self;
    let ghost x = classes(*ctx);
    proof { assert forall|k: int| 0 <= k < b.class_order@.len() implies in_map(b, (#[trigger] b.class_order@[k])@) by { assert(listed(b.class_order@, b.class_order@[k]@)); } }
@loop 0
    invariant orderly(b), x == classes(*ctx), __s0@ == b.class_order@, __i0 <= __s0@.len(), __acc0@ == kept(b, x, __i0 as int),
        forall|k: int| __i0 <= k < __s0@.len() ==> __me.classes@.dom().contains((#[trigger] __s0@[k])@) && __me.classes@[__s0@[k]@] == b.classes@[__s0@[k]@],
    decreases __s0@.len() - __i0,
@loop 0 start
    proof { assert(__me.classes@.dom().contains(__s0@[__i0 as int]@)); }
@loop 0 post
    proof { kept_quiet(b, x, b.class_order@.len() as int); }
