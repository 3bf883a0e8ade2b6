@include common.vs
@type hyphenation.rs HyphenationTable
@type hyphenation.rs ParseError
@raw


// ---- trusted: std string plumbing used by break_points ----
/// byte offset of the i-th char of s (i == len: byte length)
uninterp spec fn byte_off(s: Seq<char>, i: int) -> usize;
/// stands for `format!(".{word}.")`
#[verifier::external_body]
fn dot_wrap(word: &str) -> (r: String)
    ensures r@ == seq!['.'] + word@ + seq!['.'],
{ format!(".{word}.") }
/// stands for the `char_indices` chain computing all char boundaries plus the end sentinel
#[verifier::external_body]
fn char_bounds(s: &str) -> (r: Vec<usize>)
    ensures r@.len() == s@.len() + 1,
            forall|i: int| 0 <= i <= s@.len() ==> r@[i] == byte_off(s@, i),
{ s.char_indices().map(|(b, _)| b).chain(std::iter::once(s.len())).collect() }
/// stands for `patterns.get(&w[a..b])`
#[verifier::external_body]
fn pat_get<'a>(m: &'a HashMap<String, Vec<u8>>, w: &str, a: usize, b: usize, Ghost(i): Ghost<int>, Ghost(j): Ghost<int>) -> (r: Option<&'a Vec<u8>>)
    requires 0 <= i <= j <= w@.len(), a == byte_off(w@, i), b == byte_off(w@, j),
    ensures match r { Some(t) => pats(*m).contains_key(w@.subrange(i, j)) && t@ == pats(*m)[w@.subrange(i, j)],
                      None => !pats(*m).contains_key(w@.subrange(i, j)) },
{ m.get(&w[a..b]) }

/// abstract view: letters -> scores of the gaps around them
uninterp spec fn pats(m: HashMap<String, Vec<u8>>) -> Map<Seq<char>, Seq<u8>>;

spec fn wf(t: HyphenationTable) -> bool {
    forall|k: Seq<char>| #[trigger] pats(t.patterns).contains_key(k) ==> pats(t.patterns)[k].len() == k.len() + 1
}

// ---- Liang's algorithm as a specification ----
/// pattern matched at wrapped[a..b] says something about gap g
spec fn applies(m: Map<Seq<char>, Seq<u8>>, w: Seq<char>, g: int, a: int, b: int) -> bool {
    0 <= a < b <= w.len() && a <= g <= b && m.contains_key(w.subrange(a, b))
}
spec fn val(m: Map<Seq<char>, Seq<u8>>, w: Seq<char>, g: int, a: int, b: int) -> u8 { m[w.subrange(a, b)][g - a] }
spec fn before(a: int, b: int, s: int, e: int) -> bool { a < s || (a == s && b < e) }
/// v is the highest score any pattern occurrence before (s,e) gives gap g (0 if none)
spec fn max_upto(m: Map<Seq<char>, Seq<u8>>, w: Seq<char>, g: int, v: u8, s: int, e: int) -> bool {
    &&& forall|a: int, b: int| #[trigger] applies(m, w, g, a, b) && before(a, b, s, e) ==> val(m, w, g, a, b) <= v
    &&& v == 0 || exists|a: int, b: int| #[trigger] applies(m, w, g, a, b) && before(a, b, s, e) && val(m, w, g, a, b) == v
}
/// v is the highest score any pattern occurrence in w gives gap g (0 if none)
spec fn liang(m: Map<Seq<char>, Seq<u8>>, w: Seq<char>, g: int, v: u8) -> bool {
    &&& forall|a: int, b: int| #[trigger] applies(m, w, g, a, b) ==> val(m, w, g, a, b) <= v
    &&& v == 0 || exists|a: int, b: int| #[trigger] applies(m, w, g, a, b) && val(m, w, g, a, b) == v
}
/// the score is unique, so the specification determines the result
proof fn liang_unique(m: Map<Seq<char>, Seq<u8>>, w: Seq<char>, g: int, v: u8, u: u8)
    requires liang(m, w, g, v), liang(m, w, g, u),
    ensures u == v,
{}
spec fn wrap(word: Seq<char>) -> Seq<char> { seq!['.'] + word + seq!['.'] }
spec fn is_break(t: HyphenationTable, word: Seq<char>, i: int) -> bool {
    &&& exists|v: u8| #[trigger] liang(pats(t.patterns), wrap(word), i + 2, v) && v % 2 == 1
    &&& i + 1 >= t.left_min
    &&& i + 1 <= word.len() - t.right_min
}
// ---- parsing of the .dic format ----
spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
spec fn dval(c: char) -> u8 { (c as u32 - '0' as u32) as u8 }
pub assume_specification [char::to_digit] (c: char, radix: u32) -> (r: Option<u32>)
    requires radix == 10,
    ensures r == if '0' <= c && c <= '9' { Some((c as u32 - '0' as u32) as u32) } else { None::<u32> };
pub assume_specification<'a> [str::trim] (s: &'a str) -> &'a str;
pub assume_specification [str::eq_ignore_ascii_case] (s: &str, o: &str) -> bool;
/// `source.lines()`
#[verifier::external_body]
fn str_lines(s: &str) -> (r: Vec<String>) ensures r@.len() < usize::MAX - 8 { s.lines().map(|l| l.to_string()).collect() }
#[verifier::external_body]
fn str_starts_with_char(s: &str, c: char) -> bool { s.starts_with(c) }
#[verifier::external_body]
fn str_strip_prefix<'a>(s: &'a str, p: &str) -> Option<&'a str> { s.strip_prefix(p) }
/// `patterns.insert(letters, tally)`
#[verifier::external_body]
fn pat_insert(m: &mut HashMap<String, Vec<u8>>, k: String, v: Vec<u8>)
    ensures pats(*final(m)) == pats(*old(m)).insert(k@, v@),
{ m.insert(k, v); }
#[verifier::external_body]
fn empty_table(left_min: usize, right_min: usize) -> (r: HyphenationTable)
    ensures r.left_min == left_min, r.right_min == right_min, pats(r.patterns) == Map::<Seq<char>, Seq<u8>>::empty(),
{ HyphenationTable { left_min, right_min, patterns: HashMap::new() } }

/// letters of a pattern: everything that is not a digit
spec fn letters_of(p: Seq<char>) -> Seq<char> decreases p.len() {
    if p.len() == 0 { seq![] } else if digit(p.last()) { letters_of(p.drop_last()) } else { letters_of(p.drop_last()).push(p.last()) }
}
/// scores of a pattern: one gap per letter plus one; a digit scores the gap it stands in
spec fn tally_of(p: Seq<char>) -> Seq<u8> decreases p.len() {
    if p.len() == 0 { seq![0u8] }
    else if digit(p.last()) { let t = tally_of(p.drop_last()); t.update(t.len() - 1, dval(p.last())) }
    else { tally_of(p.drop_last()).push(0u8) }
}
proof fn tally_len(p: Seq<char>) ensures tally_of(p).len() == letters_of(p).len() + 1 decreases p.len()
{ if p.len() > 0 { tally_len(p.drop_last()); } }
spec fn all_zero(t: Seq<u8>) -> bool { forall|i: int| 0 <= i < t.len() ==> t[i] == 0 }

@fn hyphenation.rs parse_hyphenmin assume
@spec
@fn hyphenation.rs parse_pattern loops=2
@spec
    requires lineno < usize::MAX,
    ensures match r {
        Ok(x) => x.0@ == letters_of(pattern@) && x.1@ == tally_of(pattern@) && !all_zero(x.1@) && x.1@.len() == x.0@.len() + 1,
        Err(e) => all_zero(tally_of(pattern@)),
    },
@loop 0
    invariant
        __s0@ == pattern@, __i0 <= __s0@.len(),
        letters@ == letters_of(pattern@.take(__i0 as int)),
        tally@ == tally_of(pattern@.take(__i0 as int)),
        tally@.len() > 0,
    decreases __s0@.len() - __i0,
@loop 0 start
    proof {
        assert(pattern@.take(__i0 as int + 1).drop_last() =~= pattern@.take(__i0 as int));
        assert(pattern@.take(__i0 as int + 1).last() == pattern@[__i0 as int]);
    }
@loop 0 end
    proof { assert(tally@ =~= tally_of(pattern@.take(__i0 as int))); }
@loop 0 post
    proof { assert(pattern@.take(__s0@.len() as int) =~= pattern@); tally_len(pattern@); }
@loop 1
    invariant_except_break __acc1,
        forall|j: int| 0 <= j < __i1 ==> tally@[j] == 0,
    invariant
        __i1 <= tally@.len(),
    ensures __acc1 <==> all_zero(tally@),
    decreases tally@.len() - __i1,
@fn hyphenation.rs HyphenationTable::parse loops=1
@subst HyphenationTable { left_min : 1 , right_min : 1 , .. Default :: default ( ) } =>> empty_table ( 1 , 1 )
@subst source . lines ( ) . enumerate ( ) =>> str_lines ( source ) . iter ( ) . enumerate ( )
@subst line . starts_with ( '#' ) =>> str_starts_with_char ( line , '#' )
@subst line . starts_with ( '%' ) =>> str_starts_with_char ( line , '%' )
@subst line . strip_prefix ( "LEFTHYPHENMIN" ) =>> str_strip_prefix ( line , "LEFTHYPHENMIN" )
@subst line . strip_prefix ( "RIGHTHYPHENMIN" ) =>> str_strip_prefix ( line , "RIGHTHYPHENMIN" )
@subst table . patterns . insert ( letters , tally ) =>> pat_insert ( & mut table . patterns , letters , tally )
@spec
    ensures r is Ok ==> wf(r->Ok_0),
@loop 0
    invariant wf(table), __i0 <= __s0@.len(), __s0@.len() < usize::MAX - 8,
    decreases __s0@.len() - __i0,
@fn hyphenation.rs HyphenationTable::break_points loops=4
@subst format ! ( ".{word}." ) =>> dot_wrap ( word )
@subst wrapped . char_indices ( ) . map ( | ( b , _ ) | b ) . chain ( std :: iter :: once ( wrapped . len ( ) ) ) . collect ( ) =>> char_bounds ( & wrapped )
@subst self . patterns . get ( & wrapped [ bounds [ start ] .. bounds [ end ] ] ) =>> pat_get ( & self . patterns , & wrapped , bounds [ start ] , bounds [ end ] , Ghost ( start as int ) , Ghost ( end as int ) )
@spec
    requires wf(*self),
    ensures
        word@.len() < 2 ==> r@.len() == 0,
        word@.len() >= 2 ==> r@.len() == word@.len() - 1,
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i] <==> is_break(*self, word@, i)),
@loop 0
    invariant
        wf(*self), wrapped@ == wrap(word@), bounds@.len() == wrapped@.len() + 1,
        wrapped@.len() < usize::MAX - 8,
        forall|i: int| 0 <= i <= wrapped@.len() ==> bounds@[i] == byte_off(wrapped@, i),
        wrapped_chars == wrapped@.len(), scores@.len() == wrapped_chars + 1,
        forall|g: int| 0 <= g <= wrapped_chars ==> max_upto(pats(self.patterns), wrapped@, g, #[trigger] scores@[g], start as int, start + 1),
@loop 0 end
    proof {
        assert forall|g: int| 0 <= g <= wrapped_chars implies max_upto(pats(self.patterns), wrapped@, g, #[trigger] scores@[g], start + 1, start + 2) by {
            let m = pats(self.patterns);
            let w = wrapped@;
            assert(max_upto(m, w, g, scores@[g], start as int, wrapped_chars + 1));
            assert forall|a: int, b: int| applies(m, w, g, a, b) && before(a, b, start + 1, start + 2) implies before(a, b, start as int, wrapped_chars + 1) by {}
            assert forall|a: int, b: int| applies(m, w, g, a, b) && before(a, b, start as int, wrapped_chars + 1) implies before(a, b, start + 1, start + 2) by {}
        }
    }
@loop 1
    invariant
        wf(*self), wrapped@ == wrap(word@), bounds@.len() == wrapped@.len() + 1,
        wrapped@.len() < usize::MAX - 8,
        forall|i: int| 0 <= i <= wrapped@.len() ==> bounds@[i] == byte_off(wrapped@, i),
        wrapped_chars == wrapped@.len(), scores@.len() == wrapped_chars + 1, start < wrapped_chars,
        forall|g: int| 0 <= g <= wrapped_chars ==> max_upto(pats(self.patterns), wrapped@, g, #[trigger] scores@[g], start as int, end as int),
@loop 1 start
    let ghost before_scores = scores@;
@loop 1 end
    proof {
        let m = pats(self.patterns);
        let w = wrapped@;
        assert forall|g: int| 0 <= g <= wrapped_chars implies max_upto(m, w, g, #[trigger] scores@[g], start as int, end + 1) by {
            assert(max_upto(m, w, g, before_scores[g], start as int, end as int));
            assert forall|a: int, b: int| #[trigger] applies(m, w, g, a, b) && before(a, b, start as int, end + 1) implies val(m, w, g, a, b) <= scores@[g] by {
                if before(a, b, start as int, end as int) {} else { assert(a == start && b == end); }
            }
            if scores@[g] != before_scores[g] {
                assert(applies(m, w, g, start as int, end as int) && val(m, w, g, start as int, end as int) == scores@[g]);
            } else if scores@[g] != 0 {
                let (a, b) = choose|a: int, b: int| #[trigger] applies(m, w, g, a, b) && before(a, b, start as int, end as int) && val(m, w, g, a, b) == before_scores[g];
                assert(applies(m, w, g, a, b) && before(a, b, start as int, end + 1));
            }
        }
    }
@loop 2
    invariant
        __i0 <= tally@.len(), tally@ == pats(self.patterns)[wrapped@.subrange(start as int, end as int)],
        tally@.len() == end - start + 1, pats(self.patterns).contains_key(wrapped@.subrange(start as int, end as int)),
        start < end <= wrapped_chars, wrapped_chars == wrapped@.len(), scores@.len() == wrapped_chars + 1,
        wrapped@.len() < usize::MAX - 8, before_scores.len() == wrapped_chars + 1,
        forall|g: int| 0 <= g <= wrapped_chars ==> #[trigger] scores@[g] == (
            if start <= g < start + __i0 && tally@[g - start] > before_scores[g] { tally@[g - start] } else { before_scores[g] }),
    decreases tally@.len() - __i0,
@loop 0 post
    proof {
        assert forall|g: int| 0 <= g <= wrapped_chars implies liang(pats(self.patterns), wrapped@, g, #[trigger] scores@[g]) by {
            assert(max_upto(pats(self.patterns), wrapped@, g, scores@[g], wrapped_chars as int, wrapped_chars + 1));
            assert forall|a: int, b: int| applies(pats(self.patterns), wrapped@, g, a, b) implies before(a, b, wrapped_chars as int, wrapped_chars + 1) by {}
        }
    }
@loop 3
    invariant
        wrapped@ == wrap(word@), char_count == word@.len(), wrapped_chars == wrapped@.len(), scores@.len() == wrapped_chars + 1,
        char_count >= 2, char_count >= self.left_min + self.right_min, wrapped@.len() < usize::MAX - 8,
        forall|g: int| 0 <= g <= wrapped_chars ==> liang(pats(self.patterns), wrapped@, g, #[trigger] scores@[g]),
        __s1 == char_count - 1, __i1 <= __s1, __acc1@.len() == __i1,
        forall|i: int| 0 <= i < __i1 ==> (#[trigger] __acc1@[i] <==> is_break(*self, word@, i)),
    decreases __s1 - __i1,
@loop 3 end
    proof {
        let i = __i1 - 1;
        assert(liang(pats(self.patterns), wrapped@, i + 2, scores@[i + 2]));
        assert forall|v: u8| #[trigger] liang(pats(self.patterns), wrapped@, i + 2, v) implies v == scores@[i + 2] by {
            liang_unique(pats(self.patterns), wrapped@, i + 2, v, scores@[i + 2]);
        }
    }
