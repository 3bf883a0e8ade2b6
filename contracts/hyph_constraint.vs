@include constraint_types.vs
@raw
/// the dictionary; what `break_points` answers is proved in hyphenation.vs
struct HyphenationTable { id: usize }
uninterp spec fn breaks(t: HyphenationTable, word: Seq<char>) -> Seq<bool>;
impl HyphenationTable {
    #[verifier::external_body]
    fn break_points(&self, word: &String) -> (r: Vec<bool>)
        ensures r@ == breaks(*self, word@), r@.len() == (if word@.len() < 2 { 0 } else { word@.len() - 1 }),
    { unimplemented!() }
}
#[verifier::external_body]
fn string_of(s: &[char]) -> (r: String) ensures r@ == s@ { s.iter().collect() }
fn get_or_insert(o: &mut Option<usize>, v: usize)
    ensures *final(o) == (if *old(o) is Some { *old(o) } else { Some(v) }),
{ if o.is_none() { *o = Some(v); } }
@type translator/position_constraints.rs HyphenationConstrainer
@raw
spec fn letter(t: HyphenationConstrainer, c: char) -> bool { t.letter_chars@.contains(c) }
/// s[a..b) is a maximal run of letters
spec fn word(t: HyphenationConstrainer, s: Seq<char>, a: int, b: int) -> bool {
    &&& 0 <= a < b <= s.len()
    &&& forall|j: int| a <= j < b ==> letter(t, #[trigger] s[j])
    &&& a > 0 ==> !letter(t, s[a - 1])
    &&& b < s.len() ==> !letter(t, s[b])
}
/// the dictionary allows a break behind position i, inside the word s[a..b)
spec fn breaks_in(t: HyphenationConstrainer, s: Seq<char>, a: int, b: int, i: int) -> bool {
    a <= i < b - 1 && breaks(t.hyphenator, s.subrange(a, b))[i - a]
}
spec fn break_at(t: HyphenationConstrainer, s: Seq<char>, i: int) -> bool {
    exists|a: int, b: int| #[trigger] word(t, s, a, b) && breaks_in(t, s, a, b, i)
}
/// no word straddles: two maximal runs that share a position are the same
proof fn same_word(t: HyphenationConstrainer, s: Seq<char>, a: int, b: int, c: int, d: int, i: int)
    requires word(t, s, a, b), word(t, s, c, d), a <= i < b, c <= i < d,
    ensures a == c, b == d,
{
    if a < c { assert(letter(t, s[c - 1])); }
    if c < a { assert(letter(t, s[a - 1])); }
    if b < d { assert(letter(t, s[b])); }
    if d < b { assert(letter(t, s[d])); }
}
@fn translator/position_constraints.rs HyphenationConstrainer::mark_word loops=1 owned_iter
@sig fn mark_word(&self, constraints: &mut Vec<Constraints>, chars: &Vec<char>, start: usize, end: usize)
@subst chars [ start .. end ] . iter ( ) . collect ( ) =>> string_of ( & chars [ start .. end ] )
@subst constraints [ start + i ] . insert ( Constraint :: HyphenationBreak ) =>> mark ( constraints , start + i , Constraint :: HyphenationBreak )
@spec
    requires start < end <= chars@.len(), old(constraints)@.len() == chars@.len(),
    ensures final(constraints)@.len() == chars@.len(),
        forall|i: int, c: Constraint| 0 <= i < chars@.len() ==> (#[trigger] has(final(constraints)@, i, c) <==> has(old(constraints)@, i, c) || (c is HyphenationBreak && breaks_in(*self, chars@, start as int, end as int, i))),
@entry
    let ghost before = constraints@;
@loop 0
    invariant
        constraints@.len() == chars@.len() == before.len(), start < end <= chars@.len(), __i0 <= __s0@.len(),
        __s0@ == breaks(self.hyphenator, chars@.subrange(start as int, end as int)), __s0@.len() == end - start - 1,
        forall|i: int, c: Constraint| 0 <= i < chars@.len() ==> (#[trigger] has(constraints@, i, c) <==> has(before, i, c) || (c is HyphenationBreak && i < start + __i0 && breaks_in(*self, chars@, start as int, end as int, i))),
    decreases __s0@.len() - __i0,
@loop 0 start
    let ghost b0 = constraints@;
@loop 0 end
    proof { assert forall|i: int, c: Constraint| 0 <= i < chars@.len() implies (#[trigger] has(constraints@, i, c) <==> has(before, i, c) || (c is HyphenationBreak && i < start + __i0 && breaks_in(*self, chars@, start as int, end as int, i))) by {
        assert(has(b0, i, c) <==> has(before, i, c) || (c is HyphenationBreak && i < start + __i0 - 1 && breaks_in(*self, chars@, start as int, end as int, i))); } }
@fn translator/position_constraints.rs HyphenationConstrainer::compute loops=1
@subst vec ! [ Constraints :: empty ( ) ; chars . len ( ) ] =>> no_constraints ( chars . len ( ) )
@subst let mut word_start = None =>> let mut word_start : Option < usize > = None
@subst word_start . get_or_insert ( pos ) =>> get_or_insert ( & mut word_start , pos )
@spec
    ensures r@.len() == input@.len(), forall|i: int, c: Constraint| 0 <= i < r@.len() ==> (#[trigger] has(r@, i, c) <==> c is HyphenationBreak && break_at(*self, input@, i)),
@loop 0
    invariant
        chars@ == input@, chars@.len() <= isize::MAX, __i0 <= chars@.len(), constraints@.len() == chars@.len(),
        word_start is Some ==> word_start->0 < __i0 && (word_start->0 > 0 ==> !letter(*self, input@[word_start->0 - 1])) && forall|j: int| word_start->0 <= j < __i0 ==> letter(*self, #[trigger] input@[j]),
        word_start is None && __i0 > 0 ==> !letter(*self, input@[__i0 - 1]),
        forall|i: int, c: Constraint| 0 <= i < constraints@.len() ==> (#[trigger] has(constraints@, i, c) <==> c is HyphenationBreak && break_at(*self, input@, i) && i < (if word_start is Some { word_start->0 as int } else { __i0 as int })),
    decreases chars@.len() - __i0,
@loop 0 start
    let ghost ws0 = word_start;
    let ghost p0 = __i0 as int;
    let ghost c0 = constraints@;
@loop 0 end
    proof {
        assert forall|i: int, c: Constraint| 0 <= i < constraints@.len() implies (#[trigger] has(constraints@, i, c) <==> c is HyphenationBreak && break_at(*self, input@, i) && i < (if word_start is Some { word_start->0 as int } else { __i0 as int })) by {
            assert(has(c0, i, c) <==> c is HyphenationBreak && break_at(*self, input@, i) && i < (if ws0 is Some { ws0->0 as int } else { p0 }));
            if ws0 is Some && word_start is None {
                assert(word(*self, input@, ws0->0 as int, p0));
                if break_at(*self, input@, i) {
                    let (a, b) = choose|a: int, b: int| #[trigger] word(*self, input@, a, b) && breaks_in(*self, input@, a, b, i);
                    if ws0->0 <= i < p0 { same_word(*self, input@, a, b, ws0->0 as int, p0, i); }
                }
            }
            if i == p0 && !letter(*self, input@[p0]) && break_at(*self, input@, i) { let (a, b) = choose|a: int, b: int| #[trigger] word(*self, input@, a, b) && breaks_in(*self, input@, a, b, i); }
        }
    }
@exit
    proof {
        let n = chars@.len() as int;
        assert forall|i: int, c: Constraint| 0 <= i < constraints@.len() implies (#[trigger] has(constraints@, i, c) <==> c is HyphenationBreak && break_at(*self, input@, i)) by {
            if last0 is Some {
                assert(word(*self, input@, last0->0 as int, n));
                if break_at(*self, input@, i) && last0->0 <= i {
                    let (a, b) = choose|a: int, b: int| #[trigger] word(*self, input@, a, b) && breaks_in(*self, input@, a, b, i);
                    same_word(*self, input@, a, b, last0->0 as int, n, i);
                }
                assert(has(cl, i, c) <==> c is HyphenationBreak && break_at(*self, input@, i) && i < last0->0);
            }
        }
    }
@before if let Some ( start ) = word_start
    let ghost last0 = word_start;
    let ghost cl = constraints@;
