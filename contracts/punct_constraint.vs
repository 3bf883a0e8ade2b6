@include constraint_types.vs
@type translator/position_constraints.rs PunctuationConstrainer
@raw
spec fn lod(t: PunctuationConstrainer, c: char) -> bool { t.letter_or_digit_chars@.contains(c) }
/// going right from k, a letter or digit comes before any white space
spec fn word_right(t: PunctuationConstrainer, s: Seq<char>, k: int) -> bool decreases s.len() - k {
    k < s.len() && (lod(t, s[k]) || (!t.space_chars@.contains(s[k]) && word_right(t, s, k + 1)))
}
/// going left from k - 1, a letter or digit comes before any white space
spec fn word_left(t: PunctuationConstrainer, s: Seq<char>, k: int) -> bool decreases k {
    k > 0 && (lod(t, s[k - 1]) || (!t.space_chars@.contains(s[k - 1]) && word_left(t, s, k - 1)))
}
spec fn prepunc(t: PunctuationConstrainer, s: Seq<char>, i: int) -> bool { (i == 0 || !t.letter_chars@.contains(s[i - 1])) && word_right(t, s, i + 1) }
spec fn postpunc(t: PunctuationConstrainer, s: Seq<char>, i: int) -> bool { (i == s.len() - 1 || !t.letter_chars@.contains(s[i + 1])) && word_left(t, s, i) }
spec fn punct(t: PunctuationConstrainer, s: Seq<char>, i: int, c: Constraint) -> bool { (c is PrepuncOk && prepunc(t, s, i)) || (c is PostpuncOk && postpunc(t, s, i)) }
@fn translator/position_constraints.rs PunctuationConstrainer::compute loops=3 ranges
@subst vec ! [ Constraints :: empty ( ) ; n ] =>> no_constraints ( n )
@subst constraints [ pos ] . insert ( Constraint :: PrepuncOk ) =>> mark ( & mut constraints , pos , Constraint :: PrepuncOk )
@subst constraints [ pos ] . insert ( Constraint :: PostpuncOk ) =>> mark ( & mut constraints , pos , Constraint :: PostpuncOk )
@spec
    ensures r@.len() == input@.len(), forall|i: int, c: Constraint| 0 <= i < r@.len() ==> (#[trigger] has(r@, i, c) <==> punct(*self, input@, i, c)),
@loop 0
    invariant
        chars@ == input@, n == chars@.len(), constraints@.len() == n, n <= isize::MAX, __i0 <= n, __s0 == n,
        forall|i: int, c: Constraint| 0 <= i < n ==> (#[trigger] has(constraints@, i, c) <==> i < __i0 && punct(*self, input@, i, c)),
    decreases n - __i0,
@loop 0 start
    let ghost before = constraints@;
@loop 1
    invariant_except_break
        word_right(*self, input@, pos + 1) == word_right(*self, input@, __i1 as int), constraints@ == before,
    invariant
        chars@ == input@, n == chars@.len(), constraints@.len() == n, before.len() == n, pos < n, n <= isize::MAX,
        __i1 <= __s1 == n, pos < __i1,
    ensures
        forall|i: int, c: Constraint| 0 <= i < n ==> (#[trigger] has(constraints@, i, c) <==> has(before, i, c) || (i == pos && c is PrepuncOk && word_right(*self, input@, pos + 1))),
    decreases n - __i1,
@loop 2 pre
    let ghost mid = constraints@;
@loop 2
    invariant_except_break
        word_left(*self, input@, pos as int) == word_left(*self, input@, __i2 as int), constraints@ == mid,
    invariant
        chars@ == input@, n == chars@.len(), constraints@.len() == n, mid.len() == n, pos < n, n <= isize::MAX,
        __i2 <= __s2 == pos,
    ensures
        forall|i: int, c: Constraint| 0 <= i < n ==> (#[trigger] has(constraints@, i, c) <==> has(mid, i, c) || (i == pos && c is PostpuncOk && word_left(*self, input@, pos as int))),
    decreases __i2,
@loop 0 end
    proof { assert forall|i: int, c: Constraint| 0 <= i < n implies (#[trigger] has(constraints@, i, c) <==> i < __i0 && punct(*self, input@, i, c)) by { assert(has(before, i, c) <==> i < __i0 - 1 && punct(*self, input@, i, c)); } }
