@include constraint_types.vs
@type translator/position_constraints.rs NumericConstrainer
@raw
spec fn is_num(t: NumericConstrainer, c: char) -> bool { t.numeric_chars@.contains(c) }
spec fn bridges(t: NumericConstrainer, s: Seq<char>, i: int) -> bool {
    ||| t.extra_numeric_chars@.contains(s[i])
    ||| t.extra_numeric_chars@ =~= Set::<char>::empty() && t.mid_numeric_chars@.contains(s[i]) && i + 1 < s.len() && is_num(t, s[i + 1])
}
/// position i belongs to a numeric run
spec fn in_number(t: NumericConstrainer, s: Seq<char>, i: int) -> bool decreases i {
    0 <= i < s.len() && (is_num(t, s[i]) || (i > 0 && in_number(t, s, i - 1) && bridges(t, s, i)))
}
@fn translator/position_constraints.rs NumericConstrainer::compute loops=1
@subst vec ! [ Constraints :: empty ( ) ; chars . len ( ) ] =>> no_constraints ( chars . len ( ) )
@subst constraints [ pos ] . insert ( Constraint :: DontContract ) =>> mark ( & mut constraints , pos , Constraint :: DontContract )
@subst chars . get ( pos + 1 ) . is_some_and ( | nc | self . numeric_chars . contains ( nc ) ) =>> set_has_at ( & self . numeric_chars , & chars , pos + 1 )
@spec
    ensures r@.len() == input@.len(), forall|i: int, c: Constraint| 0 <= i < r@.len() ==> (#[trigger] has(r@, i, c) <==> c is DontContract && in_number(*self, input@, i)),
@loop 0
    invariant
        chars@ == input@, chars@.len() <= isize::MAX, __i0 <= chars@.len(), constraints@.len() == chars@.len(), in_numeric == in_number(*self, input@, __i0 - 1),
        forall|i: int, c: Constraint| 0 <= i < constraints@.len() ==> (#[trigger] has(constraints@, i, c) <==> i < __i0 && c is DontContract && in_number(*self, input@, i)),
    decreases chars@.len() - __i0,
@loop 0 start
    let ghost before = constraints@;
@loop 0 end
    proof { assert forall|i: int, c: Constraint| 0 <= i < constraints@.len() implies (#[trigger] has(constraints@, i, c) <==> i < __i0 && c is DontContract && in_number(*self, input@, i)) by { assert(has(before, i, c) <==> i < __i0 - 1 && c is DontContract && in_number(*self, input@, i)); } }
