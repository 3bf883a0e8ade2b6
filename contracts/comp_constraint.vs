@include constraint_types.vs
@type translator/position_constraints.rs ComputerBrailleConstrainer
@raw
spec fn in_comp(spans: Seq<EmphasisSpan>, i: int) -> bool {
    exists|k: int| 0 <= k < spans.len() && (#[trigger] spans[k]).class@ == "computer_braille"@ && spans[k].range.start <= i < spans[k].range.end
}
@fn translator/position_constraints.rs ComputerBrailleConstrainer::compute loops=2 slice=spans
@subst input . chars ( ) . count ( ) =>> str_chars ( input ) . len ( )
@subst vec ! [ Constraints :: empty ( ) ; n ] =>> no_constraints ( n )
@subst span . class == "computer_braille" =>> is_computer_braille ( span )
@subst span . range . end . min ( n ) =>> usize_min ( span . range . end , n )
@subst constraints [ pos ] . insert ( Constraint :: UseComp6 ) =>> mark ( & mut constraints , pos , Constraint :: UseComp6 )
@spec
    ensures r@.len() == input@.len(), forall|i: int, c: Constraint| 0 <= i < r@.len() ==> (#[trigger] has(r@, i, c) <==> c is UseComp6 && in_comp(spans@, i)),
@loop 0
    invariant
        __i0 <= spans@.len(), constraints@.len() == n == input@.len(),
        forall|i: int, c: Constraint| 0 <= i < n ==> (#[trigger] has(constraints@, i, c) <==> c is UseComp6 && in_comp(spans@.take(__i0 as int), i)),
    decreases spans@.len() - __i0,
@loop 0 start
    let ghost before = constraints@;
    let ghost k0 = __i0 as int;
@loop 1
    invariant
        constraints@.len() == n == input@.len(), before.len() == n, end <= n, k0 < spans@.len(), *span == spans@[k0],
        forall|i: int, c: Constraint| 0 <= i < n ==> (#[trigger] has(constraints@, i, c) <==> has(before, i, c) || (c is UseComp6 && span.range.start <= i < pos && i < end)),
@loop 1 start
    let ghost b1 = constraints@;
@loop 1 end
    proof { assert forall|i: int, c: Constraint| 0 <= i < n implies (#[trigger] has(constraints@, i, c) <==> has(before, i, c) || (c is UseComp6 && span.range.start <= i < pos + 1 && i < end)) by { assert(has(b1, i, c) <==> has(before, i, c) || (c is UseComp6 && span.range.start <= i < pos && i < end)); } }
@loop 0 end
    proof {
        assert forall|i: int, c: Constraint| 0 <= i < n implies (#[trigger] has(constraints@, i, c) <==> c is UseComp6 && in_comp(spans@.take(__i0 as int), i)) by {
            let old = spans@.take(k0);
            let new = spans@.take(__i0 as int);
            assert(has(before, i, c) <==> c is UseComp6 && in_comp(old, i));
            if in_comp(old, i) { let k = choose|k: int| 0 <= k < old.len() && (#[trigger] old[k]).class@ == "computer_braille"@ && old[k].range.start <= i < old[k].range.end; assert(new[k] == old[k]); }
            if in_comp(new, i) && !in_comp(old, i) { let k = choose|k: int| 0 <= k < new.len() && (#[trigger] new[k]).class@ == "computer_braille"@ && new[k].range.start <= i < new[k].range.end; if k < k0 { assert(old[k] == new[k]); } assert(k == k0); }
            assert(new[k0] == spans@[k0]);
        }
    }
@loop 0 post
    proof { assert(spans@.take(spans@.len() as int) =~= spans@); }
