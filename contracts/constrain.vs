@include constraint_types.vs
@raw
/// (contract of the constrainer)
#[verifier::external_body] struct NumericConstrainer { id: usize }
impl NumericConstrainer {
    uninterp spec fn sets(&self, w: Seq<char>, i: int, c: Constraint) -> bool;
    #[verifier::external_body] fn compute(&self, input: &str) -> (r: Vec<Constraints>)
        ensures r@.len() == input@.len(), forall|i: int, c: Constraint| 0 <= i < r@.len() ==> (#[trigger] has(r@, i, c) <==> self.sets(input@, i, c)) { unimplemented!() }
}
/// (contract of the constrainer)
#[verifier::external_body] struct ComputerBrailleConstrainer { id: usize }
impl ComputerBrailleConstrainer {
    uninterp spec fn sets(&self, w: Seq<char>, spans: Seq<EmphasisSpan>, i: int, c: Constraint) -> bool;
    #[verifier::external_body] fn compute(&self, input: &str, spans: &[EmphasisSpan]) -> (r: Vec<Constraints>)
        ensures r@.len() == input@.len(), forall|i: int, c: Constraint| 0 <= i < r@.len() ==> (#[trigger] has(r@, i, c) <==> self.sets(input@, spans@, i, c)) { unimplemented!() }
}
/// (contract of the constrainer)
#[verifier::external_body] struct BackwardCapsConstrainer { id: usize }
impl BackwardCapsConstrainer {
    uninterp spec fn sets(&self, w: Seq<char>, i: int, c: Constraint) -> bool;
    #[verifier::external_body] fn compute(&self, input: &str) -> (r: Vec<Constraints>)
        ensures r@.len() == input@.len(), forall|i: int, c: Constraint| 0 <= i < r@.len() ==> (#[trigger] has(r@, i, c) <==> self.sets(input@, i, c)) { unimplemented!() }
}
/// (contract of the constrainer)
#[verifier::external_body] struct BackwardNumericConstrainer { id: usize }
impl BackwardNumericConstrainer {
    uninterp spec fn sets(&self, w: Seq<char>, i: int, c: Constraint) -> bool;
    #[verifier::external_body] fn compute(&self, input: &str) -> (r: Vec<Constraints>)
        ensures r@.len() == input@.len(), forall|i: int, c: Constraint| 0 <= i < r@.len() ==> (#[trigger] has(r@, i, c) <==> self.sets(input@, i, c)) { unimplemented!() }
}
/// (contract of the constrainer)
#[verifier::external_body] struct HyphenationConstrainer { id: usize }
impl HyphenationConstrainer {
    uninterp spec fn sets(&self, w: Seq<char>, i: int, c: Constraint) -> bool;
    #[verifier::external_body] fn compute(&self, input: &str) -> (r: Vec<Constraints>)
        ensures r@.len() == input@.len(), forall|i: int, c: Constraint| 0 <= i < r@.len() ==> (#[trigger] has(r@, i, c) <==> self.sets(input@, i, c)) { unimplemented!() }
}
/// (contract of the constrainer)
#[verifier::external_body] struct PunctuationConstrainer { id: usize }
impl PunctuationConstrainer {
    uninterp spec fn sets(&self, w: Seq<char>, i: int, c: Constraint) -> bool;
    #[verifier::external_body] fn compute(&self, input: &str) -> (r: Vec<Constraints>)
        ensures r@.len() == input@.len(), forall|i: int, c: Constraint| 0 <= i < r@.len() ==> (#[trigger] has(r@, i, c) <==> self.sets(input@, i, c)) { unimplemented!() }
}
@type translator/position_constraints.rs Constrainer derive=
@type translator/position_constraints.rs Constrainers derive=
@type translator/position_constraints.rs PositionConstraints derive=
@raw
spec fn sets(k: Constrainer, w: Seq<char>, spans: Seq<EmphasisSpan>, i: int, c: Constraint) -> bool {
    match k {
        Constrainer::Numeric(k) => k.sets(w, i, c),
        Constrainer::ComputerBraille(k) => k.sets(w, spans, i, c),
        Constrainer::BackwardCaps(k) => k.sets(w, i, c),
        Constrainer::BackwardNumeric(k) => k.sets(w, i, c),
        Constrainer::Hyphenation(k) => k.sets(w, i, c),
        Constrainer::Punctuation(k) => k.sets(w, i, c),
    }
}
/// some constrainer sets c at position i
spec fn some_sets(v: Seq<Constrainer>, w: Seq<char>, spans: Seq<EmphasisSpan>, i: int, c: Constraint) -> bool decreases v.len() {
    v.len() > 0 && (some_sets(v.drop_last(), w, spans, i, c) || sets(v.last(), w, spans, i, c))
}
/// the element that `iter_mut()` visits as number i, joined with `more` (`*accum |= computed`)
#[verifier::external_body]
fn join_at(v: &mut Vec<Constraints>, i: usize, more: Constraints)
    requires i < old(v)@.len(),
    ensures final(v)@.len() == old(v)@.len(), final(v)@[i as int]@ == old(v)@[i as int]@.union(more@),
        forall|k: int| 0 <= k < old(v)@.len() && k != i ==> final(v)@[k] == old(v)@[k],
{ unimplemented!() }
@fn translator/position_constraints.rs Constrainer::compute
@spec
    ensures r@.len() == input@.len(), forall|i: int, c: Constraint| 0 <= i < r@.len() ==> (#[trigger] has(r@, i, c) <==> sets(*self, input@, spans@, i, c)),
@fn translator/position_constraints.rs Constrainers::precompute loops=2 owned_iter owned=constrainer.compute(input,spans)
@subst input.chars().count() =>> str_chars(input).len()
@subst vec![Constraints::empty(); n] =>> no_constraints(n)
@subst in &self.0 =>> in self.0.iter()
@subst constraints.iter_mut().zip(constrainer.compute(input, spans)) =>> constrainer.compute(input, spans).into_iter().enumerate()
@subst *accum |= computed =>> join_at(&mut constraints, accum, computed)
@spec
    ensures r.0@.len() == input@.len(), forall|i: int, c: Constraint| 0 <= i < input@.len() ==> (#[trigger] has(r.0@, i, c) <==> some_sets(self.0@, input@, spans@, i, c)),
@loop 0
    invariant n == input@.len(), __i0 <= self.0@.len(), constraints@.len() == n,
        forall|i: int, c: Constraint| 0 <= i < n ==> (#[trigger] has(constraints@, i, c) <==> some_sets(self.0@.take(__i0 as int), input@, spans@, i, c)),
    decreases self.0@.len() - __i0,
@loop 0 start
    let ghost b0 = constraints@;
    let ghost i0 = __i0 as int;
    proof { assert(self.0@.take(i0 + 1).drop_last() =~= self.0@.take(i0)); }
@loop 0 post
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
@loop 1
    invariant n == input@.len(), __s1@.len() == n, __i1 <= n, constraints@.len() == n == b0.len(), 0 <= i0 < self.0@.len(),
        forall|i: int, c: Constraint| 0 <= i < n ==> (#[trigger] has(__s1@, i, c) <==> sets(self.0@[i0], input@, spans@, i, c)),
        forall|i: int, c: Constraint| 0 <= i < n ==> (#[trigger] has(constraints@, i, c) <==> has(b0, i, c) || i < __i1 && has(__s1@, i, c)),
    decreases n - __i1,
@loop 1 start
    let ghost b1 = constraints@;
    let ghost i1 = __i1 as int;
@loop 1 end
    proof {
        assert forall|i: int, c: Constraint| 0 <= i < n implies (#[trigger] has(constraints@, i, c) <==> has(b0, i, c) || i < i1 + 1 && has(__s1@, i, c)) by {
            assert(has(b1, i, c) <==> has(b0, i, c) || i < i1 && has(__s1@, i, c));
        }
    }
