@include common.vs
@raw
/// `enumset::EnumSet<Constraint>`, seen as a set
#[verifier::external_body]
struct Constraints { id: usize }
impl Constraints {
    uninterp spec fn view(&self) -> Set<Constraint>;
}
/// `vec![Constraints::empty(); n]`
#[verifier::external_body]
fn no_constraints(n: usize) -> (r: Vec<Constraints>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@ == Set::<Constraint>::empty(),
{ unimplemented!() }
/// `v[i].insert(c)`
#[verifier::external_body]
fn mark(v: &mut Vec<Constraints>, i: usize, c: Constraint)
    requires i < old(v)@.len(),
    ensures final(v)@.len() == old(v)@.len(), final(v)@[i as int]@ == old(v)@[i as int]@.insert(c),
        forall|k: int| 0 <= k < old(v)@.len() && k != i ==> final(v)@[k] == old(v)@[k],
        forall|k: int, d: Constraint| 0 <= k < old(v)@.len() ==> (#[trigger] has(final(v)@, k, d) <==> has(old(v)@, k, d) || (k == i && d == c)),
{ unimplemented!() }
#[verifier::external_body]
fn mark_slice(v: &mut [Constraints], i: usize, c: Constraint)
    requires i < old(v)@.len(),
    ensures final(v)@.len() == old(v)@.len(), final(v)@[i as int]@ == old(v)@[i as int]@.insert(c),
        forall|k: int| 0 <= k < old(v)@.len() && k != i ==> final(v)@[k] == old(v)@[k],
        forall|k: int, d: Constraint| 0 <= k < old(v)@.len() ==> (#[trigger] has(final(v)@, k, d) <==> has(old(v)@, k, d) || (k == i && d == c)),
{ unimplemented!() }
spec fn has(v: Seq<Constraints>, i: int, c: Constraint) -> bool { v[i]@.contains(c) }
struct EmphasisSpan { class: String, range: std::ops::Range<usize> }
#[verifier::external_body]
fn is_computer_braille(s: &EmphasisSpan) -> (r: bool) ensures r == (s.class@ == "computer_braille"@) { s.class == "computer_braille" }
/// chars.get(i).is_some_and(|c| set.contains(c))
fn set_has_at(set: &std::collections::HashSet<char>, chars: &Vec<char>, i: usize) -> (r: bool)
    ensures r == (i < chars@.len() && set@.contains(chars@[i as int])),
{ if i < chars.len() { set.contains(&chars[i]) } else { false } }
@type translator/position_constraints.rs Constraint attr=derive(PartialEq,Eq,Structural,Clone,Copy)
