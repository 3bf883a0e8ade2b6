@include common.vs
@include translation_types.vs
@raw
impl Clone for ResolvedTranslation {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

type Event = (usize, ResolvedTranslation);
/// insert into a position-sorted list behind everything with the same position
spec fn insert_ev(s: Seq<Event>, e: Event) -> Seq<Event> decreases s.len() {
    if s.len() == 0 || s.last().0 <= e.0 { s.push(e) } else { insert_ev(s.drop_last(), e).push(s.last()) }
}
/// the stable sort by position
spec fn by_pos(s: Seq<Event>) -> Seq<Event> decreases s.len() {
    if s.len() == 0 { seq![] } else { insert_ev(by_pos(s.drop_last()), s.last()) }
}
/// `v.sort_by_key(|(pos, _)| *pos)`
#[verifier::external_body]
fn sort_events(v: &mut Vec<Event>)
    ensures final(v)@ == by_pos(old(v)@),
{ v.sort_by_key(|(pos, _)| *pos) }

/// what the table's character classes say about white space
struct CharacterClasses { id: usize }
uninterp spec fn is_ws(cc: CharacterClasses, c: char) -> bool;
impl CharacterClasses {
    #[verifier::external_body]
    fn is_whitespace(&self, c: char) -> (r: bool) ensures r == is_ws(*self, c) { unimplemented!() }
}

@include new_translation.vs
@raw
/// a sign stands for no character of the text
spec fn sign(t: ResolvedTranslation) -> bool { t.input@.len() == 0 && t.length == 0 }
spec fn sign_or_none(t: Option<ResolvedTranslation>) -> bool { t is Some ==> sign(t->0) }
/// the sign of a rule
spec fn sign_of(t: Option<ResolvedTranslation>, dots: Seq<char>, rule: AnchoredRule) -> bool {
    t is Some && sign(t->0) && (t->0).output@ == dots && (t->0).origin == Some(rule) && (t->0).stage is Main && (t->0).effects@.len() == 0
}
/// `set.extend(s.chars())`
#[verifier::external_body]
fn add_chars(v: &mut HashSet<char>, s: &str) ensures final(v)@ == old(v)@.union(s@.to_set()) { v.extend(s.chars()) }
#[verifier::external_body]
fn no_chars(v: &HashSet<char>) -> (r: bool) ensures r == (v@ =~= Set::<char>::empty()) { v.is_empty() }
/// `s.chars().collect()`
#[verifier::external_body]
fn set_of(s: &str) -> (r: HashSet<char>) ensures r@ == s@.to_set() { s.chars().collect() }
/// every event is a sign, at a position of the text or behind it
spec fn all_upto(s: Seq<Event>, n: int) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 <= n && sign(s[i].1) }
proof fn insert_upto(s: Seq<Event>, e: Event, n: int)
    requires all_upto(s, n), e.0 <= n, sign(e.1),
    ensures all_upto(insert_ev(s, e), n),
    decreases s.len(),
{ if s.len() == 0 || s.last().0 <= e.0 {} else { insert_upto(s.drop_last(), e, n); } }
proof fn by_pos_upto(s: Seq<Event>, n: int)
    requires all_upto(s, n),
    ensures all_upto(by_pos(s), n),
    decreases s.len(),
{ if s.len() > 0 { by_pos_upto(s.drop_last(), n); assert(s[s.len() - 1].0 <= n && sign(s[s.len() - 1].1)); insert_upto(by_pos(s.drop_last()), s.last(), n); } }
