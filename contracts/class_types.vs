@type parser/character_class.rs CharacterClass
@raw
impl Clone for CharacterClass {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// named sets of characters
#[verifier::external_body]
struct CharacterClasses { id: usize }
uninterp spec fn members(x: CharacterClasses, class: CharacterClass) -> Set<char>;
impl CharacterClasses {
    /// the set is looked up by the content of the class name (std HashMap)
    #[verifier::external_body]
    fn get(&self, class: &CharacterClass) -> (r: Option<HashSet<char>>)
        ensures r is Some ==> (r->0)@ == members(*self, *class), r is None ==> members(*self, *class) == Set::<char>::empty(),
    { unimplemented!() }
}
spec fn union(x: CharacterClasses, cs: Seq<CharacterClass>) -> Set<char> decreases cs.len() {
    if cs.len() == 0 { Set::empty() } else { union(x, cs.drop_last()).union(members(x, cs.last())) }
}
/// what `char::to_lowercase` yields
uninterp spec fn lower(c: char) -> Seq<char>;
/// the only lower-case form of a character
spec fn fold(c: char) -> Option<char> { if lower(c).len() == 1 { Some(lower(c)[0]) } else { None } }
spec fn fits(s: Set<char>, space: bool, c: Option<char>) -> bool { match c { Some(c) => s.contains(c), None => space } }
spec fn first(w: Seq<char>) -> Option<char> { if w.len() > 0 { Some(w[0]) } else { None } }
/// the text starts with `s`, ignoring case
spec fn reads(s: Seq<char>, w: Seq<char>) -> bool { s.len() <= w.len() && forall|i: int| 0 <= i < s.len() ==> fold(#[trigger] w[i]) == Some(s[i]) }
