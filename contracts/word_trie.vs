@include common.vs
@include translation_types.vs
@include class_types.vs
@type translator/trie.rs Transition
@type translator/trie.rs ClassConstraint
@type parser.rs Direction attr=derive(PartialEq,Eq,Structural,Clone,Copy)
@raw
impl Clone for ResolvedTranslation {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for CharacterClasses {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
type Event = (usize, ResolvedTranslation);
type T = ResolvedTranslation;
@include new_translation.vs
@fn translator/translation.rs ResolvedTranslation::with_input
@subst input . to_string ( ) =>> own ( input )
@subst input . chars ( ) . count ( ) =>> str_chars ( input ) . len ( )
@spec
    ensures r.input@ == input@, r.length == input@.len(),
@fn translator/translation.rs ResolvedTranslation::with_weight
@spec
    ensures r == (ResolvedTranslation { weight: weight, ..self }),
@raw
/// the class lists of a condition hold for a neighbour; the ends of the text count as space
spec fn beside(x: CharacterClasses, t: Option<Transition>, prev: Option<char>, next: Option<char>) -> bool {
    match t {
        None => true,
        Some(Transition::Start(cs)) => fits(union(x, cs@), cs@.contains(CharacterClass::Space), prev),
        Some(Transition::End(cs)) => fits(union(x, cs@), cs@.contains(CharacterClass::Space), next),
    }
}
/// (contract of `Trie`, proved in trie.vs: th_hits)
#[verifier::external_body]
struct Trie { id: usize }
/// some rule stored in the tree fits the text `w` behind the character `prev`
uninterp spec fn hits(t: Trie, w: Seq<char>, prev: Option<char>) -> bool;
uninterp spec fn trie_cx(t: Trie) -> CharacterClasses;
impl Trie {
    #[verifier::external_body]
    fn new() -> (r: Self) ensures forall|w: Seq<char>, prev: Option<char>| !hits(r, w, prev) { unimplemented!() }
    #[verifier::external_body]
    fn with_context(self, ctx: CharacterClasses) -> (r: Self)
        requires forall|w: Seq<char>, prev: Option<char>| !hits(self, w, prev),
        ensures trie_cx(r) == ctx, forall|w: Seq<char>, prev: Option<char>| !hits(r, w, prev) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, from: &String, to: &String, before: Option<Transition>, after: Option<Transition>, direction: Direction, precedence: Precedence, class_constraints: Vec<ClassConstraint>, stage: TranslationStage, origin: &AnchoredRule)
        requires from@.len() > 0, direction is Forward, before is Some ==> before->0 is Start, after is Some ==> after->0 is End, class_constraints@.len() == 0,
        ensures trie_cx(*final(self)) == trie_cx(*old(self)),
            forall|w: Seq<char>, prev: Option<char>| #[trigger] hits(*final(self), w, prev) <==> hits(*old(self), w, prev)
                || reads(from@, w) && beside(trie_cx(*old(self)), before, prev, first(w.skip(from@.len() as int))) && beside(trie_cx(*old(self)), after, prev, first(w.skip(from@.len() as int))),
    { unimplemented!() }
    #[verifier::external_body]
    fn find_translations(&self, s: &str, prev: Option<char>) -> (r: Vec<T>) ensures r@.len() > 0 <==> hits(*self, s@, prev) { unimplemented!() }
}
/// `HashMap<String, AnchoredRule>`, seen as the set of its keys
#[verifier::external_body]
struct Texts { id: usize }
impl Texts {
    uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: String, v: AnchoredRule) -> (r: Option<AnchoredRule>) ensures final(self)@ == old(self)@.insert(k@) { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (forall|s: Seq<char>| !self@.contains(s)) { unimplemented!() }
    /// `for (k, v) in map`: every entry once
    #[verifier::external_body]
    fn entries(self) -> (r: Vec<(String, AnchoredRule)>) ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains((#[trigger] r@[i]).0@), forall|s: Seq<char>| self@.contains(s) <==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0@ == s { unimplemented!() }
}
#[verifier::external_body]
struct TableContext { id: usize }
uninterp spec fn classes(c: TableContext) -> CharacterClasses;
impl TableContext {
    #[verifier::external_body]
    fn character_classes(&self) -> (r: &CharacterClasses) ensures *r == classes(*self) { unimplemented!() }
}
/// where the characters of a text begin, in bytes
uninterp spec fn byte_off(s: Seq<char>, i: int) -> usize;
/// `s.char_indices()`
#[verifier::external_body]
fn char_places(s: &str) -> (r: Vec<(usize, char)>)
    ensures r@.len() == s@.len(), s@.len() <= isize::MAX, forall|i: int| 0 <= i < s@.len() ==> #[trigger] r@[i] == (byte_off(s@, i), s@[i]),
{ s.char_indices().collect() }
/// `&s[n..]`; offsets of different characters differ
#[verifier::external_body]
fn str_tail(s: &str, n: usize) -> (r: &str)
    requires exists|i: int| 0 <= i < s@.len() && n == #[trigger] byte_off(s@, i),
    ensures forall|i: int| 0 <= i < s@.len() && n == #[trigger] byte_off(s@, i) ==> r@ == s@.skip(i),
{ &s[n..] }
/// the words between spaces and punctuation
spec fn bounds() -> Seq<CharacterClass> { seq![CharacterClass::Space, CharacterClass::Punctuation] }
/// `c` stands here as a whole word (ignoring case)
spec fn whole_word(x: CharacterClasses, c: Seq<char>, w: Seq<char>, prev: Option<char>) -> bool {
    reads(c, w) && fits(union(x, bounds()), true, prev) && fits(union(x, bounds()), true, first(w.skip(c.len() as int)))
}
spec fn some_word(x: CharacterClasses, cs: Set<Seq<char>>, w: Seq<char>, prev: Option<char>) -> bool { exists|c: Seq<char>| cs.contains(c) && #[trigger] whole_word(x, c, w, prev) }
spec fn some_of(x: CharacterClasses, cs: Seq<(String, AnchoredRule)>, w: Seq<char>, prev: Option<char>) -> bool { exists|i: int| 0 <= i < cs.len() && whole_word(x, (#[trigger] cs[i]).0@, w, prev) }
spec fn before(w: Seq<char>, i: int) -> Option<char> { if 0 < i <= w.len() { Some(w[i - 1]) } else { None } }
proof fn some_of_is(x: CharacterClasses, cs: Set<Seq<char>>, l: Seq<(String, AnchoredRule)>, w: Seq<char>, prev: Option<char>)
    requires forall|s: Seq<char>| cs.contains(s) <==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0@ == s,
    ensures some_of(x, l, w, prev) <==> some_word(x, cs, w, prev),
{
    if some_of(x, l, w, prev) { let i = choose|i: int| 0 <= i < l.len() && whole_word(x, (#[trigger] l[i]).0@, w, prev); assert(cs.contains(l[i].0@)); }
    if some_word(x, cs, w, prev) { let c = choose|c: Seq<char>| cs.contains(c) && #[trigger] whole_word(x, c, w, prev); let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0@ == c; assert(whole_word(x, l[i].0@, w, prev)); }
}
