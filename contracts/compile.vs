@include definitions_base.vs
@raw
// ---- `HashSet<String>`, seen as a set of texts ----
#[verifier::external_body]
struct TextSet { id: usize }
impl TextSet {
    uninterp spec fn view(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, s: String) -> (r: bool) ensures final(self)@ == old(self)@.insert(s@) { unimplemented!() }
    #[verifier::external_body]
    fn contains<A: Text + ?Sized>(&self, s: &A) -> (r: bool) ensures r == self@.contains(s.text()) { unimplemented!() }
}
/// `&str` or `&String`
trait Text { spec fn text(&self) -> Seq<char>; }
impl Text for str { spec fn text(&self) -> Seq<char> { self@ } }
impl Text for String { spec fn text(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
fn char_text(c: char) -> (r: String) ensures r@ == seq![c] { c.to_string() }
spec fn or_none(o: Option<HashSet<char>>) -> Set<char> { match o { Some(s) => s@, None => Set::empty() } }
/// `unwrap_or_default()`
trait OrEmpty: Sized { spec fn set(&self) -> Set<char>; fn or_empty(self) -> (r: HashSet<char>) ensures r@ == self.set(); }
impl OrEmpty for Option<HashSet<char>> {
    spec fn set(&self) -> Set<char> { or_none(*self) }
    #[verifier::external_body]
    fn or_empty(self) -> (r: HashSet<char>) { self.unwrap_or_default() }
}
/// `HashSet::new()`
trait NewSet: Sized { spec fn nothing(&self) -> bool; fn make() -> (r: Self) ensures r.nothing(); }
impl NewSet for HashSet<char> { spec fn nothing(&self) -> bool { self@ == Set::<char>::empty() } #[verifier::external_body] fn make() -> (r: Self) { HashSet::new() } }
impl NewSet for TextSet { spec fn nothing(&self) -> bool { self@ == Set::<Seq<char>>::empty() } #[verifier::external_body] fn make() -> (r: Self) { unimplemented!() } }
fn new_set<S: NewSet>() -> (r: S) ensures r.nothing() { S::make() }
#[verifier::external_body]
fn copy_constraints(v: &Vec<ClassConstraint>) -> (r: Vec<ClassConstraint>) ensures cks(r@) == cks(v@) { unimplemented!() }
#[verifier::external_body]
fn copy_set(s: &HashSet<char>) -> (r: HashSet<char>) ensures r@ == s@ { s.clone() }
/// `a.union(&b).copied().collect()`
#[verifier::external_body]
fn both(a: &HashSet<char>, b: &HashSet<char>) -> (r: HashSet<char>) ensures r@ == a@.union(b@) { a.union(b).copied().collect() }
/// `s.extend(t.chars())`
#[verifier::external_body]
fn add_chars(s: &mut HashSet<char>, t: &String) ensures final(s)@ == old(s)@.union(t@.to_set()) { s.extend(t.chars()) }
/// `s.extend(t)`
#[verifier::external_body]
fn add_set(s: &mut HashSet<char>, t: HashSet<char>) ensures final(s)@ == old(s)@.union(t@) { s.extend(t) }
uninterp spec fn file_text(p: PathBuf) -> Option<Seq<char>>;
uninterp spec fn is_dictionary(s: Seq<char>) -> bool;
#[verifier::external_body]
fn read_file(p: &PathBuf) -> (r: Result<String, TranslationError>) ensures match r { Ok(s) => file_text(*p) == Some(s@), Err(_) => file_text(*p) is None } { unimplemented!() }
#[verifier::external_body]
fn parse_hyphenation(s: &String) -> (r: Result<HyphenationTable, TranslationError>) ensures r is Ok <==> is_dictionary(s@) { unimplemented!() }
#[verifier::external_body]
fn indicator_warning(opcode: &str, dots: &str) { }
#[verifier::external_body]
struct HyphenationTable { id: usize }
impl Clone for CharacterClasses { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for CharacterDefinition { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for AnchoredRule { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
@type parser.rs Direction attr=derive(PartialEq,Eq,Structural,Clone,Copy)
@type parser.rs Precedence derive=
@type translator/translation.rs TranslationStage derive=
@type translator/trie.rs Transition derive=
@type translator/trie.rs ClassConstraint derive=
@raw
// ---- what is stored where ----
/// a translation of one rule
struct T { input: Seq<char>, output: Seq<char>, weight: int, stage: TranslationStage, rule: AnchoredRule }
#[verifier::external_body]
struct ResolvedTranslation { id: usize }
uninterp spec fn made(r: ResolvedTranslation) -> T;
impl ResolvedTranslation {
    #[verifier::external_body]
    fn new(input: &str, output: &str, weight: usize, stage: TranslationStage, origin: AnchoredRule) -> (r: Self)
        ensures made(r) == (T { input: input@, output: output@, weight: weight as int, stage, rule: origin })
    { unimplemented!() }
}
/// a condition on the character in front of or behind the match, by the classes it names
struct Edge { start: bool, space: bool, punct: bool, letter: bool, digit: bool, other: bool }
spec fn named_class(c: CharacterClass) -> bool { c is Space || c is Punctuation || c is Letter || c is Digit }
spec fn edge(start: bool, v: Seq<CharacterClass>) -> Edge {
    Edge { start, space: v.contains(CharacterClass::Space), punct: v.contains(CharacterClass::Punctuation), letter: v.contains(CharacterClass::Letter), digit: v.contains(CharacterClass::Digit),
        other: exists|i: int| 0 <= i < v.len() && !named_class(#[trigger] v[i]) }
}
proof fn edges()
    ensures forall|start: bool, v: Seq<CharacterClass>| 0 < v.len() <= 3 && named_class(v[0]) && (v.len() > 1 ==> named_class(v[1])) && (v.len() > 2 ==> named_class(v[2])) ==>
        #[trigger] edge(start, v) == (Edge { start, space: v[0] is Space || (v.len() > 1 && v[1] is Space) || (v.len() > 2 && v[2] is Space),
            punct: v[0] is Punctuation || (v.len() > 1 && v[1] is Punctuation) || (v.len() > 2 && v[2] is Punctuation),
            letter: v[0] is Letter || (v.len() > 1 && v[1] is Letter) || (v.len() > 2 && v[2] is Letter),
            digit: v[0] is Digit || (v.len() > 1 && v[1] is Digit) || (v.len() > 2 && v[2] is Digit), other: false }),
{
    assert forall|start: bool, v: Seq<CharacterClass>| 0 < v.len() <= 3 && named_class(v[0]) && (v.len() > 1 ==> named_class(v[1])) && (v.len() > 2 ==> named_class(v[2])) implies
        #[trigger] edge(start, v) == (Edge { start, space: v[0] is Space || (v.len() > 1 && v[1] is Space) || (v.len() > 2 && v[2] is Space),
            punct: v[0] is Punctuation || (v.len() > 1 && v[1] is Punctuation) || (v.len() > 2 && v[2] is Punctuation),
            letter: v[0] is Letter || (v.len() > 1 && v[1] is Letter) || (v.len() > 2 && v[2] is Letter),
            digit: v[0] is Digit || (v.len() > 1 && v[1] is Digit) || (v.len() > 2 && v[2] is Digit), other: false }) by
    {
        assert(v.contains(v[0])); if v.len() > 1 { assert(v.contains(v[1])); } if v.len() > 2 { assert(v.contains(v[2])); }
    }
}
spec fn edge_of(t: Option<Transition>) -> Option<Edge> {
    match t { Some(Transition::Start(v)) => Some(edge(true, v@)), Some(Transition::End(v)) => Some(edge(false, v@)), None => None }
}
/// `after CLASS` and `before CLASS`
enum Ck { Start(Key), End(Key) }
spec fn ck(c: ClassConstraint) -> Ck { match c { ClassConstraint::Start(k) => Ck::Start(key(k)), ClassConstraint::End(k) => Ck::End(key(k)) } }
spec fn cks(v: Seq<ClassConstraint>) -> Seq<Ck> decreases v.len() { if v.len() == 0 { seq![] } else { cks(v.drop_last()).push(ck(v.last())) } }
/// one entry of a tree of rules (module trie: what an entry does)
struct Put { from: Seq<char>, to: Seq<char>, before: Option<Edge>, after: Option<Edge>, dir: Direction, prec: Precedence, classes: Seq<Ck>, stage: TranslationStage, rule: AnchoredRule }
spec fn put(from: Seq<char>, to: Seq<char>, before: Option<Edge>, after: Option<Edge>, dir: Direction, prec: Precedence, classes: Seq<Ck>, rule: AnchoredRule) -> Put {
    Put { from, to, before, after, dir, prec, classes, stage: TranslationStage::Main, rule }
}
#[verifier::external_body]
struct Trie { id: usize }
uninterp spec fn puts(t: Trie) -> Seq<Put>;
uninterp spec fn trie_cx(t: Trie) -> Classes;
impl Trie {
    #[verifier::external_body]
    fn new() -> (r: Self) ensures puts(r) == Seq::<Put>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn with_context(self, ctx: CharacterClasses) -> (r: Self) ensures puts(r) == puts(self), trie_cx(r) == classes(ctx) { unimplemented!() }
    /// panics for an entry that consumes nothing
    #[verifier::external_body]
    fn insert<A: Text + ?Sized, B: Text + ?Sized>(&mut self, from: &A, to: &B, before: Option<Transition>, after: Option<Transition>, direction: Direction, precedence: Precedence,
        class_constraints: Vec<ClassConstraint>, stage: TranslationStage, origin: &AnchoredRule)
        requires direction is Forward ==> from.text().len() > 0, direction is Backward ==> to.text().len() > 0,
        ensures trie_cx(*final(self)) == trie_cx(*old(self)),
            puts(*final(self)) == puts(*old(self)).push(Put { from: from.text(), to: to.text(), before: edge_of(before), after: edge_of(after), dir: direction, prec: precedence,
                classes: cks(class_constraints@), stage, rule: *origin }),
    { unimplemented!() }
    /// (contract of module trie) as `insert` without conditions
    #[verifier::external_body]
    fn insert_char(&mut self, from: char, to: &str, direction: Direction, precedence: Precedence, stage: TranslationStage, origin: &AnchoredRule)
        requires direction is Backward ==> to@.len() > 0,
        ensures trie_cx(*final(self)) == trie_cx(*old(self)),
            puts(*final(self)) == puts(*old(self)).push(Put { from: seq![from], to: to@, before: None, after: None, dir: direction, prec: precedence, classes: seq![], stage, rule: *origin }),
    { unimplemented!() }
}
/// a call that tells an indicator or a constrainer about a rule (their modules: what it does)
enum Op { Numsign, Nonumsign, Midnum, Numericnocontchars, Numericmodechars, Capsletter, Begcapsword, Endcapsword, Begcaps, Endcaps, Begcapsphrase, Endcapsphrase, Lencapsphrase, Capsmodechars,
    Letsign, Contraction, Noletsign, Noletsignafter, Noletsignbefore, Nocontractsign, Emphclass, Emphletter, Begemphword, Endemphword, Begemphphrase, Endemphphrase, Lenemphphrase, Begemph, Endemph,
    Emphmodechars, Noemphchars, Begcomp, Endcomp, Present, Hyphenator, NumericCharacters, UppercaseCharacters, LetterCharacters, LetterOrDigitCharacters, SpaceCharacters, LetterCells, DigitCells }
struct Ev { op: Op, name: Seq<char>, text: Seq<char>, n: int, place: Option<Position>, rule: Option<AnchoredRule>, set: Set<char> }
spec fn plain(op: Op) -> Ev { Ev { op, name: seq![], text: seq![], n: 0, place: None, rule: None, set: Set::empty() } }
spec fn ev(op: Op, text: Seq<char>, rule: AnchoredRule) -> Ev { Ev { text, rule: Some(rule), ..plain(op) } }
spec fn list_of(op: Op, text: Seq<char>) -> Ev { Ev { text, ..plain(op) } }
spec fn known(op: Op, set: Set<char>) -> Ev { Ev { set, ..plain(op) } }
type Log = Seq<Ev>;

mod numeric { use super::*;
#[verifier::external_body] pub struct Indicator { id: usize }
#[verifier::external_body] pub struct IndicatorBuilder { id: usize }
impl IndicatorBuilder {
    pub(crate) uninterp spec fn log(&self) -> Log;
    #[verifier::external_body] pub(crate) fn new() -> (r: Self) ensures r.log() == Log::empty() { unimplemented!() }
    pub(crate) uninterp spec fn built(l: Log) -> Option<Indicator>;
    #[verifier::external_body] pub(crate) fn build(self) -> (r: Option<Indicator>) ensures r == Self::built(self.log()) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn numsign(&mut self, s: &String, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(ev(Op::Numsign, s@, *origin)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn nonumsign(&mut self, s: &String, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(ev(Op::Nonumsign, s@, *origin)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn midnum(&mut self, s: &String) ensures final(self).log() == old(self).log().push(list_of(Op::Midnum, s@)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn numericnocontchars(&mut self, s: &String) ensures final(self).log() == old(self).log().push(list_of(Op::Numericnocontchars, s@)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn numericmodechars(&mut self, s: &String) ensures final(self).log() == old(self).log().push(list_of(Op::Numericmodechars, s@)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn numeric_characters(&mut self, s: HashSet<char>) ensures final(self).log() == old(self).log().push(known(Op::NumericCharacters, s@)) { unimplemented!() }
}
}

mod uppercase { use super::*;
#[verifier::external_body] pub struct Indicator { id: usize }
#[verifier::external_body] pub struct IndicatorBuilder { id: usize }
impl IndicatorBuilder {
    pub(crate) uninterp spec fn log(&self) -> Log;
    #[verifier::external_body] pub(crate) fn new() -> (r: Self) ensures r.log() == Log::empty() { unimplemented!() }
    pub(crate) uninterp spec fn built(l: Log, x: Cx) -> Option<Indicator>;
    #[verifier::external_body] pub(crate) fn build(self, ctx: &TableContext) -> (r: Option<Indicator>) ensures r == Self::built(self.log(), cx(*ctx)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn capsletter(&mut self, s: &String, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(ev(Op::Capsletter, s@, *origin)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn begcapsword(&mut self, s: &String, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(ev(Op::Begcapsword, s@, *origin)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn endcapsword(&mut self, s: &String, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(ev(Op::Endcapsword, s@, *origin)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn begcaps(&mut self, s: &String, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(ev(Op::Begcaps, s@, *origin)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn endcaps(&mut self, s: &String, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(ev(Op::Endcaps, s@, *origin)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn begcapsphrase(&mut self, s: &String, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(ev(Op::Begcapsphrase, s@, *origin)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn endcapsphrase(&mut self, s: &String, position: &Position, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(Ev { place: Some(*position), ..ev(Op::Endcapsphrase, s@, *origin) }) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn lencapsphrase(&mut self, len: usize) ensures final(self).log() == old(self).log().push(Ev { n: len as int, ..plain(Op::Lencapsphrase) }) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn capsmodechars(&mut self, s: &String) ensures final(self).log() == old(self).log().push(list_of(Op::Capsmodechars, s@)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn uppercase_characters(&mut self, s: HashSet<char>) ensures final(self).log() == old(self).log().push(known(Op::UppercaseCharacters, s@)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn letter_characters(&mut self, s: HashSet<char>) ensures final(self).log() == old(self).log().push(known(Op::LetterCharacters, s@)) { unimplemented!() }
}
}

mod lettersign { use super::*;
#[verifier::external_body] pub struct Indicator { id: usize }
#[verifier::external_body] pub struct IndicatorBuilder { id: usize }
impl IndicatorBuilder {
    pub(crate) uninterp spec fn log(&self) -> Log;
    #[verifier::external_body] pub(crate) fn new() -> (r: Self) ensures r.log() == Log::empty() { unimplemented!() }
    pub(crate) uninterp spec fn built(l: Log, x: Cx) -> Option<Indicator>;
    #[verifier::external_body] pub(crate) fn build(self, ctx: &TableContext) -> (r: Option<Indicator>) ensures r == Self::built(self.log(), cx(*ctx)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn letsign(&mut self, s: &String, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(ev(Op::Letsign, s@, *origin)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn contraction(&mut self, s: &String, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(ev(Op::Contraction, s@, *origin)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn noletsign(&mut self, s: &String) ensures final(self).log() == old(self).log().push(list_of(Op::Noletsign, s@)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn noletsignafter(&mut self, s: &String) ensures final(self).log() == old(self).log().push(list_of(Op::Noletsignafter, s@)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn noletsignbefore(&mut self, s: &String) ensures final(self).log() == old(self).log().push(list_of(Op::Noletsignbefore, s@)) { unimplemented!() }
}
}

mod nocontract { use super::*;
#[verifier::external_body] pub struct Indicator { id: usize }
#[verifier::external_body] pub struct IndicatorBuilder { id: usize }
impl IndicatorBuilder {
    pub(crate) uninterp spec fn log(&self) -> Log;
    #[verifier::external_body] pub(crate) fn new() -> (r: Self) ensures r.log() == Log::empty() { unimplemented!() }
    pub(crate) uninterp spec fn built(l: Log, x: Cx) -> Option<Indicator>;
    #[verifier::external_body] pub(crate) fn build(self, ctx: &TableContext) -> (r: Option<Indicator>) ensures r == Self::built(self.log(), cx(*ctx)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn nocontractsign(&mut self, s: &String, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(ev(Op::Nocontractsign, s@, *origin)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn contraction(&mut self, s: &String, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(ev(Op::Contraction, s@, *origin)) { unimplemented!() }
}
}

mod emphasis { use super::*;
#[verifier::external_body] pub struct Indicator { id: usize }
#[verifier::external_body] pub struct IndicatorBuilder { id: usize }
impl IndicatorBuilder {
    pub(crate) uninterp spec fn log(&self) -> Log;
    #[verifier::external_body] pub(crate) fn new() -> (r: Self) ensures r.log() == Log::empty() { unimplemented!() }
    pub(crate) uninterp spec fn built(l: Log, x: Cx) -> Option<Indicator>;
    #[verifier::external_body] pub(crate) fn build(self, ctx: &TableContext) -> (r: Option<Indicator>) ensures r == Self::built(self.log(), cx(*ctx)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn emphclass(&mut self, s: &String) ensures final(self).log() == old(self).log().push(list_of(Op::Emphclass, s@)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn emphletter(&mut self, name: &String, s: &String, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(Ev { name: name@, ..ev(Op::Emphletter, s@, *origin) }) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn begemphword(&mut self, name: &String, s: &String, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(Ev { name: name@, ..ev(Op::Begemphword, s@, *origin) }) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn endemphword(&mut self, name: &String, s: &String, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(Ev { name: name@, ..ev(Op::Endemphword, s@, *origin) }) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn begemphphrase(&mut self, name: &String, s: &String, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(Ev { name: name@, ..ev(Op::Begemphphrase, s@, *origin) }) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn begemph(&mut self, name: &String, s: &String, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(Ev { name: name@, ..ev(Op::Begemph, s@, *origin) }) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn endemph(&mut self, name: &String, s: &String, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(Ev { name: name@, ..ev(Op::Endemph, s@, *origin) }) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn endemphphrase(&mut self, name: &String, s: &String, position: &Position, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(Ev { name: name@, place: Some(*position), ..ev(Op::Endemphphrase, s@, *origin) }) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn lenemphphrase(&mut self, name: &String, len: usize) ensures final(self).log() == old(self).log().push(Ev { name: name@, n: len as int, ..plain(Op::Lenemphphrase) }) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn emphmodechars(&mut self, name: &String, s: &String) ensures final(self).log() == old(self).log().push(Ev { name: name@, ..list_of(Op::Emphmodechars, s@) }) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn noemphchars(&mut self, name: &String, s: &String) ensures final(self).log() == old(self).log().push(Ev { name: name@, ..list_of(Op::Noemphchars, s@) }) { unimplemented!() }
}
}

mod computer_braille { use super::*;
#[verifier::external_body] pub struct Indicator { id: usize }
#[verifier::external_body] pub struct IndicatorBuilder { id: usize }
impl IndicatorBuilder {
    pub(crate) uninterp spec fn log(&self) -> Log;
    #[verifier::external_body] pub(crate) fn new() -> (r: Self) ensures r.log() == Log::empty() { unimplemented!() }
    pub(crate) uninterp spec fn built(l: Log) -> Option<Indicator>;
    #[verifier::external_body] pub(crate) fn build(self) -> (r: Option<Indicator>) ensures r == Self::built(self.log()) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn begcomp(&mut self, s: &String, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(ev(Op::Begcomp, s@, *origin)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn endcomp(&mut self, s: &String, origin: &AnchoredRule) ensures final(self).log() == old(self).log().push(ev(Op::Endcomp, s@, *origin)) { unimplemented!() }
}
}

#[verifier::external_body] struct NumericConstrainer { id: usize }

#[verifier::external_body] struct BackwardCapsConstrainer { id: usize }

#[verifier::external_body] struct BackwardNumericConstrainer { id: usize }

#[verifier::external_body] struct HyphenationConstrainer { id: usize }

#[verifier::external_body] struct PunctuationConstrainer { id: usize }

#[verifier::external_body] struct NumericConstrainerBuilder { id: usize }
impl NumericConstrainerBuilder {
    pub(crate) uninterp spec fn log(&self) -> Log;
    #[verifier::external_body] pub(crate) fn new() -> (r: Self) ensures r.log() == Log::empty() { unimplemented!() }
    pub(crate) uninterp spec fn built(l: Log) -> Option<NumericConstrainer>;
    #[verifier::external_body] pub(crate) fn build(self) -> (r: Option<NumericConstrainer>) ensures r == Self::built(self.log()) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn numeric_characters(&mut self, s: HashSet<char>) ensures final(self).log() == old(self).log().push(known(Op::NumericCharacters, s@)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn numericmodechars(&mut self, s: &String) ensures final(self).log() == old(self).log().push(list_of(Op::Numericmodechars, s@)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn midnum(&mut self, s: &String) ensures final(self).log() == old(self).log().push(list_of(Op::Midnum, s@)) { unimplemented!() }
}

#[verifier::external_body] struct BackwardCapsConstrainerBuilder { id: usize }
impl BackwardCapsConstrainerBuilder {
    pub(crate) uninterp spec fn log(&self) -> Log;
    #[verifier::external_body] pub(crate) fn new() -> (r: Self) ensures r.log() == Log::empty() { unimplemented!() }
    pub(crate) uninterp spec fn built(l: Log) -> Option<BackwardCapsConstrainer>;
    #[verifier::external_body] pub(crate) fn build(self) -> (r: Option<BackwardCapsConstrainer>) ensures r == Self::built(self.log()) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn capsletter(&mut self, s: &String) ensures final(self).log() == old(self).log().push(list_of(Op::Capsletter, s@)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn begcapsword(&mut self, s: &String) ensures final(self).log() == old(self).log().push(list_of(Op::Begcapsword, s@)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn endcapsword(&mut self, s: &String) ensures final(self).log() == old(self).log().push(list_of(Op::Endcapsword, s@)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn letter_cells(&mut self, s: HashSet<char>) ensures final(self).log() == old(self).log().push(known(Op::LetterCells, s@)) { unimplemented!() }
}

#[verifier::external_body] struct BackwardNumericConstrainerBuilder { id: usize }
impl BackwardNumericConstrainerBuilder {
    pub(crate) uninterp spec fn log(&self) -> Log;
    #[verifier::external_body] pub(crate) fn new() -> (r: Self) ensures r.log() == Log::empty() { unimplemented!() }
    pub(crate) uninterp spec fn built(l: Log) -> Option<BackwardNumericConstrainer>;
    #[verifier::external_body] pub(crate) fn build(self) -> (r: Option<BackwardNumericConstrainer>) ensures r == Self::built(self.log()) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn numsign(&mut self, s: &String) ensures final(self).log() == old(self).log().push(list_of(Op::Numsign, s@)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn nonumsign(&mut self, s: &String) ensures final(self).log() == old(self).log().push(list_of(Op::Nonumsign, s@)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn digit_cells(&mut self, s: HashSet<char>) ensures final(self).log() == old(self).log().push(known(Op::DigitCells, s@)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn letter_cells(&mut self, s: HashSet<char>) ensures final(self).log() == old(self).log().push(known(Op::LetterCells, s@)) { unimplemented!() }
}

#[verifier::external_body] struct HyphenationConstrainerBuilder { id: usize }
impl HyphenationConstrainerBuilder {
    pub(crate) uninterp spec fn log(&self) -> Log;
    #[verifier::external_body] pub(crate) fn new() -> (r: Self) ensures r.log() == Log::empty() { unimplemented!() }
    pub(crate) uninterp spec fn built(l: Log) -> Option<HyphenationConstrainer>;
    #[verifier::external_body] pub(crate) fn build(self) -> (r: Option<HyphenationConstrainer>) ensures r == Self::built(self.log()) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn hyphenator(&mut self, h: HyphenationTable) ensures final(self).log() == old(self).log().push(plain(Op::Hyphenator)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn letter_characters(&mut self, s: HashSet<char>) ensures final(self).log() == old(self).log().push(known(Op::LetterCharacters, s@)) { unimplemented!() }
}

#[verifier::external_body] struct PunctuationConstrainerBuilder { id: usize }
impl PunctuationConstrainerBuilder {
    pub(crate) uninterp spec fn log(&self) -> Log;
    #[verifier::external_body] pub(crate) fn new() -> (r: Self) ensures r.log() == Log::empty() { unimplemented!() }
    pub(crate) uninterp spec fn built(l: Log) -> Option<PunctuationConstrainer>;
    #[verifier::external_body] pub(crate) fn build(self) -> (r: Option<PunctuationConstrainer>) ensures r == Self::built(self.log()) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn mark_present(&mut self) ensures final(self).log() == old(self).log().push(plain(Op::Present)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn letter_characters(&mut self, s: HashSet<char>) ensures final(self).log() == old(self).log().push(known(Op::LetterCharacters, s@)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn letter_or_digit_characters(&mut self, s: HashSet<char>) ensures final(self).log() == old(self).log().push(known(Op::LetterOrDigitCharacters, s@)) { unimplemented!() }
    #[verifier::external_body] pub(crate) fn space_characters(&mut self, s: HashSet<char>) ensures final(self).log() == old(self).log().push(known(Op::SpaceCharacters, s@)) { unimplemented!() }
}

struct Me { pre: Patterns, chars: Seq<char>, post: Patterns, to: Seq<char>, rule: AnchoredRule, cc: Classes }
#[verifier::external_body]
struct MatchPatterns { id: usize }
#[verifier::external_body]
struct MatchPatternsBuilder { id: usize }
impl MatchPatternsBuilder {
    uninterp spec fn log(&self) -> Seq<Me>;
    uninterp spec fn built(l: Seq<Me>) -> MatchPatterns;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.log() == Seq::<Me>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, pre: &Patterns, chars: &String, post: &Patterns, to: &String, origin: &AnchoredRule, ctx: &CharacterClasses)
        ensures final(self).log() == old(self).log().push(Me { pre: *pre, chars: chars@, post: *post, to: to@, rule: *origin, cc: classes(*ctx) }) { unimplemented!() }
    #[verifier::external_body]
    fn build(self) -> (r: MatchPatterns) ensures r == Self::built(self.log()) { unimplemented!() }
}
struct Ce { test: multipass::Test, action: Action, rule: AnchoredRule, stage: TranslationStage, x: Cx }
/// an action names a class for replacement that the table does not have
uninterp spec fn unusable(e: Ce) -> bool;
#[verifier::external_body]
struct ContextPatterns { id: usize }
#[verifier::external_body]
struct ContextPatternsBuilder { id: usize }
impl ContextPatternsBuilder {
    uninterp spec fn log(&self) -> Seq<Ce>;
    uninterp spec fn built(l: Seq<Ce>) -> ContextPatterns;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.log() == Seq::<Ce>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, test: &multipass::Test, action: &Action, origin: &AnchoredRule, stage: TranslationStage, ctx: &TableContext) -> (r: Result<(), TranslationError>)
        ensures ({ let e = Ce { test: *test, action: *action, rule: *origin, stage, x: cx(*ctx) };
            if unusable(e) { r is Err } else { r is Ok && final(self).log() == old(self).log().push(e) } }) { unimplemented!() }
    #[verifier::external_body]
    fn build(self) -> (r: ContextPatterns) ensures r == Self::built(self.log()) { unimplemented!() }
}
@type translator/table/primary.rs CharacterTranslation derive=
@raw
type Chars = Map<char, T>;
spec fn chars_of(m: Map<char, ResolvedTranslation>) -> Chars { m.map_values(|t: ResolvedTranslation| made(t)) }
impl CharacterTranslation {
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r.0@ == Map::<char, ResolvedTranslation>::empty() { unimplemented!() }
}
@fn translator/table/primary.rs CharacterTranslation::insert exitlast
@subst cfg!(feature = "backwards_compatibility") =>> true
@subst self.0.entry(from).or_insert(translation) =>> insert_if_new(&mut self.0, from, translation)
@spec
    ensures chars_of(final(self).0@) == once(chars_of(old(self).0@), from, made(translation)),
@exit
    proof {
        let (a, b) = (chars_of(self.0@), once(chars_of(old(self).0@), from, made(translation)));
        assert(a.dom() =~= b.dom());
        assert(a =~= b);
    }
@raw
/// the first rule for a character counts
spec fn once(m: Chars, c: char, t: T) -> Chars { if m.contains_key(c) { m } else { m.insert(c, t) } }
@type translator/table/primary.rs PrimaryTableBuilder derive= 
@raw
/// everything a table under construction knows
struct B { undef: Option<Seq<char>>, chars: Chars, trie: Seq<Put>, comp6: Seq<Put>, nocross: Seq<Put>, tcx: Classes, matches: Seq<Me>, contexts: Seq<Ce>,
    num: Log, caps: Log, lets: Log, noc: Log, emph: Log, comp: Log, numc: Log, bcaps: Log, bnum: Log, hyph: Log, punct: Log, over: Chars, triggers: Seq<Seq<char>> }
spec fn texts(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
proof fn texts_push(a: Seq<String>)
    ensures forall|s: String| texts(#[trigger] a.push(s)) == texts(a).push(s@),
{ assert forall|s: String| texts(#[trigger] a.push(s)) == texts(a).push(s@) by { assert(texts(a.push(s)) =~= texts(a).push(s@)); } }
spec fn text_of(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
spec fn of(b: PrimaryTableBuilder) -> B {
    B { undef: text_of(b.undefined), chars: chars_of(b.character_translations.0@), trie: puts(b.trie), comp6: puts(b.comp6_trie), nocross: puts(b.nocross_trie), tcx: trie_cx(b.trie),
        matches: b.match_patterns.log(), contexts: b.context_patterns.log(), num: b.numeric_indicator.log(), caps: b.uppercase_indicator.log(), lets: b.lettersign_indicator.log(),
        noc: b.nocontract_indicator.log(), emph: b.emphasis_indicator.log(), comp: b.computer_braille_indicator.log(), numc: b.numeric_constrainer.log(), bcaps: b.backward_caps_constrainer.log(),
        bnum: b.backward_numeric_constrainer.log(), hyph: b.hyphenation_constrainer.log(), punct: b.punctuation_constrainer.log(), over: chars_of(b.backward_digit_overrides@), triggers: texts(b.compbrl_triggers@) }
}
/// all three trees see the same classes
spec fn one_cx(b: PrimaryTableBuilder) -> bool { trie_cx(b.trie) == trie_cx(b.comp6_trie) && trie_cx(b.trie) == trie_cx(b.nocross_trie) }
spec fn b0(x: Classes) -> B {
    B { undef: None, chars: Map::empty(), trie: seq![], comp6: seq![], nocross: seq![], tcx: x, matches: seq![], contexts: seq![], num: seq![], caps: seq![], lets: seq![], noc: seq![], emph: seq![], comp: seq![],
        numc: seq![], bcaps: seq![], bnum: seq![], hyph: seq![], punct: seq![], over: Map::empty(), triggers: seq![] }
}

@type translator/indication.rs Indicator derive=
@type translator/indication.rs Indicators derive=
@type translator/position_constraints.rs ComputerBrailleConstrainer derive=
@type translator/position_constraints.rs Constrainer derive=
@type translator/position_constraints.rs Constrainers derive=
@type translator/table/primary.rs CompbrlScanner derive=
@type translator/table/primary.rs PrimaryTable derive=
@raw
// ---- opcodes ----
spec fn marks(r: Rule) -> Set<Constraint> {
    match r {
        Rule::Always { constraints, .. } => constraints.0@,
        Rule::Word { constraints, .. } => constraints.0@,
        Rule::Lowword { constraints, .. } => constraints.0@,
        Rule::Sufword { constraints, .. } => constraints.0@,
        Rule::Prfword { constraints, .. } => constraints.0@,
        Rule::Begword { constraints, .. } => constraints.0@,
        Rule::Begmidword { constraints, .. } => constraints.0@,
        Rule::Midword { constraints, .. } => constraints.0@,
        Rule::Midendword { constraints, .. } => constraints.0@,
        Rule::Endword { constraints, .. } => constraints.0@,
        Rule::Partword { constraints, .. } => constraints.0@,
        Rule::Prepunc { constraints, .. } => constraints.0@,
        Rule::Postpunc { constraints, .. } => constraints.0@,
        Rule::Begnum { constraints, .. } => constraints.0@,
        Rule::Midnum { constraints, .. } => constraints.0@,
        Rule::Endnum { constraints, .. } => constraints.0@,
        Rule::Joinnum { constraints, .. } => constraints.0@,
        _ => Set::empty(),
    }
}
/// rules kept out of the way of the hyphenation points
spec fn nocross(r: AnchoredRule) -> bool { marks(r.rule).contains(Constraint::Nocross) }
spec fn prec(r: Rule) -> Precedence {
    if r is Word || r is Begword || r is Sufword || r is Midword || r is Midendword || r is Endword || r is Begmidword || r is Joinword || r is Begnum || r is Midnum || r is Endnum || r is Always { Precedence::Translation }
    else if r is Capsletter || r is Begcapsword || r is Endcapsword || r is Numsign || r is Nonumsign { Precedence::Indicator }
    else { Precedence::Default }
}
@fn parser.rs Constraints::contains
@spec
    ensures r == self.0@.contains(value),
@fn parser.rs HasNocross@Rule::constraints
@subst constraint_set!() =>> Constraints(EnumSet::empty())
@spec
    ensures r.0@ == marks(*self),
@fn parser.rs HasNocross@AnchoredRule::constraints
@spec
    ensures r.0@ == marks(self.rule),
@fn parser.rs trait@HasNocross::is_nocross on=AnchoredRule
@spec
    ensures r == nocross(*self),
@fn parser.rs HasPrecedence@Rule::precedence
@spec
    ensures r == prec(*self),
@fn parser.rs HasPrecedence@AnchoredRule::precedence
@spec
    ensures r == prec(self.rule),
@raw
/// the edge of a word: the end of the text, white space, punctuation
spec fn word_edge(start: bool) -> Option<Edge> { Some(Edge { start, space: true, punct: true, letter: false, digit: false, other: false }) }
spec fn a_letter(start: bool) -> Option<Edge> { Some(Edge { start, space: false, punct: false, letter: true, digit: false, other: false }) }
spec fn a_digit(start: bool) -> Option<Edge> { Some(Edge { start, space: false, punct: false, letter: false, digit: true, other: false }) }
spec fn letter_or_edge(start: bool) -> Option<Edge> { Some(Edge { start, space: true, punct: true, letter: true, digit: false, other: false }) }
spec fn all_punct(x: Cx, s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> within(x.cc, Key::Punctuation, #[trigger] s[i]) }
type Place = (Option<Edge>, Option<Edge>);
/// where a rule applies: what has to stand in front of and behind its text
spec fn place(r: Rule, x: Cx) -> Option<Place> {
    match r {
        Rule::Always { .. } => Some((None, None)),
        Rule::Syllable { .. } => Some((None, None)),
        Rule::Largesign { .. } => Some((None, None)),
        Rule::Contraction { .. } => Some((word_edge(true), word_edge(false))),
        Rule::Word { .. } => Some((word_edge(true), word_edge(false))),
        Rule::Joinword { .. } => Some((word_edge(true), word_edge(false))),
        Rule::Lowword { .. } => Some((word_edge(true), word_edge(false))),
        Rule::Begword { .. } => Some((word_edge(true), a_letter(false))),
        Rule::Midword { .. } => Some((a_letter(true), a_letter(false))),
        Rule::Endword { .. } => Some((a_letter(true), word_edge(false))),
        Rule::Midendword { .. } => Some((a_letter(true), letter_or_edge(false))),
        Rule::Begmidword { .. } => Some((letter_or_edge(true), a_letter(false))),
        Rule::Partword { .. } => Some((a_letter(true), None)),
        Rule::Prfword { .. } => Some((word_edge(true), word_edge(false))),
        Rule::Sufword { .. } => Some((word_edge(true), word_edge(false))),
        Rule::Begnum { .. } => Some((word_edge(true), a_digit(false))),
        Rule::Midnum { .. } => Some((a_digit(true), a_digit(false))),
        Rule::Endnum { .. } => Some((a_digit(true), None)),
        Rule::Prepunc { chars, .. } => if all_punct(x, chars@) { Some((None, None)) } else { None },
        Rule::Postpunc { chars, .. } => if all_punct(x, chars@) { Some((None, None)) } else { None },
        _ => None,
    }
}
/// a second place where it applies
spec fn place2(r: Rule) -> Option<Place> {
    match r {
        // in front of or behind a letter
        Rule::Partword { .. } => Some((None, a_letter(false))),
        // a word or the end of one
        Rule::Prfword { .. } => Some((a_letter(true), word_edge(false))),
        // a word or the beginning of one
        Rule::Sufword { .. } => Some((word_edge(true), a_letter(false))),
        _ => None,
    }
}
spec fn spelling(r: Rule) -> Seq<char> {
    match r {
        Rule::Always { chars, .. } => chars@,
        Rule::Syllable { chars, .. } => chars@,
        Rule::Largesign { chars, .. } => chars@,
        Rule::Contraction { chars, .. } => chars@,
        Rule::Word { chars, .. } => chars@,
        Rule::Joinword { chars, .. } => chars@,
        Rule::Lowword { chars, .. } => chars@,
        Rule::Begword { chars, .. } => chars@,
        Rule::Midword { chars, .. } => chars@,
        Rule::Endword { chars, .. } => chars@,
        Rule::Midendword { chars, .. } => chars@,
        Rule::Begmidword { chars, .. } => chars@,
        Rule::Partword { chars, .. } => chars@,
        Rule::Prfword { chars, .. } => chars@,
        Rule::Sufword { chars, .. } => chars@,
        Rule::Begnum { chars, .. } => chars@,
        Rule::Midnum { chars, .. } => chars@,
        Rule::Endnum { chars, .. } => chars@,
        Rule::Prepunc { chars, .. } => chars@,
        Rule::Postpunc { chars, .. } => chars@,
        Rule::Comp6 { chars, .. } => chars@,
        Rule::Match { chars, .. } => chars@,
        _ => seq![],
    }
}
/// the cells a rule writes; None if it leaves them to definitions that are missing
spec fn writes(r: Rule, d: Defs) -> Option<Seq<char>> {
    match r {
        Rule::Always { chars, dots, .. } => outcome(d, dots, chars@),
        Rule::Syllable { chars, dots } => outcome(d, dots, chars@),
        Rule::Largesign { dots, .. } => Some(cells(dots)),
        Rule::Contraction { chars, .. } => outcome(d, Braille::Implicit, chars@),
        Rule::Word { chars, dots, .. } => outcome(d, dots, chars@),
        Rule::Joinword { dots, .. } => Some(cells(dots)),
        Rule::Lowword { dots, .. } => Some(cells(dots)),
        Rule::Begword { chars, dots, .. } => outcome(d, dots, chars@),
        Rule::Midword { chars, dots, .. } => outcome(d, dots, chars@),
        Rule::Endword { chars, dots, .. } => outcome(d, dots, chars@),
        Rule::Midendword { chars, dots, .. } => outcome(d, dots, chars@),
        Rule::Begmidword { chars, dots, .. } => outcome(d, dots, chars@),
        Rule::Partword { chars, dots, .. } => outcome(d, dots, chars@),
        Rule::Prfword { chars, dots, .. } => outcome(d, dots, chars@),
        Rule::Sufword { chars, dots, .. } => outcome(d, dots, chars@),
        Rule::Begnum { dots, .. } => Some(cells(dots)),
        Rule::Midnum { dots, .. } => Some(cells(dots)),
        Rule::Endnum { chars, dots, .. } => outcome(d, dots, chars@),
        Rule::Prepunc { dots, .. } => Some(cells(dots)),
        Rule::Postpunc { dots, .. } => Some(cells(dots)),
        Rule::Comp6 { chars, dots } => outcome(d, dots, chars@),
        Rule::Match { chars, dots, .. } => outcome(d, dots, chars@),
        _ => Some(seq![]),
    }
}
/// `before CLASS` and `after CLASS`
spec fn keywords(r: Rule) -> Seq<WithClass> {
    match r {
        Rule::Always { with_classes, .. } => with_classes@,
        Rule::Word { with_classes, .. } => with_classes@,
        Rule::Begword { with_classes, .. } => with_classes@,
        Rule::Midword { with_classes, .. } => with_classes@,
        Rule::Endword { with_classes, .. } => with_classes@,
        Rule::Midendword { with_classes, .. } => with_classes@,
        Rule::Begmidword { with_classes, .. } => with_classes@,
        Rule::Partword { with_classes, .. } => with_classes@,
        Rule::Prfword { with_classes, .. } => with_classes@,
        Rule::Sufword { with_classes, .. } => with_classes@,
        _ => seq![],
    }
}
/// keywords that name no class of the table mean nothing
spec fn resolved(cc: Classes, w: Seq<WithClass>) -> Seq<Ck> decreases w.len() {
    if w.len() == 0 { seq![] } else {
        let t = resolved(cc, w.drop_last());
        match w.last() {
            WithClass::Before { class } => if cc.contains_key(named(class@)) { t.push(Ck::End(named(class@))) } else { t },
            WithClass::After { class } => if cc.contains_key(named(class@)) { t.push(Ck::Start(named(class@))) } else { t },
        }
    }
}
proof fn resolved_take(cc: Classes, w: Seq<WithClass>, i: int)
    requires 0 <= i < w.len(),
    ensures resolved(cc, w.take(i + 1)) == (match w[i] {
            WithClass::Before { class } => if cc.contains_key(named(class@)) { resolved(cc, w.take(i)).push(Ck::End(named(class@))) } else { resolved(cc, w.take(i)) },
            WithClass::After { class } => if cc.contains_key(named(class@)) { resolved(cc, w.take(i)).push(Ck::Start(named(class@))) } else { resolved(cc, w.take(i)) },
        }),
{ assert(w.take(i + 1).drop_last() =~= w.take(i)); }
spec fn stored(b: B, r: AnchoredRule, p: Put) -> B { if nocross(r) { B { nocross: b.nocross.push(p), ..b } } else { B { trie: b.trie.push(p), ..b } } }
spec fn entry(r: AnchoredRule, x: Cx, dir: Direction, p: Place) -> Put {
    put(spelling(r.rule), writes(r.rule, x.d)->0, p.0, p.1, dir, prec(r.rule), resolved(x.cc, keywords(r.rule)), r)
}
spec fn entry_at(b: B, r: AnchoredRule, x: Cx, dir: Direction, p: Option<Place>) -> B { match p { Some(p) => stored(b, r, entry(r, x, dir, p)), None => b } }
/// a rule is stored for each of its places
spec fn entries(b: B, r: AnchoredRule, x: Cx, dir: Direction) -> B {
    entry_at(entry_at(b, r, x, dir, place(r.rule, x)), r, x, dir, place2(r.rule))
}
/// a rule for a single character
spec fn character(b: B, c: char, dots: Seq<char>, dir: Direction, r: AnchoredRule) -> B {
    if dir is Forward { B { chars: once(b.chars, c, T { input: seq![c], output: dots, weight: 1, stage: TranslationStage::Main, rule: r }), ..b } }
    else { B { trie: b.trie.push(put(seq![c], dots, None, None, dir, prec(r.rule), seq![], r)), ..b } }
}
/// going backward, a cell that is a digit as well as a letter reads as the digit within numbers
spec fn digit_too(b: B, c: char, dots: BrailleChars, letters: Set<Seq<char>>, dir: Direction, r: AnchoredRule) -> B {
    if dir is Backward && list(dots).len() == 1 && letters.contains(cells(dots)) {
        B { over: b.over.insert(cells(dots)[0], T { input: cells(dots), output: seq![c], weight: 1, stage: TranslationStage::Main, rule: r }), ..b }
    } else { b }
}
/// going backward, an indicator is read over, unless its cells are those of a letter
spec fn read_over(b: B, dots: BrailleChars, letters: Set<Seq<char>>, dir: Direction, r: AnchoredRule) -> B {
    if dir is Backward && !letters.contains(cells(dots)) { B { trie: b.trie.push(put(seq![], cells(dots), None, None, Direction::Backward, prec(r.rule), seq![], r)), ..b } } else { b }
}
spec fn silent(dots: BrailleChars, letters: Set<Seq<char>>, dir: Direction) -> bool { dir is Backward && !letters.contains(cells(dots)) }
@fn translator/table/primary.rs PrimaryTableBuilder::new
@spec
    ensures of(r) == b0(classes(trie_ctx)), one_cx(r),
@entry
    proof {
        assert(chars_of(Map::empty()) =~= Map::empty());
        assert(texts(seq![]) =~= seq![]);
    }
@fn translator/table/primary.rs PrimaryTableBuilder::get_trie_mut
@spec
    ensures *r == (if nocross(*rule) { old(self).nocross_trie } else { old(self).trie }),
        *final(self) == (if nocross(*rule) { PrimaryTableBuilder { nocross_trie: *final(r), ..*old(self) } } else { PrimaryTableBuilder { trie: *final(r), ..*old(self) } }),
@fn translator/table/primary.rs PrimaryTableBuilder::insert_character exitlast
@subst c.to_string().as_str() =>> char_text(c).as_str()
@spec
    requires dots@.len() > 0, one_cx(*old(self)),
    ensures of(*final(self)) == character(of(*old(self)), c, dots@, direction, *rule), one_cx(*final(self)),
@fn translator/table/primary.rs PrimaryTableBuilder::insert_backward_indicator
@spec
    requires dots@.len() > 0, one_cx(*old(self)),
    ensures of(*final(self)) == (B { trie: of(*old(self)).trie.push(put(seq![], dots@, None, None, Direction::Backward, prec(rule.rule), seq![], *rule)), ..of(*old(self)) }), one_cx(*final(self)),
@entry
    proof { reveal_strlit(""); assert(""@ =~= seq![]); }
@fn translator/table/primary.rs PrimaryTableBuilder::backward_indicator_dots_available
@subst HashSet<String> =>> TextSet
@spec
    ensures r == !letter_dots@.contains(dots@),
@fn translator/table/primary.rs PrimaryTableBuilder::register_backward_digit_override exitlast
@subst HashSet<String> =>> TextSet
@subst dots.iter().next() =>> dots.first()
@subst character.to_string() =>> char_text(character)
@spec
    requires one_cx(*old(self)),
    ensures of(*final(self)) == digit_too(of(*old(self)), character, *dots, letter_dots@, Direction::Backward, *rule), one_cx(*final(self)),
@exit
    proof { assert(of(*self).over =~= digit_too(of(*old(self)), character, *dots, letter_dots@, Direction::Backward, *rule).over); }
@fn translator/table/primary.rs PrimaryTable::resolve_class_constraints loops=1
@spec
    ensures cks(r@) == resolved(classes(ctx.character_classes), with_classes@),
@loop 0
    invariant __i0 <= with_classes@.len(), cks(__acc0@) == resolved(classes(ctx.character_classes), with_classes@.take(__i0 as int)),
    decreases with_classes@.len() - __i0,
@loop 0 start
    proof { resolved_take(classes(ctx.character_classes), with_classes@, __i0 as int); }
    let ghost a0 = __acc0@;
@loop 0 end
    proof { assert(__acc0@.drop_last() =~= a0); }
@loop 0 post
    proof { assert(with_classes@.take(with_classes@.len() as int) =~= with_classes@); }
@raw
// ---- what each rule contributes ----
spec fn to_num(b: B, e: Ev) -> B { B { num: b.num.push(e), ..b } }
spec fn to_caps(b: B, e: Ev) -> B { B { caps: b.caps.push(e), ..b } }
spec fn to_lets(b: B, e: Ev) -> B { B { lets: b.lets.push(e), ..b } }
spec fn to_noc(b: B, e: Ev) -> B { B { noc: b.noc.push(e), ..b } }
spec fn to_emph(b: B, e: Ev) -> B { B { emph: b.emph.push(e), ..b } }
spec fn to_comp(b: B, e: Ev) -> B { B { comp: b.comp.push(e), ..b } }
spec fn to_numc(b: B, e: Ev) -> B { B { numc: b.numc.push(e), ..b } }
spec fn to_bcaps(b: B, e: Ev) -> B { B { bcaps: b.bcaps.push(e), ..b } }
spec fn to_bnum(b: B, e: Ev) -> B { B { bnum: b.bnum.push(e), ..b } }
spec fn to_hyph(b: B, e: Ev) -> B { B { hyph: b.hyph.push(e), ..b } }
spec fn to_punct(b: B, e: Ev) -> B { B { punct: b.punct.push(e), ..b } }
/// decimal points and hyphens come before all other definitions; a decimal point continues a number
spec fn early(b: B, r: AnchoredRule, dir: Direction) -> B {
    match r.rule {
        Rule::Decpoint { character: c, dots } => to_numc(to_num(character(b, c, cells(dots), dir, r), list_of(Op::Midnum, seq![c])), list_of(Op::Midnum, seq![c])),
        Rule::Hyphen { character: c, dots, .. } => character(b, c, cells(dots), dir, r),
        _ => b,
    }
}
/// what one rule contributes
spec fn one(b: B, r: AnchoredRule, x: Cx, dir: Direction, lit: Set<char>, letters: Set<Seq<char>>) -> B {
    match r.rule {
        Rule::Space { character: c, dots, .. } => character(b, c, cells(dots), dir, r),
        Rule::Punctuation { character: c, dots, .. } => character(b, c, cells(dots), dir, r),
        Rule::Letter { character: c, dots, .. } => character(b, c, cells(dots), dir, r),
        Rule::Lowercase { character: c, dots, .. } => character(b, c, cells(dots), dir, r),
        Rule::Uppercase { character: c, dots, .. } => character(b, c, cells(dots), dir, r),
        Rule::Sign { character: c, dots, .. } => character(b, c, cells(dots), dir, r),
        Rule::Math { character: c, dots, .. } => character(b, c, cells(dots), dir, r),
        // a digit that has a literary definition too is written like that one
        Rule::Digit { character: c, dots, .. } => digit_too(if lit.contains(c) { b } else { character(b, c, cells(dots), dir, r) }, c, dots, letters, dir, r),
        Rule::Litdigit { character: c, dots, .. } => digit_too(character(b, c, cells(dots), dir, r), c, dots, letters, dir, r),
        Rule::Base { derived, base, .. } => if x.d.contains_key(base) { character(b, derived, x.d[base], dir, r) } else { b },
        // the rules of numbers
        Rule::Numsign { dots } => {
            let b = read_over(to_num(b, ev(Op::Numsign, cells(dots), r)), dots, letters, dir, r);
            if silent(dots, letters, dir) { to_bnum(b, list_of(Op::Numsign, cells(dots))) } else { b }
        },
        Rule::Nonumsign { dots, .. } => {
            let b = read_over(to_num(b, ev(Op::Nonumsign, cells(dots), r)), dots, letters, dir, r);
            if silent(dots, letters, dir) { to_bnum(b, list_of(Op::Nonumsign, cells(dots))) } else { b }
        },
        Rule::Numericnocontchars { chars } => to_num(b, list_of(Op::Numericnocontchars, chars@)),
        Rule::Numericmodechars { chars } => to_numc(to_num(b, list_of(Op::Numericmodechars, chars@)), list_of(Op::Numericmodechars, chars@)),
        Rule::Midnum { chars, .. } => to_numc(to_num(entries(b, r, x, dir), list_of(Op::Midnum, chars@)), list_of(Op::Midnum, chars@)),
        // the rules of capitals
        Rule::Capsletter { dots, .. } => {
            let b = read_over(to_caps(b, ev(Op::Capsletter, cells(dots), r)), dots, letters, dir, r);
            if silent(dots, letters, dir) { to_bcaps(b, list_of(Op::Capsletter, cells(dots))) } else { b }
        },
        Rule::Begcapsword { dots, .. } => {
            let b = read_over(to_caps(b, ev(Op::Begcapsword, cells(dots), r)), dots, letters, dir, r);
            if silent(dots, letters, dir) { to_bcaps(b, list_of(Op::Begcapsword, cells(dots))) } else { b }
        },
        Rule::Endcapsword { dots, .. } => {
            let b = read_over(to_caps(b, ev(Op::Endcapsword, cells(dots), r)), dots, letters, dir, r);
            if silent(dots, letters, dir) { to_bcaps(b, list_of(Op::Endcapsword, cells(dots))) } else { b }
        },
        Rule::Begcaps { dots } => to_caps(b, ev(Op::Begcaps, cells(dots), r)),
        Rule::Endcaps { dots } => to_caps(b, ev(Op::Endcaps, cells(dots), r)),
        Rule::Begcapsphrase { dots } => to_caps(b, ev(Op::Begcapsphrase, cells(dots), r)),
        Rule::Endcapsphrase { dots, position } => to_caps(b, Ev { place: Some(position), ..ev(Op::Endcapsphrase, cells(dots), r) }),
        Rule::Lencapsphrase { number } => to_caps(b, Ev { n: (number as usize) as int, ..plain(Op::Lencapsphrase) }),
        Rule::Capsmodechars { chars } => to_caps(b, list_of(Op::Capsmodechars, chars@)),
        // the rules of emphasis and of computer braille
        Rule::Emphclass { name } => to_emph(b, list_of(Op::Emphclass, name@)),
        Rule::Emphletter { name, dots } => to_emph(b, Ev { name: name@, ..ev(Op::Emphletter, cells(dots), r) }),
        Rule::Begemphword { name, dots } => to_emph(b, Ev { name: name@, ..ev(Op::Begemphword, cells(dots), r) }),
        Rule::Endemphword { name, dots } => to_emph(b, Ev { name: name@, ..ev(Op::Endemphword, cells(dots), r) }),
        Rule::Begemphphrase { name, dots } => to_emph(b, Ev { name: name@, ..ev(Op::Begemphphrase, cells(dots), r) }),
        Rule::Begemph { name, dots, .. } => to_emph(b, Ev { name: name@, ..ev(Op::Begemph, cells(dots), r) }),
        Rule::Endemph { name, dots, .. } => to_emph(b, Ev { name: name@, ..ev(Op::Endemph, cells(dots), r) }),
        Rule::Endemphphrase { name, dots, position } => to_emph(b, Ev { name: name@, place: Some(position), ..ev(Op::Endemphphrase, cells(dots), r) }),
        Rule::Lenemphphrase { name, number } => to_emph(b, Ev { name: name@, n: (number as usize) as int, ..plain(Op::Lenemphphrase) }),
        Rule::Emphmodechars { name, chars } => to_emph(b, Ev { name: name@, ..list_of(Op::Emphmodechars, chars@) }),
        Rule::Noemphchars { name, chars } => to_emph(b, Ev { name: name@, ..list_of(Op::Noemphchars, chars@) }),
        Rule::Begcomp { dots, .. } => to_comp(b, ev(Op::Begcomp, cells(dots), r)),
        Rule::Endcomp { dots, .. } => to_comp(b, ev(Op::Endcomp, cells(dots), r)),
        Rule::Compbrl { chars, .. } => B { triggers: b.triggers.push(chars@), ..b },
        // everything else
        // the last one counts
        Rule::Undefined { dots } => B { undef: Some(cells(dots)), ..b },
        Rule::Letsign { dots } => to_lets(b, ev(Op::Letsign, cells(dots), r)),
        Rule::Noletsign { chars } => to_lets(b, list_of(Op::Noletsign, chars@)),
        Rule::Noletsignafter { chars } => to_lets(b, list_of(Op::Noletsignafter, chars@)),
        Rule::Noletsignbefore { chars } => to_lets(b, list_of(Op::Noletsignbefore, chars@)),
        Rule::Contraction { chars } => to_noc(to_lets(entries(b, r, x, dir), ev(Op::Contraction, chars@, r)), ev(Op::Contraction, chars@, r)),
        Rule::Nocontractsign { dots, .. } => to_noc(b, ev(Op::Nocontractsign, cells(dots), r)),
        Rule::Prepunc { chars, .. } => if all_punct(x, chars@) { to_punct(entries(b, r, x, dir), plain(Op::Present)) } else { b },
        Rule::Postpunc { chars, .. } => if all_punct(x, chars@) { to_punct(entries(b, r, x, dir), plain(Op::Present)) } else { b },
        Rule::Match { pre, chars, post, dots, .. } => B { matches: b.matches.push(Me { pre, chars: chars@, post, to: writes(r.rule, x.d)->0, rule: r, cc: x.cc }), ..b },
        Rule::Context { test, action, .. } => B { contexts: b.contexts.push(Ce { test, action, rule: r, stage: TranslationStage::Main, x }), ..b },
        Rule::IncludeHyphenation { .. } => to_hyph(b, plain(Op::Hyphenator)),
        // computer braille rules have a tree of their own
        Rule::Comp6 { chars, .. } => B { comp6: b.comp6.push(put(chars@, writes(r.rule, x.d)->0, None, None, dir, prec(r.rule), seq![], r)), ..b },
        _ => entries(b, r, x, dir),
    }
}
/// the cells or the class for replacement a rule refers to are missing, or its dictionary cannot be read
spec fn fails(r: AnchoredRule, x: Cx) -> bool {
    writes(r.rule, x.d) is None || (r.rule matches Rule::Context { test, action, .. } && unusable(Ce { test, action, rule: r, stage: TranslationStage::Main, x }))
        || (r.rule matches Rule::IncludeHyphenation { path } && (file_text(path) is None || !is_dictionary(file_text(path)->0)))
}
spec fn earlies(b: B, s: Seq<AnchoredRule>, dir: Direction) -> B decreases s.len() { if s.len() == 0 { b } else { early(earlies(b, s.drop_last(), dir), s.last(), dir) } }
spec fn ones(b: B, s: Seq<AnchoredRule>, x: Cx, dir: Direction, lit: Set<char>, letters: Set<Seq<char>>) -> B decreases s.len() {
    if s.len() == 0 { b } else { one(ones(b, s.drop_last(), x, dir, lit, letters), s.last(), x, dir, lit, letters) }
}
proof fn earlies_take(b: B, s: Seq<AnchoredRule>, dir: Direction, i: int)
    requires 0 <= i < s.len(),
    ensures earlies(b, s.take(i + 1), dir) == early(earlies(b, s.take(i), dir), s[i], dir),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
proof fn ones_take(b: B, s: Seq<AnchoredRule>, x: Cx, dir: Direction, lit: Set<char>, letters: Set<Seq<char>>, i: int)
    requires 0 <= i < s.len(),
    ensures ones(b, s.take(i + 1), x, dir, lit, letters) == one(ones(b, s.take(i), x, dir, lit, letters), s[i], x, dir, lit, letters),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
// digits with a literary definition; cells of letters
spec fn lit_of(s: Seq<AnchoredRule>) -> Set<char> decreases s.len() {
    if s.len() == 0 { Set::empty() } else { match s.last().rule { Rule::Litdigit { character, .. } => lit_of(s.drop_last()).insert(character), _ => lit_of(s.drop_last()) } }
}
spec fn letters_of(s: Seq<AnchoredRule>) -> Set<Seq<char>> decreases s.len() {
    if s.len() == 0 { Set::empty() } else { match s.last().rule {
        Rule::Letter { dots, .. } => letters_of(s.drop_last()).insert(cells(dots)),
        Rule::Lowercase { dots, .. } => letters_of(s.drop_last()).insert(cells(dots)),
        Rule::Uppercase { dots, .. } => letters_of(s.drop_last()).insert(cells(dots)),
        _ => letters_of(s.drop_last()) } }
}
proof fn lit_take(s: Seq<AnchoredRule>, i: int)
    requires 0 <= i < s.len(),
    ensures lit_of(s.take(i + 1)) == (match s[i].rule { Rule::Litdigit { character, .. } => lit_of(s.take(i)).insert(character), _ => lit_of(s.take(i)) }),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
proof fn letters_take(s: Seq<AnchoredRule>, i: int)
    requires 0 <= i < s.len(),
    ensures letters_of(s.take(i + 1)) == (match s[i].rule {
        Rule::Letter { dots, .. } => letters_of(s.take(i)).insert(cells(dots)),
        Rule::Lowercase { dots, .. } => letters_of(s.take(i)).insert(cells(dots)),
        Rule::Uppercase { dots, .. } => letters_of(s.take(i)).insert(cells(dots)),
        _ => letters_of(s.take(i)) }),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
/// going backward, the cells within a word: those of letters and of contractions made of letters
spec fn word_cells(x: Cx, s: Seq<AnchoredRule>) -> Set<char> decreases s.len() {
    if s.len() == 0 { of_class(x.dc, Key::Letter) } else { match s.last().rule {
        Rule::Always { chars, dots, .. } => if all_letters(chars@) { word_cells(x, s.drop_last()).union(written(dots).to_set()) } else { word_cells(x, s.drop_last()) },
        _ => word_cells(x, s.drop_last()) } }
}
proof fn word_cells_take(x: Cx, s: Seq<AnchoredRule>, i: int)
    requires 0 <= i < s.len(),
    ensures word_cells(x, s.take(i + 1)) == (match s[i].rule {
        Rule::Always { chars, dots, .. } => if all_letters(chars@) { word_cells(x, s.take(i)).union(written(dots).to_set()) } else { word_cells(x, s.take(i)) },
        _ => word_cells(x, s.take(i)) }),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
spec fn of_class(m: Classes, k: Key) -> Set<char> { if m.contains_key(k) { m[k] } else { Set::empty() } }
/// the classes the indicators and constrainers are told about
spec fn informed(b: B, s: Seq<AnchoredRule>, x: Cx, dir: Direction) -> B {
    let digits = known(Op::NumericCharacters, of_class(x.cc, Key::Litdigit));
    let letters = known(Op::LetterCharacters, of_class(x.cc, Key::Letter));
    let b = to_numc(to_num(b, digits), digits);
    let b = to_caps(to_caps(b, known(Op::UppercaseCharacters, of_class(x.cc, Key::Uppercase))), letters);
    let b = to_punct(to_hyph(b, letters), letters);
    let b = to_punct(b, known(Op::LetterOrDigitCharacters, of_class(x.cc, Key::Letter).union(of_class(x.cc, Key::Digit))));
    let b = to_punct(b, known(Op::SpaceCharacters, of_class(x.cc, Key::Space)));
    if dir is Backward {
        let cells = known(Op::LetterCells, word_cells(x, s));
        let b = to_bcaps(to_bnum(b, cells), cells);
        to_bnum(b, known(Op::DigitCells, of_class(x.dc, Key::Digit).union(of_class(x.dc, Key::Litdigit))))
    } else { b }
}
spec fn somes<X>(s: Seq<Option<X>>, n: nat) -> Seq<X> decreases n { if n == 0 { seq![] } else { match s[n - 1] { Some(v) => somes(s, (n - 1) as nat).push(v), None => somes(s, (n - 1) as nat) } } }
trait Present<X>: Sized { spec fn all(&self) -> Seq<Option<X>>; fn present(self) -> (r: Vec<X>) ensures r@ == somes(self.all(), self.all().len()); }
impl<X, const N: usize> Present<X> for [Option<X>; N] {
    spec fn all(&self) -> Seq<Option<X>> { self@ }
    #[verifier::external_body]
    fn present(self) -> (r: Vec<X>) { unimplemented!() }
}
/// computer braille, emphasis, numbers, letter sign, capitals, contraction sign: in this order at one position
spec fn indicators_of(b: B, x: Cx) -> Seq<Option<Indicator>> {
    seq![
        match computer_braille::IndicatorBuilder::built(b.comp) { Some(i) => Some(Indicator::ComputerBraille(i)), None => None },
        match emphasis::IndicatorBuilder::built(b.emph, x) { Some(i) => Some(Indicator::Emphasis(i)), None => None },
        match numeric::IndicatorBuilder::built(b.num) { Some(i) => Some(Indicator::Numeric(i)), None => None },
        match lettersign::IndicatorBuilder::built(b.lets, x) { Some(i) => Some(Indicator::LetterSign(i)), None => None },
        match uppercase::IndicatorBuilder::built(b.caps, x) { Some(i) => Some(Indicator::Uppercase(i)), None => None },
        match nocontract::IndicatorBuilder::built(b.noc, x) { Some(i) => Some(Indicator::NoContract(i)), None => None },
    ]
}
/// hyphenation and punctuation only matter going forward
spec fn constrainers_of(b: B, dir: Direction) -> Seq<Option<Constrainer>> {
    seq![
        Some(Constrainer::ComputerBraille(ComputerBrailleConstrainer {})),
        match NumericConstrainerBuilder::built(b.numc) { Some(i) => Some(Constrainer::Numeric(i)), None => None },
        match BackwardCapsConstrainerBuilder::built(b.bcaps) { Some(i) => Some(Constrainer::BackwardCaps(i)), None => None },
        match BackwardNumericConstrainerBuilder::built(b.bnum) { Some(i) => Some(Constrainer::BackwardNumeric(i)), None => None },
        if dir is Forward { match HyphenationConstrainerBuilder::built(b.hyph) { Some(i) => Some(Constrainer::Hyphenation(i)), None => None } } else { None },
        if dir is Forward { match PunctuationConstrainerBuilder::built(b.punct) { Some(i) => Some(Constrainer::Punctuation(i)), None => None } } else { None },
    ]
}
spec fn table_of(t: PrimaryTable, b: B, x: Cx, dir: Direction) -> bool {
    &&& text_of(t.undefined) == b.undef && chars_of(t.character_translations.0@) == b.chars && t.direction == dir && defs(t.fallback_definitions) == x.d
    &&& puts(t.trie) == b.trie && puts(t.comp6_trie) == b.comp6 && puts(t.nocross_trie) == b.nocross
    &&& trie_cx(t.trie) == b.tcx && trie_cx(t.comp6_trie) == b.tcx && trie_cx(t.nocross_trie) == b.tcx
    &&& t.match_patterns == MatchPatternsBuilder::built(b.matches) && t.context_patterns == ContextPatternsBuilder::built(b.contexts)
    &&& t.indicators.0@ == somes(indicators_of(b, x), 6) && t.constrainers.0@ == somes(constrainers_of(b, dir), 6)
    &&& chars_of(t.backward_digit_overrides@) == b.over
    &&& match t.compbrl_scanner { Some(s) => b.triggers.len() > 0 && texts(s.triggers@) == b.triggers && classes(s.character_classes) == x.cc, None => b.triggers.len() == 0 }
}
@fn translator/indication.rs Indicators::new
@spec
    ensures r.0 == indicators,
@fn translator/position_constraints.rs Constrainers::new
@spec
    ensures r.0 == constrainers,
@fn translator/table.rs TableContext::character_definitions
@spec
    ensures *r == self.character_definitions,
@fn translator/table.rs TableContext::character_classes
@spec
    ensures *r == self.character_classes,
@fn translator/table.rs TableContext::dots_classes
@spec
    ensures *r == self.dots_classes,
@fn translator/table/primary.rs PrimaryTableBuilder::build optmap optthen
@subst .into_iter().flatten().collect() =>> .present()
@spec
    requires one_cx(self),
    ensures table_of(r, of(self), cx(*ctx), direction),
@entry
    proof { reveal_with_fuel(somes, 7); }
@raw
// ---- the whole table ----
/// what the parser makes sure of: texts and cells are not empty
spec fn proper(r: Rule) -> bool {
    match r {
        Rule::Space { dots, .. } => list(dots).len() > 0,
        Rule::Punctuation { dots, .. } => list(dots).len() > 0,
        Rule::Digit { dots, .. } => list(dots).len() > 0,
        Rule::Litdigit { dots, .. } => list(dots).len() > 0,
        Rule::Letter { dots, .. } => list(dots).len() > 0,
        Rule::Lowercase { dots, .. } => list(dots).len() > 0,
        Rule::Uppercase { dots, .. } => list(dots).len() > 0,
        Rule::Sign { dots, .. } => list(dots).len() > 0,
        Rule::Math { dots, .. } => list(dots).len() > 0,
        Rule::Hyphen { dots, .. } => list(dots).len() > 0,
        Rule::Decpoint { dots, .. } => list(dots).len() > 0,
        Rule::Numsign { dots, .. } => list(dots).len() > 0,
        Rule::Nonumsign { dots, .. } => list(dots).len() > 0,
        Rule::Capsletter { dots, .. } => list(dots).len() > 0,
        Rule::Begcapsword { dots, .. } => list(dots).len() > 0,
        Rule::Endcapsword { dots, .. } => list(dots).len() > 0,
        Rule::Largesign { chars, dots, .. } => chars@.len() > 0 && list(dots).len() > 0,
        Rule::Joinword { chars, dots, .. } => chars@.len() > 0 && list(dots).len() > 0,
        Rule::Lowword { chars, dots, .. } => chars@.len() > 0 && list(dots).len() > 0,
        Rule::Begnum { chars, dots, .. } => chars@.len() > 0 && list(dots).len() > 0,
        Rule::Midnum { chars, dots, .. } => chars@.len() > 0 && list(dots).len() > 0,
        Rule::Prepunc { chars, dots, .. } => chars@.len() > 0 && list(dots).len() > 0,
        Rule::Postpunc { chars, dots, .. } => chars@.len() > 0 && list(dots).len() > 0,
        Rule::Always { chars, dots, .. } => chars@.len() > 0 && (dots matches Braille::Explicit(d) ==> list(d).len() > 0),
        Rule::Syllable { chars, dots, .. } => chars@.len() > 0 && (dots matches Braille::Explicit(d) ==> list(d).len() > 0),
        Rule::Word { chars, dots, .. } => chars@.len() > 0 && (dots matches Braille::Explicit(d) ==> list(d).len() > 0),
        Rule::Begword { chars, dots, .. } => chars@.len() > 0 && (dots matches Braille::Explicit(d) ==> list(d).len() > 0),
        Rule::Midword { chars, dots, .. } => chars@.len() > 0 && (dots matches Braille::Explicit(d) ==> list(d).len() > 0),
        Rule::Endword { chars, dots, .. } => chars@.len() > 0 && (dots matches Braille::Explicit(d) ==> list(d).len() > 0),
        Rule::Midendword { chars, dots, .. } => chars@.len() > 0 && (dots matches Braille::Explicit(d) ==> list(d).len() > 0),
        Rule::Begmidword { chars, dots, .. } => chars@.len() > 0 && (dots matches Braille::Explicit(d) ==> list(d).len() > 0),
        Rule::Partword { chars, dots, .. } => chars@.len() > 0 && (dots matches Braille::Explicit(d) ==> list(d).len() > 0),
        Rule::Prfword { chars, dots, .. } => chars@.len() > 0 && (dots matches Braille::Explicit(d) ==> list(d).len() > 0),
        Rule::Sufword { chars, dots, .. } => chars@.len() > 0 && (dots matches Braille::Explicit(d) ==> list(d).len() > 0),
        Rule::Endnum { chars, dots, .. } => chars@.len() > 0 && (dots matches Braille::Explicit(d) ==> list(d).len() > 0),
        Rule::Comp6 { chars, dots, .. } => chars@.len() > 0 && (dots matches Braille::Explicit(d) ==> list(d).len() > 0),
        Rule::Contraction { chars } => chars@.len() > 0,
        _ => true,
    }
}
spec fn all_proper(s: Seq<AnchoredRule>) -> bool { forall|i: int| 0 <= i < s.len() ==> proper((#[trigger] s[i]).rule) }
spec fn full(d: Defs) -> bool { forall|c: char| #[trigger] d.contains_key(c) ==> d[c].len() > 0 }
/// no definition is empty
proof fn th_full(s: Seq<AnchoredRule>)
    requires all_proper(s),
    ensures full(seconds(firsts(no_cx(), s), s).d),
{ firsts_full(s); seconds_full(firsts(no_cx(), s), s); }
proof fn firsts_full(s: Seq<AnchoredRule>)
    requires all_proper(s),
    ensures full(firsts(no_cx(), s).d),
    decreases s.len(),
{ if s.len() > 0 { firsts_full(s.drop_last()); assert(proper(s.last().rule)); } }
proof fn seconds_full(x: Cx, s: Seq<AnchoredRule>)
    requires full(x.d),
    ensures full(seconds(x, s).d),
    decreases s.len(),
{ if s.len() > 0 { seconds_full(x, s.drop_last()); } }
proof fn spelled_full(d: Defs, s: Seq<char>)
    requires full(d),
    ensures spelled(d, s) is Some && s.len() > 0 ==> (spelled(d, s)->0).len() > 0,
    decreases s.len(),
{ if s.len() > 0 { spelled_full(d, s.drop_last()); } }
/// a rule has something to write
proof fn outcome_full(d: Defs, r: Rule)
    requires full(d), proper(r),
    ensures writes(r, d) is Some && (spelling(r).len() > 0 && !(r is Match)) ==> (writes(r, d)->0).len() > 0,
{ spelled_full(d, spelling(r)); }
@raw
// one part of the rules at a time: the verifier takes the same statements once per group
spec fn group(r: Rule) -> u8 {
    match r {
        Rule::Undefined { .. } | Rule::Space { .. } | Rule::Punctuation { .. } | Rule::Letter { .. } | Rule::Lowercase { .. } | Rule::Uppercase { .. } | Rule::Sign { .. } | Rule::Math { .. } | Rule::Digit { .. } | Rule::Litdigit { .. } | Rule::Base { .. } => 0,
        Rule::Numsign { .. } | Rule::Nonumsign { .. } | Rule::Numericnocontchars { .. } | Rule::Numericmodechars { .. } => 1,
        Rule::Capsletter { .. } | Rule::Begcapsword { .. } | Rule::Endcapsword { .. } | Rule::Begcaps { .. } | Rule::Endcaps { .. } | Rule::Begcapsphrase { .. } | Rule::Endcapsphrase { .. } | Rule::Lencapsphrase { .. } | Rule::Capsmodechars { .. } => 2,
        Rule::Emphclass { .. } | Rule::Emphletter { .. } | Rule::Begemphword { .. } | Rule::Endemphword { .. } | Rule::Begemphphrase { .. } | Rule::Begemph { .. } | Rule::Endemph { .. } | Rule::Endemphphrase { .. } | Rule::Lenemphphrase { .. } | Rule::Emphmodechars { .. } | Rule::Noemphchars { .. } => 3,
        Rule::Letsign { .. } | Rule::Noletsign { .. } | Rule::Noletsignafter { .. } | Rule::Noletsignbefore { .. } | Rule::Contraction { .. } | Rule::Nocontractsign { .. } => 4,
        Rule::Begcomp { .. } | Rule::Endcomp { .. } | Rule::Compbrl { .. } | Rule::Comp6 { .. } => 5,
        Rule::Always { .. } | Rule::Syllable { .. } | Rule::Largesign { .. } => 6,
        Rule::Word { .. } | Rule::Joinword { .. } | Rule::Lowword { .. } | Rule::Begword { .. } | Rule::Sufword { .. } | Rule::Prfword { .. } => 7,
        Rule::Midword { .. } | Rule::Partword { .. } | Rule::Midendword { .. } | Rule::Endword { .. } | Rule::Begmidword { .. } => 8,
        Rule::Begnum { .. } | Rule::Midnum { .. } | Rule::Endnum { .. } => 9,
        Rule::Prepunc { .. } | Rule::Postpunc { .. } => 10,
        Rule::Match { .. } | Rule::Context { .. } => 11,
        _ => 12,
    }
}
fn arm_group(r: &Rule) -> (k: u8)
    ensures k == group(*r), k < 13,
{
    match r {
        Rule::Undefined { .. } | Rule::Space { .. } | Rule::Punctuation { .. } | Rule::Letter { .. } | Rule::Lowercase { .. } | Rule::Uppercase { .. } | Rule::Sign { .. } | Rule::Math { .. } | Rule::Digit { .. } | Rule::Litdigit { .. } | Rule::Base { .. } => 0,
        Rule::Numsign { .. } | Rule::Nonumsign { .. } | Rule::Numericnocontchars { .. } | Rule::Numericmodechars { .. } => 1,
        Rule::Capsletter { .. } | Rule::Begcapsword { .. } | Rule::Endcapsword { .. } | Rule::Begcaps { .. } | Rule::Endcaps { .. } | Rule::Begcapsphrase { .. } | Rule::Endcapsphrase { .. } | Rule::Lencapsphrase { .. } | Rule::Capsmodechars { .. } => 2,
        Rule::Emphclass { .. } | Rule::Emphletter { .. } | Rule::Begemphword { .. } | Rule::Endemphword { .. } | Rule::Begemphphrase { .. } | Rule::Begemph { .. } | Rule::Endemph { .. } | Rule::Endemphphrase { .. } | Rule::Lenemphphrase { .. } | Rule::Emphmodechars { .. } | Rule::Noemphchars { .. } => 3,
        Rule::Letsign { .. } | Rule::Noletsign { .. } | Rule::Noletsignafter { .. } | Rule::Noletsignbefore { .. } | Rule::Contraction { .. } | Rule::Nocontractsign { .. } => 4,
        Rule::Begcomp { .. } | Rule::Endcomp { .. } | Rule::Compbrl { .. } | Rule::Comp6 { .. } => 5,
        Rule::Always { .. } | Rule::Syllable { .. } | Rule::Largesign { .. } => 6,
        Rule::Word { .. } | Rule::Joinword { .. } | Rule::Lowword { .. } | Rule::Begword { .. } | Rule::Sufword { .. } | Rule::Prfword { .. } => 7,
        Rule::Midword { .. } | Rule::Partword { .. } | Rule::Midendword { .. } | Rule::Endword { .. } | Rule::Begmidword { .. } => 8,
        Rule::Begnum { .. } | Rule::Midnum { .. } | Rule::Endnum { .. } => 9,
        Rule::Prepunc { .. } | Rule::Postpunc { .. } => 10,
        Rule::Match { .. } | Rule::Context { .. } => 11,
        _ => 12,
    }
}
fn one_rule(builder: &mut PrimaryTableBuilder, rule: &AnchoredRule, ctx: &TableContext, direction: Direction, litdigit_chars: &HashSet<char>, letter_dots: &TextSet) -> (r: Result<(), TranslationError>)
    requires full(defs(ctx.character_definitions)), proper(rule.rule), one_cx(*old(builder)),
    ensures match r {
        Ok(_) => of(*final(builder)) == one(of(*old(builder)), *rule, cx(*ctx), direction, litdigit_chars@, letter_dots@) && one_cx(*final(builder)) && !fails(*rule, cx(*ctx)),
        Err(e) => fails(*rule, cx(*ctx)),
    },
{
    let k = arm_group(&rule.rule);
    if k == 0 { return PrimaryTable::rule_of_characters(builder, rule, ctx, direction, litdigit_chars, letter_dots); }
    if k == 1 { return PrimaryTable::rule_of_numbers(builder, rule, ctx, direction, litdigit_chars, letter_dots); }
    if k == 2 { return PrimaryTable::rule_of_capitals(builder, rule, ctx, direction, litdigit_chars, letter_dots); }
    if k == 3 { return PrimaryTable::rule_of_emphasis(builder, rule, ctx, direction, litdigit_chars, letter_dots); }
    if k == 4 { return PrimaryTable::rule_of_letters(builder, rule, ctx, direction, litdigit_chars, letter_dots); }
    if k == 5 { return PrimaryTable::rule_of_computer(builder, rule, ctx, direction, litdigit_chars, letter_dots); }
    if k == 6 { return PrimaryTable::rule_of_anywhere(builder, rule, ctx, direction, litdigit_chars, letter_dots); }
    if k == 7 { return PrimaryTable::rule_of_words(builder, rule, ctx, direction, litdigit_chars, letter_dots); }
    if k == 8 { return PrimaryTable::rule_of_parts(builder, rule, ctx, direction, litdigit_chars, letter_dots); }
    if k == 9 { return PrimaryTable::rule_of_digits(builder, rule, ctx, direction, litdigit_chars, letter_dots); }
    if k == 10 { return PrimaryTable::rule_of_punctuation(builder, rule, ctx, direction, litdigit_chars, letter_dots); }
    if k == 11 { return PrimaryTable::rule_of_patterns(builder, rule, ctx, direction, litdigit_chars, letter_dots); }
    PrimaryTable::rule_of_rest(builder, rule, ctx, direction, litdigit_chars, letter_dots)
}
@fn translator/table/primary.rs PrimaryTable::compile nestelse attr=verifier::spinoff_prover loops=7 probeloops=none collect0=HashSet collect1=TextSet
@subst in rules =>> in rules.iter()
@subst HashSet<String> =>> TextSet
@subst HashSet::new() =>> new_set()
@subst character.to_string() =>> char_text(*character)
@subst fs::read_to_string(path)? =>> read_file(path)?
@subst HyphenationTable::parse(&source)? =>> parse_hyphenation(&source)?
@subst cfg!(feature = "backwards_compatibility") =>> true
@subst chars.chars().all(|c| c.is_alphabetic()) =>> all_alphabetic(chars)
@subst letter_cells.extend(dots.to_string().chars()) =>> add_chars(&mut letter_cells, &dots.to_string())
@subst digit_cells.extend(ctx.dots_classes().get(&CharacterClass::Litdigit).unwrap_or_default(),) =>> add_set(&mut digit_cells, ctx.dots_classes().get(&CharacterClass::Litdigit).or_empty())
@subst letter_chars.union(&ctx.character_classes().get(&CharacterClass::Digit).unwrap_or_default(),).copied().collect() =>> both(&letter_chars, &ctx.character_classes().get(&CharacterClass::Digit).or_empty())
@subst .unwrap_or_default() =>> .or_empty()
@subst numeric_chars.clone() =>> copy_set(&numeric_chars)
@subst letter_chars.clone() =>> copy_set(&letter_chars)
@subst letter_cells.clone() =>> copy_set(&letter_cells)
@subst chars.clone() =>> text_clone(chars)
@subst class_constraints.clone() =>> copy_constraints(&class_constraints)
@subst ctx.character_definitions().get(base).cloned() =>> owned_text(ctx.character_definitions().get(base))
@spec
    requires all_proper(rules@), full(defs(ctx.character_definitions)),
    ensures match r {
        Ok(t) => (forall|i: int| 0 <= i < rules@.len() ==> !fails(#[trigger] rules@[i], cx(*ctx))) && ({
            let (x, n) = (cx(*ctx), rules@);
            let lit = if direction is Forward { lit_of(n) } else { Set::empty() };
            let letters = if direction is Backward { letters_of(n) } else { Set::empty() };
            table_of(t, informed(ones(earlies(b0(if direction is Forward { x.cc } else { x.dc }), n, direction), n, x, direction, lit, letters), n, x, direction), x, direction)
        }),
        Err(e) => exists|i: int| 0 <= i < rules@.len() && fails(#[trigger] rules@[i], cx(*ctx)),
    },
@entry
    let ghost (x, n) = (cx(*ctx), rules@);
    let ghost lit = if direction is Forward { lit_of(n) } else { Set::empty() };
    let ghost letters = if direction is Backward { letters_of(n) } else { Set::empty() };
    let ghost z = b0(if direction is Forward { x.cc } else { x.dc });
    let ghost y = earlies(z, n, direction);
    proof { assert(n.take(0) =~= seq![]); assert(n.take(n.len() as int) =~= n); }
@loop 0
    invariant n == rules@, n.take(n.len() as int) == n, __i0 <= n.len(), __acc0@ == lit_of(n.take(__i0 as int)),
    decreases n.len() - __i0,
@loop 0 start
    proof { lit_take(n, __i0 as int); }
@loop 1
    invariant n == rules@, n.take(n.len() as int) == n, __i1 <= n.len(), __acc1@ == letters_of(n.take(__i1 as int)),
    decreases n.len() - __i1,
@loop 1 start
    proof { letters_take(n, __i1 as int); }
@loop 2
    invariant n == rules@, all_proper(n), n.take(n.len() as int) == n, __i2 <= n.len(), of(builder) == earlies(z, n.take(__i2 as int), direction), one_cx(builder),
    decreases n.len() - __i2,
@loop 2 start
    proof { earlies_take(z, n, direction, __i2 as int); assert(proper(n[__i2 as int].rule)); }
@loop 3
    invariant x == cx(*ctx), n == rules@, full(x.d), all_proper(n), n.take(n.len() as int) == n, lit == litdigit_chars@, letters == letter_dots@, __i3 <= n.len(), of(builder) == ones(y, n.take(__i3 as int), x, direction, lit, letters), one_cx(builder),
        forall|i: int| 0 <= i < __i3 ==> !fails(#[trigger] n[i], x),
    decreases n.len() - __i3,
@loop 3 start
    let ghost b = of(builder);
    proof { ones_take(y, n, x, direction, lit, letters, __i3 as int); assert(proper(n[__i3 as int].rule)); }
@outline 3 rule_of characters,numbers,capitals,emphasis,letters,computer,anywhere,words,parts,digits,punctuation,patterns,rest one_rule(&mut builder, rule, ctx, direction, &litdigit_chars, &letter_dots)?
#[verifier::spinoff_prover]
fn rule_of_{name}(builder: &mut PrimaryTableBuilder, rule: &AnchoredRule, ctx: &TableContext, direction: Direction, litdigit_chars: &HashSet<char>, letter_dots: &TextSet) -> (r: Result<(), TranslationError>)
    requires group(rule.rule) == {k}, full(defs(ctx.character_definitions)), proper(rule.rule), one_cx(*old(builder)),
    ensures match r {
        Ok(_) => of(*final(builder)) == one(of(*old(builder)), *rule, cx(*ctx), direction, litdigit_chars@, letter_dots@) && one_cx(*final(builder)) && !fails(*rule, cx(*ctx)),
        Err(e) => fails(*rule, cx(*ctx)),
    },
@outline_entry
    let ghost x = cx(*ctx);
    let ghost b = of(*builder);
    proof { edges(); texts_push(builder.compbrl_triggers@); outcome_full(x.d, rule.rule); }
@outline_exit
    proof {
        let w = one(b, *rule, x, direction, litdigit_chars@, letter_dots@);
        assert(of(*builder).num == w.num); /*@numbers*/
        assert(of(*builder).caps == w.caps); /*@capitals*/
        assert(of(*builder).lets == w.lets); /*@letters*/
        assert(of(*builder).noc == w.noc); /*@letters*/
        assert(of(*builder).emph == w.emph); /*@emphasis*/
        assert(of(*builder).comp == w.comp); /*@computer*/
        assert(of(*builder).numc == w.numc); /*@numbers*/
        assert(of(*builder).bcaps == w.bcaps); /*@undone*/
        assert(of(*builder).bnum == w.bnum); /*@undone*/
        assert(of(*builder).hyph == w.hyph); /*@hyphenation*/
        assert(of(*builder).punct == w.punct); /*@punctuation*/
        assert(of(*builder).over == w.over); /*@undone*/
        assert(of(*builder).triggers == w.triggers); /*@computer*/
        assert(of(*builder).undef == w.undef); /*@characters*/
        assert(of(*builder).chars == w.chars); /*@characters*/
        assert(of(*builder).trie == w.trie); /*@tree*/
        assert(of(*builder).comp6 == w.comp6); /*@computer*/
        assert(of(*builder).nocross == w.nocross); /*@tree*/
        assert(of(*builder).matches == w.matches); /*@patterns*/
        assert(of(*builder).contexts == w.contexts); /*@patterns*/
    }
    Ok(())
@loop 4
    invariant_except_break __acc4, forall|i: int| 0 <= i < __i4 ==> within(x.cc, Key::Punctuation, #[trigger] chars@[i]),
    invariant x == cx(*ctx), __i4 <= __s4@.len(), __s4@ == chars@,
    ensures __acc4 == all_punct(x, chars@),
    decreases __s4@.len() - __i4,
@loop 5
    invariant_except_break __acc5, forall|i: int| 0 <= i < __i5 ==> within(x.cc, Key::Punctuation, #[trigger] chars@[i]),
    invariant x == cx(*ctx), __i5 <= __s5@.len(), __s5@ == chars@,
    ensures __acc5 == all_punct(x, chars@),
    decreases __s5@.len() - __i5,
@loop 6
    invariant n == rules@, n.take(n.len() as int) == n, __i6 <= n.len(), letter_cells@ == word_cells(x, n.take(__i6 as int)),
    decreases n.len() - __i6,
@loop 6 start
    proof { word_cells_take(x, n, __i6 as int); }
@before Ok (builder . build
    proof {
        let w = informed(ones(y, n, x, direction, lit, letters), n, x, direction);
        assert(of(builder).num == w.num); /*@numbers*/
        assert(of(builder).caps == w.caps); /*@capitals*/
        assert(of(builder).lets == w.lets); /*@letters*/
        assert(of(builder).noc == w.noc); /*@letters*/
        assert(of(builder).emph == w.emph); /*@emphasis*/
        assert(of(builder).comp == w.comp); /*@computer*/
        assert(of(builder).numc == w.numc); /*@numbers*/
        assert(of(builder).bcaps == w.bcaps); /*@undone*/
        assert(of(builder).bnum == w.bnum); /*@undone*/
        assert(of(builder).hyph == w.hyph); /*@hyphenation*/
        assert(of(builder).punct == w.punct); /*@punctuation*/
        assert(of(builder).over == w.over); /*@undone*/
        assert(of(builder).triggers == w.triggers); /*@computer*/
        assert(of(builder).undef == w.undef); /*@characters*/
        assert(of(builder).chars == w.chars); /*@characters*/
        assert(of(builder).trie == w.trie); /*@tree*/
        assert(of(builder).comp6 == w.comp6); /*@computer*/
        assert(of(builder).nocross == w.nocross); /*@tree*/
        assert(of(builder).matches == w.matches); /*@patterns*/
        assert(of(builder).contexts == w.contexts); /*@patterns*/
    }
