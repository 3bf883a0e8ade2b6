@include common.vs
@type parser.rs Constraint attr=derive(PartialEq,Eq,Structural,Clone,Copy)
@raw
// ---- trusted: `enumset::EnumSet`, seen as a set of values ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct EnumSet<T> { id: usize, p: std::marker::PhantomData<T> }
impl<T> EnumSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    fn is_subset(&self, o: EnumSet<T>) -> (r: bool) ensures r == self@.subset_of(o@) { unimplemented!() }
    #[verifier::external_body]
    fn difference(&self, o: EnumSet<T>) -> (r: EnumSet<T>) ensures r@ == self@.difference(o@) { unimplemented!() }
    #[verifier::external_body]
    fn empty() -> (r: EnumSet<T>) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, v: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(v), r == !old(self)@.contains(v) { unimplemented!() }
}
impl<T: Copy> Clone for EnumSet<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl<T: Copy> Copy for EnumSet<T> { }
/// `enum_set!(a | b | ..)`
#[verifier::external_body]
fn enum_set_of<T>(v: Vec<T>) -> (r: EnumSet<T>) ensures r@ == v@.to_set() { unimplemented!() }
@type parser.rs Constraints derive=Clone,Copy
@raw
// ---- the operands that other parsers read: each text is one of theirs or is not (their contracts are in braille.vs, match_parser.vs; escape.vs) ----
mod braille { use super::*; #[verifier::external_body] pub struct ParseError { e: u8 } }
mod match_rule {
    use super::*;
    #[verifier::external_body]
    pub struct ParseError { e: u8 }
    #[verifier::external_body]
    pub struct PatternParser { e: u8 }
    impl PatternParser {
        pub uninterp spec fn told(&self) -> (Seq<char>, Side);
        #[verifier::external_body]
        pub fn new(s: &str, side: Side) -> (r: PatternParser) ensures r.told() == (s@, side) { unimplemented!() }
        #[verifier::external_body]
        pub fn pattern(self) -> (r: Result<Patterns, ParseError>)
            ensures r is Ok <==> pattern_spelt(self.told().0, self.told().1) is Some, r is Ok ==> Some(r->Ok_0) == pattern_spelt(self.told().0, self.told().1)
        { unimplemented!() }
    }
}
mod multipass {
    use super::*;
    #[verifier::external_body]
    pub struct ParseError { e: u8 }
    #[verifier::external_body]
    pub struct Test { e: u8 }
    pub mod test {
        use super::super::*;
        #[verifier::external_body]
        pub struct Parser { e: u8 }
        impl Parser {
            pub uninterp spec fn told(&self) -> Seq<char>;
            #[verifier::external_body]
            pub fn new(s: &str) -> (r: Parser) ensures r.told() == s@ { unimplemented!() }
            #[verifier::external_body]
            pub fn tests(self) -> (r: Result<Test, super::ParseError>) ensures r is Ok <==> test_of(self.told()) is Some, r is Ok ==> Some(r->Ok_0) == test_of(self.told()) { unimplemented!() }
        }
    }
    pub mod action {
        use super::super::*;
        #[verifier::external_body]
        pub struct Parser { e: u8 }
        impl Parser {
            pub uninterp spec fn told(&self) -> Seq<char>;
            #[verifier::external_body]
            pub fn new(s: &str) -> (r: Parser) ensures r.told() == s@ { unimplemented!() }
            #[verifier::external_body]
            pub fn actions(self) -> (r: Result<Action, super::ParseError>) ensures r is Ok <==> action_of(self.told()) is Some, r is Ok ==> Some(r->Ok_0) == action_of(self.told()) { unimplemented!() }
        }
    }
}
use multipass::Test;
#[verifier::external_body]
pub struct Action { e: u8 }
#[verifier::external_body]
pub struct Patterns { e: u8 }
#[verifier::external_body]
pub struct BrailleChar { e: u8 }
#[verifier::external_body]
pub struct PathBuf { e: u8 }
#[verifier::external_body]
pub struct ParseIntError { e: u8 }
pub uninterp spec fn test_of(w: Seq<char>) -> Option<Test>;
pub uninterp spec fn action_of(w: Seq<char>) -> Option<Action>;
pub uninterp spec fn pattern_spelt(w: Seq<char>, s: Side) -> Option<Patterns>;
/// escapes resolved (escape.vs)
pub uninterp spec fn unesc(w: Seq<char>, m: bool) -> Option<Seq<char>>;
/// the cell that dot digits describe (braille.vs)
pub uninterp spec fn cell_of(w: Seq<char>) -> Option<BrailleChar>;
/// std: decimal text of an i32
pub uninterp spec fn number_of(w: Seq<char>) -> Option<i32>;
impl BrailleChar {
    #[verifier::external_body]
    fn try_from(s: &str) -> (r: Result<BrailleChar, braille::ParseError>) ensures r is Ok <==> cell_of(s@) is Some, r is Ok ==> Some(r->Ok_0) == cell_of(s@) { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: BrailleChar) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
fn parse_i32(s: &str) -> (r: Result<i32, ParseIntError>) ensures r is Ok <==> number_of(s@) is Some, r is Ok ==> Some(r->Ok_0) == number_of(s@) { unimplemented!() }
/// the sequence of cells in a pattern of cells
#[verifier::external_body]
fn first_cell(b: &BrailleChars) -> (r: Option<&BrailleChar>) ensures r is Some <==> b.0@.len() > 0, r is Some ==> *r->0 == b.0@[0] { b.0.first() }
#[verifier::external_body]
fn last_cell(b: &BrailleChars) -> (r: Option<&BrailleChar>) ensures r is Some <==> b.0@.len() > 0, r is Some ==> *r->0 == b.0@.last() { b.0.last() }
#[verifier::external_body]
struct ListIter { v: std::vec::IntoIter<BrailleChars> }
impl View for ListIter { type V = Seq<BrailleChars>; uninterp spec fn view(&self) -> Seq<BrailleChars>; }
impl ListIter {
    #[verifier::external_body]
    fn of(v: Vec<BrailleChars>) -> (r: ListIter) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<BrailleChars>)
        ensures old(self)@.len() > 0 ==> r is Some && r->0 == old(self)@[0] && final(self)@ == old(self)@.skip(1), old(self)@.len() == 0 ==> r is None
    { unimplemented!() }
}
/// the pieces between the separators
spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if !s.contains(c) { seq![s] } else {
        let k = s.index_of_first(c);
        if k is Some && 0 <= k->0 < s.len() { seq![s.take(k->0)] + pieces(s.skip(k->0 + 1), c) } else { seq![s] }
    }
}
#[verifier::external_body]
fn str_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>)
    ensures r@.len() == pieces(s@, c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == pieces(s@, c)[i]
{ s.split(c).collect() }
#[verifier::external_body]
fn str_has(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { s.contains(c) }
#[verifier::external_body]
fn str_is(s: &str, t: &str) -> (r: bool) ensures r == (s@ == t@) { s == t }
#[verifier::external_body]
fn own(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
fn text_len(s: &String) -> (r: usize) ensures r as int == s@.len() { s.chars().count() }
#[verifier::external_body]
fn text_first(s: &String) -> (r: Option<char>) ensures r is Some <==> s@.len() > 0, r is Some ==> r->0 == s@[0] { s.chars().next() }
pub open spec fn alnum(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9' }
pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (r: bool) ensures r == alnum(*c);
/// the words of a line
#[verifier::external_body]
struct Tokens<'a> { t: std::iter::Peekable<std::str::SplitAsciiWhitespace<'a>> }
impl<'a> View for Tokens<'a> { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
impl<'a> Tokens<'a> {
    #[verifier::external_body]
    fn next_if_eq(&mut self, x: &&str) -> (r: Option<&'a str>)
        ensures
            old(self)@.len() > 0 && old(self)@[0] == x@ ==> r is Some && r->0@ == x@ && final(self)@ == old(self)@.skip(1),
            !(old(self)@.len() > 0 && old(self)@[0] == x@) ==> r is None && final(self)@ == old(self)@,
    { self.t.next_if_eq(x) }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a str>)
        ensures
            old(self)@.len() > 0 ==> r is Some && r->0@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
    { self.t.next() }
    #[verifier::external_body]
    fn peek(&mut self) -> (r: Option<&&'a str>)
        ensures final(self)@ == old(self)@, old(self)@.len() > 0 ==> r is Some && r->0@ == old(self)@[0], old(self)@.len() == 0 ==> r is None,
    { self.t.peek() }
    /// `peek() == Some(&x)`
    #[verifier::external_body]
    fn peeks(&mut self, x: &str) -> (r: bool)
        ensures final(self)@ == old(self)@, r == (old(self)@.len() > 0 && old(self)@[0] == x@),
    { self.t.peek() == Some(&x) }
    /// `by_ref()`: the words left
    #[verifier::external_body]
    fn rest(&mut self) -> (r: Vec<&'a str>)
        ensures final(self)@.len() == 0, r@.len() == old(self)@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == old(self)@[i],
    { self.t.by_ref().collect() }
}
@type parser.rs WithClass derive=
@type parser.rs WithMatch attr=derive(PartialEq,Eq,Structural,Clone,Copy) derive=
@raw
type WithClasses = Vec<WithClass>;
/// `HashSet<WithMatch>`
#[verifier::external_body]
struct WithMatches { e: std::collections::HashSet<u8> }
impl View for WithMatches { type V = Set<WithMatch>; uninterp spec fn view(&self) -> Set<WithMatch>; }
impl WithMatches {
    #[verifier::external_body]
    fn new() -> (r: WithMatches) ensures r@ == Set::<WithMatch>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, m: WithMatch) -> (r: bool) ensures final(self)@ == old(self)@.insert(m) { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<WithMatch>::empty()) { unimplemented!() }
}
/// `r.unwrap_or_default().unwrap_or_default()`
#[verifier::external_body]
fn classes_or_none(r: Result<Option<WithClasses>, ParseError>) -> (o: WithClasses)
    ensures o@ == (match r { Ok(Some(v)) => v@, _ => Seq::<WithClass>::empty() })
{ unimplemented!() }
@type parser.rs Opcode derive=
@type parser.rs ParseError derive=
@type parser.rs Position derive=
@type parser.rs EscapingContext attr=derive(PartialEq,Eq,Structural) derive=
@type parser/match_rule.rs Side attr=derive(PartialEq,Eq,Structural) derive=
@type parser/braille.rs BrailleChars derive=
@type parser.rs Braille derive=
@type parser.rs Rule derive=
@type parser.rs RuleParser retype=tokens:Peekable<SplitAsciiWhitespace<'a>>=>Tokens<'a>
@raw
impl From<braille::ParseError> for ParseError { #[verifier::external_body] fn from(e: braille::ParseError) -> ParseError { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<braille::ParseError> for ParseError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: braille::ParseError) -> ParseError { arbitrary() }
}
impl From<ParseIntError> for ParseError { #[verifier::external_body] fn from(e: ParseIntError) -> ParseError { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<ParseIntError> for ParseError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: ParseIntError) -> ParseError { arbitrary() }
}
// ---- what each kind of operand is ----
spec fn text_of(w: Seq<char>) -> Option<Seq<char>> { unesc(w, false) }
spec fn char_of(w: Seq<char>) -> Option<char> { if unesc(w, false) is Some && unesc(w, false)->0.len() == 1 { Some(unesc(w, false)->0[0]) } else { None } }
spec fn name_of(w: Seq<char>) -> Option<Seq<char>> { if forall|i: int| 0 <= i < w.len() ==> alnum(#[trigger] w[i]) { Some(w) } else { None } }
spec fn all_cells(p: Seq<Seq<char>>) -> Option<Seq<BrailleChar>> {
    if forall|i: int| 0 <= i < p.len() ==> cell_of(#[trigger] p[i]) is Some { Some(Seq::new(p.len(), |i: int| cell_of(p[i])->0)) } else { None }
}
/// cells, separated by hyphens
spec fn cells_of(w: Seq<char>) -> Option<Seq<BrailleChar>> { all_cells(pieces(w, '-')) }
/// single cells, separated by commas
spec fn singles_of(w: Seq<char>) -> Option<Seq<BrailleChar>> {
    if forall|i: int| 0 <= i < pieces(w, ',').len() ==> !(#[trigger] pieces(w, ',')[i]).contains('-') { all_cells(pieces(w, ',')) } else { None }
}
/// lists of cells, separated by commas
spec fn lists_of(w: Seq<char>) -> Option<Seq<Seq<BrailleChar>>> {
    let p = pieces(w, ',');
    if forall|i: int| 0 <= i < p.len() ==> cells_of(#[trigger] p[i]) is Some { Some(Seq::new(p.len(), |i: int| cells_of(p[i])->0)) } else { None }
}
/// `=` or cells
spec fn dots_of(w: Seq<char>) -> Option<Option<Seq<BrailleChar>>> { if w == "="@ { Some(None) } else { match cells_of(w) { Some(c) => Some(Some(c)), None => None } } }
spec fn position_of(w: Seq<char>) -> Option<Position> { if w == "before"@ { Some(Position::Before) } else if w == "after"@ { Some(Position::After) } else { None } }
spec fn pattern_of(w: Seq<char>, s: Side) -> Option<Patterns> { match unesc(w, true) { Some(t) => pattern_spelt(t, s), None => None } }
spec fn dots_view(b: Braille) -> Option<Seq<BrailleChar>> { match b { Braille::Implicit => None, Braille::Explicit(c) => Some(c.0@) } }
spec fn lists_view(v: Seq<BrailleChars>) -> Seq<Seq<BrailleChar>> { Seq::new(v.len(), |i: int| v[i].0@) }
spec fn names_view(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
spec fn class_view(c: WithClass) -> (bool, Seq<char>) { match c { WithClass::Before { class } => (true, class@), WithClass::After { class } => (false, class@) } }
spec fn classes_view(v: Seq<WithClass>) -> Seq<(bool, Seq<char>)> { Seq::new(v.len(), |i: int| class_view(v[i])) }
// ---- what stands in front of the opcode ----
/// the restrictions
spec fn prefix(t: Seq<Seq<char>>) -> (Set<Constraint>, int) {
    let a = if t.len() > 0 && t[0] == "nofor"@ { (Set::<Constraint>::empty().insert(Constraint::Nofor), 1int) }
        else if t.len() > 0 && t[0] == "noback"@ { (Set::<Constraint>::empty().insert(Constraint::Noback), 1) } else { (Set::<Constraint>::empty(), 0) };
    if t.len() > a.1 && t[a.1] == "nocross"@ { (a.0.insert(Constraint::Nocross), a.1 + 1) } else { a }
}
spec fn class_word(w: Seq<char>) -> bool { w == "before"@ || w == "after"@ }
/// the classes, each behind `before` or `after`; `None` when the last one has no name
spec fn classed(t: Seq<Seq<char>>) -> Option<(Seq<(bool, Seq<char>)>, Seq<Seq<char>>)> decreases t.len() {
    if t.len() == 0 || !class_word(t[0]) { Some((Seq::empty(), t)) }
    else if t.len() == 1 { None }
    else { match classed(t.skip(2)) { Some((k, u)) => Some((seq![(t[0] == "before"@, t[1])] + k, u)), None => None } }
}
spec fn match_word(w: Seq<char>) -> bool { w == "empmatchbefore"@ || w == "empmatchafter"@ }
spec fn which(w: Seq<char>) -> WithMatch { if w == "empmatchbefore"@ { WithMatch::Before } else { WithMatch::After } }
/// the sides that may match without text
spec fn matched(t: Seq<Seq<char>>, m: Set<WithMatch>) -> (Set<WithMatch>, Seq<Seq<char>>) decreases t.len() {
    if t.len() == 0 || !match_word(t[0]) { (m, t) } else { matched(t.skip(1), m.insert(which(t[0]))) }
}
// ---- the opcodes ----
spec fn word_of(o: Opcode) -> Seq<char> {
    match o {
        Opcode::Include => "include"@,
        Opcode::Undefined => "undefined"@,
        Opcode::Display => "display"@,
        Opcode::Multind => "multind"@,
        Opcode::Space => "space"@,
        Opcode::Punctuation => "punctuation"@,
        Opcode::Digit => "digit"@,
        Opcode::Letter => "letter"@,
        Opcode::Lowercase => "lowercase"@,
        Opcode::Uppercase => "uppercase"@,
        Opcode::Litdigit => "litdigit"@,
        Opcode::Sign => "sign"@,
        Opcode::Math => "math"@,
        Opcode::Hyphen => "hyphen"@,
        Opcode::Grouping => "grouping"@,
        Opcode::Base => "base"@,
        Opcode::Modeletter => "modeletter"@,
        Opcode::Begmodeword => "begmodeword"@,
        Opcode::Begemph => "begemph"@,
        Opcode::Endemph => "endemph"@,
        Opcode::Capsletter => "capsletter"@,
        Opcode::Begcapsword => "begcapsword"@,
        Opcode::Endcapsword => "endcapsword"@,
        Opcode::Nocontractsign => "nocontractsign"@,
        Opcode::Nonumsign => "nonumsign"@,
        Opcode::Begcomp => "begcomp"@,
        Opcode::Endcomp => "endcomp"@,
        Opcode::Capsmodechars => "capsmodechars"@,
        Opcode::Noletsign => "noletsign"@,
        Opcode::Noletsignbefore => "noletsignbefore"@,
        Opcode::Noletsignafter => "noletsignafter"@,
        Opcode::Numericnocontchars => "numericnocontchars"@,
        Opcode::Numericmodechars => "numericmodechars"@,
        Opcode::Midendnumericmodechars => "midendnumericmodechars"@,
        Opcode::Seqdelimiter => "seqdelimiter"@,
        Opcode::Seqbeforechars => "seqbeforechars"@,
        Opcode::Seqafterchars => "seqafterchars"@,
        Opcode::Seqafterpattern => "seqafterpattern"@,
        Opcode::Seqafterexpression => "seqafterexpression"@,
        Opcode::Nocont => "nocont"@,
        Opcode::Contraction => "contraction"@,
        Opcode::Exactdots => "exactdots"@,
        Opcode::Literal => "literal"@,
        Opcode::Begcaps => "begcaps"@,
        Opcode::Endcaps => "endcaps"@,
        Opcode::Begcapsphrase => "begcapsphrase"@,
        Opcode::Letsign => "letsign"@,
        Opcode::Numsign => "numsign"@,
        Opcode::Endcapsphrase => "endcapsphrase"@,
        Opcode::Lencapsphrase => "lencapsphrase"@,
        Opcode::Begmodephrase => "begmodephrase"@,
        Opcode::Emphletter => "emphletter"@,
        Opcode::Begemphword => "begemphword"@,
        Opcode::Endemphword => "endemphword"@,
        Opcode::Begemphphrase => "begemphphrase"@,
        Opcode::Endmodephrase => "endmodephrase"@,
        Opcode::Endemphphrase => "endemphphrase"@,
        Opcode::Lenmodephrase => "lenmodephrase"@,
        Opcode::Lenemphphrase => "lenemphphrase"@,
        Opcode::Class => "class"@,
        Opcode::Noemphchars => "noemphchars"@,
        Opcode::Emphmodechars => "emphmodechars"@,
        Opcode::Attribute => "attribute"@,
        Opcode::Emphclass => "emphclass"@,
        Opcode::Decpoint => "decpoint"@,
        Opcode::Capsnocont => "capsnocont"@,
        Opcode::Compbrl => "compbrl"@,
        Opcode::Comp6 => "comp6"@,
        Opcode::Syllable => "syllable"@,
        Opcode::Replace => "replace"@,
        Opcode::Repeated => "repeated"@,
        Opcode::Lowword => "lowword"@,
        Opcode::Repword => "repword"@,
        Opcode::Largesign => "largesign"@,
        Opcode::Joinword => "joinword"@,
        Opcode::Rependword => "rependword"@,
        Opcode::Word => "word"@,
        Opcode::Always => "always"@,
        Opcode::Sufword => "sufword"@,
        Opcode::Prfword => "prfword"@,
        Opcode::Begword => "begword"@,
        Opcode::Begmidword => "begmidword"@,
        Opcode::Midword => "midword"@,
        Opcode::Midendword => "midendword"@,
        Opcode::Endword => "endword"@,
        Opcode::Partword => "partword"@,
        Opcode::Prepunc => "prepunc"@,
        Opcode::Postpunc => "postpunc"@,
        Opcode::Begnum => "begnum"@,
        Opcode::Midnum => "midnum"@,
        Opcode::Joinnum => "joinnum"@,
        Opcode::Endnum => "endnum"@,
        Opcode::Swapcd => "swapcd"@,
        Opcode::Swapdd => "swapdd"@,
        Opcode::Swapcc => "swapcc"@,
        Opcode::Context => "context"@,
        Opcode::Pass2 => "pass2"@,
        Opcode::Pass3 => "pass3"@,
        Opcode::Pass4 => "pass4"@,
        Opcode::Correct => "correct"@,
        Opcode::Match => "match"@,
    }
}
spec fn op_of(w: Seq<char>) -> Option<Opcode> {
    if w == "include"@ { Some(Opcode::Include) }
    else if w == "undefined"@ { Some(Opcode::Undefined) }
    else if w == "display"@ { Some(Opcode::Display) }
    else if w == "multind"@ { Some(Opcode::Multind) }
    else if w == "space"@ { Some(Opcode::Space) }
    else if w == "punctuation"@ { Some(Opcode::Punctuation) }
    else if w == "digit"@ { Some(Opcode::Digit) }
    else if w == "letter"@ { Some(Opcode::Letter) }
    else if w == "lowercase"@ { Some(Opcode::Lowercase) }
    else if w == "uppercase"@ { Some(Opcode::Uppercase) }
    else if w == "litdigit"@ { Some(Opcode::Litdigit) }
    else if w == "sign"@ { Some(Opcode::Sign) }
    else if w == "math"@ { Some(Opcode::Math) }
    else if w == "hyphen"@ { Some(Opcode::Hyphen) }
    else if w == "grouping"@ { Some(Opcode::Grouping) }
    else if w == "base"@ { Some(Opcode::Base) }
    else if w == "modeletter"@ { Some(Opcode::Modeletter) }
    else if w == "begmodeword"@ { Some(Opcode::Begmodeword) }
    else if w == "begemph"@ { Some(Opcode::Begemph) }
    else if w == "endemph"@ { Some(Opcode::Endemph) }
    else if w == "capsletter"@ { Some(Opcode::Capsletter) }
    else if w == "begcapsword"@ { Some(Opcode::Begcapsword) }
    else if w == "endcapsword"@ { Some(Opcode::Endcapsword) }
    else if w == "nocontractsign"@ { Some(Opcode::Nocontractsign) }
    else if w == "nonumsign"@ { Some(Opcode::Nonumsign) }
    else if w == "begcomp"@ { Some(Opcode::Begcomp) }
    else if w == "endcomp"@ { Some(Opcode::Endcomp) }
    else if w == "capsmodechars"@ { Some(Opcode::Capsmodechars) }
    else if w == "noletsign"@ { Some(Opcode::Noletsign) }
    else if w == "noletsignbefore"@ { Some(Opcode::Noletsignbefore) }
    else if w == "noletsignafter"@ { Some(Opcode::Noletsignafter) }
    else if w == "numericnocontchars"@ { Some(Opcode::Numericnocontchars) }
    else if w == "numericmodechars"@ { Some(Opcode::Numericmodechars) }
    else if w == "midendnumericmodechars"@ { Some(Opcode::Midendnumericmodechars) }
    else if w == "seqdelimiter"@ { Some(Opcode::Seqdelimiter) }
    else if w == "seqbeforechars"@ { Some(Opcode::Seqbeforechars) }
    else if w == "seqafterchars"@ { Some(Opcode::Seqafterchars) }
    else if w == "seqafterpattern"@ { Some(Opcode::Seqafterpattern) }
    else if w == "seqafterexpression"@ { Some(Opcode::Seqafterexpression) }
    else if w == "nocont"@ { Some(Opcode::Nocont) }
    else if w == "contraction"@ { Some(Opcode::Contraction) }
    else if w == "exactdots"@ { Some(Opcode::Exactdots) }
    else if w == "literal"@ { Some(Opcode::Literal) }
    else if w == "begcaps"@ { Some(Opcode::Begcaps) }
    else if w == "endcaps"@ { Some(Opcode::Endcaps) }
    else if w == "begcapsphrase"@ { Some(Opcode::Begcapsphrase) }
    else if w == "letsign"@ { Some(Opcode::Letsign) }
    else if w == "numsign"@ { Some(Opcode::Numsign) }
    else if w == "endcapsphrase"@ { Some(Opcode::Endcapsphrase) }
    else if w == "lencapsphrase"@ { Some(Opcode::Lencapsphrase) }
    else if w == "begmodephrase"@ { Some(Opcode::Begmodephrase) }
    else if w == "emphletter"@ { Some(Opcode::Emphletter) }
    else if w == "begemphword"@ { Some(Opcode::Begemphword) }
    else if w == "endemphword"@ { Some(Opcode::Endemphword) }
    else if w == "begemphphrase"@ { Some(Opcode::Begemphphrase) }
    else if w == "endmodephrase"@ { Some(Opcode::Endmodephrase) }
    else if w == "endemphphrase"@ { Some(Opcode::Endemphphrase) }
    else if w == "lenmodephrase"@ { Some(Opcode::Lenmodephrase) }
    else if w == "lenemphphrase"@ { Some(Opcode::Lenemphphrase) }
    else if w == "class"@ { Some(Opcode::Class) }
    else if w == "noemphchars"@ { Some(Opcode::Noemphchars) }
    else if w == "emphmodechars"@ { Some(Opcode::Emphmodechars) }
    else if w == "attribute"@ { Some(Opcode::Attribute) }
    else if w == "emphclass"@ { Some(Opcode::Emphclass) }
    else if w == "decpoint"@ { Some(Opcode::Decpoint) }
    else if w == "capsnocont"@ { Some(Opcode::Capsnocont) }
    else if w == "compbrl"@ { Some(Opcode::Compbrl) }
    else if w == "comp6"@ { Some(Opcode::Comp6) }
    else if w == "syllable"@ { Some(Opcode::Syllable) }
    else if w == "replace"@ { Some(Opcode::Replace) }
    else if w == "repeated"@ { Some(Opcode::Repeated) }
    else if w == "lowword"@ { Some(Opcode::Lowword) }
    else if w == "repword"@ { Some(Opcode::Repword) }
    else if w == "largesign"@ { Some(Opcode::Largesign) }
    else if w == "joinword"@ { Some(Opcode::Joinword) }
    else if w == "rependword"@ { Some(Opcode::Rependword) }
    else if w == "word"@ { Some(Opcode::Word) }
    else if w == "always"@ { Some(Opcode::Always) }
    else if w == "sufword"@ { Some(Opcode::Sufword) }
    else if w == "prfword"@ { Some(Opcode::Prfword) }
    else if w == "begword"@ { Some(Opcode::Begword) }
    else if w == "begmidword"@ { Some(Opcode::Begmidword) }
    else if w == "midword"@ { Some(Opcode::Midword) }
    else if w == "midendword"@ { Some(Opcode::Midendword) }
    else if w == "endword"@ { Some(Opcode::Endword) }
    else if w == "partword"@ { Some(Opcode::Partword) }
    else if w == "prepunc"@ { Some(Opcode::Prepunc) }
    else if w == "postpunc"@ { Some(Opcode::Postpunc) }
    else if w == "begnum"@ { Some(Opcode::Begnum) }
    else if w == "midnum"@ { Some(Opcode::Midnum) }
    else if w == "joinnum"@ { Some(Opcode::Joinnum) }
    else if w == "endnum"@ { Some(Opcode::Endnum) }
    else if w == "swapcd"@ { Some(Opcode::Swapcd) }
    else if w == "swapdd"@ { Some(Opcode::Swapdd) }
    else if w == "swapcc"@ { Some(Opcode::Swapcc) }
    else if w == "context"@ { Some(Opcode::Context) }
    else if w == "pass2"@ { Some(Opcode::Pass2) }
    else if w == "pass3"@ { Some(Opcode::Pass3) }
    else if w == "pass4"@ { Some(Opcode::Pass4) }
    else if w == "correct"@ { Some(Opcode::Correct) }
    else if w == "match"@ { Some(Opcode::Match) }
    else { None }
}
#[verifier::spinoff_prover]
proof fn opcode_words(o: Opcode) ensures op_of(word_of(o)) == Some(o) {
        reveal_strlit("include"); assert("include"@.len() == 7 && "include"@[0] == 'i' && "include"@[1] == 'n' && "include"@[2] == 'c' && "include"@[3] == 'l' && "include"@[4] == 'u' && "include"@[5] == 'd' && "include"@[6] == 'e');
        reveal_strlit("undefined"); assert("undefined"@.len() == 9 && "undefined"@[0] == 'u' && "undefined"@[1] == 'n' && "undefined"@[2] == 'd' && "undefined"@[3] == 'e' && "undefined"@[4] == 'f' && "undefined"@[5] == 'i' && "undefined"@[6] == 'n' && "undefined"@[7] == 'e' && "undefined"@[8] == 'd');
        reveal_strlit("display"); assert("display"@.len() == 7 && "display"@[0] == 'd' && "display"@[1] == 'i' && "display"@[2] == 's' && "display"@[3] == 'p' && "display"@[4] == 'l' && "display"@[5] == 'a' && "display"@[6] == 'y');
        reveal_strlit("multind"); assert("multind"@.len() == 7 && "multind"@[0] == 'm' && "multind"@[1] == 'u' && "multind"@[2] == 'l' && "multind"@[3] == 't' && "multind"@[4] == 'i' && "multind"@[5] == 'n' && "multind"@[6] == 'd');
        reveal_strlit("space"); assert("space"@.len() == 5 && "space"@[0] == 's' && "space"@[1] == 'p' && "space"@[2] == 'a' && "space"@[3] == 'c' && "space"@[4] == 'e');
        reveal_strlit("punctuation"); assert("punctuation"@.len() == 11 && "punctuation"@[0] == 'p' && "punctuation"@[1] == 'u' && "punctuation"@[2] == 'n' && "punctuation"@[3] == 'c' && "punctuation"@[4] == 't' && "punctuation"@[5] == 'u' && "punctuation"@[6] == 'a' && "punctuation"@[7] == 't' && "punctuation"@[8] == 'i' && "punctuation"@[9] == 'o' && "punctuation"@[10] == 'n');
        reveal_strlit("digit"); assert("digit"@.len() == 5 && "digit"@[0] == 'd' && "digit"@[1] == 'i' && "digit"@[2] == 'g' && "digit"@[3] == 'i' && "digit"@[4] == 't');
        reveal_strlit("letter"); assert("letter"@.len() == 6 && "letter"@[0] == 'l' && "letter"@[1] == 'e' && "letter"@[2] == 't' && "letter"@[3] == 't' && "letter"@[4] == 'e' && "letter"@[5] == 'r');
        reveal_strlit("lowercase"); assert("lowercase"@.len() == 9 && "lowercase"@[0] == 'l' && "lowercase"@[1] == 'o' && "lowercase"@[2] == 'w' && "lowercase"@[3] == 'e' && "lowercase"@[4] == 'r' && "lowercase"@[5] == 'c' && "lowercase"@[6] == 'a' && "lowercase"@[7] == 's' && "lowercase"@[8] == 'e');
        reveal_strlit("uppercase"); assert("uppercase"@.len() == 9 && "uppercase"@[0] == 'u' && "uppercase"@[1] == 'p' && "uppercase"@[2] == 'p' && "uppercase"@[3] == 'e' && "uppercase"@[4] == 'r' && "uppercase"@[5] == 'c' && "uppercase"@[6] == 'a' && "uppercase"@[7] == 's' && "uppercase"@[8] == 'e');
        reveal_strlit("litdigit"); assert("litdigit"@.len() == 8 && "litdigit"@[0] == 'l' && "litdigit"@[1] == 'i' && "litdigit"@[2] == 't' && "litdigit"@[3] == 'd' && "litdigit"@[4] == 'i' && "litdigit"@[5] == 'g' && "litdigit"@[6] == 'i' && "litdigit"@[7] == 't');
        reveal_strlit("sign"); assert("sign"@.len() == 4 && "sign"@[0] == 's' && "sign"@[1] == 'i' && "sign"@[2] == 'g' && "sign"@[3] == 'n');
        reveal_strlit("math"); assert("math"@.len() == 4 && "math"@[0] == 'm' && "math"@[1] == 'a' && "math"@[2] == 't' && "math"@[3] == 'h');
        reveal_strlit("hyphen"); assert("hyphen"@.len() == 6 && "hyphen"@[0] == 'h' && "hyphen"@[1] == 'y' && "hyphen"@[2] == 'p' && "hyphen"@[3] == 'h' && "hyphen"@[4] == 'e' && "hyphen"@[5] == 'n');
        reveal_strlit("grouping"); assert("grouping"@.len() == 8 && "grouping"@[0] == 'g' && "grouping"@[1] == 'r' && "grouping"@[2] == 'o' && "grouping"@[3] == 'u' && "grouping"@[4] == 'p' && "grouping"@[5] == 'i' && "grouping"@[6] == 'n' && "grouping"@[7] == 'g');
        reveal_strlit("base"); assert("base"@.len() == 4 && "base"@[0] == 'b' && "base"@[1] == 'a' && "base"@[2] == 's' && "base"@[3] == 'e');
        reveal_strlit("modeletter"); assert("modeletter"@.len() == 10 && "modeletter"@[0] == 'm' && "modeletter"@[1] == 'o' && "modeletter"@[2] == 'd' && "modeletter"@[3] == 'e' && "modeletter"@[4] == 'l' && "modeletter"@[5] == 'e' && "modeletter"@[6] == 't' && "modeletter"@[7] == 't' && "modeletter"@[8] == 'e' && "modeletter"@[9] == 'r');
        reveal_strlit("begmodeword"); assert("begmodeword"@.len() == 11 && "begmodeword"@[0] == 'b' && "begmodeword"@[1] == 'e' && "begmodeword"@[2] == 'g' && "begmodeword"@[3] == 'm' && "begmodeword"@[4] == 'o' && "begmodeword"@[5] == 'd' && "begmodeword"@[6] == 'e' && "begmodeword"@[7] == 'w' && "begmodeword"@[8] == 'o' && "begmodeword"@[9] == 'r' && "begmodeword"@[10] == 'd');
        reveal_strlit("begemph"); assert("begemph"@.len() == 7 && "begemph"@[0] == 'b' && "begemph"@[1] == 'e' && "begemph"@[2] == 'g' && "begemph"@[3] == 'e' && "begemph"@[4] == 'm' && "begemph"@[5] == 'p' && "begemph"@[6] == 'h');
        reveal_strlit("endemph"); assert("endemph"@.len() == 7 && "endemph"@[0] == 'e' && "endemph"@[1] == 'n' && "endemph"@[2] == 'd' && "endemph"@[3] == 'e' && "endemph"@[4] == 'm' && "endemph"@[5] == 'p' && "endemph"@[6] == 'h');
        reveal_strlit("capsletter"); assert("capsletter"@.len() == 10 && "capsletter"@[0] == 'c' && "capsletter"@[1] == 'a' && "capsletter"@[2] == 'p' && "capsletter"@[3] == 's' && "capsletter"@[4] == 'l' && "capsletter"@[5] == 'e' && "capsletter"@[6] == 't' && "capsletter"@[7] == 't' && "capsletter"@[8] == 'e' && "capsletter"@[9] == 'r');
        reveal_strlit("begcapsword"); assert("begcapsword"@.len() == 11 && "begcapsword"@[0] == 'b' && "begcapsword"@[1] == 'e' && "begcapsword"@[2] == 'g' && "begcapsword"@[3] == 'c' && "begcapsword"@[4] == 'a' && "begcapsword"@[5] == 'p' && "begcapsword"@[6] == 's' && "begcapsword"@[7] == 'w' && "begcapsword"@[8] == 'o' && "begcapsword"@[9] == 'r' && "begcapsword"@[10] == 'd');
        reveal_strlit("endcapsword"); assert("endcapsword"@.len() == 11 && "endcapsword"@[0] == 'e' && "endcapsword"@[1] == 'n' && "endcapsword"@[2] == 'd' && "endcapsword"@[3] == 'c' && "endcapsword"@[4] == 'a' && "endcapsword"@[5] == 'p' && "endcapsword"@[6] == 's' && "endcapsword"@[7] == 'w' && "endcapsword"@[8] == 'o' && "endcapsword"@[9] == 'r' && "endcapsword"@[10] == 'd');
        reveal_strlit("nocontractsign"); assert("nocontractsign"@.len() == 14 && "nocontractsign"@[0] == 'n' && "nocontractsign"@[1] == 'o' && "nocontractsign"@[2] == 'c' && "nocontractsign"@[3] == 'o' && "nocontractsign"@[4] == 'n' && "nocontractsign"@[5] == 't' && "nocontractsign"@[6] == 'r' && "nocontractsign"@[7] == 'a' && "nocontractsign"@[8] == 'c' && "nocontractsign"@[9] == 't' && "nocontractsign"@[10] == 's' && "nocontractsign"@[11] == 'i' && "nocontractsign"@[12] == 'g' && "nocontractsign"@[13] == 'n');
        reveal_strlit("nonumsign"); assert("nonumsign"@.len() == 9 && "nonumsign"@[0] == 'n' && "nonumsign"@[1] == 'o' && "nonumsign"@[2] == 'n' && "nonumsign"@[3] == 'u' && "nonumsign"@[4] == 'm' && "nonumsign"@[5] == 's' && "nonumsign"@[6] == 'i' && "nonumsign"@[7] == 'g' && "nonumsign"@[8] == 'n');
        reveal_strlit("begcomp"); assert("begcomp"@.len() == 7 && "begcomp"@[0] == 'b' && "begcomp"@[1] == 'e' && "begcomp"@[2] == 'g' && "begcomp"@[3] == 'c' && "begcomp"@[4] == 'o' && "begcomp"@[5] == 'm' && "begcomp"@[6] == 'p');
        reveal_strlit("endcomp"); assert("endcomp"@.len() == 7 && "endcomp"@[0] == 'e' && "endcomp"@[1] == 'n' && "endcomp"@[2] == 'd' && "endcomp"@[3] == 'c' && "endcomp"@[4] == 'o' && "endcomp"@[5] == 'm' && "endcomp"@[6] == 'p');
        reveal_strlit("capsmodechars"); assert("capsmodechars"@.len() == 13 && "capsmodechars"@[0] == 'c' && "capsmodechars"@[1] == 'a' && "capsmodechars"@[2] == 'p' && "capsmodechars"@[3] == 's' && "capsmodechars"@[4] == 'm' && "capsmodechars"@[5] == 'o' && "capsmodechars"@[6] == 'd' && "capsmodechars"@[7] == 'e' && "capsmodechars"@[8] == 'c' && "capsmodechars"@[9] == 'h' && "capsmodechars"@[10] == 'a' && "capsmodechars"@[11] == 'r' && "capsmodechars"@[12] == 's');
        reveal_strlit("noletsign"); assert("noletsign"@.len() == 9 && "noletsign"@[0] == 'n' && "noletsign"@[1] == 'o' && "noletsign"@[2] == 'l' && "noletsign"@[3] == 'e' && "noletsign"@[4] == 't' && "noletsign"@[5] == 's' && "noletsign"@[6] == 'i' && "noletsign"@[7] == 'g' && "noletsign"@[8] == 'n');
        reveal_strlit("noletsignbefore"); assert("noletsignbefore"@.len() == 15 && "noletsignbefore"@[0] == 'n' && "noletsignbefore"@[1] == 'o' && "noletsignbefore"@[2] == 'l' && "noletsignbefore"@[3] == 'e' && "noletsignbefore"@[4] == 't' && "noletsignbefore"@[5] == 's' && "noletsignbefore"@[6] == 'i' && "noletsignbefore"@[7] == 'g' && "noletsignbefore"@[8] == 'n' && "noletsignbefore"@[9] == 'b' && "noletsignbefore"@[10] == 'e' && "noletsignbefore"@[11] == 'f' && "noletsignbefore"@[12] == 'o' && "noletsignbefore"@[13] == 'r' && "noletsignbefore"@[14] == 'e');
        reveal_strlit("noletsignafter"); assert("noletsignafter"@.len() == 14 && "noletsignafter"@[0] == 'n' && "noletsignafter"@[1] == 'o' && "noletsignafter"@[2] == 'l' && "noletsignafter"@[3] == 'e' && "noletsignafter"@[4] == 't' && "noletsignafter"@[5] == 's' && "noletsignafter"@[6] == 'i' && "noletsignafter"@[7] == 'g' && "noletsignafter"@[8] == 'n' && "noletsignafter"@[9] == 'a' && "noletsignafter"@[10] == 'f' && "noletsignafter"@[11] == 't' && "noletsignafter"@[12] == 'e' && "noletsignafter"@[13] == 'r');
        reveal_strlit("numericnocontchars"); assert("numericnocontchars"@.len() == 18 && "numericnocontchars"@[0] == 'n' && "numericnocontchars"@[1] == 'u' && "numericnocontchars"@[2] == 'm' && "numericnocontchars"@[3] == 'e' && "numericnocontchars"@[4] == 'r' && "numericnocontchars"@[5] == 'i' && "numericnocontchars"@[6] == 'c' && "numericnocontchars"@[7] == 'n' && "numericnocontchars"@[8] == 'o' && "numericnocontchars"@[9] == 'c' && "numericnocontchars"@[10] == 'o' && "numericnocontchars"@[11] == 'n' && "numericnocontchars"@[12] == 't' && "numericnocontchars"@[13] == 'c' && "numericnocontchars"@[14] == 'h' && "numericnocontchars"@[15] == 'a' && "numericnocontchars"@[16] == 'r' && "numericnocontchars"@[17] == 's');
        reveal_strlit("numericmodechars"); assert("numericmodechars"@.len() == 16 && "numericmodechars"@[0] == 'n' && "numericmodechars"@[1] == 'u' && "numericmodechars"@[2] == 'm' && "numericmodechars"@[3] == 'e' && "numericmodechars"@[4] == 'r' && "numericmodechars"@[5] == 'i' && "numericmodechars"@[6] == 'c' && "numericmodechars"@[7] == 'm' && "numericmodechars"@[8] == 'o' && "numericmodechars"@[9] == 'd' && "numericmodechars"@[10] == 'e' && "numericmodechars"@[11] == 'c' && "numericmodechars"@[12] == 'h' && "numericmodechars"@[13] == 'a' && "numericmodechars"@[14] == 'r' && "numericmodechars"@[15] == 's');
        reveal_strlit("midendnumericmodechars"); assert("midendnumericmodechars"@.len() == 22 && "midendnumericmodechars"@[0] == 'm' && "midendnumericmodechars"@[1] == 'i' && "midendnumericmodechars"@[2] == 'd' && "midendnumericmodechars"@[3] == 'e' && "midendnumericmodechars"@[4] == 'n' && "midendnumericmodechars"@[5] == 'd' && "midendnumericmodechars"@[6] == 'n' && "midendnumericmodechars"@[7] == 'u' && "midendnumericmodechars"@[8] == 'm' && "midendnumericmodechars"@[9] == 'e' && "midendnumericmodechars"@[10] == 'r' && "midendnumericmodechars"@[11] == 'i' && "midendnumericmodechars"@[12] == 'c' && "midendnumericmodechars"@[13] == 'm' && "midendnumericmodechars"@[14] == 'o' && "midendnumericmodechars"@[15] == 'd' && "midendnumericmodechars"@[16] == 'e' && "midendnumericmodechars"@[17] == 'c' && "midendnumericmodechars"@[18] == 'h' && "midendnumericmodechars"@[19] == 'a' && "midendnumericmodechars"@[20] == 'r' && "midendnumericmodechars"@[21] == 's');
        reveal_strlit("seqdelimiter"); assert("seqdelimiter"@.len() == 12 && "seqdelimiter"@[0] == 's' && "seqdelimiter"@[1] == 'e' && "seqdelimiter"@[2] == 'q' && "seqdelimiter"@[3] == 'd' && "seqdelimiter"@[4] == 'e' && "seqdelimiter"@[5] == 'l' && "seqdelimiter"@[6] == 'i' && "seqdelimiter"@[7] == 'm' && "seqdelimiter"@[8] == 'i' && "seqdelimiter"@[9] == 't' && "seqdelimiter"@[10] == 'e' && "seqdelimiter"@[11] == 'r');
        reveal_strlit("seqbeforechars"); assert("seqbeforechars"@.len() == 14 && "seqbeforechars"@[0] == 's' && "seqbeforechars"@[1] == 'e' && "seqbeforechars"@[2] == 'q' && "seqbeforechars"@[3] == 'b' && "seqbeforechars"@[4] == 'e' && "seqbeforechars"@[5] == 'f' && "seqbeforechars"@[6] == 'o' && "seqbeforechars"@[7] == 'r' && "seqbeforechars"@[8] == 'e' && "seqbeforechars"@[9] == 'c' && "seqbeforechars"@[10] == 'h' && "seqbeforechars"@[11] == 'a' && "seqbeforechars"@[12] == 'r' && "seqbeforechars"@[13] == 's');
        reveal_strlit("seqafterchars"); assert("seqafterchars"@.len() == 13 && "seqafterchars"@[0] == 's' && "seqafterchars"@[1] == 'e' && "seqafterchars"@[2] == 'q' && "seqafterchars"@[3] == 'a' && "seqafterchars"@[4] == 'f' && "seqafterchars"@[5] == 't' && "seqafterchars"@[6] == 'e' && "seqafterchars"@[7] == 'r' && "seqafterchars"@[8] == 'c' && "seqafterchars"@[9] == 'h' && "seqafterchars"@[10] == 'a' && "seqafterchars"@[11] == 'r' && "seqafterchars"@[12] == 's');
        reveal_strlit("seqafterpattern"); assert("seqafterpattern"@.len() == 15 && "seqafterpattern"@[0] == 's' && "seqafterpattern"@[1] == 'e' && "seqafterpattern"@[2] == 'q' && "seqafterpattern"@[3] == 'a' && "seqafterpattern"@[4] == 'f' && "seqafterpattern"@[5] == 't' && "seqafterpattern"@[6] == 'e' && "seqafterpattern"@[7] == 'r' && "seqafterpattern"@[8] == 'p' && "seqafterpattern"@[9] == 'a' && "seqafterpattern"@[10] == 't' && "seqafterpattern"@[11] == 't' && "seqafterpattern"@[12] == 'e' && "seqafterpattern"@[13] == 'r' && "seqafterpattern"@[14] == 'n');
        reveal_strlit("seqafterexpression"); assert("seqafterexpression"@.len() == 18 && "seqafterexpression"@[0] == 's' && "seqafterexpression"@[1] == 'e' && "seqafterexpression"@[2] == 'q' && "seqafterexpression"@[3] == 'a' && "seqafterexpression"@[4] == 'f' && "seqafterexpression"@[5] == 't' && "seqafterexpression"@[6] == 'e' && "seqafterexpression"@[7] == 'r' && "seqafterexpression"@[8] == 'e' && "seqafterexpression"@[9] == 'x' && "seqafterexpression"@[10] == 'p' && "seqafterexpression"@[11] == 'r' && "seqafterexpression"@[12] == 'e' && "seqafterexpression"@[13] == 's' && "seqafterexpression"@[14] == 's' && "seqafterexpression"@[15] == 'i' && "seqafterexpression"@[16] == 'o' && "seqafterexpression"@[17] == 'n');
        reveal_strlit("nocont"); assert("nocont"@.len() == 6 && "nocont"@[0] == 'n' && "nocont"@[1] == 'o' && "nocont"@[2] == 'c' && "nocont"@[3] == 'o' && "nocont"@[4] == 'n' && "nocont"@[5] == 't');
        reveal_strlit("contraction"); assert("contraction"@.len() == 11 && "contraction"@[0] == 'c' && "contraction"@[1] == 'o' && "contraction"@[2] == 'n' && "contraction"@[3] == 't' && "contraction"@[4] == 'r' && "contraction"@[5] == 'a' && "contraction"@[6] == 'c' && "contraction"@[7] == 't' && "contraction"@[8] == 'i' && "contraction"@[9] == 'o' && "contraction"@[10] == 'n');
        reveal_strlit("exactdots"); assert("exactdots"@.len() == 9 && "exactdots"@[0] == 'e' && "exactdots"@[1] == 'x' && "exactdots"@[2] == 'a' && "exactdots"@[3] == 'c' && "exactdots"@[4] == 't' && "exactdots"@[5] == 'd' && "exactdots"@[6] == 'o' && "exactdots"@[7] == 't' && "exactdots"@[8] == 's');
        reveal_strlit("literal"); assert("literal"@.len() == 7 && "literal"@[0] == 'l' && "literal"@[1] == 'i' && "literal"@[2] == 't' && "literal"@[3] == 'e' && "literal"@[4] == 'r' && "literal"@[5] == 'a' && "literal"@[6] == 'l');
        reveal_strlit("begcaps"); assert("begcaps"@.len() == 7 && "begcaps"@[0] == 'b' && "begcaps"@[1] == 'e' && "begcaps"@[2] == 'g' && "begcaps"@[3] == 'c' && "begcaps"@[4] == 'a' && "begcaps"@[5] == 'p' && "begcaps"@[6] == 's');
        reveal_strlit("endcaps"); assert("endcaps"@.len() == 7 && "endcaps"@[0] == 'e' && "endcaps"@[1] == 'n' && "endcaps"@[2] == 'd' && "endcaps"@[3] == 'c' && "endcaps"@[4] == 'a' && "endcaps"@[5] == 'p' && "endcaps"@[6] == 's');
        reveal_strlit("begcapsphrase"); assert("begcapsphrase"@.len() == 13 && "begcapsphrase"@[0] == 'b' && "begcapsphrase"@[1] == 'e' && "begcapsphrase"@[2] == 'g' && "begcapsphrase"@[3] == 'c' && "begcapsphrase"@[4] == 'a' && "begcapsphrase"@[5] == 'p' && "begcapsphrase"@[6] == 's' && "begcapsphrase"@[7] == 'p' && "begcapsphrase"@[8] == 'h' && "begcapsphrase"@[9] == 'r' && "begcapsphrase"@[10] == 'a' && "begcapsphrase"@[11] == 's' && "begcapsphrase"@[12] == 'e');
        reveal_strlit("letsign"); assert("letsign"@.len() == 7 && "letsign"@[0] == 'l' && "letsign"@[1] == 'e' && "letsign"@[2] == 't' && "letsign"@[3] == 's' && "letsign"@[4] == 'i' && "letsign"@[5] == 'g' && "letsign"@[6] == 'n');
        reveal_strlit("numsign"); assert("numsign"@.len() == 7 && "numsign"@[0] == 'n' && "numsign"@[1] == 'u' && "numsign"@[2] == 'm' && "numsign"@[3] == 's' && "numsign"@[4] == 'i' && "numsign"@[5] == 'g' && "numsign"@[6] == 'n');
        reveal_strlit("endcapsphrase"); assert("endcapsphrase"@.len() == 13 && "endcapsphrase"@[0] == 'e' && "endcapsphrase"@[1] == 'n' && "endcapsphrase"@[2] == 'd' && "endcapsphrase"@[3] == 'c' && "endcapsphrase"@[4] == 'a' && "endcapsphrase"@[5] == 'p' && "endcapsphrase"@[6] == 's' && "endcapsphrase"@[7] == 'p' && "endcapsphrase"@[8] == 'h' && "endcapsphrase"@[9] == 'r' && "endcapsphrase"@[10] == 'a' && "endcapsphrase"@[11] == 's' && "endcapsphrase"@[12] == 'e');
        reveal_strlit("lencapsphrase"); assert("lencapsphrase"@.len() == 13 && "lencapsphrase"@[0] == 'l' && "lencapsphrase"@[1] == 'e' && "lencapsphrase"@[2] == 'n' && "lencapsphrase"@[3] == 'c' && "lencapsphrase"@[4] == 'a' && "lencapsphrase"@[5] == 'p' && "lencapsphrase"@[6] == 's' && "lencapsphrase"@[7] == 'p' && "lencapsphrase"@[8] == 'h' && "lencapsphrase"@[9] == 'r' && "lencapsphrase"@[10] == 'a' && "lencapsphrase"@[11] == 's' && "lencapsphrase"@[12] == 'e');
        reveal_strlit("begmodephrase"); assert("begmodephrase"@.len() == 13 && "begmodephrase"@[0] == 'b' && "begmodephrase"@[1] == 'e' && "begmodephrase"@[2] == 'g' && "begmodephrase"@[3] == 'm' && "begmodephrase"@[4] == 'o' && "begmodephrase"@[5] == 'd' && "begmodephrase"@[6] == 'e' && "begmodephrase"@[7] == 'p' && "begmodephrase"@[8] == 'h' && "begmodephrase"@[9] == 'r' && "begmodephrase"@[10] == 'a' && "begmodephrase"@[11] == 's' && "begmodephrase"@[12] == 'e');
        reveal_strlit("emphletter"); assert("emphletter"@.len() == 10 && "emphletter"@[0] == 'e' && "emphletter"@[1] == 'm' && "emphletter"@[2] == 'p' && "emphletter"@[3] == 'h' && "emphletter"@[4] == 'l' && "emphletter"@[5] == 'e' && "emphletter"@[6] == 't' && "emphletter"@[7] == 't' && "emphletter"@[8] == 'e' && "emphletter"@[9] == 'r');
        reveal_strlit("begemphword"); assert("begemphword"@.len() == 11 && "begemphword"@[0] == 'b' && "begemphword"@[1] == 'e' && "begemphword"@[2] == 'g' && "begemphword"@[3] == 'e' && "begemphword"@[4] == 'm' && "begemphword"@[5] == 'p' && "begemphword"@[6] == 'h' && "begemphword"@[7] == 'w' && "begemphword"@[8] == 'o' && "begemphword"@[9] == 'r' && "begemphword"@[10] == 'd');
        reveal_strlit("endemphword"); assert("endemphword"@.len() == 11 && "endemphword"@[0] == 'e' && "endemphword"@[1] == 'n' && "endemphword"@[2] == 'd' && "endemphword"@[3] == 'e' && "endemphword"@[4] == 'm' && "endemphword"@[5] == 'p' && "endemphword"@[6] == 'h' && "endemphword"@[7] == 'w' && "endemphword"@[8] == 'o' && "endemphword"@[9] == 'r' && "endemphword"@[10] == 'd');
        reveal_strlit("begemphphrase"); assert("begemphphrase"@.len() == 13 && "begemphphrase"@[0] == 'b' && "begemphphrase"@[1] == 'e' && "begemphphrase"@[2] == 'g' && "begemphphrase"@[3] == 'e' && "begemphphrase"@[4] == 'm' && "begemphphrase"@[5] == 'p' && "begemphphrase"@[6] == 'h' && "begemphphrase"@[7] == 'p' && "begemphphrase"@[8] == 'h' && "begemphphrase"@[9] == 'r' && "begemphphrase"@[10] == 'a' && "begemphphrase"@[11] == 's' && "begemphphrase"@[12] == 'e');
        reveal_strlit("endmodephrase"); assert("endmodephrase"@.len() == 13 && "endmodephrase"@[0] == 'e' && "endmodephrase"@[1] == 'n' && "endmodephrase"@[2] == 'd' && "endmodephrase"@[3] == 'm' && "endmodephrase"@[4] == 'o' && "endmodephrase"@[5] == 'd' && "endmodephrase"@[6] == 'e' && "endmodephrase"@[7] == 'p' && "endmodephrase"@[8] == 'h' && "endmodephrase"@[9] == 'r' && "endmodephrase"@[10] == 'a' && "endmodephrase"@[11] == 's' && "endmodephrase"@[12] == 'e');
        reveal_strlit("endemphphrase"); assert("endemphphrase"@.len() == 13 && "endemphphrase"@[0] == 'e' && "endemphphrase"@[1] == 'n' && "endemphphrase"@[2] == 'd' && "endemphphrase"@[3] == 'e' && "endemphphrase"@[4] == 'm' && "endemphphrase"@[5] == 'p' && "endemphphrase"@[6] == 'h' && "endemphphrase"@[7] == 'p' && "endemphphrase"@[8] == 'h' && "endemphphrase"@[9] == 'r' && "endemphphrase"@[10] == 'a' && "endemphphrase"@[11] == 's' && "endemphphrase"@[12] == 'e');
        reveal_strlit("lenmodephrase"); assert("lenmodephrase"@.len() == 13 && "lenmodephrase"@[0] == 'l' && "lenmodephrase"@[1] == 'e' && "lenmodephrase"@[2] == 'n' && "lenmodephrase"@[3] == 'm' && "lenmodephrase"@[4] == 'o' && "lenmodephrase"@[5] == 'd' && "lenmodephrase"@[6] == 'e' && "lenmodephrase"@[7] == 'p' && "lenmodephrase"@[8] == 'h' && "lenmodephrase"@[9] == 'r' && "lenmodephrase"@[10] == 'a' && "lenmodephrase"@[11] == 's' && "lenmodephrase"@[12] == 'e');
        reveal_strlit("lenemphphrase"); assert("lenemphphrase"@.len() == 13 && "lenemphphrase"@[0] == 'l' && "lenemphphrase"@[1] == 'e' && "lenemphphrase"@[2] == 'n' && "lenemphphrase"@[3] == 'e' && "lenemphphrase"@[4] == 'm' && "lenemphphrase"@[5] == 'p' && "lenemphphrase"@[6] == 'h' && "lenemphphrase"@[7] == 'p' && "lenemphphrase"@[8] == 'h' && "lenemphphrase"@[9] == 'r' && "lenemphphrase"@[10] == 'a' && "lenemphphrase"@[11] == 's' && "lenemphphrase"@[12] == 'e');
        reveal_strlit("class"); assert("class"@.len() == 5 && "class"@[0] == 'c' && "class"@[1] == 'l' && "class"@[2] == 'a' && "class"@[3] == 's' && "class"@[4] == 's');
        reveal_strlit("noemphchars"); assert("noemphchars"@.len() == 11 && "noemphchars"@[0] == 'n' && "noemphchars"@[1] == 'o' && "noemphchars"@[2] == 'e' && "noemphchars"@[3] == 'm' && "noemphchars"@[4] == 'p' && "noemphchars"@[5] == 'h' && "noemphchars"@[6] == 'c' && "noemphchars"@[7] == 'h' && "noemphchars"@[8] == 'a' && "noemphchars"@[9] == 'r' && "noemphchars"@[10] == 's');
        reveal_strlit("emphmodechars"); assert("emphmodechars"@.len() == 13 && "emphmodechars"@[0] == 'e' && "emphmodechars"@[1] == 'm' && "emphmodechars"@[2] == 'p' && "emphmodechars"@[3] == 'h' && "emphmodechars"@[4] == 'm' && "emphmodechars"@[5] == 'o' && "emphmodechars"@[6] == 'd' && "emphmodechars"@[7] == 'e' && "emphmodechars"@[8] == 'c' && "emphmodechars"@[9] == 'h' && "emphmodechars"@[10] == 'a' && "emphmodechars"@[11] == 'r' && "emphmodechars"@[12] == 's');
        reveal_strlit("attribute"); assert("attribute"@.len() == 9 && "attribute"@[0] == 'a' && "attribute"@[1] == 't' && "attribute"@[2] == 't' && "attribute"@[3] == 'r' && "attribute"@[4] == 'i' && "attribute"@[5] == 'b' && "attribute"@[6] == 'u' && "attribute"@[7] == 't' && "attribute"@[8] == 'e');
        reveal_strlit("emphclass"); assert("emphclass"@.len() == 9 && "emphclass"@[0] == 'e' && "emphclass"@[1] == 'm' && "emphclass"@[2] == 'p' && "emphclass"@[3] == 'h' && "emphclass"@[4] == 'c' && "emphclass"@[5] == 'l' && "emphclass"@[6] == 'a' && "emphclass"@[7] == 's' && "emphclass"@[8] == 's');
        reveal_strlit("decpoint"); assert("decpoint"@.len() == 8 && "decpoint"@[0] == 'd' && "decpoint"@[1] == 'e' && "decpoint"@[2] == 'c' && "decpoint"@[3] == 'p' && "decpoint"@[4] == 'o' && "decpoint"@[5] == 'i' && "decpoint"@[6] == 'n' && "decpoint"@[7] == 't');
        reveal_strlit("capsnocont"); assert("capsnocont"@.len() == 10 && "capsnocont"@[0] == 'c' && "capsnocont"@[1] == 'a' && "capsnocont"@[2] == 'p' && "capsnocont"@[3] == 's' && "capsnocont"@[4] == 'n' && "capsnocont"@[5] == 'o' && "capsnocont"@[6] == 'c' && "capsnocont"@[7] == 'o' && "capsnocont"@[8] == 'n' && "capsnocont"@[9] == 't');
        reveal_strlit("compbrl"); assert("compbrl"@.len() == 7 && "compbrl"@[0] == 'c' && "compbrl"@[1] == 'o' && "compbrl"@[2] == 'm' && "compbrl"@[3] == 'p' && "compbrl"@[4] == 'b' && "compbrl"@[5] == 'r' && "compbrl"@[6] == 'l');
        reveal_strlit("comp6"); assert("comp6"@.len() == 5 && "comp6"@[0] == 'c' && "comp6"@[1] == 'o' && "comp6"@[2] == 'm' && "comp6"@[3] == 'p' && "comp6"@[4] == '6');
        reveal_strlit("syllable"); assert("syllable"@.len() == 8 && "syllable"@[0] == 's' && "syllable"@[1] == 'y' && "syllable"@[2] == 'l' && "syllable"@[3] == 'l' && "syllable"@[4] == 'a' && "syllable"@[5] == 'b' && "syllable"@[6] == 'l' && "syllable"@[7] == 'e');
        reveal_strlit("replace"); assert("replace"@.len() == 7 && "replace"@[0] == 'r' && "replace"@[1] == 'e' && "replace"@[2] == 'p' && "replace"@[3] == 'l' && "replace"@[4] == 'a' && "replace"@[5] == 'c' && "replace"@[6] == 'e');
        reveal_strlit("repeated"); assert("repeated"@.len() == 8 && "repeated"@[0] == 'r' && "repeated"@[1] == 'e' && "repeated"@[2] == 'p' && "repeated"@[3] == 'e' && "repeated"@[4] == 'a' && "repeated"@[5] == 't' && "repeated"@[6] == 'e' && "repeated"@[7] == 'd');
        reveal_strlit("lowword"); assert("lowword"@.len() == 7 && "lowword"@[0] == 'l' && "lowword"@[1] == 'o' && "lowword"@[2] == 'w' && "lowword"@[3] == 'w' && "lowword"@[4] == 'o' && "lowword"@[5] == 'r' && "lowword"@[6] == 'd');
        reveal_strlit("repword"); assert("repword"@.len() == 7 && "repword"@[0] == 'r' && "repword"@[1] == 'e' && "repword"@[2] == 'p' && "repword"@[3] == 'w' && "repword"@[4] == 'o' && "repword"@[5] == 'r' && "repword"@[6] == 'd');
        reveal_strlit("largesign"); assert("largesign"@.len() == 9 && "largesign"@[0] == 'l' && "largesign"@[1] == 'a' && "largesign"@[2] == 'r' && "largesign"@[3] == 'g' && "largesign"@[4] == 'e' && "largesign"@[5] == 's' && "largesign"@[6] == 'i' && "largesign"@[7] == 'g' && "largesign"@[8] == 'n');
        reveal_strlit("joinword"); assert("joinword"@.len() == 8 && "joinword"@[0] == 'j' && "joinword"@[1] == 'o' && "joinword"@[2] == 'i' && "joinword"@[3] == 'n' && "joinword"@[4] == 'w' && "joinword"@[5] == 'o' && "joinword"@[6] == 'r' && "joinword"@[7] == 'd');
        reveal_strlit("rependword"); assert("rependword"@.len() == 10 && "rependword"@[0] == 'r' && "rependword"@[1] == 'e' && "rependword"@[2] == 'p' && "rependword"@[3] == 'e' && "rependword"@[4] == 'n' && "rependword"@[5] == 'd' && "rependword"@[6] == 'w' && "rependword"@[7] == 'o' && "rependword"@[8] == 'r' && "rependword"@[9] == 'd');
        reveal_strlit("word"); assert("word"@.len() == 4 && "word"@[0] == 'w' && "word"@[1] == 'o' && "word"@[2] == 'r' && "word"@[3] == 'd');
        reveal_strlit("always"); assert("always"@.len() == 6 && "always"@[0] == 'a' && "always"@[1] == 'l' && "always"@[2] == 'w' && "always"@[3] == 'a' && "always"@[4] == 'y' && "always"@[5] == 's');
        reveal_strlit("sufword"); assert("sufword"@.len() == 7 && "sufword"@[0] == 's' && "sufword"@[1] == 'u' && "sufword"@[2] == 'f' && "sufword"@[3] == 'w' && "sufword"@[4] == 'o' && "sufword"@[5] == 'r' && "sufword"@[6] == 'd');
        reveal_strlit("prfword"); assert("prfword"@.len() == 7 && "prfword"@[0] == 'p' && "prfword"@[1] == 'r' && "prfword"@[2] == 'f' && "prfword"@[3] == 'w' && "prfword"@[4] == 'o' && "prfword"@[5] == 'r' && "prfword"@[6] == 'd');
        reveal_strlit("begword"); assert("begword"@.len() == 7 && "begword"@[0] == 'b' && "begword"@[1] == 'e' && "begword"@[2] == 'g' && "begword"@[3] == 'w' && "begword"@[4] == 'o' && "begword"@[5] == 'r' && "begword"@[6] == 'd');
        reveal_strlit("begmidword"); assert("begmidword"@.len() == 10 && "begmidword"@[0] == 'b' && "begmidword"@[1] == 'e' && "begmidword"@[2] == 'g' && "begmidword"@[3] == 'm' && "begmidword"@[4] == 'i' && "begmidword"@[5] == 'd' && "begmidword"@[6] == 'w' && "begmidword"@[7] == 'o' && "begmidword"@[8] == 'r' && "begmidword"@[9] == 'd');
        reveal_strlit("midword"); assert("midword"@.len() == 7 && "midword"@[0] == 'm' && "midword"@[1] == 'i' && "midword"@[2] == 'd' && "midword"@[3] == 'w' && "midword"@[4] == 'o' && "midword"@[5] == 'r' && "midword"@[6] == 'd');
        reveal_strlit("midendword"); assert("midendword"@.len() == 10 && "midendword"@[0] == 'm' && "midendword"@[1] == 'i' && "midendword"@[2] == 'd' && "midendword"@[3] == 'e' && "midendword"@[4] == 'n' && "midendword"@[5] == 'd' && "midendword"@[6] == 'w' && "midendword"@[7] == 'o' && "midendword"@[8] == 'r' && "midendword"@[9] == 'd');
        reveal_strlit("endword"); assert("endword"@.len() == 7 && "endword"@[0] == 'e' && "endword"@[1] == 'n' && "endword"@[2] == 'd' && "endword"@[3] == 'w' && "endword"@[4] == 'o' && "endword"@[5] == 'r' && "endword"@[6] == 'd');
        reveal_strlit("partword"); assert("partword"@.len() == 8 && "partword"@[0] == 'p' && "partword"@[1] == 'a' && "partword"@[2] == 'r' && "partword"@[3] == 't' && "partword"@[4] == 'w' && "partword"@[5] == 'o' && "partword"@[6] == 'r' && "partword"@[7] == 'd');
        reveal_strlit("prepunc"); assert("prepunc"@.len() == 7 && "prepunc"@[0] == 'p' && "prepunc"@[1] == 'r' && "prepunc"@[2] == 'e' && "prepunc"@[3] == 'p' && "prepunc"@[4] == 'u' && "prepunc"@[5] == 'n' && "prepunc"@[6] == 'c');
        reveal_strlit("postpunc"); assert("postpunc"@.len() == 8 && "postpunc"@[0] == 'p' && "postpunc"@[1] == 'o' && "postpunc"@[2] == 's' && "postpunc"@[3] == 't' && "postpunc"@[4] == 'p' && "postpunc"@[5] == 'u' && "postpunc"@[6] == 'n' && "postpunc"@[7] == 'c');
        reveal_strlit("begnum"); assert("begnum"@.len() == 6 && "begnum"@[0] == 'b' && "begnum"@[1] == 'e' && "begnum"@[2] == 'g' && "begnum"@[3] == 'n' && "begnum"@[4] == 'u' && "begnum"@[5] == 'm');
        reveal_strlit("midnum"); assert("midnum"@.len() == 6 && "midnum"@[0] == 'm' && "midnum"@[1] == 'i' && "midnum"@[2] == 'd' && "midnum"@[3] == 'n' && "midnum"@[4] == 'u' && "midnum"@[5] == 'm');
        reveal_strlit("joinnum"); assert("joinnum"@.len() == 7 && "joinnum"@[0] == 'j' && "joinnum"@[1] == 'o' && "joinnum"@[2] == 'i' && "joinnum"@[3] == 'n' && "joinnum"@[4] == 'n' && "joinnum"@[5] == 'u' && "joinnum"@[6] == 'm');
        reveal_strlit("endnum"); assert("endnum"@.len() == 6 && "endnum"@[0] == 'e' && "endnum"@[1] == 'n' && "endnum"@[2] == 'd' && "endnum"@[3] == 'n' && "endnum"@[4] == 'u' && "endnum"@[5] == 'm');
        reveal_strlit("swapcd"); assert("swapcd"@.len() == 6 && "swapcd"@[0] == 's' && "swapcd"@[1] == 'w' && "swapcd"@[2] == 'a' && "swapcd"@[3] == 'p' && "swapcd"@[4] == 'c' && "swapcd"@[5] == 'd');
        reveal_strlit("swapdd"); assert("swapdd"@.len() == 6 && "swapdd"@[0] == 's' && "swapdd"@[1] == 'w' && "swapdd"@[2] == 'a' && "swapdd"@[3] == 'p' && "swapdd"@[4] == 'd' && "swapdd"@[5] == 'd');
        reveal_strlit("swapcc"); assert("swapcc"@.len() == 6 && "swapcc"@[0] == 's' && "swapcc"@[1] == 'w' && "swapcc"@[2] == 'a' && "swapcc"@[3] == 'p' && "swapcc"@[4] == 'c' && "swapcc"@[5] == 'c');
        reveal_strlit("context"); assert("context"@.len() == 7 && "context"@[0] == 'c' && "context"@[1] == 'o' && "context"@[2] == 'n' && "context"@[3] == 't' && "context"@[4] == 'e' && "context"@[5] == 'x' && "context"@[6] == 't');
        reveal_strlit("pass2"); assert("pass2"@.len() == 5 && "pass2"@[0] == 'p' && "pass2"@[1] == 'a' && "pass2"@[2] == 's' && "pass2"@[3] == 's' && "pass2"@[4] == '2');
        reveal_strlit("pass3"); assert("pass3"@.len() == 5 && "pass3"@[0] == 'p' && "pass3"@[1] == 'a' && "pass3"@[2] == 's' && "pass3"@[3] == 's' && "pass3"@[4] == '3');
        reveal_strlit("pass4"); assert("pass4"@.len() == 5 && "pass4"@[0] == 'p' && "pass4"@[1] == 'a' && "pass4"@[2] == 's' && "pass4"@[3] == 's' && "pass4"@[4] == '4');
        reveal_strlit("correct"); assert("correct"@.len() == 7 && "correct"@[0] == 'c' && "correct"@[1] == 'o' && "correct"@[2] == 'r' && "correct"@[3] == 'r' && "correct"@[4] == 'e' && "correct"@[5] == 'c' && "correct"@[6] == 't');
        reveal_strlit("match"); assert("match"@.len() == 5 && "match"@[0] == 'm' && "match"@[1] == 'a' && "match"@[2] == 't' && "match"@[3] == 'c' && "match"@[4] == 'h');
}
proof fn opcode_word(w: Seq<char>) ensures op_of(w) is Some ==> word_of(op_of(w)->0) == w { }
/// whether the operands are there and each is one of its kind, and the restrictions are ones the opcode takes
spec fn readable(o: Opcode, a: Seq<Seq<char>>, c: Set<Constraint>) -> bool {
    match o {
        Opcode::Include => c =~= Set::<Constraint>::empty() && a.len() > 0,
        Opcode::Undefined => c =~= Set::<Constraint>::empty() && a.len() > 0 && cells_of(a[0]) is Some,
        Opcode::Display => !c.contains(Constraint::Nocross) && a.len() > 0 && char_of(a[0]) is Some && a.len() > 1 && cell_of(a[1]) is Some,
        Opcode::Multind => !c.contains(Constraint::Nocross) && a.len() > 0 && cells_of(a[0]) is Some && a.len() - 1 > 1,
        Opcode::Space => !c.contains(Constraint::Nocross) && a.len() > 0 && char_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Punctuation => !c.contains(Constraint::Nocross) && a.len() > 0 && char_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Digit => !c.contains(Constraint::Nocross) && a.len() > 0 && char_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Letter => !c.contains(Constraint::Nocross) && a.len() > 0 && char_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Lowercase => !c.contains(Constraint::Nocross) && a.len() > 0 && char_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Uppercase => !c.contains(Constraint::Nocross) && a.len() > 0 && char_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Litdigit => !c.contains(Constraint::Nocross) && a.len() > 0 && char_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Sign => !c.contains(Constraint::Nocross) && a.len() > 0 && char_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Math => !c.contains(Constraint::Nocross) && a.len() > 0 && char_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Hyphen => !c.contains(Constraint::Nocross) && a.len() > 0 && char_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Grouping => !c.contains(Constraint::Nocross) && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && text_of(a[1]) is Some && a.len() > 2 && singles_of(a[2]) is Some && singles_of(a[2])->0.len() == 2,
        Opcode::Base => c =~= Set::<Constraint>::empty() && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && char_of(a[1]) is Some && a.len() > 2 && char_of(a[2]) is Some,
        Opcode::Modeletter => !c.contains(Constraint::Nocross) && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Begmodeword => !c.contains(Constraint::Nocross) && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Begemph => !c.contains(Constraint::Nocross) && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Endemph => !c.contains(Constraint::Nocross) && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Capsletter => !c.contains(Constraint::Nocross) && a.len() > 0 && cells_of(a[0]) is Some,
        Opcode::Begcapsword => !c.contains(Constraint::Nocross) && a.len() > 0 && cells_of(a[0]) is Some,
        Opcode::Endcapsword => !c.contains(Constraint::Nocross) && a.len() > 0 && cells_of(a[0]) is Some,
        Opcode::Nocontractsign => !c.contains(Constraint::Nocross) && a.len() > 0 && cells_of(a[0]) is Some,
        Opcode::Nonumsign => !c.contains(Constraint::Nocross) && a.len() > 0 && cells_of(a[0]) is Some,
        Opcode::Begcomp => !c.contains(Constraint::Nocross) && a.len() > 0 && cells_of(a[0]) is Some,
        Opcode::Endcomp => !c.contains(Constraint::Nocross) && a.len() > 0 && cells_of(a[0]) is Some,
        Opcode::Capsmodechars => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some,
        Opcode::Noletsign => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some,
        Opcode::Noletsignbefore => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some,
        Opcode::Noletsignafter => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some,
        Opcode::Numericnocontchars => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some,
        Opcode::Numericmodechars => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some,
        Opcode::Midendnumericmodechars => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some,
        Opcode::Seqdelimiter => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some,
        Opcode::Seqbeforechars => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some,
        Opcode::Seqafterchars => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some,
        Opcode::Seqafterpattern => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some,
        Opcode::Seqafterexpression => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some,
        Opcode::Nocont => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some,
        Opcode::Contraction => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some,
        Opcode::Exactdots => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some,
        Opcode::Literal => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some,
        Opcode::Begcaps => c =~= Set::<Constraint>::empty() && a.len() > 0 && cells_of(a[0]) is Some,
        Opcode::Endcaps => c =~= Set::<Constraint>::empty() && a.len() > 0 && cells_of(a[0]) is Some,
        Opcode::Begcapsphrase => c =~= Set::<Constraint>::empty() && a.len() > 0 && cells_of(a[0]) is Some,
        Opcode::Letsign => c =~= Set::<Constraint>::empty() && a.len() > 0 && cells_of(a[0]) is Some,
        Opcode::Numsign => c =~= Set::<Constraint>::empty() && a.len() > 0 && cells_of(a[0]) is Some,
        Opcode::Endcapsphrase => c =~= Set::<Constraint>::empty() && a.len() > 0 && position_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Lencapsphrase => c =~= Set::<Constraint>::empty() && a.len() > 0 && number_of(a[0]) is Some,
        Opcode::Begmodephrase => c =~= Set::<Constraint>::empty() && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Emphletter => c =~= Set::<Constraint>::empty() && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Begemphword => c =~= Set::<Constraint>::empty() && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Endemphword => c =~= Set::<Constraint>::empty() && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Begemphphrase => c =~= Set::<Constraint>::empty() && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Endmodephrase => c =~= Set::<Constraint>::empty() && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && position_of(a[1]) is Some && a.len() > 2 && cells_of(a[2]) is Some,
        Opcode::Endemphphrase => c =~= Set::<Constraint>::empty() && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && position_of(a[1]) is Some && a.len() > 2 && cells_of(a[2]) is Some,
        Opcode::Lenmodephrase => c =~= Set::<Constraint>::empty() && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && number_of(a[1]) is Some,
        Opcode::Lenemphphrase => c =~= Set::<Constraint>::empty() && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && number_of(a[1]) is Some,
        Opcode::Class => c =~= Set::<Constraint>::empty() && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && text_of(a[1]) is Some,
        Opcode::Noemphchars => c =~= Set::<Constraint>::empty() && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && text_of(a[1]) is Some,
        Opcode::Emphmodechars => c =~= Set::<Constraint>::empty() && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && text_of(a[1]) is Some,
        Opcode::Attribute => c =~= Set::<Constraint>::empty() && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && text_of(a[1]) is Some,
        Opcode::Emphclass => c =~= Set::<Constraint>::empty() && a.len() > 0 && name_of(a[0]) is Some,
        Opcode::Decpoint => c =~= Set::<Constraint>::empty() && a.len() > 0 && char_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Capsnocont => c =~= Set::<Constraint>::empty(),
        Opcode::Compbrl => !c.contains(Constraint::Nocross) && a.len() > 0 && text_of(a[0]) is Some,
        Opcode::Comp6 => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && dots_of(a[1]) is Some,
        Opcode::Syllable => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && dots_of(a[1]) is Some,
        Opcode::Replace => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some,
        Opcode::Repeated => !c.contains(Constraint::Nocross) && a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Lowword => !c.contains(Constraint::Nocross) && a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Repword => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Largesign => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Joinword => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Rependword => c =~= Set::<Constraint>::empty() && a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && lists_of(a[1]) is Some && lists_of(a[1])->0.len() == 2,
        Opcode::Word => !c.contains(Constraint::Nocross) && a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && dots_of(a[1]) is Some,
        Opcode::Always => a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && dots_of(a[1]) is Some,
        Opcode::Sufword => a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && dots_of(a[1]) is Some,
        Opcode::Prfword => a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && dots_of(a[1]) is Some,
        Opcode::Begword => a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && dots_of(a[1]) is Some,
        Opcode::Begmidword => a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && dots_of(a[1]) is Some,
        Opcode::Midword => a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && dots_of(a[1]) is Some,
        Opcode::Midendword => a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && dots_of(a[1]) is Some,
        Opcode::Endword => a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && dots_of(a[1]) is Some,
        Opcode::Partword => a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && dots_of(a[1]) is Some,
        Opcode::Prepunc => a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Postpunc => a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Begnum => a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Midnum => a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Joinnum => a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && cells_of(a[1]) is Some,
        Opcode::Endnum => a.len() > 0 && text_of(a[0]) is Some && a.len() > 1 && dots_of(a[1]) is Some,
        Opcode::Swapcd => c =~= Set::<Constraint>::empty() && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && text_of(a[1]) is Some && a.len() > 2 && lists_of(a[2]) is Some && text_of(a[1])->0.len() == lists_of(a[2])->0.len(),
        Opcode::Swapdd => c =~= Set::<Constraint>::empty() && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && singles_of(a[1]) is Some && a.len() > 2 && lists_of(a[2]) is Some && singles_of(a[1])->0.len() == lists_of(a[2])->0.len(),
        Opcode::Swapcc => c =~= Set::<Constraint>::empty() && a.len() > 0 && name_of(a[0]) is Some && a.len() > 1 && text_of(a[1]) is Some && a.len() > 2 && text_of(a[2]) is Some && text_of(a[1])->0.len() == text_of(a[2])->0.len(),
        Opcode::Context => !c.contains(Constraint::Nocross) && a.len() > 0 && test_of(a[0]) is Some && a.len() > 1 && action_of(a[1]) is Some,
        Opcode::Pass2 => !c.contains(Constraint::Nocross) && a.len() > 0 && test_of(a[0]) is Some && a.len() > 1 && action_of(a[1]) is Some,
        Opcode::Pass3 => !c.contains(Constraint::Nocross) && a.len() > 0 && test_of(a[0]) is Some && a.len() > 1 && action_of(a[1]) is Some,
        Opcode::Pass4 => !c.contains(Constraint::Nocross) && a.len() > 0 && test_of(a[0]) is Some && a.len() > 1 && action_of(a[1]) is Some,
        Opcode::Correct => !c.contains(Constraint::Nocross) && a.len() > 0 && test_of(a[0]) is Some && a.len() > 1 && action_of(a[1]) is Some,
        Opcode::Match => !c.contains(Constraint::Nocross) && a.len() > 0 && pattern_of(a[0], Side::Pre) is Some && a.len() > 1 && text_of(a[1]) is Some && a.len() > 2 && pattern_of(a[2], Side::Post) is Some && a.len() > 3 && dots_of(a[3]) is Some,
    }
}
/// the rule that carries exactly these operands, in this order, and what stood in front of the opcode
spec fn spells(o: Opcode, a: Seq<Seq<char>>, c: Set<Constraint>, k: Seq<(bool, Seq<char>)>, m: Set<WithMatch>, r: Rule) -> bool {
    match o {
        Opcode::Include => match r { Rule::Include { file } => Some(a[0]) == Some(file@), _ => false },
        Opcode::Undefined => match r { Rule::Undefined { dots } => cells_of(a[0]) == Some(dots.0@), _ => false },
        Opcode::Display => match r { Rule::Display { character, dots, constraints } => char_of(a[0]) == Some(character) && cell_of(a[1]) == Some(dots) && constraints.0@ == c, _ => false },
        Opcode::Multind => match r { Rule::Multind { dots, names, constraints } => cells_of(a[0]) == Some(dots.0@) && names_view(names@) =~= a.skip(1) && constraints.0@ == c, _ => false },
        Opcode::Space => match r { Rule::Space { character, dots, constraints } => char_of(a[0]) == Some(character) && cells_of(a[1]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Punctuation => match r { Rule::Punctuation { character, dots, constraints } => char_of(a[0]) == Some(character) && cells_of(a[1]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Digit => match r { Rule::Digit { character, dots, constraints } => char_of(a[0]) == Some(character) && cells_of(a[1]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Letter => match r { Rule::Letter { character, dots, constraints } => char_of(a[0]) == Some(character) && cells_of(a[1]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Lowercase => match r { Rule::Lowercase { character, dots, constraints } => char_of(a[0]) == Some(character) && cells_of(a[1]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Uppercase => match r { Rule::Uppercase { character, dots, constraints } => char_of(a[0]) == Some(character) && cells_of(a[1]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Litdigit => match r { Rule::Litdigit { character, dots, constraints } => char_of(a[0]) == Some(character) && cells_of(a[1]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Sign => match r { Rule::Sign { character, dots, constraints } => char_of(a[0]) == Some(character) && cells_of(a[1]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Math => match r { Rule::Math { character, dots, constraints } => char_of(a[0]) == Some(character) && cells_of(a[1]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Hyphen => match r { Rule::Hyphen { character, dots, constraints } => char_of(a[0]) == Some(character) && cells_of(a[1]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Grouping => match r { Rule::Grouping { name, chars, left, right } => name_of(a[0]) == Some(name@) && text_of(a[1]) == Some(chars@) && left == singles_of(a[2])->0[0] && right == singles_of(a[2])->0[1], _ => false },
        Opcode::Base => match r { Rule::Base { name, derived, base } => name_of(a[0]) == Some(name@) && char_of(a[1]) == Some(derived) && char_of(a[2]) == Some(base), _ => false },
        Opcode::Modeletter => match r { Rule::Modeletter { name, dots, constraints } => name_of(a[0]) == Some(name@) && cells_of(a[1]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Begmodeword => match r { Rule::Begmodeword { name, dots, constraints } => name_of(a[0]) == Some(name@) && cells_of(a[1]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Begemph => match r { Rule::Begemph { name, dots, constraints } => name_of(a[0]) == Some(name@) && cells_of(a[1]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Endemph => match r { Rule::Endemph { name, dots, constraints } => name_of(a[0]) == Some(name@) && cells_of(a[1]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Capsletter => match r { Rule::Capsletter { dots, constraints } => cells_of(a[0]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Begcapsword => match r { Rule::Begcapsword { dots, constraints } => cells_of(a[0]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Endcapsword => match r { Rule::Endcapsword { dots, constraints } => cells_of(a[0]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Nocontractsign => match r { Rule::Nocontractsign { dots, constraints } => cells_of(a[0]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Nonumsign => match r { Rule::Nonumsign { dots, constraints } => cells_of(a[0]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Begcomp => match r { Rule::Begcomp { dots, constraints } => cells_of(a[0]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Endcomp => match r { Rule::Endcomp { dots, constraints } => cells_of(a[0]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Capsmodechars => match r { Rule::Capsmodechars { chars } => text_of(a[0]) == Some(chars@), _ => false },
        Opcode::Noletsign => match r { Rule::Noletsign { chars } => text_of(a[0]) == Some(chars@), _ => false },
        Opcode::Noletsignbefore => match r { Rule::Noletsignbefore { chars } => text_of(a[0]) == Some(chars@), _ => false },
        Opcode::Noletsignafter => match r { Rule::Noletsignafter { chars } => text_of(a[0]) == Some(chars@), _ => false },
        Opcode::Numericnocontchars => match r { Rule::Numericnocontchars { chars } => text_of(a[0]) == Some(chars@), _ => false },
        Opcode::Numericmodechars => match r { Rule::Numericmodechars { chars } => text_of(a[0]) == Some(chars@), _ => false },
        Opcode::Midendnumericmodechars => match r { Rule::Midendnumericmodechars { chars } => text_of(a[0]) == Some(chars@), _ => false },
        Opcode::Seqdelimiter => match r { Rule::Seqdelimiter { chars } => text_of(a[0]) == Some(chars@), _ => false },
        Opcode::Seqbeforechars => match r { Rule::Seqbeforechars { chars } => text_of(a[0]) == Some(chars@), _ => false },
        Opcode::Seqafterchars => match r { Rule::Seqafterchars { chars } => text_of(a[0]) == Some(chars@), _ => false },
        Opcode::Seqafterpattern => match r { Rule::Seqafterpattern { chars } => text_of(a[0]) == Some(chars@), _ => false },
        Opcode::Seqafterexpression => match r { Rule::Seqafterexpression { chars } => text_of(a[0]) == Some(chars@), _ => false },
        Opcode::Nocont => match r { Rule::Nocont { chars } => text_of(a[0]) == Some(chars@), _ => false },
        Opcode::Contraction => match r { Rule::Contraction { chars } => text_of(a[0]) == Some(chars@), _ => false },
        Opcode::Exactdots => match r { Rule::Exactdots { chars } => text_of(a[0]) == Some(chars@), _ => false },
        Opcode::Literal => match r { Rule::Literal { chars } => text_of(a[0]) == Some(chars@), _ => false },
        Opcode::Begcaps => match r { Rule::Begcaps { dots } => cells_of(a[0]) == Some(dots.0@), _ => false },
        Opcode::Endcaps => match r { Rule::Endcaps { dots } => cells_of(a[0]) == Some(dots.0@), _ => false },
        Opcode::Begcapsphrase => match r { Rule::Begcapsphrase { dots } => cells_of(a[0]) == Some(dots.0@), _ => false },
        Opcode::Letsign => match r { Rule::Letsign { dots } => cells_of(a[0]) == Some(dots.0@), _ => false },
        Opcode::Numsign => match r { Rule::Numsign { dots } => cells_of(a[0]) == Some(dots.0@), _ => false },
        Opcode::Endcapsphrase => match r { Rule::Endcapsphrase { position, dots } => position_of(a[0]) == Some(position) && cells_of(a[1]) == Some(dots.0@), _ => false },
        Opcode::Lencapsphrase => match r { Rule::Lencapsphrase { number } => number_of(a[0]) == Some(number), _ => false },
        Opcode::Begmodephrase => match r { Rule::Begmodephrase { name, dots } => name_of(a[0]) == Some(name@) && cells_of(a[1]) == Some(dots.0@), _ => false },
        Opcode::Emphletter => match r { Rule::Emphletter { name, dots } => name_of(a[0]) == Some(name@) && cells_of(a[1]) == Some(dots.0@), _ => false },
        Opcode::Begemphword => match r { Rule::Begemphword { name, dots } => name_of(a[0]) == Some(name@) && cells_of(a[1]) == Some(dots.0@), _ => false },
        Opcode::Endemphword => match r { Rule::Endemphword { name, dots } => name_of(a[0]) == Some(name@) && cells_of(a[1]) == Some(dots.0@), _ => false },
        Opcode::Begemphphrase => match r { Rule::Begemphphrase { name, dots } => name_of(a[0]) == Some(name@) && cells_of(a[1]) == Some(dots.0@), _ => false },
        Opcode::Endmodephrase => match r { Rule::Endmodephrase { name, position, dots } => name_of(a[0]) == Some(name@) && position_of(a[1]) == Some(position) && cells_of(a[2]) == Some(dots.0@), _ => false },
        Opcode::Endemphphrase => match r { Rule::Endemphphrase { name, position, dots } => name_of(a[0]) == Some(name@) && position_of(a[1]) == Some(position) && cells_of(a[2]) == Some(dots.0@), _ => false },
        Opcode::Lenmodephrase => match r { Rule::Lenmodephrase { name, number } => name_of(a[0]) == Some(name@) && number_of(a[1]) == Some(number), _ => false },
        Opcode::Lenemphphrase => match r { Rule::Lenemphphrase { name, number } => name_of(a[0]) == Some(name@) && number_of(a[1]) == Some(number), _ => false },
        Opcode::Class => match r { Rule::Class { name, chars } => name_of(a[0]) == Some(name@) && text_of(a[1]) == Some(chars@), _ => false },
        Opcode::Noemphchars => match r { Rule::Noemphchars { name, chars } => name_of(a[0]) == Some(name@) && text_of(a[1]) == Some(chars@), _ => false },
        Opcode::Emphmodechars => match r { Rule::Emphmodechars { name, chars } => name_of(a[0]) == Some(name@) && text_of(a[1]) == Some(chars@), _ => false },
        Opcode::Attribute => match r { Rule::Attribute { name, chars } => name_of(a[0]) == Some(name@) && text_of(a[1]) == Some(chars@), _ => false },
        Opcode::Emphclass => match r { Rule::Emphclass { name } => name_of(a[0]) == Some(name@), _ => false },
        Opcode::Decpoint => match r { Rule::Decpoint { character, dots } => char_of(a[0]) == Some(character) && cells_of(a[1]) == Some(dots.0@), _ => false },
        Opcode::Capsnocont => match r { Rule::Capsnocont {  } => true, _ => false },
        Opcode::Compbrl => match r { Rule::Compbrl { chars, constraints } => text_of(a[0]) == Some(chars@) && constraints.0@ == c, _ => false },
        Opcode::Comp6 => match r { Rule::Comp6 { chars, dots } => text_of(a[0]) == Some(chars@) && dots_of(a[1]) == Some(dots_view(dots)), _ => false },
        Opcode::Syllable => match r { Rule::Syllable { chars, dots } => text_of(a[0]) == Some(chars@) && dots_of(a[1]) == Some(dots_view(dots)), _ => false },
        Opcode::Replace => match r { Rule::Replace { chars, replacement } => text_of(a[0]) == Some(chars@) && (a.len() > 1 ==> replacement is Some && replacement->0@ == a[1]) && (a.len() <= 1 ==> replacement is None), _ => false },
        Opcode::Repeated => match r { Rule::Repeated { chars, dots, constraints } => text_of(a[0]) == Some(chars@) && cells_of(a[1]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Lowword => match r { Rule::Lowword { chars, dots, constraints } => text_of(a[0]) == Some(chars@) && cells_of(a[1]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Repword => match r { Rule::Repword { chars, dots } => text_of(a[0]) == Some(chars@) && cells_of(a[1]) == Some(dots.0@), _ => false },
        Opcode::Largesign => match r { Rule::Largesign { chars, dots } => text_of(a[0]) == Some(chars@) && cells_of(a[1]) == Some(dots.0@), _ => false },
        Opcode::Joinword => match r { Rule::Joinword { chars, dots } => text_of(a[0]) == Some(chars@) && cells_of(a[1]) == Some(dots.0@), _ => false },
        Opcode::Rependword => match r { Rule::Rependword { chars, dots, other } => text_of(a[0]) == Some(chars@) && dots.0@ == lists_of(a[1])->0[0] && other.0@ == lists_of(a[1])->0[1], _ => false },
        Opcode::Word => match r { Rule::Word { chars, dots, constraints, with_classes } => text_of(a[0]) == Some(chars@) && dots_of(a[1]) == Some(dots_view(dots)) && constraints.0@ == c && classes_view(with_classes@) == k, _ => false },
        Opcode::Always => match r { Rule::Always { chars, dots, constraints, with_classes } => text_of(a[0]) == Some(chars@) && dots_of(a[1]) == Some(dots_view(dots)) && constraints.0@ == c && classes_view(with_classes@) == k, _ => false },
        Opcode::Sufword => match r { Rule::Sufword { chars, dots, constraints, with_classes } => text_of(a[0]) == Some(chars@) && dots_of(a[1]) == Some(dots_view(dots)) && constraints.0@ == c && classes_view(with_classes@) == k, _ => false },
        Opcode::Prfword => match r { Rule::Prfword { chars, dots, constraints, with_classes } => text_of(a[0]) == Some(chars@) && dots_of(a[1]) == Some(dots_view(dots)) && constraints.0@ == c && classes_view(with_classes@) == k, _ => false },
        Opcode::Begword => match r { Rule::Begword { chars, dots, constraints, with_classes } => text_of(a[0]) == Some(chars@) && dots_of(a[1]) == Some(dots_view(dots)) && constraints.0@ == c && classes_view(with_classes@) == k, _ => false },
        Opcode::Begmidword => match r { Rule::Begmidword { chars, dots, constraints, with_classes } => text_of(a[0]) == Some(chars@) && dots_of(a[1]) == Some(dots_view(dots)) && constraints.0@ == c && classes_view(with_classes@) == k, _ => false },
        Opcode::Midword => match r { Rule::Midword { chars, dots, constraints, with_classes } => text_of(a[0]) == Some(chars@) && dots_of(a[1]) == Some(dots_view(dots)) && constraints.0@ == c && classes_view(with_classes@) == k, _ => false },
        Opcode::Midendword => match r { Rule::Midendword { chars, dots, constraints, with_classes } => text_of(a[0]) == Some(chars@) && dots_of(a[1]) == Some(dots_view(dots)) && constraints.0@ == c && classes_view(with_classes@) == k, _ => false },
        Opcode::Endword => match r { Rule::Endword { chars, dots, constraints, with_classes } => text_of(a[0]) == Some(chars@) && dots_of(a[1]) == Some(dots_view(dots)) && constraints.0@ == c && classes_view(with_classes@) == k, _ => false },
        Opcode::Partword => match r { Rule::Partword { chars, dots, constraints, with_classes } => text_of(a[0]) == Some(chars@) && dots_of(a[1]) == Some(dots_view(dots)) && constraints.0@ == c && classes_view(with_classes@) == k, _ => false },
        Opcode::Prepunc => match r { Rule::Prepunc { chars, dots, constraints } => text_of(a[0]) == Some(chars@) && cells_of(a[1]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Postpunc => match r { Rule::Postpunc { chars, dots, constraints } => text_of(a[0]) == Some(chars@) && cells_of(a[1]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Begnum => match r { Rule::Begnum { chars, dots, constraints } => text_of(a[0]) == Some(chars@) && cells_of(a[1]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Midnum => match r { Rule::Midnum { chars, dots, constraints } => text_of(a[0]) == Some(chars@) && cells_of(a[1]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Joinnum => match r { Rule::Joinnum { chars, dots, constraints } => text_of(a[0]) == Some(chars@) && cells_of(a[1]) == Some(dots.0@) && constraints.0@ == c, _ => false },
        Opcode::Endnum => match r { Rule::Endnum { chars, dots, constraints } => text_of(a[0]) == Some(chars@) && dots_of(a[1]) == Some(dots_view(dots)) && constraints.0@ == c, _ => false },
        Opcode::Swapcd => match r { Rule::Swapcd { name, chars, dots } => name_of(a[0]) == Some(name@) && text_of(a[1]) == Some(chars@) && lists_of(a[2]) == Some(lists_view(dots@)), _ => false },
        Opcode::Swapdd => match r { Rule::Swapdd { name, dots, replacement } => name_of(a[0]) == Some(name@) && singles_of(a[1]) == Some(dots.0@) && lists_of(a[2]) == Some(lists_view(replacement@)), _ => false },
        Opcode::Swapcc => match r { Rule::Swapcc { name, chars, replacement } => name_of(a[0]) == Some(name@) && text_of(a[1]) == Some(chars@) && text_of(a[2]) == Some(replacement@), _ => false },
        Opcode::Context => match r { Rule::Context { test, action, constraints } => test_of(a[0]) == Some(test) && action_of(a[1]) == Some(action) && constraints.0@ == c, _ => false },
        Opcode::Pass2 => match r { Rule::Pass2 { test, action, constraints } => test_of(a[0]) == Some(test) && action_of(a[1]) == Some(action) && constraints.0@ == c, _ => false },
        Opcode::Pass3 => match r { Rule::Pass3 { test, action, constraints } => test_of(a[0]) == Some(test) && action_of(a[1]) == Some(action) && constraints.0@ == c, _ => false },
        Opcode::Pass4 => match r { Rule::Pass4 { test, action, constraints } => test_of(a[0]) == Some(test) && action_of(a[1]) == Some(action) && constraints.0@ == c, _ => false },
        Opcode::Correct => match r { Rule::Correct { test, action, constraints } => test_of(a[0]) == Some(test) && action_of(a[1]) == Some(action) && constraints.0@ == c, _ => false },
        Opcode::Match => match r { Rule::Match { pre, chars, post, dots, constraints, matches } => pattern_of(a[0], Side::Pre) == Some(pre) && text_of(a[1]) == Some(chars@) && pattern_of(a[2], Side::Post) == Some(post) && dots_of(a[3]) == Some(dots_view(dots)) && constraints.0@ == c && match matches { Some(x) => x@ == m && m != Set::<WithMatch>::empty(), None => m == Set::<WithMatch>::empty() }, _ => false },
    }
}
/// the rule a line spells, if it spells one
spec fn line_reads(t: Seq<Seq<char>>) -> bool {
    let p = prefix(t);
    let k = classed(t.skip(p.1));
    k is Some && {
        let (m, u) = matched((k->0).1, Set::empty());
        u.len() > 0 && op_of(u[0]) is Some && readable(op_of(u[0])->0, u.skip(1), p.0)
    }
}
spec fn line_spells(t: Seq<Seq<char>>, r: Rule) -> bool {
    let p = prefix(t);
    let k = classed(t.skip(p.1));
    let (m, u) = matched((k->0).1, Set::empty());
    spells(op_of(u[0])->0, u.skip(1), p.0, (k->0).0, m, r)
}
/// the restrictions a rule carries
spec fn carried(r: Rule) -> Option<Set<Constraint>> {
    match r {
        Rule::Display { constraints, .. } => Some(constraints.0@),
        Rule::Multind { constraints, .. } => Some(constraints.0@),
        Rule::Space { constraints, .. } => Some(constraints.0@),
        Rule::Punctuation { constraints, .. } => Some(constraints.0@),
        Rule::Digit { constraints, .. } => Some(constraints.0@),
        Rule::Letter { constraints, .. } => Some(constraints.0@),
        Rule::Lowercase { constraints, .. } => Some(constraints.0@),
        Rule::Uppercase { constraints, .. } => Some(constraints.0@),
        Rule::Litdigit { constraints, .. } => Some(constraints.0@),
        Rule::Sign { constraints, .. } => Some(constraints.0@),
        Rule::Math { constraints, .. } => Some(constraints.0@),
        Rule::Hyphen { constraints, .. } => Some(constraints.0@),
        Rule::Modeletter { constraints, .. } => Some(constraints.0@),
        Rule::Begmodeword { constraints, .. } => Some(constraints.0@),
        Rule::Begemph { constraints, .. } => Some(constraints.0@),
        Rule::Endemph { constraints, .. } => Some(constraints.0@),
        Rule::Capsletter { constraints, .. } => Some(constraints.0@),
        Rule::Begcapsword { constraints, .. } => Some(constraints.0@),
        Rule::Endcapsword { constraints, .. } => Some(constraints.0@),
        Rule::Nocontractsign { constraints, .. } => Some(constraints.0@),
        Rule::Nonumsign { constraints, .. } => Some(constraints.0@),
        Rule::Begcomp { constraints, .. } => Some(constraints.0@),
        Rule::Endcomp { constraints, .. } => Some(constraints.0@),
        Rule::Compbrl { constraints, .. } => Some(constraints.0@),
        Rule::Repeated { constraints, .. } => Some(constraints.0@),
        Rule::Lowword { constraints, .. } => Some(constraints.0@),
        Rule::Word { constraints, .. } => Some(constraints.0@),
        Rule::Always { constraints, .. } => Some(constraints.0@),
        Rule::Sufword { constraints, .. } => Some(constraints.0@),
        Rule::Prfword { constraints, .. } => Some(constraints.0@),
        Rule::Begword { constraints, .. } => Some(constraints.0@),
        Rule::Begmidword { constraints, .. } => Some(constraints.0@),
        Rule::Midword { constraints, .. } => Some(constraints.0@),
        Rule::Midendword { constraints, .. } => Some(constraints.0@),
        Rule::Endword { constraints, .. } => Some(constraints.0@),
        Rule::Partword { constraints, .. } => Some(constraints.0@),
        Rule::Prepunc { constraints, .. } => Some(constraints.0@),
        Rule::Postpunc { constraints, .. } => Some(constraints.0@),
        Rule::Begnum { constraints, .. } => Some(constraints.0@),
        Rule::Midnum { constraints, .. } => Some(constraints.0@),
        Rule::Joinnum { constraints, .. } => Some(constraints.0@),
        Rule::Endnum { constraints, .. } => Some(constraints.0@),
        Rule::Context { constraints, .. } => Some(constraints.0@),
        Rule::Pass2 { constraints, .. } => Some(constraints.0@),
        Rule::Pass3 { constraints, .. } => Some(constraints.0@),
        Rule::Pass4 { constraints, .. } => Some(constraints.0@),
        Rule::Correct { constraints, .. } => Some(constraints.0@),
        Rule::Match { constraints, .. } => Some(constraints.0@),
        _ => None,
    }
}
@fn parser.rs Constraints::empty
@spec
    ensures r.0@ == Set::<Constraint>::empty(),
@fn parser.rs Constraints::insert
@spec
    ensures final(self).0@ == old(self).0@.insert(value),
@fn parser.rs Constraints::is_subset
@spec
    ensures r == self.0@.subset_of(other.0@),
@fn parser.rs Constraints::difference
@spec
    ensures r.0@ == self.0@.difference(other.0@),
@fn parser.rs const@ANY_DIRECTION
@sig fn any_direction() -> (r: Constraints)
@subst constraint_set!(Constraint::Nofor | Constraint::Noback) =>> Constraints(enum_set!(Constraint::Nofor | Constraint::Noback))
@spec
    ensures r.0@ == Set::<Constraint>::empty().insert(Constraint::Nofor).insert(Constraint::Noback),
@entry
    proof {
        let b = seq![Constraint::Nofor, Constraint::Noback];
        assert(b.to_set() =~= Set::<Constraint>::empty().insert(Constraint::Nofor).insert(Constraint::Noback)) by { assert(b[0] == Constraint::Nofor && b[1] == Constraint::Noback); }
    }
@fn parser.rs fail_if_invalid_constraints
@spec
    ensures r is Ok <==> actual.0@.subset_of(expected.0@),
@fn parser.rs fail_if_differing_number_of_replacements
@spec
    ensures r is Ok <==> length1 == length2,
@fn parser.rs unescape assume
@spec
    ensures
        unesc(s@, context == EscapingContext::MatchPattern) is None ==> r is Err,
        unesc(s@, context == EscapingContext::MatchPattern) is Some ==> r is Ok && r->Ok_0@ == unesc(s@, context == EscapingContext::MatchPattern)->0,
@fn parser/braille.rs FromIterator@BrailleChars::from_iter
@sig fn from_iter(iter: Vec<BrailleChar>) -> (r: BrailleChars)
@subst iter.into_iter().collect() =>> iter
@spec
    ensures r.0@ == iter@,
@fn parser/braille.rs BrailleChars::len
@spec
    ensures r == self.0@.len(),
@fn parser/braille.rs TryFrom@BrailleChars::try_from assume
@sig fn try_from(value: &str) -> (r: Result<BrailleChars, braille::ParseError>)
@spec
    ensures r is Ok <==> cells_of(value@) is Some, r is Ok ==> Some(r->Ok_0.0@) == cells_of(value@),
@fn parser.rs RuleParser::nofor
@spec
    ensures r == (old(self).tokens@.len() > 0 && old(self).tokens@[0] == "nofor"@), final(self).tokens@ == (if r { old(self).tokens@.skip(1) } else { old(self).tokens@ }),
@fn parser.rs RuleParser::noback
@spec
    ensures r == (old(self).tokens@.len() > 0 && old(self).tokens@[0] == "noback"@), final(self).tokens@ == (if r { old(self).tokens@.skip(1) } else { old(self).tokens@ }),
@fn parser.rs RuleParser::nocross
@spec
    ensures r == (old(self).tokens@.len() > 0 && old(self).tokens@[0] == "nocross"@), final(self).tokens@ == (if r { old(self).tokens@.skip(1) } else { old(self).tokens@ }),
@fn parser.rs RuleParser::constraints
@spec
    ensures r.0@ == prefix(old(self).tokens@).0, final(self).tokens@ == old(self).tokens@.skip(prefix(old(self).tokens@).1),
@entry
    proof {
        let t = self.tokens@;
        assert(t.skip(0) =~= t);
        if t.len() >= 2 { assert(t.skip(1).skip(1) =~= t.skip(2)); }
    }
@fn parser.rs RuleParser::with_class
@subst class.into() =>> own(class)
@spec
    ensures
        old(self).tokens@.len() == 0 || !class_word(old(self).tokens@[0]) ==> r is Ok && r->Ok_0 is None && final(self).tokens@ == old(self).tokens@,
        old(self).tokens@.len() == 1 && class_word(old(self).tokens@[0]) ==> r is Err,
        old(self).tokens@.len() > 1 && class_word(old(self).tokens@[0]) ==> r is Ok && r->Ok_0 is Some && class_view(r->Ok_0->0) == (old(self).tokens@[0] == "before"@, old(self).tokens@[1]) && final(self).tokens@ == old(self).tokens@.skip(2),
        r is Err ==> final(self).tokens@.len() == 0,
@entry
    proof {
        let t = self.tokens@;
        reveal_strlit("before"); reveal_strlit("after"); assert("before"@.len() == 6 && "after"@.len() == 5);
        if t.len() >= 2 { assert(t.skip(1).skip(1) =~= t.skip(2)); }
    }
@fn parser.rs RuleParser::with_classes loops=1
@subst self.tokens.peek() == Some(&"before") =>> self.tokens.peeks("before")
@subst self.tokens.peek() == Some(&"after") =>> self.tokens.peeks("after")
@spec
    ensures
        r is Ok <==> classed(old(self).tokens@) is Some,
        r is Ok ==> r->Ok_0 is Some && classes_view(r->Ok_0->0@) == (classed(old(self).tokens@)->0).0 && final(self).tokens@ == (classed(old(self).tokens@)->0).1,
        r is Err ==> final(self).tokens@.len() == 0,
@loop 0
    invariant
        classed(t0) is Some <==> classed(self.tokens@) is Some,
        classed(t0) is Some ==> (classed(t0)->0).0 == classes_view(classes@) + (classed(self.tokens@)->0).0 && (classed(t0)->0).1 == (classed(self.tokens@)->0).1,
        t0 == old(self).tokens@,
    ensures self.tokens@.len() == 0 || !class_word(self.tokens@[0]),
    decreases self.tokens@.len(),
@entry
    let ghost t0 = self.tokens@;
    proof { if classed(t0) is Some { assert(classes_view(Seq::<WithClass>::empty()) + (classed(t0)->0).0 =~= (classed(t0)->0).0); } }
@loop 0 start
    let ghost c0 = classes@; let ghost t1 = self.tokens@;
@loop 0 end
    proof {
        if classed(t1) is Some {
            let (k, u) = classed(t1.skip(2))->0;
            assert(classes_view(classes@) =~= classes_view(c0).push((t1[0] == "before"@, t1[1])));
            assert(classes_view(c0) + (seq![(t1[0] == "before"@, t1[1])] + k) =~= classes_view(classes@) + k);
        }
    }
@exit
    proof { assert(classes_view(classes@) + Seq::<(bool, Seq<char>)>::empty() =~= classes_view(classes@)); }
@fn parser.rs RuleParser::with_matches loops=1
@subst self.tokens.peek() == Some(&"empmatchbefore") =>> self.tokens.peeks("empmatchbefore")
@subst self.tokens.peek() == Some(&"empmatchafter") =>> self.tokens.peeks("empmatchafter")
@spec
    ensures
        match r { Some(m) => m@ == matched(old(self).tokens@, Set::empty()).0 && m@ != Set::<WithMatch>::empty(), None => matched(old(self).tokens@, Set::empty()).0 == Set::<WithMatch>::empty() },
        final(self).tokens@ == matched(old(self).tokens@, Set::empty()).1,
@entry
    let ghost t0 = self.tokens@;
    proof { reveal_strlit("empmatchbefore"); reveal_strlit("empmatchafter"); }
@loop 0
    invariant matched(t0, Set::empty()) == matched(self.tokens@, matches@), t0 == old(self).tokens@,
    ensures self.tokens@.len() == 0 || !match_word(self.tokens@[0]),
    decreases self.tokens@.len(),
@loop 0 start
    let ghost t1 = self.tokens@; let ghost m1 = matches@;
    proof {
        reveal_with_fuel(matched, 3); reveal_strlit("empmatchbefore"); reveal_strlit("empmatchafter"); assert("empmatchbefore"@.len() == 14 && "empmatchafter"@.len() == 13);
        if t1.len() >= 2 { assert(t1.skip(1)[0] == t1[1]); }
    }
@fn parser.rs RuleParser::opcode exitret strmatch
@subst unknown.into() =>> own(unknown)
@spec
    ensures
        old(self).tokens@.len() > 0 && op_of(old(self).tokens@[0]) is Some ==> r is Ok && Some(r->Ok_0) == op_of(old(self).tokens@[0]) && final(self).tokens@ == old(self).tokens@.skip(1),
        old(self).tokens@.len() == 0 || op_of(old(self).tokens@[0]) is None ==> r is Err,
@entry
    let ghost t0 = self.tokens@;
@exit
    proof { if __ret is Ok { opcode_words(__ret->Ok_0); } }
@fn parser.rs RuleParser::name loops=1 okmap
@subst s.to_string() =>> own(s)
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && name_of(old(self).tokens@[0]) == Some(v@) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || name_of(old(self).tokens@[0]) is None },
@loop 0
    invariant_except_break __i0 <= __s0@.len(), __acc0, forall|i: int| 0 <= i < __i0 ==> alnum(#[trigger] __s0@[i]),
    invariant __s0@ == name@,
    ensures __acc0 <==> forall|i: int| 0 <= i < name@.len() ==> alnum(#[trigger] name@[i]),
    decreases __s0@.len() - __i0,
@fn parser.rs RuleParser::many_names loops=1 owned=self.tokens.rest()
@subst self.tokens.by_ref() =>> self.tokens.rest()
@subst name.into() =>> own(name)
@subst "At least one name expected".into() =>> own("At least one name expected")
@spec
    ensures match r { Ok(v) => names_view(v@) =~= old(self).tokens@ && v@.len() > 1, Err(_) => old(self).tokens@.len() <= 1 },
@loop 0
    invariant __i0 <= __s0@.len(), names@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> (#[trigger] names@[i])@ == __s0@[i]@,
        __s0@.len() == old(self).tokens@.len(), forall|i: int| 0 <= i < __s0@.len() ==> (#[trigger] __s0@[i])@ == old(self).tokens@[i],
    decreases __s0@.len() - __i0,
@fn parser.rs RuleParser::one_char
@subst s.chars().count() =>> text_len(&s)
@subst s.chars().next() =>> text_first(&s)
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && char_of(old(self).tokens@[0]) == Some(v) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || char_of(old(self).tokens@[0]) is None },
@fn parser.rs RuleParser::number
@subst s.parse :: <i32> () =>> parse_i32(s)
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && number_of(old(self).tokens@[0]) == Some(v) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || number_of(old(self).tokens@[0]) is None },
@fn parser.rs RuleParser::chars
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && text_of(old(self).tokens@[0]) == Some(v@) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || text_of(old(self).tokens@[0]) is None },
@fn parser.rs RuleParser::maybe_chars optmap
@subst s.to_string() =>> own(s)
@spec
    ensures match r { Some(v) => old(self).tokens@.len() > 0 && v@ == old(self).tokens@[0], None => old(self).tokens@.len() == 0 },
@fn parser.rs RuleParser::filename okmap
@subst s.to_string() =>> own(s)
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && v@ == old(self).tokens@[0] && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 },
@fn parser.rs RuleParser::position optmap
@subst "Before/After".into() =>> own("Before/After")
@subst s.into() =>> own(s)
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && position_of(old(self).tokens@[0]) == Some(v) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || position_of(old(self).tokens@[0]) is None },
@entry
    proof { reveal_strlit("before"); reveal_strlit("after"); assert("before"@.len() == 6 && "after"@.len() == 5); }
@fn parser.rs RuleParser::dots
@subst token == "=" =>> str_is(token, "=")
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && dots_of(old(self).tokens@[0]) == Some(dots_view(v)) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || dots_of(old(self).tokens@[0]) is None },
@fn parser.rs RuleParser::explicit_dots loops=1 resmap vecsrc=str_split(self.tokens.next().ok_or(ParseError::DotsExpected)?,'-') collect0=ResultOf:BrailleChars::from_iter acc0=Vec<BrailleChar>
@subst self.tokens.next().ok_or(ParseError::DotsExpected)? .split('-') =>> str_split(self.tokens.next().ok_or(ParseError::DotsExpected)?, '-')
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && cells_of(old(self).tokens@[0]) == Some(v.0@) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || cells_of(old(self).tokens@[0]) is None },
@loop 0
    invariant_except_break __i0 <= __s0@.len(), __e0 is None, __acc0@.len() == __i0,
        forall|j: int| 0 <= j < __i0 ==> cell_of(#[trigger] ps[j]) == Some(__acc0@[j]),
    invariant __s0@.len() == ps.len(), forall|i: int| 0 <= i < __s0@.len() ==> (#[trigger] __s0@[i])@ == ps[i],
    ensures __e0 is None ==> all_cells(ps) is Some && all_cells(ps)->0 =~= __acc0@,
        __e0 is Some ==> exists|j: int| 0 <= j < ps.len() && cell_of(#[trigger] ps[j]) is None,
    decreases __s0@.len() - __i0,
@loop 0 pre
    let ghost ps = pieces(old(self).tokens@[0], '-');
@fn parser.rs RuleParser::many_braillechars loops=2 resmap vecsrc=str_split(self.tokens.next().ok_or(ParseError::DotsExpected)?,',') vecsrc=str_split(chars,'-') collect0=Result acc0=Vec<BrailleChars> collect1=ResultOf:BrailleChars::from_iter acc1=Vec<BrailleChar>
@subst self.tokens.next().ok_or(ParseError::DotsExpected)? .split(',') =>> str_split(self.tokens.next().ok_or(ParseError::DotsExpected)?, ',')
@subst chars.split('-') =>> str_split(chars, '-')
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && lists_of(old(self).tokens@[0]) is Some && lists_of(old(self).tokens@[0])->0 =~= lists_view(v@) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || lists_of(old(self).tokens@[0]) is None },
@loop 0
    invariant_except_break __i0 <= __s0@.len(), __e0 is None, __acc0@.len() == __i0,
        forall|j: int| 0 <= j < __i0 ==> cells_of(#[trigger] ps[j]) == Some(__acc0@[j].0@),
    invariant __s0@.len() == ps.len(), forall|i: int| 0 <= i < __s0@.len() ==> (#[trigger] __s0@[i])@ == ps[i],
    ensures __e0 is None ==> __acc0@.len() == ps.len() && forall|j: int| 0 <= j < ps.len() ==> cells_of(#[trigger] ps[j]) == Some(__acc0@[j].0@),
        __e0 is Some ==> exists|j: int| 0 <= j < ps.len() && cells_of(#[trigger] ps[j]) is None,
    decreases __s0@.len() - __i0,
@loop 0 pre
    let ghost ps = pieces(old(self).tokens@[0], ',');
@loop 1
    invariant_except_break __i1 <= __s1@.len(), __e1 is None, __acc1@.len() == __i1,
        forall|j: int| 0 <= j < __i1 ==> cell_of(#[trigger] qs[j]) == Some(__acc1@[j]),
    invariant __s1@.len() == qs.len(), forall|i: int| 0 <= i < __s1@.len() ==> (#[trigger] __s1@[i])@ == qs[i],
    ensures __e1 is None ==> all_cells(qs) is Some && all_cells(qs)->0 =~= __acc1@,
        __e1 is Some ==> exists|j: int| 0 <= j < qs.len() && cell_of(#[trigger] qs[j]) is None,
    decreases __s1@.len() - __i1,
@loop 1 pre
    let ghost qs = pieces(chars@, '-');
@fn parser.rs RuleParser::single_braillechar resmap
@subst self.tokens.next().ok_or(ParseError::DotsExpected)? .try_into() =>> BrailleChar::try_from(self.tokens.next().ok_or(ParseError::DotsExpected)?)
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && cell_of(old(self).tokens@[0]) == Some(v) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || cell_of(old(self).tokens@[0]) is None },
@fn parser.rs RuleParser::multipass_test okmap resmap
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && test_of(old(self).tokens@[0]) == Some(v) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || test_of(old(self).tokens@[0]) is None },
@fn parser.rs RuleParser::multipass_action okmap resmap
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && action_of(old(self).tokens@[0]) == Some(v) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || action_of(old(self).tokens@[0]) is None },
@fn parser.rs RuleParser::match_pre tailmap resmap
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && pattern_of(old(self).tokens@[0], Side::Pre) == Some(v) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || pattern_of(old(self).tokens@[0], Side::Pre) is None },
@fn parser.rs RuleParser::match_post tailmap resmap
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && pattern_of(old(self).tokens@[0], Side::Post) == Some(v) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || pattern_of(old(self).tokens@[0], Side::Post) is None },
@fn parser.rs RuleParser::many_braillechar loops=1 resmap vecsrc=str_split(self.tokens.next().ok_or(ParseError::DotsExpected)?,',') collect0=ResultOf:BrailleChars::from_iter acc0=Vec<BrailleChar>
@subst self.tokens.next().ok_or(ParseError::DotsExpected)? .split(',') =>> str_split(self.tokens.next().ok_or(ParseError::DotsExpected)?, ',')
@subst chars.contains('-') =>> str_has(chars, '-')
@subst chars.to_string() =>> own(chars)
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && singles_of(old(self).tokens@[0]) == Some(v.0@) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || singles_of(old(self).tokens@[0]) is None },
@loop 0
    invariant_except_break __i0 <= __s0@.len(), __e0 is None, __acc0@.len() == __i0,
        forall|j: int| 0 <= j < __i0 ==> cell_of(#[trigger] ps[j]) == Some(__acc0@[j]) && !ps[j].contains('-'),
    invariant __s0@.len() == ps.len(), forall|i: int| 0 <= i < __s0@.len() ==> (#[trigger] __s0@[i])@ == ps[i],
    ensures __e0 is None ==> all_cells(ps) is Some && all_cells(ps)->0 =~= __acc0@ && forall|j: int| 0 <= j < ps.len() ==> !(#[trigger] ps[j]).contains('-'),
        __e0 is Some ==> exists|j: int| 0 <= j < ps.len() && (cell_of(#[trigger] ps[j]) is None || ps[j].contains('-')),
    decreases __s0@.len() - __i0,
@loop 0 pre
    let ghost ps = pieces(old(self).tokens@[0], ',');
@fn parser.rs RuleParser::rule attr=verifier::rlimit(200) noprobe
@subst self.with_classes().unwrap_or_default().unwrap_or_default() =>> classes_or_none(self.with_classes())
@subst ANY_DIRECTION =>> any_direction()
@subst dots.iter().next().unwrap().clone() =>> first_cell(&dots).unwrap().clone()
@subst dots.iter().last().unwrap().clone() =>> last_cell(&dots).unwrap().clone()
@subst many_dots.into_iter() =>> ListIter::of(many_dots)
@subst chars.chars().count() =>> text_len(&chars)
@subst replacement.chars().count() =>> text_len(&replacement)
@spec
    ensures
        r is Ok && carried(r->Ok_0) is Some ==> carried(r->Ok_0)->0 == prefix(old(self).tokens@).0, /*@restrictions*/
        // (the next obligations are not about the restrictions)
        //
        //
        //
        //
        r is Ok <==> line_reads(old(self).tokens@),
        r is Ok ==> line_spells(old(self).tokens@, r->Ok_0),
@entry
    hide(op_of); hide(word_of); hide(prefix); hide(classed);
    hide(cells_of); hide(dots_of); hide(singles_of); hide(lists_of); hide(char_of); hide(name_of); hide(text_of); hide(position_of); hide(pattern_of);
    let ghost t0 = self.tokens@;
@before let rule =
    let ghost a = self.tokens@;
    let ghost c = constraints.0@;
    proof {
        let p = prefix(t0);
        let k = classed(t0.skip(p.1));
        let (m, u) = matched((k->0).1, Set::empty());
        assert(k is Some && u.len() > 0 && op_of(u[0]) == Some(opcode) && a == u.skip(1) && c == p.0);
        assert(line_reads(t0) <==> readable(opcode, a, c));
    }
