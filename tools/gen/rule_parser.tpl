@include common.vs
@type parser.rs Constraint attr=derive(PartialEq,Eq,Structural,Clone,Copy)
@raw
// ---- trusted: `enumset::EnumSet`, seen as a set of values ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct EnumSet<T> { id: usize, p: std::marker::PhantomData<T> }
impl<T> EnumSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    fn is_subset(&self, o: EnumSet<T>) -> (r: bool) ensures r == self@.subset_of(o@) { unimplemented!() }
    #[verifier::external_body]
    fn difference(&self, o: EnumSet<T>) -> (r: EnumSet<T>) ensures r@ == self@.difference(o@) { unimplemented!() }
    #[verifier::external_body]
    fn empty() -> (r: EnumSet<T>) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, v: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(v), r == !old(self)@.contains(v) { unimplemented!() }
}
impl<T: Copy> Clone for EnumSet<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl<T: Copy> Copy for EnumSet<T> { }
/// `enum_set!(a | b | ..)`
#[verifier::external_body]
fn enum_set_of<T>(v: Vec<T>) -> (r: EnumSet<T>) ensures r@ == v@.to_set() { unimplemented!() }
@type parser.rs Constraints derive=Clone,Copy
@raw
// ---- the operands that other parsers read: each text is one of theirs or is not (their contracts are in braille.vs, match_parser.vs; escape.vs) ----
mod braille { use super::*; #[verifier::external_body] pub struct ParseError { e: u8 } }
mod match_rule {
    use super::*;
    #[verifier::external_body]
    pub struct ParseError { e: u8 }
    #[verifier::external_body]
    pub struct PatternParser { e: u8 }
    impl PatternParser {
        pub uninterp spec fn told(&self) -> (Seq<char>, Side);
        #[verifier::external_body]
        pub fn new(s: &str, side: Side) -> (r: PatternParser) ensures r.told() == (s@, side) { unimplemented!() }
        #[verifier::external_body]
        pub fn pattern(self) -> (r: Result<Patterns, ParseError>)
            ensures r is Ok <==> pattern_spelt(self.told().0, self.told().1) is Some, r is Ok ==> Some(r->Ok_0) == pattern_spelt(self.told().0, self.told().1)
        { unimplemented!() }
    }
}
mod multipass {
    use super::*;
    #[verifier::external_body]
    pub struct ParseError { e: u8 }
    #[verifier::external_body]
    pub struct Test { e: u8 }
    pub mod test {
        use super::super::*;
        #[verifier::external_body]
        pub struct Parser { e: u8 }
        impl Parser {
            pub uninterp spec fn told(&self) -> Seq<char>;
            #[verifier::external_body]
            pub fn new(s: &str) -> (r: Parser) ensures r.told() == s@ { unimplemented!() }
            #[verifier::external_body]
            pub fn tests(self) -> (r: Result<Test, super::ParseError>) ensures r is Ok <==> test_of(self.told()) is Some, r is Ok ==> Some(r->Ok_0) == test_of(self.told()) { unimplemented!() }
        }
    }
    pub mod action {
        use super::super::*;
        #[verifier::external_body]
        pub struct Parser { e: u8 }
        impl Parser {
            pub uninterp spec fn told(&self) -> Seq<char>;
            #[verifier::external_body]
            pub fn new(s: &str) -> (r: Parser) ensures r.told() == s@ { unimplemented!() }
            #[verifier::external_body]
            pub fn actions(self) -> (r: Result<Action, super::ParseError>) ensures r is Ok <==> action_of(self.told()) is Some, r is Ok ==> Some(r->Ok_0) == action_of(self.told()) { unimplemented!() }
        }
    }
}
use multipass::Test;
#[verifier::external_body]
pub struct Action { e: u8 }
#[verifier::external_body]
pub struct Patterns { e: u8 }
#[verifier::external_body]
pub struct BrailleChar { e: u8 }
#[verifier::external_body]
pub struct PathBuf { e: u8 }
#[verifier::external_body]
pub struct ParseIntError { e: u8 }
pub uninterp spec fn test_of(w: Seq<char>) -> Option<Test>;
pub uninterp spec fn action_of(w: Seq<char>) -> Option<Action>;
pub uninterp spec fn pattern_spelt(w: Seq<char>, s: Side) -> Option<Patterns>;
/// escapes resolved (escape.vs)
pub uninterp spec fn unesc(w: Seq<char>, m: bool) -> Option<Seq<char>>;
/// the cell that dot digits describe (braille.vs)
pub uninterp spec fn cell_of(w: Seq<char>) -> Option<BrailleChar>;
/// std: decimal text of an i32
pub uninterp spec fn number_of(w: Seq<char>) -> Option<i32>;
impl BrailleChar {
    #[verifier::external_body]
    fn try_from(s: &str) -> (r: Result<BrailleChar, braille::ParseError>) ensures r is Ok <==> cell_of(s@) is Some, r is Ok ==> Some(r->Ok_0) == cell_of(s@) { unimplemented!() }
    #[verifier::external_body]
    fn clone(&self) -> (r: BrailleChar) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
fn parse_i32(s: &str) -> (r: Result<i32, ParseIntError>) ensures r is Ok <==> number_of(s@) is Some, r is Ok ==> Some(r->Ok_0) == number_of(s@) { unimplemented!() }
/// the sequence of cells in a pattern of cells
#[verifier::external_body]
fn first_cell(b: &BrailleChars) -> (r: Option<&BrailleChar>) ensures r is Some <==> b.0@.len() > 0, r is Some ==> *r->0 == b.0@[0] { b.0.first() }
#[verifier::external_body]
fn last_cell(b: &BrailleChars) -> (r: Option<&BrailleChar>) ensures r is Some <==> b.0@.len() > 0, r is Some ==> *r->0 == b.0@.last() { b.0.last() }
#[verifier::external_body]
struct ListIter { v: std::vec::IntoIter<BrailleChars> }
impl View for ListIter { type V = Seq<BrailleChars>; uninterp spec fn view(&self) -> Seq<BrailleChars>; }
impl ListIter {
    #[verifier::external_body]
    fn of(v: Vec<BrailleChars>) -> (r: ListIter) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<BrailleChars>)
        ensures old(self)@.len() > 0 ==> r is Some && r->0 == old(self)@[0] && final(self)@ == old(self)@.skip(1), old(self)@.len() == 0 ==> r is None
    { unimplemented!() }
}
/// the pieces between the separators
spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if !s.contains(c) { seq![s] } else {
        let k = s.index_of_first(c);
        if k is Some && 0 <= k->0 < s.len() { seq![s.take(k->0)] + pieces(s.skip(k->0 + 1), c) } else { seq![s] }
    }
}
#[verifier::external_body]
fn str_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>)
    ensures r@.len() == pieces(s@, c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == pieces(s@, c)[i]
{ s.split(c).collect() }
#[verifier::external_body]
fn str_has(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { s.contains(c) }
#[verifier::external_body]
fn str_is(s: &str, t: &str) -> (r: bool) ensures r == (s@ == t@) { s == t }
#[verifier::external_body]
fn own(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
fn text_len(s: &String) -> (r: usize) ensures r as int == s@.len() { s.chars().count() }
#[verifier::external_body]
fn text_first(s: &String) -> (r: Option<char>) ensures r is Some <==> s@.len() > 0, r is Some ==> r->0 == s@[0] { s.chars().next() }
pub open spec fn alnum(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9' }
pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (r: bool) ensures r == alnum(*c);
/// the words of a line
#[verifier::external_body]
struct Tokens<'a> { t: std::iter::Peekable<std::str::SplitAsciiWhitespace<'a>> }
impl<'a> View for Tokens<'a> { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
impl<'a> Tokens<'a> {
    #[verifier::external_body]
    fn next_if_eq(&mut self, x: &&str) -> (r: Option<&'a str>)
        ensures
            old(self)@.len() > 0 && old(self)@[0] == x@ ==> r is Some && r->0@ == x@ && final(self)@ == old(self)@.skip(1),
            !(old(self)@.len() > 0 && old(self)@[0] == x@) ==> r is None && final(self)@ == old(self)@,
    { self.t.next_if_eq(x) }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<&'a str>)
        ensures
            old(self)@.len() > 0 ==> r is Some && r->0@ == old(self)@[0] && final(self)@ == old(self)@.skip(1),
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
    { self.t.next() }
    #[verifier::external_body]
    fn peek(&mut self) -> (r: Option<&&'a str>)
        ensures final(self)@ == old(self)@, old(self)@.len() > 0 ==> r is Some && r->0@ == old(self)@[0], old(self)@.len() == 0 ==> r is None,
    { self.t.peek() }
    /// `peek() == Some(&x)`
    #[verifier::external_body]
    fn peeks(&mut self, x: &str) -> (r: bool)
        ensures final(self)@ == old(self)@, r == (old(self)@.len() > 0 && old(self)@[0] == x@),
    { self.t.peek() == Some(&x) }
    /// `by_ref()`: the words left
    #[verifier::external_body]
    fn rest(&mut self) -> (r: Vec<&'a str>)
        ensures final(self)@.len() == 0, r@.len() == old(self)@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == old(self)@[i],
    { self.t.by_ref().collect() }
}
@type parser.rs WithClass derive=
@type parser.rs WithMatch attr=derive(PartialEq,Eq,Structural,Clone,Copy) derive=
@raw
type WithClasses = Vec<WithClass>;
/// `HashSet<WithMatch>`
#[verifier::external_body]
struct WithMatches { e: std::collections::HashSet<u8> }
impl View for WithMatches { type V = Set<WithMatch>; uninterp spec fn view(&self) -> Set<WithMatch>; }
impl WithMatches {
    #[verifier::external_body]
    fn new() -> (r: WithMatches) ensures r@ == Set::<WithMatch>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, m: WithMatch) -> (r: bool) ensures final(self)@ == old(self)@.insert(m) { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<WithMatch>::empty()) { unimplemented!() }
}
/// `r.unwrap_or_default().unwrap_or_default()`
#[verifier::external_body]
fn classes_or_none(r: Result<Option<WithClasses>, ParseError>) -> (o: WithClasses)
    ensures o@ == (match r { Ok(Some(v)) => v@, _ => Seq::<WithClass>::empty() })
{ unimplemented!() }
@type parser.rs Opcode derive=
@type parser.rs ParseError derive=
@type parser.rs Position derive=
@type parser.rs EscapingContext attr=derive(PartialEq,Eq,Structural) derive=
@type parser/match_rule.rs Side attr=derive(PartialEq,Eq,Structural) derive=
@type parser/braille.rs BrailleChars derive=
@type parser.rs Braille derive=
@type parser.rs Rule derive=
@type parser.rs RuleParser retype=tokens:Peekable<SplitAsciiWhitespace<'a>>=>Tokens<'a>
@raw
impl From<braille::ParseError> for ParseError { #[verifier::external_body] fn from(e: braille::ParseError) -> ParseError { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<braille::ParseError> for ParseError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: braille::ParseError) -> ParseError { arbitrary() }
}
impl From<ParseIntError> for ParseError { #[verifier::external_body] fn from(e: ParseIntError) -> ParseError { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<ParseIntError> for ParseError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: ParseIntError) -> ParseError { arbitrary() }
}
// ---- what each kind of operand is ----
spec fn text_of(w: Seq<char>) -> Option<Seq<char>> { unesc(w, false) }
spec fn char_of(w: Seq<char>) -> Option<char> { if unesc(w, false) is Some && unesc(w, false)->0.len() == 1 { Some(unesc(w, false)->0[0]) } else { None } }
spec fn name_of(w: Seq<char>) -> Option<Seq<char>> { if forall|i: int| 0 <= i < w.len() ==> alnum(#[trigger] w[i]) { Some(w) } else { None } }
spec fn all_cells(p: Seq<Seq<char>>) -> Option<Seq<BrailleChar>> {
    if forall|i: int| 0 <= i < p.len() ==> cell_of(#[trigger] p[i]) is Some { Some(Seq::new(p.len(), |i: int| cell_of(p[i])->0)) } else { None }
}
/// cells, separated by hyphens
spec fn cells_of(w: Seq<char>) -> Option<Seq<BrailleChar>> { all_cells(pieces(w, '-')) }
/// single cells, separated by commas
spec fn singles_of(w: Seq<char>) -> Option<Seq<BrailleChar>> {
    if forall|i: int| 0 <= i < pieces(w, ',').len() ==> !(#[trigger] pieces(w, ',')[i]).contains('-') { all_cells(pieces(w, ',')) } else { None }
}
/// lists of cells, separated by commas
spec fn lists_of(w: Seq<char>) -> Option<Seq<Seq<BrailleChar>>> {
    let p = pieces(w, ',');
    if forall|i: int| 0 <= i < p.len() ==> cells_of(#[trigger] p[i]) is Some { Some(Seq::new(p.len(), |i: int| cells_of(p[i])->0)) } else { None }
}
/// `=` or cells
spec fn dots_of(w: Seq<char>) -> Option<Option<Seq<BrailleChar>>> { if w == "="@ { Some(None) } else { match cells_of(w) { Some(c) => Some(Some(c)), None => None } } }
spec fn position_of(w: Seq<char>) -> Option<Position> { if w == "before"@ { Some(Position::Before) } else if w == "after"@ { Some(Position::After) } else { None } }
spec fn pattern_of(w: Seq<char>, s: Side) -> Option<Patterns> { match unesc(w, true) { Some(t) => pattern_spelt(t, s), None => None } }
spec fn dots_view(b: Braille) -> Option<Seq<BrailleChar>> { match b { Braille::Implicit => None, Braille::Explicit(c) => Some(c.0@) } }
spec fn lists_view(v: Seq<BrailleChars>) -> Seq<Seq<BrailleChar>> { Seq::new(v.len(), |i: int| v[i].0@) }
spec fn names_view(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
spec fn class_view(c: WithClass) -> (bool, Seq<char>) { match c { WithClass::Before { class } => (true, class@), WithClass::After { class } => (false, class@) } }
spec fn classes_view(v: Seq<WithClass>) -> Seq<(bool, Seq<char>)> { Seq::new(v.len(), |i: int| class_view(v[i])) }
// ---- what stands in front of the opcode ----
/// the restrictions
spec fn prefix(t: Seq<Seq<char>>) -> (Set<Constraint>, int) {
    let a = if t.len() > 0 && t[0] == "nofor"@ { (Set::<Constraint>::empty().insert(Constraint::Nofor), 1int) }
        else if t.len() > 0 && t[0] == "noback"@ { (Set::<Constraint>::empty().insert(Constraint::Noback), 1) } else { (Set::<Constraint>::empty(), 0) };
    if t.len() > a.1 && t[a.1] == "nocross"@ { (a.0.insert(Constraint::Nocross), a.1 + 1) } else { a }
}
spec fn class_word(w: Seq<char>) -> bool { w == "before"@ || w == "after"@ }
/// the classes, each behind `before` or `after`; `None` when the last one has no name
spec fn classed(t: Seq<Seq<char>>) -> Option<(Seq<(bool, Seq<char>)>, Seq<Seq<char>>)> decreases t.len() {
    if t.len() == 0 || !class_word(t[0]) { Some((Seq::empty(), t)) }
    else if t.len() == 1 { None }
    else { match classed(t.skip(2)) { Some((k, u)) => Some((seq![(t[0] == "before"@, t[1])] + k, u)), None => None } }
}
spec fn match_word(w: Seq<char>) -> bool { w == "empmatchbefore"@ || w == "empmatchafter"@ }
spec fn which(w: Seq<char>) -> WithMatch { if w == "empmatchbefore"@ { WithMatch::Before } else { WithMatch::After } }
/// the sides that may match without text
spec fn matched(t: Seq<Seq<char>>, m: Set<WithMatch>) -> (Set<WithMatch>, Seq<Seq<char>>) decreases t.len() {
    if t.len() == 0 || !match_word(t[0]) { (m, t) } else { matched(t.skip(1), m.insert(which(t[0]))) }
}
// ---- the opcodes ----
spec fn word_of(o: Opcode) -> Seq<char> {
    match o {
%WORD_OF%
    }
}
spec fn op_of(w: Seq<char>) -> Option<Opcode> {
    %CHAIN%
    else { None }
}
#[verifier::spinoff_prover]
proof fn opcode_words(o: Opcode) ensures op_of(word_of(o)) == Some(o) {
        %REVEALS%
}
proof fn opcode_word(w: Seq<char>) ensures op_of(w) is Some ==> word_of(op_of(w)->0) == w { }
/// whether the operands are there and each is one of its kind, and the restrictions are ones the opcode takes
spec fn readable(o: Opcode, a: Seq<Seq<char>>, c: Set<Constraint>) -> bool {
    match o {
%READABLE%
    }
}
/// the rule that carries exactly these operands, in this order, and what stood in front of the opcode
spec fn spells(o: Opcode, a: Seq<Seq<char>>, c: Set<Constraint>, k: Seq<(bool, Seq<char>)>, m: Set<WithMatch>, r: Rule) -> bool {
    match o {
%SPELLS%
    }
}
/// the rule a line spells, if it spells one
spec fn line_reads(t: Seq<Seq<char>>) -> bool {
    let p = prefix(t);
    let k = classed(t.skip(p.1));
    k is Some && {
        let (m, u) = matched((k->0).1, Set::empty());
        u.len() > 0 && op_of(u[0]) is Some && readable(op_of(u[0])->0, u.skip(1), p.0)
    }
}
spec fn line_spells(t: Seq<Seq<char>>, r: Rule) -> bool {
    let p = prefix(t);
    let k = classed(t.skip(p.1));
    let (m, u) = matched((k->0).1, Set::empty());
    spells(op_of(u[0])->0, u.skip(1), p.0, (k->0).0, m, r)
}
/// the restrictions a rule carries
spec fn carried(r: Rule) -> Option<Set<Constraint>> {
    match r {
%CARRIED%
        _ => None,
    }
}
@fn parser.rs Constraints::empty
@spec
    ensures r.0@ == Set::<Constraint>::empty(),
@fn parser.rs Constraints::insert
@spec
    ensures final(self).0@ == old(self).0@.insert(value),
@fn parser.rs Constraints::is_subset
@spec
    ensures r == self.0@.subset_of(other.0@),
@fn parser.rs Constraints::difference
@spec
    ensures r.0@ == self.0@.difference(other.0@),
@fn parser.rs const@ANY_DIRECTION
@sig fn any_direction() -> (r: Constraints)
@subst constraint_set!(Constraint::Nofor | Constraint::Noback) =>> Constraints(enum_set!(Constraint::Nofor | Constraint::Noback))
@spec
    ensures r.0@ == Set::<Constraint>::empty().insert(Constraint::Nofor).insert(Constraint::Noback),
@entry
    proof {
        let b = seq![Constraint::Nofor, Constraint::Noback];
        assert(b.to_set() =~= Set::<Constraint>::empty().insert(Constraint::Nofor).insert(Constraint::Noback)) by { assert(b[0] == Constraint::Nofor && b[1] == Constraint::Noback); }
    }
@fn parser.rs fail_if_invalid_constraints
@spec
    ensures r is Ok <==> actual.0@.subset_of(expected.0@),
@fn parser.rs fail_if_differing_number_of_replacements
@spec
    ensures r is Ok <==> length1 == length2,
@fn parser.rs unescape assume
@spec
    ensures
        unesc(s@, context == EscapingContext::MatchPattern) is None ==> r is Err,
        unesc(s@, context == EscapingContext::MatchPattern) is Some ==> r is Ok && r->Ok_0@ == unesc(s@, context == EscapingContext::MatchPattern)->0,
@fn parser/braille.rs FromIterator@BrailleChars::from_iter
@sig fn from_iter(iter: Vec<BrailleChar>) -> (r: BrailleChars)
@subst iter.into_iter().collect() =>> iter
@spec
    ensures r.0@ == iter@,
@fn parser/braille.rs BrailleChars::len
@spec
    ensures r == self.0@.len(),
@fn parser/braille.rs TryFrom@BrailleChars::try_from assume
@sig fn try_from(value: &str) -> (r: Result<BrailleChars, braille::ParseError>)
@spec
    ensures r is Ok <==> cells_of(value@) is Some, r is Ok ==> Some(r->Ok_0.0@) == cells_of(value@),
@fn parser.rs RuleParser::nofor
@spec
    ensures r == (old(self).tokens@.len() > 0 && old(self).tokens@[0] == "nofor"@), final(self).tokens@ == (if r { old(self).tokens@.skip(1) } else { old(self).tokens@ }),
@fn parser.rs RuleParser::noback
@spec
    ensures r == (old(self).tokens@.len() > 0 && old(self).tokens@[0] == "noback"@), final(self).tokens@ == (if r { old(self).tokens@.skip(1) } else { old(self).tokens@ }),
@fn parser.rs RuleParser::nocross
@spec
    ensures r == (old(self).tokens@.len() > 0 && old(self).tokens@[0] == "nocross"@), final(self).tokens@ == (if r { old(self).tokens@.skip(1) } else { old(self).tokens@ }),
@fn parser.rs RuleParser::constraints
@spec
    ensures r.0@ == prefix(old(self).tokens@).0, final(self).tokens@ == old(self).tokens@.skip(prefix(old(self).tokens@).1),
@entry
    proof {
        let t = self.tokens@;
        assert(t.skip(0) =~= t);
        if t.len() >= 2 { assert(t.skip(1).skip(1) =~= t.skip(2)); }
    }
@fn parser.rs RuleParser::with_class
@subst class.into() =>> own(class)
@spec
    ensures
        old(self).tokens@.len() == 0 || !class_word(old(self).tokens@[0]) ==> r is Ok && r->Ok_0 is None && final(self).tokens@ == old(self).tokens@,
        old(self).tokens@.len() == 1 && class_word(old(self).tokens@[0]) ==> r is Err,
        old(self).tokens@.len() > 1 && class_word(old(self).tokens@[0]) ==> r is Ok && r->Ok_0 is Some && class_view(r->Ok_0->0) == (old(self).tokens@[0] == "before"@, old(self).tokens@[1]) && final(self).tokens@ == old(self).tokens@.skip(2),
        r is Err ==> final(self).tokens@.len() == 0,
@entry
    proof {
        let t = self.tokens@;
        reveal_strlit("before"); reveal_strlit("after"); assert("before"@.len() == 6 && "after"@.len() == 5);
        if t.len() >= 2 { assert(t.skip(1).skip(1) =~= t.skip(2)); }
    }
@fn parser.rs RuleParser::with_classes loops=1
@subst self.tokens.peek() == Some(&"before") =>> self.tokens.peeks("before")
@subst self.tokens.peek() == Some(&"after") =>> self.tokens.peeks("after")
@spec
    ensures
        r is Ok <==> classed(old(self).tokens@) is Some,
        r is Ok ==> r->Ok_0 is Some && classes_view(r->Ok_0->0@) == (classed(old(self).tokens@)->0).0 && final(self).tokens@ == (classed(old(self).tokens@)->0).1,
        r is Err ==> final(self).tokens@.len() == 0,
@loop 0
    invariant
        classed(t0) is Some <==> classed(self.tokens@) is Some,
        classed(t0) is Some ==> (classed(t0)->0).0 == classes_view(classes@) + (classed(self.tokens@)->0).0 && (classed(t0)->0).1 == (classed(self.tokens@)->0).1,
        t0 == old(self).tokens@,
    ensures self.tokens@.len() == 0 || !class_word(self.tokens@[0]),
    decreases self.tokens@.len(),
@entry
    let ghost t0 = self.tokens@;
    proof { if classed(t0) is Some { assert(classes_view(Seq::<WithClass>::empty()) + (classed(t0)->0).0 =~= (classed(t0)->0).0); } }
@loop 0 start
    let ghost c0 = classes@; let ghost t1 = self.tokens@;
@loop 0 end
    proof {
        if classed(t1) is Some {
            let (k, u) = classed(t1.skip(2))->0;
            assert(classes_view(classes@) =~= classes_view(c0).push((t1[0] == "before"@, t1[1])));
            assert(classes_view(c0) + (seq![(t1[0] == "before"@, t1[1])] + k) =~= classes_view(classes@) + k);
        }
    }
@exit
    proof { assert(classes_view(classes@) + Seq::<(bool, Seq<char>)>::empty() =~= classes_view(classes@)); }
@fn parser.rs RuleParser::with_matches loops=1
@subst self.tokens.peek() == Some(&"empmatchbefore") =>> self.tokens.peeks("empmatchbefore")
@subst self.tokens.peek() == Some(&"empmatchafter") =>> self.tokens.peeks("empmatchafter")
@spec
    ensures
        match r { Some(m) => m@ == matched(old(self).tokens@, Set::empty()).0 && m@ != Set::<WithMatch>::empty(), None => matched(old(self).tokens@, Set::empty()).0 == Set::<WithMatch>::empty() },
        final(self).tokens@ == matched(old(self).tokens@, Set::empty()).1,
@entry
    let ghost t0 = self.tokens@;
    proof { reveal_strlit("empmatchbefore"); reveal_strlit("empmatchafter"); }
@loop 0
    invariant matched(t0, Set::empty()) == matched(self.tokens@, matches@), t0 == old(self).tokens@,
    ensures self.tokens@.len() == 0 || !match_word(self.tokens@[0]),
    decreases self.tokens@.len(),
@loop 0 start
    let ghost t1 = self.tokens@; let ghost m1 = matches@;
    proof {
        reveal_with_fuel(matched, 3); reveal_strlit("empmatchbefore"); reveal_strlit("empmatchafter"); assert("empmatchbefore"@.len() == 14 && "empmatchafter"@.len() == 13);
        if t1.len() >= 2 { assert(t1.skip(1)[0] == t1[1]); }
    }
@fn parser.rs RuleParser::opcode exitret strmatch
@subst unknown.into() =>> own(unknown)
@spec
    ensures
        old(self).tokens@.len() > 0 && op_of(old(self).tokens@[0]) is Some ==> r is Ok && Some(r->Ok_0) == op_of(old(self).tokens@[0]) && final(self).tokens@ == old(self).tokens@.skip(1),
        old(self).tokens@.len() == 0 || op_of(old(self).tokens@[0]) is None ==> r is Err,
@entry
    let ghost t0 = self.tokens@;
@exit
    proof { if __ret is Ok { opcode_words(__ret->Ok_0); } }
@fn parser.rs RuleParser::name loops=1 okmap
@subst s.to_string() =>> own(s)
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && name_of(old(self).tokens@[0]) == Some(v@) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || name_of(old(self).tokens@[0]) is None },
@loop 0
    invariant_except_break __i0 <= __s0@.len(), __acc0, forall|i: int| 0 <= i < __i0 ==> alnum(#[trigger] __s0@[i]),
    invariant __s0@ == name@,
    ensures __acc0 <==> forall|i: int| 0 <= i < name@.len() ==> alnum(#[trigger] name@[i]),
    decreases __s0@.len() - __i0,
@fn parser.rs RuleParser::many_names loops=1 owned=self.tokens.rest()
@subst self.tokens.by_ref() =>> self.tokens.rest()
@subst name.into() =>> own(name)
@subst "At least one name expected".into() =>> own("At least one name expected")
@spec
    ensures match r { Ok(v) => names_view(v@) =~= old(self).tokens@ && v@.len() > 1, Err(_) => old(self).tokens@.len() <= 1 },
@loop 0
    invariant __i0 <= __s0@.len(), names@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> (#[trigger] names@[i])@ == __s0@[i]@,
        __s0@.len() == old(self).tokens@.len(), forall|i: int| 0 <= i < __s0@.len() ==> (#[trigger] __s0@[i])@ == old(self).tokens@[i],
    decreases __s0@.len() - __i0,
@fn parser.rs RuleParser::one_char
@subst s.chars().count() =>> text_len(&s)
@subst s.chars().next() =>> text_first(&s)
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && char_of(old(self).tokens@[0]) == Some(v) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || char_of(old(self).tokens@[0]) is None },
@fn parser.rs RuleParser::number
@subst s.parse :: <i32> () =>> parse_i32(s)
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && number_of(old(self).tokens@[0]) == Some(v) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || number_of(old(self).tokens@[0]) is None },
@fn parser.rs RuleParser::chars
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && text_of(old(self).tokens@[0]) == Some(v@) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || text_of(old(self).tokens@[0]) is None },
@fn parser.rs RuleParser::maybe_chars optmap
@subst s.to_string() =>> own(s)
@spec
    ensures match r { Some(v) => old(self).tokens@.len() > 0 && v@ == old(self).tokens@[0], None => old(self).tokens@.len() == 0 },
@fn parser.rs RuleParser::filename okmap
@subst s.to_string() =>> own(s)
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && v@ == old(self).tokens@[0] && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 },
@fn parser.rs RuleParser::position optmap
@subst "Before/After".into() =>> own("Before/After")
@subst s.into() =>> own(s)
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && position_of(old(self).tokens@[0]) == Some(v) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || position_of(old(self).tokens@[0]) is None },
@entry
    proof { reveal_strlit("before"); reveal_strlit("after"); assert("before"@.len() == 6 && "after"@.len() == 5); }
@fn parser.rs RuleParser::dots
@subst token == "=" =>> str_is(token, "=")
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && dots_of(old(self).tokens@[0]) == Some(dots_view(v)) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || dots_of(old(self).tokens@[0]) is None },
@fn parser.rs RuleParser::explicit_dots loops=1 resmap vecsrc=str_split(self.tokens.next().ok_or(ParseError::DotsExpected)?,'-') collect0=ResultOf:BrailleChars::from_iter acc0=Vec<BrailleChar>
@subst self.tokens.next().ok_or(ParseError::DotsExpected)? .split('-') =>> str_split(self.tokens.next().ok_or(ParseError::DotsExpected)?, '-')
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && cells_of(old(self).tokens@[0]) == Some(v.0@) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || cells_of(old(self).tokens@[0]) is None },
@loop 0
    invariant_except_break __i0 <= __s0@.len(), __e0 is None, __acc0@.len() == __i0,
        forall|j: int| 0 <= j < __i0 ==> cell_of(#[trigger] ps[j]) == Some(__acc0@[j]),
    invariant __s0@.len() == ps.len(), forall|i: int| 0 <= i < __s0@.len() ==> (#[trigger] __s0@[i])@ == ps[i],
    ensures __e0 is None ==> all_cells(ps) is Some && all_cells(ps)->0 =~= __acc0@,
        __e0 is Some ==> exists|j: int| 0 <= j < ps.len() && cell_of(#[trigger] ps[j]) is None,
    decreases __s0@.len() - __i0,
@loop 0 pre
    let ghost ps = pieces(old(self).tokens@[0], '-');
@fn parser.rs RuleParser::many_braillechars loops=2 resmap vecsrc=str_split(self.tokens.next().ok_or(ParseError::DotsExpected)?,',') vecsrc=str_split(chars,'-') collect0=Result acc0=Vec<BrailleChars> collect1=ResultOf:BrailleChars::from_iter acc1=Vec<BrailleChar>
@subst self.tokens.next().ok_or(ParseError::DotsExpected)? .split(',') =>> str_split(self.tokens.next().ok_or(ParseError::DotsExpected)?, ',')
@subst chars.split('-') =>> str_split(chars, '-')
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && lists_of(old(self).tokens@[0]) is Some && lists_of(old(self).tokens@[0])->0 =~= lists_view(v@) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || lists_of(old(self).tokens@[0]) is None },
@loop 0
    invariant_except_break __i0 <= __s0@.len(), __e0 is None, __acc0@.len() == __i0,
        forall|j: int| 0 <= j < __i0 ==> cells_of(#[trigger] ps[j]) == Some(__acc0@[j].0@),
    invariant __s0@.len() == ps.len(), forall|i: int| 0 <= i < __s0@.len() ==> (#[trigger] __s0@[i])@ == ps[i],
    ensures __e0 is None ==> __acc0@.len() == ps.len() && forall|j: int| 0 <= j < ps.len() ==> cells_of(#[trigger] ps[j]) == Some(__acc0@[j].0@),
        __e0 is Some ==> exists|j: int| 0 <= j < ps.len() && cells_of(#[trigger] ps[j]) is None,
    decreases __s0@.len() - __i0,
@loop 0 pre
    let ghost ps = pieces(old(self).tokens@[0], ',');
@loop 1
    invariant_except_break __i1 <= __s1@.len(), __e1 is None, __acc1@.len() == __i1,
        forall|j: int| 0 <= j < __i1 ==> cell_of(#[trigger] qs[j]) == Some(__acc1@[j]),
    invariant __s1@.len() == qs.len(), forall|i: int| 0 <= i < __s1@.len() ==> (#[trigger] __s1@[i])@ == qs[i],
    ensures __e1 is None ==> all_cells(qs) is Some && all_cells(qs)->0 =~= __acc1@,
        __e1 is Some ==> exists|j: int| 0 <= j < qs.len() && cell_of(#[trigger] qs[j]) is None,
    decreases __s1@.len() - __i1,
@loop 1 pre
    let ghost qs = pieces(chars@, '-');
@fn parser.rs RuleParser::single_braillechar resmap
@subst self.tokens.next().ok_or(ParseError::DotsExpected)? .try_into() =>> BrailleChar::try_from(self.tokens.next().ok_or(ParseError::DotsExpected)?)
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && cell_of(old(self).tokens@[0]) == Some(v) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || cell_of(old(self).tokens@[0]) is None },
@fn parser.rs RuleParser::multipass_test okmap resmap
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && test_of(old(self).tokens@[0]) == Some(v) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || test_of(old(self).tokens@[0]) is None },
@fn parser.rs RuleParser::multipass_action okmap resmap
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && action_of(old(self).tokens@[0]) == Some(v) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || action_of(old(self).tokens@[0]) is None },
@fn parser.rs RuleParser::match_pre tailmap resmap
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && pattern_of(old(self).tokens@[0], Side::Pre) == Some(v) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || pattern_of(old(self).tokens@[0], Side::Pre) is None },
@fn parser.rs RuleParser::match_post tailmap resmap
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && pattern_of(old(self).tokens@[0], Side::Post) == Some(v) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || pattern_of(old(self).tokens@[0], Side::Post) is None },
@fn parser.rs RuleParser::many_braillechar loops=1 resmap vecsrc=str_split(self.tokens.next().ok_or(ParseError::DotsExpected)?,',') collect0=ResultOf:BrailleChars::from_iter acc0=Vec<BrailleChar>
@subst self.tokens.next().ok_or(ParseError::DotsExpected)? .split(',') =>> str_split(self.tokens.next().ok_or(ParseError::DotsExpected)?, ',')
@subst chars.contains('-') =>> str_has(chars, '-')
@subst chars.to_string() =>> own(chars)
@spec
    ensures match r { Ok(v) => old(self).tokens@.len() > 0 && singles_of(old(self).tokens@[0]) == Some(v.0@) && final(self).tokens@ == old(self).tokens@.skip(1), Err(_) => old(self).tokens@.len() == 0 || singles_of(old(self).tokens@[0]) is None },
@loop 0
    invariant_except_break __i0 <= __s0@.len(), __e0 is None, __acc0@.len() == __i0,
        forall|j: int| 0 <= j < __i0 ==> cell_of(#[trigger] ps[j]) == Some(__acc0@[j]) && !ps[j].contains('-'),
    invariant __s0@.len() == ps.len(), forall|i: int| 0 <= i < __s0@.len() ==> (#[trigger] __s0@[i])@ == ps[i],
    ensures __e0 is None ==> all_cells(ps) is Some && all_cells(ps)->0 =~= __acc0@ && forall|j: int| 0 <= j < ps.len() ==> !(#[trigger] ps[j]).contains('-'),
        __e0 is Some ==> exists|j: int| 0 <= j < ps.len() && (cell_of(#[trigger] ps[j]) is None || ps[j].contains('-')),
    decreases __s0@.len() - __i0,
@loop 0 pre
    let ghost ps = pieces(old(self).tokens@[0], ',');
@fn parser.rs RuleParser::rule attr=verifier::rlimit(200) noprobe
@subst self.with_classes().unwrap_or_default().unwrap_or_default() =>> classes_or_none(self.with_classes())
@subst ANY_DIRECTION =>> any_direction()
@subst dots.iter().next().unwrap().clone() =>> first_cell(&dots).unwrap().clone()
@subst dots.iter().last().unwrap().clone() =>> last_cell(&dots).unwrap().clone()
@subst many_dots.into_iter() =>> ListIter::of(many_dots)
@subst chars.chars().count() =>> text_len(&chars)
@subst replacement.chars().count() =>> text_len(&replacement)
@spec
    ensures
        r is Ok && carried(r->Ok_0) is Some ==> carried(r->Ok_0)->0 == prefix(old(self).tokens@).0, /*@restrictions*/
        // (the next obligations are not about the restrictions)
        //
        //
        //
        //
        r is Ok <==> line_reads(old(self).tokens@),
        r is Ok ==> line_spells(old(self).tokens@, r->Ok_0),
@entry
    hide(op_of); hide(word_of); hide(prefix); hide(classed);
    hide(cells_of); hide(dots_of); hide(singles_of); hide(lists_of); hide(char_of); hide(name_of); hide(text_of); hide(position_of); hide(pattern_of);
    let ghost t0 = self.tokens@;
@before let rule =
    let ghost a = self.tokens@;
    let ghost c = constraints.0@;
    proof {
        let p = prefix(t0);
        let k = classed(t0.skip(p.1));
        let (m, u) = matched((k->0).1, Set::empty());
        assert(k is Some && u.len() > 0 && op_of(u[0]) == Some(opcode) && a == u.skip(1) && c == p.0);
        assert(line_reads(t0) <==> readable(opcode, a, c));
    }
