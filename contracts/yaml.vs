@include common.vs
@type parser.rs Direction attr=derive(PartialEq,Eq,Structural,Clone,Copy)
@raw
// ---- stand-ins for libyaml, enumset and the standard library ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct EnumSet<T> { p: std::marker::PhantomData<T> }
impl<T> EnumSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    fn empty() -> (r: EnumSet<T>) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, v: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(v), r == !old(self)@.contains(v) { unimplemented!() }
}
pub enum ScalarStyle { Plain, SingleQuoted, DoubleQuoted, Literal, Folded }
pub enum Encoding { Utf8, Utf16Le, Utf16Be }
#[verifier::external_body]
fn same_encoding(a: &Encoding, b: Encoding) -> (r: bool) ensures r == (*a == b) { unimplemented!() }
/// `libyaml::Event` without the fields that nobody reads
pub enum Event {
    StreamStart { encoding: Option<Encoding> },
    StreamEnd,
    DocumentStart { implicit: bool },
    DocumentEnd { implicit: bool },
    Alias { anchor: String },
    Scalar { value: String, style: Option<ScalarStyle> },
    SequenceStart { implicit: bool },
    SequenceEnd,
    MappingStart { implicit: bool },
    MappingEnd,
}
#[verifier::external_body]
pub struct ParserError { e: u8 }
#[verifier::external_body]
pub struct ParseIntError { e: u8 }
#[verifier::external_body]
pub struct TestError { e: u8 }
#[verifier::external_body]
pub struct EscapeError { e: u8 }
type YAMLEventError = Option<Result<Event, ParserError>>;
/// `yaml::ParseError`: which error is reported is not the subject here
pub enum ParseError {
    ScalarExpected(YAMLEventError), StreamStartExpected, StreamEndExpected, DocumentStartExpected, DocumentEndExpected, SequenceStartExpected,
    SequenceEndExpected(YAMLEventError), MappingStartExpected(YAMLEventError), MappingEndExpected, InvalidTestMode, InvalidNumber(ParseIntError),
    InvalidEncoding(Encoding), InvalidMode(String), InvalidXFail, InvalidTableValue, InvalidToken(String), TestError(TestError), InvalidEscape(EscapeError),
}
impl From<ParseIntError> for ParseError { #[verifier::external_body] fn from(e: ParseIntError) -> ParseError { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<ParseIntError> for ParseError { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(e: ParseIntError) -> ParseError { arbitrary() } }
impl From<TestError> for ParseError { #[verifier::external_body] fn from(e: TestError) -> ParseError { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<TestError> for ParseError { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(e: TestError) -> ParseError { arbitrary() } }
impl From<EscapeError> for ParseError { #[verifier::external_body] fn from(e: EscapeError) -> ParseError { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<EscapeError> for ParseError { open spec fn obeys_from_spec() -> bool { false } open spec fn from_spec(e: EscapeError) -> ParseError { arbitrary() } }

/// what an event is to a reader
pub enum Tok { Text(Seq<char>, bool), MapStart, MapEnd, SeqStart, SeqEnd, StreamStart(bool), StreamEnd, DocStart, DocEnd, Other }
pub open spec fn is_block(s: Option<ScalarStyle>) -> bool { s == Some(ScalarStyle::Literal) || s == Some(ScalarStyle::Folded) }
pub open spec fn tok(e: Result<Event, ParserError>) -> Tok {
    match e {
        Ok(Event::Scalar { value, style }) => Tok::Text(value@, is_block(style)),
        Ok(Event::MappingStart { .. }) => Tok::MapStart,
        Ok(Event::MappingEnd) => Tok::MapEnd,
        Ok(Event::SequenceStart { .. }) => Tok::SeqStart,
        Ok(Event::SequenceEnd) => Tok::SeqEnd,
        Ok(Event::StreamStart { encoding }) => Tok::StreamStart(encoding == Some(Encoding::Utf8)),
        Ok(Event::StreamEnd) => Tok::StreamEnd,
        Ok(Event::DocumentStart { .. }) => Tok::DocStart,
        Ok(Event::DocumentEnd { .. }) => Tok::DocEnd,
        _ => Tok::Other,
    }
}
pub type Toks = Seq<Tok>;
/// stands for `Peekable<ParserIter>`: the events still to come
#[verifier::external_body]
pub struct Events<'a> { e: std::marker::PhantomData<&'a u8> }
impl<'a> Events<'a> {
    pub uninterp spec fn view(&self) -> Toks;
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<Result<Event, ParserError>>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r is Some && tok(r->0) == old(self)@[0] && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    fn peek(&self) -> (r: Option<&Result<Event, ParserError>>)
        ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r is Some && tok(*r->0) == self@[0],
    { unimplemented!() }
}
#[verifier::external_body]
pub struct PathBuf { e: u8 }
pub uninterp spec fn path(t: Seq<char>) -> PathBuf;
#[verifier::external_body]
fn path_of(s: String) -> (r: PathBuf) ensures r == path(s@) { unimplemented!() }
#[verifier::external_body]
fn path_of_ref(s: &String) -> (r: PathBuf) ensures r == path(s@) { unimplemented!() }
/// `value.split(',')`, each part a path
pub uninterp spec fn parts(t: Seq<char>) -> Seq<PathBuf>;
#[verifier::external_body]
fn parts_of(s: &String) -> (r: Vec<PathBuf>) ensures r@ == parts(s@) { unimplemented!() }
#[verifier::external_body]
fn has_comma(s: &String) -> (r: bool) ensures r == s@.contains(',') { unimplemented!() }
/// stands for `HashMap<String, String>`
#[verifier::external_body]
pub struct TextMap { e: u8 }
impl TextMap {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, Seq<char>>;
    #[verifier::external_body]
    fn new() -> (r: TextMap) ensures r@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: String, v: String) ensures final(self)@ == old(self)@.insert(k@, v@) { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &str) -> (r: Option<&String>) ensures r is Some <==> self@.contains_key(k@), r is Some ==> (r->0)@ == self@[k@] { unimplemented!() }
}
type TableQuery = TextMap;
type Directions = EnumSet<Direction>;
/// `str::parse::<u16>`
pub uninterp spec fn number(t: Seq<char>) -> Option<u16>;
#[verifier::external_body]
fn parse_u16(s: &String) -> (r: Result<u16, ParseIntError>) ensures (match number(s@) { Some(n) => r == Ok::<u16, ParseIntError>(n), None => r is Err }) { unimplemented!() }
/// escapes resolved (escape.vs)
pub uninterp spec fn plain(t: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body]
fn unescaped(s: &String) -> (r: Result<String, EscapeError>) ensures (match plain(s@) { Some(t) => r is Ok && (r->Ok_0)@ == t, None => r is Err }) { unimplemented!() }
@type translator/options.rs TranslationMode attr=derive(PartialEq,Eq,Structural,Clone,Copy)
@type translator/options.rs TranslationModes derive=
@fn translator/options.rs TranslationModes::empty ret=r
@spec
    ensures r.0@ == Set::<TranslationMode>::empty(),
@fn translator/options.rs TranslationModes::insert ret=r
@spec
    ensures final(self).0@ == old(self).0@.insert(value), r == !old(self).0@.contains(value),
@raw
use std::ops::Range;
@type emphasis.rs EmphasisSpan derive=
@fn emphasis.rs EmphasisSpan::new ret=r
@sig fn new(class: String, range: std::ops::Range<usize>) -> (r: Self)
@subst class . into ( ) =>> class
@spec
    ensures r.class@ == class@, r.range == range,
@type test.rs TestMode attr=derive(PartialEq,Eq,Structural,Clone,Copy)
@type test.rs CursorPosition derive=
@type test.rs ExpectedFailure derive=
@type test.rs Test derive=
@type test.rs Display derive=
@type test.rs Table derive=
@raw
#[verifier::external_body]
pub struct TestResult { e: u8 }
// ---- what a document says ----
pub enum XFail { Simple(bool), Reason(Seq<char>), Direction(Set<Direction>) }
pub struct Span { class: Seq<char>, from: int, to: int }
pub struct GTest {
    input: Seq<char>, expected: Seq<char>, xfail: XFail, emphasis: Seq<Span>, expected_emphasis: Seq<Span>, input_pos: Seq<u16>, output_pos: Seq<u16>,
    cursor_pos: Option<CursorPosition>, modes: Set<TranslationMode>, max_output_length: Option<u16>, real_input_length: Option<u16>,
}
pub enum GDisplay { Simple(PathBuf), List(Seq<PathBuf>), Inline(Seq<char>) }
pub enum GTable { Simple(PathBuf), Query(Map<Seq<char>, Seq<char>>), List(Seq<PathBuf>), Inline(Seq<char>) }
spec fn xf(x: ExpectedFailure) -> XFail { match x { ExpectedFailure::Simple(b) => XFail::Simple(b), ExpectedFailure::Reason(t) => XFail::Reason(t@), ExpectedFailure::Direction(d) => XFail::Direction(d@) } }
spec fn sp(s: EmphasisSpan) -> Span { Span { class: s.class@, from: s.range.start as int, to: s.range.end as int } }
spec fn sps(v: Seq<EmphasisSpan>) -> Seq<Span> { v.map_values(|s: EmphasisSpan| sp(s)) }
spec fn te(t: Test) -> GTest {
    GTest { input: t.input@, expected: t.expected@, xfail: xf(t.xfail), emphasis: sps(t.emphasis@), expected_emphasis: sps(t.expected_emphasis@), input_pos: t.input_pos@,
        output_pos: t.output_pos@, cursor_pos: t.cursor_pos, modes: t.modes.0@, max_output_length: t.max_output_length, real_input_length: t.real_input_length }
}
spec fn tes(v: Seq<Test>) -> Seq<GTest> { v.map_values(|t: Test| te(t)) }
spec fn di(d: Display) -> GDisplay { match d { Display::Simple(p) => GDisplay::Simple(p), Display::List(v) => GDisplay::List(v@), Display::Inline(t) => GDisplay::Inline(t@) } }
spec fn ta(t: Table) -> GTable { match t { Table::Simple(p) => GTable::Simple(p), Table::Query(q) => GTable::Query(q@), Table::List(v) => GTable::List(v@), Table::Inline(t) => GTable::Inline(t@) } }
spec fn tas(v: Seq<Table>) -> Seq<GTable> { v.map_values(|t: Table| ta(t)) }
spec fn dio(d: Option<Display>) -> Option<GDisplay> { match d { Some(d) => Some(di(d)), None => None } }
proof fn push_views()
    ensures
        forall|v: Seq<EmphasisSpan>, s: EmphasisSpan| #[trigger] sps(v.push(s)) == sps(v).push(sp(s)),
        forall|v: Seq<Test>, s: Test| #[trigger] tes(v.push(s)) == tes(v).push(te(s)),
        forall|v: Seq<Table>, s: Table| #[trigger] tas(v.push(s)) == tas(v).push(ta(s)),
        sps(seq![]) == Seq::<Span>::empty(), tes(seq![]) == Seq::<GTest>::empty(), tas(seq![]) == Seq::<GTable>::empty(),
{
    assert forall|v: Seq<EmphasisSpan>, s: EmphasisSpan| #[trigger] sps(v.push(s)) == sps(v).push(sp(s)) by { assert(sps(v.push(s)) =~= sps(v).push(sp(s))); }
    assert forall|v: Seq<Test>, s: Test| #[trigger] tes(v.push(s)) == tes(v).push(te(s)) by { assert(tes(v.push(s)) =~= tes(v).push(te(s))); }
    assert forall|v: Seq<Table>, s: Table| #[trigger] tas(v.push(s)) == tas(v).push(ta(s)) by { assert(tas(v.push(s)) =~= tas(v).push(ta(s))); }
    assert(sps(seq![]) =~= Seq::<Span>::empty()); assert(tes(seq![]) =~= Seq::<GTest>::empty()); assert(tas(seq![]) =~= Seq::<GTable>::empty());
}

// ---- the grammar: what a sequence of events reads as, and what is left ----
spec fn text_next(s: Toks) -> bool { s.len() > 0 && s[0] is Text }
spec fn text(s: Toks) -> Option<(Seq<char>, Toks)> { if text_next(s) { Some((s[0]->Text_0, s.skip(1))) } else { None } }
spec fn eat(s: Toks, t: Tok) -> Option<Toks> { if s.len() > 0 && s[0] == t { Some(s.skip(1)) } else { None } }
spec fn x_value(t: Seq<char>) -> XFail {
    if t == "off"@ || t == "false"@ { XFail::Simple(false) } else if t == "on"@ || t == "true"@ { XFail::Simple(true) } else { XFail::Reason(t) }
}
spec fn x_set(x: XFail) -> bool { match x { XFail::Simple(b) => b, XFail::Reason(_) => true, _ => false } }
/// direction: value pairs up to the end of the mapping
spec fn x_pairs(s: Toks, d: Set<Direction>) -> Option<(Set<Direction>, Toks)> decreases s.len() {
    if text_next(s) {
        let k = s[0]->Text_0;
        if !text_next(s.skip(1)) { None } else {
            let set = x_set(x_value(s[1]->Text_0));
            if k == "forward"@ { x_pairs(s.skip(2), if set { d.insert(Direction::Forward) } else { d }) }
            else if k == "backward"@ { x_pairs(s.skip(2), if set { d.insert(Direction::Backward) } else { d }) }
            else { None }
        }
    } else { match eat(s, Tok::MapEnd) { Some(q) => Some((d, q)), None => None } }
}
spec fn x_map(s: Toks) -> Option<(Set<Direction>, Toks)> { match eat(s, Tok::MapStart) { Some(q) => x_pairs(q, Set::empty()), None => None } }
spec fn x_fail(s: Toks) -> Option<(XFail, Toks)> {
    if s.len() > 0 && s[0] is MapStart { match x_map(s) { Some((d, q)) => Some((XFail::Direction(d), q)), None => None } }
    else { match text(s) { Some((t, q)) => Some((x_value(t), q)), None => None } }
}
/// the end of the stretch of `+` that runs on at i
spec fn stretch(m: Seq<char>, i: int) -> int decreases m.len() - i { if 0 <= i < m.len() && m[i] == '+' { stretch(m, i + 1) } else { i } }
proof fn stretch_grows(m: Seq<char>, i: int) ensures stretch(m, i) >= i, i <= m.len() ==> stretch(m, i) <= m.len() decreases m.len() - i { if 0 <= i < m.len() && m[i] == '+' { stretch_grows(m, i + 1); } }
/// the maximal stretches of `+` in a mask from i on
spec fn stretches(class: Seq<char>, m: Seq<char>, i: int) -> Seq<Span> decreases m.len() - i {
    if i < 0 || i >= m.len() { seq![] }
    else if m[i] != '+' { stretches(class, m, i + 1) }
    else if stretch(m, i) <= i || stretch(m, i) > m.len() { seq![] }
    else { seq![Span { class, from: i, to: stretch(m, i) }] + stretches(class, m, stretch(m, i)) }
}
/// class: mask pairs up to the end of the mapping
spec fn masks(s: Toks, v: Seq<Span>) -> Option<(Seq<Span>, Toks)> decreases s.len() {
    if text_next(s) {
        if text_next(s.skip(1)) { masks(s.skip(2), v + stretches(s[0]->Text_0, s[1]->Text_0, 0)) } else { None }
    } else { match eat(s, Tok::MapEnd) { Some(q) => Some((v, q)), None => None } }
}
spec fn emph(s: Toks) -> Option<(Seq<Span>, Toks)> { match eat(s, Tok::MapStart) { Some(q) => masks(q, seq![]), None => None } }
spec fn num(s: Toks) -> Option<(u16, Toks)> { match text(s) { Some((t, q)) => match number(t) { Some(n) => Some((n, q)), None => None }, None => None } }
spec fn nums(s: Toks, v: Seq<u16>) -> Option<(Seq<u16>, Toks)> decreases s.len() {
    if text_next(s) { match number(s[0]->Text_0) { Some(n) => nums(s.skip(1), v.push(n)), None => None } }
    else { match eat(s, Tok::SeqEnd) { Some(q) => Some((v, q)), None => None } }
}
spec fn positions(s: Toks) -> Option<(Seq<u16>, Toks)> { match eat(s, Tok::SeqStart) { Some(q) => nums(q, seq![]), None => None } }
spec fn cursor(s: Toks) -> Option<(CursorPosition, Toks)> {
    match eat(s, Tok::SeqStart) {
        Some(q) => match num(q) { Some((a, q)) => match num(q) { Some((b, q)) => match eat(q, Tok::SeqEnd) { Some(q) => Some((CursorPosition::Tuple(a, b), q)), None => None }, None => None }, None => None },
        None => match num(s) { Some((a, q)) => Some((CursorPosition::Single(a), q)), None => None },
    }
}
spec fn mode_named(t: Seq<char>) -> Option<TranslationMode> {
    if t == "noContractions"@ { Some(TranslationMode::NoContractions) } else if t == "compbrlAtCursor"@ { Some(TranslationMode::CompbrlAtCursor) }
    else if t == "dotsIO"@ { Some(TranslationMode::DotsIo) } else if t == "compbrlLeftCursor"@ { Some(TranslationMode::CompbrlLeftCursor) }
    else if t == "ucBrl"@ { Some(TranslationMode::UcBrl) } else if t == "noUndefined"@ { Some(TranslationMode::NoUndefined) }
    else if t == "partialTrans"@ { Some(TranslationMode::PartialTrans) } else { None }
}
spec fn mode_list(s: Toks, v: Set<TranslationMode>) -> Option<(Set<TranslationMode>, Toks)> decreases s.len() {
    if text_next(s) { match mode_named(s[0]->Text_0) { Some(n) => mode_list(s.skip(1), v.insert(n)), None => None } }
    else { match eat(s, Tok::SeqEnd) { Some(q) => Some((v, q)), None => None } }
}
spec fn modes(s: Toks) -> Option<(Set<TranslationMode>, Toks)> { match eat(s, Tok::SeqStart) { Some(q) => mode_list(q, Set::empty()), None => None } }
/// one option of a test
spec fn option(s: Toks, o: GTest) -> Option<(GTest, Toks)> {
    match text(s) {
        None => None,
        Some((k, q)) =>
            if k == "xfail"@ { match x_fail(q) { Some((v, q)) => Some((GTest { xfail: v, ..o }, q)), None => None } }
            else if k == "typeform"@ { match emph(q) { Some((v, q)) => Some((GTest { emphasis: v, ..o }, q)), None => None } }
            else if k == "expected_typeform"@ { match emph(q) { Some((v, q)) => Some((GTest { expected_emphasis: v, ..o }, q)), None => None } }
            else if k == "inputPos"@ { match positions(q) { Some((v, q)) => Some((GTest { input_pos: v, ..o }, q)), None => None } }
            else if k == "outputPos"@ { match positions(q) { Some((v, q)) => Some((GTest { output_pos: v, ..o }, q)), None => None } }
            else if k == "cursorPos"@ { match cursor(q) { Some((v, q)) => Some((GTest { cursor_pos: Some(v), ..o }, q)), None => None } }
            else if k == "mode"@ { match modes(q) { Some((v, q)) => Some((GTest { modes: v, ..o }, q)), None => None } }
            else if k == "maxOutputLength"@ { match num(q) { Some((v, q)) => Some((GTest { max_output_length: Some(v), ..o }, q)), None => None } }
            else if k == "realInputLength"@ { match num(q) { Some((v, q)) => Some((GTest { real_input_length: Some(v), ..o }, q)), None => None } }
            else { None },
    }
}
spec fn options(s: Toks, o: GTest) -> Option<(GTest, Toks)> decreases s.len() {
    if text_next(s) { match option(s, o) { Some((o, q)) => if q.len() < s.len() { options(q, o) } else { None }, None => None } }
    else { match eat(s, Tok::MapEnd) { Some(q) => Some((o, q)), None => None } }
}
spec fn blank(input: Seq<char>, expected: Seq<char>) -> GTest {
    GTest { input, expected, xfail: XFail::Simple(false), emphasis: seq![], expected_emphasis: seq![], input_pos: seq![], output_pos: seq![], cursor_pos: None,
        modes: Set::empty(), max_output_length: None, real_input_length: None }
}
spec fn plain_text(s: Toks) -> Option<(Seq<char>, Toks)> { match text(s) { Some((t, q)) => match plain(t) { Some(p) => Some((p, q)), None => None }, None => None } }
/// input and expectation, with a description in front or not
spec fn texts(s: Toks) -> Option<(GTest, Toks)> {
    match plain_text(s) {
        Some((a, q)) => match plain_text(q) {
            Some((b, q)) => if text_next(q) { match plain_text(q) { Some((c, q)) => Some((blank(b, c), q)), None => None } } else { Some((blank(a, b), q)) },
            None => None,
        },
        None => None,
    }
}
spec fn closed(x: Option<(GTest, Toks)>) -> Option<(GTest, Toks)> { match x { Some((t, q)) => match eat(q, Tok::SeqEnd) { Some(q) => Some((t, q)), None => None }, None => None } }
spec fn optional(s: Toks, o: GTest) -> Option<(GTest, Toks)> { match eat(s, Tok::MapStart) { Some(q) => options(q, o), None => Some((o, s)) } }
spec fn one_test(s: Toks) -> Option<(GTest, Toks)> {
    match eat(s, Tok::SeqStart) { Some(q) => match texts(q) { Some((t, q)) => closed(optional(q, t)), None => None }, None => None }
}
spec fn test_list(s: Toks, v: Seq<GTest>) -> Option<(Seq<GTest>, Toks)> decreases s.len() {
    if s.len() > 0 && s[0] is SeqStart { match one_test(s) { Some((t, q)) => if q.len() < s.len() { test_list(q, v.push(t)) } else { None }, None => None } }
    else { match eat(s, Tok::SeqEnd) { Some(q) => Some((v, q)), None => None } }
}
spec fn all_tests(s: Toks) -> Option<(Seq<GTest>, Toks)> { match eat(s, Tok::SeqStart) { Some(q) => test_list(q, seq![]), None => None } }
spec fn file_list(s: Toks, v: Seq<PathBuf>) -> Option<(Seq<PathBuf>, Toks)> decreases s.len() {
    if text_next(s) { file_list(s.skip(1), v.push(path(s[0]->Text_0))) } else { match eat(s, Tok::SeqEnd) { Some(q) => Some((v, q)), None => None } }
}
spec fn files(s: Toks) -> Option<(Seq<PathBuf>, Toks)> { match eat(s, Tok::SeqStart) { Some(q) => file_list(q, seq![]), None => None } }
spec fn query_pairs(s: Toks, m: Map<Seq<char>, Seq<char>>) -> Option<(Map<Seq<char>, Seq<char>>, Toks)> decreases s.len() {
    if text_next(s) { if text_next(s.skip(1)) { query_pairs(s.skip(2), m.insert(s[0]->Text_0, s[1]->Text_0)) } else { None } }
    else { match eat(s, Tok::MapEnd) { Some(q) => Some((m, q)), None => None } }
}
spec fn query(s: Toks) -> Option<(Map<Seq<char>, Seq<char>>, Toks)> { match eat(s, Tok::MapStart) { Some(q) => query_pairs(q, Map::empty()), None => None } }
spec fn a_display(s: Toks) -> Option<(GDisplay, Toks)> {
    if s.len() > 0 && s[0] is SeqStart { match files(s) { Some((v, q)) => Some((GDisplay::List(v), q)), None => None } }
    else { match text(s) {
        Some((t, q)) => Some((if s[0]->Text_1 { GDisplay::Inline(t) } else if t.contains(',') { GDisplay::List(parts(t)) } else { GDisplay::Simple(path(t)) }, q)),
        None => None,
    } }
}
spec fn a_table(s: Toks) -> Option<(GTable, Toks)> {
    if s.len() > 0 && s[0] is MapStart { match query(s) { Some((m, q)) => Some((if m.contains_key("__assert-match"@) { GTable::Simple(path(m["__assert-match"@])) } else { GTable::Query(m) }, q)), None => None } }
    else if s.len() > 0 && s[0] is SeqStart { match files(s) { Some((v, q)) => Some((GTable::List(v), q)), None => None } }
    else { match text(s) { Some((t, q)) => Some((if s[0]->Text_1 { GTable::Inline(t) } else { GTable::Simple(path(t)) }, q)), None => None } }
}
spec fn test_mode(t: Seq<char>) -> Option<TestMode> {
    if t == "forward"@ { Some(TestMode::Forward) } else if t == "backward"@ { Some(TestMode::Backward) } else if t == "bothDirections"@ { Some(TestMode::BothDirections) }
    else if t == "display"@ { Some(TestMode::Display) } else if t == "hyphenate"@ { Some(TestMode::Hyphenate) } else if t == "hyphenateBraille"@ { Some(TestMode::HyphenateBraille) } else { None }
}
spec fn mode_flag(s: Toks) -> Option<(TestMode, Toks)> {
    match eat(s, Tok::MapStart) {
        Some(q) => match text(q) {
            Some((k, q)) => if k != "testmode"@ { None } else { match text(q) {
                Some((m, q)) => match test_mode(m) { Some(m) => match eat(q, Tok::MapEnd) { Some(q) => Some((m, q)), None => None }, None => None },
                None => None,
            } },
            None => None,
        },
        None => None,
    }
}
/// the verdicts of a group of tests (verdict.vs); None: errors in a table
pub uninterp spec fn suite(d: Option<GDisplay>, t: Seq<GTable>, m: TestMode, ts: Seq<GTest>) -> Option<Seq<TestResult>>;
/// `TestMatrix::new(display, tables, mode, tests).check()`
#[verifier::external_body]
fn run_suite(d: &Option<Display>, t: &Vec<Table>, m: &TestMode, ts: &Vec<Test>) -> (r: Result<Vec<TestResult>, TestError>)
    ensures (match suite(dio(*d), tas(t@), *m, tes(ts@)) { Some(v) => r is Ok && (r->Ok_0)@ == v, None => r is Err }),
{ unimplemented!() }
#[verifier::external_body]
fn vec_extend<T>(v: &mut Vec<T>, w: Vec<T>) ensures final(v)@ == old(v)@ + w@ { v.extend(w) }
/// the settings in force
pub struct Settings { display: Option<GDisplay>, tables: Seq<GTable>, mode: TestMode, after_table: bool }
/// one entry of the document: it changes a setting or adds the verdicts of its tests
spec fn entry(s: Toks, c: Settings, v: Seq<TestResult>) -> Option<(Settings, Seq<TestResult>, Toks)> {
    match text(s) {
        None => None,
        Some((k, q)) =>
            if k == "display"@ { match a_display(q) { Some((d, q)) => Some((Settings { display: Some(d), after_table: false, ..c }, v, q)), None => None } }
            else if k == "table"@ { match a_table(q) { Some((t, q)) => Some((Settings { tables: if c.after_table { c.tables.push(t) } else { seq![t] }, after_table: true, ..c }, v, q)), None => None } }
            else if k == "flags"@ { match mode_flag(q) { Some((m, q)) => Some((Settings { mode: m, after_table: false, ..c }, v, q)), None => None } }
            else if k == "tests"@ { match all_tests(q) {
                Some((ts, q)) => match suite(c.display, c.tables, c.mode, ts) { Some(more) => Some((Settings { after_table: false, ..c }, v + more, q)), None => None },
                None => None,
            } }
            else { None },
    }
}
spec fn entries(s: Toks, c: Settings, v: Seq<TestResult>) -> Option<(Seq<TestResult>, Toks)> decreases s.len() {
    if text_next(s) { match entry(s, c, v) { Some((c, v, q)) => if q.len() < s.len() { entries(q, c, v) } else { None }, None => None } }
    else { match eat(s, Tok::MapEnd) { Some(q) => match eat(q, Tok::DocEnd) { Some(q) => match eat(q, Tok::StreamEnd) { Some(q) => Some((v, q)), None => None }, None => None }, None => None } }
}
spec fn start() -> Settings { Settings { display: None, tables: seq![], mode: TestMode::Forward, after_table: false } }
spec fn document(s: Toks) -> Option<(Seq<TestResult>, Toks)> {
    match eat(s, Tok::StreamStart(true)) { Some(q) => match eat(q, Tok::DocStart) { Some(q) => match eat(q, Tok::MapStart) { Some(q) => entries(q, start(), seq![]), None => None }, None => None }, None => None }
}
proof fn skips(s: Toks) ensures s.len() >= 2 ==> s.skip(1).skip(1) =~= s.skip(2) && s.skip(1)[0] == s[1] {}
spec fn query_spec(s: Toks) -> Option<(Map<Seq<char>, Seq<char>>, Toks)> { query(s) }
spec fn modes_spec(s: Toks) -> Option<(Set<TranslationMode>, Toks)> { modes(s) }
spec fn xval(s: Toks) -> Option<(XFail, Toks)> { match text(s) { Some((t, q)) => Some((x_value(t), q)), None => None } }
spec fn mode_value(s: Toks) -> Option<(TranslationMode, Toks)> { match text(s) { Some((t, q)) => match mode_named(t) { Some(m) => Some((m, q)), None => None }, None => None } }
#[verifier::external_body]
fn str_is(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
fn string_of(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
@type yaml.rs YAMLParser retype=events:Peekable<ParserIter<'a>>=>Events<'a>
@fn yaml.rs YAMLParser::scalar ret=r
@spec
    ensures (match text(old(self).events@) { Some((v, q)) => r is Ok && (r->Ok_0)@ == v && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@fn yaml.rs YAMLParser::mapping_start ret=r
@spec
    ensures (match eat(old(self).events@, Tok::MapStart) { Some(q) => r is Ok && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@fn yaml.rs YAMLParser::mapping_end ret=r
@spec
    ensures (match eat(old(self).events@, Tok::MapEnd) { Some(q) => r is Ok && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@fn yaml.rs YAMLParser::sequence_start ret=r
@spec
    ensures (match eat(old(self).events@, Tok::SeqStart) { Some(q) => r is Ok && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@fn yaml.rs YAMLParser::sequence_end ret=r
@spec
    ensures (match eat(old(self).events@, Tok::SeqEnd) { Some(q) => r is Ok && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@fn yaml.rs YAMLParser::stream_start ret=r
@subst encoding == Encoding :: Utf8 =>> same_encoding ( & encoding , Encoding :: Utf8 )
@spec
    ensures (match eat(old(self).events@, Tok::StreamStart(true)) { Some(q) => r is Ok && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@fn yaml.rs YAMLParser::stream_end ret=r
@spec
    ensures (match eat(old(self).events@, Tok::StreamEnd) { Some(q) => r is Ok && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@fn yaml.rs YAMLParser::document_start ret=r
@spec
    ensures (match eat(old(self).events@, Tok::DocStart) { Some(q) => r is Ok && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@fn yaml.rs YAMLParser::document_end ret=r
@spec
    ensures (match eat(old(self).events@, Tok::DocEnd) { Some(q) => r is Ok && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@fn yaml.rs YAMLParser::table_list ret=r loops=1
@subst table . into ( ) =>> path_of ( table )
@spec
    ensures (match files(old(self).events@) { Some((v, q)) => r is Ok && (r->Ok_0)@ == v && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@loop 0
    invariant files(old(self).events@) == file_list(self.events@, tables@), self.events@.len() < old(self).events@.len(),
    ensures !text_next(self.events@),
    decreases self.events@.len(),
@fn yaml.rs YAMLParser::table_query ret=r loops=1
@subst query : HashMap < String , String > = HashMap :: new ( ) =>> query = TextMap :: new ( )
@spec
    ensures (match query(old(self).events@) { Some((v, q)) => r is Ok && (r->Ok_0)@ == v && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@loop 0
    invariant query_spec(old(self).events@) == query_pairs(self.events@, query@), self.events@.len() < old(self).events@.len(),
    ensures !text_next(self.events@),
    decreases self.events@.len(),
@loop 0 start
    proof { skips(self.events@); }
@fn yaml.rs YAMLParser::display_table ret=r
@subst value . contains ( ',' ) =>> has_comma ( & value )
@subst value . split ( ',' ) . map ( | s | s . into ( ) ) . collect ( ) =>> parts_of ( & value )
@subst value . into ( ) =>> path_of ( value )
@spec
    ensures (match a_display(old(self).events@) { Some((v, q)) => r is Ok && di(r->Ok_0) == v && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@fn yaml.rs YAMLParser::table ret=r
@subst query . get ( "__assert-match" ) . unwrap ( ) . into ( ) =>> path_of_ref ( query . get ( "__assert-match" ) . unwrap ( ) )
@subst self . scalar ( ) ? . into ( ) =>> path_of ( self . scalar ( ) ? )
@spec
    ensures (match a_table(old(self).events@) { Some((v, q)) => r is Ok && ta(r->Ok_0) == v && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@fn yaml.rs YAMLParser::flags ret=r strmatch
@subst value != "testmode" =>> ! str_is ( value . as_str ( ) , "testmode" )
@subst & * mode =>> mode . as_str ( )
@spec
    ensures (match mode_flag(old(self).events@) { Some((v, q)) => r is Ok && r->Ok_0 == v && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@fn yaml.rs YAMLParser::xfail_value ret=r strmatch
@subst & * value =>> value . as_str ( )
@spec
    ensures (match xval(old(self).events@) { Some((v, q)) => r is Ok && xf(r->Ok_0) == v && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@fn yaml.rs YAMLParser::xfail_mapping_value ret=r loops=1 strmatch
@subst & * direction =>> direction . as_str ( )
@spec
    ensures (match x_map(old(self).events@) { Some((v, q)) => r is Ok && (r->Ok_0)@ == v && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@loop 0
    invariant x_map(old(self).events@) == x_pairs(self.events@, directions@), self.events@.len() < old(self).events@.len(),
    ensures !text_next(self.events@),
    decreases self.events@.len(),
@loop 0 start
    proof { skips(self.events@); }
@fn yaml.rs YAMLParser::xfail ret=r
@spec
    ensures (match x_fail(old(self).events@) { Some((v, q)) => r is Ok && xf(r->Ok_0) == v && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@fn yaml.rs YAMLParser::emphasis_spans_value ret=r loops=2
@spec
    ensures (match emph(old(self).events@) { Some((v, q)) => r is Ok && sps((r->Ok_0)@) == v && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@loop 0
    invariant emph(old(self).events@) == masks(self.events@, sps(spans@)), self.events@.len() < old(self).events@.len(),
    ensures !text_next(self.events@),
    decreases self.events@.len(),
@loop 0 pre
    proof { push_views(); }
@loop 0 start
    let ghost before = sps(spans@);
    let ghost all = self.events@;
    proof { skips(self.events@); push_views(); }
@loop 0 end
    proof { assert(stretches(class@, mask@, mask@.len() as int) =~= seq![]); assert(sps(spans@) =~= before + stretches(class@, mask@, 0)); }
@loop 1
    invariant __i0 <= __s0@.len(), __s0@ == mask@,
        match run_start {
            None => sps(spans@) + stretches(class@, mask@, __i0 as int) == before + stretches(class@, mask@, 0),
            Some(b) => b < __i0 && mask@[b as int] == '+' && stretch(mask@, b as int) == stretch(mask@, __i0 as int)
                && sps(spans@) + stretches(class@, mask@, b as int) == before + stretches(class@, mask@, 0),
        },
    decreases __s0@.len() - __i0,
@loop 1 start
    let ghost held = sps(spans@);
    proof {
        push_views(); stretch_grows(mask@, __i0 as int);
        if run_start is Some {
            let b = run_start->0 as int;
            let one = seq![Span { class: class@, from: b, to: __i0 as int }];
            if mask@[__i0 as int] != '+' { assert(held + (one + stretches(class@, mask@, __i0 as int)) =~= held.push(one[0]) + stretches(class@, mask@, __i0 as int)); }
        }
    }
@loop 1 post
    proof {
        push_views();
        if run_start is Some {
            let one = seq![Span { class: class@, from: run_start->0 as int, to: mask@.len() as int }];
            assert(stretches(class@, mask@, mask@.len() as int) =~= seq![]);
            assert(sps(spans@) + (one + stretches(class@, mask@, mask@.len() as int)) =~= sps(spans@).push(one[0]));
        }
    }
@fn yaml.rs YAMLParser::u16_value ret=r
@subst value . parse :: < u16 > ( ) =>> parse_u16 ( & value )
@spec
    ensures (match num(old(self).events@) { Some((v, q)) => r is Ok && r->Ok_0 == v && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@fn yaml.rs YAMLParser::pos_values ret=r loops=1
@spec
    ensures (match positions(old(self).events@) { Some((v, q)) => r is Ok && (r->Ok_0)@ == v && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@loop 0
    invariant positions(old(self).events@) == nums(self.events@, values@), self.events@.len() < old(self).events@.len(),
    ensures !text_next(self.events@),
    decreases self.events@.len(),
@fn yaml.rs YAMLParser::cursor_position ret=r
@spec
    ensures (match cursor(old(self).events@) { Some((v, q)) => r is Ok && r->Ok_0 == v && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@fn yaml.rs YAMLParser::translation_mode_value ret=r strmatch
@subst & * value =>> value . as_str ( )
@subst v . to_string ( ) =>> string_of ( v )
@spec
    ensures (match mode_value(old(self).events@) { Some((v, q)) => r is Ok && r->Ok_0 == v && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@fn yaml.rs YAMLParser::translation_modes ret=r loops=1
@spec
    ensures (match modes(old(self).events@) { Some((v, q)) => r is Ok && (r->Ok_0).0@ == v && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@loop 0
    invariant modes_spec(old(self).events@) == mode_list(self.events@, modes.0@), self.events@.len() < old(self).events@.len(),
    ensures !text_next(self.events@),
    decreases self.events@.len(),
@fn test.rs Test::new ret=r
@spec
    ensures te(r) == (GTest { input: input@, expected: expected@, xfail: xf(xfail), emphasis: sps(emphasis@), expected_emphasis: sps(expected_emphasis@), input_pos: input_pos@,
        output_pos: output_pos@, cursor_pos: cursor_pos, modes: modes.0@, max_output_length: max_output_length, real_input_length: real_input_length }),
@fn yaml.rs YAMLParser::test ret=r loops=1 strmatch
@subst unescape ( & self . scalar ( ) ? , EscapingContext :: Default ) =>> unescaped ( & self . scalar ( ) ? )
@subst & * value =>> value . as_str ( )
@spec
    ensures (match one_test(old(self).events@) { Some((v, q)) => r is Ok && te(r->Ok_0) == v && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@before if let Some ( Ok ( Event :: MappingStart { .. } ) )
    proof { push_views(); }
    let ghost here = self.events@;
    let ghost first = GTest { input: input@, expected: expected@, xfail: xf(xfail), emphasis: sps(emphasis@), expected_emphasis: sps(expected_emphasis@), input_pos: input_pos@,
        output_pos: output_pos@, cursor_pos: cursor_pos, modes: modes.0@, max_output_length: max_output_length, real_input_length: real_input_length };
    assert(first == blank(input@, expected@));
    assert(one_test(old(self).events@) == closed(optional(here, first)));
@loop 0
    invariant here.len() < old(self).events@.len(), self.events@.len() < here.len(),
        one_test(old(self).events@) == closed(options(self.events@, GTest { input: input@, expected: expected@, xfail: xf(xfail), emphasis: sps(emphasis@), expected_emphasis: sps(expected_emphasis@),
            input_pos: input_pos@, output_pos: output_pos@, cursor_pos: cursor_pos, modes: modes.0@, max_output_length: max_output_length, real_input_length: real_input_length })),
    ensures !text_next(self.events@),
    decreases self.events@.len(),
@fn yaml.rs YAMLParser::tests ret=r loops=1
@spec
    ensures (match all_tests(old(self).events@) { Some((v, q)) => r is Ok && tes((r->Ok_0)@) == v && final(self).events@ == q && q.len() < old(self).events@.len(), None => r is Err }),
@loop 0 pre
    proof { push_views(); }
@loop 0
    invariant self.events@.len() < old(self).events@.len(), all_tests(old(self).events@) == test_list(self.events@, tes(tests@)),
    ensures !(self.events@.len() > 0 && self.events@[0] is SeqStart),
    decreases self.events@.len(),
@loop 0 start
    proof { push_views(); }
@fn yaml.rs YAMLParser::yaml ret=r loops=1 strmatch
@subst & * value =>> value . as_str ( )
@subst let suite = TestMatrix :: new ( & current_display_table , & current_tables , & test_mode , & tests , ) ; =>> let more = run_suite ( & current_display_table , & current_tables , & test_mode , & tests ) ? ;
@subst results . extend ( suite . check ( ) ? ) =>> vec_extend ( & mut results , more )
@spec
    ensures (match document(old(self).events@) { Some((v, q)) => r is Ok && (r->Ok_0)@ == v && final(self).events@ == q, None => r is Err }),
@loop 0 pre
    proof { push_views(); }
@loop 0
    invariant document(old(self).events@) == entries(self.events@, Settings { display: dio(current_display_table), tables: tas(current_tables@), mode: test_mode, after_table: previous_event_was_table }, results@),
    ensures !text_next(self.events@),
    decreases self.events@.len(),
@loop 0 start
    proof { push_views(); }
