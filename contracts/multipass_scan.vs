@type parser/multipass.rs ParseError derive=
@raw
// ---- the texts that other parsers read: each is one of theirs or is not (their contract is in braille.vs) ----
#[verifier::external_body]
pub struct ParseIntError { e: u8 }
mod braille {
    use super::*;
    pub enum ParseError { InvalidBraille { character: Option<char> }, Other(u8) }
}
#[verifier::external_body]
pub struct BrailleChars { e: u8 }
/// the cells that dot digits describe (braille.vs)
pub uninterp spec fn cells_of(w: Seq<char>) -> Option<BrailleChars>;
impl BrailleChars {
    #[verifier::external_body]
    fn try_from(s: &str) -> (r: Result<BrailleChars, braille::ParseError>) ensures r is Ok <==> cells_of(s@) is Some, r is Ok ==> Some(r->Ok_0) == cells_of(s@) { unimplemented!() }
}
impl From<braille::ParseError> for ParseError { #[verifier::external_body] fn from(e: braille::ParseError) -> ParseError { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<braille::ParseError> for ParseError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: braille::ParseError) -> ParseError { arbitrary() }
}
impl From<ParseIntError> for ParseError { #[verifier::external_body] fn from(e: ParseIntError) -> ParseError { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<ParseIntError> for ParseError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: ParseIntError) -> ParseError { arbitrary() }
}
// ---- trusted: std ----
spec fn digit(c: char) -> bool { '0' <= c <= '9' }
spec fn alpha(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
#[verifier::external_body]
fn ascii_digit(c: &char) -> (r: bool) ensures r == digit(*c) { c.is_ascii_digit() }
#[verifier::external_body]
fn ascii_alphabetic(c: &char) -> (r: bool) ensures r == alpha(*c) { c.is_ascii_alphabetic() }
/// the number that decimal digits write
spec fn value(t: Seq<char>) -> nat decreases t.len() { if t.len() == 0 { 0 } else { value(t.drop_last()) * 10 + (t.last() as u32 - '0' as u32) as nat } }
spec fn decimal(t: Seq<char>) -> Option<u8> { if t.len() > 0 && value(t) <= 255 { Some(value(t) as u8) } else { None } }
#[verifier::external_body]
fn parse_u8(s: &String) -> (r: Result<u8, ParseIntError>)
    requires forall|i: int| 0 <= i < s@.len() ==> digit(#[trigger] s@[i]),
    ensures r is Ok <==> decimal(s@) is Some, r is Ok ==> Some(r->Ok_0) == decimal(s@)
{ unimplemented!() }
spec fn hexdigit(c: char) -> Option<nat> {
    if '0' <= c <= '9' { Some((c as u32 - '0' as u32) as nat) } else if 'a' <= c <= 'f' { Some((c as u32 - 'a' as u32 + 10) as nat) }
    else if 'A' <= c <= 'F' { Some((c as u32 - 'A' as u32 + 10) as nat) } else { None }
}
spec fn hexnum(t: Seq<char>) -> Option<nat> decreases t.len() {
    if t.len() == 0 { Some(0) } else {
        match (hexnum(t.drop_last()), hexdigit(t.last())) { (Some(a), Some(d)) => Some(a * 16 + d), _ => None }
    }
}
/// what `from_str_radix(_, 16)` reads: at least one digit, one leading + is skipped
spec fn radix16(t: Seq<char>) -> Option<nat> {
    let u = if t.len() > 0 && t[0] == '+' { t.skip(1) } else { t };
    if u.len() == 0 { None } else { hexnum(u) }
}
#[verifier::external_body]
fn u32_radix16(s: &String) -> (r: Option<u32>)
    ensures r is Some <==> radix16(s@) is Some && radix16(s@)->0 <= u32::MAX, r is Some ==> r->0 == radix16(s@)->0
{ u32::from_str_radix(s, 16).ok() }
spec fn scalar(x: nat) -> bool { x < 0xD800 || 0xDFFF < x <= 0x10FFFF }
#[verifier::external_body]
fn char_from_u32(x: u32) -> (r: Option<char>)
    ensures r is Some <==> scalar(x as nat), r is Some ==> r->0 as u32 == x
{ char::from_u32(x) }

// ---- how the parts of an operand are written ----
spec fn dot(c: char) -> bool { '0' <= c <= '9' || 'a' <= c <= 'f' }
spec fn attr_char(c: char) -> bool {
    c == 'a' || c == 'd' || c == 'D' || c == 'l' || c == 'm' || c == 'p' || c == 'S' || c == 's' || c == 'U' || c == 'u' || c == 'w' || c == 'x' || c == 'y' || c == 'z'
}
/// 0: digits of numbers, 1: letters of names, 2: dots of cells, 3: attributes
spec fn of_kind(k: int, c: char) -> bool {
    if k == 0 { digit(c) } else if k == 1 { alpha(c) } else if k == 2 { dot(c) || c == '-' } else { attr_char(c) }
}
/// how many characters of that kind come first
spec fn run(o: Seq<char>, k: int) -> int decreases o.len() { if o.len() > 0 && of_kind(k, o[0]) { 1 + run(o.skip(1), k) } else { 0 } }
proof fn run_is(o: Seq<char>, k: int)
    ensures 0 <= run(o, k) <= o.len(), forall|i: int| 0 <= i < run(o, k) ==> of_kind(k, #[trigger] o[i]), run(o, k) < o.len() ==> !of_kind(k, o[run(o, k)]),
    decreases o.len()
{
    if o.len() > 0 && of_kind(k, o[0]) {
        run_is(o.skip(1), k);
        let n = run(o.skip(1), k);
        assert forall|i: int| 0 <= i < run(o, k) implies of_kind(k, #[trigger] o[i]) by { if i > 0 { assert(o.skip(1)[i - 1] == o[i]); } }
        if n < o.skip(1).len() { assert(o.skip(1)[n] == o[n + 1]); }
    }
}
/// the first d characters are of that kind, the next is not
proof fn run_end(o: Seq<char>, k: int, d: int)
    requires 0 <= d <= o.len(), forall|i: int| 0 <= i < d ==> of_kind(k, #[trigger] o[i]), d < o.len() ==> !of_kind(k, o[d]),
    ensures run(o, k) == d,
{ run_is(o, k); if run(o, k) < d { assert(of_kind(k, o[run(o, k)])); } if run(o, k) > d { assert(of_kind(k, o[d])); } }
/// d characters have been read into s
spec fn reading(o: Seq<char>, n: Seq<char>, s: Seq<char>, k: int) -> bool {
    &&& s.len() <= o.len() && n == o.skip(s.len() as int) && s == o.take(s.len() as int)
    &&& forall|i: int| 0 <= i < s.len() ==> of_kind(k, #[trigger] s[i])
}
proof fn reading_none(o: Seq<char>, k: int)
    ensures reading(o, o, Seq::<char>::empty(), k),
{ assert(o.skip(0) =~= o); assert(o.take(0) =~= Seq::<char>::empty()); }
proof fn reading_next(o: Seq<char>, n: Seq<char>, s: Seq<char>, k: int)
    requires reading(o, n, s, k), n.len() > 0, of_kind(k, n[0]),
    ensures reading(o, n.skip(1), s.push(n[0]), k),
{
    assert(n[0] == o[s.len() as int]);
    assert(o.skip(s.len() as int + 1) =~= n.skip(1));
    assert(o.take(s.len() as int + 1) =~= s.push(n[0]));
}
proof fn reading_end(o: Seq<char>, n: Seq<char>, s: Seq<char>, k: int)
    requires reading(o, n, s, k), n.len() > 0 ==> !of_kind(k, n[0]),
    ensures run(o, k) == s.len(), n == o.skip(run(o, k)), s == o.take(run(o, k)),
{
    assert forall|i: int| 0 <= i < s.len() implies of_kind(k, #[trigger] o[i]) by { assert(s[i] == o[i]); }
    run_end(o, k, s.len() as int);
}
/// a number and what follows it
spec fn number(o: Seq<char>) -> Option<(u8, Seq<char>)> { match decimal(o.take(run(o, 0))) { Some(v) => Some((v, o.skip(run(o, 0)))), None => None } }
/// the character that the hexadecimal digits of an escape stand for
spec fn hexchar(o: Seq<char>, n: int) -> Option<(char, Seq<char>)> {
    if o.len() < n { None } else { match radix16(o.take(n)) { Some(v) => if v <= u32::MAX && scalar(v) { Some((v as char, o.skip(n))) } else { None }, None => None } }
}
/// one character of a quoted text: \s is a space, \" a quotation mark, \x and \y name a character, other backslashes stand for themselves
spec fn quoted(o: Seq<char>) -> Option<(char, Seq<char>)> {
    if o.len() == 0 { None } else if o[0] != '\\' { Some((o[0], o.skip(1))) } else { escaped(o.skip(1)) }
}
/// after a backslash
spec fn escaped(o: Seq<char>) -> Option<(char, Seq<char>)> {
    if o.len() == 0 { None } else if o[0] == 's' { Some((' ', o.skip(1))) } else if o[0] == '"' { Some(('"', o.skip(1))) }
    else if o[0] == 'x' { hexchar(o.skip(1), 4) } else if o[0] == 'y' { hexchar(o.skip(1), 5) } else { Some(('\\', o)) }
}
/// a text up to the closing quotation mark, and what follows that
spec fn text(o: Seq<char>) -> Option<(Seq<char>, Seq<char>)> decreases o.len() {
    if o.len() == 0 { None } else if o[0] == '"' { Some((Seq::<char>::empty(), o.skip(1))) } else {
        match quoted(o) { Some((c, r)) => if r.len() < o.len() { match text(r) { Some((s, n)) => Some((seq![c] + s, n)), None => None } } else { None }, None => None }
    }
}
spec fn after_text(done: Seq<char>, t: Option<(Seq<char>, Seq<char>)>) -> Option<(Seq<char>, Seq<char>)> { match t { Some((s, n)) => Some((done + s, n)), None => None } }
proof fn quoted_shrinks(o: Seq<char>)
    ensures quoted(o) is Some ==> (quoted(o)->0).1.len() < o.len(),
{ }
proof fn text_step(done: Seq<char>, o: Seq<char>)
    requires o.len() > 0, o[0] != '"',
    ensures quoted(o) is None ==> after_text(done, text(o)) is None,
        quoted(o) is Some ==> (quoted(o)->0).1.len() < o.len() && after_text(done, text(o)) == after_text(done.push((quoted(o)->0).0), text((quoted(o)->0).1)),
{
    quoted_shrinks(o);
    if quoted(o) is Some {
        let (c, r) = quoted(o)->0;
        if text(r) is Some { assert(done + (seq![c] + (text(r)->0).0) =~= done.push(c) + (text(r)->0).0); }
    }
}
proof fn text_shrinks(o: Seq<char>)
    ensures text(o) is Some ==> (text(o)->0).1.len() < o.len(),
    decreases o.len()
{ if o.len() > 0 && o[0] != '"' { quoted_shrinks(o); if quoted(o) is Some { text_shrinks((quoted(o)->0).1); } } }
