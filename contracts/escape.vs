@include common.vs
@include char_stream.vs
@type parser.rs ParseError derive= keep=InvalidUnicodeLiteral,InvalidEscape
@type parser.rs EscapingContext attr=derive(PartialEq,Eq,Structural,Clone,Copy)
@raw
// ---- trusted: std ----
spec fn hexdigit(c: char) -> Option<nat> {
    if '0' <= c <= '9' { Some((c as u32 - '0' as u32) as nat) } else if 'a' <= c <= 'f' { Some((c as u32 - 'a' as u32 + 10) as nat) }
    else if 'A' <= c <= 'F' { Some((c as u32 - 'A' as u32 + 10) as nat) } else { None }
}
spec fn hexnum(t: Seq<char>) -> Option<nat> decreases t.len() {
    if t.len() == 0 { Some(0) } else {
        match (hexnum(t.drop_last()), hexdigit(t.last())) { (Some(a), Some(d)) => Some(a * 16 + d), _ => None }
    }
}
/// what `from_str_radix(_, 16)` reads: at least one digit, one leading + is skipped
spec fn radix16(t: Seq<char>) -> Option<nat> {
    let u = if t.len() > 0 && t[0] == '+' { t.skip(1) } else { t };
    if u.len() == 0 { None } else { hexnum(u) }
}
#[verifier::external_body]
fn u32_radix16(s: &str) -> (r: Result<u32, ()>)
    ensures r is Ok <==> radix16(s@) is Some && radix16(s@)->0 <= u32::MAX, r is Ok ==> r->Ok_0 == radix16(s@)->0
{ u32::from_str_radix(s, 16).map_err(|_| ()) }
#[verifier::external_body]
fn u16_radix16(s: &str) -> (r: Result<u16, ()>)
    ensures r is Ok <==> radix16(s@) is Some && radix16(s@)->0 <= u16::MAX, r is Ok ==> r->Ok_0 == radix16(s@)->0
{ u16::from_str_radix(s, 16).map_err(|_| ()) }
spec fn scalar(x: nat) -> bool { x < 0xD800 || 0xDFFF < x <= 0x10FFFF }
spec fn high(x: nat) -> bool { 0xD800 <= x < 0xDC00 }
spec fn low(x: nat) -> bool { 0xDC00 <= x < 0xE000 }
#[verifier::external_body]
fn char_from_u32(x: u32) -> (r: Option<char>)
    ensures r is Some <==> scalar(x as nat), r is Some ==> r->0 as u32 == x
{ char::from_u32(x) }
/// the first item of `char::decode_utf16([a, b])`
#[verifier::external_body]
fn decode_two(a: u16, b: u16) -> (r: Option<Result<char, ()>>)
    ensures r is Some,
        scalar(a as nat) ==> r->0 is Ok && r->0->Ok_0 as u32 == a,
        high(a as nat) && low(b as nat) ==> r->0 is Ok && r->0->Ok_0 as u32 == 0x10000 + (a - 0xD800) * 0x400 + (b - 0xDC00),
        !scalar(a as nat) && !(high(a as nat) && low(b as nat)) ==> r->0 is Err,
{ char::decode_utf16([a, b]).next().map(|r| r.map_err(|_| ())) }
#[verifier::external_body]
fn u16_of(x: u32) -> (r: Result<u16, ()>)
    ensures r is Ok <==> x <= 0xFFFF, r is Ok ==> r->Ok_0 == x
{ u16::try_from(x).map_err(|_| ()) }

proof fn short(t: Seq<char>)
    ensures t.len() <= 3 && radix16(t) is Some ==> radix16(t)->0 < 0x1000,
{
    reveal_with_fuel(hexnum, 5);
    if t.len() <= 3 && radix16(t) is Some {
        let u = if t.len() > 0 && t[0] == '+' { t.skip(1) } else { t };
        assert(u.len() <= 3);
    }
}
// ---- what an escape stands for ----
/// `\x`/`\y` with n hexadecimal digits at the start of t: the character and what is left
spec fn unicode(t: Seq<char>, n: int) -> Option<(char, Seq<char>)> {
    if t.len() < n { None } else {
        match radix16(t.take(n)) {
            None => None,
            Some(v) =>
                if scalar(v) { Some((v as char, t.skip(n))) }
                else if v > 0xFFFF { None }
                else if pair(t, n, v) { Some(((0x10000 + (v - 0xD800) * 0x400 + (radix16(t.subrange(n + 2, n + 6))->0 - 0xDC00)) as char, t.skip(n + 6))) }
                else { Some(('\u{FFFD}', t.skip(n))) },
        }
    }
}
/// a second \x escape follows and completes a surrogate pair
spec fn pair(t: Seq<char>, n: int, v: nat) -> bool {
    n == 4 && high(v) && t.len() >= n + 2 && t[n] == '\\' && t[n + 1] == 'x' && t.len() >= n + 6 && radix16(t.subrange(n + 2, n + 6)) is Some
    && low(radix16(t.subrange(n + 2, n + 6))->0)
}
spec fn simple(c: char) -> Option<char> {
    match c {
        'f' => Some('\u{C}'), 'n' => Some('\n'), 'r' => Some('\r'), 't' => Some('\t'), 's' => Some(' '), 'v' => Some('\u{B}'), 'e' => Some('\u{1B}'), '\\' => Some('\\'),
        _ => None,
    }
}
/// one character or escape at the start of t: the text it stands for and what is left
spec fn item(t: Seq<char>, m: bool) -> Option<(Seq<char>, Seq<char>)> recommends t.len() > 0 {
    if t[0] != '\\' { Some((seq![t[0]], t.skip(1))) }
    else if t.len() < 2 { None }
    else if simple(t[1]) is Some { Some((seq![simple(t[1])->0], t.skip(2))) }
    else if m && (t[1] == '(' || t[1] == ')' || t[1] == ']') { Some((seq!['\\', t[1]], t.skip(2))) }
    else if t[1] == 'x' || t[1] == 'y' {
        match unicode(t.skip(2), if t[1] == 'x' { 4 } else { 5 }) { Some((c, rest)) => Some((seq![c], rest)), None => None }
    } else { None }
}
spec fn unesc(t: Seq<char>, m: bool) -> Option<Seq<char>> decreases t.len() {
    if t.len() == 0 { Some(Seq::<char>::empty()) } else {
        match item(t, m) {
            Some((x, rest)) => if rest.len() < t.len() { match unesc(rest, m) { Some(y) => Some(x + y), None => None } } else { None },
            None => None,
        }
    }
}
/// reading on from a prefix that is already decoded
spec fn joined(done: Seq<char>, rest: Option<Seq<char>>) -> Option<Seq<char>> { match rest { Some(y) => Some(done + y), None => None } }
proof fn step(done: Seq<char>, t: Seq<char>, m: bool)
    requires t.len() > 0,
    ensures
        item(t, m) is None ==> joined(done, unesc(t, m)) is None,
        item(t, m) is Some ==> (item(t, m)->0).1.len() < t.len() && joined(done, unesc(t, m)) == joined(done + (item(t, m)->0).0, unesc((item(t, m)->0).1, m)),
{
    if item(t, m) is Some {
        let (x, rest) = item(t, m)->0;
        if unesc(rest, m) is Some { assert(done + (x + unesc(rest, m)->0) =~= (done + x) + unesc(rest, m)->0); }
    }
}
@fn parser.rs unescape_unicode loops=2 ranges collect1=String
@sig fn unescape_unicode(chars: &mut CharStream, len: u8) -> (r: Result<char, ParseError>)
@subst 0..len =>> 0..(len as usize)
@subst u32::from_str_radix(&s, 16) =>> u32_radix16(&s)
@subst u16::from_str_radix(&low, 16) =>> u16_radix16(&low)
@subst char::from_u32(value) =>> char_from_u32(value)
@subst u16::try_from(value) =>> u16_of(value)
@subst char::decode_utf16([unit, low]).next() =>> decode_two(unit, low)
@spec
    ensures
        unicode(old(chars)@, len as int) is None ==> r is Err,
        unicode(old(chars)@, len as int) is Some ==> r is Ok && r->Ok_0 == (unicode(old(chars)@, len as int)->0).0 && final(chars)@ == (unicode(old(chars)@, len as int)->0).1,
@entry
    let ghost t0 = chars@;
@loop 0
    invariant __i0 <= len, __s0 == len, t0 == old(chars)@, moved(old(chars)@, chars@), took(old(chars)@, chars@).len() == __i0, s@ == took(old(chars)@, chars@), __i0 as int + chars@.len() == old(chars)@.len(),
    decreases len - __i0,
@loop 0 pre
    proof { took_none(chars@); }
@loop 0 start
    proof { if chars@.len() > 0 { took_next(old(chars)@, chars@); } }
@loop 0 post
    proof { assert(s@ =~= t0.take(len as int)); assert(chars@ =~= t0.skip(len as int)); }
@loop 1
    invariant_except_break t0.len() >= len + 2 + __i1, lookahead@ == t0.skip(len + 2 + __i1), __acc1@ == t0.subrange(len + 2, len + 2 + __i1),
    invariant len == 4, __s1 == 4, __i1 <= 4, t0.len() >= len + 2, chars@ == t0.skip(len as int),
    ensures t0.len() >= len + 6 ==> __acc1@ == t0.subrange(len + 2, len + 6) && lookahead@ == t0.skip(len + 6),
        t0.len() < len + 6 ==> __acc1@ == t0.skip(len + 2),
    decreases 4 - __i1,
@loop 1 pre
    proof { assert(lookahead@ =~= t0.skip(len + 2)); assert(__acc1@ =~= t0.subrange(len + 2, len + 2)); }
@loop 1 start
    let ghost a1 = __acc1@; let ghost l1 = lookahead@; let ghost j1 = __i1 as int;
@loop 1 end
    proof { assert(t0.skip(len + 2 + j1).skip(1) =~= t0.skip(len + 2 + j1 + 1)); assert(__acc1@ =~= t0.subrange(len + 2, len + 2 + j1 + 1)); }
@loop 1 post
    proof { short(__acc1@); }
@fn parser.rs unescape loops=1
@subst s.chars() =>> CharStream::of(s)
@spec
    ensures
        unesc(s@, context == EscapingContext::MatchPattern) is None ==> r is Err,
        unesc(s@, context == EscapingContext::MatchPattern) is Some ==> r is Ok && r->Ok_0@ == unesc(s@, context == EscapingContext::MatchPattern)->0,
@entry
    let ghost m = context == EscapingContext::MatchPattern;
@loop 0
    invariant
        joined(new@, unesc(iter@, m)) == unesc(s@, m), m == (context == EscapingContext::MatchPattern),
        prev == iter@,
    ensures iter@.len() == 0, 
    decreases iter@.len(),
@loop 0 pre
    let ghost mut prev = iter@;
    proof { if unesc(s@, m) is Some { assert(new@ + unesc(s@, m)->0 =~= unesc(s@, m)->0); } }
@loop 0 start
    let ghost n0 = new@;
    let ghost p = prev;
    proof { step(new@, p, m); prev = iter@; if p.len() > 1 { assert(p.skip(1).skip(1) =~= p.skip(2)); } assert(n0.push(p[0]) =~= n0 + seq![p[0]]); }
@loop 0 end
    proof { prev = iter@; assert(new@ =~= n0 + (item(p, m)->0).0); }
