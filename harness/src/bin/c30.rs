//! Tests and actions of the multi-pass opcodes are read as they are written.
use louis::verif_multipass as probe;
use vharness::*;

struct P { c: Vec<char>, i: usize }
impl P {
    fn see(&self) -> char { self.c.get(self.i).copied().unwrap_or('\0') }
    fn eat(&mut self, x: char) -> Option<()> { if self.i < self.c.len() && self.c[self.i] == x { self.i += 1; Some(()) } else { None } }
    fn span(&mut self, f: impl Fn(char) -> bool) -> String { let a = self.i.min(self.c.len()); while self.i < self.c.len() && f(self.c[self.i]) { self.i += 1; } self.c[a..self.i].iter().collect() }
    fn number(&mut self) -> Option<u8> {
        let s = self.span(|c| ('0'..='9').contains(&c));
        if s.is_empty() { return None; }
        let mut v = 0u32;
        for c in s.chars() { v = (v * 10 + c as u32 - 48).min(1000); }
        if v < 256 { Some(v as u8) } else { None }
    }
    fn quantity(&mut self) -> Option<String> {
        if self.see() == '.' { self.i += 1; return Some("*1..".into()); }
        if !('0'..='9').contains(&self.see()) { return Some(String::new()); }
        let a = self.number()?;
        if self.see() != '-' { return Some(format!("*{a}")); }
        self.i += 1;
        let b = self.number()?;
        if a < b { Some(format!("*{a}..{b}")) } else { None }
    }
    fn dots(&mut self) -> Option<String> {
        let s = self.span(|c| ('0'..='9').contains(&c) || ('a'..='f').contains(&c) || c == '-');
        let mut out = String::new();
        for p in s.split('-') {
            if p.is_empty() { return None; }
            let mut b = 0u32;
            for c in p.chars() { b |= match c { '0' => 0, '1'..='9' => 1 << (c as u32 - '1' as u32), _ => 1 << (9 + c as u32 - 'a' as u32) }; }
            out.push(char::from_u32(if b > 0xff { 0xf0000 | b } else { 0x2800 | b })?);
        }
        Some(format!("dots({out})"))
    }
    fn text(&mut self) -> Option<String> {
        let mut s = String::new();
        loop {
            if self.i >= self.c.len() { return None; }
            let c = self.c[self.i];
            self.i += 1;
            if c == '"' { return Some(format!("text({s:?})")); }
            if c != '\\' { s.push(c); continue; }
            if self.i >= self.c.len() { return None; }
            match self.see() {
                's' => { self.i += 1; s.push(' ') }
                '"' => { self.i += 1; s.push('"') }
                k @ ('x' | 'y') => {
                    let n = if k == 'x' { 4 } else { 5 };
                    self.i += 1;
                    if self.i + n > self.c.len() { return None; }
                    let h: String = self.c[self.i..self.i + n].iter().collect();
                    self.i += n;
                    s.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                }
                _ => s.push('\\'),
            }
        }
    }
    fn test(&mut self) -> Option<String> {
        let k = self.see();
        self.i += 1;
        match k {
            '_' => { let n = if self.see().is_ascii_digit() { self.number()? } else { 1 }; Some(format!("back({n})")) }
            '%' if ('1'..='7').contains(&self.see()) => { self.i += 1; Some(format!("class({})", self.c[self.i - 1])) }
            '%' => { let n = self.span(|c| c.is_ascii_alphabetic()); if n.is_empty() { return None; } Some(format!("class({n}){}", self.quantity()?)) }
            '@' => self.dots(),
            '"' => self.text(),
            '$' => {
                const A: [(char, &str); 14] = [('a', "any"), ('d', "digit"), ('D', "litdigit"), ('l', "letter"), ('m', "math"), ('p', "punctuation"), ('S', "sign"), ('s', "space"),
                    ('U', "uppercase"), ('u', "lowercase"), ('w', "1"), ('x', "2"), ('y', "3"), ('z', "4")];
                let n = self.span(|c| A.iter().any(|a| a.0 == c));
                if n.is_empty() { return None; }
                let mut v: Vec<&str> = n.chars().map(|c| A.iter().find(|a| a.0 == c).unwrap().1).collect();
                v.sort();
                v.dedup();
                Some(format!("attr({}){}", v.join(" "), self.quantity()?))
            }
            '[' => { let v = self.many()?; self.eat(']')?; Some(format!("replace({})", v.join(" "))) }
            '#' => {
                let v = self.number()?;
                let op = match self.see() {
                    '=' => { self.i += 1; "=" }
                    c @ ('<' | '>') => { self.i += 1; if self.see() == '=' { self.i += 1; if c == '<' { "<=" } else { ">=" } } else if c == '<' { "<" } else { ">" } }
                    _ => return None,
                };
                Some(format!("var({v}{op}{})", self.number()?))
            }
            '!' => { if self.see() == '!' || self.see() == '[' { return None; } Some(format!("not({})", self.test()?)) }
            '`' => Some("beginning".into()),
            '~' => Some("end".into()),
            _ => None,
        }
    }
    fn many(&mut self) -> Option<Vec<String>> {
        let mut v = vec![];
        while self.i < self.c.len() && "_%@\"$[#!`~".contains(self.see()) { v.push(self.test()?); }
        Some(v)
    }
    fn action(&mut self) -> Option<String> {
        let k = self.see();
        self.i += 1;
        match k {
            '@' => self.dots(),
            '"' => self.text(),
            '%' => { let n = self.span(|c| c.is_ascii_alphabetic()); if n.is_empty() { None } else { Some(format!("swap({n})")) } }
            '#' => {
                let v = self.number()?;
                let k = self.see();
                self.i += 1;
                match k { '=' => Some(format!("set({v},{})", self.number()?)), '+' => Some(format!("more({v})")), '-' => Some(format!("less({v})")), _ => None }
            }
            '*' => Some("replace".into()),
            '?' => Some("ignore".into()),
            _ => None,
        }
    }
}
fn test(w: &str) -> Option<String> {
    let mut p = P { c: w.chars().collect(), i: 0 };
    let v = p.many()?;
    if v.is_empty() || p.i < p.c.len() { None } else { Some(v.join(" ")) }
}
fn action(w: &str) -> Option<String> {
    let mut p = P { c: w.chars().collect(), i: 0 };
    let mut v = vec![];
    while p.i < p.c.len() { v.push(p.action()?); }
    if v.is_empty() { None } else { Some(v.join(" ")) }
}
fn number(r: &mut Rng) -> String { r.pick(&["0", "1", "2", "3", "9", "10", "12", "99", "127", "128", "199", "200", "249", "250", "255", "255", "256", "260", "300", "999", "1000", "007", "0255", ""]).to_string() }
fn small(r: &mut Rng) -> String { r.pick(&["0", "1", "2", "3", "7", "8", "10", "255"]).to_string() }
fn num(r: &mut Rng) -> String { if r.chance(1, 6) { number(r) } else { small(r) } }
fn quantity(r: &mut Rng) -> String {
    match r.range(0, 6) { 0 | 1 => String::new(), 2 => ".".into(), 3 => num(r), 4 => format!("{}-{}", r.pick(&["0", "1", "2"]), r.pick(&["3", "10", "255"])), _ => format!("{}-{}", num(r), num(r)) }
}
fn text(r: &mut Rng) -> String {
    let n = r.range(0, 4);
    let s: String = (0..n).map(|_| r.pick(&["a", "B", "ä", " ", "1", "@", "\\s", "\\\"", "\\x0041", "\\y1f600", "\\\\", "\\t", "\\q", "\\x00E4", "\\xd800", "\\x00g1", "[", "]", "\u{2801}", "\\x2803"]).to_string()).collect();
    format!("\"{s}\"")
}
fn dots(r: &mut Rng) -> String {
    let n = r.range(1, 4);
    (0..n).map(|_| r.pick(&["1", "2", "12", "0", "123456", "8", "9", "a", "1f", "bcd", "11", "7e"]).to_string()).collect::<Vec<_>>().join("-")
}
fn class(r: &mut Rng) -> String { r.pick(&["foo", "a", "Z", "digit", "q"]).to_string() }
fn gen_test(r: &mut Rng, depth: usize) -> String {
    match r.range(0, 11) {
        0 => format!("_{}", if r.chance(1, 2) { String::new() } else { num(r) }),
        1 => if r.chance(1, 3) { format!("%{}", r.range(0, 10)) } else { format!("%{}{}", class(r), quantity(r)) },
        2 => format!("@{}", dots(r)),
        3 => text(r),
        4 | 5 => { let n = r.range(1, 4); let a: String = (0..n).map(|_| *r.pick(&['a', 'd', 'D', 'l', 'm', 'p', 'S', 's', 'U', 'u', 'w', 'x', 'y', 'z'])).collect(); format!("${a}{}", quantity(r)) }
        6 if depth > 0 => { let n = r.range(0, 4); format!("[{}]", (0..n).map(|_| gen_test(r, depth - 1)).collect::<String>()) }
        7 => format!("#{}{}{}", num(r), r.pick(&["=", "<", ">", "<=", ">="]), num(r)),
        8 if depth > 0 => format!("!{}", gen_test(r, depth - 1)),
        9 => "`".into(),
        10 => "~".into(),
        _ => format!("@{}", dots(r)),
    }
}
fn gen_action(r: &mut Rng) -> String {
    match r.range(0, 7) {
        0 => format!("@{}", dots(r)),
        1 => text(r),
        2 => format!("%{}", class(r)),
        3 => format!("#{}={}", num(r), num(r)),
        4 => format!("#{}{}", num(r), r.pick(&["+", "-"])),
        5 => "*".into(),
        _ => "?".into(),
    }
}
fn main() {
    let mut run = Run::from_args(
        "words made of one to four random tests (look-back, variables, texts with escapes, cells, attributes, classes with quantifiers, negations, replacements nested twice, \
         anchors) or actions, half of them with a character dropped, doubled or replaced: read exactly when they are tests (actions), and as these; non-trivial when they are read",
        "words of up to four tests or actions, each with up to 4 characters, cells or attributes, nesting depth 2",
    );
    while run.time_left() {
        let r = &mut run.rng;
        let is_test = r.chance(3, 5);
        let n = r.range(1, 5);
        let w: String = (0..n).map(|_| if is_test { gen_test(r, 2) } else { gen_action(r) }).collect();
        let mut c: Vec<char> = w.chars().collect();
        if r.chance(1, 2) && !c.is_empty() {
            for _ in 0..r.range(1, 3) {
                if c.is_empty() { break; }
                let k = r.range(0, c.len() - 1);
                match r.range(0, 4) {
                    0 => { c.remove(k); }
                    1 => { let x = c[k]; c.insert(k, x); }
                    2 => c.insert(k, *r.pick(&['"', '\\', '@', '1', '-', '.', '=', '<', '!', '[', ']', '%', '*', 'x', 's', 'G', '+', '?', '$', '0', '8', '#', '~'])),
                    _ => c.truncate(k),
                }
            }
        }
        let w: String = c.into_iter().collect();
        let want = if is_test { test(&w) } else { action(&w) };
        let what = if is_test { "test" } else { "action" };
        run.case(&format!("{what} {w}"), || {
            let got = if is_test { probe::test(&w) } else { probe::action(&w) };
            if got != want { return Err((format!("reading a {what}"), format!("read as {got:?}, it is {want:?}"))); }
            Ok(got.is_some())
        });
    }
    run.finish();
}
