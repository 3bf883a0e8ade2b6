//! Every opcode is read with exactly its operands, in order, and anything else in their place is an error.
use louis::verif_rules as probe;
use vharness::*;
#[path = "../opcodes.rs"]
mod opcodes;
use opcodes::OPCODES;

fn uni(d: &str) -> char {
    let mut b = 0u32;
    for c in d.chars() {
        b |= match c { '0' => 0, '1'..='8' => 1 << (c as u32 - '1' as u32), '9' => 1 << 8, 'a'..='f' => 1 << (9 + c as u32 - 'a' as u32), _ => panic!() };
    }
    char::from_u32(if b > 0xff { 0xf0000 | b } else { 0x2800 | b }).unwrap()
}
fn dots(r: &mut Rng) -> String {
    let n = r.range(1, 4);
    if r.chance(1, 10) { return "0".into(); }
    (0..n).map(|_| *r.pick(&['1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'f', '1'])).collect()
}
fn bad_dots(r: &mut Rng) -> String {
    r.pick(&["x", "1x", "-", "1-", "-1", "1--2", "g", "=1", "1.2", "\u{2801}", "==", "1=", "1-x", "\\x0031"]).to_string()
}
fn list(r: &mut Rng) -> (String, String) {
    let n = if r.chance(1, 2) { 1 } else { r.range(1, 4) };
    let v: Vec<String> = (0..n).map(|_| dots(r)).collect();
    (v.join("-"), v.iter().map(|d| uni(d)).collect())
}
const GOOD_TEXT: [(&str, &str); 16] = [
    ("a", "a"), ("ab", "ab"), ("\\x0041", "A"), ("a\\sb", "a b"), ("\\\\", "\\"), ("ä", "ä"), ("=", "="), ("12-3", "12-3"), ("before", "before"), ("nofor", "nofor"),
    ("#", "#"), ("\\t", "\t"), ("a\\x00e4", "aä"), ("after", "after"), ("letter", "letter"), ("\\y1f600", "\u{1f600}"),
];
const BAD_TEXT: [&str; 5] = ["\\", "\\q", "a\\x12", "ab\\", "\\y12"];
/// a word for an operand and what it is, if it is one
fn operand(r: &mut Rng, kind: &str, len: usize) -> (String, Option<String>) {
    let bad = r.chance(1, 12);
    match kind {
        "word" => { let w = r.pick(&["a.ctb", "x", "=", "1", "before", "\\q"]).to_string(); (w.clone(), Some(w)) }
        "char" if bad => (r.pick(&["ab", "\\q", "\\", "\\x0041b", "1-2", "\\x12"]).to_string(), None),
        "char" => { let (a, b) = *r.pick(&[("a", "a"), ("\\x0041", "A"), ("\\s", " "), ("=", "="), ("-", "-"), ("1", "1"), ("ä", "ä"), ("\\\\", "\\"), ("\\y1f600", "\u{1f600}")]); (a.into(), Some(b.into())) }
        "text" if bad => (r.pick(&BAD_TEXT).to_string(), None),
        "text" if len > 0 => { let s: String = (0..len).map(|_| *r.pick(&['a', 'b', 'ä', '1'])).collect(); (s.clone(), Some(s)) }
        "text" => { let (a, b) = *r.pick(&GOOD_TEXT); (a.into(), Some(b.into())) }
        "name" if bad => (r.pick(&["a-b", "\\x0041", "é", "a_b", ".", "="]).to_string(), None),
        "name" => { let w = r.pick(&["foo", "a", "A1", "9", "before", "after", "italic"]).to_string(); (w.clone(), Some(w)) }
        "number" if bad => (r.pick(&["x", "1x", "99999999999", "1-2", "--1", "="]).to_string(), None),
        "number" => { let n = r.pick(&[0i32, 1, 2, 3, 10, -4, i32::MAX]); (if r.chance(1, 8) && *n >= 0 { format!("+{n}") } else { n.to_string() }, Some(n.to_string())) }
        "position" if bad => (r.pick(&["Before", "x", "1", "afterx", "="]).to_string(), None),
        "position" => { let b = r.chance(1, 2); ((if b { "before" } else { "after" }).into(), Some((if b { "Before" } else { "After" }).into())) }
        "cell" if bad => (r.pick(&["1-2", "x", "=", "1,2", "-"]).to_string(), None),
        "cell" => { let d = dots(r); (d.clone(), Some(uni(&d).to_string())) }
        "cells" if bad => (if r.chance(1, 4) { "=".into() } else { bad_dots(r) }, None),
        "dots" if bad => (bad_dots(r), None),
        "dots" if r.chance(1, 4) => ("=".into(), Some("=".into())),
        "cells" | "dots" => { let (a, b) = list(r); (a, Some(b)) }
        "singles" | "lists" | "twocells" | "twolists" => {
            let single = kind == "singles" || kind == "twocells";
            let n = if kind.starts_with("two") { if bad { *r.pick(&[1, 3]) } else { 2 } } else { len.max(1) };
            let v: Vec<(String, String)> = (0..n).map(|_| if single { let d = dots(r); (d.clone(), uni(&d).to_string()) } else { list(r) }).collect();
            let mut t = v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(",");
            let mut ok = !(bad && kind.starts_with("two"));
            if bad && ok { t = if single && r.chance(1, 2) { format!("{t},1-2") } else { format!("{t},{}", r.pick(&["", "x", "=", "1-"])) }; ok = false; }
            (t, ok.then(|| match kind { "singles" => v.iter().map(|x| x.1.clone()).collect::<String>(), "lists" => v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join(","), _ => format!("{}\u{1}{}", v[0].1, v[1].1) }))
        }
        "test" => { let w = if bad { r.pick(&["@", "x", "\"a", "[", "@x"]).to_string() } else { r.pick(&["\"a\"", "[\"a\"]", "@1-2", "`@1", "_1$a", "!@1"]).to_string() }; (w.clone(), probe::test(&w)) }
        "action" => { let w = if bad { r.pick(&["@", "x", "\"a", "@x"]).to_string() } else { r.pick(&["\"b\"", "@1", "*", "?", "@1-2", "%foo"]).to_string() }; (w.clone(), probe::action(&w)) }
        "pre" | "post" => { let w = if bad { r.pick(&["[a", "(", "%[x]", "*"]).to_string() } else { r.pick(&["-", "a", "[a]", "%[_]", "a|b", "\\x0062", "!a", "ab+"]).to_string() };
            let u = w.replace("\\x0062", "b"); (w, probe::pattern(&u, kind == "pre")) }
        k => panic!("{k}"),
    }
}
fn main() {
    let mut run = Run::from_args(
        "a random line of every opcode with random operands of its kinds (characters, texts with escapes, names, numbers, cells, lists of cells, positions, patterns), now and \
         then one of the wrong kind, one missing or words behind, with every restriction, classes and match marks in front: read exactly when all are there and of their kind, \
         and then carrying exactly these; non-trivial when it is read, or when one operand makes it unreadable",
        "lines of one opcode, operands of up to 6 characters or 4 cells",
    );
    let mut k = 0;
    while run.time_left() {
        let (w, lim, kinds, extra) = OPCODES[k % OPCODES.len()];
        k += 1;
        let r = &mut run.rng;
        let mut line: Vec<String> = vec![];
        let mut ok = true;
        let restr: &[&str] = r.pick::<&[&str]>(&[&[], &[], &["nofor"], &["noback"], &["nocross"], &["nofor", "nocross"], &["noback", "nocross"]]);
        let restr: &[&str] = if lim == 0 && r.chance(3, 4) { &[] } else { restr };
        line.extend(restr.iter().map(|s| s.to_string()));
        if lim == 0 && !restr.is_empty() || lim == 1 && restr.contains(&"nocross") { ok = false; }
        let mut classes = vec![];
        while r.chance(1, 5) { classes.push(format!("{} {}", r.pick(&["before", "after"]), r.pick(&["foo", "before", "after", "x-1", "letter"]))); }
        line.extend(classes.iter().flat_map(|c| c.split(' ').map(|s| s.to_string())));
        let mut sides = vec![];
        while r.chance(1, 6) { sides.push(r.pick(&["empmatchbefore", "empmatchafter"]).to_string()); }
        line.extend(sides.iter().cloned());
        sides.sort(); sides.dedup();
        line.push(w.to_string());
        let mut want = vec![];
        // operands that belong together have the same number of elements
        let n = if extra.contains("same") { r.range(1, 4) } else { 0 };
        let n2 = if extra.contains("same") && r.chance(1, 8) { n + 1 } else { n };
        let ks: Vec<&str> = kinds.split(' ').filter(|k| !k.is_empty()).collect();
        let mut cut = if r.chance(1, 10) { r.range(0, ks.len()) } else { ks.len() };
        for (i, kind) in ks.iter().enumerate() {
            if *kind == "names" {
                let n = if i < cut { r.range(0, 4) } else { 0 };
                let v: Vec<&str> = (0..n).map(|_| *r.pick(&["letsign", "capsletter", "x-1", "=", "\\q"])).collect();
                line.extend(v.iter().map(|s| s.to_string()));
                if n < 2 { ok = false; }
                want.push(v.join(" "));
                cut = usize::MAX; // nothing can follow
                continue;
            }
            if *kind == "maybe" {
                if i < cut && r.chance(2, 3) { let w = *r.pick(&["x", "\\q", "\\x0041", "="]); line.push(w.into()); want.push(format!("some {w}")); } else { want.push("none".into()); cut = cut.min(i); }
                continue;
            }
            if i >= cut { ok = false; break; }
            let len = if i + 1 == ks.len() { n2 } else { n };
            let (t, v) = operand(r, kind, len);
            line.push(t);
            match v { Some(v) => want.extend(v.split('\u{1}').map(|s| s.to_string())), None => ok = false }
        }
        if n != n2 { ok = false; }
        if cut == ks.len() && r.chance(1, 8) { line.extend(r.pick::<&[&str]>(&[&["comment"], &["#", "x"], &["1", "2"], &["before"]]).iter().map(|s| s.to_string())); }
        for x in extra.split(' ') {
            match x {
                "constraints" => { let mut c: Vec<&str> = restr.to_vec(); c.sort(); want.push(c.join(" ")); }
                "with_classes" => want.push(classes.join(" ")),
                "matches" => want.push(if sides.is_empty() { "none".into() } else { sides.join(" ") }),
                _ => {}
            }
        }
        // one opcode in a while is not one
        let mut text = line.join(if r.chance(1, 6) { "\t " } else { " " });
        if r.chance(1, 40) {
            let bad = *r.pick(&["lettr", "Letter", "letter1", "beforex", "xnofor"]);
            text = text.replacen(w, bad, 1);
            if !text.contains(bad) || restr.iter().any(|x| *x == w) || classes.iter().any(|c| c.contains(w)) { continue; }
            ok = false;
        }
        let want = if ok { Some((w.to_string(), want)) } else { None };
        run.case(&text.clone(), || {
            let got = probe::read(&text);
            if got == want { Ok(true) } else { Err((format!("line of {w}"), format!("read as {got:?}, spells {want:?}"))) }
        });
    }
    run.finish();
}
