//! Random table text over (nearly) all opcodes, well formed and malformed, and random input text.
use crate::e2e::*;
use crate::*;

pub const ALPHA: [char; 14] = ['a', 'b', 'c', 'A', 'B', ' ', ',', '-', '1', '2', '.', 'ä', 'ß', '\u{130}'];
const CLASSES: [&str; 12] =
    ["space", "digit", "letter", "punctuation", "uppercase", "lowercase", "sign", "math", "litdigit", "foo", "bar", "undefinedclass"];

pub fn dots_text(r: &mut Rng) -> String {
    let n = if r.chance(3, 4) { 1 } else { r.range(1, 3) };
    let v: Vec<u8> = (0..n).map(|_| if r.chance(1, 9) { 0 } else { r.range(1, 63) as u8 }).collect();
    dotseq(&v)
}
pub fn chars_text(r: &mut Rng, hi: usize) -> String {
    chs(&r.string(&['a', 'b', 'c', 'a', 'b', ',', '-', '1', '2', ' ', 'ä', 'A', '.'], 1, hi))
}
fn test_item(r: &mut Rng, braille: bool, depth: usize) -> String {
    let q = |r: &mut Rng| match r.below(5) {
        0 => ".".to_string(),
        1 => r.range(0, 3).to_string(),
        2 => {
            let a = r.below(3);
            format!("{}-{}", a, a + r.range(1, 3))
        }
        _ => String::new(),
    };
    match r.below(14) {
        0..=3 if braille => format!("@{}", dots_text(r)),
        0..=3 => format!("\"{}\"", r.string(&['a', 'b', 'c', ' ', '1', ','], 1, 2).replace(' ', "\\s")),
        4 | 5 => format!("${}{}", *r.pick(&["l", "d", "s", "p", "lU", "u", "m", "a", "S", "w", "D"]), q(r)),
        6 => format!("%{}{}", *r.pick(&["foo", "bar", "swa", "swb", "swc", "nonesuch"]), q(r)),
        7 => format!("_{}", r.pick(&["", "1", "2"])),
        8 => format!("#{}{}{}", r.range(1, 2), *r.pick(&["=", "<", ">", "<=", ">="]), *r.pick(&["0", "1", "2", "255"])),
        9 => "`".into(),
        10 => "~".into(),
        11 if depth < 2 => format!("!{}", loop {
            let s = test_item(r, braille, depth + 1);
            if !s.starts_with('!') && !s.starts_with('[') {
                break s;
            }
        }),
        _ if braille => format!("@{}", dots_text(r)),
        _ => format!("\"{}\"", r.pick(&["a", "b", "ab"])),
    }
}
pub fn test_text(r: &mut Rng, braille: bool) -> String {
    let mut s = String::new();
    let items = |r: &mut Rng, lo: usize, hi: usize| -> String { (0..r.range(lo, hi)).map(|_| test_item(r, braille, 0)).collect() };
    if r.chance(1, 2) {
        s += &items(r, 0, 2);
        s += "[";
        let lo = if r.chance(1, 6) { 0 } else { 1 };
        s += &items(r, lo, 2);
        s += "]";
        s += &items(r, 0, 2);
    } else {
        s += &items(r, 1, 3);
    }
    s
}
pub fn action_text(r: &mut Rng, braille: bool) -> String {
    let n = if r.chance(2, 3) { 1 } else { r.range(1, 3) };
    (0..n)
        .map(|_| match r.below(10) {
            0..=3 if braille => format!("@{}", dots_text(r)),
            0..=3 => format!("\"{}\"", r.string(&['a', 'b', 'c', '1'], 0, 2)),
            4 => "*".into(),
            5 => "?".into(),
            6 => format!("%{}", *r.pick(&["swa", "swb", "swc"])),
            7 => format!("#{}{}", r.range(1, 2), *r.pick(&["=0", "=1", "+", "-", "=2"])),
            _ => format!("@{}", dots_text(r)),
        })
        .collect()
}
pub fn pattern_text(r: &mut Rng, depth: usize) -> String {
    if depth == 0 && r.chance(1, 3) {
        return "-".into();
    }
    let n = r.range(1, 2);
    let mut s = String::new();
    for _ in 0..n {
        if r.chance(1, 6) {
            s += "!";
        }
        s += &match r.below(9) {
            0 | 1 => r.string(&['a', 'b', '1'], 1, 2),
            2 => ".".into(),
            3 => format!("%{}", *r.pick(&["a", "#", "_", "u", "l", ".", "[a#]", "[_^]", "^", "~", "<", ">", "1", "[$^a]"])),
            4 => format!("[{}]", r.string(&['a', 'b', 'A', '1', '-'], 1, 3)),
            5 => "^".into(),
            6 => "$".into(),
            _ if depth < 2 => format!("({}{})", pattern_text(r, depth + 1), if r.chance(1, 3) { format!("|{}", pattern_text(r, depth + 1)) } else { String::new() }),
            _ => "b".into(),
        };
        s += r.pick(&["", "", "", "?", "*", "+"]);
    }
    s
}
const POS: [&str; 24] = [
    "always", "word", "begword", "midword", "endword", "midendword", "begmidword", "partword", "prfword", "sufword", "joinword", "lowword",
    "begnum", "midnum", "endnum", "joinnum", "syllable", "largesign", "prepunc", "postpunc", "comp6", "always", "always", "word",
];
/// one line of a table; mostly acceptable
pub fn line(r: &mut Rng) -> String {
    let dir = match r.below(12) {
        0 => "nofor ",
        1 => "noback ",
        _ => "",
    };
    match r.below(34) {
        0..=7 => {
            let op = *r.pick(&POS);
            let classy = ["always", "word", "begword", "midword", "endword", "midendword", "begmidword", "partword", "prfword", "sufword"].contains(&op);
            let mut s = if ["joinword", "syllable", "largesign", "comp6"].contains(&op) { String::new() } else { dir.to_string() };
            if op == "always" && r.chance(1, 5) {
                s += "nocross ";
            }
            if classy && r.chance(1, 5) {
                s += &format!("{} {} ", *r.pick(&["before", "after"]), *r.pick(&CLASSES));
            }
            let d = if classy && r.chance(1, 10) { "=".into() } else { dots_text(r) };
            format!("{s}{op} {} {d}", chars_text(r, 3))
        }
        8 | 9 => {
            let op = *r.pick(&["space", "punctuation", "digit", "letter", "lowercase", "uppercase", "litdigit", "sign", "math", "hyphen", "decpoint"]);
            let c = *r.pick(&ALPHA);
            format!("{}{op} {} {}", if op == "decpoint" { "" } else { dir }, ch(c), dots_text(r))
        }
        10 => format!("base {} {} {}", *r.pick(&["uppercase", "lowercase", "foo"]), ch(*r.pick(&ALPHA)), ch(*r.pick(&ALPHA))),
        11 => format!("attribute {} {}", *r.pick(&["foo", "bar", "1", "7", "letter"]), chars_text(r, 3)),
        12 => format!("undefined {}", dots_text(r)),
        13 => format!("{dir}{} {}", *r.pick(&["capsletter", "begcapsword", "endcapsword"]), dots_text(r)),
        14 => format!("{} {}", *r.pick(&["begcaps", "endcaps", "begcapsphrase", "endcapsphrase before", "endcapsphrase after"]), dots_text(r)),
        15 => format!("{} {}", *r.pick(&["lencapsphrase", "lenemphphrase italic"]), *r.pick(&["1", "2", "3", "0", "-1", "100"])),
        16 => format!("{} {}", *r.pick(&["capsmodechars", "noletsign", "noletsignbefore", "noletsignafter", "contraction", "emphmodechars italic", "noemphchars italic"]), chars_text(r, 2)),
        17 => format!("{} {}", *r.pick(&["letsign", "numsign"]), dots_text(r)),
        18 => format!("{dir}{} {}", *r.pick(&["nonumsign", "nocontractsign", "begcomp", "endcomp"]), dots_text(r)),
        19 => format!("{} {}", *r.pick(&["numericnocontchars", "numericmodechars", "midendnumericmodechars"]), chars_text(r, 2)),
        20 => format!("{} {}", *r.pick(&["seqdelimiter", "seqbeforechars", "seqafterchars", "seqafterpattern", "seqafterexpression", "class foo", "nocont", "exactdots", "literal"]), chars_text(r, 2)),
        21 => "emphclass italic".into(),
        22 | 23 => {
            let k = *r.pick(&["begemph", "endemph", "emphletter", "begemphword", "endemphword", "begemphphrase", "endemphphrase"]);
            let p = if k == "endemphphrase" { *r.pick(&["before ", "after "]) } else { "" };
            format!("{k} {} {p}{}", *r.pick(&["italic", "bold"]), dots_text(r))
        }
        24 => format!("{dir}compbrl {}", chars_text(r, 2)),
        25 => {
            let (a, b) = (r.string(&['a', 'b', 'c'], 1, 1), *r.pick(&["x", "b", "ä"]));
            format!("swapcc swc {a} {b}")
        }
        26 => format!("swapcd swa {}{} {},{}", "a", "b", dots_text(r), dots_text(r)),
        27 => format!("swapdd swb {},{} {},{}", dots(r.range(1, 63) as u8), dots(r.range(1, 63) as u8), dots_text(r), dots_text(r)),
        28 => format!("{dir}match {} {} {} {}", pattern_text(r, 0), chars_text(r, 2), pattern_text(r, 0), dots_text(r)),
        29 | 30 => format!("{dir}context {} {}", test_text(r, false), action_text(r, true)),
        31 => format!("{dir}correct {} {}", test_text(r, false), action_text(r, false)),
        _ => format!("{dir}{} {} {}", *r.pick(&["pass2", "pass3", "pass4"]), test_text(r, true), action_text(r, true)),
    }
}
pub const PRELUDE: &str = "space \\s 0\nlowercase a 1\nlowercase b 12\nlowercase c 14\nuppercase A 17\npunctuation , 2\npunctuation - 36\ndigit 1 16\ndigit 2 126\n\
     swapcd swa ab 3,6\nswapdd swb 1,12 12,1\nswapcc swc ab ba\n";
pub fn table(r: &mut Rng) -> String {
    let mut s = if r.chance(9, 10) { PRELUDE.to_string() } else { String::new() };
    for _ in 0..r.range(1, 12) {
        s += &line(r);
        s += "\n";
    }
    s
}
/// damage a table: cut, drop, duplicate or change characters and words
pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..r.range(1, 4) {
        if v.is_empty() {
            break;
        }
        let i = r.below(v.len());
        match r.below(6) {
            0 => {
                v.remove(i);
            }
            1 => v.insert(i, *r.pick(&[' ', '\n', '\\', '-', ',', '=', '[', ']', '(', ')', '!', '|', '?', '*', '"', '@', '$', '%', '#', '_', '\0', 'é', '𝔸', '\u{feff}', '+', '0', '9'])),
            2 => {
                let n = r.range(1, 6).min(v.len() - i);
                v.drain(i..i + n);
            }
            3 => {
                let n = r.range(1, 10).min(v.len() - i);
                let w: Vec<char> = v[i..i + n].to_vec();
                let j = r.below(v.len());
                v.splice(j..j, w);
            }
            4 => {
                let t: Vec<char> = r.pick(&["\\x", "\\xd835", "\\xd835\\xdd38", "\\xdd38", "\\y1d538", "\\y", "\\z00000041", "\\x+041", "99999999999", "-1", "nocross", "before", "include x", "nofor"]).chars().collect();
                v.splice(i..i, t);
            }
            _ => v[i] = *r.pick(&['a', 'b', '1', '9', '-', ' ', '\n', '\\', '"']),
        }
    }
    v.into_iter().collect()
}
pub fn input(r: &mut Rng) -> String {
    let al: &[char] = match r.below(5) {
        0 => &['a', 'b', ' ', '⠁', '⠃', '⠀', '⠠'],
        1 => &ALPHA,
        2 => &['a', 'b', 'A', '1', ',', ' ', '\u{0}', '𝔸', '\n', '\u{301}', '☺'],
        3 => &['⠁', '⠃', '⠉', '⠀', '⠂', '⠼', '⠠', '⠡', '⠤'],
        _ => &['a', 'b', 'c', ' ', '1'],
    };
    r.string(al, 0, 10)
}
