//! Characters without definition: the table's replacement, otherwise an escape.
use vharness::model::*;
use vharness::selection::*;
use vharness::*;
const PARTS: [char; 18] = ['0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b', 'c', 'd', 'e', 'f', 'x', '\\'];
const STRANGE: [char; 28] = [
    'é', 'É', '\u{e93}', '\u{e99}', '\u{e39}', '\u{1}', '\t', '\n', 'Z', 'q', '\u{28ff}', '\u{10ffff}', '\u{1f600}', '\u{fedc}', '\u{ba98}', '\u{7654}', '\u{3210}',
    '\u{10000}', '\u{ffff}', '\u{80}', '\u{f0}', '\u{ad}', 'ß', '3', '9', '\\', 'x', '{',
];
fn main() {
    let mut run = Run::from_args(
        "random tables (with or without `undefined`, definitions of any of the characters an escape is made of, several definitions of one character, bases, \
         rules that cover undefined characters) and texts with characters from all planes, forward; the output must be what the rules permit with \
         replacements or escapes for the rest; non-trivial when a rule applied",
        "texts of up to 7 characters over 41; for every 40th table every character from U+0000 to U+2FFF and every 251st above",
    );
    while run.more() {
        let mut r = run.rng.clone();
        let mut n = cells_from(&mut r);
        let mut t = if r.chance(1, 2) { base_table(&mut r, &mut n) } else { Table::default() };
        t.undefined = match r.below(6) {
            0 => Some(vec![n.next()]),
            1 => Some((0..r.range(1, 4)).map(|_| n.next()).collect()),
            _ => None,
        };
        let share = *r.pick(&[0, 1, 2, 5]);
        for c in PARTS {
            for _ in 0..2 {
                if r.chance(share, 8) {
                    let op = if c.is_ascii_digit() { "digit" } else if c == '\\' { "sign" } else { "letter" };
                    if t.chars.iter().any(|d| d.c == c && d.op != op) {
                        continue;
                    }
                    let dots = (0..[1, 1, 1, 2][r.below(4)]).map(|_| n.next()).collect();
                    let at = r.below(t.chars.len() + 1);
                    t.chars.insert(at, CharDef { op, c, dots });
                }
            }
        }
        if r.chance(1, 4) {
            t.bases.push(("foo".into(), *r.pick(&['x', '3', 'e']), *r.pick(&['a', 'b', 'z', '1'])));
        }
        for _ in 0..r.below(4) {
            let (a, b) = (*r.pick(&['é', 'a', 'q', '\u{1f600}', '3', 'ß']), *r.pick(&['é', 'q', 'b', ',', '\u{e99}']));
            let op = *r.pick(&["always", "always", "word", "begword", "midword", "endword", "partword", "begnum", "endnum"]);
            let mut x = RuleDef::new(op, &if r.chance(1, 3) { a.to_string() } else { [a, b].iter().collect() }, &[128 | n.next()]);
            x.nocross = op == "always" && r.chance(1, 4);
            t.rules.push(x);
        }
        let mut al: Vec<char> = STRANGE.to_vec();
        al.extend(['a', 'b', '1', ',', ' ', 'a', 'q', 'é', 'b', 'x', 'e', '0', '\u{1f600}']);
        let mut inputs: Vec<String> = (0..25).map(|_| r.string(&al, 0, 7)).collect();
        if r.chance(1, 40) {
            inputs.extend((0..0x3000u32).chain((0x3000..0x110000).step_by(251)).filter_map(char::from_u32).map(|c| c.to_string()));
        }
        // the last of several rules counts
        let other = n.next();
        let twice = t.undefined.is_some() && r.chance(1, 3);
        run.rng = r;
        let (mut text, m) = (t.text(), t.model());
        if twice {
            text = format!("undefined {}\n{text}", e2e::dotseq(&[other]));
        }
        let few: Vec<&String> = inputs.iter().take(25).collect();
        run.case(&format!("{text}inputs {few:?}{}", if inputs.len() > 25 { " and every character" } else { "" }), || {
            let tr = e2e::compile(&text, louis::Direction::Forward)?;
            let mut nt = false;
            for s in &inputs {
                let out = e2e::translate(&tr, s, &[])?;
                let cs: Vec<char> = s.chars().collect();
                nt |= m.accepts(&cs, &out, &Positions::default()).map_err(|e| ("undefined".to_string(), format!("text {s:?}: {e}")))?;
            }
            Ok(nt)
        });
    }
    run.finish()
}
