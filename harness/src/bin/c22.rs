//! Escape sequences in table operands stand for exactly one character each.
use louis::{Direction, Translator};
use vharness::e2e::*;
use vharness::*;

fn hex(r: &mut Rng, v: u32, n: usize) -> String {
    let s = format!("{v:0n$x}");
    s.chars().map(|c| if r.chance(1, 3) { c.to_ascii_uppercase() } else { c }).collect()
}
const PLAIN: [char; 8] = ['a', 'b', 'c', 'é', 'ß', '\u{1d11e}', 'n', 'x'];
/// one piece in table syntax (of an ordinary operand) and the text it stands for
fn piece(r: &mut Rng) -> (String, Option<String>) {
    let c = *r.pick(&PLAIN);
    let ok = |a: String, b: char| (a, Some(b.to_string()));
    match r.below(16) {
        0..=4 => ok(c.to_string(), c),
        5 | 6 => {
            let (e, c) = *r.pick(&[('f', '\u{c}'), ('n', '\n'), ('r', '\r'), ('t', '\t'), ('s', ' '), ('v', '\u{b}'), ('e', '\u{1b}'), ('\\', '\\')]);
            ok(format!("\\{e}"), c)
        }
        7..=9 => {
            let c = *r.pick(&['a', 'é', '\u{2801}', '\u{ffff}', '\u{d7ff}', '\u{e000}', '\u{1}', ' ', '\\', '\u{a0}']);
            ok(format!("\\x{}", hex(r, c as u32, 4)), c)
        }
        10 | 11 => {
            let c = *r.pick(&['a', '\u{1d11e}', '\u{fffff}', '\u{10000}', '\u{d7ff}', '\u{e000}']);
            ok(format!("\\y{}", hex(r, c as u32, 5)), c)
        }
        12 | 13 => {
            let c = *r.pick(&['\u{1d11e}', '\u{10000}', '\u{10ffff}', '\u{1f600}', '\u{103ff}', '\u{10428}']);
            let mut b = [0; 2];
            c.encode_utf16(&mut b);
            ok(format!("\\x{}\\x{}", hex(r, b[0] as u32, 4), hex(r, b[1] as u32, 4)), c)
        }
        14 => {
            // half a pair, in front of something that does not complete it
            let v = *r.pick(&[0xd834, 0xdc00, 0xdfff, 0xd800, 0xdbff]);
            let (t, u): (&str, &str) = *r.pick(&[("z", "z"), ("\\x0061", "a"), ("\\s", " "), ("\\y1d11e", "\u{1d11e}")]);
            if r.chance(1, 4) {
                // five digits never start a pair
                let (t, u) = if r.chance(1, 2) { (t.to_string(), u.to_string()) } else { (format!("\\x{}", hex(r, 0xde00, 4)), "\u{fffd}".to_string()) };
                return (format!("\\y{}{t}", hex(r, v, 5)), Some(format!("\u{fffd}{u}")));
            }
            (format!("\\x{}{t}", hex(r, v, 4)), Some(format!("\u{fffd}{u}")))
        }
        _ => (r.pick(&["\\q", "\\x12", "\\x12g4", "\\y1234", "\\y0g000", "\\", "\\z", "\\(", "\\x", "\\xé123", "\\A", "\\0"]).to_string(), None),
    }
}
/// a piece inside a multipass string
fn quoted(r: &mut Rng) -> (String, Option<String>) {
    let c = *r.pick(&PLAIN);
    let ok = |a: String, b: char| (a, Some(b.to_string()));
    match r.below(12) {
        0..=4 => ok(c.to_string(), c),
        5 => ok("\\s".into(), ' '),
        6 => ok("\\\"".into(), '"'),
        7 | 8 => {
            let c = *r.pick(&['a', 'é', '\u{2801}', '\u{ffff}', '"', ' ', '\\']);
            ok(format!("\\x{}", hex(r, c as u32, 4)), c)
        }
        9 => {
            let c = *r.pick(&['a', '\u{1d11e}', '\u{fffff}']);
            ok(format!("\\y{}", hex(r, c as u32, 5)), c)
        }
        10 => {
            let c = *r.pick(&['q', 'n', 'b', '(']);
            (format!("\\{c}"), Some(format!("\\{c}")))
        }
        _ => (r.pick(&["\\x12", "\\x12g4", "\\y1234", "\\xd834", "\\"]).to_string(), None),
    }
}

fn main() {
    let mut run = Run::from_args(
        "random operands made of plain characters, simple escapes, \\x and \\y escapes, surrogate pairs, halves of pairs and broken escapes, in always rules, \
         character definitions, match patterns, tests and actions of multipass rules; the rule must apply to exactly the decoded text, \
         and broken escapes must be refused; non-trivial when the operand is well formed and has an escape",
        "operands of up to 6 pieces",
    );
    while run.time_left() {
        let mut r = run.rng.clone();
        let place = r.below(6);
        let n = if place == 1 { [1, 1, 1, 2][r.below(4)] } else { r.range(1, 6) };
        let ps: Vec<_> = (0..n).map(|_| if place >= 4 { quoted(&mut r) } else { piece(&mut r) }).collect();
        let op: String = ps.iter().map(|p| p.0.as_str()).collect();
        // a piece that is broken on its own might be completed by the next one
        let broken = ps.iter().position(|p| p.1.is_none());
        if let Some(i) = broken
            && (i + 1 < ps.len() || place == 4 && false)
        {
            run.rng = r;
            continue;
        }
        let text: Option<String> = ps.iter().map(|p| p.1.clone()).collect();
        let half = ps.windows(2).any(|w| w[0].0.len() == 6 && w[0].0.starts_with("\\xd") && w[1].0.starts_with("\\x"));
        run.rng = r;
        if half {
            continue;
        }
        let special = text.as_ref().is_some_and(|t| t.contains(['\\', '(', ')', '[', ']', '.', '*', '%', '^', '$', '!', '?', '+', '|']));
        let base = "space \\s 0\nundefined 3456\n";
        let (table, input, want) = match place {
            0 | 2 => (format!("{base}always {op} 1-2\n"), text.clone(), text.as_ref().map(|_| "⠁⠂".to_string())),
            1 => (format!("{base}sign {op} 45\n"), text.clone().filter(|t| t.chars().count() == 1 && t != " "), Some("⠘".to_string())),
            3 => {
                if special {
                    continue;
                }
                (format!("{base}letter z 1\nletter y 2\nmatch {op} z - 46\n"), text.clone().map(|t| t + "z"), text.as_ref().map(|t| t.chars().map(|c| if c == ' ' { '⠀' } else { match c { 'z' => '⠁', _ => '⠼' } }).collect::<String>() + "⠨"))
            }
            4 => (format!("{base}correct \"{op}\" \"z\"\nletter z 1\n"), text.clone(), Some("⠁".to_string())),
            _ => {
                // what an action writes is what a later pass reads back
                let t = text.clone().unwrap_or_default();
                let mut seen: Vec<char> = vec![];
                let mut defs = String::new();
                for c in t.chars() {
                    if !seen.contains(&c) && c != ' ' && c != '\u{2801}' {
                        defs.push_str(&format!("sign \\y{:05x} {}\n", c as u32, dots(0x80 | (seen.len() as u8 + 1))));
                        seen.push(c);
                    }
                }
                if t.contains('\u{2801}') {
                    continue;
                }
                let w: String = t.chars().map(|c| if c == ' ' { '⠀' } else { cell(0x80 | (seen.iter().position(|x| *x == c).unwrap() as u8 + 1)) }).collect();
                (format!("{base}letter Z 2\ncorrect \"Z\" \"{op}\"\n{defs}"), text.clone().map(|_| "Z".to_string()), Some(w))
            }
        };
        let esc = op.contains('\\');
        run.case(&format!("{table}text {input:?}"), || {
            let t = Translator::from_table_source(&table, Direction::Forward);
            match (&input, t) {
                (None, Err(_)) => Ok(false),
                (None, Ok(_)) if place == 1 && text.is_some() => match text.as_deref() {
                    Some(" ") => Ok(false),
                    _ => Err(("several characters defined at once".to_string(), format!("operand {op:?}"))),
                },
                (None, Ok(_)) => Err(("broken escape accepted".to_string(), format!("operand {op:?}"))),
                (Some(t), Err(e)) => Err(("escape rejected".to_string(), format!("operand {op:?} for {t:?}: {e:?}"))),
                (Some(i), Ok(t)) => {
                    let g = translate(&t, i, &[])?;
                    let w = want.clone().unwrap();
                    if g != w {
                        return Err(("escape stands for something else".to_string(), format!("operand {op:?} should be {text:?}: {i:?} gives {g:?}, expected {w:?}")));
                    }
                    Ok(esc)
                }
            }
        });
    }
    run.finish()
}
