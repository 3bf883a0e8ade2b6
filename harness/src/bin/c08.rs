//! Dot patterns in every place of a table become the cells they name.
use louis::{Direction, Translator};
use vharness::e2e::*;
use vharness::*;

/// one cell in table syntax: any dots, any order, also repeated
fn one(r: &mut Rng) -> String {
    let al: Vec<char> = if r.chance(2, 3) { "12345678".chars().collect() } else { "0123456789abcdef".chars().collect() };
    let n = [1, 1, 2, 3, 4, 8][r.below(6)];
    r.string(&al, 1, n)
}
fn seq(r: &mut Rng) -> String {
    (0..[1, 1, 2, 3][r.below(4)]).map(|_| one(r)).collect::<Vec<_>>().join("-")
}
fn spoil(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let i = r.below(v.len() + 1);
    v.insert(i, *r.pick(&['-', '-', 'g', 'A', 'F', ':', 'é', '/', '\u{660}']));
    v.into_iter().collect()
}
/// the cell the dots name
fn meaning(s: &str) -> Option<char> {
    let (mut b, mut virt) = (0u32, false);
    for c in s.chars() {
        let k = "0123456789abcdef".find(c)? as u32;
        if k > 0 {
            b |= 1 << (k - 1);
        }
        virt |= k > 8;
    }
    (!s.is_empty()).then(|| char::from_u32((if virt { 0xf0000 } else { 0x2800 }) + if virt { b } else { b & 0xff }).unwrap()).map(|c| {
        if virt { char::from_u32(0xf0000 | b).unwrap() } else { c }
    })
}
fn text(s: &str) -> Option<String> {
    s.split('-').map(meaning).collect()
}

fn main() {
    let mut run = Run::from_args(
        "random dot operands (also with virtual dots, in any order, repeated, empty cells, broken ones) in character definitions, rules, indicators, \
         multipass tests and actions and swap classes; the cells in the output (forward) or read from the input (backward), or the rejection of the table; \
         non-trivial when the operand is well formed",
        "up to 3 cells of up to 8 dots in one operand",
    );
    while run.time_left() {
        let mut r = run.rng.clone();
        let mut d = seq(&mut r);
        let bad = r.chance(1, 6);
        if bad {
            d = spoil(&mut r, &d);
        }
        let single = one(&mut r);
        let place = r.below(12);
        run.rng = r;
        let want = text(&d);
        let base = "space \\s 0\nletter a 1\nletter b 12\n";
        // (table, input, expected output) for a well-formed operand
        let (body, input, out): (String, String, Option<String>) = match place {
            0 => (format!("letter x {d}"), "x".into(), want.clone()),
            1 => (format!("always ab {d}"), "ab".into(), want.clone()),
            2 => (format!("uppercase A 1\nlowercase c 14\nbase uppercase B b\ncapsletter {d}"), "B".into(), want.clone().map(|w| w + "⠃")),
            3 => (format!("digit 1 1\nlitdigit 2 2\nnumsign {d}"), "2".into(), want.clone().map(|w| w + "⠂")),
            4 => (format!("sign x {single}\npass2 @{single} @{d}"), "x".into(), want.clone()),
            5 => (format!("context \"ab\" @{d}"), "ab".into(), want.clone()),
            6 => (format!("always ab {d}\npass2 @{d} @{single}"), "ab".into(), want.as_ref().and(text(&single))),
            7 => (format!("sign y {single}\nswapcd foo ab {d},{single}\ncontext %foo %foo"), "ab".into(), want.clone().map(|w| w + &text(&single).unwrap())),
            8 => (format!("sign x {single}\nswapdd foo {single},1 {single},{d}\npass2 %foo %foo"), "a".into(), want.clone()),
            9 => (format!("undefined {d}"), "é".into(), want.clone()),
            10 => (format!("match - ab - {d}"), "ab".into(), want.clone()),
            _ => (format!("begcomp {d}\nendcomp {single}\ncompbrl ab"), "ab".into(), want.clone().map(|w| w + "⠁⠃" + &text(&single).unwrap())),
        };
        // the same cell twice in one class, or the same cell for the sign and another character, is another matter
        if place == 8 && (text(&single) == text("1")) {
            continue;
        }
        let table = format!("{base}{body}\n");
        run.case(&format!("{table}text {input:?}"), || {
            let t = Translator::from_table_source(&table, Direction::Forward);
            match (&out, t) {
                (None, Err(_)) => Ok(false),
                (None, Ok(_)) => Err(("broken dots accepted".to_string(), format!("operand {d:?}"))),
                (Some(w), Err(e)) => Err(("dots rejected".to_string(), format!("operand {d:?} (cells {w:?}): {e:?}"))),
                (Some(w), Ok(t)) => {
                    let g = translate(&t, &input, &[])?;
                    if g != *w {
                        return Err(("wrong cells".to_string(), format!("operand {d:?}: got {:?}, expected {:?}", g, w)));
                    }
                    Ok(true)
                }
            }
        });
        // reading the cell back
        if let (Some(w), true) = (&want, place < 2) {
            let table = if place == 0 { format!("space \\s 0\nletter x {d}\n") } else { format!("space \\s 0\nalways ab {d}\n") };
            let (w, p) = (w.clone(), place);
            if w.chars().any(|c| c == '⠀') {
                continue;
            }
            run.case(&format!("{table}backward {w:?}"), || {
                let t = compile(&table, Direction::Backward)?;
                let g = translate(&t, &w, &[])?;
                let e = if p == 0 { "x" } else { "ab" };
                if g != e {
                    return Err(("cells not read back".to_string(), format!("operand {d:?}, cells {w:?}: got {g:?}, expected {e:?}")));
                }
                Ok(true)
            });
        }
    }
    run.finish()
}
