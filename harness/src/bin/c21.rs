//! Every line of a table is read once, in order, and every bad line is reported with its number.
use louis::Direction;
use louis::verif_tables as probe;
use vharness::e2e::*;
use vharness::*;

const BLANK: [&str; 10] = ["", " ", "\t", "# comment", "  # letter a 1", "#", "\t #x", "\u{a0}", "\u{3000}#", "#letter b 12"];
fn one(r: &mut Rng) -> String {
    match r.below(10) {
        0 => {
            let l = fuzz::line(r);
            fuzz::mutate(r, &l).replace('\n', " ").replace('\r', " ")
        }
        1 => r.pick(&["letter", "letter ab 1", "nonsense a 1", "letter a 1x", "always a", "a#b", "\u{feff}letter a 1", "letter \\q 1", "x", "nofor lencapsphrase 2"]).to_string(),
        2 => format!("{} {}", fuzz::line(r), r.pick(&["comment", "# more", "é \t x"])),
        3 => format!("{}{}", r.pick(&[" ", "\t", "   "]), fuzz::line(r)),
        _ => fuzz::line(r),
    }
}
/// silent lines, by the first character that is not white space
fn silent(l: &str) -> bool {
    l.chars().find(|c| !c.is_whitespace()).is_none_or(|c| c == '#')
}
fn quiet_sets(l: probe::Listing) -> probe::Listing {
    let f = |v: Vec<String>| v.iter().map(|s| calm(s)).collect();
    l.map(f).map_err(f)
}
fn main() {
    let mut run = Run::from_args(
        "random tables of good, broken, empty and comment lines with both kinds of line ends; the list of rules (or of errors), each with its path and line \
         number, against every line read on its own; and the translations of a table and of the same table with empty lines and comments put between; \
         non-trivial when the table has a rule and a silent line, or an error",
        "tables of up to 16 lines",
    );
    while run.time_left() {
        let r = &mut run.rng;
        let n = r.range(0, 16);
        let bad = r.chance(1, 2);
        let mut ls: Vec<String> = vec![];
        for _ in 0..n {
            let l = if r.chance(1, 3) { r.pick(&BLANK).to_string() } else if bad { one(r) } else { fuzz::line(r) };
            ls.push(l);
        }
        let mut text = String::new();
        for (i, l) in ls.iter().enumerate() {
            text += l;
            if i + 1 < ls.len() || r.chance(1, 2) { text += *r.pick(&["\n", "\n", "\r\n"]); }
        }
        let path = if r.chance(1, 2) { Some(std::path::PathBuf::from("some/ta\"ble.ctb")) } else { None };
        let w: Vec<String> = (0..3).map(|_| fuzz::input(r)).collect();
        let desc = format!("{text}\n{path:?}");
        run.case(&desc, || {
            let (mut rules, mut errors, mut quiet) = (vec![], vec![], 0);
            for (i, l) in ls.iter().enumerate() {
                if silent(l) {
                    quiet += 1;
                    continue;
                }
                match probe::line(l) {
                    Ok(x) => rules.push(format!("AnchoredRule {{ rule: {x}, path: {path:?}, line: {} }}", i + 1)),
                    Err(x) => errors.push(format!("ParseError {{ path: {path:?}, line: {}, error: {x} }}", i + 1)),
                }
            }
            let want = if errors.is_empty() { Ok(rules) } else { Err(errors) };
            let got = quiet_sets(probe::table(&text, path.clone()));
            let want = quiet_sets(want);
            if got != want {
                return Err(("lines".into(), format!("got {got:?}\nexpected {want:?}")));
            }
            // silent lines do not matter
            if let Ok(v) = &got {
                let dense: String = ls.iter().filter(|l| !silent(l)).map(|l| format!("{l}\n")).collect();
                for d in [Direction::Forward, Direction::Backward] {
                    let (a, b) = (louis::Translator::from_table_source(&text, d).ok(), louis::Translator::from_table_source(&dense, d).ok());
                    if a.is_some() != b.is_some() { return Err(("compiles".into(), format!("{d:?}: {} without silent lines {}", a.is_some(), b.is_some()))); }
                    if let (Some(a), Some(b)) = (a, b) {
                        for w in &w { same("silent lines", &translate(&a, w, &[])?, &translate(&b, w, &[])?)?; }
                    }
                }
                return Ok(!v.is_empty() && quiet > 0);
            }
            Ok(true)
        });
    }
    run.finish()
}
