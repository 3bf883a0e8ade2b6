//! Verdicts of `louis check` on generated YAML test documents.
use louis::{Direction, EmphasisSpan, TranslationOptions, Translator};
use std::process::Command;
use vharness::*;

/// the command-line tool of /repo's current tree
fn tool() -> Option<std::path::PathBuf> {
    let exe = std::env::current_exe().ok()?;
    let target = exe.parent()?.join("louis-tool");
    let ok = Command::new("cargo")
        .args(["build", "--offline", "-q", "--manifest-path", "/repo/Cargo.toml", "--bin", "louis", "--target-dir"])
        .arg(&target)
        .env_remove("RUSTFLAGS")
        .env_remove("CARGO_TARGET_DIR")
        .env_remove("LOUIS_TEST_FORWARD_ONLY")
        .stderr(std::process::Stdio::null())
        .status()
        .ok()?
        .success();
    ok.then(|| target.join("debug/louis"))
}
fn quoted(s: &str) -> String {
    format!("'{}'", s.replace('\'', "''"))
}
#[derive(Clone)]
struct Test {
    described: bool,
    input: String,
    expected: String,
    xfail: usize,
    mask: Option<Vec<bool>>,
}
const XFAIL: [(&str, bool, bool); 13] = [
    ("", false, false),
    ("", false, false),
    ("", false, false),
    ("xfail: off", false, false),
    ("xfail: false", false, false),
    ("xfail: on", true, true),
    ("xfail: true", true, true),
    ("xfail: some reason", true, true),
    ("xfail: {forward: true}", true, false),
    ("xfail: {backward: on}", false, true),
    ("xfail: {forward: off, backward: reason}", false, true),
    ("xfail: {forward: why, backward: false}", true, false),
    ("xfail: {forward: true, backward: true}", true, true),
];
const TABLES: [&str; 4] = [
    "space \\s 0\nletter a 1\nletter b 12\nletter c 14\n",
    "space \\s 0\nletter a 1\nletter b 12\nletter c 14\nalways ab 126\nnofor always c 456\n",
    "space \\s 0\nletter a 1\nletter b 12\nletter c 14\nemphclass italic\nbegemph italic 46\nendemph italic 346\n",
    "space \\s 0\nletter c 1\nletter b 12\nletter a 14\nword ab 1256\n",
];
const DISPLAYS: [(&str, &[(char, char)]); 3] = [
    ("", &[]),
    ("display A 1\ndisplay B 12\ndisplay C 14\n", &[('A', '⠁'), ('B', '⠃'), ('C', '⠉')]),
    ("display x 126\ndisplay - 0\ndisplay a 1\n", &[('x', '⠣'), ('-', '⠀'), ('a', '⠁')]),
];
fn shown(d: usize, dir: Direction, s: &str) -> String {
    let m = DISPLAYS[d].1;
    s.chars()
        .map(|c| match dir {
            Direction::Forward => m.iter().find(|(_, b)| *b == c).map(|(a, _)| *a),
            Direction::Backward => m.iter().find(|(a, _)| *a == c).map(|(_, b)| *b),
        }.unwrap_or(c))
        .collect()
}
fn spans(mask: &Option<Vec<bool>>) -> Vec<EmphasisSpan> {
    let Some(m) = mask else { return vec![] };
    let mut v = vec![];
    let mut k = 0;
    while k < m.len() {
        if m[k] {
            let s = k;
            while k < m.len() && m[k] { k += 1; }
            v.push(EmphasisSpan::new("italic", s..k));
        } else {
            k += 1;
        }
    }
    v
}
fn outcome(table: usize, d: usize, dir: Direction, input: &str, mask: &Option<Vec<bool>>) -> String {
    let t = Translator::from_table_source(TABLES[table], dir).unwrap();
    let o = TranslationOptions::default().with_emphasis(spans(mask));
    match dir {
        Direction::Forward => shown(d, dir, &t.translate_with_options(input, o).unwrap().output),
        Direction::Backward => t.translate_with_options(&shown(d, dir, input), o).unwrap().output,
    }
}
fn block(text: &str) -> String {
    text.lines().map(|l| format!("  {l}\n")).collect()
}
fn main() {
    let tool = tool();
    let mut run = Run::from_args(
        "YAML test documents of one to three groups (up to four settings in any order: inline tables, inline display tables, test modes; one to six tests with and without \
         description, expected failures of every form and emphasis) handed to `louis check`: one line for every test that is no success, in the order of the tests, saying what \
         the library translates; the summary counts the verdicts of each kind; non-trivial when verdicts of two kinds occur",
        "up to 3 groups of up to 4 settings and 6 tests with texts of up to 5 characters",
    );
    let Some(tool) = tool else { run.finish() };
    let dir = std::env::temp_dir().join(format!("louis-c31-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let file = dir.join("t.yaml");
    while run.time_left() {
        let r = &mut run.rng;
        let mut doc = String::new();
        let mut want: Vec<String> = vec![];
        let mut count = [0usize; 5];
        let mut d = 0;
        let mut mode = 0;
        let mut tables: Vec<usize> = vec![];
        for g in 0..r.range(1, 3) {
            // settings in any order; tables that follow each other directly add up
            let mut in_row = false;
            for k in 0..r.range(if g == 0 { 1 } else { 0 }, 4) {
                match if g == 0 && k == 0 { 1 } else { r.range(0, 2) } {
                    0 => {
                        d = r.range(1, 2);
                        doc += &format!("display: |\n{}", block(DISPLAYS[d].0));
                        in_row = false;
                    }
                    1 => {
                        let t = r.range(0, 3);
                        doc += &format!("table: |\n{}", block(TABLES[t]));
                        if !in_row { tables.clear(); }
                        tables.push(t);
                        in_row = true;
                    }
                    _ => {
                        mode = r.range(0, 2);
                        doc += &format!("flags: {{testmode: {}}}\n", ["forward", "backward", "bothDirections"][mode]);
                        in_row = false;
                    }
                }
            }
            let mut tests = vec![];
            for _ in 0..r.range(1, 6) {
                let input = r.string(&['a', 'b', 'c', ' ', 'A'], 0, 5);
                let n = input.chars().count();
                let mask = r.chance(1, 4).then(|| (0..n).map(|_| r.chance(1, 2)).collect::<Vec<_>>());
                let t = *r.pick(&tables);
                // backward modes: mostly start from what the table writes
                let (input, expected) = if mode == 1 && r.chance(3, 4) {
                    (outcome(t, d, Direction::Forward, &input, &None), input)
                } else {
                    let e = outcome(t, d, Direction::Forward, &input, &mask);
                    (input, e)
                };
                let expected = if r.chance(1, 4) { r.string(&['a', 'b', '⠁', '⠃', ' '], 0, 3) } else { expected };
                tests.push(Test { described: r.chance(1, 4), input, expected, xfail: r.range(0, XFAIL.len() - 1), mask });
            }
            doc += "tests:\n";
            for t in &tests {
                let mut v = vec![];
                if t.described { v.push("'a test'".to_string()); }
                v.push(quoted(&t.input));
                v.push(quoted(&t.expected));
                let mut o = vec![];
                if !XFAIL[t.xfail].0.is_empty() { o.push(XFAIL[t.xfail].0.to_string()); }
                if let Some(m) = &t.mask { o.push(format!("typeform: {{italic: '{}'}}", m.iter().map(|x| if *x { '+' } else { '-' }).collect::<String>())); }
                if !o.is_empty() { v.push(format!("{{{}}}", o.join(", "))); }
                doc += &format!("  - [{}]\n", v.join(", "));
            }
            let halves: &[Direction] = match mode { 0 => &[Direction::Forward], 1 => &[Direction::Backward], _ => &[Direction::Forward, Direction::Backward] };
            for dir in halves {
                for table in &tables {
                    for t in &tests {
                        let (input, expected) = if mode == 2 && *dir == Direction::Backward { (&t.expected, &t.input) } else { (&t.input, &t.expected) };
                        let got = outcome(*table, d, *dir, input, &t.mask);
                        let fails = if *dir == Direction::Forward { XFAIL[t.xfail].1 } else { XFAIL[t.xfail].2 };
                        count[0] += 1;
                        match (got == *expected, fails) {
                            (true, false) => count[1] += 1,
                            (true, true) => { count[4] += 1; want.push(format!("UnexpectedSuccess {{ input: {input:?}, direction: {dir:?} }}")); }
                            (false, f) => {
                                count[if f { 3 } else { 2 }] += 1;
                                want.push(format!("{} {{ input: {input:?}, expected: {expected:?}, actual: {got:?}, direction: {dir:?} }}", if f { "ExpectedFailure" } else { "Failure" }));
                            }
                        }
                    }
                }
            }
        }
        let summary = r.chance(1, 8);
        std::fs::write(&file, &doc).unwrap();
        run.case(&doc, || {
            let mut c = Command::new(&tool);
            c.arg("check");
            if summary { c.arg("--summary"); }
            let out = c.arg(&file).current_dir(&dir).env_remove("LOUIS_TABLE_PATH").env_remove("RUST_LOG").output().map_err(|e| ("running louis check".to_string(), e.to_string()))?;
            let text = String::from_utf8_lossy(&out.stdout).to_string();
            if !out.status.success() || !out.stderr.is_empty() {
                return Err(("the document is not accepted".to_string(), String::from_utf8_lossy(&out.stderr).to_string()));
            }
            if summary {
                let line = text.lines().find(|l| l.contains("Total")).unwrap_or("").to_string();
                let got: Vec<String> = line.split('│').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect();
                let mut exp = vec!["Total".to_string(), count[0].to_string()];
                for k in 1..5 { exp.push(format!("{:.1}%", count[k] as f64 * 100.0 / count[0] as f64)); }
                differ("summary", &got, &exp)?;
            } else {
                let got: Vec<String> = text.lines().map(|x| x.to_string()).collect();
                differ("verdicts", &got, &want)?;
            }
            Ok(count[1..].iter().filter(|c| **c > 0).count() > 1)
        });
    }
    let _ = std::fs::remove_file(&file);
    let _ = std::fs::remove_dir(&dir);
    run.finish()
}
