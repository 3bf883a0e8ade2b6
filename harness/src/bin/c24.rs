//! Letter signs and no-contraction signs.
use vharness::e2e::*;
use vharness::indic::*;
use vharness::*;

fn main() {
    let mut run = Run::from_args(
        "random tables with letsign, contraction, noletsign, noletsignafter, noletsignbefore and nocontractsign over letters, digits, punctuation and spaces, \
         and texts; non-trivial when a sign is due",
        "texts of up to 10 characters over 11; exhaustive texts of length <= 5 over {a,b,1,'.',space} for every 12th table",
    );
    let base = "lowercase a 1\nlowercase b 12\nuppercase A 17\nlitdigit 1 1\nletter x 1346\npunctuation . 36\npunctuation ' 3\ndigit 1 57\nsign % 456\nspace \\s 0\nspace _ 78\n";
    let plain = |c: char| -> String {
        cell(match c {
            'a' => 1,
            'A' => 0x41,
            'b' => 3,
            'x' => 0x2d,
            '.' => 0x24,
            '\'' => 0x04,
            '1' => 0x50,
            '%' => 0x38,
            '_' => 0xc0,
            _ => 0,
        })
        .to_string()
    };
    let base = base.replace("litdigit 1 1\n", "");
    let al = ['a', 'b', 'A', 'x', '.', '\'', '1', '%', '_', ' ', 'a'];
    let letter = |c: char| "abAx".contains(c);
    let space = |c: char| c == ' ' || c == '_';
    let edge = |c: Option<&char>| c.is_none_or(|c| " _.'".contains(*c));
    let mut k = 0;
    while run.time_left() {
        k += 1;
        let mut r = run.rng.clone();
        let mut t = base.clone();
        let mut set = |r: &mut Rng, t: &mut String, op: &str| -> Vec<char> {
            let mut v = vec![];
            for _ in 0..(if r.chance(1, 2) { 0 } else { r.range(1, 2) }) {
                let s = r.string(&['a', 'b', 'A', 'x', '.', '1', '%'], 1, 2);
                t.push_str(&format!("{op} {s}\n"));
                v.extend(s.chars());
            }
            v
        };
        let no = set(&mut r, &mut t, "noletsign");
        let noafter = set(&mut r, &mut t, "noletsignafter");
        let nobefore = set(&mut r, &mut t, "noletsignbefore");
        let sign = r.chance(5, 6);
        let nocon = r.chance(2, 3);
        if sign {
            if r.chance(1, 4) {
                t.push_str("letsign 8-8\n");
            }
            t.push_str(&format!("letsign {}\n", dots(0x81)));
        }
        if nocon {
            t.push_str(&format!("nocontractsign {}\n", dots(0x82)));
        }
        let mut cons: Vec<String> = vec![];
        for _ in 0..r.range(0, 3) {
            cons.push(r.string(&['a', 'b', 'x'], 1, 3));
        }
        for c in &cons {
            t.push_str(&format!("contraction {c}\n"));
        }
        let mut inputs: Vec<String> = (0..40).map(|_| r.string(&al, 0, 10)).collect();
        if k % 12 == 0 || run.thorough {
            strings(&['a', 'b', '1', '.', ' '], 5, &mut |s| {
                inputs.push(s.into());
                true
            });
        }
        // upper case contractions would be written in small letters
        if !cons.is_empty() {
            inputs.iter_mut().for_each(|s| *s = s.replace('A', "b"));
        }
        run.rng = r;
        run.case(&format!("{t}{} texts, e.g. {:?}", inputs.len(), &inputs[..3]), || {
            let tr = compile(&t, louis::Direction::Forward)?;
            let mut nt = false;
            for s in &inputs {
                let w: Vec<char> = s.chars().collect();
                let mut lets: Ev = vec![];
                let mut nocs: Ev = vec![];
                for i in 0..w.len() {
                    let prev = if i > 0 { w.get(i - 1) } else { None };
                    let next = w.get(i + 1);
                    let alone = letter(w[i])
                        && !prev.is_some_and(|c| letter(*c) || space(*c) || noafter.contains(c))
                        && !next.is_some_and(|c| letter(*c) || nobefore.contains(c));
                    let word = cons.iter().any(|c| {
                        let c: Vec<char> = c.chars().collect();
                        w[i..].starts_with(&c) && edge(prev) && edge(w.get(i + c.len()))
                    });
                    if sign && !no.contains(&w[i]) && (alone || word) {
                        lets.push((i, cell(0x81).to_string()));
                    }
                    if nocon && word {
                        nocs.push((i, cell(0x82).to_string()));
                    }
                }
                nt |= !lets.is_empty() || !nocs.is_empty();
                let want = render(&w, &plain, &slots(w.len(), &[lets, nocs]));
                let got = translate(&tr, s, &[])?;
                same("letter signs", &got, &want).map_err(|(k, d)| (k, format!("text {s:?}: {d}")))?;
            }
            Ok(nt)
        });
    }
    run.finish()
}
