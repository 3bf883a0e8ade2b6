//! Every text is accepted as a table or rejected with located errors; nothing panics.
use vharness::*;
fn main() {
    let mut run = Run::from_args(
        "random tables over nearly all opcodes and damaged copies of them, both directions: the table is accepted or every error names a line of the \
         table, and exactly the lines that are wrong on their own are named; accepted tables translate; non-trivial when the damaged table is rejected",
        "tables of up to 24 lines with up to 4 random edits",
    );
    while run.time_left() {
        let mut r = run.rng.clone();
        let t = fuzz::table(&mut r);
        let t = if r.chance(3, 4) { fuzz::mutate(&mut r, &t) } else { t };
        let ins: Vec<String> = (0..3).map(|_| fuzz::input(&mut r)).collect();
        let back = r.chance(1, 3);
        run.rng = r;
        run.case(&format!("{t}\nback {back} inputs {ins:?}"), || {
            let d = if back { louis::Direction::Backward } else { louis::Direction::Forward };
            let lines = |e: &louis::TranslationError| -> Vec<usize> {
                let s = format!("{e:?}");
                s.match_indices("line: ").map(|(i, m)| s[i + m.len()..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap()).collect()
            };
            match louis::Translator::from_table_source(&t, d) {
                Ok(tr) => {
                    for s in &ins {
                        let _ = tr.translate(s);
                    }
                    for (i, l) in t.lines().enumerate() {
                        if let Err(e @ louis::TranslationError::ParseFailed(_)) = louis::Translator::from_table_source(l, d) {
                            return Err(("a wrong line was accepted".into(), format!("line {} {l:?}: {e:?}", i + 1)));
                        }
                    }
                    Ok(false)
                }
                Err(e @ louis::TranslationError::ParseFailed(_)) => {
                    let got = lines(&e);
                    let mut want = vec![];
                    for (i, l) in t.lines().enumerate() {
                        if let Err(e) = louis::Translator::from_table_source(l, d)
                            && !lines(&e).is_empty()
                        {
                            want.push(i + 1);
                        }
                    }
                    if got != want {
                        return Err(("wrong lines reported".into(), format!("errors on lines {got:?}, wrong lines are {want:?}: {e:?}")));
                    }
                    Ok(true)
                }
                Err(_) => Ok(false),
            }
        });
    }
    run.finish()
}
