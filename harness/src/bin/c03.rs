//! The steps of every pass cover its text exactly, in order; their outputs make up its result.
use louis::verif_positions as vp;
use vharness::e2e::*;
use vharness::*;
fn main() {
    let mut run = Run::from_args(
        "random tables over nearly all opcodes (up to 12 random lines on top of a base), both directions, random texts; for every pass the inputs of \
         its steps must spell the text of the pass and their outputs the text of the next pass / the result; non-trivial when some step is not 1:1",
        "texts of up to 10 characters, tables of up to 24 lines",
    );
    while run.time_left() {
        let mut r = run.rng.clone();
        let t = if r.chance(1, 4) {
            let mut n = selection::cells_from(&mut r);
            let mut t = selection::base_table(&mut r, &mut n);
            for _ in 0..r.range(1, 5) {
                let op = *r.pick(&selection::OPS);
                let x = selection::rule(&mut r, &mut n, &t, op);
                t.rules.push(x);
            }
            selection::extras(&mut r, &mut n, &mut t, 2, 2, &passes::Shape { vars: 1, swaps: 1 });
            t.undefined = Some(vec![63]);
            t.text()
        } else {
            fuzz::table(&mut r)
        };
        let back = r.chance(1, 3);
        let ins: Vec<String> = (0..20).map(|_| fuzz::input(&mut r)).collect();
        run.rng = r;
        run.case(&format!("{t}back {back} inputs {ins:?}"), || {
            let d = if back { louis::Direction::Backward } else { louis::Direction::Forward };
            let Ok(tr) = compile(&t, d) else { return Ok(false) };
            let mut nt = false;
            for s in &ins {
                let Some(passes) = vp::steps(&t, back, s) else { return Ok(false) };
                let mut cur = s.clone();
                for (i, p) in passes.iter().enumerate() {
                    let spelled: String = p.iter().map(|x| x.0.as_str()).collect();
                    // a rule may match case-insensitively; its text is then lower case
                    let low = |x: &str| x.chars().map(|c| c.to_lowercase().collect::<String>()).collect::<Vec<_>>();
                    if low(&spelled) != low(&cur) {
                        return Err((
                            "steps do not cover the text".into(),
                            format!("input {s:?}, pass {i}: the steps {p:?} spell {spelled:?} but the text of the pass is {cur:?}"),
                        ));
                    }
                    nt |= p.iter().any(|x| x.0.chars().count() != 1 || x.1.chars().count() != 1);
                    cur = p.iter().map(|x| x.1.as_str()).collect();
                }
                let out = translate(&tr, s, &[])?;
                if out != cur {
                    return Err(("the output is not made of the steps".into(), format!("input {s:?}: steps {passes:?}, output {out:?}")));
                }
            }
            Ok(nt)
        });
    }
    run.finish()
}
