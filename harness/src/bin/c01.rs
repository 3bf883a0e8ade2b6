//! Every text can be translated with every table that compiles.
use vharness::e2e::*;
use vharness::*;
fn main() {
    let mut run = Run::from_args(
        "random tables over nearly all opcodes, both directions, random texts with random emphasis and computer braille spans (also reversed, empty and \
         beyond the end); no panic, an answer within 20 s, the same answer twice; non-trivial when the output differs from the input",
        "texts of up to 10 characters (one of 2000 per table), tables of up to 24 lines",
    );
    while run.time_left() {
        let mut r = run.rng.clone();
        let t = fuzz::table(&mut r);
        let back = r.chance(1, 3);
        let mut ins: Vec<(String, Vec<(String, usize, usize)>)> = (0..20)
            .map(|_| {
                let s = fuzz::input(&mut r);
                let k = if r.chance(1, 2) { 0 } else { r.range(1, 3) };
                let v = (0..k).map(|_| (r.pick(&["italic", "bold", "comp6", "computer_braille", ""]).to_string(), r.below(12), r.below(12))).collect();
                (s, v)
            })
            .collect();
        if r.chance(1, 10) {
            ins.push((fuzz::input(&mut r).repeat(200), vec![]));
        }
        run.rng = r;
        run.case(&format!("{t}back {back} inputs {ins:?}"), || {
            let d = if back { louis::Direction::Backward } else { louis::Direction::Forward };
            let Ok(tr) = compile(&t, d) else { return Ok(false) };
            let mut nt = false;
            for (s, v) in &ins {
                let out = translate(&tr, s, v)?;
                if out != translate(&tr, s, v)? {
                    return Err(("different answers".into(), format!("input {s:?}")));
                }
                nt |= out != *s;
            }
            Ok(nt)
        });
    }
    run.finish()
}
