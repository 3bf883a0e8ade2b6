//! Position maps between input and output.
use louis::verif_positions as vp;
use vharness::*;
fn main() {
    let mut run = Run::from_args(
        "random lists of translation steps (also with empty inputs and outputs and multi-byte characters); every entry of both maps is compared with its \
         definition; non-trivial when some step has unequal lengths",
        "up to 6 steps of up to 4 characters each way; exhaustive for up to 3 steps with lengths 0..3",
    );
    let mut check = |run: &mut Run, v: Vec<(String, String)>| {
        run.case(&format!("{v:?}"), || {
            let len = |s: &String| s.chars().count();
            for (name, got, sel) in [("output positions", vp::output_positions(&v), false), ("input positions", vp::input_positions(&v), true)] {
                let mut want = vec![];
                let mut off = 0;
                for (i, o) in &v {
                    let (from, to) = if sel { (len(o), len(i)) } else { (len(i), len(o)) };
                    for k in 0..from {
                        want.push(off + if to == 0 { 0 } else if k < to { k } else { to - 1 });
                    }
                    off += to;
                }
                differ(name, &got, &want)?;
            }
            Ok(v.iter().any(|(a, b)| len(a) != len(b)))
        });
    };
    let word = |n: usize, c: char| std::iter::repeat_n(c, n).collect::<String>();
    for k in 0..4096usize {
        let n = k % 4;
        let v: Vec<_> = (0..n).map(|j| (word(k >> (2 + 4 * j) & 3, 'a'), word(k >> (4 + 4 * j) & 3, '⠁'))).collect();
        check(&mut run, v);
    }
    while run.time_left() {
        let mut r = run.rng.clone();
        let v = (0..r.range(0, 6)).map(|_| (r.string(&['a', 'ä', '𝔸', 'ß'], 0, 4), r.string(&['⠁', 'b', '⡿'], 0, 4))).collect();
        run.rng = r;
        check(&mut run, v);
    }
    run.finish()
}
