//! Swap classes.
use vharness::passes::*;
use vharness::*;
fn main() {
    let mut run = Run::from_args(
        "random swapcc/swapcd/swapdd classes used in the tests and actions of one to three correct/pass2/pass3/pass4 rules, both directions; the output \
         must be one that the rules permit; non-trivial when a rule applied",
        "texts of up to 7 characters over 6; classes of up to 4 entries, replacements of up to 2 cells",
    );
    search(&mut run, "swap", &|r, k| {
        let mut p = base();
        p.attrs.push(("foo".into(), "b1".into()));
        add_swaps(r, &mut p);
        let sh = Shape { vars: 0, swaps: 8 };
        let one = k % 2 == 0;
        let st = *r.pick(&[0, 2, 3, 4]);
        for _ in 0..r.range(1, 3) {
            let stage = if one { st } else { *r.pick(&[0, 2, 3, 4, 2]) };
            let x = rule(r, &p, stage, &sh);
            p.rules.push(x);
        }
        p
    });
    run.finish()
}
