//! correct, pass2, pass3 and pass4 rewrite their text one after the other, the heaviest match first.
use vharness::passes::*;
use vharness::*;
fn main() {
    let mut run = Run::from_args(
        "random sets of one to four correct/pass2/pass3/pass4 rules (literals, classes with quantifiers, negations, anchors, look-back, replacement \
         brackets with context, every kind of action), both directions; the output must be one that the rules permit; non-trivial when a rule applied",
        "texts of up to 16 characters over 6; tests of up to 5 items, literals of up to 14 characters",
    );
    search(&mut run, "passes", &|r, k| {
        let mut p = base();
        p.attrs.push(("foo".into(), "b1".into()));
        let sh = Shape { vars: if k % 5 == 0 { 2 } else { 0 }, swaps: 0 };
        let one = k % 3 == 0;
        let st = *r.pick(&[0, 2, 3, 4]);
        if k % 4 == 1 {
            let n = r.range(2, 4);
            p.rules = rivals(r, &p, st, n);
            return p;
        }
        for _ in 0..r.range(1, 4) {
            let stage = if one { st } else { *r.pick(&[0, 2, 3, 4, 2]) };
            let x = rule(r, &p, stage, &sh);
            p.rules.push(x);
        }
        p
    });
    run.finish()
}
