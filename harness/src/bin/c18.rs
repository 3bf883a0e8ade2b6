//! Variables: zero at first, changed by applied rules, seen by all later tests of the same pass.
use vharness::passes::*;
use vharness::*;
fn main() {
    let mut run = Run::from_args(
        "random sets of one to five correct/context/pass2/pass3/pass4 rules full of variable tests (all comparisons, negated), assignments, increments and \
         decrements, both directions; the output must be one that the rules permit, twice in a row; non-trivial when a rule applied",
        "texts of up to 7 characters over 6; two variables, values 0 to 3 (255 for some tests)",
    );
    // context rules of the first pass
    run.phase(0.4);
    selection::search(&mut run, "variables in context rules", &['a', 'b', 'c', 'A', '1', ' ', 'a', 'b'], 8, &|r, _| {
        let mut n = selection::cells_from(r);
        let mut t = selection::base_table(r, &mut n);
        t.attributes.clear();
        t.attributes.push(("foo".into(), "b1".into()));
        t.undefined = Some(vec![0x3f]);
        selection::extras(r, &mut n, &mut t, 5, 1, &Shape { vars: 5, swaps: 0 });
        for _ in 0..r.range(0, 2) {
            let x = selection::rule(r, &mut n, &t, "always");
            t.rules.push(x);
        }
        t
    });
    run.phase(1.0);
    search(&mut run, "variables", &|r, k| {
        let mut p = base();
        let sh = Shape { vars: 5, swaps: 0 };
        let one = k % 3 != 0;
        let st = *r.pick(&[0, 2, 3, 4]);
        for _ in 0..r.range(1, 5) {
            let stage = if one { st } else { *r.pick(&[0, 2, 3, 4, 2]) };
            let x = rule(r, &p, stage, &sh);
            p.rules.push(x);
        }
        p
    });
    run.finish()
}
