//! Rule selection: the applicable rule with the greatest weight, then the character itself.
use vharness::selection::*;
use vharness::*;
fn main() {
    let mut run = Run::from_args(
        "random tables (characters of all classes, up to 7 rules of 19 opcodes, before/after classes, nocross, overlapping texts, match and context rules) and texts; \
         the output must be a concatenation of choices each of which is a heaviest applicable rule, else the character; two compilations must agree; \
         non-trivial when a rule applied",
        "texts of up to 9 characters over 11, rules of up to 3 characters; exhaustive texts of length <= 4 over {a,b,space,comma} for every 8th table",
    );
    search(&mut run, "selection", &['a', 'b', 'c', 'a', 'b', 'A', 'B', ' ', ',', '-', '1', '2', '.'], 9, &|r, k| {
        let mut n = cells_from(r);
        let mut t = base_table(r, &mut n);
        for _ in 0..r.range(1, 7) {
            let op = if k % 4 == 0 { "always" } else { *r.pick(&OPS) };
            let x = rule(r, &mut n, &t, op);
            t.rules.push(x);
        }
        if k % 3 == 0 {
            extras(r, &mut n, &mut t, 2, 2, &vharness::passes::Shape { vars: 0, swaps: 2 });
        }
        t
    });
    run.finish()
}
