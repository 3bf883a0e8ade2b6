//! Word, number and class boundaries of rules.
use vharness::selection::*;
use vharness::*;
fn main() {
    let mut run = Run::from_args(
        "random tables with one to three positional rules each (all word and number opcodes, before/after classes) and texts in which the rule's \
         text stands at every kind of boundary; non-trivial when a rule applied",
        "texts of up to 8 characters over 13, rules of up to 3 characters",
    );
    search(&mut run, "place of a rule", &['a', 'b', 'a', 'b', 'c', 'A', 'B', ' ', ',', '-', '1', '2', '.', 'ä'], 8, &|r, k| {
        let mut n = cells_from(r);
        let mut t = base_table(r, &mut n);
        t.undefined = Some(vec![0x3f]);
        let ops: &[&'static str] = if k % 3 == 0 { &["begnum", "midnum", "endnum"] } else { &WORD_OPS };
        for _ in 0..r.range(1, 3) {
            let op = *r.pick(ops);
            let x = rule(r, &mut n, &t, op);
            t.rules.push(x);
        }
        t
    });
    run.finish()
}
