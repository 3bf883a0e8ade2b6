//! prepunc and postpunc rules fire only at the edges of words and numbers.
use vharness::model::*;
use vharness::selection::*;
use vharness::*;
fn main() {
    let mut run = Run::from_args(
        "random tables with one to three prepunc/postpunc rules over up to three punctuation characters and competing always rules; \
         non-trivial when a rule applied",
        "texts of up to 9 characters over 10; exhaustive texts of length <= 4 over {a,b,space,comma} for every 8th table",
    );
    search(&mut run, "prepunc / postpunc", &['a', 'b', ',', '-', ',', '1', ' ', ',', '2', 'A'], 9, &|r, _| {
        let mut n = cells_from(r);
        let mut t = base_table(r, &mut n);
        t.undefined = Some(vec![0x3f]);
        for _ in 0..r.range(1, 3) {
            let op = *r.pick(&["prepunc", "postpunc"]);
            let hi = if r.chance(2, 3) { 1 } else { 3 };
            let chars = if r.chance(1, 12) { ",a".to_string() } else { r.string(&[',', '-', ','], 1, hi) };
            t.rules.push(RuleDef::new(op, &chars, &[128 | n.next()]));
            if r.chance(1, 3) {
                t.rules.push(RuleDef::new("always", &chars, &[128 | n.next()]));
            }
        }
        t
    });
    run.finish()
}
