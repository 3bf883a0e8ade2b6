//! Match rules: the patterns around the word hold exactly where the rule is applied.
use vharness::selection::*;
use vharness::*;
fn main() {
    let mut run = Run::from_args(
        "random tables of one to four match rules (literals, sets, attributes, negations, quantifiers, groups, alternatives, edges, on both sides), now and then \
         with a few always rules, and texts; the output must be a concatenation of choices each of which is a heaviest applicable rule by an independent \
         matcher, else the character; non-trivial when a rule applied",
        "texts of up to 14 characters over 11; patterns of up to 12 items with groups of depth up to 2",
    );
    search(&mut run, "match", &['a', 'b', 'c', 'a', 'b', 'A', ' ', ',', '-', '1', '2'], 14, &|r, k| {
        let mut n = cells_from(r);
        let mut t = base_table(r, &mut n);
        for _ in 0..r.range(1, if k % 2 == 0 { 1 } else { 4 }) {
            t.matches.push(match_def(r, &mut n));
        }
        if k % 4 == 3 {
            for _ in 0..r.range(1, 3) {
                let x = rule(r, &mut n, &t, "always");
                t.rules.push(x);
            }
        }
        t
    });
    run.finish()
}
