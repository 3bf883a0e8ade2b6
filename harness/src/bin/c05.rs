//! Of several definitions of the same thing the first counts, unless a later one outranks it.
use vharness::model::*;
use vharness::selection::*;
use vharness::*;
fn main() {
    let mut run = Run::from_args(
        "random tables in which characters (all character opcodes, base, decpoint, hyphen, litdigit) and rules (same text and same place, \
         equal or different rank) are defined more than once; non-trivial when a rule applied",
        "texts of up to 7 characters over 9, up to 8 rules over 2 texts, up to 5 repeated character definitions",
    );
    search(&mut run, "definition order", &['a', 'b', 'a', 'b', 'A', 'B', ' ', ',', '1', '.'], 7, &|r, _| {
        let mut n = cells_from(r);
        let mut t = base_table(r, &mut n);
        for _ in 0..r.range(0, 5) {
            let op = *r.pick(&["letter", "sign", "math", "punctuation", "digit", "litdigit", "lowercase", "hyphen", "decpoint", "space"]);
            let at = r.below(t.chars.len() + 1);
            let c = *r.pick(&['a', '1', ',', 'b', '.', '-']);
            let d = if r.chance(1, 3) { vec![n.next(), n.next()] } else { vec![n.next()] };
            t.chars.insert(at, CharDef { op, c, dots: d });
        }
        for _ in 0..r.range(0, 2) {
            t.bases.push((r.pick(&["uppercase", "foo"]).to_string(), *r.pick(&['B', 'A', 'a']), *r.pick(&['b', 'a', '1'])));
        }
        let texts = [r.string(&['a', 'b'], 1, 2), r.string(&['a', 'b', ','], 1, 2)];
        for _ in 0..r.range(2, 8) {
            let op = *r.pick(&["always", "word", "prfword", "sufword", "begword", "endword", "partword", "syllable", "largesign", "midendword", "lowword"]);
            let mut x = RuleDef::new(op, r.pick(&texts), &[128 | n.next()]);
            if r.chance(1, 6) && op == "always" {
                x.with.push((r.chance(1, 2), r.pick(&["space", "letter"]).to_string()));
            }
            // `=`: the cells of the characters
            if r.chance(1, 6) && !["lowword", "syllable", "largesign"].contains(&op) && x.chars.chars().all(|c| t.chars.iter().any(|d| d.c == c)) {
                x.dots = None;
            }
            x.nofor = op == "always" && r.chance(1, 12);
            x.nocross = op == "always" && r.chance(1, 6);
            t.rules.push(x);
        }
        t
    });
    run.finish()
}
