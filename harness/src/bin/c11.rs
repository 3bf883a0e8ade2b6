//! nocross rules never bridge a hyphenation point.
use std::path::PathBuf;
use vharness::e2e::*;
use vharness::hyph::*;
use vharness::model::*;
use vharness::selection::*;
use vharness::*;

fn main() {
    let mut run = Run::from_args(
        "random tables with nocross and plain rules over the same texts and random hyphenation dictionaries (patterns, anchors, minima) included as .dic \
         files; non-trivial when a break lies in the text",
        "texts of up to 10 characters over 8, up to 6 patterns of up to 4 letters, rules of up to 4 characters",
    );
    let dir = PathBuf::from(std::env::var("VERIF_SCRATCH").unwrap_or("/tmp/vharness_scratch".into()));
    let _ = std::fs::create_dir_all(&dir);
    std::env::set_current_dir(&dir).unwrap();
    while run.time_left() {
        let mut r = run.rng.clone();
        let mut n = cells_from(&mut r);
        let mut t = base_table(&mut r, &mut n);
        t.undefined = Some(vec![0x3f]);
        let mut pats = vec![];
        for _ in 0..r.range(1, 6) {
            let mut p = String::new();
            if r.chance(1, 5) {
                p.push('.');
            }
            for _ in 0..r.range(1, 4) {
                if r.chance(1, 2) {
                    p.push((b'0' + r.below(6) as u8) as char);
                }
                p.push(*r.pick(&['a', 'b', 'c', 'a', 'b', 'A', 'ä']));
            }
            if r.chance(1, 3) {
                p.push('1');
            }
            if r.chance(1, 5) {
                p.push('.');
            }
            if p.chars().any(|c| ('1'..='9').contains(&c)) {
                pats.push(p);
            }
        }
        let with_dic = r.chance(9, 10);
        let (left, right) = (r.chance(1, 4).then(|| r.range(1, 3)), r.chance(1, 4).then(|| r.range(1, 3)));
        for _ in 0..r.range(1, 6) {
            let op = *r.pick(&["always", "always", "always", "begword", "endword", "midword", "word", "largesign"]);
            let mut x = RuleDef::new(op, &r.string(&['a', 'b', 'c', 'a', 'b', ','], 1, 4), &[128 | n.next()]);
            x.nocross = op == "always" && r.chance(2, 3);
            t.rules.push(x);
        }
        // rules whose weight is more than their length
        for x in &mut t.rules {
            if x.nocross && r.chance(1, 3) {
                x.with.push((r.chance(1, 2), r.pick(&["letter", "space", "punctuation", "uppercase"]).to_string()));
            }
        }
        if r.chance(1, 4) {
            extras(&mut r, &mut n, &mut t, 1, 2, &vharness::passes::Shape { vars: 0, swaps: 0 });
        }
        let mut dic = String::from("UTF-8\n");
        left.iter().for_each(|l| dic += &format!("LEFTHYPHENMIN {l}\n"));
        right.iter().for_each(|l| dic += &format!("RIGHTHYPHENMIN {l}\n"));
        pats.iter().for_each(|p| dic += &format!("{p}\n"));
        let inputs: Vec<String> = (0..40).map(|_| r.string(&['a', 'b', 'c', 'a', 'b', ' ', 'A', ','], 0, 10)).collect();
        run.rng = r;
        let m = t.model();
        let pm = parse_oracle(&pats);
        let text = if with_dic { format!("{}include h.dic\n", t.text()) } else { t.text() };
        run.case(&format!("table.ctb:\n{text}h.dic:\n{dic}texts {inputs:?}"), || {
            std::fs::write("table.ctb", &text).unwrap();
            std::fs::write("h.dic", &dic).unwrap();
            let tr = louis::Translator::new(&["table.ctb"], louis::Direction::Forward).map_err(|e| ("table rejected".to_string(), format!("{e:?}")))?;
            let mut nt = false;
            for s in &inputs {
                let cs: Vec<char> = s.chars().collect();
                let letter = |i: usize| m.classes.get("letter").is_some_and(|l| l.contains(&cs[i]));
                let mut p = Positions::default();
                for (a, b) in vharness::indic::stretches(0, cs.len(), letter) {
                    if !with_dic {
                        break;
                    }
                    let w: String = cs[a..b].iter().collect();
                    for (i, k) in oracle(&pm, left.unwrap_or(1), right.unwrap_or(1), &w).iter().enumerate() {
                        if *k {
                            p.breaks.insert(a + i);
                        }
                    }
                }
                nt |= !p.breaks.is_empty();
                let out = translate(&tr, s, &[])?;
                m.accepts(&cs, &out, &p).map_err(|e| ("nocross".to_string(), format!("text {s:?}, breaks behind {:?}: {e}", p.breaks)))?;
            }
            Ok(nt)
        });
    }
    run.finish()
}
