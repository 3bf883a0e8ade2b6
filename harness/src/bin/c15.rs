//! Computer braille stretches: indicators around them, only computer braille rules inside.
use vharness::e2e::*;
use vharness::indic::*;
use vharness::model::*;
use vharness::selection::*;
use vharness::*;

fn main() {
    let mut run = Run::from_args(
        "random tables with begcomp, endcomp, compbrl, comp6 and ordinary rules (also nocross), texts and computer braille spans handed in by the caller; \
         non-trivial when some stretch is in computer braille",
        "texts of up to 10 characters over 9, up to 3 spans (also empty, overlapping and beyond the end), up to 3 triggers of up to 3 characters",
    );
    let al = ['a', 'b', 'c', ' ', ',', 'A', '1', 'a', 'b'];
    while run.time_left() {
        let mut r = run.rng.clone();
        let mut n = cells_from(&mut r);
        let mut t = base_table(&mut r, &mut n);
        t.undefined = Some(vec![0x3f]);
        let beg = r.chance(5, 6).then(|| cells(&[0x78]));
        let end = r.chance(3, 4).then(|| cells(&[0x79, 0x7a]));
        if beg.is_some() {
            t.extra.push(format!("begcomp {}", dots(0x78)));
        }
        if end.is_some() {
            t.extra.push(format!("endcomp {}", dotseq(&[0x79, 0x7a])));
        }
        let mut triggers: Vec<String> = vec![];
        for _ in 0..r.range(0, 3) {
            let x = r.string(&['a', 'b', 'c', ',', 'A'], 1, 3);
            t.extra.push(format!("compbrl {x}"));
            triggers.push(x);
        }
        for _ in 0..r.range(1, 5) {
            let op = if r.chance(1, 2) { "comp6" } else { *r.pick(&["always", "always", "word", "begword"]) };
            let mut x = RuleDef::new(op, &r.string(&['a', 'b', ' ', 'c', ','], 1, 3), &[128 | n.next()]);
            x.nocross = op == "always" && r.chance(1, 3);
            t.rules.push(x);
        }
        if r.chance(1, 3) {
            extras(&mut r, &mut n, &mut t, 2, 1, &vharness::passes::Shape { vars: 2, swaps: 0 });
        }
        // spaces are what the table calls a space: not every white space is one, nor the other way round
        let blank: Vec<char> = {
            let mut v = vec![' '];
            if r.chance(1, 3) {
                v.push('_');
                t.chars.push(CharDef { op: "space", c: '_', dots: vec![0] });
            }
            if r.chance(1, 3) {
                let c = *r.pick(&['\u{a0}', '\u{2003}', '\t']);
                t.chars.push(CharDef { op: *r.pick(&["space", "sign"]), c, dots: vec![0x60] });
                if t.chars.last().unwrap().op == "space" {
                    v.push(c);
                }
            }
            v
        };
        let al: Vec<char> = al.iter().copied().chain(t.chars.iter().map(|d| d.c).filter(|c| ['_', '\t', '\u{a0}', '\u{2003}'].contains(c))).collect();
        let mut cases = vec![];
        for _ in 0..40 {
            let s = r.string(&al, 0, 10);
            let l = s.chars().count();
            let mut v = vec![];
            for _ in 0..[0, 0, 1, 1, 2, 3][r.below(6)] {
                let a = r.range(0, l + 1);
                let b = r.range(a, l + 2);
                v.push((if r.chance(5, 6) { "computer_braille" } else { "italic" }.to_string(), a, b));
            }
            cases.push((s, v));
        }
        run.rng = r;
        let text = t.text();
        let m = t.model();
        run.case(&format!("{text}texts {cases:?}"), || {
            let tr = compile(&text, louis::Direction::Forward)?;
            let mut nt = false;
            for (s, spans) in &cases {
                let cs: Vec<char> = s.chars().collect();
                let n = cs.len();
                let mut st: Vec<(usize, usize)> =
                    spans.iter().filter(|x| x.0 == "computer_braille").map(|x| (x.1, x.2.min(n))).filter(|x| x.0 < x.1).collect();
                // words that contain a trigger, unless the same stretch is there already
                let given = spans.clone();
                for (a, b) in stretches(0, n, |i| !blank.contains(&cs[i])) {
                    let w: String = cs[a..b].iter().collect();
                    if triggers.iter().any(|x| w.contains(x.as_str())) && !given.contains(&("computer_braille".into(), a, b)) {
                        st.push((a, b));
                    }
                }
                nt |= !st.is_empty();
                let mut p = Positions { slots: vec![vec![]; n + 1], ..Default::default() };
                for (a, b) in &st {
                    p.comp6.extend(*a..*b);
                    if let Some(x) = &beg {
                        p.slots[*a].push(x.clone());
                        if let Some(y) = &end {
                            p.slots[*b].push(y.clone());
                        }
                    }
                }
                // the order of indicators of different stretches at one place is left open
                let mixed: Vec<usize> = (0..=n).filter(|i| p.slots[*i].len() > 1).collect();
                let out = translate(&tr, s, spans)?;
                let mut err = None;
                let mut all = vec![p.clone()];
                for i in mixed {
                    let ends = p.slots[i].iter().filter(|x| Some(*x) == end.as_ref()).count();
                    let mut next = vec![];
                    for order in 0usize..1 << p.slots[i].len() {
                        if order.count_ones() as usize == ends && all.len() * next.len() < 4000 {
                            for q in &all {
                                let mut q = q.clone();
                                q.slots[i] =
                                    (0..p.slots[i].len()).map(|k| if order >> k & 1 == 1 { end.clone().unwrap() } else { beg.clone().unwrap() }).collect();
                                next.push(q);
                            }
                        }
                    }
                    all = next;
                }
                for q in all {
                    err = m.accepts(&cs, &out, &q).err();
                    if err.is_none() {
                        break;
                    }
                }
                if let Some(e) = err {
                    return Err(("computer braille".into(), format!("text {s:?} spans {spans:?}: {e}")));
                }
            }
            Ok(nt)
        });
    }
    run.finish()
}
