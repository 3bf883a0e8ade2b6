//! Emphasis indicators.
use vharness::e2e::*;
use vharness::indic::*;
use vharness::*;

fn main() {
    let mut run = Run::from_args(
        "one to three emphasis classes with random subsets of their opcodes, texts and random overlapping spans of several classes (also reaching past \
         the end); exhaustive single spans on all texts of length <= 4 over {a,b,space,-} for every 16th table; non-trivial when an indicator is due",
        "texts of up to 12 characters, up to 4 spans, up to 3 classes",
    );
    let plain = |c: char| -> String {
        cell(match c {
            'a' => 1,
            'b' => 3,
            '-' => 0x24,
            '.' => 0x32,
            _ => 0,
        })
        .to_string()
    };
    let base = "lowercase a 1\nlowercase b 12\npunctuation - 36\npunctuation . 256\nspace \\s 0\n";
    let names = ["italic", "bold", "x"];
    let mut k = 0;
    while run.time_left() {
        let mut r = run.rng.clone();
        k += 1;
        let mut t = String::from(base);
        let nc = r.range(1, 3);
        let mut classes: Vec<Emph> = vec![];
        let mut c = 0u8;
        for name in &names[..nc] {
            t.push_str(&format!("emphclass {name}\n"));
            let mut e = Emph { name: name.to_string(), ..Default::default() };
            let mut op = |r: &mut Rng, p: (usize, usize), text: &str, t: &mut String| -> Option<String> {
                c += 1;
                if r.chance(p.0, p.1) {
                    t.push_str(&format!("{} {}\n", text, dots(0x80 | c)));
                    Some(cell(0x80 | c).to_string())
                } else {
                    None
                }
            };
            e.letter = op(&mut r, (1, 2), &format!("emphletter {name}"), &mut t);
            e.begword = op(&mut r, (1, 2), &format!("begemphword {name}"), &mut t);
            e.endword = op(&mut r, (1, 2), &format!("endemphword {name}"), &mut t);
            e.beg = op(&mut r, (1, 3), &format!("begemph {name}"), &mut t);
            e.end = op(&mut r, (2, 3), &format!("endemph {name}"), &mut t);
            e.begphrase = op(&mut r, (1, 2), &format!("begemphphrase {name}"), &mut t);
            let before = r.chance(1, 2);
            e.endphrase = op(&mut r, (1, 2), &format!("endemphphrase {name} {}", if before { "before" } else { "after" }), &mut t).map(|s| (before, s));
            if r.chance(1, 2) {
                let l = r.range(1, 4);
                e.len = Some(l);
                t.push_str(&format!("lenemphphrase {name} {l}\n"));
            }
            if r.chance(1, 4) {
                let m = *r.pick(&["-", "-.", "."]);
                e.mode = m.chars().collect();
                t.push_str(&format!("emphmodechars {name} {m}\n"));
            }
            if r.chance(1, 4) {
                let m = *r.pick(&["-", "b", "."]);
                e.no = m.chars().collect();
                t.push_str(&format!("noemphchars {name} {m}\n"));
            }
            classes.push(e);
        }
        let mut cases: Vec<(String, Vec<(String, usize, usize)>)> = vec![];
        for _ in 0..40 {
            let s = r.string(&['a', 'b', 'a', '-', '.', ' ', 'a', ' '], 0, 12);
            let n = s.chars().count();
            let starts = [r.range(0, n), r.range(0, n)];
            let spans = (0..r.range(1, 4))
                .map(|_| {
                    let a = if r.chance(1, 2) { starts[0] } else { *r.pick(&[starts[1], 0, 1]) };
                    let b = a + r.range(0, 8);
                    (r.pick(&names[..nc]).to_string(), a, b)
                })
                .collect();
            cases.push((s, spans));
        }
        if k % 16 == 0 {
            strings(&['a', 'b', ' ', '-'], 4, &mut |s| {
                let n = s.chars().count();
                for a in 0..n {
                    for b in a + 1..=n {
                        cases.push((s.into(), vec![(names[0].into(), a, b)]));
                    }
                }
                true
            });
        }
        run.rng = r;
        let space = [' '].into();
        run.case(&format!("{t}{} texts, e.g. {:?}", cases.len(), &cases[..2]), || {
            let tr = compile(&t, louis::Direction::Forward)?;
            let mut nt = false;
            for (s, spans) in &cases {
                let cs: Vec<char> = s.chars().collect();
                let ev = emphasis(&classes, &space, &cs, spans);
                nt |= !ev.is_empty();
                let sl = slots(cs.len(), &[ev]);
                let got = translate(&tr, s, spans)?;
                // match position by position, allowing the free orders
                let g: Vec<char> = got.chars().collect();
                let mut j = 0;
                for i in 0..=cs.len() {
                    let len: usize = sl[i].iter().map(|x| x.rsplit(':').next().unwrap().chars().count()).sum();
                    let have: String = g[j.min(g.len())..(j + len).min(g.len())].iter().collect();
                    let opts = permitted(&sl[i]);
                    let tail: String = if i < cs.len() { plain(cs[i]) } else { String::new() };
                    let next: String = g[(j + len).min(g.len())..(j + len + tail.chars().count()).min(g.len())].iter().collect();
                    if !opts.contains(&have) || next != tail {
                        return Err((
                            "emphasis".into(),
                            format!("text {s:?} spans {spans:?}: got {}; at character {i} found {}then {}; permitted: {:?} then {}", show(&got), show(&have), show(&next), opts.iter().map(|o| show(o)).collect::<Vec<_>>(), show(&tail)),
                        ));
                    }
                    j += len + tail.chars().count();
                }
                if j != g.len() {
                    return Err(("emphasis".into(), format!("text {s:?} spans {spans:?}: got {}: too much at the end", show(&got))));
                }
            }
            Ok(nt)
        });
    }
    run.finish()
}
