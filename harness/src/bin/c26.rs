//! Backward translation: capital and number indicators.
use std::collections::{HashMap, HashSet};
use vharness::e2e::*;
use vharness::*;

fn main() {
    let mut run = Run::from_args(
        "random backward tables (letters, digits that share letter cells, contractions, capsletter, begcapsword, endcapsword, numsign, nonumsign with one \
         or two cells, prefixes of each other) and sequences of their cells; non-trivial when an indicator occurs",
        "inputs of up to 10 cells over the table's cells; exhaustive to length 4 over the indicators and three cells for every 8th table",
    );
    let mut k = 0;
    while run.time_left() {
        let mut r = run.rng.clone();
        k += 1;
        // single cells; indicators live outside of the letters' cells unless they collide on purpose
        let letters: Vec<(char, u8)> = ['a', 'b', 'c', 'ß'].iter().zip([1u8, 3, 9, 0x2e]).map(|(c, n)| (*c, n)).collect();
        let mut t = String::new();
        for (c, n) in &letters {
            t += &format!("{} {c} {}\n", r.pick(&["lowercase", "letter"]), dots(*n));
        }
        t += "space \\s 0\npunctuation - 36\n";
        let mut digits: Vec<(char, u8)> = vec![];
        for (c, n) in [('1', 1u8), ('2', 3), ('3', 0x19)] {
            if r.chance(3, 4) {
                t += &format!("{} {c} {}\n", r.pick(&["digit", "litdigit"]), dots(n));
                digits.push((c, n));
            }
        }
        let mut rules: HashMap<Vec<u8>, (u8, String)> = HashMap::new(); // cells -> rank, text
        let mut put = |cs: &[u8], rank: u8, s: &str| {
            let e = rules.entry(cs.to_vec()).or_insert((rank, s.into()));
            if rank > e.0 {
                *e = (rank, s.into());
            }
        };
        let mut letter_cells: HashSet<u8> = letters.iter().map(|x| x.1).collect();
        let letter_dots = letter_cells.clone();
        for (c, n) in &letters {
            put(&[*n], 0, &c.to_string());
        }
        put(&[0], 0, " ");
        put(&[0x24], 0, "-");
        for (c, n) in &digits {
            put(&[*n], 0, &c.to_string());
        }
        for _ in 0..r.range(0, 3) {
            let s = r.string(&['a', 'b', 'c', '-'], 2, 3);
            let cs: Vec<u8> = (0..r.range(1, 2)).map(|_| *r.pick(&[1u8, 3, 9, 0x3f, 0x3d, 0x20])).collect();
            t += &format!("always {s} {}\n", dotseq(&cs));
            put(&cs, 2, &s);
            if s.chars().all(|c| c.is_alphabetic()) {
                letter_cells.extend(&cs);
            }
        }
        let mut inds: Vec<Option<Vec<u8>>> = vec![];
        for op in ["capsletter", "begcapsword", "endcapsword", "numsign", "nonumsign"] {
            if !r.chance(4, 5) {
                inds.push(None);
                continue;
            }
            let cs: Vec<u8> = match r.below(8) {
                0 => vec![0x20, 0x20],
                1 => vec![*r.pick(&[0x20, 0x18]), *r.pick(&[0x20, 0x30])],
                2 => vec![*r.pick(&[1, 9])],
                3 => vec![0x24],
                _ => vec![*r.pick(&[0x20, 0x30, 0x3c, 0x10])],
            };
            t += &format!("{op} {}\n", dotseq(&cs));
            if cs.len() == 1 && letter_dots.contains(&cs[0]) {
                inds.push(None); // such an indicator cannot be told from the letter
                continue;
            }
            put(&cs, 1, "");
            inds.push(Some(cs));
        }
        let cellset: Vec<u8> = rules.keys().flatten().copied().collect::<HashSet<_>>().into_iter().collect::<std::collections::BTreeSet<_>>().into_iter().collect();
        let mut inputs: Vec<Vec<u8>> = vec![];
        for _ in 0..60 {
            let mut v = vec![];
            for _ in 0..r.range(0, 6) {
                if r.chance(1, 3) {
                    if let Some(i) = r.pick(&inds) {
                        v.extend(i);
                    }
                } else {
                    v.push(*r.pick(&cellset));
                }
            }
            inputs.push(v);
        }
        if k % 8 == 0 {
            let mut al: Vec<char> = vec!['\u{2801}', '\u{2803}', '\u{2800}'];
            al.extend(inds.iter().flatten().flatten().map(|c| cell(*c)));
            al.sort();
            al.dedup();
            strings(&al, 4, &mut |s| {
                inputs.push(s.chars().map(|c| (c as u32 - 0x2800) as u8).collect());
                true
            });
        }
        run.rng = r;
        let digit_cells: HashSet<u8> = digits.iter().map(|d| d.1).collect();
        run.case(&format!("{t}cells e.g. {:?}", &inputs[..4]), || {
            let tr = compile(&t, louis::Direction::Backward)?;
            let mut nt = false;
            for v in &inputs {
                if !v.iter().all(|c| rules.contains_key(&vec![*c])) {
                    // some cell has no reading of its own: covered by the check for undefined characters
                    continue;
                }
                let n = v.len();
                let at = |i: &Option<Vec<u8>>, p: usize| i.as_ref().is_some_and(|i| v[p.min(n)..].starts_with(i));
                let len = |i: &Option<Vec<u8>>| i.as_ref().map_or(0, |i| i.len());
                // capitals
                let (mut upper, mut title) = (vec![false; n + 1], vec![false; n + 1]);
                let mut p = 0;
                let mut word = false;
                while p < n || word {
                    if word {
                        if at(&inds[2], p) {
                            p += len(&inds[2]);
                            word = false;
                        } else if p < n && letter_cells.contains(&v[p]) {
                            upper[p] = true;
                            p += 1;
                        } else {
                            word = false;
                        }
                    } else if at(&inds[1], p) {
                        p += len(&inds[1]);
                        word = true;
                        nt = true;
                    } else if at(&inds[0], p) {
                        p += len(&inds[0]);
                        title[p] = true;
                        nt = true;
                    } else {
                        p += 1;
                    }
                }
                // numbers
                let mut num = vec![false; n];
                let (mut p, mut on) = (0, false);
                while p < n {
                    if at(&inds[3], p) && (p == 0 || !letter_cells.contains(&v[p - 1])) {
                        p += len(&inds[3]);
                        on = true;
                        nt = true;
                    } else if on && at(&inds[4], p) {
                        p += len(&inds[4]);
                        on = false;
                    } else {
                        on = on && digit_cells.contains(&v[p]);
                        num[p] = on;
                        p += 1;
                    }
                }
                let mut want = String::new();
                let mut p = 0;
                while p < n {
                    let (l, s) = (1..=n - p).rev().find_map(|l| rules.get(&v[p..p + l]).map(|s| (l, s.1.clone()))).unwrap();
                    let s = match digits.iter().find(|d| l == 1 && num[p] && d.1 == v[p] && letter_dots.contains(&v[p])) {
                        Some(d) => digits.iter().rfind(|e| e.1 == d.1).unwrap().0.to_string(),
                        None => s,
                    };
                    want += &if upper[p] {
                        s.to_uppercase()
                    } else if title[p] {
                        let mut c = s.chars();
                        c.next().map_or(String::new(), |f| f.to_uppercase().chain(c).collect())
                    } else {
                        s
                    };
                    p += l;
                }
                let got = translate(&tr, &cells(v), &[])?;
                if got != want {
                    return Err(("backward indicators".into(), format!("cells {v:?} ({}): got {got:?}, expected {want:?}", show(&cells(v)))));
                }
            }
            Ok(nt)
        });
    }
    run.finish()
}
