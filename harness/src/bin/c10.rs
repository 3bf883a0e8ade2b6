//! Hyphenation points = Liang's algorithm.
use vharness::hyph::*;
use vharness::*;

fn one(run: &mut Run, pats: &[String], left: Option<usize>, right: Option<usize>, words: &[String]) {
    let mut dic = String::from("UTF-8\n");
    if let Some(l) = left {
        dic.push_str(&format!("LEFTHYPHENMIN {l}\n"));
    }
    if let Some(r) = right {
        dic.push_str(&format!("RIGHTHYPHENMIN {r}\n"));
    }
    dic.push_str("% comment\n# comment\n\n");
    for p in pats {
        dic.push_str(p);
        dic.push('\n');
    }
    let m = parse_oracle(pats);
    let input = format!("dic:\n{dic}words: {words:?}");
    run.case(&input, || {
        let got = louis::verif::breaks(&dic, words).map_err(|e| ("dic rejected".to_string(), e))?;
        let mut nt = false;
        for (w, g) in words.iter().zip(&got) {
            let want = oracle(&m, left.unwrap_or(1), right.unwrap_or(1), w);
            nt |= want.iter().any(|b| *b);
            if *g != want {
                return Err(("break points".into(), format!("word {w:?}: got {g:?}, expected {want:?}")));
            }
        }
        Ok(nt)
    });
}

fn main() {
    let mut run = Run::from_args(
        "random .dic files (patterns over {a,b,c,ä,'.'} with digits 0..9, optional minima) and words; \
         non-trivial when at least one word has a break",
        "words of up to 22 chars over 4 letters, up to 14 patterns of up to 16 letters, minima 0..6",
    );
    let al = ['a', 'b', 'c', 'ä'];
    // all single patterns with one digit, exhaustively, on all short words
    let mut words: Vec<String> = vec![];
    strings(&['a', 'b'], 5, &mut |s| {
        words.push(s.to_string());
        true
    });
    for core in ["a", "b", "ab", ".a", "b.", "aba", ".ab", "ba."] {
        let cs: Vec<char> = core.chars().collect();
        for pos in 0..=cs.len() {
            for d in 1..=4 {
                let mut p: String = cs[..pos].iter().collect();
                p.push_str(&d.to_string());
                p.extend(&cs[pos..]);
                for (l, r) in [(None, None), (Some(2), Some(3)), (Some(0), Some(0)), (Some(1), Some(2))] {
                    one(&mut run, &[p.clone()], l, r, &words);
                }
            }
        }
    }
    while run.time_left() {
        let mut r = run.rng.clone();
        let np = r.range(1, 14);
        let mut pats = vec![];
        for _ in 0..np {
            let n = if r.chance(1, 6) { r.range(6, 16) } else { r.range(1, 5) };
            let mut p = String::new();
            let mut has = false;
            if r.chance(1, 5) {
                p.push('.');
            }
            for _ in 0..n {
                if r.chance(2, 5) {
                    let d = r.range(0, 9);
                    has |= d > 0;
                    p.push_str(&d.to_string());
                }
                p.push(*r.pick(&al[..if np > 6 { 2 } else { 4 }]));
            }
            if r.chance(1, 5) {
                p.push('.');
            }
            if !has {
                p.push_str(&r.range(1, 9).to_string());
            }
            // a digit that is overwritten by a later one in the same gap can leave an all-zero pattern
            let t = parse_oracle(&[p.clone()]);
            if t.values().all(|t| t.iter().all(|v| *v == 0)) {
                continue;
            }
            pats.push(p);
        }
        let min = |r: &mut Rng| if r.chance(1, 2) { None } else { Some(r.range(0, 6)) };
        let (l, rr) = (min(&mut r), min(&mut r));
        let words: Vec<String> = (0..12)
            .map(|_| {
                // the letters of a pattern with something around them, or any letters
                if r.chance(1, 3) && !pats.is_empty() {
                    let core: String = r.pick(&pats).chars().filter(|c| al.contains(c)).collect();
                    format!("{}{core}{}", r.string(&al, 0, 3), r.string(&al, 0, 3))
                } else {
                    r.string(&al, 0, 9)
                }
            })
            .collect();
        run.rng = r;
        one(&mut run, &pats, l, rr, &words);
    }
    // the huge-minimum corner: no break anywhere, no overflow
    for (l, r) in [(usize::MAX, 1), (1, usize::MAX), (usize::MAX, usize::MAX)] {
        one(&mut run, &["a1b".to_string()], Some(l), Some(r), &["abab".to_string()]);
    }
    run.finish()
}
