//! Hyphenation dictionaries, read independently: every pattern at every place of the word.
use std::collections::HashMap;

pub fn oracle(pats: &HashMap<Vec<char>, Vec<u32>>, left: usize, right: usize, word: &str) -> Vec<bool> {
    let n = word.chars().count();
    if n < 2 {
        return vec![];
    }
    let mut w = vec!['.'];
    w.extend(word.chars());
    w.push('.');
    (0..n - 1)
        .map(|i| {
            let g = i + 2; // gap before wrapped char g
            let mut best = 0;
            for a in 0..w.len() {
                for b in a + 1..=w.len() {
                    if a <= g && g <= b {
                        if let Some(t) = pats.get(&w[a..b]) {
                            best = best.max(t[g - a]);
                        }
                    }
                }
            }
            best % 2 == 1 && i + 1 >= left && n - (i + 1) >= right
        })
        .collect()
}

pub fn parse_oracle(lines: &[String]) -> HashMap<Vec<char>, Vec<u32>> {
    let mut m = HashMap::new();
    for l in lines {
        let mut letters = vec![];
        let mut t = vec![0u32];
        for c in l.chars() {
            if c.is_ascii_digit() {
                *t.last_mut().unwrap() = c as u32 - 48;
            } else {
                letters.push(c);
                t.push(0);
            }
        }
        m.insert(letters, t);
    }
    m
}
