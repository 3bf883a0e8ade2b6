//! Where indicators belong, read from the property texts: every function returns
//! (position, cells) pairs in the order in which indicators of one position follow each other.
use crate::model::Numeric;
use std::collections::HashSet;
pub type Ev = Vec<(usize, String)>;
pub fn slots(n: usize, all: &[Ev]) -> Vec<Vec<String>> {
    let mut v = vec![vec![]; n + 1];
    for e in all {
        for (p, s) in e {
            v[*p].push(s.clone());
        }
    }
    v
}
/// maximal stretches of a..b on which f holds
pub fn stretches(a: usize, b: usize, f: impl Fn(usize) -> bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for i in a..b {
        if f(i) {
            if i == a || !f(i - 1) {
                v.push((i, i));
            }
            v.last_mut().unwrap().1 = i + 1;
        }
    }
    v
}
pub fn numeric(num: &Numeric, sign: &Option<String>, off: &Option<String>, s: &[char]) -> Ev {
    let mut v = vec![];
    if let Some(on) = sign {
        for (a, b) in num.runs(s) {
            v.push((a, on.clone()));
            if b < s.len() && num.nocont.contains(&s[b]) && let Some(o) = off {
                v.push((b, o.clone()));
            }
        }
    }
    v
}
#[derive(Default, Clone, Debug)]
pub struct Caps {
    pub letter: Option<String>,
    pub begword: Option<String>,
    pub endword: Option<String>,
    pub beg: Option<String>,
    pub end: Option<String>,
    pub begphrase: Option<String>,
    pub endphrase: Option<(bool, String)>, // before the last word?
    pub len: Option<usize>,
    pub mode: HashSet<char>,
}
pub struct Letters {
    pub letter: HashSet<char>,
    pub upper: HashSet<char>,
    pub space: HashSet<char>,
    pub punct: HashSet<char>,
}
fn one(v: &mut Ev, p: usize, t: &Option<String>) {
    if let Some(t) = t {
        v.push((p, t.clone()));
    }
}
pub fn caps(k: &Caps, l: &Letters, s: &[char]) -> Ev {
    let mut v: Ev = vec![];
    if k.letter.is_none() && k.begword.is_none() && k.beg.is_none() && k.begphrase.is_none() {
        return v;
    }
    let up = |i: usize| l.letter.contains(&s[i]) && l.upper.contains(&s[i]);
    let low = |i: usize| l.letter.contains(&s[i]) && !l.upper.contains(&s[i]);
    let every = |v: &mut Ev, a: usize, b: usize| {
        for i in a..b {
            if up(i) {
                one(v, i, &k.letter);
            }
        }
    };
    // one capitalised word a..b
    let word = |v: &mut Ev, a: usize, b: usize| {
        let n = (a..b).filter(|i| up(*i)).count();
        if n == 1 && k.letter.is_some() {
            one(v, a, &k.letter)
        } else if k.begword.is_some() {
            one(v, a, &k.begword)
        } else if k.beg.is_some() {
            one(v, a, &k.beg);
            one(v, b, &k.end)
        } else {
            every(v, a, b)
        }
    };
    let words = stretches(0, s.len(), |i| l.letter.contains(&s[i]) || k.mode.contains(&s[i]));
    let mut group: Vec<(usize, usize)> = vec![];
    let flush = |v: &mut Ev, g: &mut Vec<(usize, usize)>| {
        if g.is_empty() {
            return;
        }
        let real = 1 + g.windows(2).filter(|w| s[w[0].1..w[1].0].iter().any(|c| l.space.contains(c))).count();
        let (a, z) = (g[0].0, g[g.len() - 1].1);
        if real >= k.len.unwrap_or(2) && k.begphrase.is_some() {
            one(v, a, &k.begphrase);
            match &k.endphrase {
                Some((true, _)) => word(v, g[g.len() - 1].0, z),
                Some((false, t)) => v.push((z, t.clone())),
                None => one(v, z, &k.end),
            }
        } else if real >= k.len.unwrap_or(2) && k.beg.is_some() {
            one(v, a, &k.beg);
            one(v, z, &k.end);
        } else {
            for (x, y) in g.iter() {
                word(v, *x, *y);
            }
        }
        g.clear();
    };
    for (a, b) in words {
        let ups: Vec<usize> = (a..b).filter(|i| up(*i)).collect();
        if !ups.is_empty() && !(a..b).any(low) {
            group.push((ups[0], ups[ups.len() - 1] + 1));
            continue;
        }
        flush(&mut v, &mut group);
        // runs of capitals between the small letters of a mixed word
        let mut i = a;
        while i < b {
            if !up(i) {
                i += 1;
                continue;
            }
            let lo = (i..b).find(|j| low(*j)).unwrap_or(b);
            let members: Vec<usize> = (i..lo).filter(|j| up(*j)).collect();
            let last = members[members.len() - 1] + 1;
            let closed = lo == b; // nothing but mode characters behind it
            if members.len() == 1 && k.letter.is_some() {
                one(&mut v, i, &k.letter)
            } else if k.begword.is_some() && closed {
                one(&mut v, i, &k.begword)
            } else if k.begword.is_some() && k.endword.is_some() {
                one(&mut v, i, &k.begword);
                one(&mut v, lo, &k.endword)
            } else if k.beg.is_some() {
                one(&mut v, i, &k.beg);
                one(&mut v, last, &k.end)
            } else {
                every(&mut v, i, last)
            }
            i = lo;
        }
    }
    flush(&mut v, &mut group);
    v.sort_by_key(|e| e.0);
    v
}
#[derive(Default, Clone, Debug)]
pub struct Emph {
    pub name: String,
    pub letter: Option<String>,
    pub begword: Option<String>,
    pub endword: Option<String>,
    pub beg: Option<String>,
    pub end: Option<String>,
    pub begphrase: Option<String>,
    pub endphrase: Option<(bool, String)>,
    pub len: Option<usize>,
    pub mode: HashSet<char>,
    pub no: HashSet<char>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Plain,
    Open(usize),
    Close(usize),
}
pub fn emphasis(classes: &[Emph], space: &HashSet<char>, s: &[char], spans: &[(String, usize, usize)]) -> Ev {
    let n = s.len();
    let mut all: Vec<(usize, usize, K, usize, String)> = vec![]; // position, running number, kind, class, cells
    for (ci, k) in classes.iter().enumerate() {
        if k.letter.is_none() && k.begword.is_none() && k.beg.is_none() && k.begphrase.is_none() {
            continue;
        }
        let sep = |i: usize| if k.mode.is_empty() { space.contains(&s[i]) } else { k.mode.contains(&s[i]) };
        let on = |i: usize| spans.iter().any(|(c, a, b)| *c == k.name && *a <= i && i < *b) && !k.no.contains(&s[i]);
        let mut put = |p: usize, kind: K, t: &Option<String>| {
            if let Some(t) = t {
                all.push((p, all.len(), kind, ci, t.clone()));
            }
        };
        for (a, b) in stretches(0, n, on) {
            let inner: Vec<usize> = (a..b).filter(|i| !sep(*i)).collect();
            if k.beg.is_some() {
                let st = inner.first().copied().unwrap_or(a);
                put(st, K::Open(b), &k.beg);
                put(inner.last().map_or(b, |x| x + 1), K::Close(st), &k.end);
                continue;
            }
            if inner.is_empty() {
                continue;
            }
            let words = stretches(a, b, |i| !sep(i));
            let (first, last) = (inner[0], inner[inner.len() - 1] + 1);
            let clean = (first == 0 || sep(first - 1)) && (last == n || sep(last));
            let mut word = |w: (usize, usize)| if w.1 - w.0 == 1 && k.letter.is_some() { put(w.0, K::Plain, &k.letter) } else { put(w.0, K::Plain, &k.begword) };
            if clean {
                if k.begphrase.is_some() && words.len() >= k.len.unwrap_or(4) {
                    let before = k.endphrase.as_ref().is_none_or(|e| e.0);
                    let lastw = words[words.len() - 1];
                    if before {
                        put(words[0].0, K::Plain, &k.begphrase);
                        let mut word = |w: (usize, usize)| if w.1 - w.0 == 1 && k.letter.is_some() { put(w.0, K::Plain, &k.letter) } else { put(w.0, K::Plain, &k.begword) };
                        word(lastw);
                    } else {
                        put(words[0].0, K::Plain, &k.begphrase);
                        put(lastw.1, K::Plain, &k.endphrase.as_ref().map(|e| e.1.clone()));
                    }
                } else {
                    for w in &words {
                        word(*w);
                    }
                }
            } else if inner.len() == 1 && k.letter.is_some() {
                put(first, K::Plain, &k.letter);
            } else if k.begword.is_some() {
                put(a, K::Plain, &k.begword);
                if b < n && !sep(b) {
                    put(b, K::Plain, &k.endword);
                }
            } else if k.begphrase.is_some() {
                put(a, K::Plain, &k.begphrase);
                if b < n {
                    put(b, K::Plain, &k.endphrase.as_ref().map(|e| e.1.clone()));
                }
            }
        }
    }
    all.sort_by_key(|e| (e.0, e.1));
    all.into_iter().map(|e| (e.0, kindtag(e.2, e.3, &e.4))).collect()
}
/// the kind travels with the cells so that `stack_order` can judge the order within a position
fn kindtag(k: K, class: usize, t: &str) -> String {
    match k {
        K::Plain => format!("P:0:{class}:{t}"),
        K::Open(e) => format!("O:{e}:{class}:{t}"),
        K::Close(s) => format!("C:{s}:{class}:{t}"),
    }
}
fn untag(t: &str) -> (char, usize, usize, String) {
    let p: Vec<&str> = t.splitn(4, ':').collect();
    (p[0].chars().next().unwrap(), p[1].parse().unwrap(), p[2].parse().unwrap(), p[3].to_string())
}
/// all arrangements of one position's emphasis cells that the stack rule permits: opens among
/// themselves from the outermost to the innermost, closes the other way round; the opens and
/// closes of one class and everything else are free
pub fn permitted(slot: &[String]) -> Vec<String> {
    let items: Vec<_> = slot.iter().map(|t| untag(t)).collect();
    let before = |x: &(char, usize, usize, String), y: &(char, usize, usize, String)| match (x.0, y.0) {
        ('O', 'O') => x.1 > y.1 || (x.1 == y.1 && x.2 > y.2),
        ('C', 'C') => x.1 > y.1 || (x.1 == y.1 && x.2 < y.2),
        _ => false,
    };
    let mut out = vec![];
    fn go(left: Vec<usize>, cur: String, items: &[(char, usize, usize, String)], before: &dyn Fn(&(char, usize, usize, String), &(char, usize, usize, String)) -> bool, out: &mut Vec<String>) {
        if left.is_empty() {
            out.push(cur);
            return;
        }
        for &i in &left {
            if left.iter().any(|&j| j != i && before(&items[j], &items[i])) {
                continue;
            }
            let mut c = cur.clone();
            c.push_str(&items[i].3);
            go(left.iter().copied().filter(|j| *j != i).collect(), c, items, before, out);
        }
    }
    go((0..items.len()).collect(), String::new(), &items, &before, &mut out);
    out.sort();
    out.dedup();
    out
}
