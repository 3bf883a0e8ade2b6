//! An independent reading of correct / pass2 / pass3 / pass4: tests, actions, variables, swap classes.
use crate::e2e::*;
use crate::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum Item {
    Lit(Vec<char>),
    NotLit(char),
    Class(String, u8, Option<u8>, String), // set name, min, max, source of the quantifier
    NotClass(String),
    Var(u8, &'static str, u8),
    NotVar(u8, &'static str, u8),
    Start(bool),
    End(bool),
    Lookback(u8),
}
#[derive(Clone, Debug)]
pub enum Act {
    Lit(String),
    Copy,
    Drop,
    Swap(String),
    Set(u8, u8),
    Inc(u8),
    Dec(u8),
}
#[derive(Clone, Debug)]
pub struct PassRule {
    pub stage: usize, // 0 correct, 2..4 pass2..pass4
    pub before: Vec<Item>,
    pub inside: Vec<Item>,
    pub after: Vec<Item>,
    pub bracket: bool,
    pub act: Vec<Act>,
    pub dir: u8, // 0 both, 1 noback, 2 nofor
}
pub type Set = BTreeSet<char>;
#[derive(Clone, Debug, Default)]
pub struct Passes {
    pub defs: Vec<(&'static str, char, u8)>,
    pub attrs: Vec<(String, String)>,
    pub swaps: Swaps, // name, opcode, mapping
    pub rules: Vec<PassRule>,
}
fn dot(c: char) -> String {
    dots((c as u32 - 0x2800) as u8)
}
fn dseq(s: &[char]) -> String {
    s.iter().map(|c| dot(*c)).collect::<Vec<_>>().join("-")
}
fn is_cell(c: char) -> bool {
    (0x2800..0x2900).contains(&(c as u32))
}
fn esc_str(s: &[char]) -> String {
    s.iter().map(|c| if *c == ' ' { "\\s".into() } else { c.to_string() }).collect()
}
fn item_text(i: &Item) -> String {
    let class = |n: &str| if n.len() == 1 { format!("${n}") } else { format!("%{n}") };
    match i {
        Item::Lit(s) if s.iter().all(|c| is_cell(*c)) && !s.is_empty() => format!("@{}", dseq(s)),
        Item::Lit(s) => format!("\"{}\"", esc_str(s)),
        Item::NotLit(c) => format!("!{}", item_text(&Item::Lit(vec![*c]))),
        Item::Class(n, _, _, q) => format!("{}{q}", class(n)),
        Item::NotClass(n) => format!("!{}", class(n)),
        Item::Var(v, o, k) => format!("#{v}{o}{k}"),
        Item::NotVar(v, o, k) => format!("!#{v}{o}{k}"),
        Item::Start(y) => (if *y { "`" } else { "!`" }).into(),
        Item::End(y) => (if *y { "~" } else { "!~" }).into(),
        Item::Lookback(n) => format!("_{n}"),
    }
}
impl PassRule {
    pub fn text(&self) -> String {
        let items = |v: &Vec<Item>| v.iter().map(item_text).collect::<String>();
        let test = if self.bracket {
            format!("{}[{}]{}", items(&self.before), items(&self.inside), items(&self.after))
        } else {
            items(&self.inside)
        };
        let act: String = self
            .act
            .iter()
            .map(|a| match a {
                Act::Lit(s) if !s.is_empty() && s.chars().all(is_cell) => format!("@{}", dseq(&s.chars().collect::<Vec<_>>())),
                Act::Lit(s) => format!("\"{}\"", esc_str(&s.chars().collect::<Vec<_>>())),
                Act::Copy => "*".into(),
                Act::Drop => "?".into(),
                Act::Swap(n) => format!("%{n}"),
                Act::Set(v, k) => format!("#{v}={k}"),
                Act::Inc(v) => format!("#{v}+"),
                Act::Dec(v) => format!("#{v}-"),
            })
            .collect();
        format!(
            "{}{} {test} {act}",
            ["", "noback ", "nofor "][self.dir as usize],
            ["correct", "context", "pass2", "pass3", "pass4"][self.stage]
        )
    }
}
pub type Swaps = Vec<(String, &'static str, Vec<(char, String)>)>;
pub struct Ctx<'a> {
    pub swaps: &'a Swaps,
    pub sets: BTreeMap<String, Set>,
}
pub type Env = BTreeMap<u8, u8>;
fn var_ok(env: &Env, v: u8, o: &str, k: u8) -> bool {
    let x = env.get(&v).copied().unwrap_or(0);
    match o {
        "=" => x == k,
        "<" => x < k,
        ">" => x > k,
        "<=" => x <= k,
        _ => x >= k,
    }
}
/// all ways in which the items match at i, in order of preference
fn ends(c: &Ctx, items: &[Item], s: &[char], from: usize, i: usize, env: &Env) -> Vec<usize> {
    let Some((first, rest)) = items.split_first() else { return vec![i] };
    let next: Vec<usize> = match first {
        Item::Lit(l) => {
            if s[i..].starts_with(l) {
                vec![i + l.len()]
            } else {
                vec![]
            }
        }
        Item::NotLit(l) => if i < s.len() && s[i] != *l { vec![i + 1] } else { vec![] },
        Item::Class(n, min, max, _) => {
            let set = &c.sets[n];
            let mut k = 0;
            while i + k < s.len() && max.is_none_or(|m| k < m as usize) && set.contains(&s[i + k]) {
                k += 1;
            }
            if k < *min as usize { vec![] } else { (*min as usize..=k).rev().map(|k| i + k).collect() }
        }
        Item::NotClass(n) => if i < s.len() && !c.sets[n].contains(&s[i]) { vec![i + 1] } else { vec![] },
        Item::Var(v, o, k) => if var_ok(env, *v, o, *k) { vec![i] } else { vec![] },
        Item::NotVar(v, o, k) => if !var_ok(env, *v, o, *k) { vec![i] } else { vec![] },
        Item::Start(y) => if (from == 0 && i == 0) == *y { vec![i] } else { vec![] },
        Item::End(y) => if (i == s.len()) == *y { vec![i] } else { vec![] },
        Item::Lookback(_) => vec![i],
    };
    next.into_iter().flat_map(|j| ends(c, rest, s, from, j, env)).collect()
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Hit {
    pub at: usize,
    pub len: usize,
    pub weight: usize,
    pub out: String,
    pub rule: usize,
}
pub fn apply(acts: &[Act], env: &mut Env) {
    for a in acts {
        match a {
            Act::Set(v, k) => {
                env.insert(*v, *k);
            }
            Act::Inc(v) => {
                let x = env.entry(*v).or_insert(0);
                *x = x.saturating_add(1);
            }
            Act::Dec(v) => {
                let x = env.entry(*v).or_insert(0);
                *x = x.saturating_sub(1);
            }
            _ => (),
        }
    }
}
pub fn hit(c: &Ctx, k: usize, r: &PassRule, s: &[char], i: usize, env: &Env) -> Option<Hit> {
    for a in ends(c, &r.before, s, i, i, env) {
        for b in ends(c, &r.inside, s, i, a, env) {
            if let Some(e) = ends(c, &r.after, s, i, b, env).first() {
                let cap: Vec<char> = s[a..b].to_vec();
                let out = r
                    .act
                    .iter()
                    .map(|x| match x {
                        Act::Lit(t) => t.clone(),
                        Act::Copy => cap.iter().collect(),
                        Act::Swap(n) => {
                            let m = &c.swaps.iter().find(|w| w.0 == *n).unwrap().2;
                            cap.iter().map(|ch| m.iter().rev().find(|(x, _)| x == ch).map_or(ch.to_string(), |(_, y)| y.clone())).collect()
                        }
                        _ => String::new(),
                    })
                    .collect();
                return Some(Hit { at: a, len: b - a, weight: e - i, out, rule: k });
            }
        }
    }
    None
}
fn go(c: &Ctx, rules: &[PassRule], s: &[char], pos: usize, seen: &[(String, String, usize, usize)], later: &[Hit], env: &Env, out: &str, res: &mut BTreeSet<String>, fuel: &mut usize) {
    if *fuel == 0 {
        return;
    }
    *fuel -= 1;
    let found: Vec<Hit> = rules.iter().enumerate().filter_map(|(k, r)| hit(c, k, r, s, pos, env)).collect();
    let mut later: Vec<Hit> = later.iter().filter(|h| h.at >= pos).cloned().collect();
    later.extend(found.iter().filter(|h| h.at > pos).cloned());
    let sub = |h: &Hit| (s[h.at..h.at + h.len].iter().collect::<String>(), h.out.clone(), h.len, h.weight);
    let mut cand: Vec<Hit> = found.into_iter().filter(|h| h.at == pos).collect();
    cand.extend(later.iter().filter(|h| h.at == pos).cloned());
    later.retain(|h| h.at > pos);
    cand.retain(|h| !seen.contains(&sub(h)));
    if let Some(w) = cand.iter().map(|h| h.weight).max() {
        cand.retain(|h| h.weight == w);
        let mut tried: Vec<Hit> = vec![];
        for h in cand {
            if tried.contains(&h) {
                continue;
            }
            tried.push(h.clone());
            let mut e = env.clone();
            apply(&rules[h.rule].act, &mut e);
            let mut sn = seen.to_vec();
            if h.len == 0 { sn.push(sub(&h)) } else { sn.clear() }
            go(c, rules, s, pos + h.len, &sn, &later, &e, &format!("{out}{}", h.out), res, fuel);
        }
    } else if pos < s.len() {
        go(c, rules, s, pos + 1, &[], &later, env, &format!("{out}{}", s[pos]), res, fuel);
    } else {
        res.insert(out.to_string());
    }
}
pub fn swaps_text(swaps: &Swaps) -> String {
    let mut o = String::new();
    for (n, op, m) in swaps {
        let keys: Vec<char> = m.iter().map(|x| x.0).collect();
        let k = if *op == "swapdd" { keys.iter().map(|c| dot(*c)).collect::<Vec<_>>().join(",") } else { chs(&keys.iter().collect::<String>()) };
        let v = if *op == "swapcc" {
            chs(&m.iter().map(|x| x.1.as_str()).collect::<String>())
        } else {
            m.iter().map(|x| dseq(&x.1.chars().collect::<Vec<_>>())).collect::<Vec<_>>().join(",")
        };
        o += &format!("{op} {n} {k} {v}\n");
    }
    o
}
impl Passes {
    pub fn text(&self) -> String {
        let mut o = String::new();
        for (op, c, d) in &self.defs {
            o += &format!("{op} {} {}\n", ch(*c), dots(*d));
        }
        for (n, cs) in &self.attrs {
            o += &format!("attribute {n} {}\n", chs(cs));
        }
        o += &swaps_text(&self.swaps);
        for r in &self.rules {
            o += &r.text();
            o += "\n";
        }
        o
    }
    pub fn cell(&self, c: char) -> Option<char> {
        self.defs.iter().find(|d| d.1 == c).map(|d| cell(d.2))
    }
    pub fn sets(&self, braille: bool) -> BTreeMap<String, Set> {
        let mut m: BTreeMap<String, Set> = ["l", "d", "s", "p", "U", "u", "foo", "swa", "swb", "swc"].iter().map(|n| (n.to_string(), Set::new())).collect();
        for (op, c, d) in &self.defs {
            let x = if braille { cell(*d) } else { *c };
            let names: &[&str] = match *op {
                "lowercase" => &["l", "u"],
                "uppercase" => &["l", "U"],
                "letter" => &["l"],
                "digit" => &["d"],
                "space" => &["s"],
                _ => &["p"],
            };
            for n in names {
                m.get_mut(*n).unwrap().insert(x);
            }
        }
        let put = |m: &mut BTreeMap<String, Set>, n: &str, c: char| {
            if is_cell(c) || !braille {
                m.get_mut(n).unwrap().insert(c);
            } else if let Some(x) = self.cell(c) {
                m.get_mut(n).unwrap().insert(x);
            }
        };
        for (n, cs) in &self.attrs {
            for c in cs.chars() {
                put(&mut m, n, c);
            }
        }
        for (n, _, map) in &self.swaps {
            for (c, _) in map {
                put(&mut m, n, *c);
            }
        }
        m
    }
    fn pass(&self, stage: usize, back: bool, s: &str) -> Option<BTreeSet<String>> {
        let rules: Vec<PassRule> = self
            .rules
            .iter()
            .filter(|r| r.stage == stage && r.dir != if back { 1 } else { 2 } && (!back || r.act.iter().any(|a| matches!(a, Act::Lit(_)))))
            .cloned()
            .collect();
        let c = Ctx { swaps: &self.swaps, sets: self.sets(stage > 0) };
        let v: Vec<char> = s.chars().collect();
        let mut res = BTreeSet::new();
        let mut fuel = 3000;
        go(&c, &rules, &v, 0, &[], &[], &Env::new(), "", &mut res, &mut fuel);
        if fuel == 0 || res.len() > 24 { None } else { Some(res) }
    }
    /// every permitted result; None when there are too many to tell
    pub fn results(&self, back: bool, input: &str) -> Option<BTreeSet<String>> {
        let mut cur: BTreeSet<String> = [input.to_string()].into();
        let order: [usize; 5] = if back { [4, 3, 2, 1, 0] } else { [0, 1, 2, 3, 4] };
        for stage in order {
            let mut next = BTreeSet::new();
            for s in &cur {
                if stage == 1 {
                    // characters and cells without a definition are C09's business
                    let mut o = String::new();
                    for c in s.chars() {
                        o.push(if back { self.defs.iter().find(|d| cell(d.2) == c)?.1 } else { self.cell(c)? });
                    }
                    next.insert(o);
                } else if self.rules.iter().any(|r| r.stage == stage) {
                    next.extend(self.pass(stage, back, s)?);
                } else {
                    next.insert(s.clone());
                }
            }
            if next.len() > 24 {
                return None;
            }
            cur = next;
        }
        Some(cur)
    }
}
const TEXT: [char; 6] = ['a', 'b', 'c', 'A', '1', ' '];
pub struct Shape {
    pub vars: usize,  // per 12 items
    pub swaps: usize, // per 12 actions
}
pub fn base() -> Passes {
    Passes {
        defs: vec![("space", ' ', 0), ("lowercase", 'a', 1), ("lowercase", 'b', 3), ("letter", 'c', 9), ("uppercase", 'A', 65), ("digit", '1', 2), ("punctuation", ',', 4), ("letter", 'x', 56), ("punctuation", '!', 44), ("letter", 'd', 8), ("letter", 'e', 5), ("letter", 'f', 12)],
        ..Default::default()
    }
}
/// rules that look for parts of the same text and replace different stretches of it
pub fn rivals(r: &mut Rng, p: &Passes, stage: usize, n: usize) -> Vec<PassRule> {
    let br = stage > 1;
    let len = if r.chance(1, 2) { r.range(3, 14) } else { r.range(1, 4) };
    let w: Vec<char> = (0..len).map(|_| sym(r, p, br)).collect();
    (0..n)
        .map(|k| {
            let a = r.below(2).min(w.len() - 1);
            let b = r.range(a + 1, w.len());
            let b = if r.chance(1, 2) { w.len() } else { b };
            let (i, j) = (r.range(a, b), r.range(a, b));
            let (i, j) = (i.min(j), i.max(j));
            let lit = |x: usize, y: usize| if x < y { vec![Item::Lit(w[x..y].to_vec())] } else { vec![] };
            let sign = if stage > 0 { cell(64 + k as u8) } else { ['x', 'd', 'e', 'f', '!'][k % 5] };
            PassRule { stage, before: lit(a, i), inside: lit(i, j), after: lit(j, b), bracket: true, act: vec![Act::Lit(sign.to_string())], dir: 0 }
        })
        .collect()
}
fn sym(r: &mut Rng, p: &Passes, braille: bool) -> char {
    let c = *r.pick(&TEXT);
    if braille { p.cell(c).unwrap() } else { c }
}
fn item(r: &mut Rng, p: &Passes, braille: bool, sh: &Shape) -> Item {
    if r.below(12) < sh.vars {
        let (v, o, k) = (r.range(1, 2) as u8, *r.pick(&["=", "=", "<", ">", "<=", ">="]), r.below(4) as u8);
        return if r.chance(1, 6) { Item::NotVar(v, o, k) } else { Item::Var(v, o, k) };
    }
    match r.below(16) {
        0..=6 => {
            let hi = if r.chance(1, 6) { 6 } else { 2 };
            Item::Lit((0..r.range(1, hi)).map(|_| sym(r, p, braille)).collect())
        }
        7 => Item::NotLit(sym(r, p, braille)),
        8..=11 => {
            let names: Vec<&str> = ["l", "l", "d", "s", "U", "u", "foo"].into_iter().chain(p.swaps.iter().map(|s| s.0.as_str())).collect();
            let n = r.pick(&names).to_string();
            match r.below(6) {
                0 | 1 => Item::Class(n, 1, None, ".".into()),
                2 => {
                    let k = r.range(1, 3) as u8;
                    Item::Class(n, k, Some(k), k.to_string())
                }
                3 => {
                    let (a, b) = (r.below(3) as u8, r.range(1, 2) as u8);
                    Item::Class(n, a, Some(a + b), format!("{}-{}", a, a + b))
                }
                _ => Item::Class(n, 1, Some(1), String::new()),
            }
        }
        12 => Item::NotClass(r.pick(&["l", "s", "d", "foo"]).to_string()),
        13 => Item::Start(!r.chance(1, 3)),
        14 => Item::End(!r.chance(1, 3)),
        _ => Item::Lookback(r.range(1, 2) as u8),
    }
}
pub fn add_swaps(r: &mut Rng, p: &mut Passes) {
    let n = r.range(1, 2);
    let cells = [cell(1), cell(3), cell(9), cell(2)];
    for k in 0..n {
        let name = ["swa", "swb", "swc"][k].to_string();
        let op = *r.pick(&["swapcc", "swapcd", "swapdd"]);
        let mut m = vec![];
        for i in 0..r.range(1, 4) {
            let key = if op == "swapdd" { cells[i] } else { ['a', 'b', 'c', '1'][i] };
            let val = if op == "swapcc" { r.pick(&['x', 'b', 'a', 'c', ' ']).to_string() } else { (0..r.range(1, 2)).map(|_| cell(r.range(1, 12) as u8)).collect() };
            m.push((key, val));
        }
        p.swaps.push((name, op, m));
    }
}
pub fn rule(r: &mut Rng, p: &Passes, stage: usize, sh: &Shape) -> PassRule {
    let br = stage > 1;
    let brout = stage > 0;
    let mut list = |r: &mut Rng, lo: usize, hi: usize| -> Vec<Item> { (0..r.range(lo, hi)).map(|_| item(r, p, br, sh)).collect() };
    let k = r.chance(1, 5) as usize;
    let bracket = r.chance(2, 3);
    let (before, inside, after) = if bracket {
        let lo = if r.chance(1, 5) { 0 } else { 1 };
        (list(r, 0, 1 + k), list(r, lo, 2), list(r, 0, 1 + k))
    } else {
        (vec![], list(r, 1, 2), vec![])
    };
    let mut act = vec![];
    let nact = if sh.vars > 0 && r.chance(1, 4) { r.range(2, 4) } else { r.range(1, 2) };
    let favourite = r.range(1, 2) as u8;
    for _ in 0..nact {
        act.push(if r.below(12) < sh.vars + if nact > 2 { 4 } else { 0 } {
            let v = if nact > 2 { favourite } else { r.range(1, 2) as u8 };
            match r.below(4) {
                0 => Act::Inc(v),
                1 => Act::Dec(v),
                _ => Act::Set(v, r.below(4) as u8),
            }
        } else if !p.swaps.is_empty() && r.below(12) < sh.swaps {
            Act::Swap(r.pick(&p.swaps).0.clone())
        } else {
            match r.below(8) {
                0..=4 => Act::Lit((0..r.range(1, 2)).map(|_| if brout { r.pick(&[cell(1), cell(3), cell(56), cell(44)]).to_owned() } else { *r.pick(&['a', 'b', 'x', 'c']) }).collect()),
                5 => Act::Copy,
                6 => Act::Drop,
                _ => Act::Copy,
            }
        });
    }
    let dir = if r.chance(1, 8) { r.range(1, 2) as u8 } else { 0 };
    PassRule { stage, before, inside, after, bracket, act, dir }
}
/// a text made of the literals that the rules look for
fn join_literals(r: &mut Rng, p: &Passes) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 2) {
        let x = r.pick(&p.rules).clone();
        for i in x.before.iter().chain(&x.inside).chain(&x.after) {
            let cs: Vec<char> = match i {
                Item::Lit(l) => l.clone(),
                Item::Class(_, n, _, _) => (0..*n.max(&1)).map(|_| *r.pick(&['a', 'b', 'A', '1'])).collect(),
                _ => vec![],
            };
            for c in cs {
                s.push(p.defs.iter().find(|d| is_cell(c) && cell(d.2) == c).map_or(if is_cell(c) { 'a' } else { c }, |d| d.1));
            }
        }
        if r.chance(1, 2) {
            s.push_str(&r.string(&TEXT, 0, 2));
        }
    }
    s.chars().take(16).collect()
}
pub fn search(run: &mut Run, key: &str, table: &dyn Fn(&mut Rng, usize) -> Passes) {
    let mut k = 0;
    while run.more() {
        let mut r = run.rng.clone();
        let p = table(&mut r, k);
        k += 1;
        let back = k % 4 == 3;
        let mut ins: Vec<String> = (0..15)
            .map(|_| {
                // now and then the literals of the rules, strung together
                if r.chance(1, 4) { join_literals(&mut r, &p) } else { r.string(&TEXT, 0, 7) }
            })
            .collect();
        if back {
            ins = ins.iter().map(|s| s.chars().map(|c| if r.chance(1, 12) { cell(44) } else { p.cell(c).unwrap() }).collect()).collect();
        }
        run.rng = r;
        let text = p.text();
        run.case(&format!("{text}backward {back} inputs {ins:?}"), || {
            let d = if back { louis::Direction::Backward } else { louis::Direction::Forward };
            let tr = compile(&text, d)?;
            let mut nt = false;
            for s in &ins {
                let out = translate(&tr, s, &[])?;
                if let Some(all) = p.results(back, s) {
                    if !all.contains(&out) {
                        let want: Vec<String> = all.iter().take(4).map(|x| show(x)).collect();
                        return Err((key.into(), format!("input {s:?}: got {}| permitted {want:?}", show(&out))));
                    }
                    let plain = Passes { rules: vec![], ..p.clone() }.results(back, s);
                    nt |= plain != Some([out.clone()].into());
                }
                // nothing is carried over from one translation to the next
                if translate(&tr, s, &[])? != out {
                    return Err(("state is carried over".into(), format!("input {s:?}")));
                }
            }
            Ok(nt)
        });
    }
}
