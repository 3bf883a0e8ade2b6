//! An independent reading of the table language, forward direction, first pass: characters and
//! the rules whose place is given by word / number / class boundaries. Written from the property
//! texts; it never looks at the crate's data structures.
use crate::e2e::*;
use crate::passes::{self, Ctx, Env, Hit, PassRule, Swaps};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Clone, Debug)]
pub struct CharDef {
    pub op: &'static str, // space punctuation digit litdigit letter lowercase uppercase sign math hyphen decpoint
    pub c: char,
    pub dots: Vec<u8>,
}
#[derive(Clone, Debug)]
pub struct RuleDef {
    pub op: &'static str,
    pub chars: String,
    pub dots: Option<Vec<u8>>, // None: `=`
    pub nocross: bool,
    pub nofor: bool,
    pub noback: bool,
    pub with: Vec<(bool, String)>, // (before?, class)
}
impl RuleDef {
    pub fn new(op: &'static str, chars: &str, dots: &[u8]) -> Self {
        RuleDef { op, chars: chars.into(), dots: Some(dots.to_vec()), nocross: false, nofor: false, noback: false, with: vec![] }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        if self.nofor {
            s += "nofor ";
        }
        if self.noback {
            s += "noback ";
        }
        if self.nocross {
            s += "nocross ";
        }
        for (b, c) in &self.with {
            s += &format!("{} {} ", if *b { "before" } else { "after" }, c);
        }
        s += &format!("{} {} ", self.op, chs(&self.chars));
        s += &match &self.dots {
            Some(d) => dotseq(d),
            None => "=".into(),
        };
        s
    }
}
/// one element of the patterns around a `match` rule
#[derive(Clone, Debug)]
pub enum Pat {
    Chars(String),
    Any,
    Set(Vec<char>),
    Attr(Vec<char>), // letters as in the table: _ # a u l .
    AttrOrEdge(Vec<char>),
    Neg(Box<Pat>),
    Opt(Box<Pat>),
    Star(Box<Pat>),
    Plus(Box<Pat>),
    Group(Vec<Vec<Pat>>),
    Edge,
}
#[derive(Clone, Debug)]
pub struct MatchDef {
    pub pre: Vec<Vec<Pat>>, // alternatives
    pub chars: String,
    pub post: Vec<Vec<Pat>>,
    pub dots: Vec<u8>,
    pub dir: u8, // 0 both, 1 noback, 2 nofor
}
fn alts_text(a: &[Vec<Pat>]) -> String {
    a.iter().map(|v| v.iter().map(pat_text).collect::<String>()).collect::<Vec<_>>().join("|")
}
fn pat_text(p: &Pat) -> String {
    match p {
        Pat::Chars(s) => s.clone(),
        Pat::Any => ".".into(),
        Pat::Set(v) => format!("[{}]", v.iter().collect::<String>()),
        Pat::Attr(v) if v.len() == 1 => format!("%{}", v[0]),
        Pat::Attr(v) => format!("%[{}]", v.iter().collect::<String>()),
        Pat::AttrOrEdge(v) => format!("%[{}^]", v.iter().collect::<String>()),
        Pat::Neg(p) => format!("!{}", pat_text(p)),
        Pat::Opt(p) => format!("{}?", pat_text(p)),
        Pat::Star(p) => format!("{}*", pat_text(p)),
        Pat::Plus(p) => format!("{}+", pat_text(p)),
        Pat::Group(a) => format!("({})", alts_text(a)),
        Pat::Edge => "^".into(),
    }
}
impl MatchDef {
    pub fn text(&self) -> String {
        let side = |a: &[Vec<Pat>]| if a.iter().all(|v| v.is_empty()) { "-".to_string() } else { alts_text(a) };
        format!("{}match {} {} {} {}", ["", "noback ", "nofor "][self.dir as usize], side(&self.pre), self.chars, side(&self.post), dotseq(&self.dots))
    }
}
#[derive(Clone, Debug, Default)]
pub struct Table {
    pub chars: Vec<CharDef>,
    pub bases: Vec<(String, char, char)>, // class, derived, base
    pub attributes: Vec<(String, String)>,
    pub rules: Vec<RuleDef>,
    pub ctx: Vec<PassRule>,
    pub matches: Vec<MatchDef>,
    pub swaps: Swaps,
    pub undefined: Option<Vec<u8>>,
    pub extra: Vec<String>,
}
type Class = BTreeSet<char>;
/// a boundary: the neighbouring character is in the set (the edge of the text counts as a space)
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
struct Bound {
    set: Class,
    edge: bool,
}
impl Bound {
    fn ok(&self, c: Option<char>) -> bool {
        c.map_or(self.edge, |c| self.set.contains(&c))
    }
}
#[derive(Clone, Debug)]
struct Entry {
    from: Vec<char>,
    start: Vec<Bound>,
    end: Vec<Bound>,
    prec: u8,
    weight: usize,
    out: String,
    op: &'static str,
}
pub struct Model {
    pub defs: HashMap<char, String>,
    pub classes: BTreeMap<String, Class>,
    plain: Vec<Entry>,
    nocross: Vec<Entry>,
    comp6: Vec<Entry>,
    undefined: Option<String>,
    /// what the table says about single characters: the first definition of each (for escapes)
    first: HashMap<char, String>,
    pub num: Numeric,
    ctx: Vec<PassRule>,
    matches: Vec<MatchDef>,
    swaps: Swaps,
    sets: BTreeMap<String, Class>,
}
#[derive(Clone, PartialEq, Eq, Hash)]
struct State {
    i: usize,
    j: usize,
    fresh: bool, // the indicators of this place are still to come
    env: Env,
    later: Vec<Hit>,
    seen: Vec<(String, String, usize, usize)>,
}
#[derive(Default, Clone)]
pub struct Numeric {
    pub digits: HashSet<char>,
    pub mode: HashSet<char>,
    pub mid: HashSet<char>,
    pub nocont: HashSet<char>,
}
impl Numeric {
    /// a numeric run is a digit followed by digits, mode characters and - only when the table has
    /// no mode characters - separators that stand directly before a digit
    pub fn runs(&self, s: &[char]) -> Vec<(usize, usize)> {
        let mut v: Vec<(usize, usize)> = vec![];
        let mut i = 0;
        while i < s.len() {
            if !self.digits.contains(&s[i]) {
                i += 1;
                continue;
            }
            let a = i;
            while i < s.len()
                && (self.digits.contains(&s[i])
                    || self.mode.contains(&s[i])
                    || (self.mode.is_empty()
                        && self.mid.contains(&s[i])
                        && i + 1 < s.len()
                        && self.digits.contains(&s[i + 1])))
            {
                i += 1;
            }
            v.push((a, i));
        }
        v
    }
}
const T: u8 = 2;
impl Table {
    pub fn text(&self) -> String {
        let mut o = String::new();
        for d in &self.chars {
            o += &format!("{} {} {}\n", d.op, ch(d.c), dotseq(&d.dots));
        }
        for (n, d, b) in &self.bases {
            o += &format!("base {n} {} {}\n", ch(*d), ch(*b));
        }
        for (n, c) in &self.attributes {
            o += &format!("attribute {n} {}\n", chs(c));
        }
        if let Some(u) = &self.undefined {
            o += &format!("undefined {}\n", dotseq(u));
        }
        for e in &self.extra {
            o += e;
            o += "\n";
        }
        o += &passes::swaps_text(&self.swaps);
        for r in &self.rules {
            o += &r.text();
            o += "\n";
        }
        for r in &self.matches {
            o += &r.text();
            o += "\n";
        }
        for r in &self.ctx {
            o += &r.text();
            o += "\n";
        }
        o
    }
    pub fn model(&self) -> Model {
        let mut classes: BTreeMap<String, Class> = BTreeMap::new();
        let mut add = |n: &str, c: char| {
            classes.entry(n.into()).or_default().insert(c);
        };
        let mut alldefs: HashMap<char, String> = HashMap::new();
        for d in &self.chars {
            alldefs.entry(d.c).or_insert(cells(&d.dots));
            match d.op {
                "lowercase" | "uppercase" => {
                    add(d.op, d.c);
                    add("letter", d.c);
                }
                "hyphen" | "decpoint" => add("punctuation", d.c),
                o => add(o, d.c),
            }
        }
        let mut based = vec![];
        for (n, d, b) in &self.bases {
            if let Some(x) = alldefs.get(b).cloned() {
                alldefs.entry(*d).or_insert(x);
                add(n, *d);
                if n == "uppercase" || n == "lowercase" {
                    add("letter", *d);
                }
                based.push((*d, *b));
            }
        }
        for (n, cs) in &self.attributes {
            for c in cs.chars() {
                add(n, c);
            }
        }
        // what a character on its own becomes: decpoint/hyphen first, a digit gives way to a litdigit
        let mut defs: HashMap<char, String> = HashMap::new();
        for d in self.chars.iter().filter(|d| d.op == "hyphen" || d.op == "decpoint") {
            defs.entry(d.c).or_insert(cells(&d.dots));
        }
        let lit: HashSet<char> = self.chars.iter().filter(|d| d.op == "litdigit").map(|d| d.c).collect();
        for d in &self.chars {
            if d.op == "digit" && lit.contains(&d.c) {
                continue;
            }
            defs.entry(d.c).or_insert(cells(&d.dots));
        }
        for (d, b) in based {
            defs.entry(d).or_insert(alldefs[&b].clone());
        }
        let mut num = Numeric { digits: classes.get("litdigit").cloned().unwrap_or_default().into_iter().collect(), ..Default::default() };
        for d in self.chars.iter().filter(|d| d.op == "decpoint") {
            num.mid.insert(d.c);
        }
        let mut plain = vec![];
        let mut nocross = vec![];
        let mut comp6 = vec![];
        let b = |names: &[&str]| -> Bound {
            let mut set = Class::new();
            for n in names {
                if let Some(c) = classes.get(*n) {
                    set.extend(c);
                }
            }
            Bound { set, edge: names.contains(&"space") }
        };
        let sp = ["space", "punctuation"];
        let lt = ["letter"];
        let lsp = ["letter", "space", "punctuation"];
        let dg = ["digit"];
        for r in &self.rules {
            if r.nofor {
                continue;
            }
            let out = match &r.dots {
                Some(d) => cells(d),
                None => r.chars.chars().map(|c| alldefs[&c].clone()).collect(),
            };
            if r.op == "midnum" {
                num.mid.extend(r.chars.chars());
            }
            let places: Vec<(Option<Bound>, Option<Bound>)> = match r.op {
                "word" | "joinword" | "lowword" => vec![(Some(b(&sp)), Some(b(&sp)))],
                "begword" => vec![(Some(b(&sp)), Some(b(&lt)))],
                "midword" => vec![(Some(b(&lt)), Some(b(&lt)))],
                "endword" => vec![(Some(b(&lt)), Some(b(&sp)))],
                "midendword" => vec![(Some(b(&lt)), Some(b(&lsp)))],
                "begmidword" => vec![(Some(b(&lsp)), Some(b(&lt)))],
                "partword" => vec![(Some(b(&lt)), None), (None, Some(b(&lt)))],
                "prfword" => vec![(Some(b(&sp)), Some(b(&sp))), (Some(b(&lt)), Some(b(&sp)))],
                "sufword" => vec![(Some(b(&sp)), Some(b(&sp))), (Some(b(&sp)), Some(b(&lt)))],
                "begnum" => vec![(Some(b(&sp)), Some(b(&dg)))],
                "midnum" => vec![(Some(b(&dg)), Some(b(&dg)))],
                "endnum" => vec![(Some(b(&dg)), None)],
                "prepunc" | "postpunc" => {
                    if !r.chars.chars().all(|c| classes.get("punctuation").is_some_and(|p| p.contains(&c))) {
                        continue;
                    }
                    vec![(None, None)]
                }
                _ => vec![(None, None)],
            };
            let mut start = vec![];
            let mut end = vec![];
            for (before, c) in &r.with {
                if classes.contains_key(c) {
                    if *before { end.push(b(&[c])) } else { start.push(b(&[c])) }
                }
            }
            let prec = match r.op {
                "word" | "begword" | "sufword" | "midword" | "midendword" | "endword" | "begmidword" | "joinword" | "begnum" | "midnum"
                | "endnum" | "always" => T,
                _ => 0,
            };
            for (s, e) in places {
                let mut st = start.clone();
                st.extend(s);
                let mut en: Vec<Bound> = e.into_iter().collect();
                en.extend(end.clone());
                let from: Vec<char> = r.chars.chars().collect();
                let weight = from.len() + st.len() + en.len();
                let x = Entry { from, start: st, end: en, prec, weight, out: out.clone(), op: r.op };
                let store = if r.op == "comp6" {
                    &mut comp6
                } else if r.nocross {
                    &mut nocross
                } else {
                    &mut plain
                };
                match store.iter_mut().find(|y: &&mut Entry| y.from == x.from && y.start == x.start && y.end == x.end) {
                    Some(y) => {
                        if x.prec > y.prec {
                            *y = x
                        }
                    }
                    None => store.push(x),
                }
            }
        }
        let mut sets = BTreeMap::new();
        for (short, n) in [("l", "letter"), ("d", "digit"), ("s", "space"), ("p", "punctuation"), ("U", "uppercase"), ("u", "lowercase"), ("foo", "foo")] {
            sets.insert(short.to_string(), classes.get(n).cloned().unwrap_or_default());
        }
        for (n, _, m) in &self.swaps {
            sets.insert(n.clone(), m.iter().map(|x| x.0).collect());
        }
        Model {
            defs,
            classes,
            plain,
            nocross,
            comp6,
            first: {
                let mut f: HashMap<char, String> = HashMap::new();
                for d in &self.chars {
                    f.entry(d.c).or_insert_with(|| cells(&d.dots));
                }
                for (_, d, b) in &self.bases {
                    if let Some(x) = f.get(b).cloned() {
                        f.entry(*d).or_insert(x);
                    }
                }
                f
            },
            undefined: self.undefined.as_ref().map(|u| cells(u)),
            num,
            ctx: self.ctx.iter().filter(|r| r.dir != 2).cloned().collect(),
            matches: self.matches.iter().filter(|r| r.dir != 2).cloned().collect(),
            swaps: self.swaps.clone(),
            sets,
        }
    }
}
/// what the caller of the model decides about positions
#[derive(Default, Clone)]
pub struct Positions {
    /// a hyphenation point lies between character i and i + 1
    pub breaks: HashSet<usize>,
    /// characters in computer braille
    pub comp6: HashSet<usize>,
    /// indicator cells in front of character i
    pub slots: Vec<Vec<String>>,
}
impl Model {
    fn class(&self, n: &str, c: char) -> bool {
        self.classes.get(n).is_some_and(|k| k.contains(&c))
    }
    fn fits(e: &Entry, s: &[char], i: usize) -> bool {
        let n = e.from.len();
        i + n <= s.len()
            && s[i..i + n].iter().zip(&e.from).all(|(a, b)| {
                let mut l = a.to_lowercase();
                l.next() == Some(*b) && l.next().is_none()
            })
            && e.start.iter().all(|b| b.ok(i.checked_sub(1).map(|k| s[k])))
            && e.end.iter().all(|b| b.ok(s.get(i + n).copied()))
    }
    /// the character is not directly preceded by a letter and a letter or digit follows before any space
    fn prepunc_ok(&self, s: &[char], i: usize) -> bool {
        (i == 0 || !self.class("letter", s[i - 1]))
            && s[i + 1..]
                .iter()
                .take_while(|c| !self.class("space", **c))
                .any(|c| self.class("letter", *c) || self.class("digit", *c))
    }
    fn postpunc_ok(&self, s: &[char], i: usize) -> bool {
        (i + 1 >= s.len() || !self.class("letter", s[i + 1]))
            && s[..i]
                .iter()
                .rev()
                .take_while(|c| !self.class("space", **c))
                .any(|c| self.class("letter", *c) || self.class("digit", *c))
    }
    fn one_of(&self, p: &Pat, c: char) -> bool {
        let class = |a: &char| {
            self.class(
                match a {
                    '_' => "space",
                    '#' => "digit",
                    'a' => "letter",
                    'u' => "uppercase",
                    'l' => "lowercase",
                    _ => "punctuation",
                },
                c,
            )
        };
        match p {
            Pat::Chars(s) => s.chars().eq([c]),
            Pat::Any => true,
            Pat::Set(v) => v.contains(&c),
            Pat::Attr(v) => v.iter().any(class),
            _ => unreachable!(),
        }
    }
    /// where a list of patterns that starts at i can end, in order of preference
    fn ends(&self, ps: &[Pat], s: &[char], i: usize, pre: bool) -> Vec<usize> {
        let Some((p, rest)) = ps.split_first() else { return vec![i] };
        let one: Vec<usize> = self.ends1(p, s, i, pre);
        let mut v = vec![];
        for j in one {
            for e in self.ends(rest, s, j, pre) {
                if !v.contains(&e) {
                    v.push(e);
                }
            }
        }
        v
    }
    fn ends1(&self, p: &Pat, s: &[char], i: usize, pre: bool) -> Vec<usize> {
        let mut v = vec![];
        match p {
            Pat::Chars(t) => {
                let t: Vec<char> = t.chars().collect();
                if s[i..].starts_with(&t) {
                    v.push(i + t.len());
                }
            }
            Pat::Any | Pat::Set(_) | Pat::Attr(_) => {
                if i < s.len() && self.one_of(p, s[i]) {
                    v.push(i + 1);
                }
            }
            Pat::AttrOrEdge(a) => {
                v = self.ends1(&Pat::Attr(a.clone()), s, i, pre);
                v.extend(self.ends1(&Pat::Edge, s, i, pre));
            }
            Pat::Edge => {
                if if pre { i == 0 } else { i == s.len() } {
                    v.push(i);
                }
            }
            Pat::Neg(p) => match **p {
                Pat::Edge => {
                    if self.ends1(p, s, i, pre).is_empty() {
                        v.push(i);
                    }
                }
                // a group of one item stands for the item, twice negated is not negated
                Pat::Group(ref a) => {
                    let inner = a[0][0].clone();
                    v = match inner {
                        Pat::Neg(q) => self.ends1(&q, s, i, pre),
                        q => self.ends1(&Pat::Neg(Box::new(q)), s, i, pre),
                    };
                }
                // any number of characters that are not the item
                Pat::Opt(ref q) => v = self.ends1(&Pat::Opt(Box::new(Pat::Neg(q.clone()))), s, i, pre),
                Pat::Star(ref q) => v = self.ends1(&Pat::Star(Box::new(Pat::Neg(q.clone()))), s, i, pre),
                Pat::Plus(ref q) => v = self.ends1(&Pat::Plus(Box::new(Pat::Neg(q.clone()))), s, i, pre),
                _ => {
                    if i < s.len() && !self.one_of(p, s[i]) {
                        v.push(i + 1);
                    }
                }
            },
            Pat::Opt(p) => {
                v = self.ends1(p, s, i, pre);
                v.push(i);
            }
            Pat::Star(p) | Pat::Plus(p) => {
                // no element under a repetition is empty
                let more = Pat::Star(p.clone());
                for j in self.ends1(p, s, i, pre) {
                    v.extend(self.ends1(&more, s, j, pre));
                }
            }
            Pat::Group(a) => {
                for x in a {
                    v.extend(self.ends(x, s, i, pre));
                }
            }
        }
        if let Pat::Star(_) = p {
            v.push(i);
        }
        let mut u: Vec<usize> = vec![];
        for e in v {
            if !u.contains(&e) {
                u.push(e);
            }
        }
        u
    }
    fn match_hit(&self, d: &MatchDef, s: &[char], i: usize) -> Option<Hit> {
        let word: Vec<char> = d.chars.chars().collect();
        let alts = |a: &[Vec<Pat>], i: usize, pre: bool| -> Vec<usize> { a.iter().flat_map(|x| self.ends(x, s, i, pre)).collect() };
        for a in alts(&d.pre, i, true) {
            let b = a + word.len();
            let same = |x: &char, w: &char| x.to_lowercase().eq([*w]);
            if b <= s.len()
                && s[a..b].iter().zip(&word).all(|(x, w)| same(x, w))
                && let Some(e) = alts(&d.post, b, false).first()
            {
                return Some(Hit { at: a, len: word.len(), weight: e - i, out: cells(&d.dots), rule: usize::MAX });
            }
        }
        None
    }
    /// every permitted choice at this state: (consumed, output, how, weight, context rule, new later list)
    fn choices(&self, cx: &Ctx, s: &[char], st: &State, p: &Positions, innum: &[bool]) -> (Vec<(Hit, &'static str)>, Vec<Hit>) {
        let i = st.i;
        let mut later = st.later.clone();
        let mut cand: Vec<(Hit, &'static str)> = vec![];
        let trie = |e: &Entry| (Hit { at: i, len: e.from.len(), weight: e.weight, out: e.out.clone(), rule: usize::MAX }, e.op);
        for e in self.plain.iter().filter(|e| Self::fits(e, s, i)) {
            if match e.op {
                "prepunc" => self.prepunc_ok(s, i),
                "postpunc" => self.postpunc_ok(s, i),
                _ => true,
            } {
                cand.push(trie(e));
            }
        }
        let hits = self
            .matches
            .iter()
            .filter_map(|d| self.match_hit(d, s, i).map(|h| (h, "match")))
            .chain(self.ctx.iter().enumerate().filter_map(|(k, r)| passes::hit(cx, k, r, s, i, &st.env).map(|h| (h, "context"))));
        for (h, how) in hits {
            if h.at == i { cand.push((h, how)) } else { later.push(h) }
        }
        cand.extend(later.iter().filter(|h| h.at == i).map(|h| (h.clone(), "delayed")));
        later.retain(|h| h.at > i);
        let number = innum.get(i).copied().unwrap_or(false);
        if number {
            cand.retain(|c| c.0.len <= 1);
        }
        if p.comp6.contains(&i) {
            cand = self.comp6.iter().filter(|e| Self::fits(e, s, i)).map(trie).collect();
        }
        cand.retain(|c| !st.seen.contains(&sub(s, &c.0)));
        let mut nc: Vec<&Entry> = self
            .nocross
            .iter()
            .filter(|e| Self::fits(e, s, i) && !(i..i + e.from.len() - 1).any(|k| p.breaks.contains(&k)))
            .collect();
        if number {
            nc.retain(|e| e.from.len() <= 1);
        }
        if p.comp6.contains(&i) {
            nc.clear();
        }
        let best = cand.iter().map(|c| c.0.weight).max();
        let nbest = nc.iter().map(|e| e.weight).max();
        if let Some(w) = nbest
            && best.is_none_or(|b| w >= b)
        {
            return (nc.iter().filter(|e| e.weight == w).map(|e| (trie(e).0, "nocross")).collect(), later);
        }
        if let Some(w) = best {
            cand.retain(|c| c.0.weight == w);
            return (cand, later);
        }
        let plain = |out: &String, how| (vec![(Hit { at: i, len: 1, weight: 1, out: out.clone(), rule: usize::MAX }, how)], later.clone());
        if i == s.len() {
            return (vec![], later);
        }
        if let Some(d) = self.defs.get(&s[i]) {
            return plain(d, "char");
        }
        if let Some(u) = &self.undefined {
            return plain(u, "undefined");
        }
        plain(&self.escape(s[i]), "undefined")
    }
    /// `\\x` and the code in hexadecimal digits, each as the table defines it or in North American
    /// computer braille
    pub fn escape(&self, c: char) -> String {
        format!("\\x{:x}", c as u32)
            .chars()
            .map(|c| match self.first.get(&c) {
                Some(d) => d.clone(),
                None => {
                    let dots: &str = match c {
                        '0' => "356",
                        '1' => "2",
                        '2' => "23",
                        '3' => "25",
                        '4' => "256",
                        '5' => "26",
                        '6' => "235",
                        '7' => "2356",
                        '8' => "236",
                        '9' => "35",
                        'a' => "1",
                        'b' => "12",
                        'c' => "14",
                        'd' => "145",
                        'e' => "15",
                        'f' => "124",
                        'x' => "1346",
                        _ => "1256",
                    };
                    cell(dots.bytes().fold(0, |a, d| a | 1 << (d - b'1'))).to_string()
                }
            })
            .collect()
    }
    /// the output is one the rules permit; Ok(true) when some rule longer than a character took part
    pub fn accepts(&self, s: &[char], out: &str, p: &Positions) -> Result<bool, String> {
        let o: Vec<char> = out.chars().collect();
        let mut innum = vec![false; s.len()];
        if !self.num.digits.is_empty() {
            for (a, b) in self.num.runs(s) {
                innum[a..b].fill(true);
            }
        }
        let cx = Ctx { swaps: &self.swaps, sets: self.sets.clone() };
        let mut g = Search { m: self, cx, s, o: &o, p, innum, far: (0, 0, vec![]), dead: HashSet::new(), used: false, fuel: 40000 };
        let start = State { i: 0, j: 0, fresh: true, env: Env::new(), later: vec![], seen: vec![] };
        if g.go(start) {
            return Ok(g.used);
        }
        if g.fuel == 0 {
            return Ok(false);
        }
        Err(format!(
            "output {}is not permitted: at character {} the rest {}should start with one of {:?}",
            show(out),
            g.far.0,
            show(&o[g.far.1.min(o.len())..].iter().collect::<String>()),
            g.far.2
        ))
    }
}
fn sub(s: &[char], h: &Hit) -> (String, String, usize, usize) {
    (s[h.at..h.at + h.len].iter().collect(), h.out.clone(), h.len, h.weight)
}
struct Search<'a> {
    m: &'a Model,
    cx: Ctx<'a>,
    s: &'a [char],
    o: &'a [char],
    p: &'a Positions,
    innum: Vec<bool>,
    far: (usize, usize, Vec<String>),
    dead: HashSet<State>,
    used: bool,
    fuel: usize,
}
impl Search<'_> {
    fn go(&mut self, st: State) -> bool {
        if self.fuel == 0 || self.dead.contains(&st) {
            return false;
        }
        self.fuel -= 1;
        let (i, j) = (st.i, st.j);
        let mut j2 = j;
        if st.fresh && let Some(sl) = self.p.slots.get(i) {
            for t in sl {
                for c in t.chars() {
                    if self.o.get(j2) != Some(&c) {
                        if i >= self.far.0 {
                            self.far = (i, j, vec![format!("indicator {}", show(t))]);
                        }
                        self.dead.insert(st);
                        return false;
                    }
                    j2 += 1;
                }
            }
        }
        let (ch, later) = self.m.choices(&self.cx, self.s, &st, self.p, &self.innum);
        if ch.is_empty() && i == self.s.len() {
            if j2 == self.o.len() {
                return true;
            }
            self.far = (i, j2, vec!["end".into()]);
            self.dead.insert(st);
            return false;
        }
        if i >= self.far.0 {
            self.far = (i, j2, ch.iter().map(|c| format!("{} {}by {}", c.0.len, show(&c.0.out), c.1)).collect());
        }
        for (h, how) in ch {
            let k = h.out.chars().count();
            if j2 + k <= self.o.len() && h.out.chars().eq(self.o[j2..j2 + k].iter().copied()) {
                let mut env = st.env.clone();
                if h.rule != usize::MAX {
                    passes::apply(&self.m.ctx[h.rule].act, &mut env);
                }
                let mut seen = if h.len == 0 { st.seen.clone() } else { vec![] };
                if h.len == 0 {
                    seen.push(sub(self.s, &h));
                }
                let next = State {
                    i: i + h.len,
                    j: j2 + k,
                    fresh: h.len > 0,
                    env,
                    later: later.iter().filter(|l| l.at >= i + h.len).cloned().collect(),
                    seen,
                };
                if self.go(next) {
                    if how != "char" && how != "undefined" {
                        self.used = true;
                    }
                    return true;
                }
            }
        }
        self.dead.insert(st);
        false
    }
}
