//! Generators and the common loop of the checks that rest on the selection model.
use crate::e2e::*;
use crate::model::*;
use crate::*;

pub const OPS: [&str; 19] = [
    "always", "word", "begword", "midword", "endword", "midendword", "begmidword", "partword", "prfword", "sufword", "joinword", "lowword",
    "begnum", "midnum", "endnum", "syllable", "largesign", "prepunc", "postpunc",
];
pub const WORD_OPS: [&str; 12] =
    ["word", "begword", "midword", "endword", "midendword", "begmidword", "partword", "prfword", "sufword", "joinword", "lowword", "always"];
const CLASSY: [&str; 10] = ["always", "word", "begword", "midword", "endword", "midendword", "begmidword", "partword", "prfword", "sufword"];
const EXPLICIT: [&str; 7] = ["begnum", "midnum", "largesign", "joinword", "lowword", "prepunc", "postpunc"];

pub struct Cells(u8);
impl Cells {
    pub fn next(&mut self) -> u8 {
        self.0 = self.0.wrapping_add(7) | 1;
        self.0
    }
}
pub fn base_table(r: &mut Rng, n: &mut Cells) -> Table {
    let mut t = Table::default();
    for c in ['a', 'b', 'c'] {
        t.chars.push(CharDef { op: if r.chance(1, 4) { "letter" } else { "lowercase" }, c, dots: vec![n.next()] });
    }
    if r.chance(2, 3) {
        t.chars.push(CharDef { op: "uppercase", c: 'A', dots: vec![n.next()] });
    }
    t.chars.push(CharDef { op: "space", c: ' ', dots: vec![0] });
    t.chars.push(CharDef { op: "punctuation", c: ',', dots: vec![n.next()] });
    t.chars.push(CharDef { op: *r.pick(&["punctuation", "hyphen", "sign"]), c: '-', dots: vec![n.next()] });
    for c in ['1', '2'] {
        t.chars.push(CharDef { op: "digit", c, dots: vec![n.next()] });
        if r.chance(1, 3) {
            t.chars.push(CharDef { op: "litdigit", c, dots: vec![n.next()] });
        }
    }
    if r.chance(1, 6) {
        t.chars.push(CharDef { op: "decpoint", c: '.', dots: vec![n.next()] });
    }
    if r.chance(1, 4) {
        t.attributes.push(("foo".into(), "ab".into()));
    }
    if r.chance(1, 5) {
        t.bases.push(("uppercase".into(), 'B', *r.pick(&['b', 'a', 'z'])));
    }
    if r.chance(1, 2) {
        t.undefined = Some(vec![0x3f]);
    }
    t
}
pub fn rule(r: &mut Rng, n: &mut Cells, t: &Table, op: &'static str) -> RuleDef {
    let al: &[char] = if op.ends_with("num") || r.chance(1, 8) {
        &['1', '2', ',', 'a']
    } else if op.ends_with("punc") {
        &[',', '-', 'a', ',']
    } else {
        &['a', 'b', 'c', 'a', 'b', ',']
    };
    let hi = if r.chance(1, 3) { 1 } else { 3 };
    let chars = r.string(al, 1, hi);
    let mut ds = vec![128 | n.next()];
    if r.chance(1, 3) {
        ds.push(n.next());
    }
    let mut rule = RuleDef::new(op, &chars, &ds);
    if r.chance(1, 8) && !EXPLICIT.contains(&op) && chars.chars().all(|c| t.chars.iter().any(|d| d.c == c)) {
        rule.dots = None;
    }
    if r.chance(1, 5) && CLASSY.contains(&op) {
        for _ in 0..r.range(1, 2) {
            rule.with.push((r.chance(1, 2), r.pick(&["space", "digit", "letter", "foo", "punctuation", "nonesuch", "uppercase", "sign"]).to_string()));
        }
    }
    if r.chance(1, 6) && op == "always" {
        rule.nocross = true;
    }
    rule
}
/// `table` makes the k-th random table
pub fn search(run: &mut Run, key: &str, al: &[char], maxlen: usize, table: &dyn Fn(&mut Rng, usize) -> Table) {
    let mut k = 0;
    while run.more() {
        let mut r = run.rng.clone();
        let t = table(&mut r, k);
        k += 1;
        let mut inputs: Vec<String> = (0..25).map(|_| r.string(al, 0, maxlen)).collect();
        if k % 8 == 0 {
            strings(&['a', 'b', ' ', ','], 4, &mut |s| {
                inputs.push(s.into());
                true
            });
        }
        run.rng = r;
        let text = t.text();
        let m = t.model();
        if t.undefined.is_none() && key != "undefined" {
            inputs.retain(|s| s.chars().all(|c| m.defs.contains_key(&c)));
        }
        run.case(&format!("{text}inputs {inputs:?}"), || {
            let tr = compile(&text, louis::Direction::Forward)?;
            let tr2 = compile(&text, louis::Direction::Forward)?;
            let mut nt = false;
            for s in &inputs {
                let out = translate(&tr, s, &[])?;
                if translate(&tr, s, &[])? != out || translate(&tr2, s, &[])? != out {
                    return Err(("not deterministic".into(), format!("text {s:?}: {} and something else", show(&out))));
                }
                let cs: Vec<char> = s.chars().collect();
                nt |= m.accepts(&cs, &out, &Positions::default()).map_err(|e| (key.to_string(), format!("text {s:?}: {e}")))?;
            }
            Ok(nt)
        });
    }
}
pub fn cells_from(r: &mut Rng) -> Cells {
    Cells(r.below(60) as u8)
}
fn pat1(r: &mut Rng) -> Pat {
    match r.below(6) {
        0 | 1 => Pat::Chars(r.pick(&['a', 'b', 'c', '1', ',', '-']).to_string()),
        2 => Pat::Any,
        3 => Pat::Set((0..r.range(1, 3)).map(|_| *r.pick(&['a', 'b', 'A', '1', ','])).collect()),
        4 => Pat::Attr(vec![*r.pick(&['_', '#', 'a', 'u', 'l', '.'])]),
        _ => Pat::Attr(vec!['a', *r.pick(&['#', '_', '.'])]),
    }
}
fn pat(r: &mut Rng, depth: usize) -> Pat {
    match r.below(12) {
        0..=3 => pat1(r),
        4 => Pat::Chars(r.string(&['a', 'b', 'c', '-'], 2, 3)),
        5 => Pat::Neg(Box::new(match r.below(16) {
            0 | 1 => Pat::Edge,
            2 => Pat::Group(vec![vec![pat1(r)]]),
            3 => Pat::Group(vec![vec![Pat::Neg(Box::new(pat1(r)))]]),
            4 => Pat::Opt(Box::new(pat1(r))),
            5 => Pat::Star(Box::new(pat1(r))),
            6 => Pat::Plus(Box::new(pat1(r))),
            _ => pat1(r),
        })),
        6 => Pat::Opt(Box::new(pat1(r))),
        7 => Pat::Star(Box::new(pat1(r))),
        8 => Pat::Plus(Box::new(pat1(r))),
        9 => Pat::Edge,
        10 => {
            let mut a = vec![*r.pick(&['_', 'a', '.'])];
            for c in ['#', 'u', '_'] {
                if r.chance(1, 4) && !a.contains(&c) { a.push(c); }
            }
            Pat::AttrOrEdge(a)
        }
        _ if depth < 2 => Pat::Group((0..if r.chance(1, 6) { 3 } else { r.range(1, 2) }).map(|_| pats(r, depth + 1)).collect()),
        _ => pat1(r),
    }
}
fn pats(r: &mut Rng, depth: usize) -> Vec<Pat> {
    let mut v: Vec<Pat> = vec![];
    // now and then a long one that many texts match
    let n = if depth == 0 && r.chance(1, 12) { r.range(3, 12) } else { r.range(1, 2) };
    for _ in 0..n {
        let p = match r.below(8) {
            _ if n < 3 => pat(r, depth),
            0 | 1 => pat(r, depth),
            2 => Pat::Set(vec!['a', 'b', 'c', ',']),
            3 => Pat::Attr(vec!['a', '#', '_']),
            _ => Pat::Any,
        };
        // adjacent literals would be read as one
        let literal = match v.last() {
            Some(Pat::Chars(_)) => true,
            Some(Pat::Neg(x)) => matches!(**x, Pat::Chars(_)),
            _ => false,
        };
        if !(literal && matches!(p, Pat::Chars(_) | Pat::Opt(_) | Pat::Star(_) | Pat::Plus(_))) {
            v.push(p);
        }
    }
    // a lone hyphen stands for the empty pattern
    if let [Pat::Chars(c)] = &v[..]
        && c == "-"
    {
        v[0] = Pat::Chars("a".into());
    }
    v
}
pub fn match_def(r: &mut Rng, n: &mut Cells) -> MatchDef {
    let mut side = |r: &mut Rng| -> Vec<Vec<Pat>> {
        match r.below(4) {
            0 => vec![vec![]],
            1 => vec![pats(r, 0), pats(r, 0)],
            _ => vec![pats(r, 0)],
        }
    };
    let (pre, post) = (side(r), side(r));
    MatchDef {
        pre,
        chars: r.string(&['a', 'b', 'c', 'a', ','], 1, 3),
        post,
        dots: vec![128 | n.next()],
        dir: if r.chance(1, 10) { r.range(1, 2) as u8 } else { 0 },
    }
}
/// context rules (with variables and swap classes) and match rules for the first pass
pub fn extras(r: &mut Rng, n: &mut Cells, t: &mut Table, ctx: usize, matches: usize, sh: &crate::passes::Shape) {
    use crate::passes;
    let mut p = passes::base();
    if ctx > 0 && r.chance(1, 4) {
        passes::add_swaps(r, &mut p);
        p.swaps.retain(|s| s.1 == "swapcd");
        t.swaps = p.swaps.clone();
    }
    for _ in 0..r.range(0, ctx) {
        let mut x = passes::rule(r, &p, 1, sh);
        if r.chance(1, 4) {
            // a short rule that often competes: look at one or two literals
            x.before.retain(|i| matches!(i, passes::Item::Lit(_)));
        }
        t.ctx.push(x);
    }
    for _ in 0..r.range(0, matches) {
        t.matches.push(match_def(r, n));
    }
}
