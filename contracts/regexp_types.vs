@type translator/regexp.rs Regexp
@type translator/regexp.rs Instruction
@type translator/regexp.rs CompiledRegexp
@raw
type InstructionIndex = usize;
type CharacterClassIndex = usize;
type TranslationIndex = usize;
type VariableIndex = u8;
// ---- trusted: std ----
/// UTF-8 length of a character
spec fn clen(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
#[verifier::external_body]
fn len_utf8(c: char) -> (r: usize) ensures r == clen(c) { c.len_utf8() }
/// byte offset of the k-th character of s
spec fn boff(s: Seq<char>, k: int) -> int decreases k { if k <= 0 { 0 } else { boff(s, k - 1) + clen(s[k - 1]) } }
/// what `char::to_lowercase` yields
uninterp spec fn lower(c: char) -> Seq<char>;
#[verifier::external_body]
fn lower_count(c: char) -> (r: usize) ensures r == lower(c).len() { c.to_lowercase().count() }
#[verifier::external_body]
fn lower_first(c: char) -> (r: Option<char>) ensures r == (if lower(c).len() > 0 { Some(lower(c)[0]) } else { None }) { c.to_lowercase().next() }
/// a vector of a type that takes space is never longer than isize::MAX
#[verifier::external_body]
proof fn vec_bound<V>(v: Vec<V>) ensures v@.len() <= isize::MAX { }

// ---- what a pattern means ----
/// a point in a match: characters consumed so far, and the bytes captured so far
struct St { i: int, c0: int, c1: int }
/// what a pattern is matched against
struct W { s: Seq<char>, env: Environment, start: bool }
spec fn st0() -> St { St { i: 0, c0: 0, c1: 0 } }
spec fn at(a: St, i: int) -> St { St { i: i, ..a } }
spec fn same_fold(actual: char, expected: char) -> bool { lower(actual).len() == 1 && lower(actual)[0] == expected }
/// the three ways the characters of a string literal are compared
enum Kind { Same, Differ, Fold }
spec fn cmp(k: Kind, actual: char, expected: char) -> bool {
    match k { Kind::Same => actual == expected, Kind::Differ => actual != expected, Kind::Fold => same_fold(actual, expected) }
}
spec fn string_m(k: Kind, t: Seq<char>, w: W, a: St, b: St) -> bool {
    &&& b == at(a, a.i + t.len()) && 0 <= a.i && b.i <= w.s.len()
    &&& forall|x: int| 0 <= x < t.len() ==> cmp(k, w.s[a.i + x], #[trigger] t[x])
}
spec fn one(w: W, a: St, b: St) -> bool { 0 <= a.i < w.s.len() && b == at(a, a.i + 1) }
spec fn between(v: u8, lo: u8, hi: u8) -> bool { lo <= v && v <= hi }
// markers the quantifiers below are triggered by
spec fn pt(x: St) -> bool { true }
spec fn num(x: int) -> bool { true }
spec fn sq(x: Seq<int>) -> bool { true }
/// `re` matches the characters between `a` and `b`
spec fn m(re: Regexp, w: W, a: St, b: St) -> bool
    decreases re, 0int, 0int
{
    match re {
        Regexp::Literal(c) => one(w, a, b) && w.s[a.i] == c,
        Regexp::Any => one(w, a, b),
        Regexp::CharacterClass(set) => one(w, a, b) && set@.contains(w.s[a.i]),
        Regexp::NotCharacterClass(set) => one(w, a, b) && !set@.contains(w.s[a.i]),
        Regexp::String(t) => string_m(Kind::Same, t@, w, a, b),
        Regexp::NotString(t) => string_m(Kind::Differ, t@, w, a, b),
        Regexp::CaseInsensitiveString(t) => string_m(Kind::Fold, t@, w, a, b),
        Regexp::Concat(l, r) => exists|x: St| #[trigger] pt(x) && m(*l, w, a, x) && m(*r, w, x, b),
        Regexp::Either(l, r) => m(*l, w, a, b) || m(*r, w, a, b),
        Regexp::Optional(r) => a == b || m(*r, w, a, b),
        Regexp::ZeroOrMore(r) => exists|n: int| #[trigger] num(n) && n >= 0 && times(*r, n, w, a, b),
        Regexp::OneOrMore(r) => exists|n: int| #[trigger] num(n) && n >= 1 && times(*r, n, w, a, b),
        Regexp::RepeatExactly(n, r) => times(*r, n as int, w, a, b),
        Regexp::RepeatAtLeast(k, r) => exists|n: int| #[trigger] num(n) && n >= k && times(*r, n, w, a, b),
        Regexp::RepeatAtLeastAtMost(k, h, r) => exists|n: int| #[trigger] num(n) && (n == k || k <= n <= h) && times(*r, n, w, a, b),
        Regexp::Capture(r) => exists|x: St| #[trigger] pt(x) && m(*r, w, St { i: a.i, c0: boff(w.s, a.i), c1: 0 }, x) && b == (St { i: x.i, c0: x.c0, c1: boff(w.s, x.i) }),
        Regexp::Group(r) => m(*r, w, a, b),
        Regexp::VariableEqual(v, x) => a == b && val(w.env, v) == x,
        Regexp::NotVariableEqual(v, x) => a == b && val(w.env, v) != x,
        Regexp::VariableBetween(v, lo, hi) => a == b && between(val(w.env, v), lo, hi),
        Regexp::NotVariableBetween(v, lo, hi) => a == b && !between(val(w.env, v), lo, hi),
        Regexp::Empty => a == b,
        Regexp::Never => false,
        Regexp::EndAnchor => a == b && a.i == w.s.len(),
        Regexp::NotEndAnchor => a == b && a.i != w.s.len(),
        Regexp::StartAnchor => a == b && w.start && a.i == 0,
        Regexp::NotStartAnchor => a == b && !(w.start && a.i == 0),
    }
}
/// n matches of `re` one after the other
spec fn times(re: Regexp, n: int, w: W, a: St, b: St) -> bool
    decreases re, n, 1int
{
    if n <= 0 { n == 0 && a == b } else { exists|x: St| #[trigger] pt(x) && times(re, n - 1, w, a, x) && m(re, w, x, b) }
}

// ---- what a program means ----
/// where and how a run of the program ends
struct Fin { st: St, ix: int }
spec fn eats(ins: Instruction, cc: Seq<HashSet<char>>, c: char) -> bool {
    match ins {
        Instruction::Char(e) => c == e,
        Instruction::NotChar(e) => c != e,
        Instruction::CaseInsensitiveChar(e) => same_fold(c, e),
        Instruction::Class(ix) => 0 <= ix < cc.len() && cc[ix as int]@.contains(c),
        Instruction::NotClass(ix) => 0 <= ix < cc.len() && !cc[ix as int]@.contains(c),
        Instruction::Any => true,
        _ => false,
    }
}
spec fn is_eater(ins: Instruction) -> bool {
    ins is Char || ins is NotChar || ins is CaseInsensitiveChar || ins is Class || ins is NotClass || ins is Any
}
/// may the run go on behind this instruction without consuming anything?
spec fn passes(ins: Instruction, w: W, i: int) -> bool {
    match ins {
        Instruction::CaptureStart | Instruction::CaptureEnd => true,
        Instruction::VariableEqual(v, x) => val(w.env, v) == x,
        Instruction::NotVariableEqual(v, x) => val(w.env, v) != x,
        Instruction::VariableBetween(v, lo, hi) => between(val(w.env, v), lo, hi),
        Instruction::NotVariableBetween(v, lo, hi) => !between(val(w.env, v), lo, hi),
        Instruction::AssertEnd => i == w.s.len(),
        Instruction::AssertMoreInput => i != w.s.len(),
        Instruction::AssertStart => w.start && i == 0,
        Instruction::AssertNotStart => !(w.start && i == 0),
        _ => false,
    }
}
spec fn after(ins: Instruction, w: W, a: St) -> St {
    match ins {
        Instruction::CaptureStart => St { i: a.i, c0: boff(w.s, a.i), c1: 0 },
        Instruction::CaptureEnd => St { i: a.i, c0: a.c0, c1: boff(w.s, a.i) },
        _ => a,
    }
}
struct Pg { p: Seq<Instruction>, cc: Seq<HashSet<char>> }
/// some run of at most f steps from instruction pc at point a ends in fin
spec fn acc(g: Pg, w: W, pc: int, a: St, fin: Fin, f: nat) -> bool
    decreases f
{
    if f == 0 || !(0 <= pc < g.p.len()) || !(0 <= a.i <= w.s.len()) { false } else {
        let h = (f - 1) as nat;
        match g.p[pc] {
            Instruction::Match(ix) => fin == (Fin { st: a, ix: ix as int }),
            Instruction::Jump(t) => acc(g, w, t as int, a, fin, h),
            Instruction::Split(t, u) => acc(g, w, t as int, a, fin, h) || acc(g, w, u as int, a, fin, h),
            Instruction::Fail => false,
            ins => if is_eater(ins) { a.i < w.s.len() && eats(ins, g.cc, w.s[a.i]) && acc(g, w, pc + 1, at(a, a.i + 1), fin, h) }
                   else { passes(ins, w, a.i) && acc(g, w, pc + 1, after(ins, w, a), fin, h) },
        }
    }
}

// ---- how a pattern is laid out as a program ----
spec fn mk(k: Kind, c: char) -> Instruction {
    match k { Kind::Same => Instruction::Char(c), Kind::Differ => Instruction::NotChar(c), Kind::Fold => Instruction::CaseInsensitiveChar(c) }
}
spec fn string_code(k: Kind, t: Seq<char>, g: Pg, a: int, b: int) -> bool {
    b == a + t.len() && forall|x: int| 0 <= x < t.len() ==> g.p[a + x] == mk(k, #[trigger] t[x])
}
spec fn single(g: Pg, a: int, b: int, ins: Instruction) -> bool { b == a + 1 && g.p[a] == ins }
spec fn split(g: Pg, p: int, t: int, u: int) -> bool { g.p[p] is Split && g.p[p]->Split_0 == t && g.p[p]->Split_1 == u }
spec fn jump(g: Pg, p: int, t: int) -> bool { g.p[p] is Jump && g.p[p]->Jump_0 == t }
/// `re` occupies the instructions a..b of the program
spec fn code(re: Regexp, g: Pg, a: int, b: int) -> bool
    decreases re, 0int
{
    &&& 0 <= a <= b <= g.p.len()
    &&& match re {
        Regexp::Literal(c) => single(g, a, b, Instruction::Char(c)),
        Regexp::Any => single(g, a, b, Instruction::Any),
        Regexp::CharacterClass(set) => b == a + 1 && g.p[a] is Class && g.p[a]->Class_0 < g.cc.len() && g.cc[g.p[a]->Class_0 as int]@ == set@,
        Regexp::NotCharacterClass(set) => b == a + 1 && g.p[a] is NotClass && g.p[a]->NotClass_0 < g.cc.len() && g.cc[g.p[a]->NotClass_0 as int]@ == set@,
        Regexp::String(t) => string_code(Kind::Same, t@, g, a, b),
        Regexp::NotString(t) => string_code(Kind::Differ, t@, g, a, b),
        Regexp::CaseInsensitiveString(t) => string_code(Kind::Fold, t@, g, a, b),
        Regexp::Concat(l, r) => exists|x: int| #[trigger] num(x) && code(*l, g, a, x) && code(*r, g, x, b),
        Regexp::Either(l, r) => exists|x: int| #[trigger] num(x) && code(*l, g, a + 1, x) && code(*r, g, x + 1, b) && split(g, a, a + 1, x + 1) && jump(g, x, b),
        Regexp::Optional(r) => code(*r, g, a + 1, b) && split(g, a, a + 1, b),
        Regexp::ZeroOrMore(r) => star_code(*r, g, a, b),
        Regexp::OneOrMore(r) => code(*r, g, a, b - 1) && split(g, b - 1, a, b),
        Regexp::RepeatExactly(n, r) => exists|ps: Seq<int>| #[trigger] sq(ps) && rep_code(*r, n as int, ps, g, a, b),
        Regexp::RepeatAtLeast(n, r) => exists|ps: Seq<int>| #[trigger] sq(ps) && rep_code(*r, n as int, ps, g, a, ps.last()) && star_code(*r, g, ps.last(), b),
        Regexp::RepeatAtLeastAtMost(n, h, r) => exists|ps: Seq<int>, qs: Seq<int>| #[trigger] sq(ps) && #[trigger] sq(qs) && rep_code(*r, n as int, ps, g, a, ps.last()) && opt_code(*r, extra(n, h), qs, g, ps.last(), b),
        Regexp::Capture(r) => g.p[a] is CaptureStart && code(*r, g, a + 1, b - 1) && g.p[b - 1] is CaptureEnd,
        Regexp::Group(r) => code(*r, g, a, b),
        Regexp::VariableEqual(v, x) => single(g, a, b, Instruction::VariableEqual(v, x)),
        Regexp::NotVariableEqual(v, x) => single(g, a, b, Instruction::NotVariableEqual(v, x)),
        Regexp::VariableBetween(v, lo, hi) => single(g, a, b, Instruction::VariableBetween(v, lo, hi)),
        Regexp::NotVariableBetween(v, lo, hi) => single(g, a, b, Instruction::NotVariableBetween(v, lo, hi)),
        Regexp::Empty => a == b,
        Regexp::Never => single(g, a, b, Instruction::Fail),
        Regexp::EndAnchor => single(g, a, b, Instruction::AssertEnd),
        Regexp::NotEndAnchor => single(g, a, b, Instruction::AssertMoreInput),
        Regexp::StartAnchor => single(g, a, b, Instruction::AssertStart),
        Regexp::NotStartAnchor => single(g, a, b, Instruction::AssertNotStart),
    }
}
spec fn extra(n: u8, h: u8) -> int { if h >= n { h - n } else { 0 } }
spec fn star_code(re: Regexp, g: Pg, a: int, b: int) -> bool decreases re, 1int {
    code(re, g, a + 1, b - 1) && split(g, a, a + 1, b) && jump(g, b - 1, a) && 0 <= a && b <= g.p.len()
}
/// n copies, one after the other, the k-th at ps[k]
spec fn rep_code(re: Regexp, n: int, ps: Seq<int>, g: Pg, a: int, b: int) -> bool decreases re, 1int {
    &&& n >= 0 && ps.len() == n + 1 && ps[0] == a && ps.last() == b
    &&& forall|k: int| 0 <= k < n ==> code(re, g, #[trigger] ps[k], ps[k + 1])
}
/// n optional copies, each of which may leave for b
spec fn opt_code(re: Regexp, n: int, ps: Seq<int>, g: Pg, a: int, b: int) -> bool decreases re, 1int {
    &&& n >= 0 && ps.len() == n + 1 && ps[0] == a && ps.last() == b
    &&& forall|k: int| 0 <= k < n ==> code(re, g, #[trigger] ps[k] + 1, ps[k + 1]) && split(g, ps[k], ps[k] + 1, b)
}

// ---- the layout does what the pattern says ----
proof fn acc_more(g: Pg, w: W, pc: int, a: St, fin: Fin, f: nat, f2: nat)
    requires acc(g, w, pc, a, fin, f), f <= f2,
    ensures acc(g, w, pc, a, fin, f2),
    decreases f
{
    reveal_with_fuel(acc, 2);
    let h = (f - 1) as nat; let h2 = (f2 - 1) as nat;
    match g.p[pc] {
        Instruction::Match(ix) => {}
        Instruction::Jump(t) => acc_more(g, w, t as int, a, fin, h, h2),
        Instruction::Split(t, u) => { if acc(g, w, t as int, a, fin, h) { acc_more(g, w, t as int, a, fin, h, h2) } else { acc_more(g, w, u as int, a, fin, h, h2) } }
        Instruction::Fail => {}
        ins => if is_eater(ins) { acc_more(g, w, pc + 1, at(a, a.i + 1), fin, h, h2) } else { acc_more(g, w, pc + 1, after(ins, w, a), fin, h, h2) },
    }
}
proof fn times_head(re: Regexp, n: int, w: W, a: St, x: St, b: St)
    requires m(re, w, a, x), times(re, n, w, x, b), n >= 0,
    ensures times(re, n + 1, w, a, b),
    decreases n
{
    assert(pt(x));
    if n == 0 { assert(pt(a) && times(re, 0, w, a, a)); assert(times(re, 1, w, a, b)); }
    else {
        let y = choose|y: St| #[trigger] pt(y) && times(re, n - 1, w, x, y) && m(re, w, y, b);
        times_head(re, n - 1, w, a, x, y); assert(pt(y));
    }
}
proof fn times_join(re: Regexp, n: int, k: int, w: W, a: St, x: St, b: St)
    requires times(re, n, w, a, x), times(re, k, w, x, b), n >= 0, k >= 0,
    ensures times(re, n + k, w, a, b),
    decreases k
{
    if k > 0 {
        let y = choose|y: St| #[trigger] pt(y) && times(re, k - 1, w, x, y) && m(re, w, y, b);
        times_join(re, n, k - 1, w, a, x, y); assert(pt(y));
    }
}
proof fn times_split(re: Regexp, n: int, k: int, w: W, a: St, b: St) -> (x: St)
    requires times(re, n + k, w, a, b), n >= 0, k >= 0,
    ensures times(re, n, w, a, x), times(re, k, w, x, b),
    decreases k
{
    if k == 0 { assert(times(re, 0, w, b, b)); b }
    else {
        let y = choose|y: St| #[trigger] pt(y) && times(re, n + k - 1, w, a, y) && m(re, w, y, b);
        let x = times_split(re, n, k - 1, w, a, y); assert(pt(y));
        x
    }
}
proof fn string_fwd(k: Kind, t: Seq<char>, g: Pg, w: W, p: int, q: int, a: St, fin: Fin, f: nat) -> (r: (St, nat))
    requires string_code(k, t, g, p, q), 0 <= p, q <= g.p.len(), acc(g, w, p, a, fin, f),
    ensures string_m(k, t, w, a, r.0), acc(g, w, q, r.0, fin, r.1), r.1 <= f,
    decreases t.len()
{
    if t.len() == 0 { (a, f) }
    else {
        let t1 = t.skip(1);
        assert(g.p[p + 0] == mk(k, t[0]));
        assert forall|x: int| 0 <= x < t1.len() implies g.p[p + 1 + x] == mk(k, #[trigger] t1[x]) by { assert(t1[x] == t[x + 1]); }
        let r = string_fwd(k, t1, g, w, p + 1, q, at(a, a.i + 1), fin, (f - 1) as nat);
        assert forall|x: int| 0 <= x < t.len() implies cmp(k, w.s[a.i + x], #[trigger] t[x]) by { if x > 0 { assert(t1[x - 1] == t[x]); } }
        r
    }
}
proof fn string_bwd(k: Kind, t: Seq<char>, g: Pg, w: W, p: int, q: int, a: St, b: St, fin: Fin, f: nat) -> (r: nat)
    requires string_code(k, t, g, p, q), 0 <= p, q <= g.p.len(), string_m(k, t, w, a, b), acc(g, w, q, b, fin, f),
    ensures acc(g, w, p, a, fin, r),
    decreases t.len()
{
    if t.len() == 0 { f }
    else {
        let t1 = t.skip(1);
        assert(g.p[p + 0] == mk(k, t[0]));
        assert(cmp(k, w.s[a.i + 0], t[0]));
        assert forall|x: int| 0 <= x < t1.len() implies g.p[p + 1 + x] == mk(k, #[trigger] t1[x]) by { assert(t1[x] == t[x + 1]); }
        assert forall|x: int| 0 <= x < t1.len() implies cmp(k, w.s[a.i + 1 + x], #[trigger] t1[x]) by { assert(t1[x] == t[x + 1]); }
        let r = string_bwd(k, t1, g, w, p + 1, q, at(a, a.i + 1), b, fin, f);
        r + 1
    }
}
proof fn fwd_rep(re: Regexp, n: int, ps: Seq<int>, j: int, g: Pg, w: W, p: int, q: int, a: St, fin: Fin, f: nat) -> (r: (St, nat))
    requires rep_code(re, n, ps, g, p, q), 0 <= j <= n, acc(g, w, p, a, fin, f),
    ensures times(re, j, w, a, r.0), acc(g, w, ps[j], r.0, fin, r.1), r.1 <= f,
    decreases re, f, j
{
    if j == 0 { (a, f) }
    else {
        let r1 = fwd_rep(re, n, ps, j - 1, g, w, p, q, a, fin, f);
        assert(code(re, g, ps[j - 1], ps[j - 1 + 1]));
        let r2 = fwd(re, g, w, ps[j - 1], ps[j], r1.0, fin, r1.1);
        assert(pt(r1.0) && times(re, j - 1, w, a, r1.0) && m(re, w, r1.0, r2.0));
        r2
    }
}
proof fn fwd_opt(re: Regexp, n: int, ps: Seq<int>, j: int, g: Pg, w: W, p: int, q: int, a: St, fin: Fin, f: nat) -> (r: (St, nat, int))
    requires opt_code(re, n, ps, g, p, q), 0 <= j <= n, acc(g, w, ps[j], a, fin, f),
    ensures 0 <= r.2 <= n - j, times(re, r.2, w, a, r.0), acc(g, w, q, r.0, fin, r.1), r.1 <= f,
    decreases re, f, n - j
{
    if j == n { assert(times(re, 0, w, a, a)); (a, f, 0) }
    else {
        assert(code(re, g, ps[j] + 1, ps[j + 1]) && split(g, ps[j], ps[j] + 1, q));
        let h = (f - 1) as nat;
        if acc(g, w, q, a, fin, h) { assert(times(re, 0, w, a, a)); (a, h, 0) }
        else {
            let r1 = fwd(re, g, w, ps[j] + 1, ps[j + 1], a, fin, h);
            let r2 = fwd_opt(re, n, ps, j + 1, g, w, p, q, r1.0, fin, r1.1);
            times_head(re, r2.2, w, a, r1.0, r2.0);
            (r2.0, r2.1, r2.2 + 1)
        }
    }
}
proof fn fwd_star(re: Regexp, g: Pg, w: W, p: int, q: int, a: St, fin: Fin, f: nat) -> (r: (St, nat, int))
    requires star_code(re, g, p, q), acc(g, w, p, a, fin, f),
    ensures r.2 >= 0, times(re, r.2, w, a, r.0), acc(g, w, q, r.0, fin, r.1), r.1 <= f,
    decreases re, f, 0int
{
    let h = (f - 1) as nat;
    if acc(g, w, q, a, fin, h) { assert(times(re, 0, w, a, a)); (a, h, 0) }
    else {
        let r1 = fwd(re, g, w, p + 1, q - 1, a, fin, h);
        assert(acc(g, w, p, r1.0, fin, (r1.1 - 1) as nat));
        let r2 = fwd_star(re, g, w, p, q, r1.0, fin, (r1.1 - 1) as nat);
        times_head(re, r2.2, w, a, r1.0, r2.0);
        (r2.0, r2.1, r2.2 + 1)
    }
}
proof fn fwd_plus(re: Regexp, g: Pg, w: W, p: int, q: int, a: St, fin: Fin, f: nat) -> (r: (St, nat, int))
    requires code(re, g, p, q - 1), split(g, q - 1, p, q), 0 <= p, q <= g.p.len(), acc(g, w, p, a, fin, f),
    ensures r.2 >= 1, times(re, r.2, w, a, r.0), acc(g, w, q, r.0, fin, r.1), r.1 <= f,
    decreases re, f, 1int
{
    let r1 = fwd(re, g, w, p, q - 1, a, fin, f);
    let h = (r1.1 - 1) as nat;
    if acc(g, w, q, r1.0, fin, h) {
        assert(pt(a) && times(re, 0, w, a, a)); assert(times(re, 1, w, a, r1.0));
        (r1.0, h, 1)
    } else {
        let r2 = fwd_plus(re, g, w, p, q, r1.0, fin, h);
        times_head(re, r2.2, w, a, r1.0, r2.0);
        (r2.0, r2.1, r2.2 + 1)
    }
}
/// every accepting run from the start of the layout first matches the pattern
proof fn fwd(re: Regexp, g: Pg, w: W, p: int, q: int, a: St, fin: Fin, f: nat) -> (r: (St, nat))
    requires code(re, g, p, q), acc(g, w, p, a, fin, f),
    ensures m(re, w, a, r.0), acc(g, w, q, r.0, fin, r.1), r.1 <= f,
    decreases re, f, 0int
{
    let h = (f - 1) as nat;
    match re {
        Regexp::Literal(_) | Regexp::Any | Regexp::CharacterClass(_) | Regexp::NotCharacterClass(_) => (at(a, a.i + 1), h),
        Regexp::String(t) => string_fwd(Kind::Same, t@, g, w, p, q, a, fin, f),
        Regexp::NotString(t) => string_fwd(Kind::Differ, t@, g, w, p, q, a, fin, f),
        Regexp::CaseInsensitiveString(t) => string_fwd(Kind::Fold, t@, g, w, p, q, a, fin, f),
        Regexp::Concat(l, r) => {
            let x = choose|x: int| #[trigger] num(x) && code(*l, g, p, x) && code(*r, g, x, q);
            let r1 = fwd(*l, g, w, p, x, a, fin, f);
            let r2 = fwd(*r, g, w, x, q, r1.0, fin, r1.1);
            assert(pt(r1.0) && m(*l, w, a, r1.0) && m(*r, w, r1.0, r2.0));
            r2
        }
        Regexp::Either(l, r) => {
            let x = choose|x: int| #[trigger] num(x) && code(*l, g, p + 1, x) && code(*r, g, x + 1, q) && split(g, p, p + 1, x + 1) && jump(g, x, q);
            if acc(g, w, p + 1, a, fin, h) {
                let r1 = fwd(*l, g, w, p + 1, x, a, fin, h);
                (r1.0, (r1.1 - 1) as nat)
            } else { fwd(*r, g, w, x + 1, q, a, fin, h) }
        }
        Regexp::Optional(r) => { if acc(g, w, q, a, fin, h) { (a, h) } else { fwd(*r, g, w, p + 1, q, a, fin, h) } }
        Regexp::ZeroOrMore(r) => { let x = fwd_star(*r, g, w, p, q, a, fin, f); assert(num(x.2)); (x.0, x.1) }
        Regexp::OneOrMore(r) => { let x = fwd_plus(*r, g, w, p, q, a, fin, f); assert(num(x.2)); (x.0, x.1) }
        Regexp::RepeatExactly(n, r) => {
            let ps = choose|ps: Seq<int>| #[trigger] sq(ps) && rep_code(*r, n as int, ps, g, p, q);
            fwd_rep(*r, n as int, ps, n as int, g, w, p, q, a, fin, f)
        }
        Regexp::RepeatAtLeast(n, r) => {
            let ps = choose|ps: Seq<int>| #[trigger] sq(ps) && rep_code(*r, n as int, ps, g, p, ps.last()) && star_code(*r, g, ps.last(), q);
            let x = fwd_rep(*r, n as int, ps, n as int, g, w, p, ps.last(), a, fin, f);
            let y = fwd_star(*r, g, w, ps.last(), q, x.0, fin, x.1);
            times_join(*r, n as int, y.2, w, a, x.0, y.0);
            assert(num(n as int + y.2));
            (y.0, y.1)
        }
        Regexp::RepeatAtLeastAtMost(n, u, r) => {
            let (ps, qs) = choose|ps: Seq<int>, qs: Seq<int>| #[trigger] sq(ps) && #[trigger] sq(qs) && rep_code(*r, n as int, ps, g, p, ps.last()) && opt_code(*r, extra(n, u), qs, g, ps.last(), q);
            let x = fwd_rep(*r, n as int, ps, n as int, g, w, p, ps.last(), a, fin, f);
            let y = fwd_opt(*r, extra(n, u), qs, 0, g, w, ps.last(), q, x.0, fin, x.1);
            times_join(*r, n as int, y.2, w, a, x.0, y.0);
            assert(num(n as int + y.2));
            (y.0, y.1)
        }
        Regexp::Capture(r) => {
            let x = fwd(*r, g, w, p + 1, q - 1, after(g.p[p], w, a), fin, h);
            assert(pt(x.0));
            (after(g.p[q - 1], w, x.0), (x.1 - 1) as nat)
        }
        Regexp::Group(r) => fwd(*r, g, w, p, q, a, fin, f),
        Regexp::Empty => (a, f),
        Regexp::Never => (a, f),
        _ => (a, h),
    }
}
proof fn bwd_rep(re: Regexp, n: int, ps: Seq<int>, j: int, g: Pg, w: W, p: int, q: int, a: St, b: St, fin: Fin, f: nat) -> (r: nat)
    requires rep_code(re, n, ps, g, p, q), 0 <= j <= n, times(re, j, w, a, b), acc(g, w, ps[j], b, fin, f),
    ensures acc(g, w, p, a, fin, r),
    decreases re, j
{
    if j == 0 { f } else {
        let y = choose|y: St| #[trigger] pt(y) && times(re, j - 1, w, a, y) && m(re, w, y, b);
        assert(code(re, g, ps[j - 1], ps[j - 1 + 1]));
        let f1 = bwd(re, g, w, ps[j - 1], ps[j], y, b, fin, f);
        bwd_rep(re, n, ps, j - 1, g, w, p, q, a, y, fin, f1)
    }
}
proof fn bwd_opt(re: Regexp, n: int, ps: Seq<int>, j: int, g: Pg, w: W, p: int, q: int, a: St, b: St, fin: Fin, f: nat) -> (r: nat)
    requires opt_code(re, n, ps, g, p, q), 0 <= p, 0 <= j <= n, times(re, j, w, a, b), acc(g, w, ps[j], b, fin, f),
    ensures acc(g, w, p, a, fin, r),
    decreases re, j
{
    if j == 0 { f } else {
        let y = choose|y: St| #[trigger] pt(y) && times(re, j - 1, w, a, y) && m(re, w, y, b);
        assert(code(re, g, ps[j - 1] + 1, ps[j - 1 + 1]) && split(g, ps[j - 1], ps[j - 1] + 1, q));
        let f1 = bwd(re, g, w, ps[j - 1] + 1, ps[j], y, b, fin, f);
        acc_in(g, w, ps[j - 1] + 1, y, fin, f1);
        assert(0 <= ps[j - 1]) by { opt_pos(re, n, ps, g, p, q, j - 1); }
        assert(acc(g, w, ps[j - 1], y, fin, f1 + 1));
        bwd_opt(re, n, ps, j - 1, g, w, p, q, a, y, fin, f1 + 1)
    }
}
proof fn opt_pos(re: Regexp, n: int, ps: Seq<int>, g: Pg, p: int, q: int, j: int)
    requires opt_code(re, n, ps, g, p, q), 0 <= p, 0 <= j <= n,
    ensures 0 <= ps[j],
    decreases j
{ if j > 0 { opt_pos(re, n, ps, g, p, q, j - 1); assert(code(re, g, ps[j - 1] + 1, ps[j - 1 + 1])); } }
proof fn acc_in(g: Pg, w: W, pc: int, a: St, fin: Fin, f: nat)
    requires acc(g, w, pc, a, fin, f),
    ensures 0 <= pc < g.p.len(), 0 <= a.i <= w.s.len(), f > 0,
{}
proof fn bwd_star(re: Regexp, g: Pg, w: W, p: int, q: int, n: int, a: St, b: St, fin: Fin, f: nat) -> (r: nat)
    requires star_code(re, g, p, q), times(re, n, w, a, b), n >= 0, acc(g, w, p, b, fin, f),
    ensures acc(g, w, p, a, fin, r),
    decreases re, n
{
    if n == 0 { f } else {
        let y = choose|y: St| #[trigger] pt(y) && times(re, n - 1, w, a, y) && m(re, w, y, b);
        acc_in(g, w, p, b, fin, f);
        assert(acc(g, w, q - 1, b, fin, f + 1));
        let f1 = bwd(re, g, w, p + 1, q - 1, y, b, fin, f + 1);
        acc_in(g, w, p + 1, y, fin, f1);
        assert(acc(g, w, p, y, fin, f1 + 1));
        bwd_star(re, g, w, p, q, n - 1, a, y, fin, f1 + 1)
    }
}
proof fn bwd_plus(re: Regexp, g: Pg, w: W, p: int, q: int, n: int, a: St, b: St, fin: Fin, f: nat) -> (r: nat)
    requires code(re, g, p, q - 1), split(g, q - 1, p, q), 0 <= p, q <= g.p.len(), times(re, n, w, a, b), n >= 1, acc(g, w, q - 1, b, fin, f),
    ensures acc(g, w, p, a, fin, r),
    decreases re, n
{
    let y = choose|y: St| #[trigger] pt(y) && times(re, n - 1, w, a, y) && m(re, w, y, b);
    let f1 = bwd(re, g, w, p, q - 1, y, b, fin, f);
    if n == 1 { f1 } else {
        acc_in(g, w, p, y, fin, f1);
        assert(acc(g, w, q - 1, y, fin, f1 + 1));
        bwd_plus(re, g, w, p, q, n - 1, a, y, fin, f1 + 1)
    }
}
/// every match of the pattern is followed by some run
proof fn bwd(re: Regexp, g: Pg, w: W, p: int, q: int, a: St, b: St, fin: Fin, f: nat) -> (r: nat)
    requires code(re, g, p, q), m(re, w, a, b), acc(g, w, q, b, fin, f),
    ensures acc(g, w, p, a, fin, r),
    decreases re, 0int
{
    acc_in(g, w, q, b, fin, f);
    match re {
        Regexp::Literal(_) | Regexp::Any | Regexp::CharacterClass(_) | Regexp::NotCharacterClass(_) => f + 1,
        Regexp::String(t) => string_bwd(Kind::Same, t@, g, w, p, q, a, b, fin, f),
        Regexp::NotString(t) => string_bwd(Kind::Differ, t@, g, w, p, q, a, b, fin, f),
        Regexp::CaseInsensitiveString(t) => string_bwd(Kind::Fold, t@, g, w, p, q, a, b, fin, f),
        Regexp::Concat(l, r) => {
            let x = choose|x: int| #[trigger] num(x) && code(*l, g, p, x) && code(*r, g, x, q);
            let y = choose|y: St| #[trigger] pt(y) && m(*l, w, a, y) && m(*r, w, y, b);
            let f1 = bwd(*r, g, w, x, q, y, b, fin, f);
            bwd(*l, g, w, p, x, a, y, fin, f1)
        }
        Regexp::Either(l, r) => {
            let x = choose|x: int| #[trigger] num(x) && code(*l, g, p + 1, x) && code(*r, g, x + 1, q) && split(g, p, p + 1, x + 1) && jump(g, x, q);
            if m(*l, w, a, b) {
                assert(acc(g, w, x, b, fin, f + 1));
                let f1 = bwd(*l, g, w, p + 1, x, a, b, fin, f + 1);
                acc_in(g, w, p + 1, a, fin, f1);
                f1 + 1
            } else {
                let f1 = bwd(*r, g, w, x + 1, q, a, b, fin, f);
                acc_in(g, w, x + 1, a, fin, f1);
                f1 + 1
            }
        }
        Regexp::Optional(r) => {
            if a == b { f + 1 } else { let f1 = bwd(*r, g, w, p + 1, q, a, b, fin, f); acc_in(g, w, p + 1, a, fin, f1); f1 + 1 }
        }
        Regexp::ZeroOrMore(r) => {
            let n = choose|n: int| #[trigger] num(n) && n >= 0 && times(*r, n, w, a, b);
            assert(star_code(*r, g, p, q));
            code_in(*r, g, p + 1, q - 1);
            assert(acc(g, w, p, b, fin, f + 1));
            bwd_star(*r, g, w, p, q, n, a, b, fin, f + 1)
        }
        Regexp::OneOrMore(r) => {
            let n = choose|n: int| #[trigger] num(n) && n >= 1 && times(*r, n, w, a, b);
            code_in(*r, g, p, q - 1);
            assert(acc(g, w, q - 1, b, fin, f + 1));
            bwd_plus(*r, g, w, p, q, n, a, b, fin, f + 1)
        }
        Regexp::RepeatExactly(n, r) => {
            let ps = choose|ps: Seq<int>| #[trigger] sq(ps) && rep_code(*r, n as int, ps, g, p, q);
            bwd_rep(*r, n as int, ps, n as int, g, w, p, q, a, b, fin, f)
        }
        Regexp::RepeatAtLeast(k, r) => {
            let ps = choose|ps: Seq<int>| #[trigger] sq(ps) && rep_code(*r, k as int, ps, g, p, ps.last()) && star_code(*r, g, ps.last(), q);
            let n = choose|n: int| #[trigger] num(n) && n >= k && times(*r, n, w, a, b);
            let x = times_split(*r, k as int, n - k, w, a, b);
            assert(acc(g, w, ps.last(), b, fin, f + 1));
            let f1 = bwd_star(*r, g, w, ps.last(), q, n - k, x, b, fin, f + 1);
            bwd_rep(*r, k as int, ps, k as int, g, w, p, ps.last(), a, x, fin, f1)
        }
        Regexp::RepeatAtLeastAtMost(k, u, r) => {
            let (ps, qs) = choose|ps: Seq<int>, qs: Seq<int>| #[trigger] sq(ps) && #[trigger] sq(qs) && rep_code(*r, k as int, ps, g, p, ps.last()) && opt_code(*r, extra(k, u), qs, g, ps.last(), q);
            let n = choose|n: int| #[trigger] num(n) && (n == k || k <= n <= u) && times(*r, n, w, a, b);
            let x = times_split(*r, k as int, n - k, w, a, b);
            rep_pos(*r, k as int, ps, g, p, ps.last(), k as int);
            let f1 = if n - k == extra(k, u) { f } else {
                let j = n - k;
                opt_pos(*r, extra(k, u), qs, g, ps.last(), q, j);
                assert(code(*r, g, qs[j] + 1, qs[j + 1]) && split(g, qs[j], qs[j] + 1, q));
                assert(acc(g, w, qs[j], b, fin, f + 1));
                f + 1
            };
            let f2 = bwd_opt(*r, extra(k, u), qs, n - k, g, w, ps.last(), q, x, b, fin, f1);
            bwd_rep(*r, k as int, ps, k as int, g, w, p, ps.last(), a, x, fin, f2)
        }
        Regexp::Capture(r) => {
            let x = choose|x: St| #[trigger] pt(x) && m(*r, w, St { i: a.i, c0: boff(w.s, a.i), c1: 0 }, x) && b == (St { i: x.i, c0: x.c0, c1: boff(w.s, x.i) });
            code_in(*r, g, p + 1, q - 1);
            assert(acc(g, w, q - 1, x, fin, f + 1));
            let f1 = bwd(*r, g, w, p + 1, q - 1, after(g.p[p], w, a), x, fin, f + 1);
            acc_in(g, w, p + 1, after(g.p[p], w, a), fin, f1);
            f1 + 1
        }
        Regexp::Group(r) => bwd(*r, g, w, p, q, a, b, fin, f),
        Regexp::Empty => f,
        Regexp::Never => f,
        _ => f + 1,
    }
}
proof fn rep_pos(re: Regexp, n: int, ps: Seq<int>, g: Pg, p: int, q: int, j: int)
    requires rep_code(re, n, ps, g, p, q), 0 <= p, 0 <= j <= n,
    ensures 0 <= ps[j],
    decreases j
{ if j > 0 { rep_pos(re, n, ps, g, p, q, j - 1); assert(code(re, g, ps[j - 1], ps[j - 1 + 1])); } }

proof fn code_in(re: Regexp, g: Pg, p: int, q: int) requires code(re, g, p, q), ensures 0 <= p <= q <= g.p.len() {}
/// the layout only depends on the instructions it covers and on the classes it names
proof fn code_frame(re: Regexp, g: Pg, h: Pg, p: int, q: int)
    requires code(re, g, p, q), q <= h.p.len(), forall|k: int| p <= k < q ==> g.p[k] == #[trigger] h.p[k],
        g.cc.len() <= h.cc.len(), forall|k: int| 0 <= k < g.cc.len() ==> g.cc[k] == #[trigger] h.cc[k],
    ensures code(re, h, p, q),
    decreases re, 0int
{
    match re {
        Regexp::String(t) => { assert forall|x: int| 0 <= x < t@.len() implies h.p[p + x] == mk(Kind::Same, #[trigger] t@[x]) by { assert(g.p[p + x] == mk(Kind::Same, t@[x])); } }
        Regexp::NotString(t) => { assert forall|x: int| 0 <= x < t@.len() implies h.p[p + x] == mk(Kind::Differ, #[trigger] t@[x]) by { assert(g.p[p + x] == mk(Kind::Differ, t@[x])); } }
        Regexp::CaseInsensitiveString(t) => { assert forall|x: int| 0 <= x < t@.len() implies h.p[p + x] == mk(Kind::Fold, #[trigger] t@[x]) by { assert(g.p[p + x] == mk(Kind::Fold, t@[x])); } }
        Regexp::Concat(l, r) => {
            let x = choose|x: int| #[trigger] num(x) && code(*l, g, p, x) && code(*r, g, x, q);
            code_in(*l, g, p, x); code_in(*r, g, x, q);
            code_frame(*l, g, h, p, x); code_frame(*r, g, h, x, q);
            assert(num(x) && code(*l, h, p, x) && code(*r, h, x, q));
        }
        Regexp::Either(l, r) => {
            let x = choose|x: int| #[trigger] num(x) && code(*l, g, p + 1, x) && code(*r, g, x + 1, q) && split(g, p, p + 1, x + 1) && jump(g, x, q);
            code_in(*l, g, p + 1, x); code_in(*r, g, x + 1, q);
            code_frame(*l, g, h, p + 1, x); code_frame(*r, g, h, x + 1, q);
            assert(num(x) && code(*l, h, p + 1, x) && code(*r, h, x + 1, q) && split(h, p, p + 1, x + 1) && jump(h, x, q));
        }
        Regexp::Optional(r) => { code_in(*r, g, p + 1, q); code_frame(*r, g, h, p + 1, q); }
        Regexp::ZeroOrMore(r) => { star_frame(*r, g, h, p, q); }
        Regexp::OneOrMore(r) => { code_in(*r, g, p, q - 1); code_frame(*r, g, h, p, q - 1); }
        Regexp::RepeatExactly(n, r) => {
            let ps = choose|ps: Seq<int>| #[trigger] sq(ps) && rep_code(*r, n as int, ps, g, p, q);
            rep_frame(*r, n as int, ps, g, h, p, q);
            assert(sq(ps) && rep_code(*r, n as int, ps, h, p, q));
        }
        Regexp::RepeatAtLeast(n, r) => {
            let ps = choose|ps: Seq<int>| #[trigger] sq(ps) && rep_code(*r, n as int, ps, g, p, ps.last()) && star_code(*r, g, ps.last(), q);
            code_in(*r, g, ps.last() + 1, q - 1);
            rep_mono(*r, n as int, ps, g, p, ps.last(), 0, n as int);
            rep_frame(*r, n as int, ps, g, h, p, ps.last());
            star_frame(*r, g, h, ps.last(), q);
            assert(sq(ps) && rep_code(*r, n as int, ps, h, p, ps.last()) && star_code(*r, h, ps.last(), q));
        }
        Regexp::RepeatAtLeastAtMost(n, u, r) => {
            let (ps, qs) = choose|ps: Seq<int>, qs: Seq<int>| #[trigger] sq(ps) && #[trigger] sq(qs) && rep_code(*r, n as int, ps, g, p, ps.last()) && opt_code(*r, extra(n, u), qs, g, ps.last(), q);
            opt_mono(*r, extra(n, u), qs, g, ps.last(), q, 0, extra(n, u));
            rep_mono(*r, n as int, ps, g, p, ps.last(), 0, n as int);
            rep_frame(*r, n as int, ps, g, h, p, ps.last());
            opt_frame(*r, extra(n, u), qs, g, h, ps.last(), q);
            assert(sq(ps) && sq(qs) && rep_code(*r, n as int, ps, h, p, ps.last()) && opt_code(*r, extra(n, u), qs, h, ps.last(), q));
        }
        Regexp::Capture(r) => { code_in(*r, g, p + 1, q - 1); code_frame(*r, g, h, p + 1, q - 1); }
        Regexp::Group(r) => { code_frame(*r, g, h, p, q); }
        _ => {}
    }
}
proof fn star_frame(re: Regexp, g: Pg, h: Pg, p: int, q: int)
    requires star_code(re, g, p, q), q <= h.p.len(), forall|k: int| p <= k < q ==> g.p[k] == #[trigger] h.p[k],
        g.cc.len() <= h.cc.len(), forall|k: int| 0 <= k < g.cc.len() ==> g.cc[k] == #[trigger] h.cc[k],
    ensures star_code(re, h, p, q),
    decreases re, 1int
{ code_in(re, g, p + 1, q - 1); code_frame(re, g, h, p + 1, q - 1); }
proof fn rep_mono(re: Regexp, n: int, ps: Seq<int>, g: Pg, p: int, q: int, j: int, k: int)
    requires rep_code(re, n, ps, g, p, q), 0 <= j <= k <= n,
    ensures ps[j] <= ps[k],
    decreases k - j
{ if j < k { rep_mono(re, n, ps, g, p, q, j, k - 1); assert(code(re, g, ps[k - 1], ps[k - 1 + 1])); } }
proof fn opt_mono(re: Regexp, n: int, ps: Seq<int>, g: Pg, p: int, q: int, j: int, k: int)
    requires opt_code(re, n, ps, g, p, q), 0 <= j <= k <= n,
    ensures ps[j] <= ps[k], j < k ==> 0 <= ps[j] + 1,
    decreases k - j
{ if j < k { opt_mono(re, n, ps, g, p, q, j, k - 1); assert(code(re, g, ps[j] + 1, ps[j + 1])); assert(code(re, g, ps[k - 1] + 1, ps[k - 1 + 1])); } }
proof fn rep_frame(re: Regexp, n: int, ps: Seq<int>, g: Pg, h: Pg, p: int, q: int)
    requires rep_code(re, n, ps, g, p, q), q <= h.p.len(), forall|k: int| p <= k < q ==> g.p[k] == #[trigger] h.p[k],
        g.cc.len() <= h.cc.len(), forall|k: int| 0 <= k < g.cc.len() ==> g.cc[k] == #[trigger] h.cc[k],
    ensures rep_code(re, n, ps, h, p, q),
    decreases re, 1int
{
    assert forall|k: int| 0 <= k < n implies code(re, h, #[trigger] ps[k], ps[k + 1]) by {
        rep_mono(re, n, ps, g, p, q, 0, k); rep_mono(re, n, ps, g, p, q, k + 1, n);
        code_frame(re, g, h, ps[k], ps[k + 1]);
    }
}
proof fn opt_frame(re: Regexp, n: int, ps: Seq<int>, g: Pg, h: Pg, p: int, q: int)
    requires opt_code(re, n, ps, g, p, q), q <= h.p.len(), forall|k: int| p <= k < q ==> g.p[k] == #[trigger] h.p[k],
        g.cc.len() <= h.cc.len(), forall|k: int| 0 <= k < g.cc.len() ==> g.cc[k] == #[trigger] h.cc[k],
    ensures opt_code(re, n, ps, h, p, q),
    decreases re, 1int
{
    assert forall|k: int| 0 <= k < n implies code(re, h, #[trigger] ps[k] + 1, ps[k + 1]) && split(h, ps[k], ps[k] + 1, q) by {
        opt_mono(re, n, ps, g, p, q, 0, k); opt_mono(re, n, ps, g, p, q, k + 1, n);
        code_in(re, g, ps[k] + 1, ps[k + 1]);
        code_frame(re, g, h, ps[k] + 1, ps[k + 1]);
    }
}
/// what an instruction at k may refer to
spec fn tame(g: Pg, k: int, lo: int, hi: int) -> bool {
    match g.p[k] {
        Instruction::Match(_) => false,
        Instruction::Jump(t) => lo <= t <= hi,
        Instruction::Split(t, u) => lo <= t <= hi && lo <= u <= hi,
        Instruction::Class(x) => x < g.cc.len(),
        Instruction::NotClass(x) => x < g.cc.len(),
        _ => true,
    }
}
proof fn code_tame(re: Regexp, g: Pg, p: int, q: int, k: int)
    requires code(re, g, p, q), p <= k < q,
    ensures tame(g, k, p, q),
    decreases re, 0int
{
    match re {
        Regexp::String(t) => { assert(g.p[p + (k - p)] == mk(Kind::Same, t@[k - p])); }
        Regexp::NotString(t) => { assert(g.p[p + (k - p)] == mk(Kind::Differ, t@[k - p])); }
        Regexp::CaseInsensitiveString(t) => { assert(g.p[p + (k - p)] == mk(Kind::Fold, t@[k - p])); }
        Regexp::Concat(l, r) => {
            let x = choose|x: int| #[trigger] num(x) && code(*l, g, p, x) && code(*r, g, x, q);
            code_in(*l, g, p, x); code_in(*r, g, x, q);
            if k < x { code_tame(*l, g, p, x, k); } else { code_tame(*r, g, x, q, k); }
        }
        Regexp::Either(l, r) => {
            let x = choose|x: int| #[trigger] num(x) && code(*l, g, p + 1, x) && code(*r, g, x + 1, q) && split(g, p, p + 1, x + 1) && jump(g, x, q);
            code_in(*l, g, p + 1, x); code_in(*r, g, x + 1, q);
            if k == p || k == x {} else if k < x { code_tame(*l, g, p + 1, x, k); } else { code_tame(*r, g, x + 1, q, k); }
        }
        Regexp::Optional(r) => { code_in(*r, g, p + 1, q); if k > p { code_tame(*r, g, p + 1, q, k); } }
        Regexp::ZeroOrMore(r) => { star_tame(*r, g, p, q, k); }
        Regexp::OneOrMore(r) => { code_in(*r, g, p, q - 1); if k < q - 1 { code_tame(*r, g, p, q - 1, k); } }
        Regexp::RepeatExactly(n, r) => {
            let ps = choose|ps: Seq<int>| #[trigger] sq(ps) && rep_code(*r, n as int, ps, g, p, q);
            rep_tame(*r, n as int, ps, g, p, q, k, n as int);
        }
        Regexp::RepeatAtLeast(n, r) => {
            let ps = choose|ps: Seq<int>| #[trigger] sq(ps) && rep_code(*r, n as int, ps, g, p, ps.last()) && star_code(*r, g, ps.last(), q);
            code_in(*r, g, ps.last() + 1, q - 1);
            rep_mono(*r, n as int, ps, g, p, ps.last(), 0, n as int);
            if k < ps.last() { rep_tame(*r, n as int, ps, g, p, ps.last(), k, n as int); } else { star_tame(*r, g, ps.last(), q, k); }
        }
        Regexp::RepeatAtLeastAtMost(n, u, r) => {
            let (ps, qs) = choose|ps: Seq<int>, qs: Seq<int>| #[trigger] sq(ps) && #[trigger] sq(qs) && rep_code(*r, n as int, ps, g, p, ps.last()) && opt_code(*r, extra(n, u), qs, g, ps.last(), q);
            opt_mono(*r, extra(n, u), qs, g, ps.last(), q, 0, extra(n, u));
            rep_mono(*r, n as int, ps, g, p, ps.last(), 0, n as int);
            if k < ps.last() { rep_tame(*r, n as int, ps, g, p, ps.last(), k, n as int); } else { opt_tame(*r, extra(n, u), qs, g, ps.last(), q, k, extra(n, u)); }
        }
        Regexp::Capture(r) => { code_in(*r, g, p + 1, q - 1); if p < k < q - 1 { code_tame(*r, g, p + 1, q - 1, k); } }
        Regexp::Group(r) => { code_tame(*r, g, p, q, k); }
        _ => {}
    }
}
proof fn star_tame(re: Regexp, g: Pg, p: int, q: int, k: int)
    requires star_code(re, g, p, q), p <= k < q,
    ensures tame(g, k, p, q),
    decreases re, 1int
{ code_in(re, g, p + 1, q - 1); if p < k < q - 1 { code_tame(re, g, p + 1, q - 1, k); } }
proof fn rep_tame(re: Regexp, n: int, ps: Seq<int>, g: Pg, p: int, q: int, k: int, j: int)
    requires rep_code(re, n, ps, g, p, q), 0 <= j <= n, p <= k < ps[j],
    ensures tame(g, k, p, q),
    decreases re, 1int, j
{
    if j > 0 {
        if k < ps[j - 1] { rep_tame(re, n, ps, g, p, q, k, j - 1); }
        else { assert(code(re, g, ps[j - 1], ps[j - 1 + 1])); code_tame(re, g, ps[j - 1], ps[j], k); rep_mono(re, n, ps, g, p, q, 0, j - 1); rep_mono(re, n, ps, g, p, q, j, n); }
    }
}
proof fn opt_tame(re: Regexp, n: int, ps: Seq<int>, g: Pg, p: int, q: int, k: int, j: int)
    requires opt_code(re, n, ps, g, p, q), 0 <= j <= n, p <= k < ps[j],
    ensures tame(g, k, p, q),
    decreases re, 1int, j
{
    if j > 0 {
        if k < ps[j - 1] { opt_tame(re, n, ps, g, p, q, k, j - 1); }
        else {
            assert(code(re, g, ps[j - 1] + 1, ps[j - 1 + 1]) && split(g, ps[j - 1], ps[j - 1] + 1, q));
            code_in(re, g, ps[j - 1] + 1, ps[j]);
            opt_mono(re, n, ps, g, p, q, 0, j - 1); opt_mono(re, n, ps, g, p, q, j, n);
            if k > ps[j - 1] { code_tame(re, g, ps[j - 1] + 1, ps[j], k); }
        }
    }
}
/// a point inside the text whose capture starts no later
spec fn inb(w: W, a: St) -> bool { 0 <= a.i <= w.s.len() && exists|x: int| 0 <= x <= a.i && a.c0 == #[trigger] boff(w.s, x) }
/// ... and the capture is a span of whole characters
spec fn closed(w: W, a: St) -> bool { exists|x: int, y: int| 0 <= x <= y <= a.i && a.c0 == #[trigger] boff(w.s, x) && a.c1 == #[trigger] boff(w.s, y) }
/// a match never moves backwards, stays inside the text and keeps the captured span in order
proof fn m_sane(re: Regexp, w: W, a: St, b: St)
    requires m(re, w, a, b), inb(w, a),
    ensures inb(w, b), a.i <= b.i, closed(w, a) ==> closed(w, b),
    decreases re, 0int, 0int
{
    match re {
        Regexp::Literal(_) | Regexp::Any | Regexp::CharacterClass(_) | Regexp::NotCharacterClass(_) => { move_sane(w, a, b.i); }
        Regexp::String(_) | Regexp::NotString(_) | Regexp::CaseInsensitiveString(_) => { move_sane(w, a, b.i); }
        Regexp::Concat(l, r) => { let x = choose|x: St| #[trigger] pt(x) && m(*l, w, a, x) && m(*r, w, x, b); m_sane(*l, w, a, x); m_sane(*r, w, x, b); }
        Regexp::Either(l, r) => { if m(*l, w, a, b) { m_sane(*l, w, a, b); } else { m_sane(*r, w, a, b); } }
        Regexp::Optional(r) => { if a != b { m_sane(*r, w, a, b); } }
        Regexp::ZeroOrMore(r) => { let n = choose|n: int| #[trigger] num(n) && n >= 0 && times(*r, n, w, a, b); times_sane(*r, n, w, a, b); }
        Regexp::OneOrMore(r) => { let n = choose|n: int| #[trigger] num(n) && n >= 1 && times(*r, n, w, a, b); times_sane(*r, n, w, a, b); }
        Regexp::RepeatExactly(n, r) => { times_sane(*r, n as int, w, a, b); }
        Regexp::RepeatAtLeast(k, r) => { let n = choose|n: int| #[trigger] num(n) && n >= k && times(*r, n, w, a, b); times_sane(*r, n, w, a, b); }
        Regexp::RepeatAtLeastAtMost(k, h, r) => { let n = choose|n: int| #[trigger] num(n) && (n == k || k <= n <= h) && times(*r, n, w, a, b); times_sane(*r, n, w, a, b); }
        Regexp::Capture(r) => {
            let a1 = St { i: a.i, c0: boff(w.s, a.i), c1: 0 };
            let x = choose|x: St| #[trigger] pt(x) && m(*r, w, a1, x) && b == (St { i: x.i, c0: x.c0, c1: boff(w.s, x.i) });
            assert(inb(w, a1));
            m_sane(*r, w, a1, x);
            let k = choose|k: int| 0 <= k <= x.i && x.c0 == #[trigger] boff(w.s, k);
            assert(b.c0 == boff(w.s, k));
            assert(b.c1 == boff(w.s, b.i));
        }
        Regexp::Group(r) => { m_sane(*r, w, a, b); }
        _ => {}
    }
}
proof fn move_sane(w: W, a: St, i: int)
    requires inb(w, a), a.i <= i <= w.s.len(),
    ensures inb(w, at(a, i)), closed(w, a) ==> closed(w, at(a, i)),
{
    let k = choose|k: int| 0 <= k <= a.i && a.c0 == #[trigger] boff(w.s, k);
    assert(at(a, i).c0 == boff(w.s, k));
    if closed(w, a) {
        let (x, y) = choose|x: int, y: int| 0 <= x <= y <= a.i && a.c0 == #[trigger] boff(w.s, x) && a.c1 == #[trigger] boff(w.s, y);
        assert(at(a, i).c0 == boff(w.s, x) && at(a, i).c1 == boff(w.s, y));
    }
}
proof fn times_sane(re: Regexp, n: int, w: W, a: St, b: St)
    requires times(re, n, w, a, b), inb(w, a),
    ensures inb(w, b), a.i <= b.i, closed(w, a) ==> closed(w, b),
    decreases re, n, 1int
{
    if n > 0 {
        let x = choose|x: St| #[trigger] pt(x) && times(re, n - 1, w, a, x) && m(re, w, x, b);
        times_sane(re, n - 1, w, a, x); m_sane(re, w, x, b);
    }
}
