@include regexp.vs
@include pattern_types.vs
@type parser/character_class.rs CharacterClasses derive=
@type parser/multipass/test.rs Operator derive=
@type parser/multipass/test.rs Quantifier derive=
@raw
/// dot patterns: only their text matters here
#[verifier::external_body]
struct BrailleChars { id: usize }
uninterp spec fn dots_text(d: BrailleChars) -> Seq<char>;
#[verifier::external_body]
fn dots_string(d: &BrailleChars) -> (r: String) ensures r@ == dots_text(*d) { unimplemented!() }
@type parser/multipass/test.rs TestInstruction derive=
@type parser/multipass/test.rs Test derive=
@raw
// ---- trusted: hash tables and sets of std, derived Hash/Eq ----
#[verifier::external_body]
proof fn class_keys() ensures vstd::std_specs::hash::obeys_key_model::<CharacterClass>() { }
#[verifier::external_body]
fn set_cloned(s: Option<&HashSet<char>>) -> (r: Option<HashSet<char>>)
    ensures s is None <==> r is None, s is Some ==> (r->0)@ == (s->0)@
{ s.cloned() }
#[verifier::external_body]
fn set_or_empty(s: Option<HashSet<char>>) -> (r: HashSet<char>)
    ensures r@ == (if s is Some { (s->0)@ } else { Set::<char>::empty() })
{ s.unwrap_or_default() }
#[verifier::external_body]
fn empty_set() -> (r: HashSet<char>) ensures r@ == Set::<char>::empty() { HashSet::default() }
#[verifier::external_body]
fn set_extend(s: &mut HashSet<char>, t: HashSet<char>) ensures final(s)@ == old(s)@.union(t@) { s.extend(t) }
/// a set is visited element by element, each once, in some order
#[verifier::external_body]
fn set_items<X>(s: &HashSet<X>) -> (r: Vec<&X>)
    ensures forall|x: X| #[trigger] s@.contains(x) <==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == x
{ s.iter().collect() }
#[verifier::external_body]
fn string_clone(s: &String) -> (r: String) ensures r@ == s@ { s.clone() }
/// the class a name stands for
uninterp spec fn named(s: Seq<char>) -> CharacterClass;
#[verifier::external_body]
fn class_from(s: &str) -> (r: CharacterClass) ensures r == named(s@) { unimplemented!() }
/// the members of a class; none if the table does not define it
spec fn members(cc: CharacterClasses, k: CharacterClass) -> Set<char> { if cc.0@.contains_key(k) { cc.0@[k]@ } else { Set::<char>::empty() } }
spec fn lists(x: Attribute, cc: CharacterClasses, c: char) -> bool { x is Class && members(cc, x->Class_0).contains(c) }
/// is the character of one of the listed kinds?
spec fn in_attrs(attrs: Set<Attribute>, cc: CharacterClasses, c: char) -> bool {
    exists|k: CharacterClass| attrs.contains(Attribute::Class(k)) && #[trigger] members(cc, k).contains(c)
}
@fn parser/character_class.rs CharacterClasses::get ret=r
@subst self . 0 . get ( class ) . cloned ( ) =>> set_cloned ( self . 0 . get ( class ) )
@spec
    ensures r is Some ==> (r->0)@ == members(*self, *class), r is None ==> members(*self, *class) == Set::<char>::empty(),
@entry
    proof { class_keys(); }
@raw
// ---- the complement of a pattern ----
/// what can be complemented
spec fn negatable(re: Regexp) -> bool decreases re {
    match re {
        Regexp::Literal(_) | Regexp::Capture(_) | Regexp::CaseInsensitiveString(_) => false,
        Regexp::Concat(l, r) => negatable(*l) && negatable(*r),
        Regexp::Either(l, r) => negatable(*l) && negatable(*r),
        Regexp::Optional(r) | Regexp::ZeroOrMore(r) | Regexp::OneOrMore(r) | Regexp::Group(r) => negatable(*r),
        Regexp::RepeatExactly(_, r) | Regexp::RepeatAtLeast(_, r) => negatable(*r),
        Regexp::RepeatAtLeastAtMost(_, _, r) => negatable(*r),
        _ => true,
    }
}
/// the meaning of the complement: every item of the pattern is complemented
spec fn nm(re: Regexp, w: W, a: St, b: St) -> bool
    decreases re, 0int, 0int
{
    match re {
        Regexp::Concat(l, r) => exists|x: St| #[trigger] pt(x) && nm(*l, w, a, x) && nm(*r, w, x, b),
        Regexp::Either(l, r) => nm(*l, w, a, b) || nm(*r, w, a, b),
        Regexp::Optional(r) => a == b || nm(*r, w, a, b),
        Regexp::ZeroOrMore(r) => exists|n: int| #[trigger] num(n) && n >= 0 && ntimes(*r, n, w, a, b),
        Regexp::OneOrMore(r) => exists|n: int| #[trigger] num(n) && n >= 1 && ntimes(*r, n, w, a, b),
        Regexp::RepeatExactly(n, r) => ntimes(*r, n as int, w, a, b),
        Regexp::RepeatAtLeast(k, r) => exists|n: int| #[trigger] num(n) && n >= k && ntimes(*r, n, w, a, b),
        Regexp::RepeatAtLeastAtMost(k, h, r) => exists|n: int| #[trigger] num(n) && (n == k || k <= n <= h) && ntimes(*r, n, w, a, b),
        Regexp::Group(r) => nm(*r, w, a, b),
        // the items of one character
        Regexp::Any => false,
        Regexp::CharacterClass(set) => one(w, a, b) && !set@.contains(w.s[a.i]),
        Regexp::NotCharacterClass(set) => one(w, a, b) && set@.contains(w.s[a.i]),
        Regexp::String(t) => string_m(Kind::Differ, t@, w, a, b),
        Regexp::NotString(t) => string_m(Kind::Same, t@, w, a, b),
        // the items of no character
        Regexp::VariableEqual(..) | Regexp::NotVariableEqual(..) | Regexp::VariableBetween(..) | Regexp::NotVariableBetween(..)
        | Regexp::Empty | Regexp::Never | Regexp::EndAnchor | Regexp::NotEndAnchor | Regexp::StartAnchor | Regexp::NotStartAnchor => a == b && !m(re, w, a, b),
        _ => false,
    }
}
spec fn ntimes(re: Regexp, n: int, w: W, a: St, b: St) -> bool
    decreases re, n, 1int
{
    if n <= 0 { n == 0 && a == b } else { exists|x: St| #[trigger] pt(x) && ntimes(re, n - 1, w, a, x) && nm(re, w, x, b) }
}
/// n is the complement of re
spec fn complement(re: Regexp, n: Regexp) -> bool {
    &&& negatable(n)
    &&& forall|w: W, a: St, b: St| #[trigger] m(n, w, a, b) <==> nm(re, w, a, b)
    &&& forall|w: W, a: St, b: St| #[trigger] nm(n, w, a, b) <==> m(re, w, a, b)
}
proof fn times_neg(re: Regexp, n: Regexp, k: int, w: W, a: St, b: St)
    requires complement(re, n),
    ensures times(n, k, w, a, b) <==> ntimes(re, k, w, a, b), ntimes(n, k, w, a, b) <==> times(re, k, w, a, b),
    decreases k
{
    if k > 0 {
        assert forall|x: St| #[trigger] pt(x) implies (times(n, k - 1, w, a, x) <==> ntimes(re, k - 1, w, a, x)) by { times_neg(re, n, k - 1, w, a, x); }
        assert forall|x: St| #[trigger] pt(x) implies (ntimes(n, k - 1, w, a, x) <==> times(re, k - 1, w, a, x)) by { times_neg(re, n, k - 1, w, a, x); }
        if times(n, k, w, a, b) { let x = choose|x: St| #[trigger] pt(x) && times(n, k - 1, w, a, x) && m(n, w, x, b); assert(pt(x) && ntimes(re, k - 1, w, a, x) && nm(re, w, x, b)); }
        if ntimes(re, k, w, a, b) { let x = choose|x: St| #[trigger] pt(x) && ntimes(re, k - 1, w, a, x) && nm(re, w, x, b); assert(m(n, w, x, b)); assert(pt(x) && times(n, k - 1, w, a, x)); }
        if ntimes(n, k, w, a, b) { let x = choose|x: St| #[trigger] pt(x) && ntimes(n, k - 1, w, a, x) && nm(n, w, x, b); assert(pt(x) && times(re, k - 1, w, a, x) && m(re, w, x, b)); }
        if times(re, k, w, a, b) { let x = choose|x: St| #[trigger] pt(x) && times(re, k - 1, w, a, x) && m(re, w, x, b); assert(nm(n, w, x, b)); assert(pt(x) && ntimes(n, k - 1, w, a, x)); }
    }
}
/// complements of the parts make a complement of the whole
proof fn neg_step(re: Regexp, n: Regexp)
    requires negatable(re), match (re, n) {
        (Regexp::Concat(l, r), Regexp::Concat(l2, r2)) => complement(*l, *l2) && complement(*r, *r2),
        (Regexp::Either(l, r), Regexp::Either(l2, r2)) => complement(*l, *l2) && complement(*r, *r2),
        (Regexp::Optional(r), Regexp::Optional(r2)) => complement(*r, *r2),
        (Regexp::ZeroOrMore(r), Regexp::ZeroOrMore(r2)) => complement(*r, *r2),
        (Regexp::OneOrMore(r), Regexp::OneOrMore(r2)) => complement(*r, *r2),
        (Regexp::Group(r), Regexp::Group(r2)) => complement(*r, *r2),
        (Regexp::RepeatExactly(k, r), Regexp::RepeatExactly(k2, r2)) => k == k2 && complement(*r, *r2),
        (Regexp::RepeatAtLeast(k, r), Regexp::RepeatAtLeast(k2, r2)) => k == k2 && complement(*r, *r2),
        (Regexp::RepeatAtLeastAtMost(k, h, r), Regexp::RepeatAtLeastAtMost(k2, h2, r2)) => k == k2 && h == h2 && complement(*r, *r2),
        _ => false,
    },
    ensures complement(re, n),
{
    assert forall|w: W, a: St, b: St| #[trigger] m(n, w, a, b) <==> nm(re, w, a, b) by { neg_at(re, n, w, a, b); }
    assert forall|w: W, a: St, b: St| #[trigger] nm(n, w, a, b) <==> m(re, w, a, b) by { neg_at(re, n, w, a, b); }
}
proof fn neg_at(re: Regexp, n: Regexp, w: W, a: St, b: St)
    requires negatable(re), match (re, n) {
        (Regexp::Concat(l, r), Regexp::Concat(l2, r2)) => complement(*l, *l2) && complement(*r, *r2),
        (Regexp::Either(l, r), Regexp::Either(l2, r2)) => complement(*l, *l2) && complement(*r, *r2),
        (Regexp::Optional(r), Regexp::Optional(r2)) => complement(*r, *r2),
        (Regexp::ZeroOrMore(r), Regexp::ZeroOrMore(r2)) => complement(*r, *r2),
        (Regexp::OneOrMore(r), Regexp::OneOrMore(r2)) => complement(*r, *r2),
        (Regexp::Group(r), Regexp::Group(r2)) => complement(*r, *r2),
        (Regexp::RepeatExactly(k, r), Regexp::RepeatExactly(k2, r2)) => k == k2 && complement(*r, *r2),
        (Regexp::RepeatAtLeast(k, r), Regexp::RepeatAtLeast(k2, r2)) => k == k2 && complement(*r, *r2),
        (Regexp::RepeatAtLeastAtMost(k, h, r), Regexp::RepeatAtLeastAtMost(k2, h2, r2)) => k == k2 && h == h2 && complement(*r, *r2),
        _ => false,
    },
    ensures m(n, w, a, b) <==> nm(re, w, a, b), nm(n, w, a, b) <==> m(re, w, a, b),
{
    match (re, n) {
        (Regexp::Concat(l, r), Regexp::Concat(l2, r2)) => {
            assert forall|x: St| #[trigger] pt(x) implies (m(*l2, w, a, x) && m(*r2, w, x, b) <==> nm(*l, w, a, x) && nm(*r, w, x, b)) && (nm(*l2, w, a, x) && nm(*r2, w, x, b) <==> m(*l, w, a, x) && m(*r, w, x, b)) by {
                assert(m(*l2, w, a, x) <==> nm(*l, w, a, x)); assert(m(*r2, w, x, b) <==> nm(*r, w, x, b));
                assert(nm(*l2, w, a, x) <==> m(*l, w, a, x)); assert(nm(*r2, w, x, b) <==> m(*r, w, x, b));
            }
        }
        (Regexp::ZeroOrMore(r), Regexp::ZeroOrMore(r2)) => { assert forall|k: int| #[trigger] num(k) implies (times(*r2, k, w, a, b) <==> ntimes(*r, k, w, a, b)) && (ntimes(*r2, k, w, a, b) <==> times(*r, k, w, a, b)) by { times_neg(*r, *r2, k, w, a, b); } }
        (Regexp::OneOrMore(r), Regexp::OneOrMore(r2)) => { assert forall|k: int| #[trigger] num(k) implies (times(*r2, k, w, a, b) <==> ntimes(*r, k, w, a, b)) && (ntimes(*r2, k, w, a, b) <==> times(*r, k, w, a, b)) by { times_neg(*r, *r2, k, w, a, b); } }
        (Regexp::RepeatExactly(k, r), Regexp::RepeatExactly(_, r2)) => times_neg(*r, *r2, k as int, w, a, b),
        (Regexp::RepeatAtLeast(_, r), Regexp::RepeatAtLeast(_, r2)) => { assert forall|k: int| #[trigger] num(k) implies (times(*r2, k, w, a, b) <==> ntimes(*r, k, w, a, b)) && (ntimes(*r2, k, w, a, b) <==> times(*r, k, w, a, b)) by { times_neg(*r, *r2, k, w, a, b); } }
        (Regexp::RepeatAtLeastAtMost(_, _, r), Regexp::RepeatAtLeastAtMost(_, _, r2)) => { assert forall|k: int| #[trigger] num(k) implies (times(*r2, k, w, a, b) <==> ntimes(*r, k, w, a, b)) && (ntimes(*r2, k, w, a, b) <==> times(*r, k, w, a, b)) by { times_neg(*r, *r2, k, w, a, b); } }
        (Regexp::Either(l, r), Regexp::Either(l2, r2)) => { assert(m(*l2, w, a, b) <==> nm(*l, w, a, b)); assert(m(*r2, w, a, b) <==> nm(*r, w, a, b)); assert(nm(*l2, w, a, b) <==> m(*l, w, a, b)); assert(nm(*r2, w, a, b) <==> m(*r, w, a, b)); assert(m(n, w, a, b) <==> nm(re, w, a, b)); assert(nm(n, w, a, b) <==> m(re, w, a, b)); }
        (Regexp::Optional(r), Regexp::Optional(r2)) => { assert(m(*r2, w, a, b) <==> nm(*r, w, a, b)); assert(nm(*r2, w, a, b) <==> m(*r, w, a, b));  assert(m(n, w, a, b) <==> nm(re, w, a, b)); assert(nm(n, w, a, b) <==> m(re, w, a, b)); }
        (Regexp::Group(r), Regexp::Group(r2)) => { assert(m(*r2, w, a, b) <==> nm(*r, w, a, b)); assert(nm(*r2, w, a, b) <==> m(*r, w, a, b));  assert(m(n, w, a, b) <==> nm(re, w, a, b)); assert(nm(n, w, a, b) <==> m(re, w, a, b));}
        _ => {}
    }
}
@fn translator/regexp.rs Regexp::negate ret=r exitret
@spec
    requires negatable(self),
    ensures complement(self, r),
    decreases self
@entry
    let ghost s0 = self;
@exit
    proof { match s0 {
        Regexp::Concat(..) | Regexp::Either(..) | Regexp::Optional(_) | Regexp::ZeroOrMore(_) | Regexp::OneOrMore(_) | Regexp::Group(_) | Regexp::RepeatExactly(..) | Regexp::RepeatAtLeast(..) | Regexp::RepeatAtLeastAtMost(..) => neg_step(s0, __ret),
        _ => {}
    } }
@raw
// ---- what the test of a context or multipass rule means ----
/// n characters in a row that are all in (or all out of) a set
spec fn stretch(p: spec_fn(char) -> bool, n: int, w: W, a: St, b: St) -> bool {
    &&& n >= 0 && b == at(a, a.i + n) && (n > 0 ==> 0 <= a.i && b.i <= w.s.len())
    &&& forall|x: int| 0 <= x < n ==> p(#[trigger] w.s[a.i + x])
}
/// so many of them
spec fn counted(p: spec_fn(char) -> bool, q: Option<Quantifier>, w: W, a: St, b: St) -> bool {
    match q {
        None => stretch(p, 1, w, a, b),
        Some(Quantifier::Number(n)) => stretch(p, n as int, w, a, b),
        Some(Quantifier::Range(lo, hi)) => exists|n: int| #[trigger] num(n) && (n == lo || lo <= n <= hi) && stretch(p, n, w, a, b),
        Some(Quantifier::OneOrMore) => exists|n: int| #[trigger] num(n) && n >= 1 && stretch(p, n, w, a, b),
    }
}
spec fn holds(op: Operator, v: u8, x: u8) -> bool {
    match op { Operator::Eq => v == x, Operator::Lt => v < x, Operator::LtEq => v <= x, Operator::Gt => v > x, Operator::GtEq => v >= x }
}
spec fn of_attrs(attrs: HashSet<Attribute>, cc: CharacterClasses, yes: bool) -> spec_fn(char) -> bool { |c: char| in_attrs(attrs@, cc, c) == yes }
spec fn of_class(k: CharacterClass, cc: CharacterClasses, yes: bool) -> spec_fn(char) -> bool { |c: char| members(cc, k).contains(c) == yes }
/// one instruction of a test, or (`yes` is false) its negation
spec fn tm(t: TestInstruction, yes: bool, cc: CharacterClasses, w: W, a: St, b: St) -> bool
    decreases t, 0int
{
    match t {
        TestInstruction::Lookback { .. } => yes && a == b,
        TestInstruction::Variable { var, op, operand } => a == b && holds(op, val(w.env, var), operand) == yes,
        TestInstruction::String { s } => string_m(if yes { Kind::Same } else { Kind::Differ }, s@, w, a, b),
        TestInstruction::Dots { dots } => string_m(if yes { Kind::Same } else { Kind::Differ }, dots_text(dots), w, a, b),
        TestInstruction::Attributes { attrs, quantifier } => counted(of_attrs(attrs, cc, yes), quantifier, w, a, b),
        TestInstruction::Class { name, quantifier } => counted(of_class(named(name@), cc, yes), quantifier, w, a, b),
        TestInstruction::Negate { test } => tm(*test, !yes, cc, w, a, b),
        TestInstruction::Replace { tests } => yes && exists|x: St| #[trigger] pt(x) && tseq(tests, tests@.len() as int, cc, w, St { i: a.i, c0: boff(w.s, a.i), c1: 0 }, x) && b == (St { i: x.i, c0: x.c0, c1: boff(w.s, x.i) }),
        TestInstruction::AtBeginning => a == b && (w.start && a.i == 0) == yes,
        TestInstruction::AtEnd => a == b && (a.i == w.s.len()) == yes,
    }
}
/// the first k instructions, one after the other
spec fn tseq(ts: Vec<TestInstruction>, k: int, cc: CharacterClasses, w: W, a: St, b: St) -> bool
    decreases ts, k
{
    if k <= 0 || k > ts.len() { k == 0 && a == b } else { exists|x: St| #[trigger] pt(x) && tseq(ts, k - 1, cc, w, a, x) && tm(ts[k - 1], true, cc, w, x, b) }
}
/// what the parser lets through: no negated replacement
spec fn sound(t: TestInstruction) -> bool decreases t, 0int {
    match t {
        TestInstruction::Negate { test } => !(*test is Replace) && !(*test is Negate) && sound(*test),
        TestInstruction::Replace { tests } => forall|i: int| 0 <= i < tests.len() ==> sound(#[trigger] tests[i]),
        _ => true,
    }
}
@raw
spec fn means(t: TestInstruction, cc: CharacterClasses, r: Regexp) -> bool {
    &&& forall|w: W, a: St, b: St| #[trigger] m(r, w, a, b) <==> tm(t, true, cc, w, a, b)
    &&& !(t is Replace) ==> negatable(r) && forall|w: W, a: St, b: St| #[trigger] nm(r, w, a, b) <==> tm(t, false, cc, w, a, b)
}
spec fn seq_means(ts: Vec<TestInstruction>, k: int, cc: CharacterClasses, r: Regexp) -> bool {
    forall|w: W, a: St, b: St| #[trigger] m(r, w, a, b) <==> tseq(ts, k, cc, w, a, b)
}
/// r counts the characters of a set; its complement counts the others
spec fn counts(r: Regexp, yes: spec_fn(char) -> bool, no: spec_fn(char) -> bool, q: Option<Quantifier>) -> bool {
    &&& negatable(r)
    &&& forall|w: W, a: St, b: St| #[trigger] m(r, w, a, b) <==> counted(yes, q, w, a, b)
    &&& forall|w: W, a: St, b: St| #[trigger] nm(r, w, a, b) <==> counted(no, q, w, a, b)
}
spec fn is_set(set: Set<char>, yes: spec_fn(char) -> bool, no: spec_fn(char) -> bool) -> bool {
    forall|c: char| #![trigger set.contains(c)] #![trigger yes(c)] #![trigger no(c)] (set.contains(c) <==> yes(c)) && (!set.contains(c) <==> no(c))
}
proof fn times_set(set: HashSet<char>, yes: spec_fn(char) -> bool, no: spec_fn(char) -> bool, n: int, w: W, a: St, b: St)
    requires is_set(set@, yes, no),
    ensures times(Regexp::CharacterClass(set), n, w, a, b) <==> stretch(yes, n, w, a, b), ntimes(Regexp::CharacterClass(set), n, w, a, b) <==> stretch(no, n, w, a, b),
    decreases n
{
    let re = Regexp::CharacterClass(set);
    if n > 0 {
        let x = at(a, a.i + n - 1);
        times_set(set, yes, no, n - 1, w, a, x);
        assert(pt(x));
        if times(re, n, w, a, b) {
            let y = choose|y: St| #[trigger] pt(y) && times(re, n - 1, w, a, y) && m(re, w, y, b);
            times_set(set, yes, no, n - 1, w, a, y);
            assert(y == x);
            assert forall|k: int| 0 <= k < n implies yes(#[trigger] w.s[a.i + k]) by { if k < n - 1 { } else { assert(set@.contains(w.s[a.i + k])); } }
        }
        if stretch(yes, n, w, a, b) { assert(yes(w.s[a.i + (n - 1)])); assert(set@.contains(w.s[a.i + (n - 1)])); assert(m(re, w, x, b)); assert(stretch(yes, n - 1, w, a, x)); }
        if ntimes(re, n, w, a, b) {
            let y = choose|y: St| #[trigger] pt(y) && ntimes(re, n - 1, w, a, y) && nm(re, w, y, b);
            times_set(set, yes, no, n - 1, w, a, y);
            assert(y == x);
            assert forall|k: int| 0 <= k < n implies no(#[trigger] w.s[a.i + k]) by { if k < n - 1 { } else { assert(!set@.contains(w.s[a.i + k])); } }
        }
        if stretch(no, n, w, a, b) { assert(no(w.s[a.i + (n - 1)])); assert(!set@.contains(w.s[a.i + (n - 1)])); assert(nm(re, w, x, b)); assert(stretch(no, n - 1, w, a, x)); }
    }
}
proof fn counts_set(set: HashSet<char>, yes: spec_fn(char) -> bool, no: spec_fn(char) -> bool, q: Option<Quantifier>, r: Regexp)
    requires is_set(set@, yes, no), ({
        let one = Box::new(Regexp::CharacterClass(set));
        r == match q { None => *one, Some(Quantifier::Number(n)) => Regexp::RepeatExactly(n, one), Some(Quantifier::Range(lo, hi)) => Regexp::RepeatAtLeastAtMost(lo, hi, one), Some(Quantifier::OneOrMore) => Regexp::OneOrMore(one) }
    }),
    ensures counts(r, yes, no, q),
{
    reveal_with_fuel(negatable, 3);
    let re = Regexp::CharacterClass(set);
    assert forall|w: W, a: St, b: St| #[trigger] m(r, w, a, b) <==> counted(yes, q, w, a, b) by {
        assert forall|n: int| #[trigger] num(n) implies (times(re, n, w, a, b) <==> stretch(yes, n, w, a, b)) by { times_set(set, yes, no, n, w, a, b); }
        assert(times(re, 1, w, a, b) <==> stretch(yes, 1, w, a, b)) by { assert(num(1)); }
        match q { Some(Quantifier::Number(n)) => { assert(num(n as int)); } None => { assert(times(re, 1, w, a, b) <==> m(re, w, a, b)) by { reveal_with_fuel(times, 3); assert(pt(a)); } } _ => {} }
    }
    assert forall|w: W, a: St, b: St| #[trigger] nm(r, w, a, b) <==> counted(no, q, w, a, b) by {
        assert forall|n: int| #[trigger] num(n) implies (ntimes(re, n, w, a, b) <==> stretch(no, n, w, a, b)) by { times_set(set, yes, no, n, w, a, b); }
        assert(ntimes(re, 1, w, a, b) <==> stretch(no, 1, w, a, b)) by { assert(num(1)); }
        match q { Some(Quantifier::Number(n)) => { assert(num(n as int)); } None => { assert(ntimes(re, 1, w, a, b) <==> nm(re, w, a, b)) by { reveal_with_fuel(ntimes, 3); assert(pt(a)); } } _ => {} }
    }
}
@fn translator/context_pattern.rs Regexp::from_class ret=r exitret
@subst CharacterClass :: from ( name ) =>> class_from ( name )
@subst ctx . get ( & class ) . unwrap_or_default ( ) =>> set_or_empty ( ctx . get ( & class ) )
@spec
    ensures counts(r, of_class(named(name@), *ctx, true), of_class(named(name@), *ctx, false), *quantifier),
@before if let Some
    let ghost set = characters;
@exit
    proof { counts_set(set, of_class(named(name@), *ctx, true), of_class(named(name@), *ctx, false), *quantifier, __ret); }
@fn translator/context_pattern.rs Regexp::from_multipass_attributes ret=r loops=1 exitret
@subst let mut characters : HashSet < char > = HashSet :: default ( ) =>> let mut characters = empty_set ( )
@subst for attr in attrs =>> for attr in set_items ( attrs ) . iter ( ) . copied ( )
@subst characters . extend ( chars ) =>> set_extend ( & mut characters , chars )
@spec
    ensures counts(r, of_attrs(*attrs, *ctx, true), of_attrs(*attrs, *ctx, false), *quantifier),
@loop 0
    invariant __i0 <= __s0@.len(),
        forall|x: Attribute| #[trigger] attrs@.contains(x) <==> exists|i: int| 0 <= i < __s0@.len() && *(#[trigger] __s0@[i]) == x,
        forall|c: char| #[trigger] characters@.contains(c) <==> exists|i: int| 0 <= i < __i0 && lists(*(#[trigger] __s0@[i]), *ctx, c),
    decreases __s0@.len() - __i0,
@loop 0 start
    let ghost old = characters@;
    let ghost k = __i0 as int;
@loop 0 end
    proof {
        assert forall|c: char| #[trigger] characters@.contains(c) <==> exists|i: int| 0 <= i < __i0 && lists(*(#[trigger] __s0@[i]), *ctx, c) by {
            if characters@.contains(c) {
                if old.contains(c) { let i = choose|i: int| 0 <= i < k && lists(*(#[trigger] __s0@[i]), *ctx, c); assert(lists(*__s0@[i], *ctx, c)); }
                else { assert(lists(*__s0@[k], *ctx, c)); }
            }
        }
    }
@loop 0 post
    proof {
        assert forall|c: char| characters@.contains(c) <==> in_attrs(attrs@, *ctx, c) by {
            if characters@.contains(c) { let i = choose|i: int| 0 <= i < __s0@.len() && lists(*(#[trigger] __s0@[i]), *ctx, c); assert(attrs@.contains(*__s0@[i])); }
            if in_attrs(attrs@, *ctx, c) {
                let k = choose|k: CharacterClass| attrs@.contains(Attribute::Class(k)) && #[trigger] members(*ctx, k).contains(c);
                let i = choose|i: int| 0 <= i < __s0@.len() && *(#[trigger] __s0@[i]) == Attribute::Class(k);
                assert(lists(*__s0@[i], *ctx, c));
            }
        }
    }
@before if let Some ( quantifier )
    let ghost set = characters;
@exit
    proof { counts_set(set, of_attrs(*attrs, *ctx, true), of_attrs(*attrs, *ctx, false), *quantifier, __ret); }
@raw
proof fn first_of(ts: Vec<TestInstruction>, cc: CharacterClasses, r: Regexp)
    requires ts@.len() >= 1, means(ts[0], cc, r),
    ensures seq_means(ts, 1, cc, r),
{
    assert forall|w: W, a: St, b: St| #[trigger] m(r, w, a, b) <==> tseq(ts, 1, cc, w, a, b) by {
        assert(pt(a)); assert(tseq(ts, 0, cc, w, a, a));
        if m(r, w, a, b) { assert(tm(ts[1 - 1], true, cc, w, a, b)); }
        if tseq(ts, 1, cc, w, a, b) { let x = choose|x: St| #[trigger] pt(x) && tseq(ts, 0, cc, w, a, x) && tm(ts[1 - 1], true, cc, w, x, b); assert(x == a); }
    }
}
proof fn next_of(ts: Vec<TestInstruction>, k: int, cc: CharacterClasses, l: Regexp, o: Regexp, r: Regexp)
    requires 1 <= k < ts@.len(), seq_means(ts, k, cc, l), means(ts[k], cc, o), r == Regexp::Concat(Box::new(l), Box::new(o)),
    ensures seq_means(ts, k + 1, cc, r),
{
    assert forall|w: W, a: St, b: St| #[trigger] m(r, w, a, b) <==> tseq(ts, k + 1, cc, w, a, b) by {
        assert forall|x: St| #[trigger] pt(x) implies (m(l, w, a, x) && m(o, w, x, b) <==> tseq(ts, k, cc, w, a, x) && tm(ts[k + 1 - 1], true, cc, w, x, b)) by {
            assert(m(l, w, a, x) <==> tseq(ts, k, cc, w, a, x)); assert(m(o, w, x, b) <==> tm(ts[k], true, cc, w, x, b));
        }
    }
}
@fn parser/multipass/test.rs Test::tests ret=r
@spec
    ensures *r == self.tests,
@fn translator/context_pattern.rs Regexp::from_instructions ret=r loops=1 slice=instructions exitret
@subst & [ TestInstruction ] =>> & Vec < TestInstruction >
@subst for instruction in & instructions [ 1 .. ] =>> for instruction in instructions . iter ( ) . skip ( 1 )
@spec
    requires forall|i: int| 0 <= i < instructions.len() ==> sound(#[trigger] instructions[i]),
    ensures seq_means(*instructions, instructions@.len() as int, *ctx, r),
    decreases instructions
@loop 0
    invariant forall|i: int| 0 <= i < instructions.len() ==> sound(#[trigger] instructions[i]), 1 <= __i0 <= instructions@.len(),
        seq_means(*instructions, __i0 as int, *ctx, ast),
    decreases instructions@.len() - __i0,
@loop 0 pre
    proof { first_of(*instructions, *ctx, ast); }
@loop 0 start
    let ghost before = ast;
    let ghost k = __i0 as int;
@loop 0 end
    proof { next_of(*instructions, k, *ctx, before, other, ast); }
@exit
    proof { if instructions@.len() == 1 { first_of(*instructions, *ctx, __ret); } }
@fn translator/context_pattern.rs Regexp::from_instruction ret=r exitret
@subst s . to_string ( ) =>> string_clone ( s )
@subst dots . to_string ( ) =>> dots_string ( dots )
@spec
    requires sound(*instruction),
    ensures means(*instruction, *ctx, r),
    decreases instruction
@exit
    proof {
        let (t, cc, re) = (*instruction, *ctx, __ret);
        match t {
            TestInstruction::Negate { test } => {
                let q = choose|q: Regexp| #[trigger] means(*test, cc, q) && complement(q, re);
                assert(means(*test, cc, q) && complement(q, re));
                assert forall|w: W, a: St, b: St| #[trigger] m(re, w, a, b) <==> tm(t, true, cc, w, a, b) by { assert(nm(q, w, a, b) <==> tm(*test, false, cc, w, a, b)); }
                assert forall|w: W, a: St, b: St| #[trigger] nm(re, w, a, b) <==> tm(t, false, cc, w, a, b) by { assert(m(q, w, a, b) <==> tm(*test, true, cc, w, a, b)); }
            }
            TestInstruction::Replace { tests } => {
                let q = *re->Capture_0;
                assert forall|w: W, a: St, b: St| #[trigger] m(re, w, a, b) <==> tm(t, true, cc, w, a, b) by {
                    let a2 = St { i: a.i, c0: boff(w.s, a.i), c1: 0 };
                    assert forall|x: St| #[trigger] pt(x) implies (m(q, w, a2, x) <==> tseq(tests, tests@.len() as int, cc, w, a2, x)) by { assert(m(q, w, a2, x) <==> tseq(tests, tests@.len() as int, cc, w, a2, x)); }
                }
            }
            _ => {}
        }
    }
@fn translator/context_pattern.rs Regexp::from_test ret=r
@spec
    requires forall|i: int| 0 <= i < test.tests.len() ==> sound(#[trigger] test.tests[i]),
    ensures seq_means(test.tests, test.tests@.len() as int, *ctx, r),
@raw
// ---- what the pattern of a match rule means ----
spec fn edge(side: Side, w: W, a: St) -> bool { match side { Side::Pre => w.start && a.i == 0, Side::Post => a.i == w.s.len() } }
/// one item of a pattern, or (`yes` is false) its negation
spec fn pm(p: Pattern, yes: bool, cc: CharacterClasses, w: W, a: St, b: St) -> bool
    decreases p, 0int, 0int
{
    match p {
        Pattern::Empty => yes && a == b,
        Pattern::Characters(s) => string_m(if yes { Kind::Same } else { Kind::Differ }, s@, w, a, b),
        Pattern::Boundary(side) => a == b && edge(side, w, a) == yes,
        Pattern::Any => yes && one(w, a, b),
        Pattern::Set(set) => one(w, a, b) && set@.contains(w.s[a.i]) == yes,
        Pattern::Attributes(attrs) => one(w, a, b) && in_attrs(attrs@, cc, w.s[a.i]) == yes,
        Pattern::AttributesOrBoundary(attrs, side) => (one(w, a, b) && in_attrs(attrs@, cc, w.s[a.i]) == yes) || (a == b && edge(side, w, a) == yes),
        Pattern::Group(ps) => pseq(ps, ps.0@.len() as int, yes, cc, w, a, b),
        Pattern::Negate(q) => pm(*q, !yes, cc, w, a, b),
        Pattern::Optional(q) => a == b || pm(*q, yes, cc, w, a, b),
        Pattern::ZeroOrMore(q) => exists|n: int| #[trigger] num(n) && n >= 0 && ptimes(*q, n, yes, cc, w, a, b),
        Pattern::OneOrMore(q) => exists|n: int| #[trigger] num(n) && n >= 1 && ptimes(*q, n, yes, cc, w, a, b),
        Pattern::Either(l, r) => pseq(l, l.0@.len() as int, yes, cc, w, a, b) || pseq(r, r.0@.len() as int, yes, cc, w, a, b),
    }
}
spec fn ptimes(p: Pattern, n: int, yes: bool, cc: CharacterClasses, w: W, a: St, b: St) -> bool
    decreases p, n, 1int
{
    if n <= 0 { n == 0 && a == b } else { exists|x: St| #[trigger] pt(x) && ptimes(p, n - 1, yes, cc, w, a, x) && pm(p, yes, cc, w, x, b) }
}
/// the first k items, one after the other
spec fn pseq(ps: Patterns, k: int, yes: bool, cc: CharacterClasses, w: W, a: St, b: St) -> bool
    decreases ps, k, 0int
{
    if k <= 0 || k > ps.0.len() { k == 0 && a == b } else { exists|x: St| #[trigger] pt(x) && pseq(ps, k - 1, yes, cc, w, a, x) && pm(ps.0[k - 1], yes, cc, w, x, b) }
}
spec fn pmeans(p: Pattern, cc: CharacterClasses, r: Regexp) -> bool {
    &&& negatable(r)
    &&& forall|w: W, a: St, b: St| #[trigger] m(r, w, a, b) <==> pm(p, true, cc, w, a, b)
    &&& forall|w: W, a: St, b: St| #[trigger] nm(r, w, a, b) <==> pm(p, false, cc, w, a, b)
}
spec fn pseq_means(ps: Patterns, k: int, cc: CharacterClasses, r: Regexp) -> bool {
    &&& negatable(r)
    &&& forall|w: W, a: St, b: St| #[trigger] m(r, w, a, b) <==> pseq(ps, k, true, cc, w, a, b)
    &&& forall|w: W, a: St, b: St| #[trigger] nm(r, w, a, b) <==> pseq(ps, k, false, cc, w, a, b)
}
proof fn pfirst(ps: Patterns, cc: CharacterClasses, r: Regexp)
    requires ps.0@.len() >= 1, pmeans(ps.0[0], cc, r),
    ensures pseq_means(ps, 1, cc, r),
{
    assert forall|w: W, a: St, b: St| #[trigger] m(r, w, a, b) <==> pseq(ps, 1, true, cc, w, a, b) by {
        assert(pt(a)); assert(pseq(ps, 0, true, cc, w, a, a));
        if m(r, w, a, b) { assert(pm(ps.0[1 - 1], true, cc, w, a, b)); }
        if pseq(ps, 1, true, cc, w, a, b) { let x = choose|x: St| #[trigger] pt(x) && pseq(ps, 0, true, cc, w, a, x) && pm(ps.0[1 - 1], true, cc, w, x, b); assert(x == a); }
    }
    assert forall|w: W, a: St, b: St| #[trigger] nm(r, w, a, b) <==> pseq(ps, 1, false, cc, w, a, b) by {
        assert(pt(a)); assert(pseq(ps, 0, false, cc, w, a, a));
        if nm(r, w, a, b) { assert(pm(ps.0[1 - 1], false, cc, w, a, b)); }
        if pseq(ps, 1, false, cc, w, a, b) { let x = choose|x: St| #[trigger] pt(x) && pseq(ps, 0, false, cc, w, a, x) && pm(ps.0[1 - 1], false, cc, w, x, b); assert(x == a); }
    }
}
proof fn pnext(ps: Patterns, k: int, cc: CharacterClasses, l: Regexp, o: Regexp, r: Regexp)
    requires 1 <= k < ps.0@.len(), pseq_means(ps, k, cc, l), pmeans(ps.0[k], cc, o), r == Regexp::Concat(Box::new(l), Box::new(o)),
    ensures pseq_means(ps, k + 1, cc, r),
{
    assert forall|w: W, a: St, b: St| #[trigger] m(r, w, a, b) <==> pseq(ps, k + 1, true, cc, w, a, b) by {
        assert forall|x: St| #[trigger] pt(x) implies (m(l, w, a, x) && m(o, w, x, b) <==> pseq(ps, k, true, cc, w, a, x) && pm(ps.0[k + 1 - 1], true, cc, w, x, b)) by {
            assert(m(l, w, a, x) <==> pseq(ps, k, true, cc, w, a, x)); assert(m(o, w, x, b) <==> pm(ps.0[k], true, cc, w, x, b));
        }
    }
    assert forall|w: W, a: St, b: St| #[trigger] nm(r, w, a, b) <==> pseq(ps, k + 1, false, cc, w, a, b) by {
        assert forall|x: St| #[trigger] pt(x) implies (nm(l, w, a, x) && nm(o, w, x, b) <==> pseq(ps, k, false, cc, w, a, x) && pm(ps.0[k + 1 - 1], false, cc, w, x, b)) by {
            assert(nm(l, w, a, x) <==> pseq(ps, k, false, cc, w, a, x)); assert(nm(o, w, x, b) <==> pm(ps.0[k], false, cc, w, x, b));
        }
    }
}
proof fn ptimes_eq(p: Pattern, cc: CharacterClasses, r: Regexp, n: int, w: W, a: St, b: St)
    requires pmeans(p, cc, r),
    ensures times(r, n, w, a, b) <==> ptimes(p, n, true, cc, w, a, b), ntimes(r, n, w, a, b) <==> ptimes(p, n, false, cc, w, a, b),
    decreases n
{
    if n > 0 {
        assert forall|x: St| #[trigger] pt(x) implies (times(r, n - 1, w, a, x) && m(r, w, x, b) <==> ptimes(p, n - 1, true, cc, w, a, x) && pm(p, true, cc, w, x, b)) by {
            ptimes_eq(p, cc, r, n - 1, w, a, x); assert(m(r, w, x, b) <==> pm(p, true, cc, w, x, b));
        }
        assert forall|x: St| #[trigger] pt(x) implies (ntimes(r, n - 1, w, a, x) && nm(r, w, x, b) <==> ptimes(p, n - 1, false, cc, w, a, x) && pm(p, false, cc, w, x, b)) by {
            ptimes_eq(p, cc, r, n - 1, w, a, x); assert(nm(r, w, x, b) <==> pm(p, false, cc, w, x, b));
        }
    }
}
@fn translator/match_pattern.rs boundary_anchor ret=r
@spec
    ensures r == (match side { Side::Pre => Regexp::StartAnchor, Side::Post => Regexp::EndAnchor }),
@fn translator/match_pattern.rs Regexp::from_attributes ret=r loops=1
@subst let mut characters = HashSet :: new ( ) =>> let mut characters = empty_set ( )
@subst for attr in attributes =>> for attr in set_items ( attributes ) . iter ( ) . copied ( )
@subst characters . extend ( chars ) =>> set_extend ( & mut characters , chars )
@spec
    requires plain(attributes@),
    ensures r is CharacterClass, forall|c: char| #[trigger] (r->CharacterClass_0)@.contains(c) <==> in_attrs(attributes@, *ctx, c),
@loop 0
    invariant __i0 <= __s0@.len(), plain(attributes@),
        forall|x: Attribute| #[trigger] attributes@.contains(x) <==> exists|i: int| 0 <= i < __s0@.len() && *(#[trigger] __s0@[i]) == x,
        forall|c: char| #[trigger] characters@.contains(c) <==> exists|i: int| 0 <= i < __i0 && lists(*(#[trigger] __s0@[i]), *ctx, c),
    decreases __s0@.len() - __i0,
@loop 0 start
    let ghost old = characters@;
    let ghost k = __i0 as int;
    proof { assert(attributes@.contains(*__s0@[k])); }
@loop 0 end
    proof {
        assert forall|c: char| #[trigger] characters@.contains(c) <==> exists|i: int| 0 <= i < __i0 && lists(*(#[trigger] __s0@[i]), *ctx, c) by {
            if characters@.contains(c) {
                if old.contains(c) { let i = choose|i: int| 0 <= i < k && lists(*(#[trigger] __s0@[i]), *ctx, c); assert(lists(*__s0@[i], *ctx, c)); }
                else { assert(lists(*__s0@[k], *ctx, c)); }
            }
        }
    }
@loop 0 post
    proof {
        assert forall|c: char| #[trigger] characters@.contains(c) <==> in_attrs(attributes@, *ctx, c) by {
            if characters@.contains(c) { let i = choose|i: int| 0 <= i < __s0@.len() && lists(*(#[trigger] __s0@[i]), *ctx, c); assert(attributes@.contains(*__s0@[i])); }
            if in_attrs(attributes@, *ctx, c) {
                let k = choose|k: CharacterClass| attributes@.contains(Attribute::Class(k)) && #[trigger] members(*ctx, k).contains(c);
                let i = choose|i: int| 0 <= i < __s0@.len() && *(#[trigger] __s0@[i]) == Attribute::Class(k);
                assert(lists(*__s0@[i], *ctx, c));
            }
        }
    }
@fn translator/match_pattern.rs Regexp::from_patterns ret=r loops=1 exitret
@subst patterns . len ( ) =>> patterns . 0 . len ( )
@subst & patterns [ 0 ] =>> & patterns . 0 [ 0 ]
@subst patterns . iter ( ) =>> patterns . 0 . iter ( )
@spec
    requires pssound(*patterns),
    ensures pseq_means(*patterns, patterns.0@.len() as int, *ctx, r),
    decreases patterns
@loop 0
    invariant pssound(*patterns), 1 <= __i0 <= patterns.0@.len(),
        pseq_means(*patterns, __i0 as int, *ctx, regexp),
    decreases patterns.0@.len() - __i0,
@loop 0 pre
    proof { pfirst(*patterns, *ctx, regexp); }
@loop 0 start
    let ghost before = regexp;
    let ghost k = __i0 as int;
@loop 0 end
    proof { pnext(*patterns, k, *ctx, before, other, regexp); }
@exit
    proof { if patterns.0@.len() == 1 { pfirst(*patterns, *ctx, __ret); } }
@fn translator/match_pattern.rs Regexp::from_pattern ret=r exitret
@subst s . to_string ( ) =>> string_clone ( s )
@subst hash_set . clone ( ) =>> class_clone ( hash_set )
@spec
    requires psound(*item),
    ensures pmeans(*item, *ctx, r),
    decreases item
@exit
    proof {
        let (p, cc, re) = (*item, *ctx, __ret);
        reveal_with_fuel(negatable, 3);
        match p {
            Pattern::Attributes(_) => {}
            Pattern::AttributesOrBoundary(attrs, side) => {
                let (l, r) = (*re->Either_0, *re->Either_1);
                assert forall|w: W, a: St, b: St| #[trigger] m(re, w, a, b) <==> pm(p, true, cc, w, a, b) by { assert(m(re, w, a, b) <==> m(l, w, a, b) || m(r, w, a, b)); }
                assert forall|w: W, a: St, b: St| #[trigger] nm(re, w, a, b) <==> pm(p, false, cc, w, a, b) by { assert(nm(re, w, a, b) <==> nm(l, w, a, b) || nm(r, w, a, b)); }
            }
            Pattern::Group(ps) => {
                let q = *re->Group_0;
                assert forall|w: W, a: St, b: St| #[trigger] m(re, w, a, b) <==> pm(p, true, cc, w, a, b) by { assert(m(q, w, a, b) <==> pseq(ps, ps.0@.len() as int, true, cc, w, a, b)); }
                assert forall|w: W, a: St, b: St| #[trigger] nm(re, w, a, b) <==> pm(p, false, cc, w, a, b) by { assert(nm(q, w, a, b) <==> pseq(ps, ps.0@.len() as int, false, cc, w, a, b)); }
            }
            Pattern::Negate(inner) => {
                let q = choose|q: Regexp| #[trigger] pmeans(*inner, cc, q) && complement(q, re);
                assert(pmeans(*inner, cc, q) && complement(q, re));
                assert forall|w: W, a: St, b: St| #[trigger] m(re, w, a, b) <==> pm(p, true, cc, w, a, b) by { assert(nm(q, w, a, b) <==> pm(*inner, false, cc, w, a, b)); }
                assert forall|w: W, a: St, b: St| #[trigger] nm(re, w, a, b) <==> pm(p, false, cc, w, a, b) by { assert(m(q, w, a, b) <==> pm(*inner, true, cc, w, a, b)); }
            }
            Pattern::Optional(inner) => {
                let q = *re->Optional_0;
                assert forall|w: W, a: St, b: St| #[trigger] m(re, w, a, b) <==> pm(p, true, cc, w, a, b) by { assert(m(q, w, a, b) <==> pm(*inner, true, cc, w, a, b)); }
                assert forall|w: W, a: St, b: St| #[trigger] nm(re, w, a, b) <==> pm(p, false, cc, w, a, b) by { assert(nm(q, w, a, b) <==> pm(*inner, false, cc, w, a, b)); }
            }
            Pattern::ZeroOrMore(inner) => {
                let q = *re->ZeroOrMore_0;
                assert forall|w: W, a: St, b: St| #[trigger] m(re, w, a, b) <==> pm(p, true, cc, w, a, b) by { assert forall|n: int| #[trigger] num(n) implies (times(q, n, w, a, b) <==> ptimes(*inner, n, true, cc, w, a, b)) by { ptimes_eq(*inner, cc, q, n, w, a, b); } }
                assert forall|w: W, a: St, b: St| #[trigger] nm(re, w, a, b) <==> pm(p, false, cc, w, a, b) by { assert forall|n: int| #[trigger] num(n) implies (ntimes(q, n, w, a, b) <==> ptimes(*inner, n, false, cc, w, a, b)) by { ptimes_eq(*inner, cc, q, n, w, a, b); } }
            }
            Pattern::OneOrMore(inner) => {
                let q = *re->OneOrMore_0;
                assert forall|w: W, a: St, b: St| #[trigger] m(re, w, a, b) <==> pm(p, true, cc, w, a, b) by { assert forall|n: int| #[trigger] num(n) implies (times(q, n, w, a, b) <==> ptimes(*inner, n, true, cc, w, a, b)) by { ptimes_eq(*inner, cc, q, n, w, a, b); } }
                assert forall|w: W, a: St, b: St| #[trigger] nm(re, w, a, b) <==> pm(p, false, cc, w, a, b) by { assert forall|n: int| #[trigger] num(n) implies (ntimes(q, n, w, a, b) <==> ptimes(*inner, n, false, cc, w, a, b)) by { ptimes_eq(*inner, cc, q, n, w, a, b); } }
            }
            Pattern::Either(x, y) => {
                let (l, r) = (*re->Either_0, *re->Either_1);
                assert forall|w: W, a: St, b: St| #[trigger] m(re, w, a, b) <==> pm(p, true, cc, w, a, b) by { assert(m(l, w, a, b) <==> pseq(x, x.0@.len() as int, true, cc, w, a, b)); assert(m(r, w, a, b) <==> pseq(y, y.0@.len() as int, true, cc, w, a, b)); }
                assert forall|w: W, a: St, b: St| #[trigger] nm(re, w, a, b) <==> pm(p, false, cc, w, a, b) by { assert(nm(l, w, a, b) <==> pseq(x, x.0@.len() as int, false, cc, w, a, b)); assert(nm(r, w, a, b) <==> pseq(y, y.0@.len() as int, false, cc, w, a, b)); }
            }
            _ => {}
        }
    }
@raw
/// before the word what `pre` says, then the word in whatever case, then what `post` says
spec fn rule_m(pre: Patterns, chars: Seq<char>, post: Patterns, cc: CharacterClasses, w: W, a: St, b: St) -> bool {
    exists|x: St| #[trigger] pt(x) && pseq(pre, pre.0@.len() as int, true, cc, w, a, x) && word_at(chars, w, x.i)
        && pseq(post, post.0@.len() as int, true, cc, w, behind(chars, w, x.i), b)
}
spec fn word_at(chars: Seq<char>, w: W, i: int) -> bool { 0 <= i && i + chars.len() <= w.s.len() && forall|k: int| 0 <= k < chars.len() ==> same_fold(w.s[i + k], #[trigger] chars[k]) }
spec fn behind(chars: Seq<char>, w: W, i: int) -> St { St { i: i + chars.len(), c0: boff(w.s, i), c1: boff(w.s, i + chars.len()) } }
@fn translator/match_pattern.rs Regexp::from_match_rule ret=r exitret
@spec
    requires pssound(*pre), pssound(*post),
    ensures forall|w: W, a: St, b: St| #[trigger] m(r, w, a, b) <==> rule_m(*pre, chars@, *post, *ctx, w, a, b),
@entry
    let ghost cs = chars@;
@exit
    proof {
        let (l, c, r) = (*(*__ret->Concat_0)->Concat_0, *(*__ret->Concat_0)->Concat_1, *__ret->Concat_1);
        let lit = *c->Capture_0;
        let (n1, n2) = (pre.0@.len() as int, post.0@.len() as int);
        assert forall|w: W, a: St, b: St| #[trigger] m(__ret, w, a, b) <==> rule_m(*pre, cs, *post, *ctx, w, a, b) by {
            let lc = *__ret->Concat_0;
            if m(__ret, w, a, b) {
                let y = choose|y: St| #[trigger] pt(y) && m(lc, w, a, y) && m(r, w, y, b);
                let x = choose|x: St| #[trigger] pt(x) && m(l, w, a, x) && m(c, w, x, y);
                let x2 = St { i: x.i, c0: boff(w.s, x.i), c1: 0 };
                let z = choose|z: St| #[trigger] pt(z) && m(lit, w, x2, z) && y == (St { i: z.i, c0: z.c0, c1: boff(w.s, z.i) });
                assert(string_m(Kind::Fold, cs, w, x2, z));
                assert(y == behind(cs, w, x.i));
                assert forall|k: int| 0 <= k < cs.len() implies same_fold(w.s[x.i + k], #[trigger] cs[k]) by { assert(cmp(Kind::Fold, w.s[x2.i + k], cs[k])); }
                assert(pt(x) && pseq(*pre, n1, true, *ctx, w, a, x) && pseq(*post, n2, true, *ctx, w, y, b));
            }
            if rule_m(*pre, cs, *post, *ctx, w, a, b) {
                let x = choose|x: St| #[trigger] pt(x) && pseq(*pre, n1, true, *ctx, w, a, x) && word_at(cs, w, x.i) && pseq(*post, n2, true, *ctx, w, behind(cs, w, x.i), b);
                let y = behind(cs, w, x.i);
                let x2 = St { i: x.i, c0: boff(w.s, x.i), c1: 0 };
                let z = at(x2, x.i + cs.len());
                assert(string_m(Kind::Fold, cs, w, x2, z));
                assert(m(lit, w, x2, z) && pt(z));
                assert(m(c, w, x, y));
                assert(m(l, w, a, x) && pt(x));
                assert(m(lc, w, a, y) && pt(y));
                assert(m(r, w, y, b));
            }
        }
    }
@type parser/multipass/action.rs ActionInstruction derive=
@type parser/multipass/action.rs Action derive=
@type translator/translation.rs TranslationTargets derive=
@type translator/context_pattern.rs Effects derive=
@raw
impl Clone for ActionInstruction {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for Test {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for AnchoredRule {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
uninterp spec fn precedence_of(r: AnchoredRule) -> Precedence;
impl AnchoredRule {
    #[verifier::external_body]
    fn precedence(&self) -> (r: Precedence) ensures r == precedence_of(*self) { unimplemented!() }
}
/// the errors of compiling a table; only the one raised here matters
enum TranslationError { SwapClassNotDefined(String), Other }
#[verifier::external_body]
struct SwapClasses { id: usize }
uninterp spec fn swap_class(sw: SwapClasses, name: Seq<char>) -> Option<Swapper>;
impl SwapClasses {
    #[verifier::external_body]
    fn get(&self, name: &String) -> (r: Option<Swapper>) ensures r == swap_class(*self, name@) { unimplemented!() }
}
#[verifier::external_body]
struct CharacterDefinition { id: usize }
#[verifier::external_body]
fn to_vec<X>(v: &Vec<X>) -> (r: Vec<X>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body]
fn empty_string() -> (r: String) ensures r@.len() == 0 { String::new() }
@fn parser/multipass/action.rs Action::actions ret=r
@subst self . actions . clone ( ) =>> to_vec ( & self . actions )
@spec
    ensures r@ == self.actions@,
@fn parser/multipass/test.rs Test::add_implicit_replace ret=r loops=1
@subst vec ! [ TestInstruction :: Replace { tests : self . tests } ] =>> vec_one ( TestInstruction :: Replace { tests : self . tests } )
@spec
    ensures r.tests@ == with_replace(self),
@loop 0
    invariant_except_break !__acc0,
    invariant __i0 <= self.tests@.len(), !__acc0 ==> forall|i: int| 0 <= i < __i0 ==> !(#[trigger] self.tests@[i] is Replace), __acc0 ==> has_replace(self.tests@),
    ensures __acc0 == has_replace(self.tests@),
    decreases self.tests@.len() - __i0,
@raw
spec fn has_replace(ts: Seq<TestInstruction>) -> bool { exists|i: int| 0 <= i < ts.len() && #[trigger] ts[i] is Replace }
/// a test without brackets is all bracket
spec fn with_replace(t: Test) -> Seq<TestInstruction> { if has_replace(t.tests@) { t.tests@ } else { seq![TestInstruction::Replace { tests: t.tests }] } }
// ---- what the action of a rule means ----
/// the text one instruction writes for the replaced text
spec fn act_text(x: ActionInstruction, sw: SwapClasses, cap: Seq<char>) -> Seq<char> {
    match x {
        ActionInstruction::String { s } => s@,
        ActionInstruction::Dots { dots } => dots_text(dots),
        ActionInstruction::SwapClass { name } => swapped(swap_class(sw, name@)->0, cap),
        ActionInstruction::Replace => cap,
        _ => seq![],
    }
}
spec fn action_text(xs: Seq<ActionInstruction>, sw: SwapClasses, cap: Seq<char>) -> Seq<char> decreases xs.len() {
    if xs.len() == 0 { seq![] } else { action_text(xs.drop_last(), sw, cap) + act_text(xs.last(), sw, cap) }
}
/// does every swap class the action names exist?
spec fn act_ok(x: ActionInstruction, sw: SwapClasses) -> bool { x is SwapClass ==> swap_class(sw, (x->SwapClass_name)@) is Some }
spec fn action_ok(xs: Seq<ActionInstruction>, sw: SwapClasses) -> bool { forall|i: int| 0 <= i < xs.len() ==> act_ok(#[trigger] xs[i], sw) }
/// what one instruction does to the variables
spec fn act_effect(x: ActionInstruction) -> Seq<Effect> {
    match x {
        ActionInstruction::Assignment { variable, value } => seq![Effect { slot: variable, kind: EffectKind::Set(value) }],
        ActionInstruction::Increment { variable } => seq![Effect { slot: variable, kind: EffectKind::Increment }],
        ActionInstruction::Decrement { variable } => seq![Effect { slot: variable, kind: EffectKind::Decrement }],
        _ => seq![],
    }
}
spec fn action_effects(xs: Seq<ActionInstruction>) -> Seq<Effect> decreases xs.len() {
    if xs.len() == 0 { seq![] } else { action_effects(xs.drop_last()) + act_effect(xs.last()) }
}
spec fn writes(ts: Seq<TranslationTarget>, xs: Seq<ActionInstruction>, sw: SwapClasses) -> bool { forall|cap: Seq<char>| #[trigger] targets_text(ts, cap) == action_text(xs, sw, cap) }
@fn translator/context_pattern.rs TranslationTarget::from_instruction ret=r
@subst dots . to_string ( ) =>> dots_string ( & dots )
@subst "" . to_string ( ) =>> empty_string ( )
@subst ctx . get ( & name ) . ok_or ( TranslationError :: SwapClassNotDefined ( name ) ) ? =>> match ctx . get ( & name ) { Some ( s ) => s , None => return Err ( TranslationError :: SwapClassNotDefined ( name ) ) }
@spec
    ensures r is Ok <==> act_ok(value, *ctx), r is Ok ==> forall|cap: Seq<char>| #[trigger] target_text(r->Ok_0, cap) == act_text(value, *ctx, cap),
@fn translator/context_pattern.rs TranslationTargets::from_instructions ret=r loops=1 collect0=Result
@subst & [ ActionInstruction ] =>> & Vec < ActionInstruction >
@spec
    ensures r is Ok <==> action_ok(values@, *ctx), r is Ok ==> writes((r->Ok_0)@, values@, *ctx),
@loop 0
    invariant_except_break
        __e0 is None,
    invariant __i0 <= values@.len(), __e0 is None ==> action_ok(values@.take(__i0 as int), *ctx) && writes(__acc0@, values@.take(__i0 as int), *ctx),
        __e0 is Some ==> !action_ok(values@, *ctx),
    ensures __e0 is Some || __i0 == values@.len(),
    decreases values@.len() - __i0,
@loop 0 start
    let ghost before = __acc0@;
    let ghost k = __i0 as int;
@loop 0 end
    proof {
        assert(values@.take(k + 1).drop_last() =~= values@.take(k));
        assert(__acc0@.drop_last() =~= before);
        assert forall|i: int| 0 <= i < k + 1 implies act_ok(#[trigger] values@.take(k + 1)[i], *ctx) by { if i < k { assert(values@.take(k)[i] == values@[i]); } }
        assert forall|cap: Seq<char>| #[trigger] targets_text(__acc0@, cap) == action_text(values@.take(k + 1), *ctx, cap) by { assert(targets_text(before, cap) == action_text(values@.take(k), *ctx, cap)); }
    }
@loop 0 post
    proof { if __e0 is None { assert(values@.take(__i0 as int) =~= values@); } }
@fn translator/context_pattern.rs Effects::from_instruction ret=r
@spec
    ensures r is Some <==> act_effect(value).len() == 1, r is Some ==> act_effect(value) == seq![r->0], r is None ==> act_effect(value).len() == 0,
@fn translator/context_pattern.rs Effects::from_instructions ret=r loops=1 flatopt
@subst & [ ActionInstruction ] =>> & Vec < ActionInstruction >
@spec
    ensures r@ == action_effects(values@),
@loop 0
    invariant __i0 <= values@.len(), __acc0@ == action_effects(values@.take(__i0 as int)),
    decreases values@.len() - __i0,
@loop 0 start
    let ghost before = __acc0@;
    let ghost k = __i0 as int;
    proof { assert(values@.take(k + 1).drop_last() =~= values@.take(k)); }
@loop 0 end
    proof { assert(__acc0@ =~= before + act_effect(values@[k])); }
@loop 0 post
    proof { assert(values@.take(values@.len() as int) =~= values@); }
@type translator/table.rs TableContext derive=
@fn translator/table.rs TableContext::character_classes ret=r
@spec
    ensures *r == self.character_classes,
@fn translator/table.rs TableContext::dots_classes ret=r
@spec
    ensures *r == self.dots_classes,
@fn translator/table.rs TableContext::swap_classes ret=r
@spec
    ensures *r == self.swap_classes,
@fn translator/translation.rs UnresolvedTranslation::new
@sig fn new(output: &Vec<TranslationTarget>, precedence: Precedence, stage: TranslationStage, effects: &Vec<Effect>, origin: Option<AnchoredRule>) -> (r: UnresolvedTranslation)
@subst output . to_vec ( ) =>> to_vec ( output )
@subst effects . to_vec ( ) =>> to_vec ( effects )
@subst origin . into ( ) =>> origin
@spec
    ensures r.output@ == output@, r.precedence == precedence, r.stage == stage, r.effects@ == effects@, r.origin == origin,
@type translator/context_pattern.rs ContextPatternsBuilder derive=
@type translator/context_pattern.rs ContextPatterns derive=
@type translator/match_pattern.rs MatchPatternsBuilder derive=
@type translator/match_pattern.rs MatchPatterns derive=
@raw
/// the payload of a context or multipass rule
spec fn rule_payload(u: UnresolvedTranslation, action: Action, origin: AnchoredRule, stage: TranslationStage, sw: SwapClasses) -> bool {
    &&& writes(u.output@, action.actions@, sw) && u.effects@ == action_effects(action.actions@)
    &&& u.stage == stage && u.origin == Some(origin) && u.precedence == precedence_of(origin)
}
/// the classes a test is about: those of cells in the passes on braille
spec fn classes_of(ctx: TableContext, stage: TranslationStage) -> CharacterClasses {
    match stage { TranslationStage::Pre | TranslationStage::Main => ctx.character_classes, _ => ctx.dots_classes }
}
spec fn test_matches(ts: Seq<TestInstruction>, cc: CharacterClasses, w: W, b: St) -> bool {
    exists|v: Vec<TestInstruction>| v@ == ts && #[trigger] tseq(v, v@.len() as int, cc, w, st0(), b)
}
/// the program of a rule accepts exactly what its test says and carries what its action says
spec fn context_prog(c: CompiledRegexp, test: Test, action: Action, origin: AnchoredRule, stage: TranslationStage, ctx: TableContext) -> bool {
    &&& wf(c) && c.translations@.len() == 1 && c.translations@[0] is Unresolved
    &&& rule_payload(c.translations@[0]->Unresolved_0, action, origin, stage, ctx.swap_classes)
    &&& exists|re: Regexp, v: Vec<TestInstruction>| v@ == with_replace(test) && #[trigger] is_prog(re, c) && #[trigger] seq_means(v, v@.len() as int, classes_of(ctx, stage), re)
}
@fn translator/context_pattern.rs ContextPatternsBuilder::new ret=r
@spec
    ensures r.regexps@.len() == 0,
@fn translator/context_pattern.rs ContextPatternsBuilder::translation ret=r
@subst origin . clone ( ) =>> Some ( origin . clone ( ) )
@subst TranslationTargets :: from_instructions ( & action . actions ( ) , swap_classes ) ? =>> match TranslationTargets :: from_instructions ( & action . actions ( ) , swap_classes ) { Ok ( t ) => t , Err ( e ) => return Err ( e ) }
@spec
    ensures r is Ok <==> action_ok(action.actions@, *swap_classes), r is Ok ==> rule_payload(r->Ok_0, *action, *origin, stage, *swap_classes),
@fn translator/context_pattern.rs ContextPatternsBuilder::insert ret=r
@subst self . translation ( action , origin , stage , ctx . swap_classes ( ) ) ? =>> match self . translation ( action , origin , stage , ctx . swap_classes ( ) ) { Ok ( t ) => t , Err ( e ) => return Err ( e ) }
@spec
    requires forall|i: int| 0 <= i < test.tests.len() ==> sound(#[trigger] test.tests[i]),
    ensures r is Ok <==> action_ok(action.actions@, ctx.swap_classes),
        r is Err ==> *final(self) == *old(self),
        r is Ok ==> final(self).regexps@.len() == old(self).regexps@.len() + 1 && final(self).regexps@.drop_last() == old(self).regexps@
            && context_prog(final(self).regexps@.last(), *test, *action, *origin, stage, *ctx),
@entry
    let ghost test0 = *test;
@before self . regexps . push
    let ghost rs0 = self.regexps@;
    proof {
        let n = test.tests@.len() as int;
        assert(*character_classes == classes_of(*ctx, stage));
        assert(exists|re: Regexp| #[trigger] is_prog(re, regexp) && seq_means(test.tests, n, *character_classes, re));
        assert(test.tests@ == with_replace(test0));
        assert(context_prog(regexp, test0, *action, *origin, stage, *ctx));
        assert(rs0.push(regexp).drop_last() =~= rs0);
    }
@fn translator/context_pattern.rs ContextPatternsBuilder::build ret=r
@spec
    ensures r.regexps == self.regexps,
@fn translator/context_pattern.rs ContextPatterns::find ret=r loops=1 flatopt
@spec
    requires forall|i: int| 0 <= i < self.regexps@.len() ==> wf(#[trigger] self.regexps@[i]),
    ensures answers(self.regexps@, world(input@, *env, at_start), r@),
@loop 0
    invariant __i0 <= self.regexps@.len(), answers(self.regexps@.take(__i0 as int), world(input@, *env, at_start), __acc0@),
        forall|i: int| 0 <= i < self.regexps@.len() ==> wf(#[trigger] self.regexps@[i]),
    decreases self.regexps@.len() - __i0,
@loop 0 start
    let ghost before = __acc0@;
    let ghost k = __i0 as int;
    proof { assert(self.regexps@.take(k + 1).drop_last() =~= self.regexps@.take(k)); }
@loop 0 end
    proof { if __acc0@.len() > before.len() { assert(__acc0@.drop_last() =~= before); } }
@loop 0 post
    proof { assert(self.regexps@.take(self.regexps@.len() as int) =~= self.regexps@); }
@raw
/// the rule applies here, with this result
spec fn hit(c: CompiledRegexp, w: W, t: T) -> bool {
    forall|re: Regexp| #[trigger] is_prog(re, c) ==> exists|b: St| #[trigger] m(re, w, st0(), b) && result_of(t, c.translations@[0], w, b)
}
spec fn miss(c: CompiledRegexp, w: W) -> bool { forall|re: Regexp, b: St| #[trigger] is_prog(re, c) ==> !(#[trigger] m(re, w, st0(), b)) }
/// one result for each rule that applies, in the order of the rules
spec fn answers(cs: Seq<CompiledRegexp>, w: W, out: Seq<T>) -> bool decreases cs.len() {
    if cs.len() == 0 { out.len() == 0 } else {
        ||| miss(cs.last(), w) && answers(cs.drop_last(), w, out)
        ||| out.len() > 0 && hit(cs.last(), w, out.last()) && answers(cs.drop_last(), w, out.drop_last())
    }
}
@fn translator/translation.rs ResolvedTranslation::new
@sig fn new(input: &str, output: &str, weight: usize, stage: TranslationStage, origin: Option<AnchoredRule>) -> (r: ResolvedTranslation)
@subst input . to_string ( ) =>> own ( input )
@subst output . to_string ( ) =>> own ( output )
@subst input . chars ( ) . count ( ) =>> str_chars ( input ) . len ( )
@subst Vec :: default ( ) =>> Vec :: new ( )
@subst origin . into ( ) =>> origin
@spec
    ensures r.input@ == input@, r.output@ == output@, r.length == input@.len(), r.weight == weight, r.offset == 0,
        r.effects@.len() == 0, r.origin == origin, r.precedence == Precedence::Default, r.stage == stage,
@raw
spec fn match_payload(t: T, chars: Seq<char>, to: Seq<char>, origin: AnchoredRule) -> bool {
    t.input@ == chars && t.output@ == to && t.length == chars.len() && t.effects@.len() == 0 && t.origin == Some(origin) && t.precedence == Precedence::Default && t.stage == TranslationStage::Main
}
spec fn match_prog(c: CompiledRegexp, pre: Patterns, chars: Seq<char>, post: Patterns, to: Seq<char>, origin: AnchoredRule, cc: CharacterClasses) -> bool {
    &&& wf(c) && c.translations@.len() == 1 && c.translations@[0] is Resolved
    &&& match_payload(c.translations@[0]->Resolved_0, chars, to, origin)
    &&& exists|re: Regexp| #[trigger] is_prog(re, c) && rule_means(re, pre, chars, post, cc)
}
spec fn rule_means(re: Regexp, pre: Patterns, chars: Seq<char>, post: Patterns, cc: CharacterClasses) -> bool {
    forall|w: W, a: St, b: St| #[trigger] m(re, w, a, b) <==> rule_m(pre, chars, post, cc, w, a, b)
}
@fn translator/match_pattern.rs MatchPatternsBuilder::new ret=r
@spec
    ensures r.regexps@.len() == 0,
@fn translator/match_pattern.rs MatchPatternsBuilder::insert
@subst origin . clone ( ) =>> Some ( origin . clone ( ) )
@subst chars . to_string ( ) =>> own ( chars )
@spec
    requires pssound(*pre), pssound(*post),
    ensures final(self).regexps@.len() == old(self).regexps@.len() + 1, final(self).regexps@.drop_last() == old(self).regexps@,
        match_prog(final(self).regexps@.last(), *pre, chars@, *post, to@, *origin, *ctx),
@before self . regexps . push
    let ghost rs0 = self.regexps@;
    proof {
        assert(exists|re: Regexp| #[trigger] is_prog(re, regexp) && rule_means(re, *pre, chars@, *post, *ctx));
        assert(rs0.push(regexp).drop_last() =~= rs0);
    }
@fn translator/match_pattern.rs MatchPatternsBuilder::build ret=r
@spec
    ensures r.regexps == self.regexps,
@raw
/// nothing is stored in any variable
spec fn blank(env: Environment) -> bool { forall|s: u8| val(env, s) == 0 }
fn blank_env() -> (r: Environment) ensures blank(r) { Environment::new() }
spec fn answers0(cs: Seq<CompiledRegexp>, s: Seq<char>, start: bool, out: Seq<T>) -> bool decreases cs.len() {
    if cs.len() == 0 { out.len() == 0 } else {
        exists|env: Environment| #[trigger] blank(env) && {
            let w = world(s, env, start);
            ||| miss(cs.last(), w) && answers0(cs.drop_last(), s, start, out)
            ||| out.len() > 0 && hit(cs.last(), w, out.last()) && answers0(cs.drop_last(), s, start, out.drop_last())
        }
    }
}
@fn translator/match_pattern.rs MatchPatterns::find ret=r loops=1 flatopt
@subst Environment :: new ( ) =>> blank_env ( )
@spec
    requires forall|i: int| 0 <= i < self.regexps@.len() ==> wf(#[trigger] self.regexps@[i]),
    ensures answers0(self.regexps@, input@, at_start, r@),
@loop 0
    invariant __i0 <= self.regexps@.len(), answers0(self.regexps@.take(__i0 as int), input@, at_start, __acc0@),
        forall|i: int| 0 <= i < self.regexps@.len() ==> wf(#[trigger] self.regexps@[i]),
    decreases self.regexps@.len() - __i0,
@loop 0 start
    let ghost before = __acc0@;
    let ghost k = __i0 as int;
    proof { assert(self.regexps@.take(k + 1).drop_last() =~= self.regexps@.take(k)); }
@loop 0 end
    proof { if __acc0@.len() > before.len() { assert(__acc0@.drop_last() =~= before); } }
@loop 0 post
    proof { assert(self.regexps@.take(self.regexps@.len() as int) =~= self.regexps@); }
@raw
// ---- what a user relies on ----
/// a context or multipass rule applies at a place exactly if its test holds there
proof fn th_context_applies(c: CompiledRegexp, test: Test, action: Action, origin: AnchoredRule, stage: TranslationStage, ctx: TableContext, w: W)
    requires context_prog(c, test, action, origin, stage, ctx),
    ensures miss(c, w) <==> forall|b: St| !#[trigger] test_matches(with_replace(test), classes_of(ctx, stage), w, b),
{
    let cc = classes_of(ctx, stage);
    let (re, v) = choose|re: Regexp, v: Vec<TestInstruction>| v@ == with_replace(test) && #[trigger] is_prog(re, c) && #[trigger] seq_means(v, v@.len() as int, cc, re);
    if miss(c, w) {
        assert forall|b: St| !#[trigger] test_matches(with_replace(test), cc, w, b) by {
            if test_matches(with_replace(test), cc, w, b) {
                let u = choose|u: Vec<TestInstruction>| u@ == with_replace(test) && #[trigger] tseq(u, u@.len() as int, cc, w, st0(), b);
                tseq_view(u, v, u@.len() as int, cc, w, st0(), b);
                assert(m(re, w, st0(), b));
            }
        }
    } else {
        let (re2, b) = choose|re2: Regexp, b: St| #[trigger] is_prog(re2, c) && #[trigger] m(re2, w, st0(), b);
        same_prog(re2, re, c, w, b);
        assert(tseq(v, v@.len() as int, cc, w, st0(), b));
        assert(test_matches(with_replace(test), cc, w, b));
    }
}
/// only the instructions count
proof fn tseq_view(u: Vec<TestInstruction>, v: Vec<TestInstruction>, k: int, cc: CharacterClasses, w: W, a: St, b: St)
    requires u@ == v@, tseq(u, k, cc, w, a, b),
    ensures tseq(v, k, cc, w, a, b),
    decreases k
{
    if 0 < k <= u.len() {
        let x = choose|x: St| #[trigger] pt(x) && tseq(u, k - 1, cc, w, a, x) && tm(u[k - 1], true, cc, w, x, b);
        tseq_view(u, v, k - 1, cc, w, a, x);
        assert(u[k - 1] == v[k - 1]);
    }
}
/// two patterns with the same program match the same
proof fn same_prog(p: Regexp, q: Regexp, c: CompiledRegexp, w: W, b: St)
    requires is_prog(p, c), is_prog(q, c), m(p, w, st0(), b),
    ensures m(q, w, st0(), b),
{
    let n = c.instructions@.len() - 1;
    assert(inb(w, st0()));
    m_sane(p, w, st0(), b);
    let fin = Fin { st: b, ix: 0 };
    assert(acc(gp(c), w, n, b, fin, 1));
    let f = bwd(p, gp(c), w, 0, n, st0(), b, fin, 1);
    let x = fwd(q, gp(c), w, 0, n, st0(), fin, f);
    assert(x.0 == b);
}
/// a result never reaches beyond the text
proof fn th_in_text(c: CompiledRegexp, w: W, t: T)
    requires wf(c), hit(c, w, t), c.translations@[0] is Unresolved,
    ensures t.offset + t.length <= w.s.len(),
{
    let re = choose|re: Regexp| #[trigger] is_prog(re, c);
    let b = choose|b: St| #[trigger] m(re, w, st0(), b) && result_of(t, c.translations@[0], w, b);
    m_sane(re, w, st0(), b);
    let (x, y) = choose|x: int, y: int| 0 <= x <= y <= b.i && b.c0 == #[trigger] boff(w.s, x) && b.c1 == #[trigger] boff(w.s, y) && t.offset == x && resolved(c.translations@[0], w.s.subrange(x, y), b.i, t);
}
/// a match rule applies at a place exactly if what it says before, of and behind its word holds there
proof fn th_match_applies(c: CompiledRegexp, pre: Patterns, chars: Seq<char>, post: Patterns, to: Seq<char>, origin: AnchoredRule, cc: CharacterClasses, w: W)
    requires match_prog(c, pre, chars, post, to, origin, cc),
    ensures miss(c, w) <==> forall|b: St| !#[trigger] rule_m(pre, chars, post, cc, w, st0(), b),
{
    let re = choose|re: Regexp| #[trigger] is_prog(re, c) && rule_means(re, pre, chars, post, cc);
    if miss(c, w) {
        assert forall|b: St| !#[trigger] rule_m(pre, chars, post, cc, w, st0(), b) by { assert(!m(re, w, st0(), b)); }
    } else {
        let (re2, b) = choose|re2: Regexp, b: St| #[trigger] is_prog(re2, c) && #[trigger] m(re2, w, st0(), b);
        same_prog(re2, re, c, w, b);
        assert(rule_m(pre, chars, post, cc, w, st0(), b));
    }
}
/// patterns only move forward and do not touch the captured place
proof fn pm_frame(p: Pattern, yes: bool, cc: CharacterClasses, w: W, a: St, b: St)
    requires pm(p, yes, cc, w, a, b),
    ensures a.i <= b.i, a.c0 == b.c0, a.c1 == b.c1,
    decreases p, 0int, 0int
{
    match p {
        Pattern::Group(ps) => pseq_frame(ps, ps.0@.len() as int, yes, cc, w, a, b),
        Pattern::Negate(q) => pm_frame(*q, !yes, cc, w, a, b),
        Pattern::Optional(q) => { if a != b { pm_frame(*q, yes, cc, w, a, b); } }
        Pattern::ZeroOrMore(q) => { let n = choose|n: int| #[trigger] num(n) && n >= 0 && ptimes(*q, n, yes, cc, w, a, b); ptimes_frame(*q, n, yes, cc, w, a, b); }
        Pattern::OneOrMore(q) => { let n = choose|n: int| #[trigger] num(n) && n >= 1 && ptimes(*q, n, yes, cc, w, a, b); ptimes_frame(*q, n, yes, cc, w, a, b); }
        Pattern::Either(l, r) => {
            if pseq(l, l.0@.len() as int, yes, cc, w, a, b) { pseq_frame(l, l.0@.len() as int, yes, cc, w, a, b); } else { pseq_frame(r, r.0@.len() as int, yes, cc, w, a, b); }
        }
        _ => {}
    }
}
proof fn ptimes_frame(p: Pattern, n: int, yes: bool, cc: CharacterClasses, w: W, a: St, b: St)
    requires ptimes(p, n, yes, cc, w, a, b),
    ensures a.i <= b.i, a.c0 == b.c0, a.c1 == b.c1,
    decreases p, n, 1int
{
    if n > 0 { let x = choose|x: St| #[trigger] pt(x) && ptimes(p, n - 1, yes, cc, w, a, x) && pm(p, yes, cc, w, x, b); ptimes_frame(p, n - 1, yes, cc, w, a, x); pm_frame(p, yes, cc, w, x, b); }
}
proof fn pseq_frame(ps: Patterns, k: int, yes: bool, cc: CharacterClasses, w: W, a: St, b: St)
    requires pseq(ps, k, yes, cc, w, a, b),
    ensures a.i <= b.i, a.c0 == b.c0, a.c1 == b.c1,
    decreases ps, k, 0int
{
    if 0 < k <= ps.0.len() { let x = choose|x: St| #[trigger] pt(x) && pseq(ps, k - 1, yes, cc, w, a, x) && pm(ps.0[k - 1], yes, cc, w, x, b); pseq_frame(ps, k - 1, yes, cc, w, a, x); pm_frame(ps.0[k - 1], yes, cc, w, x, b); }
}
proof fn boff_inj(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= s.len(), 0 <= j <= s.len(), boff(s, i) == boff(s, j),
    ensures i == j,
{ if i < j { boff_mono(s, i, j); } else if j < i { boff_mono(s, j, i); } }
/// the result of a match rule replaces exactly its word, at the place where the word is
proof fn th_match_place(c: CompiledRegexp, pre: Patterns, chars: Seq<char>, post: Patterns, to: Seq<char>, origin: AnchoredRule, cc: CharacterClasses, w: W, t: T)
    requires match_prog(c, pre, chars, post, to, origin, cc), hit(c, w, t),
    ensures t.output@ == to, t.length == chars.len(), t.offset + t.length <= w.s.len(), word_at(chars, w, t.offset as int),
{
    let re = choose|re: Regexp| #[trigger] is_prog(re, c) && rule_means(re, pre, chars, post, cc);
    let b = choose|b: St| #[trigger] m(re, w, st0(), b) && result_of(t, c.translations@[0], w, b);
    m_sane(re, w, st0(), b);
    assert(rule_m(pre, chars, post, cc, w, st0(), b));
    let x = choose|x: St| #[trigger] pt(x) && pseq(pre, pre.0@.len() as int, true, cc, w, st0(), x) && word_at(chars, w, x.i) && pseq(post, post.0@.len() as int, true, cc, w, behind(chars, w, x.i), b);
    pseq_frame(post, post.0@.len() as int, true, cc, w, behind(chars, w, x.i), b);
    pseq_frame(pre, pre.0@.len() as int, true, cc, w, st0(), x);
    let (p, q) = choose|p: int, q: int| 0 <= p <= q <= b.i && b.c0 == #[trigger] boff(w.s, p) && b.c1 == #[trigger] boff(w.s, q) && t.offset == p && resolved(c.translations@[0], w.s.subrange(p, q), b.i, t);
    boff_inj(w.s, p, x.i);
}
