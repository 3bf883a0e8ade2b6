@include constraint_types.vs
@raw
// Stand-ins: only what the translation loop looks at. (`Rule` is the parser's big enum; the loop
// only asks whether a rule is prepunc or postpunc.)
enum Rule { Prepunc { id: usize }, Postpunc { id: usize }, Other { id: usize } }
struct AnchoredRule { rule: Rule }
impl Clone for AnchoredRule {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
struct Effect { id: usize }
@type translator/translation.rs TranslationStage derive=Clone,Copy
@type parser.rs Precedence derive=Clone,Copy
@type parser.rs Direction attr=derive(PartialEq,Eq,Structural,Clone,Copy)
@type translator/translation.rs ResolvedTranslation
@type translator/translation.rs TranslationSubset
@raw
impl Clone for ResolvedTranslation {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
type T = ResolvedTranslation;
type Sub = (Seq<char>, Seq<char>, usize, usize);
spec fn sub_of(t: T) -> Sub { (t.input@, t.output@, t.length, t.weight) }
/// a `String` is its characters
uninterp spec fn str_of(s: Seq<char>) -> String;
#[verifier::external_body]
proof fn str_of_view(s: String) ensures str_of(s@) == s {}
spec fn set_output(t: T, s: Seq<char>) -> T { ResolvedTranslation { output: str_of(s), ..t } }
uninterp spec fn upper_all(s: Seq<char>) -> Seq<char>;
uninterp spec fn upper_char(c: char) -> Seq<char>;
#[verifier::external_body]
fn string_upper(s: &String) -> (r: String) ensures r@ == upper_all(s@) { s.to_uppercase() }
/// `c.to_uppercase().chain(rest).collect()`
#[verifier::external_body]
fn upper_then_rest(c: char, rest: CharIter) -> (r: String) ensures r@ == upper_char(c) + rest@ { unimplemented!() }
#[verifier::external_body]
fn char_string(c: char) -> (r: String) ensures r@ == seq![c] { c.to_string() }

@include chars.vs
@raw
#[verifier::external_body]
fn peek(c: &CharIter) -> (r: Option<char>) ensures r == (if c@.len() == 0 { None } else { Some(c@[0]) }) { unimplemented!() }
/// byte lengths of a string and of one of its suffixes agree iff the suffix is the whole string
#[verifier::external_body]
fn nothing_consumed(c: &CharIter, s: &str) -> (r: bool)
    requires c@.len() <= s@.len(), c@ == s@.skip(s@.len() - c@.len()),
    ensures r == (c@.len() == s@.len()),
{ unimplemented!() }
#[verifier::external_body]
fn vec_append<X>(v: &mut Vec<X>, w: Vec<X>) ensures final(v)@ == old(v)@ + w@ { v.extend(w) }
fn vec_extend<X>(v: &mut Vec<X>, w: Vec<X>)
    ensures final(v)@ == old(v)@ + w@, forall|t: X| #[trigger] final(v)@.contains(t) <==> old(v)@.contains(t) || w@.contains(t),
{
    let ghost (a, b) = (v@, w@);
    vec_append(v, w);
    proof {
        assert forall|t: X| #[trigger] v@.contains(t) <==> a.contains(t) || b.contains(t) by {
            let c = a + b;
            if c.contains(t) { let i = c.index_of(t); if i < a.len() { assert(a[i] == t); } else { assert(b[i - a.len()] == t); } }
            if a.contains(t) { let i = a.index_of(t); assert(c[i] == t); }
            if b.contains(t) { let i = b.index_of(t); assert(c[i + a.len()] == t); }
        }
    }
}

/// `HashSet<TranslationSubset>`, keyed by content
#[verifier::external_body]
struct Seen { id: usize }
impl Seen {
    uninterp spec fn view(&self) -> Set<Sub>;
    #[verifier::external_body]
    fn default() -> (r: Seen) ensures r@ == Set::<Sub>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn contains(&self, t: &TranslationSubset) -> (r: bool) ensures r == self@.contains((t.input@, t.output@, t.length, t.weight)) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, t: TranslationSubset) ensures final(self)@ == old(self)@.insert((t.input@, t.output@, t.length, t.weight)) { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self) ensures final(self)@ == Set::<Sub>::empty() { unimplemented!() }
}
/// the variables of the pass (contracts of its own: C18)
#[verifier::external_body]
struct Environment { id: usize }
uninterp spec fn env0() -> Environment;
uninterp spec fn env_apply(e: Environment, f: Effect) -> Environment;
spec fn env_all(e: Environment, fs: Seq<Effect>) -> Environment decreases fs.len() {
    if fs.len() == 0 { e } else { env_apply(env_all(e, fs.drop_last()), fs.last()) }
}
impl Environment {
    #[verifier::external_body]
    fn new() -> (r: Environment) ensures r == env0() { unimplemented!() }
    #[verifier::external_body]
    fn apply(&mut self, f: &Effect) ensures *final(self) == env_apply(*old(self), *f) { unimplemented!() }
}
impl Constraints {
    #[verifier::external_body]
    fn contains(&self, c: Constraint) -> (r: bool) ensures r == self@.contains(c) { unimplemented!() }
}
@fn translator/translation.rs ResolvedTranslation::input
@spec
    ensures r@ == self.input@,
@fn translator/translation.rs ResolvedTranslation::output
@subst self . output . to_string ( ) =>> self . output . clone ( )
@spec
    ensures r@ == self.output@,
@fn translator/translation.rs ResolvedTranslation::length
@spec
    ensures r == self.length,
@fn translator/translation.rs ResolvedTranslation::weight
@spec
    ensures r == self.weight,
@fn translator/translation.rs ResolvedTranslation::offset
@spec
    ensures r == self.offset,
@fn translator/translation.rs ResolvedTranslation::origin
@subst self . origin . clone ( ) =>> origin_clone ( & self . origin )
@spec
    ensures r == self.origin,
@fn translator/translation.rs ResolvedTranslation::effects
@spec
    ensures *r == self.effects,
@fn translator/translation.rs ResolvedTranslation::with_output
@subst output . to_string ( ) =>> own ( output )
@spec
    ensures r == set_output(self, output@),
@fn translator/translation.rs ResolvedTranslation::decrement_offset
@spec
    requires decrement <= self.offset,
    ensures r == (ResolvedTranslation { offset: (self.offset - decrement) as usize, ..self }),
@fn translator/translation.rs From<&ResolvedTranslation>@TranslationSubset::from
@sig fn from(translation: &ResolvedTranslation) -> (r: TranslationSubset)
@spec
    ensures (r.input@, r.output@, r.length, r.weight) == sub_of(*translation),
@fn translator/translation.rs ResolvedTranslation::new
@sig fn new(input: &str, output: &str, weight: usize, stage: TranslationStage, origin: Option<AnchoredRule>) -> (r: ResolvedTranslation)
@subst input . to_string ( ) =>> own ( input )
@subst output . to_string ( ) =>> own ( output )
@subst input . chars ( ) . count ( ) =>> str_chars ( input ) . len ( )
@subst Vec :: default ( ) =>> Vec :: new ( )
@subst origin . into ( ) =>> origin
@spec
    ensures r.input@ == input@, r.output@ == output@, r.length == input@.len(), r.weight == weight, r.offset == 0,
        r.effects@.len() == 0, r.origin == origin, r.precedence == Precedence::Default, r.stage == stage,
@raw
#[verifier::external_body]
fn own(s: &str) -> (r: String) ensures r@ == s@, r == str_of(s@) { s.to_string() }
#[verifier::external_body]
fn origin_clone(o: &Option<AnchoredRule>) -> (r: Option<AnchoredRule>) ensures r == *o { unimplemented!() }

// ---- sequences of translations ----
spec fn keep(s: Seq<T>, f: spec_fn(T) -> bool) -> Seq<T> decreases s.len() {
    if s.len() == 0 { seq![] } else if f(s.last()) { keep(s.drop_last(), f).push(s.last()) } else { keep(s.drop_last(), f) }
}
proof fn keep_take(s: Seq<T>, f: spec_fn(T) -> bool, i: int)
    requires 0 <= i < s.len(),
    ensures keep(s.take(i + 1), f) == (if f(s[i]) { keep(s.take(i), f).push(s[i]) } else { keep(s.take(i), f) }),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(i + 1).last() == s[i]);
}
proof fn keep_in(s: Seq<T>, f: spec_fn(T) -> bool)
    ensures forall|i: int| 0 <= i < keep(s, f).len() ==> s.contains(#[trigger] keep(s, f)[i]) && f(keep(s, f)[i]),
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        keep_in(p, f);
        assert forall|i: int| 0 <= i < keep(s, f).len() implies s.contains(#[trigger] keep(s, f)[i]) && f(keep(s, f)[i]) by {
            if i < keep(p, f).len() {
                assert(p.contains(keep(p, f)[i]));
                let k = p.index_of(keep(p, f)[i]);
                assert(s[k] == keep(p, f)[i]);
                assert(keep(s, f)[i] == keep(p, f)[i]);
            } else { assert(s[s.len() - 1] == keep(s, f)[i]); }
        }
    }
}
proof fn keep_all(s: Seq<T>, f: spec_fn(T) -> bool, t: T)
    requires s.contains(t), f(t),
    ensures keep(s, f).contains(t),
    decreases s.len()
{
    if s.len() > 0 {
        let k = s.index_of(t);
        let p = s.drop_last();
        if s.last() == t { assert(keep(s, f)[keep(p, f).len() as int] == t); }
        else {
            assert(p[k] == t);
            keep_all(p, f, t);
            let j = keep(p, f).index_of(t);
            assert(keep(s, f)[j] == t);
        }
    }
}
spec fn off0() -> spec_fn(T) -> bool { |t: T| t.offset == 0 }
spec fn offn() -> spec_fn(T) -> bool { |t: T| t.offset != 0 }
/// the last of the heaviest
spec fn heaviest(s: Seq<T>) -> Option<T> decreases s.len() {
    if s.len() == 0 { None } else {
        match heaviest(s.drop_last()) {
            Some(m) => if m.weight > s.last().weight { Some(m) } else { Some(s.last()) },
            None => Some(s.last()),
        }
    }
}
proof fn heaviest_is(s: Seq<T>)
    ensures
        s.len() == 0 <==> heaviest(s) is None,
        s.len() > 0 ==> s.contains(heaviest(s)->0) && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).weight <= (heaviest(s)->0).weight,
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        heaviest_is(p);
        assert(s[s.len() - 1] == s.last());
        if p.len() > 0 { let k = p.index_of(heaviest(p)->0); assert(s[k] == heaviest(p)->0); }
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).weight <= (heaviest(s)->0).weight by { if i < p.len() { assert(p[i] == s[i]); } }
    }
}
proof fn heaviest_take(s: Seq<T>, i: int)
    requires 0 <= i < s.len(),
    ensures heaviest(s.take(i + 1)) == (match heaviest(s.take(i)) {
            Some(m) => if m.weight > s[i].weight { Some(m) } else { Some(s[i]) },
            None => Some(s[i]) }),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(i + 1).last() == s[i]);
}
/// pending look-behind matches after `d` characters were consumed
spec fn shift(s: Seq<T>, d: usize) -> Seq<T> decreases s.len() {
    if s.len() == 0 { seq![] }
    else if s.last().offset >= d { shift(s.drop_last(), d).push(ResolvedTranslation { offset: (s.last().offset - d) as usize, ..s.last() }) }
    else { shift(s.drop_last(), d) }
}
proof fn shift_take(s: Seq<T>, d: usize, i: int)
    requires 0 <= i < s.len(),
    ensures shift(s.take(i + 1), d) == (if s[i].offset >= d { shift(s.take(i), d).push(ResolvedTranslation { offset: (s[i].offset - d) as usize, ..s[i] }) } else { shift(s.take(i), d) }),
{
    assert(s.take(i + 1).drop_last() =~= s.take(i));
    assert(s.take(i + 1).last() == s[i]);
}
proof fn shift_in(s: Seq<T>, d: usize)
    ensures forall|i: int| 0 <= i < shift(s, d).len() ==> exists|k: int| 0 <= k < s.len() && s[k].offset >= d && #[trigger] shift(s, d)[i] == (ResolvedTranslation { offset: (s[k].offset - d) as usize, ..s[k] }),
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        shift_in(p, d);
        assert forall|i: int| 0 <= i < shift(s, d).len() implies exists|k: int| 0 <= k < s.len() && s[k].offset >= d && #[trigger] shift(s, d)[i] == (ResolvedTranslation { offset: (s[k].offset - d) as usize, ..s[k] }) by {
            if i < shift(p, d).len() {
                let k = choose|k: int| 0 <= k < p.len() && p[k].offset >= d && shift(p, d)[i] == (ResolvedTranslation { offset: (p[k].offset - d) as usize, ..p[k] });
                assert(s[k] == p[k]);
                assert(shift(s, d)[i] == shift(p, d)[i]);
            } else { let k = s.len() - 1; assert(s[k] == s.last()); }
        }
    }
}
/// total number of characters the pieces stand for
spec fn lens(s: Seq<T>) -> int decreases s.len() { if s.len() == 0 { 0 } else { lens(s.drop_last()) + s.last().length } }
proof fn lens_add(a: Seq<T>, b: Seq<T>)
    ensures lens(a + b) == lens(a) + lens(b),
    decreases b.len()
{
    if b.len() > 0 { assert((a + b).drop_last() =~= a + b.drop_last()); lens_add(a, b.drop_last()); assert((a + b).last() == b.last()); }
    else { assert(a + b =~= a); }
}
proof fn lens_zero(a: Seq<T>)
    requires forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).length == 0,
    ensures lens(a) == 0,
    decreases a.len()
{ if a.len() > 0 { lens_zero(a.drop_last()); } }
