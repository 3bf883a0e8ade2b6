@include indication_types.vs
@raw
struct EmphasisSpan { class: String, range: std::ops::Range<usize> }
/// (contract of the module of the indicator)
mod computer_braille { use super::*;
#[verifier::external_body] pub struct Indicator { id: usize }
impl Indicator {
    pub(crate) uninterp spec fn signs(&self, w: Seq<char>, spans: Seq<EmphasisSpan>) -> Seq<Event>;
    #[verifier::external_body] pub(crate) fn precompute(&self, input: &str, spans: &[EmphasisSpan]) -> (r: Vec<Event>) ensures r@ == self.signs(input@, spans@), all_upto(r@, input@.len() as int) { unimplemented!() }
}
}
/// (contract of the module of the indicator)
mod emphasis { use super::*;
#[verifier::external_body] pub struct Indicator { id: usize }
impl Indicator {
    pub(crate) uninterp spec fn signs(&self, w: Seq<char>, spans: Seq<EmphasisSpan>) -> Seq<Event>;
    #[verifier::external_body] pub(crate) fn precompute(&self, input: &str, spans: &[EmphasisSpan]) -> (r: Vec<Event>) ensures r@ == self.signs(input@, spans@), all_upto(r@, input@.len() as int) { unimplemented!() }
}
}
/// (contract of the module of the indicator)
mod lettersign { use super::*;
#[verifier::external_body] pub struct Indicator { id: usize }
impl Indicator {
    pub(crate) uninterp spec fn signs(&self, w: Seq<char>) -> Seq<Event>;
    #[verifier::external_body] pub(crate) fn precompute(&self, input: &str) -> (r: Vec<Event>) ensures r@ == self.signs(input@), all_upto(r@, input@.len() as int) { unimplemented!() }
}
}
/// (contract of the module of the indicator)
mod nocontract { use super::*;
#[verifier::external_body] pub struct Indicator { id: usize }
impl Indicator {
    pub(crate) uninterp spec fn signs(&self, w: Seq<char>) -> Seq<Event>;
    #[verifier::external_body] pub(crate) fn precompute(&self, input: &str) -> (r: Vec<Event>) ensures r@ == self.signs(input@), all_upto(r@, input@.len() as int) { unimplemented!() }
}
}
/// (contract of the module of the indicator)
mod numeric { use super::*;
#[verifier::external_body] pub struct Indicator { id: usize }
impl Indicator {
    pub(crate) uninterp spec fn signs(&self, w: Seq<char>) -> Seq<Event>;
    #[verifier::external_body] pub(crate) fn precompute(&self, input: &str) -> (r: Vec<Event>) ensures r@ == self.signs(input@), all_upto(r@, input@.len() as int) { unimplemented!() }
}
}
/// (contract of the module of the indicator)
mod uppercase { use super::*;
#[verifier::external_body] pub struct Indicator { id: usize }
impl Indicator {
    pub(crate) uninterp spec fn signs(&self, w: Seq<char>) -> Seq<Event>;
    #[verifier::external_body] pub(crate) fn precompute(&self, input: &str) -> (r: Vec<Event>) ensures r@ == self.signs(input@), all_upto(r@, input@.len() as int) { unimplemented!() }
}
}
@type translator/indication.rs Indicator derive=
@type translator/indication.rs Indicators derive=
@type translator/indication.rs PrecomputedIndications derive=
@raw
type T = ResolvedTranslation;
spec fn signs(i: Indicator, w: Seq<char>, spans: Seq<EmphasisSpan>) -> Seq<Event> {
    match i {
        Indicator::ComputerBraille(i) => i.signs(w, spans),
        Indicator::Emphasis(i) => i.signs(w, spans),
        Indicator::LetterSign(i) => i.signs(w),
        Indicator::NoContract(i) => i.signs(w),
        Indicator::Numeric(i) => i.signs(w),
        Indicator::Uppercase(i) => i.signs(w),
    }
}
/// the signs for one position, in order
spec fn at(s: Seq<Event>, p: int) -> Seq<T> decreases s.len() {
    if s.len() == 0 { seq![] } else if s.last().0 == p { at(s.drop_last(), p).push(s.last().1) } else { at(s.drop_last(), p) }
}
proof fn at_take(s: Seq<Event>, i: int, p: int)
    requires 0 <= i < s.len(),
    ensures at(s.take(i + 1), p) == (if s[i].0 == p { at(s.take(i), p).push(s[i].1) } else { at(s.take(i), p) }),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
/// the signs of all indicators for one position: indicator by indicator
spec fn all_at(v: Seq<Indicator>, w: Seq<char>, spans: Seq<EmphasisSpan>, p: int) -> Seq<T> decreases v.len() {
    if v.len() == 0 { seq![] } else { all_at(v.drop_last(), w, spans, p) + at(signs(v.last(), w, spans), p) }
}
spec fn mute(s: Seq<T>) -> bool { forall|k: int| 0 <= k < s.len() ==> sign(#[trigger] s[k]) }
proof fn at_mute(s: Seq<Event>, n: int, p: int)
    requires all_upto(s, n),
    ensures mute(at(s, p)),
    decreases s.len(),
{ if s.len() > 0 { at_mute(s.drop_last(), n, p); assert(sign(s[s.len() - 1].1)); } }
/// `vec![vec![]; n]`
#[verifier::external_body]
fn no_signs(n: usize) -> (r: Vec<Vec<T>>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> (#[trigger] r@[i])@ == Seq::<T>::empty() { unimplemented!() }
/// `v[i].push(t)`
#[verifier::external_body]
fn push_at(v: &mut Vec<Vec<T>>, i: usize, t: T)
    requires i < old(v)@.len(),
    ensures final(v)@.len() == old(v)@.len(), final(v)@[i as int]@ == old(v)@[i as int]@.push(t), forall|k: int| 0 <= k < old(v)@.len() && k != i ==> final(v)@[k] == old(v)@[k],
{ unimplemented!() }
/// `v.get(i).cloned().unwrap_or_default()`
#[verifier::external_body]
fn signs_at(v: &Vec<Vec<T>>, i: usize) -> (r: Vec<T>) ensures r@ == (if i < v@.len() { v@[i as int]@ } else { Seq::<T>::empty() }) { unimplemented!() }
@fn translator/indication.rs PrecomputedIndications::translations_at
@subst self.0.get(pos).cloned().unwrap_or_default() =>> signs_at(&self.0, pos)
@spec
    ensures r@ == (if pos < self.0@.len() { self.0@[pos as int]@ } else { Seq::<T>::empty() }),
@fn translator/indication.rs Indicators::precompute loops=2 owned=pairs
@subst input.chars().count() =>> str_chars(input).len()
@subst vec![vec![]; n + 1] =>> no_signs(n + 1)
@subst in &self.0 =>> in self.0.iter()
@subst indications[pos].push(t) =>> push_at(&mut indications, pos, t)
@spec
    ensures r.0@.len() == input@.len() + 1, forall|p: int| 0 <= p <= input@.len() ==> (#[trigger] r.0@[p])@ == all_at(self.0@, input@, spans@, p) && mute(r.0@[p]@),
@loop 0
    invariant n == input@.len(), n <= isize::MAX, __i0 <= self.0@.len(), indications@.len() == n + 1,
        forall|p: int| 0 <= p <= n ==> (#[trigger] indications@[p])@ == all_at(self.0@.take(__i0 as int), input@, spans@, p) && mute(indications@[p]@),
    decreases self.0@.len() - __i0,
@loop 0 start
    let ghost b0 = indications@;
    let ghost i0 = __i0 as int;
    proof { assert(self.0@.take(i0 + 1).drop_last() =~= self.0@.take(i0)); }
@loop 1 pre
    let ghost ps = pairs@;
    proof { assert(ps == signs(self.0@[i0], input@, spans@)); assert forall|p: int| 0 <= p <= n implies (#[trigger] indications@[p])@ == b0[p]@ + at(ps.take(0), p) by { assert(at(ps.take(0), p) =~= seq![]); assert(indications@[p]@ =~= b0[p]@ + seq![]); } }
@loop 0 post
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
@loop 1
    invariant ps == __s1@, __i1 <= ps.len(), n == input@.len(), n <= isize::MAX, indications@.len() == n + 1 == b0.len(), all_upto(ps, n as int),
        forall|p: int| 0 <= p <= n ==> mute((#[trigger] b0[p])@),
        forall|p: int| 0 <= p <= n ==> (#[trigger] indications@[p])@ == b0[p]@ + at(ps.take(__i1 as int), p),
    decreases ps.len() - __i1,
@loop 1 start
    let ghost b1 = indications@;
    let ghost i1 = __i1 as int;
@loop 1 end
    proof {
        assert forall|p: int| 0 <= p <= n implies (#[trigger] indications@[p])@ == b0[p]@ + at(ps.take(i1 + 1), p) by { at_take(ps, i1, p); assert(b1[p]@ == b0[p]@ + at(ps.take(i1), p)); assert(indications@[p]@ =~= b0[p]@ + at(ps.take(i1 + 1), p)); }
    }
@loop 1 post
    proof {
        assert(ps.take(ps.len() as int) =~= ps);
        assert forall|p: int| 0 <= p <= n implies mute((#[trigger] indications@[p])@) by { at_mute(ps, n as int, p); let (c, d) = (b0[p]@, at(ps, p)); assert(indications@[p]@ == c + d); assert(mute(c) && mute(d)); assert forall|k: int| 0 <= k < (c + d).len() implies sign(#[trigger] (c + d)[k]) by { if k < c.len() { assert((c + d)[k] == c[k]); } else { assert((c + d)[k] == d[k - c.len()]); } } }
    }
