@include indication_types.vs
@raw
struct EmphasisSpan { class: String, range: std::ops::Range<usize> }
#[verifier::external_body]
fn is_computer_braille(s: &EmphasisSpan) -> (r: bool) ensures r == (s.class@ == "computer_braille"@) { s.class == "computer_braille" }
@type translator/indication/computer_braille.rs Indicator
@type translator/indication/computer_braille.rs IndicatorBuilder derive=
@raw
/// its signs stand for no character
spec fn quiet(t: Indicator) -> bool { sign(t.begcomp) && sign_or_none(t.endcomp) }
/// a stretch of computer braille, as far as it is in the text; empty ones do not count
spec fn stretch(s: EmphasisSpan, n: int) -> bool { s.class@ == "computer_braille"@ && s.range.start < s.range.end && s.range.start < n }
spec fn stretch_end(s: EmphasisSpan, n: int) -> int { if s.range.end < n { s.range.end as int } else { n } }
/// one sign in front of each stretch, one behind it if the table has a sign for that
spec fn stretches(t: Indicator, v: Seq<EmphasisSpan>, n: int) -> Seq<Event> decreases v.len() {
    if v.len() == 0 { seq![] } else {
        let s = v.last();
        let e = stretches(t, v.drop_last(), n);
        if !stretch(s, n) { e }
        else if t.endcomp is Some { e.push((s.range.start, t.begcomp)).push((stretch_end(s, n) as usize, t.endcomp->0)) }
        else { e.push((s.range.start, t.begcomp)) }
    }
}
@fn translator/indication/computer_braille.rs Indicator::precompute loops=1
@subst input.chars().count() =>> str_chars(input).len()
@subst in spans =>> in spans.iter()
@subst span.class != "computer_braille" =>> !is_computer_braille(span)
@subst span.range.end.min(n) =>> usize_min(span.range.end, n)
@subst result.sort_by_key(|(pos, _)| *pos) =>> sort_events(&mut result)
@spec
    ensures r@ == by_pos(stretches(*self, spans@, input@.len() as int)),
@loop 0
    invariant n == input@.len(), __i0 <= spans@.len(), result@ == stretches(*self, spans@.take(__i0 as int), n as int),
    decreases spans@.len() - __i0,
@loop 0 start
    proof { assert(spans@.take(__i0 + 1).drop_last() =~= spans@.take(__i0 as int)); }
@loop 0 post
    proof { assert(spans@.take(spans@.len() as int) =~= spans@); }
@raw
// ---- no sign outside of the text ----
proof fn th_inside(t: Indicator, v: Seq<EmphasisSpan>, n: int)
    requires 0 <= n <= usize::MAX, quiet(t),
    ensures all_upto(by_pos(stretches(t, v, n)), n),
    decreases v.len(),
{ stretches_upto(t, v, n); by_pos_upto(stretches(t, v, n), n); }
proof fn stretches_upto(t: Indicator, v: Seq<EmphasisSpan>, n: int)
    requires 0 <= n <= usize::MAX, quiet(t),
    ensures all_upto(stretches(t, v, n), n),
    decreases v.len(),
{ if v.len() > 0 { stretches_upto(t, v.drop_last(), n); } }
@fn translator/indication/computer_braille.rs make_translation
@subst origin.clone() =>> Some(origin.clone())
@entry
    proof { reveal_strlit(""); }
@spec
    ensures sign_of(Some(r), dots@, *origin),
@fn translator/indication/computer_braille.rs IndicatorBuilder::new
@spec
    ensures r.begcomp is None, r.endcomp is None,
@fn translator/indication/computer_braille.rs IndicatorBuilder::begcomp
@subst dots.to_string() =>> own(dots)
@spec
    ensures final(self).begcomp is Some, (final(self).begcomp->0).0@ == dots@, (final(self).begcomp->0).1 == *origin, final(self).endcomp == old(self).endcomp,
@fn translator/indication/computer_braille.rs IndicatorBuilder::endcomp
@subst dots.to_string() =>> own(dots)
@spec
    ensures final(self).endcomp is Some, (final(self).endcomp->0).0@ == dots@, (final(self).endcomp->0).1 == *origin, final(self).begcomp == old(self).begcomp,
@fn translator/indication/computer_braille.rs IndicatorBuilder::build optmap
@spec
    ensures r is Some <==> self.begcomp is Some,
        r is Some ==> quiet(r->0) && sign_of(Some(r->0.begcomp), (self.begcomp->0).0@, (self.begcomp->0).1)
            && (r->0.endcomp is Some <==> self.endcomp is Some) && (self.endcomp is Some ==> sign_of(r->0.endcomp, (self.endcomp->0).0@, (self.endcomp->0).1)),
