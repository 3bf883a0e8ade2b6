@include indication_types.vs
@type translator/indication/numeric.rs Indicator
@raw
/// its signs stand for no character
spec fn quiet(t: Indicator) -> bool { sign_or_none(t.start_translation) && sign_or_none(t.end_translation) }
spec fn is_num(t: Indicator, c: char) -> bool { t.numeric_chars@.contains(c) }
/// a numeric run that is under way goes on over this non-digit character
spec fn bridges(t: Indicator, s: Seq<char>, i: int) -> bool {
    ||| t.extra_numeric_chars@.contains(s[i])
    ||| t.extra_numeric_chars@ =~= Set::<char>::empty() && t.mid_numeric_chars@.contains(s[i]) && i + 1 < s.len() && is_num(t, s[i + 1])
}
/// position i is inside a numeric run or directly behind one
spec fn running(t: Indicator, s: Seq<char>, i: int) -> bool decreases i {
    i > 0 && (is_num(t, s[i - 1]) || (running(t, s, i - 1) && bridges(t, s, i - 1)))
}
/// the same, without recursion: some digit before i, only digits and bridges since
spec fn running_decl(t: Indicator, s: Seq<char>, i: int) -> bool {
    exists|d: int| 0 <= d < i && is_num(t, s[d]) && forall|j: int| d < j < i ==> is_num(t, #[trigger] s[j]) || bridges(t, s, j)
}
proof fn running_is_decl(t: Indicator, s: Seq<char>, i: int)
    requires 0 <= i <= s.len(),
    ensures running(t, s, i) <==> running_decl(t, s, i),
    decreases i
{
    if i > 0 {
        running_is_decl(t, s, i - 1);
        if running(t, s, i) {
            if is_num(t, s[i - 1]) { assert(running_decl(t, s, i)) by { let d = i - 1; assert(is_num(t, s[d])); } }
            else {
                let d = choose|d: int| 0 <= d < i - 1 && is_num(t, s[d]) && forall|j: int| d < j < i - 1 ==> is_num(t, #[trigger] s[j]) || bridges(t, s, j);
                assert(is_num(t, s[d]));
                assert forall|j: int| d < j < i implies is_num(t, #[trigger] s[j]) || bridges(t, s, j) by {}
            }
        }
        if running_decl(t, s, i) && !is_num(t, s[i - 1]) {
            let d = choose|d: int| 0 <= d < i && is_num(t, s[d]) && forall|j: int| d < j < i ==> is_num(t, #[trigger] s[j]) || bridges(t, s, j);
            assert(d < i - 1);
            assert(is_num(t, s[d]));
            assert(is_num(t, s[i - 1]) || bridges(t, s, i - 1));
            assert(running_decl(t, s, i - 1));
        }
    }
}
spec fn starts(t: Indicator, s: Seq<char>, i: int) -> bool { is_num(t, s[i]) && !running(t, s, i) }
spec fn stops(t: Indicator, s: Seq<char>, i: int) -> bool {
    running(t, s, i) && !is_num(t, s[i]) && !bridges(t, s, i) && t.terminating_chars@.contains(s[i]) && t.end_translation is Some
}
spec fn events(t: Indicator, s: Seq<char>, n: int) -> Seq<Event> decreases n {
    if n <= 0 { seq![] }
    else if starts(t, s, n - 1) { events(t, s, n - 1).push(((n - 1) as usize, t.start_translation->0)) }
    else if stops(t, s, n - 1) { events(t, s, n - 1).push(((n - 1) as usize, t.end_translation->0)) }
    else { events(t, s, n - 1) }
}
@fn translator/indication/numeric.rs Indicator::precompute loops=1
@spec
    ensures r@ == (if self.start_translation is None { Seq::<Event>::empty() } else { events(*self, input@, input@.len() as int) }),
@loop 0
    invariant
        __i0 <= chars@.len(), chars@ == input@, chars@.len() <= isize::MAX, self.start_translation is Some,
        in_numeric == running(*self, input@, __i0 as int),
        translations@ == events(*self, input@, __i0 as int),
    decreases chars@.len() - __i0,
@raw
// ---- no sign outside of the text ----
proof fn th_inside(t: Indicator, s: Seq<char>, n: int)
    requires 0 <= n <= usize::MAX, quiet(t), t.start_translation is Some,
    ensures all_upto(events(t, s, n), n),
    decreases n,
{ if n > 0 { th_inside(t, s, n - 1); } }
@type translator/indication/numeric.rs IndicatorBuilder derive=
@raw
/// what the builder has been told; its signs are signs
spec fn told(b: IndicatorBuilder) -> bool { sign_or_none(b.0.start_translation) && sign_or_none(b.0.end_translation) }
@fn translator/indication/numeric.rs IndicatorBuilder::new
@subst HashSet::default() =>> HashSet::new()
@spec
    ensures told(r), r.0.numeric_chars@ == Set::<char>::empty(), r.0.extra_numeric_chars@ == Set::<char>::empty(), r.0.mid_numeric_chars@ == Set::<char>::empty(),
        r.0.terminating_chars@ == Set::<char>::empty(), r.0.start_translation is None, r.0.end_translation is None,
@fn translator/indication/numeric.rs IndicatorBuilder::build
@subst self.0.numeric_chars.is_empty() =>> no_chars(&self.0.numeric_chars)
@spec
    requires told(self),
    ensures r is Some <==> self.0.start_translation is Some && !(self.0.numeric_chars@ =~= Set::<char>::empty()), r is Some ==> r->0 == self.0 && quiet(r->0),
@fn translator/indication/numeric.rs IndicatorBuilder::numsign
@subst ResolvedTranslation::new("", s, 1, TranslationStage::Main, origin.clone(),) =>> ResolvedTranslation::new("", s, 1, TranslationStage::Main, Some(origin.clone()))
@entry
    proof { reveal_strlit(""); }
@spec
    requires told(*old(self)),
    ensures told(*final(self)), sign_of(final(self).0.start_translation, s@, *origin), final(self).0 == (Indicator { start_translation: final(self).0.start_translation, ..old(self).0 }),
@fn translator/indication/numeric.rs IndicatorBuilder::nonumsign
@subst ResolvedTranslation::new("", s, 1, TranslationStage::Main, origin.clone(),) =>> ResolvedTranslation::new("", s, 1, TranslationStage::Main, Some(origin.clone()))
@entry
    proof { reveal_strlit(""); }
@spec
    requires told(*old(self)),
    ensures told(*final(self)), sign_of(final(self).0.end_translation, s@, *origin), final(self).0 == (Indicator { end_translation: final(self).0.end_translation, ..old(self).0 }),
@fn translator/indication/numeric.rs IndicatorBuilder::midnum
@subst self.0.mid_numeric_chars.extend(s.chars()) =>> add_chars(&mut self.0.mid_numeric_chars, s)
@spec
    requires told(*old(self)),
    ensures told(*final(self)), final(self).0.mid_numeric_chars@ == old(self).0.mid_numeric_chars@.union(s@.to_set()), final(self).0 == (Indicator { mid_numeric_chars: final(self).0.mid_numeric_chars, ..old(self).0 }),
@fn translator/indication/numeric.rs IndicatorBuilder::numericnocontchars
@subst HashSet::from_iter(s.chars()) =>> set_of(s)
@spec
    requires told(*old(self)),
    ensures told(*final(self)), final(self).0.terminating_chars@ == s@.to_set(), final(self).0 == (Indicator { terminating_chars: final(self).0.terminating_chars, ..old(self).0 }),
@fn translator/indication/numeric.rs IndicatorBuilder::numericmodechars
@subst HashSet::from_iter(s.chars()) =>> set_of(s)
@spec
    requires told(*old(self)),
    ensures told(*final(self)), final(self).0.extra_numeric_chars@ == s@.to_set(), final(self).0 == (Indicator { extra_numeric_chars: final(self).0.extra_numeric_chars, ..old(self).0 }),
@fn translator/indication/numeric.rs IndicatorBuilder::numeric_characters
@spec
    requires told(*old(self)),
    ensures told(*final(self)), final(self).0 == (Indicator { numeric_chars: chars, ..old(self).0 }),
