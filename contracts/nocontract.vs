@include word_trie.vs
@type translator/indication/nocontract.rs IndicatorBuilder derive= retype=contractions:HashMap<String,AnchoredRule>=>Texts
@type translator/indication/nocontract.rs Indicator derive=
@fn translator/indication/nocontract.rs IndicatorBuilder::new
@subst HashMap::new() =>> Texts::new()
@spec
    ensures r.nocontractsign is None, r.contractions@ == Set::<Seq<char>>::empty(),
@fn translator/indication/nocontract.rs IndicatorBuilder::nocontractsign
@subst s.to_string() =>> own(s)
@spec
    ensures final(self).nocontractsign is Some, (final(self).nocontractsign->0).0@ == s@, (final(self).nocontractsign->0).1 == *origin, final(self).contractions == old(self).contractions,
@fn translator/indication/nocontract.rs IndicatorBuilder::contraction
@subst s.to_string() =>> own(s)
@spec
    ensures final(self).nocontractsign == old(self).nocontractsign, final(self).contractions@ == old(self).contractions@.insert(s@),
@fn translator/indication/nocontract.rs IndicatorBuilder::build loops=1 owned=self.contractions.entries()
@subst ResolvedTranslation::new("", &nocontractsign, 1, TranslationStage::Main, origin.clone(),) =>> ResolvedTranslation::new("", &nocontractsign, 1, TranslationStage::Main, Some(origin.clone()))
@subst in self.contractions =>> in self.contractions.entries()
@spec
    requires forall|c: Seq<char>| self.contractions@.contains(c) ==> c.len() > 0,
    ensures
        // a sign and something to signal
        r is Some <==> self.nocontractsign is Some && exists|c: Seq<char>| self.contractions@.contains(c),
        r is Some ==> {
            &&& r->0.start_translation.input@.len() == 0 && r->0.start_translation.length == 0 && r->0.start_translation.output@ == (self.nocontractsign->0).0@
            &&& r->0.start_translation.effects@.len() == 0 && r->0.start_translation.origin == Some((self.nocontractsign->0).1) && r->0.start_translation.stage is Main
            &&& forall|w: Seq<char>, prev: Option<char>| #[trigger] hits(r->0.contractions, w, prev) <==> some_word(classes(*ctx), self.contractions@, w, prev)
        },
@entry
    let ghost b = self;
    proof { reveal_strlit(""); }
@loop 0 pre
    let ghost x = classes(*ctx);
@loop 0
    invariant trie_cx(trie) == x, __i0 <= __s0@.len(), word_boundary@ == bounds(),
        forall|i: int| 0 <= i < __s0@.len() ==> (#[trigger] __s0@[i]).0@.len() > 0,
        forall|w: Seq<char>, prev: Option<char>| #[trigger] hits(trie, w, prev) <==> some_of(x, __s0@.take(__i0 as int), w, prev),
    decreases __s0@.len() - __i0,
@loop 0 start
    let ghost t0 = trie;
    let ghost i0 = __i0 as int;
    let ghost (l, l1) = (__s0@.take(i0), __s0@.take(i0 + 1));
@loop 0 end
    proof {
        assert(bounds().contains(CharacterClass::Space)) by { assert(bounds()[0] == CharacterClass::Space); }
        assert forall|w: Seq<char>, prev: Option<char>| #[trigger] hits(trie, w, prev) <==> some_of(x, l1, w, prev) by {
            assert(l1[i0] == __s0@[i0]);
            assert(hits(t0, w, prev) <==> some_of(x, l, w, prev));
            if some_of(x, l, w, prev) { let i = choose|i: int| 0 <= i < l.len() && whole_word(x, (#[trigger] l[i]).0@, w, prev); assert(l1[i] == l[i]); }
            if some_of(x, l1, w, prev) { let i = choose|i: int| 0 <= i < l1.len() && whole_word(x, (#[trigger] l1[i]).0@, w, prev); if i < i0 { assert(l1[i] == l[i]); } }
        }
    }
@loop 0 post
    proof {
        assert(__s0@.take(__s0@.len() as int) =~= __s0@);
        assert forall|w: Seq<char>, prev: Option<char>| #[trigger] hits(trie, w, prev) <==> some_word(x, b.contractions@, w, prev) by { some_of_is(x, b.contractions@, __s0@, w, prev); }
    }
@fn translator/indication/nocontract.rs Indicator::next
@subst translations.first().unwrap() =>> &translations[0]
@spec
    ensures r is Some <==> hits(self.contractions, s@, prev),
@raw
/// one sign in front of every contraction that stands as a word
spec fn signs(t: Indicator, w: Seq<char>, n: int) -> Seq<Event> decreases n {
    if n <= 0 { seq![] } else if hits(t.contractions, w.skip(n - 1), before(w, n - 1)) { signs(t, w, n - 1).push(((n - 1) as usize, t.start_translation)) } else { signs(t, w, n - 1) }
}
@fn translator/indication/nocontract.rs Indicator::precompute loops=1 owned=char_places(input)
@subst input.char_indices() =>> char_places(input)
@subst &input[byte_pos..] =>> str_tail(input, byte_pos)
@spec
    ensures r@ == signs(*self, input@, input@.len() as int),
@loop 0
    invariant __i0 <= __s0@.len() == input@.len(), input@.len() <= isize::MAX, char_pos == __i0, prev == before(input@, __i0 as int),
        forall|i: int| 0 <= i < input@.len() ==> #[trigger] __s0@[i] == (byte_off(input@, i), input@[i]),
        translations@ == signs(*self, input@, __i0 as int),
    decreases __s0@.len() - __i0,
@raw
// ---- no sign outside of the text ----
proof fn th_inside(t: Indicator, w: Seq<char>, n: int)
    requires 0 <= n <= usize::MAX,
    ensures forall|i: int| 0 <= i < signs(t, w, n).len() ==> (#[trigger] signs(t, w, n)[i]).0 < n && signs(t, w, n)[i].1 == t.start_translation,
    decreases n,
{ if n > 0 { th_inside(t, w, n - 1); } }
