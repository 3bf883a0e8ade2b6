@include word_trie.vs
@raw
spec fn insert_ev(s: Seq<Event>, e: Event) -> Seq<Event> decreases s.len() {
    if s.len() == 0 || s.last().0 <= e.0 { s.push(e) } else { insert_ev(s.drop_last(), e).push(s.last()) }
}
/// the stable sort by position
spec fn by_pos(s: Seq<Event>) -> Seq<Event> decreases s.len() {
    if s.len() == 0 { seq![] } else { insert_ev(by_pos(s.drop_last()), s.last()) }
}
/// `v.sort_by_key(|(pos, _)| *pos)`
#[verifier::external_body]
fn sort_events(v: &mut Vec<Event>)
    ensures final(v)@ == by_pos(old(v)@),
{ v.sort_by_key(|(pos, _)| *pos) }
/// the elements of a set, each once, in some order
#[verifier::external_body]
fn set_list(s: HashSet<usize>) -> (r: Vec<usize>)
    ensures r@.no_duplicates(), forall|x: usize| #[trigger] s@.contains(x) <==> exists|i: int| 0 <= i < r@.len() && #[trigger] r@[i] == x,
{ s.into_iter().collect() }
/// `set.extend(s.chars())`
#[verifier::external_body]
fn add_chars(v: &mut HashSet<char>, s: &str) ensures final(v)@ == old(v)@.union(s@.to_set()) { v.extend(s.chars()) }
/// `.iter().filter_map(|class| cc.get(class)).flatten().collect()`
trait ClassList { spec fn listed(&self) -> Seq<CharacterClass>; fn members_of(&self, cc: &CharacterClasses) -> (r: HashSet<char>) ensures r@ == union(*cc, self.listed()); }
impl<const N: usize> ClassList for [CharacterClass; N] {
    spec fn listed(&self) -> Seq<CharacterClass> { self@ }
    #[verifier::external_body]
    fn members_of(&self, cc: &CharacterClasses) -> (r: HashSet<char>) { unimplemented!() }
}
/// `.into_iter().flatten().collect()` of an optional set
trait OrEmpty: Sized { spec fn set(&self) -> Set<char>; fn or_empty(self) -> (r: HashSet<char>) ensures r@ == self.set(); }
impl OrEmpty for Option<HashSet<char>> {
    spec fn set(&self) -> Set<char> { match *self { Some(s) => s@, None => Set::empty() } }
    #[verifier::external_body]
    fn or_empty(self) -> (r: HashSet<char>) { self.unwrap_or_default() }
}
@type translator/indication/lettersign.rs IndicatorBuilder derive= retype=contractions:HashMap<String,AnchoredRule>=>Texts
@type translator/indication/lettersign.rs Indicator derive=
@fn translator/indication/lettersign.rs IndicatorBuilder::new
@subst HashMap::new() =>> Texts::new()
@spec
    ensures r.lettersign is None, r.contractions@ == Set::<Seq<char>>::empty(), r.noletsign_chars@ == Set::<char>::empty(), r.noletsignafter_chars@ == Set::<char>::empty(), r.noletsignbefore_chars@ == Set::<char>::empty(),
@fn translator/indication/lettersign.rs IndicatorBuilder::letsign
@subst s.to_string() =>> own(s)
@spec
    ensures final(self).lettersign is Some, (final(self).lettersign->0).0@ == s@, (final(self).lettersign->0).1 == *origin,
        *final(self) == (IndicatorBuilder { lettersign: final(self).lettersign, ..*old(self) }),
@fn translator/indication/lettersign.rs IndicatorBuilder::contraction
@subst s.to_string() =>> own(s)
@spec
    ensures final(self).contractions@ == old(self).contractions@.insert(s@),
        *final(self) == (IndicatorBuilder { contractions: final(self).contractions, ..*old(self) }),
@fn translator/indication/lettersign.rs IndicatorBuilder::noletsign
@subst self.noletsign_chars.extend(s.chars()) =>> add_chars(&mut self.noletsign_chars, s)
@spec
    ensures final(self).noletsign_chars@ == old(self).noletsign_chars@.union(s@.to_set()),
        *final(self) == (IndicatorBuilder { noletsign_chars: final(self).noletsign_chars, ..*old(self) }),
@fn translator/indication/lettersign.rs IndicatorBuilder::noletsignafter
@subst self.noletsignafter_chars.extend(s.chars()) =>> add_chars(&mut self.noletsignafter_chars, s)
@spec
    ensures final(self).noletsignafter_chars@ == old(self).noletsignafter_chars@.union(s@.to_set()),
        *final(self) == (IndicatorBuilder { noletsignafter_chars: final(self).noletsignafter_chars, ..*old(self) }),
@fn translator/indication/lettersign.rs IndicatorBuilder::noletsignbefore
@subst self.noletsignbefore_chars.extend(s.chars()) =>> add_chars(&mut self.noletsignbefore_chars, s)
@spec
    ensures final(self).noletsignbefore_chars@ == old(self).noletsignbefore_chars@.union(s@.to_set()),
        *final(self) == (IndicatorBuilder { noletsignbefore_chars: final(self).noletsignbefore_chars, ..*old(self) }),
@fn translator/indication/lettersign.rs IndicatorBuilder::build loops=1 owned=self.contractions.entries()
@subst ResolvedTranslation::new("", &lettersign, 1, TranslationStage::Main, origin.clone()) =>> ResolvedTranslation::new("", &lettersign, 1, TranslationStage::Main, Some(origin.clone()))
@subst in self.contractions =>> in self.contractions.entries()
@subst .iter().filter_map(|class| cc.get(class)).flatten().collect() =>> .members_of(cc)
@subst .into_iter().flatten().collect() =>> .or_empty()
@spec
    requires forall|c: Seq<char>| self.contractions@.contains(c) ==> c.len() > 0,
    ensures
        r is Some <==> self.lettersign is Some,
        r is Some ==> {
            &&& r->0.start_translation.input@.len() == 0 && r->0.start_translation.length == 0 && r->0.start_translation.output@ == (self.lettersign->0).0@
            &&& r->0.start_translation.effects@.len() == 0 && r->0.start_translation.origin == Some((self.lettersign->0).1) && r->0.start_translation.stage is Main
            &&& forall|w: Seq<char>, prev: Option<char>| #[trigger] hits(r->0.contractions, w, prev) <==> some_word(classes(*ctx), self.contractions@, w, prev)
            &&& forall|c: char| r->0.letter_chars@.contains(c) <==> members(classes(*ctx), CharacterClass::Letter).contains(c) || members(classes(*ctx), CharacterClass::Uppercase).contains(c) || members(classes(*ctx), CharacterClass::Lowercase).contains(c)
            &&& r->0.space_chars@ =~= members(classes(*ctx), CharacterClass::Space)
            &&& r->0.noletsign_chars == self.noletsign_chars && r->0.noletsignafter_chars == self.noletsignafter_chars && r->0.noletsignbefore_chars == self.noletsignbefore_chars
        },
@entry
    let ghost b = self;
    proof { reveal_strlit(""); reveal_with_fuel(union, 4); }
@loop 0 pre
    let ghost x = classes(*ctx);
@loop 0
    invariant trie_cx(trie) == x, __i0 <= __s0@.len(), word_boundary@ == bounds(),
        forall|i: int| 0 <= i < __s0@.len() ==> (#[trigger] __s0@[i]).0@.len() > 0,
        forall|w: Seq<char>, prev: Option<char>| #[trigger] hits(trie, w, prev) <==> some_of(x, __s0@.take(__i0 as int), w, prev),
    decreases __s0@.len() - __i0,
@loop 0 start
    let ghost t0 = trie;
    let ghost i0 = __i0 as int;
    let ghost (l, l1) = (__s0@.take(i0), __s0@.take(i0 + 1));
@loop 0 end
    proof {
        assert(bounds().contains(CharacterClass::Space)) by { assert(bounds()[0] == CharacterClass::Space); }
        assert forall|w: Seq<char>, prev: Option<char>| #[trigger] hits(trie, w, prev) <==> some_of(x, l1, w, prev) by {
            assert(l1[i0] == __s0@[i0]);
            assert(hits(t0, w, prev) <==> some_of(x, l, w, prev));
            if some_of(x, l, w, prev) { let i = choose|i: int| 0 <= i < l.len() && whole_word(x, (#[trigger] l[i]).0@, w, prev); assert(l1[i] == l[i]); }
            if some_of(x, l1, w, prev) { let i = choose|i: int| 0 <= i < l1.len() && whole_word(x, (#[trigger] l1[i]).0@, w, prev); if i < i0 { assert(l1[i] == l[i]); } }
        }
    }
@loop 0 post
    proof {
        assert(__s0@.take(__s0@.len() as int) =~= __s0@);
        assert forall|w: Seq<char>, prev: Option<char>| #[trigger] hits(trie, w, prev) <==> some_word(x, b.contractions@, w, prev) by { some_of_is(x, b.contractions@, __s0@, w, prev); }
    }
@fn translator/indication/lettersign.rs Indicator::next
@subst translations.first().unwrap() =>> &translations[0]
@spec
    ensures r is Some <==> hits(self.contractions, s@, prev),
@raw
spec fn letter(t: Indicator, c: char) -> bool { t.letter_chars@.contains(c) }
spec fn at(w: Seq<char>, i: int) -> Option<char> { if 0 <= i < w.len() { Some(w[i]) } else { None } }
/// a letter with no letter behind it and neither a space nor a letter in front of it
spec fn isolated(t: Indicator, w: Seq<char>, i: int) -> bool {
    let (prev, next) = (before(w, i), at(w, i + 1));
    &&& letter(t, w[i]) && !t.noletsign_chars@.contains(w[i])
    &&& !(prev is Some && (t.noletsignafter_chars@.contains(prev->0) || t.space_chars@.contains(prev->0) || letter(t, prev->0)))
    &&& !(next is Some && (t.noletsignbefore_chars@.contains(next->0) || letter(t, next->0)))
}
/// a contraction stands here as a word
spec fn contracted(t: Indicator, w: Seq<char>, i: int) -> bool { !t.noletsign_chars@.contains(w[i]) && hits(t.contractions, w.skip(i), before(w, i)) }
spec fn fires(t: Indicator, w: Seq<char>, i: int) -> bool { isolated(t, w, i) || contracted(t, w, i) }
/// one sign in front of each of these
spec fn signs(t: Indicator, w: Seq<char>, n: int) -> Seq<Event> decreases n {
    if n <= 0 { seq![] } else if fires(t, w, n - 1) { signs(t, w, n - 1).push(((n - 1) as usize, t.start_translation)) } else { signs(t, w, n - 1) }
}
proof fn th_inside(t: Indicator, w: Seq<char>, n: int)
    requires 0 <= n <= usize::MAX,
    ensures forall|i: int| 0 <= i < signs(t, w, n).len() ==> (#[trigger] signs(t, w, n)[i]).0 < n && signs(t, w, n)[i].1 == t.start_translation,
    decreases n,
{ if n > 0 { th_inside(t, w, n - 1); } }
// ---- a list of events at different positions has one sorted form ----
spec fn strictly(s: Seq<Event>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0 }
spec fn distinct(s: Seq<Event>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 }
spec fn is_in(s: Seq<Event>, e: Event) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == e }
proof fn in_push(s: Seq<Event>, e: Event)
    ensures forall|x: Event| #[trigger] is_in(s.push(e), x) <==> is_in(s, x) || x == e,
{
    let q = s.push(e);
    assert forall|x: Event| #[trigger] is_in(q, x) <==> is_in(s, x) || x == e by {
        if is_in(s, x) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == x; assert(q[i] == x); }
        if x == e { assert(q[s.len() as int] == x); }
        if is_in(q, x) { let i = choose|i: int| 0 <= i < q.len() && #[trigger] q[i] == x; if i < s.len() { assert(s[i] == x); } }
    }
}
proof fn insert_keeps(s: Seq<Event>, e: Event)
    requires strictly(s), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 != e.0,
    ensures strictly(insert_ev(s, e)), forall|x: Event| #[trigger] is_in(insert_ev(s, e), x) <==> is_in(s, x) || x == e,
    decreases s.len(),
{
    if s.len() == 0 || s.last().0 <= e.0 {
        in_push(s, e);
        assert forall|i: int, j: int| 0 <= i < j < s.push(e).len() implies (#[trigger] s.push(e)[i]).0 < (#[trigger] s.push(e)[j]).0 by { if j == s.len() { assert(s[i].0 <= s.last().0); assert(s[i].0 != e.0); } else { assert(s[i].0 < s[j].0); } }
    } else {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).0 != e.0 by { assert(s[i].0 != e.0); }
        assert(strictly(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0 < (#[trigger] d[j]).0 by { assert(s[i].0 < s[j].0); } }
        insert_keeps(d, e);
        let r = insert_ev(d, e);
        in_push(r, s.last());
        in_push(d, s.last());
        assert(d.push(s.last()) =~= s);
        assert forall|i: int, j: int| 0 <= i < j < r.push(s.last()).len() implies (#[trigger] r.push(s.last())[i]).0 < (#[trigger] r.push(s.last())[j]).0 by {
            if j == r.len() { assert(is_in(r, r[i])); if r[i] != e { let k = choose|k: int| 0 <= k < d.len() && #[trigger] d[k] == r[i]; assert(s[k].0 < s[s.len() - 1].0); } } else { assert(r[i].0 < r[j].0); }
        }
    }
}
proof fn by_pos_keeps(s: Seq<Event>)
    requires distinct(s),
    ensures strictly(by_pos(s)), forall|x: Event| #[trigger] is_in(by_pos(s), x) <==> is_in(s, x),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert(distinct(d)) by { assert forall|i: int, j: int| 0 <= i < d.len() && 0 <= j < d.len() && i != j implies (#[trigger] d[i]).0 != (#[trigger] d[j]).0 by { assert(s[i].0 != s[j].0); } }
        by_pos_keeps(d);
        let b = by_pos(d);
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).0 != s.last().0 by { assert(is_in(b, b[i])); let k = choose|k: int| 0 <= k < d.len() && #[trigger] d[k] == b[i]; assert(s[k].0 != s[s.len() - 1].0); }
        insert_keeps(b, s.last());
        in_push(d, s.last());
        assert(d.push(s.last()) =~= s);
    }
}
proof fn one_order(a: Seq<Event>, b: Seq<Event>)
    requires strictly(a), strictly(b), forall|x: Event| is_in(a, x) <==> is_in(b, x),
    ensures a == b,
    decreases a.len(),
{
    if a.len() == 0 { if b.len() > 0 { assert(is_in(b, b[0])); assert(is_in(a, b[0])); } assert(a =~= b); }
    else {
        let (x, n) = (a.last(), a.len() - 1);
        assert(a[n] == x); assert(is_in(a, x)); assert(is_in(b, x));
        let (y, m) = (b.last(), b.len() - 1);
        assert(b[m] == y); assert(is_in(b, y)); assert(is_in(a, y));
        let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j] == x;
        let k = choose|k: int| 0 <= k < a.len() && #[trigger] a[k] == y;
        if j < m { assert(b[j].0 < b[m].0); }
        if k < n { assert(a[k].0 < a[n].0); }
        assert(j == m && k == n);
        let (c, d) = (a.drop_last(), b.drop_last());
        assert(strictly(c)) by { assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i]).0 < (#[trigger] c[j]).0 by { assert(a[i].0 < a[j].0); } }
        assert(strictly(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0 < (#[trigger] d[j]).0 by { assert(b[i].0 < b[j].0); } }
        in_push(c, x); in_push(d, x);
        assert(c.push(x) =~= a); assert(d.push(x) =~= b);
        assert forall|e: Event| is_in(c, e) <==> is_in(d, e) by {
            if e == x {
                if is_in(c, x) { let i = choose|i: int| 0 <= i < c.len() && #[trigger] c[i] == x; assert(a[i].0 < a[n].0); }
                if is_in(d, x) { let i = choose|i: int| 0 <= i < d.len() && #[trigger] d[i] == x; assert(b[i].0 < b[m].0); }
            } else { assert(is_in(a, e) <==> is_in(b, e)); }
        }
        one_order(c, d);
    }
}
proof fn signs_are(t: Indicator, w: Seq<char>, n: int)
    requires 0 <= n <= usize::MAX,
    ensures strictly(signs(t, w, n)), forall|x: Event| #[trigger] is_in(signs(t, w, n), x) <==> x.0 < n && fires(t, w, x.0 as int) && x.1 == t.start_translation,
    decreases n,
{
    if n > 0 {
        signs_are(t, w, n - 1);
        let s = signs(t, w, n - 1);
        th_inside(t, w, n - 1);
        in_push(s, ((n - 1) as usize, t.start_translation));
        assert forall|i: int, j: int| 0 <= i < j < signs(t, w, n).len() implies (#[trigger] signs(t, w, n)[i]).0 < (#[trigger] signs(t, w, n)[j]).0 by { if j < s.len() { assert(s[i].0 < s[j].0); } else { assert(s[i].0 < n - 1); } }
    }
}
@fn translator/indication/lettersign.rs Indicator::precompute loops=3 owned_iter owned=char_places(input)
@subst input.char_indices() =>> char_places(input)
@subst &input[byte_pos..] =>> str_tail(input, byte_pos)
@subst fire.into_iter() =>> set_list(fire).into_iter()
@subst result.sort_by_key(|(pos, _)| *pos) =>> sort_events(&mut result)
@spec
    ensures r@ == signs(*self, input@, input@.len() as int),
@loop 0
    invariant __i0 <= chars@.len(), chars@ == input@, n == chars@.len(), n <= isize::MAX,
        forall|x: usize| #[trigger] fire@.contains(x) <==> x < __i0 && isolated(*self, input@, x as int),
    decreases chars@.len() - __i0,
@loop 1 pre
    let ghost f0 = fire@;
@loop 1
    invariant __i1 <= __s1@.len() == input@.len(), input@.len() <= isize::MAX, char_pos == __i1, prev == before(input@, __i1 as int),
        forall|i: int| 0 <= i < input@.len() ==> #[trigger] __s1@[i] == (byte_off(input@, i), input@[i]),
        forall|x: usize| #[trigger] fire@.contains(x) <==> f0.contains(x) || x < __i1 && contracted(*self, input@, x as int),
    decreases __s1@.len() - __i1,
@loop 1 start
    let ghost g1 = fire@;
    let ghost i1 = __i1 as int;
    proof { assert(__s1@[i1] == (byte_off(input@, i1), input@[i1])); }
@loop 1 end
    proof {
        assert(fire@ =~= if contracted(*self, input@, i1) { g1.insert(i1 as usize) } else { g1 });
        assert forall|x: usize| #[trigger] fire@.contains(x) <==> f0.contains(x) || x < i1 + 1 && contracted(*self, input@, x as int) by { assert(g1.contains(x) <==> f0.contains(x) || x < i1 && contracted(*self, input@, x as int)); }
    }
@loop 1 post
    proof { assert forall|x: usize| #[trigger] fire@.contains(x) <==> x < input@.len() && fires(*self, input@, x as int) by { assert(f0.contains(x) <==> x < input@.len() && isolated(*self, input@, x as int)); } }
@loop 2
    invariant __i2 <= __s2@.len(), __acc2@.len() == __i2, forall|i: int| 0 <= i < __i2 ==> #[trigger] __acc2@[i] == (__s2@[i], self.start_translation),
    decreases __s2@.len() - __i2,
@loop 2 post
    proof {
        assert forall|x: usize| (exists|i: int| 0 <= i < __s2@.len() && #[trigger] __s2@[i] == x) <==> #[trigger] fires(*self, input@, x as int) && x < input@.len() by { assert(fire@.contains(x) <==> x < input@.len() && fires(*self, input@, x as int)); }
        let s = __acc2@;
        assert(distinct(s)) by { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by { assert(__s2@[i] != __s2@[j]); } }
        by_pos_keeps(s);
        signs_are(*self, input@, input@.len() as int);
        let g = signs(*self, input@, input@.len() as int);
        assert forall|x: Event| is_in(by_pos(s), x) <==> is_in(g, x) by {
            if is_in(s, x) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == x; assert(s[i] == (__s2@[i], self.start_translation)); assert(__s2@[i] == x.0); let p = __s2@[i]; assert(fire@.contains(p)); assert(fires(*self, input@, p as int)); assert(fires(*self, input@, x.0 as int) && x.0 < input@.len()); assert(is_in(g, x)); }
            assert(is_in(by_pos(s), x) <==> is_in(s, x)); assert(is_in(g, x) <==> x.0 < input@.len() && fires(*self, input@, x.0 as int) && x.1 == self.start_translation);
            if is_in(g, x) { assert(fires(*self, input@, x.0 as int)); let i = choose|i: int| 0 <= i < __s2@.len() && #[trigger] __s2@[i] == x.0; assert(s[i] == (__s2@[i], self.start_translation)); assert(s[i] == x); assert(is_in(s, x)); }
        }
        one_order(by_pos(s), g);
    }
