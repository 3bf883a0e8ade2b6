@include common.vs
@raw
struct EmphasisSpan { class: String, range: std::ops::Range<usize> }
/// what the table's character classes say about white space
struct CharacterClasses { id: usize }
uninterp spec fn is_ws(cc: CharacterClasses, c: char) -> bool;
impl CharacterClasses {
    #[verifier::external_body]
    fn is_whitespace(&self, c: char) -> (r: bool) ensures r == is_ws(*self, c) { unimplemented!() }
}
@type translator/table/primary.rs CompbrlScanner derive=
@raw
struct Sp { class: Seq<char>, start: int, end: int }
spec fn sp(s: EmphasisSpan) -> Sp { Sp { class: s.class@, start: s.range.start as int, end: s.range.end as int } }
spec fn sps(v: Seq<EmphasisSpan>) -> Seq<Sp> { v.map_values(|s: EmphasisSpan| sp(s)) }
proof fn sps_push(v: Seq<EmphasisSpan>, s: EmphasisSpan)
    ensures sps(v.push(s)) == sps(v).push(sp(s)),
{ assert(sps(v.push(s)) =~= sps(v).push(sp(s))); }
/// `chars[pos..].iter().collect::<String>()`
#[verifier::external_body]
fn rest_of(chars: &Vec<char>, pos: usize) -> (r: String)
    requires pos <= chars@.len(),
    ensures r@ == chars@.skip(pos as int),
{ chars[pos..].iter().collect() }
#[verifier::external_body]
fn str_starts_with(s: &String, t: &String) -> (r: bool) ensures r == t@.is_prefix_of(s@) { s.starts_with(t.as_str()) }
#[verifier::external_body]
fn span_new(class: &str, start: usize, end: usize) -> (r: EmphasisSpan) ensures sp(r) == (Sp { class: class@, start: start as int, end: end as int }) { unimplemented!() }
#[verifier::external_body]
fn has_span(v: &Vec<EmphasisSpan>, s: &EmphasisSpan) -> (r: bool) ensures r == sps(v@).contains(sp(*s)) { unimplemented!() }
#[verifier::external_body]
fn copy_spans(v: &[EmphasisSpan]) -> (r: Vec<EmphasisSpan>) ensures r@ == v@ { unimplemented!() }

/// the text of a `compbrl` rule stands here
spec fn triggered(t: CompbrlScanner, w: Seq<char>, p: int) -> bool { exists|k: int| 0 <= k < t.triggers@.len() && (#[trigger] t.triggers@[k])@.is_prefix_of(w.skip(p)) }
spec fn ws(t: CompbrlScanner, c: char) -> bool { is_ws(t.character_classes, c) }
/// the word a position is in: from the white space before to the white space behind
spec fn word_from(t: CompbrlScanner, w: Seq<char>, p: int) -> int decreases p { if 0 < p <= w.len() && !ws(t, w[p - 1]) { word_from(t, w, p - 1) } else { p } }
spec fn word_to(t: CompbrlScanner, w: Seq<char>, p: int) -> int decreases w.len() - p { if 0 <= p < w.len() && !ws(t, w[p]) { word_to(t, w, p + 1) } else { p } }
spec fn word_at(t: CompbrlScanner, w: Seq<char>, p: int) -> Sp { Sp { class: "computer_braille"@, start: word_from(t, w, p), end: word_to(t, w, p) } }
spec fn once(v: Seq<Sp>, s: Sp) -> Seq<Sp> { if v.contains(s) { v } else { v.push(s) } }
spec fn larger(a: int, b: int) -> int { if a < b { b } else { a } }
spec fn left(w: Seq<char>, p: int) -> nat { if p < w.len() { (w.len() - p) as nat } else { 0 } }
/// the spans after the text from p on has been looked at
spec fn scan(t: CompbrlScanner, w: Seq<char>, v: Seq<Sp>, p: int) -> Seq<Sp> decreases left(w, p) {
    if !(0 <= p < w.len()) { v }
    else if triggered(t, w, p) { scan(t, w, once(v, word_at(t, w, p)), larger(word_to(t, w, p), p + 1)) }
    else { scan(t, w, v, p + 1) }
}
@fn translator/table/primary.rs CompbrlScanner::enrich loops=4
@subst chars[pos..].iter().collect() =>> rest_of(&chars, pos)
@subst remaining.starts_with(t.as_str()) =>> str_starts_with(&remaining, t)
@subst caller_spans.to_vec() =>> copy_spans(caller_spans)
@subst EmphasisSpan::new("computer_braille", word_start..word_end) =>> span_new("computer_braille", word_start, word_end)
@subst spans.contains(&new_span) =>> has_span(&spans, &new_span)
@subst word_end.max(pos + 1) =>> usize_max(word_end, pos + 1)
@spec
    ensures sps(r@) == scan(*self, input@, sps(caller_spans@), 0),
@loop 0
    invariant n == chars@.len(), chars@ == input@, n <= isize::MAX, pos <= n, scan(*self, input@, sps(spans@), pos as int) == scan(*self, input@, sps(caller_spans@), 0),
    decreases n - pos,
@loop 0 start
    let ghost (p0, v0) = (pos as int, spans@);
@loop 0 end
    proof { if spans@.len() > v0.len() { sps_push(v0, spans@.last()); assert(spans@ =~= v0.push(spans@.last())); } }
@loop 1
    invariant_except_break !__acc0, forall|k: int| 0 <= k < __i0 ==> !(#[trigger] self.triggers@[k])@.is_prefix_of(remaining@),
    invariant __i0 <= self.triggers@.len(), remaining@ == input@.skip(p0), pos == p0,
    ensures __acc0 == triggered(*self, input@, p0),
    decreases self.triggers@.len() - __i0,
@loop 2
    invariant word_start <= pos < n, n == chars@.len(), chars@ == input@, word_from(*self, input@, word_start as int) == word_from(*self, input@, pos as int),
    decreases word_start,
@loop 3
    invariant pos <= word_end <= n, n == chars@.len(), chars@ == input@, word_to(*self, input@, word_end as int) == word_to(*self, input@, pos as int),
    decreases n - word_end,
@raw
// ---- the spans are exactly the words with a trigger in them ----
proof fn th_words(t: CompbrlScanner, w: Seq<char>, v: Seq<Sp>, p: int)
    requires 0 <= p,
    ensures
        // nothing is lost
        forall|s: Sp| v.contains(s) ==> #[trigger] scan(t, w, v, p).contains(s),
        // what is added is the word around a trigger
        forall|s: Sp| #[trigger] scan(t, w, v, p).contains(s) ==> v.contains(s) || exists|q: int| p <= q < w.len() && triggered(t, w, q) && s == #[trigger] word_at(t, w, q),
        // and the word around every trigger that starts with something else than white space is there
        forall|q: int| p <= q < w.len() && triggered(t, w, q) && !ws(t, w[q]) ==> scan(t, w, v, p).contains(#[trigger] word_at(t, w, q)),
    decreases left(w, p),
{
    if p < w.len() {
        if triggered(t, w, p) {
            let v1 = once(v, word_at(t, w, p));
            let e = larger(word_to(t, w, p), p + 1);
            to_ahead(t, w, p);
            th_words(t, w, v1, e);
            assert(v1.contains(word_at(t, w, p))) by { if !v.contains(word_at(t, w, p)) { assert(v1.last() == word_at(t, w, p)); } }
            assert forall|s: Sp| v.contains(s) implies #[trigger] scan(t, w, v, p).contains(s) by { let i = choose|i: int| 0 <= i < v.len() && v[i] == s; assert(v1[i] == s); assert(v1.contains(s)); assert(scan(t, w, v1, e).contains(s)); assert(scan(t, w, v, p) == scan(t, w, v1, e)); }
            assert forall|s: Sp| #[trigger] scan(t, w, v, p).contains(s) implies v.contains(s) || exists|q: int| p <= q < w.len() && triggered(t, w, q) && s == #[trigger] word_at(t, w, q) by {
                assert(scan(t, w, v1, e).contains(s));
                if v1.contains(s) && !v.contains(s) { let i = choose|i: int| 0 <= i < v1.len() && v1[i] == s; if i < v.len() { assert(v[i] == s); } assert(s == word_at(t, w, p)); }
            }
            assert forall|q: int| p <= q < w.len() && triggered(t, w, q) && !ws(t, w[q]) implies scan(t, w, v, p).contains(#[trigger] word_at(t, w, q)) by {
                if q >= e { assert(scan(t, w, v1, e).contains(word_at(t, w, q))); }
                else { if q > p { same_word(t, w, p, q); } assert(scan(t, w, v1, e).contains(word_at(t, w, p))); }
            }
        } else {
            th_words(t, w, v, p + 1);
            assert forall|s: Sp| v.contains(s) implies #[trigger] scan(t, w, v, p).contains(s) by { assert(scan(t, w, v, p + 1).contains(s)); }
            assert forall|s: Sp| #[trigger] scan(t, w, v, p).contains(s) implies v.contains(s) || exists|q: int| p <= q < w.len() && triggered(t, w, q) && s == #[trigger] word_at(t, w, q) by { assert(scan(t, w, v, p + 1).contains(s)); }
            assert forall|q: int| p <= q < w.len() && triggered(t, w, q) && !ws(t, w[q]) implies scan(t, w, v, p).contains(#[trigger] word_at(t, w, q)) by { assert(q >= p + 1); assert(scan(t, w, v, p + 1).contains(word_at(t, w, q))); }
        }
    }
}
proof fn to_ahead(t: CompbrlScanner, w: Seq<char>, p: int)
    requires 0 <= p <= w.len(),
    ensures p <= word_to(t, w, p) <= w.len(), forall|j: int| p <= j < word_to(t, w, p) ==> !ws(t, #[trigger] w[j]), word_to(t, w, p) < w.len() ==> ws(t, w[word_to(t, w, p)]),
    decreases w.len() - p,
{ if p < w.len() && !ws(t, w[p]) { to_ahead(t, w, p + 1); } }
/// positions of one word
proof fn same_word(t: CompbrlScanner, w: Seq<char>, p: int, q: int)
    requires 0 <= p <= q < word_to(t, w, p), p < w.len(),
    ensures word_at(t, w, p) == word_at(t, w, q),
    decreases q - p,
{
    to_ahead(t, w, p);
    if p < q { assert(!ws(t, w[p])); assert(word_from(t, w, p + 1) == word_from(t, w, p)); assert(word_to(t, w, p) == word_to(t, w, p + 1)); same_word(t, w, p + 1, q); }
}
