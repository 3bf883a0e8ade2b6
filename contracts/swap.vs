@include effect.vs
@raw
#[verifier::external_body]
fn own(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
fn str_append(a: &mut String, b: &String) ensures final(a)@ == old(a)@ + b@ { a.push_str(b) }
#[verifier::external_body]
fn char_string(c: char) -> (r: String) ensures r@ == seq![c] { c.to_string() }
// Stand-ins for what `resolve` only carries along
struct AnchoredRule { id: usize }
@type translator/translation.rs TranslationStage derive=Clone,Copy
@type parser.rs Precedence derive=Clone,Copy
@type translator/swap.rs Swapper
@type translator/translation.rs TranslationTarget
@type translator/translation.rs UnresolvedTranslation
@type translator/translation.rs ResolvedTranslation
@type translator/translation.rs Translation
@raw
impl Clone for TranslationTarget {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
type T = ResolvedTranslation;
/// what the class makes of one character: its partner, or itself
spec fn partner(w: Swapper, c: char) -> Seq<char> { if w.0@.contains_key(c) { w.0@[c]@ } else { seq![c] } }
spec fn swapped(w: Swapper, s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else { swapped(w, s.drop_last()) + partner(w, s.last()) }
}
/// the text an action writes for the replaced text `cap`
spec fn target_text(t: TranslationTarget, cap: Seq<char>) -> Seq<char> {
    match t {
        TranslationTarget::Literal(s) => s@,
        TranslationTarget::Capture => cap,
        TranslationTarget::Swap(w) => swapped(w, cap),
    }
}
spec fn targets_text(ts: Seq<TranslationTarget>, cap: Seq<char>) -> Seq<char> decreases ts.len() {
    if ts.len() == 0 { seq![] } else { targets_text(ts.drop_last(), cap) + target_text(ts.last(), cap) }
}
/// `to_string()` of a target; panics on anything but a literal
#[verifier::external_body]
fn literal_text(t: &TranslationTarget) -> (r: String)
    requires t is Literal,
    ensures r@ == (t->Literal_0)@,
{ unimplemented!() }
@fn translator/swap.rs Swapper::swap ret=r loops=1 collect0=Strings
@subst c . to_string ( ) =>> char_string ( c )
@spec
    ensures r@ == swapped(*self, input@),
@loop 0
    invariant __s0@ == input@, __i0 <= __s0@.len(), __acc0@ == swapped(*self, __s0@.take(__i0 as int)),
    decreases __s0@.len() - __i0,
@loop 0 end
    proof { let k = __i0 as int; assert(__s0@.take(k).drop_last() =~= __s0@.take(k - 1)); assert(__s0@.take(k).last() == __s0@[k - 1]); }
@loop 0 post
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
@fn translator/translation.rs TranslationTarget::resolve ret=r
@subst capture . to_string ( ) =>> own ( capture )
@spec
    ensures r is Literal, (r->Literal_0)@ == target_text(self, capture@),
@fn translator/translation.rs Resolve@UnresolvedTranslation::resolve ret=r loops=1 collect0=Strings
@subst t . to_string ( ) =>> literal_text ( & t )
@subst capture . to_string ( ) =>> own ( capture )
@spec
    ensures r.output@ == targets_text(self.output@, capture@), r.input@ == capture@, r.length == capture@.len(),
        r.weight == weight, r.offset == offset, r.precedence == self.precedence, r.stage == self.stage, r.effects == self.effects, r.origin == self.origin,
@loop 0
    invariant __i0 <= self.output@.len(), __acc0@ == targets_text(self.output@.take(__i0 as int), capture@),
    decreases self.output@.len() - __i0,
@loop 0 end
    proof { let k = __i0 as int; assert(self.output@.take(k).drop_last() =~= self.output@.take(k - 1)); assert(self.output@.take(k).last() == self.output@[k - 1]); }
@loop 0 post
    proof { assert(self.output@.take(self.output@.len() as int) =~= self.output@); }
@fn translator/translation.rs ResolvedTranslation::with_weight ret=r
@spec
    ensures r == (T { weight: weight, ..self }),
@fn translator/translation.rs ResolvedTranslation::with_offset ret=r
@spec
    ensures r == (T { offset: offset, ..self }),
@fn translator/translation.rs Resolve@Translation::resolve ret=r
@spec
    ensures
        r.weight == weight, r.offset == offset,
        self is Resolved ==> r == (T { weight: weight, offset: offset, ..self->Resolved_0 }),
        self is Unresolved ==> r.output@ == targets_text((self->Unresolved_0).output@, capture@) && r.input@ == capture@ && r.length == capture@.len() && r.effects == (self->Unresolved_0).effects,
@raw
/// a class leaves the characters it does not list alone and keeps one partner per listed character
proof fn th_swap_local(w: Swapper, a: Seq<char>, b: Seq<char>)
    ensures swapped(w, a + b) == swapped(w, a) + swapped(w, b),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(swapped(w, a) + seq![] =~= swapped(w, a)); }
    else {
        th_swap_local(w, a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(swapped(w, a + b) =~= swapped(w, a) + swapped(w, b));
    }
}
proof fn th_unlisted(w: Swapper, a: Seq<char>)
    requires forall|i: int| 0 <= i < a.len() ==> !w.0@.contains_key(#[trigger] a[i]),
    ensures swapped(w, a) == a,
    decreases a.len()
{ if a.len() > 0 { th_unlisted(w, a.drop_last()); assert(a.drop_last() + seq![a.last()] =~= a); } }
