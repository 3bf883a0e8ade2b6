@include trace_types.vs
@type translator/position_constraints.rs PositionConstraints
@raw
spec fn at(p: PositionConstraints, pos: int, c: Constraint) -> bool { 0 <= pos < p.0@.len() && has(p.0@, pos, c) }
@fn translator/position_constraints.rs PositionConstraints::dont_contract_at
@spec
    ensures r == at(*self, pos as int, Constraint::DontContract),
@fn translator/position_constraints.rs PositionConstraints::use_comp6_at
@spec
    ensures r == at(*self, pos as int, Constraint::UseComp6),
@fn translator/position_constraints.rs PositionConstraints::uppercase_at
@spec
    ensures r == at(*self, pos as int, Constraint::Uppercase),
@fn translator/position_constraints.rs PositionConstraints::titlecase_at
@spec
    ensures r == at(*self, pos as int, Constraint::TitleCase),
@fn translator/position_constraints.rs PositionConstraints::prefer_digit_at
@spec
    ensures r == at(*self, pos as int, Constraint::PreferDigit),
@fn translator/position_constraints.rs PositionConstraints::hyphenation_break_at
@spec
    ensures r == at(*self, pos as int, Constraint::HyphenationBreak),
@fn translator/position_constraints.rs PositionConstraints::prepunc_ok_at
@spec
    ensures r == at(*self, pos as int, Constraint::PrepuncOk),
@fn translator/position_constraints.rs PositionConstraints::postpunc_ok_at
@spec
    ensures r == at(*self, pos as int, Constraint::PostpuncOk),
@raw
// ---- the parts of a table the loop consults; their own contracts are assumed here ----
#[verifier::external_body]
struct Trie { id: usize }
uninterp spec fn trie_find(t: Trie, rest: Seq<char>, prev: Option<char>) -> Seq<T>;
impl Trie {
    #[verifier::external_body]
    fn find_translations(&self, input: &str, prev: Option<char>) -> (r: Vec<T>)
        ensures r@ == trie_find(*self, input@, prev)
    { unimplemented!() }
}
#[verifier::external_body]
struct MatchPatterns { id: usize }
uninterp spec fn match_find(t: MatchPatterns, rest: Seq<char>, at_start: bool) -> Seq<T>;
impl MatchPatterns {
    #[verifier::external_body]
    fn find(&self, input: &str, at_start: bool) -> (r: Vec<T>)
        ensures r@ == match_find(*self, input@, at_start)
    { unimplemented!() }
}
#[verifier::external_body]
struct ContextPatterns { id: usize }
uninterp spec fn ctx_find(t: ContextPatterns, rest: Seq<char>, env: Environment, at_start: bool) -> Seq<T>;
impl ContextPatterns {
    #[verifier::external_body]
    fn find(&self, input: &str, env: &Environment, at_start: bool) -> (r: Vec<T>)
        ensures r@ == ctx_find(*self, input@, *env, at_start)
    { unimplemented!() }
}
#[verifier::external_body]
struct Indicators { id: usize }
#[verifier::external_body]
struct PrecomputedIndications { id: usize }
uninterp spec fn indications_at(i: PrecomputedIndications, pos: nat) -> Seq<T>;
uninterp spec fn indications_of(i: Indicators, w: Seq<char>, spans: Seq<EmphasisSpan>) -> PrecomputedIndications;
impl PrecomputedIndications {
    #[verifier::external_body]
    fn translations_at(&self, pos: usize) -> (r: Vec<T>) ensures r@ == indications_at(*self, pos as nat) { unimplemented!() }
}
impl Indicators {
    #[verifier::external_body]
    fn precompute(&self, input: &str, spans: &Vec<EmphasisSpan>) -> (r: PrecomputedIndications)
        ensures r == indications_of(*self, input@, spans@), forall|p: nat, i: int| 0 <= i < indications_at(r, p).len() ==> (#[trigger] indications_at(r, p)[i]).length == 0,
    { unimplemented!() }
}
#[verifier::external_body]
struct Constrainers { id: usize }
uninterp spec fn constraints_of(i: Constrainers, w: Seq<char>, spans: Seq<EmphasisSpan>) -> PositionConstraints;
impl Constrainers {
    #[verifier::external_body]
    fn precompute(&self, input: &str, spans: &Vec<EmphasisSpan>) -> (r: PositionConstraints) ensures r == constraints_of(*self, input@, spans@) { unimplemented!() }
}
#[verifier::external_body]
struct CompbrlScanner { id: usize }
uninterp spec fn enriched(s: CompbrlScanner, w: Seq<char>, spans: Seq<EmphasisSpan>) -> Seq<EmphasisSpan>;
impl CompbrlScanner {
    #[verifier::external_body]
    fn enrich(&self, input: &str, spans: &Vec<EmphasisSpan>) -> (r: Vec<EmphasisSpan>) ensures r@ == enriched(*self, input@, spans@) { unimplemented!() }
}
struct TranslationOptions { emphasis: Vec<EmphasisSpan> }
impl TranslationOptions {
    fn emphasis(&self) -> (r: &Vec<EmphasisSpan>) ensures *r == self.emphasis { &self.emphasis }
}
#[verifier::external_body]
fn spans_to_vec(s: &Vec<EmphasisSpan>) -> (r: Vec<EmphasisSpan>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
struct CharacterDefinition { id: usize }
uninterp spec fn escape_of(t: PrimaryTable, c: char) -> Seq<char>;
@type translator/table/primary.rs CharacterTranslation
@fn translator/table/primary.rs CharacterTranslation::get
@spec
    ensures r == (if self.0@.contains_key(*from) { Some(&self.0@[*from]) } else { None }),
@type translator/table/primary.rs PrimaryTable
@raw
impl PrimaryTable {
    /// contract of its own: C09
    #[verifier::external_body]
    fn handle_undefined_char(&self, ch: char) -> (r: String) ensures r@ == escape_of(*self, ch) { unimplemented!() }
}

/// what the builder guarantees about the stored translations (assumed: the builder and `Trie::insert` are not under contract)
spec fn fits(t: T, rest: Seq<char>) -> bool { t.offset + t.length <= rest.len() }
uninterp spec fn zero_universe(tb: PrimaryTable, w: Seq<char>) -> Set<Sub>;
#[verifier::opaque]
spec fn wf_nocross(tb: PrimaryTable) -> bool {
    forall|rest: Seq<char>, prev: Option<char>, i: int| 0 <= i < trie_find(tb.nocross_trie, rest, prev).len() ==> { let t = #[trigger] trie_find(tb.nocross_trie, rest, prev)[i]; t.offset == 0 && 0 < t.length <= rest.len() }
}
#[verifier::opaque]
spec fn wf(tb: PrimaryTable, w: Seq<char>) -> bool {
    // a trie path has at least one character, and no look-behind pattern
    &&& forall|rest: Seq<char>, prev: Option<char>, i: int| 0 <= i < trie_find(tb.trie, rest, prev).len() ==> { let t = #[trigger] trie_find(tb.trie, rest, prev)[i]; t.offset == 0 && 0 < t.length <= rest.len() }
    &&& wf_nocross(tb)
    &&& forall|rest: Seq<char>, prev: Option<char>, i: int| 0 <= i < trie_find(tb.comp6_trie, rest, prev).len() ==> { let t = #[trigger] trie_find(tb.comp6_trie, rest, prev)[i]; t.offset == 0 && 0 < t.length <= rest.len() }
    &&& forall|rest: Seq<char>, b: bool, i: int| 0 <= i < match_find(tb.match_patterns, rest, b).len() ==> fits(#[trigger] match_find(tb.match_patterns, rest, b)[i], rest)
    &&& forall|rest: Seq<char>, e: Environment, b: bool, i: int| 0 <= i < ctx_find(tb.context_patterns, rest, e, b).len() ==> fits(#[trigger] ctx_find(tb.context_patterns, rest, e, b)[i], rest)
    // the zero-length results over all positions of the text come from one (finite) set

    &&& forall|p: int, b: bool, i: int| 0 <= p <= w.len() && 0 <= i < match_find(tb.match_patterns, w.skip(p), b).len() ==> zero_ok(tb, w, #[trigger] match_find(tb.match_patterns, w.skip(p), b)[i])
    &&& forall|p: int, e: Environment, b: bool, i: int| 0 <= p <= w.len() && 0 <= i < ctx_find(tb.context_patterns, w.skip(p), e, b).len() ==> zero_ok(tb, w, #[trigger] ctx_find(tb.context_patterns, w.skip(p), e, b)[i])
    // definitions of one character stand for one character
    &&& forall|c: char| tb.character_translations.0@.contains_key(c) ==> (#[trigger] tb.character_translations.0@[c]).length == 1
    &&& forall|c: char| tb.backward_digit_overrides@.contains_key(c) ==> (#[trigger] tb.backward_digit_overrides@[c]).length == 1 && tb.backward_digit_overrides@[c].offset == 0
}
spec fn zero_ok(tb: PrimaryTable, w: Seq<char>, t: T) -> bool { t.length == 0 ==> zero_universe(tb, w).contains(sub_of(t)) }

@fn translator/table/primary.rs PrimaryTable::update_offsets loops=1 owned_iter
@spec
    ensures r@ == shift(translations@, decrement),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == translations@, __acc0@ == shift(__s0@.take(__i0 as int), decrement),
    decreases __s0@.len() - __i0,
@loop 0 start
    proof { shift_take(__s0@, decrement, __i0 as int); }
@loop 0 post
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
@fn translator/table/primary.rs PrimaryTable::translation_candidates loops=1 owned_iter
@spec
    ensures r.0@ == keep(trie_find(self.trie, input@, prev), off0()), r.1@ == keep(trie_find(self.trie, input@, prev), offn()),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == trie_find(self.trie, input@, prev), __a0@ == keep(__s0@.take(__i0 as int), off0()), __b0@ == keep(__s0@.take(__i0 as int), offn()),
    decreases __s0@.len() - __i0,
@loop 0 start
    proof { keep_take(__s0@, off0(), __i0 as int); keep_take(__s0@, offn(), __i0 as int); }
@loop 0 post
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
@fn translator/table/primary.rs PrimaryTable::match_candidates loops=1 owned_iter
@spec
    ensures r.0@ == keep(match_find(self.match_patterns, input@, at_start), off0()), r.1@ == keep(match_find(self.match_patterns, input@, at_start), offn()),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == match_find(self.match_patterns, input@, at_start), __a0@ == keep(__s0@.take(__i0 as int), off0()), __b0@ == keep(__s0@.take(__i0 as int), offn()),
    decreases __s0@.len() - __i0,
@loop 0 start
    proof { keep_take(__s0@, off0(), __i0 as int); keep_take(__s0@, offn(), __i0 as int); }
@loop 0 post
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
@fn translator/table/primary.rs PrimaryTable::context_candidates loops=1 owned_iter
@spec
    ensures r.0@ == keep(ctx_find(self.context_patterns, input@, *env, at_start), off0()), r.1@ == keep(ctx_find(self.context_patterns, input@, *env, at_start), offn()),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == ctx_find(self.context_patterns, input@, *env, at_start), __a0@ == keep(__s0@.take(__i0 as int), off0()), __b0@ == keep(__s0@.take(__i0 as int), offn()),
    decreases __s0@.len() - __i0,
@loop 0 start
    proof { keep_take(__s0@, off0(), __i0 as int); keep_take(__s0@, offn(), __i0 as int); }
@loop 0 post
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
@fn translator/table/primary.rs PrimaryTable::partition_delayed_translations loops=1 owned_iter
@spec
    ensures r.0@ == keep(delayed@, off0()), r.1@ == keep(delayed@, offn()),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == delayed@, __a0@ == keep(__s0@.take(__i0 as int), off0()), __b0@ == keep(__s0@.take(__i0 as int), offn()),
    decreases __s0@.len() - __i0,
@loop 0 start
    proof { keep_take(__s0@, off0(), __i0 as int); keep_take(__s0@, offn(), __i0 as int); }
@loop 0 post
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
@raw
/// no allowed hyphenation point lies between two characters the rule covers
spec fn uncrossed(p: PositionConstraints, pos: int) -> spec_fn(T) -> bool {
    |t: T| forall|k: int| pos <= k < pos + t.length - 1 ==> !#[trigger] at(p, k, Constraint::HyphenationBreak)
}
@fn translator/table/primary.rs PrimaryTable::nocross_candidates loops=2 owned_iter
@spec
    requires wf_nocross(*self), char_pos + input@.len() <= usize::MAX,
    ensures r@ == keep(trie_find(self.nocross_trie, input@, prev), uncrossed(*constraints, char_pos as int)),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == trie_find(self.nocross_trie, input@, prev), wf_nocross(*self), char_pos + input@.len() <= usize::MAX,
        __acc0@ == keep(__s0@.take(__i0 as int), uncrossed(*constraints, char_pos as int)),
    decreases __s0@.len() - __i0,
@loop 0 start
    proof { keep_take(__s0@, uncrossed(*constraints, char_pos as int), __i0 as int); }
@loop 0 post
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
@loop 1
    invariant_except_break
        !__acc1,
        forall|k: int| char_pos <= k < __i1 ==> !#[trigger] at(*constraints, k, Constraint::HyphenationBreak),
    invariant
        char_pos <= __i1, __s1 == char_pos + (if t.length > 0 { t.length - 1 } else { 0 }),
        t.length > 0, __i1 <= __s1,
    ensures
        __acc1 <==> exists|k: int| char_pos <= k < char_pos + t.length - 1 && #[trigger] at(*constraints, k, Constraint::HyphenationBreak),
    decreases __s1 - __i1,
@before let mut __acc1
    proof { reveal(wf_nocross); assert(fits(*t, input@)); }
@raw
// ---- the translation loop, as a function from state to state ----
struct St { pos: nat, prev: Option<char>, seen: Set<Sub>, env: Environment, delayed: Seq<T>, out: Seq<T>, ind: Option<nat> }
/// everything that does not change during one translation
struct Cx { tb: PrimaryTable, w: Seq<char>, ind: PrecomputedIndications, con: PositionConstraints }
spec fn rest(cx: Cx, st: St) -> Seq<char> { cx.w.skip(st.pos as int) }
/// the indicators of a position are put out once, in front of whatever is found there
spec fn emit(cx: Cx, st: St) -> St {
    if st.ind != Some(st.pos) { St { out: st.out + indications_at(cx.ind, st.pos), ind: Some(st.pos), ..st } } else { st }
}
spec fn found_trie(cx: Cx, st: St) -> Seq<T> { trie_find(cx.tb.trie, rest(cx, st), st.prev) }
spec fn found_match(cx: Cx, st: St) -> Seq<T> { match_find(cx.tb.match_patterns, rest(cx, st), st.pos == 0) }
spec fn found_ctx(cx: Cx, st: St) -> Seq<T> { ctx_find(cx.tb.context_patterns, rest(cx, st), st.env, st.pos == 0) }
/// all matches whose place is further on, or now
#[verifier::opaque]
spec fn pending(cx: Cx, st: St) -> Seq<T> {
    st.delayed + keep(found_trie(cx, st), offn()) + keep(found_match(cx, st), offn()) + keep(found_ctx(cx, st), offn())
}
#[verifier::opaque]
spec fn gathered(cx: Cx, st: St) -> Seq<T> {
    keep(found_trie(cx, st), off0()) + keep(found_match(cx, st), off0()) + keep(found_ctx(cx, st), off0()) + keep(pending(cx, st), off0())
}
spec fn punct_ok(p: PositionConstraints, pos: int) -> spec_fn(T) -> bool {
    |t: T| (t.origin is Some && (t.origin->0).rule is Prepunc ==> at(p, pos, Constraint::PrepuncOk))
        && (t.origin is Some && (t.origin->0).rule is Postpunc ==> at(p, pos, Constraint::PostpuncOk))
}
spec fn not_one() -> spec_fn(T) -> bool { |t: T| t.length != 1 }
spec fn short() -> spec_fn(T) -> bool { |t: T| t.length <= 1 }
spec fn unseen(s: Set<Sub>) -> spec_fn(T) -> bool { |t: T| !s.contains(sub_of(t)) }
spec fn digit_here(cx: Cx, st: St) -> bool {
    cx.tb.direction == Direction::Backward && at(cx.con, st.pos as int, Constraint::PreferDigit) && st.pos < cx.w.len()
        && cx.tb.backward_digit_overrides@.contains_key(cx.w[st.pos as int])
}
#[verifier::opaque]
spec fn c1(cx: Cx, st: St) -> Seq<T> { keep(gathered(cx, st), punct_ok(cx.con, st.pos as int)) }
#[verifier::opaque]
spec fn c2(cx: Cx, st: St) -> Seq<T> {
    if digit_here(cx, st) { keep(c1(cx, st), not_one()).push(cx.tb.backward_digit_overrides@[cx.w[st.pos as int]]) } else { c1(cx, st) }
}
#[verifier::opaque]
spec fn c3(cx: Cx, st: St) -> Seq<T> { if at(cx.con, st.pos as int, Constraint::DontContract) { keep(c2(cx, st), short()) } else { c2(cx, st) } }
/// the rules that may be applied at the state's position
#[verifier::opaque]
spec fn allowed(cx: Cx, st: St) -> Seq<T> {
    if at(cx.con, st.pos as int, Constraint::UseComp6) { trie_find(cx.tb.comp6_trie, rest(cx, st), st.prev) } else { c3(cx, st) }
}
#[verifier::opaque]
spec fn eligible(cx: Cx, st: St) -> Seq<T> { keep(allowed(cx, st), unseen(st.seen)) }
spec fn unrestricted(p: PositionConstraints, pos: int) -> spec_fn(T) -> bool {
    |t: T| !at(p, pos, Constraint::UseComp6) && !(at(p, pos, Constraint::DontContract) && t.length > 1)
}
#[verifier::opaque]
spec fn nocross_allowed(cx: Cx, st: St) -> Seq<T> {
    keep(keep(trie_find(cx.tb.nocross_trie, rest(cx, st), st.prev), uncrossed(cx.con, st.pos as int)), unrestricted(cx.con, st.pos as int))
}
enum Choice { Nocross(T), Rule(T), Char(char), End }
#[verifier::opaque]
spec fn choice(cx: Cx, st: St) -> Choice {
    let n = heaviest(nocross_allowed(cx, st));
    let c = heaviest(eligible(cx, st));
    if n is Some && (c is None || (n->0).weight >= (c->0).weight) { Choice::Nocross(n->0) }
    else if c is Some { Choice::Rule(c->0) }
    else if st.pos < cx.w.len() { Choice::Char(cx.w[st.pos as int]) }
    else { Choice::End }
}
/// backward capitals
spec fn cased(cx: Cx, pos: int, t: T) -> T {
    if cx.tb.direction == Direction::Backward && at(cx.con, pos, Constraint::Uppercase) { set_output(t, upper_all(t.output@)) }
    else if cx.tb.direction == Direction::Backward && at(cx.con, pos, Constraint::TitleCase) {
        set_output(t, if t.output@.len() == 0 { Seq::<char>::empty() } else { upper_char(t.output@[0]) + t.output@.skip(1) })
    } else { t }
}
/// a character no rule applies to: its definition, the table's replacement, or its escape
spec fn char_piece(cx: Cx, c: char, t: T) -> bool {
    if cx.tb.character_translations.0@.contains_key(c) { t == cx.tb.character_translations.0@[c] }
    else {
        &&& t.input@ == seq![c] && t.length == 1 && t.weight == 1 && t.offset == 0 && t.effects@.len() == 0 && t.origin is None
        &&& t.output@ == (match cx.tb.undefined { Some(s) => s@, None => escape_of(cx.tb, c) })
    }
}
/// one turn of the loop: a -> b
spec fn step(cx: Cx, s: St, b: St) -> bool {
    let a = emit(cx, s);
    let later = keep(pending(cx, a), offn());
    match choice(cx, a) {
        Choice::Nocross(t) => b == (St { pos: a.pos + t.length as nat, prev: Some(cx.w[a.pos + t.length - 1]), seen: Set::<Sub>::empty(),
            env: a.env, delayed: shift(later, t.length), out: a.out.push(cased(cx, a.pos as int, t)), ind: a.ind }),
        Choice::Rule(t) => if t.length == 0 {
            b == (St { pos: a.pos, prev: a.prev, seen: a.seen.insert(sub_of(t)),
                env: env_all(a.env, t.effects@), delayed: shift(later, 0), out: a.out.push(cased(cx, a.pos as int, t)), ind: a.ind })
        } else {
            b == (St { pos: a.pos + t.length as nat, prev: Some(cx.w[a.pos + t.length - 1]), seen: Set::<Sub>::empty(),
                env: env_all(a.env, t.effects@), delayed: shift(later, t.length), out: a.out.push(cased(cx, a.pos as int, t)), ind: a.ind })
        },
        Choice::Char(c) => b.out.len() == a.out.len() + 1 && char_piece(cx, c, b.out.last())
            && b == (St { pos: (a.pos + 1) as nat, prev: Some(c), seen: Set::<Sub>::empty(),
                env: a.env, delayed: shift(later, 1), out: a.out.push(b.out.last()), ind: a.ind }),
        Choice::End => false,
    }
}
spec fn start() -> St { St { pos: 0, prev: None, seen: Set::empty(), env: env0(), delayed: seq![], out: seq![], ind: None } }
/// `h` is a run of the loop
#[verifier::opaque]
spec fn run(cx: Cx, h: Seq<St>) -> bool {
    h.len() > 0 && h[0] == start() && forall|i: int| 0 <= i < h.len() - 1 ==> #[trigger] step(cx, h[i], h[i + 1])
}
/// `out` is what the loop puts out for the whole text
spec fn explained(cx: Cx, out: Seq<T>) -> bool {
    exists|h: Seq<St>| #[trigger] run(cx, h) && choice(cx, emit(cx, h.last())) is End && out == emit(cx, h.last()).out
}
/// invariant of a run
#[verifier::opaque]
spec fn good(cx: Cx, st: St) -> bool {
    &&& st.pos <= cx.w.len()
    &&& st.prev == (if st.pos == 0 { None } else { Some(cx.w[st.pos - 1]) })
    &&& lens(st.out) == st.pos
    &&& st.seen.subset_of(zero_universe(cx.tb, cx.w))
    &&& forall|i: int| 0 <= i < st.delayed.len() ==> delayed_ok(cx, st.pos, #[trigger] st.delayed[i])
}
spec fn delayed_ok(cx: Cx, pos: nat, t: T) -> bool { pos + t.offset + t.length <= cx.w.len() && zero_ok(cx.tb, cx.w, t) }

// ---- facts about one turn ----
proof fn pending_ok(cx: Cx, st: St)
    requires wf(cx.tb, cx.w), good(cx, st),
    ensures forall|i: int| 0 <= i < pending(cx, st).len() ==> delayed_ok(cx, st.pos, #[trigger] pending(cx, st)[i]),
{
    reveal(pending);
    reveal(wf); reveal(good);
    let (a, b, c, d) = (st.delayed, found_trie(cx, st), found_match(cx, st), found_ctx(cx, st));
    keep_in(b, offn()); keep_in(c, offn()); keep_in(d, offn());
    let (kb, kc, kd) = (keep(b, offn()), keep(c, offn()), keep(d, offn()));
    assert forall|i: int| 0 <= i < pending(cx, st).len() implies delayed_ok(cx, st.pos, #[trigger] pending(cx, st)[i]) by {
        let t = pending(cx, st)[i];
        if i < a.len() { assert(t == a[i]); }
        else if i < a.len() + kb.len() { assert(t == kb[i - a.len()]); let k = b.index_of(t); assert(b[k] == t); }
        else if i < a.len() + kb.len() + kc.len() { assert(t == kc[i - a.len() - kb.len()]); let k = c.index_of(t); assert(c[k] == t); }
        else { assert(t == kd[i - a.len() - kb.len() - kc.len()]); let k = d.index_of(t); assert(d[k] == t); }
    }
}
proof fn gathered_ok(cx: Cx, st: St)
    requires wf(cx.tb, cx.w), good(cx, st),
    ensures forall|i: int| 0 <= i < gathered(cx, st).len() ==> delayed_ok(cx, st.pos, #[trigger] gathered(cx, st)[i]),
{
    reveal(gathered);
    reveal(wf); reveal(good);
    pending_ok(cx, st);
    let (b, c, d, e) = (found_trie(cx, st), found_match(cx, st), found_ctx(cx, st), pending(cx, st));
    keep_in(b, off0()); keep_in(c, off0()); keep_in(d, off0()); keep_in(e, off0());
    let (kb, kc, kd, ke) = (keep(b, off0()), keep(c, off0()), keep(d, off0()), keep(e, off0()));
    assert forall|i: int| 0 <= i < gathered(cx, st).len() implies delayed_ok(cx, st.pos, #[trigger] gathered(cx, st)[i]) by {
        let t = gathered(cx, st)[i];
        if i < kb.len() { assert(t == kb[i]); let k = b.index_of(t); assert(b[k] == t); }
        else if i < kb.len() + kc.len() { assert(t == kc[i - kb.len()]); let k = c.index_of(t); assert(c[k] == t); }
        else if i < kb.len() + kc.len() + kd.len() { assert(t == kd[i - kb.len() - kc.len()]); let k = d.index_of(t); assert(d[k] == t); }
        else { assert(t == ke[i - kb.len() - kc.len() - kd.len()]); let k = e.index_of(t); assert(e[k] == t); }
    }
}
/// everything that may be applied fits into the text, and is a known zero-length result if it is one
proof fn eligible_ok(cx: Cx, st: St, t: T)
    requires wf(cx.tb, cx.w), good(cx, st), eligible(cx, st).contains(t),
    ensures st.pos + t.length <= cx.w.len(), zero_ok(cx.tb, cx.w, t), !st.seen.contains(sub_of(t)), allowed(cx, st).contains(t),
{
    reveal(eligible); reveal(allowed); reveal(c1); reveal(c2); reveal(c3);
    reveal(wf); reveal(wf_nocross); reveal(good);
    keep_in(allowed(cx, st), unseen(st.seen));
    let i = eligible(cx, st).index_of(t);
    assert(eligible(cx, st)[i] == t);
    assert(allowed(cx, st).contains(t));
    let a = allowed(cx, st);
    let k = a.index_of(t);
    assert(a[k] == t);
    if at(cx.con, st.pos as int, Constraint::UseComp6) {
    } else {
        keep_in(c2(cx, st), short());
        assert(c2(cx, st).contains(t)) by {
            if at(cx.con, st.pos as int, Constraint::DontContract) { assert(keep(c2(cx, st), short())[k] == t); }
        }
        let s2 = c2(cx, st);
        let j = s2.index_of(t);
        assert(s2[j] == t);
        gathered_ok(cx, st);
        keep_in(gathered(cx, st), punct_ok(cx.con, st.pos as int));
        if digit_here(cx, st) {
            let m = keep(c1(cx, st), not_one());
            keep_in(c1(cx, st), not_one());
            if j < m.len() {
                assert(m[j] == t);
                assert(c1(cx, st).contains(t));
                let q = c1(cx, st).index_of(t);
                assert(c1(cx, st)[q] == t);
                assert(gathered(cx, st).contains(t));
                let z = gathered(cx, st).index_of(t);
                assert(delayed_ok(cx, st.pos, gathered(cx, st)[z]));
            } else { assert(t == cx.tb.backward_digit_overrides@[cx.w[st.pos as int]]); }
        } else {
            assert(c1(cx, st)[j] == t);
            assert(gathered(cx, st).contains(t));
            let z = gathered(cx, st).index_of(t);
            assert(delayed_ok(cx, st.pos, gathered(cx, st)[z]));
        }
    }
}
proof fn nocross_ok(cx: Cx, st: St, t: T)
    requires wf(cx.tb, cx.w), good(cx, st), nocross_allowed(cx, st).contains(t),
    ensures 0 < t.length, st.pos + t.length <= cx.w.len(), uncrossed(cx.con, st.pos as int)(t), unrestricted(cx.con, st.pos as int)(t),
{
    reveal(nocross_allowed);
    reveal(wf); reveal(wf_nocross); reveal(good);
    let f = trie_find(cx.tb.nocross_trie, rest(cx, st), st.prev);
    let g = keep(f, uncrossed(cx.con, st.pos as int));
    keep_in(f, uncrossed(cx.con, st.pos as int));
    keep_in(g, unrestricted(cx.con, st.pos as int));
    let i = nocross_allowed(cx, st).index_of(t);
    assert(nocross_allowed(cx, st)[i] == t);
    let j = g.index_of(t);
    assert(g[j] == t);
    let k = f.index_of(t);
    assert(f[k] == t);
}
proof fn later_ok(cx: Cx, st: St, d: usize)
    requires wf(cx.tb, cx.w), good(cx, st), 
    ensures forall|i: int| 0 <= i < shift(keep(pending(cx, st), offn()), d).len() ==> delayed_ok(cx, (st.pos + d) as nat, #[trigger] shift(keep(pending(cx, st), offn()), d)[i]),
{
    reveal(wf); reveal(good);
    pending_ok(cx, st);
    let p = pending(cx, st);
    let l = keep(p, offn());
    keep_in(p, offn());
    shift_in(l, d);
    assert forall|i: int| 0 <= i < shift(l, d).len() implies delayed_ok(cx, (st.pos + d) as nat, #[trigger] shift(l, d)[i]) by {
        let k = choose|k: int| 0 <= k < l.len() && l[k].offset >= d && shift(l, d)[i] == (ResolvedTranslation { offset: (l[k].offset - d) as usize, ..l[k] });
        assert(p.contains(l[k]));
        let z = p.index_of(l[k]);
        assert(delayed_ok(cx, st.pos, p[z]));
    }
}
proof fn emit_good(cx: Cx, st: St)
    requires good(cx, st), ind_zero(cx),
    ensures good(cx, emit(cx, st)), emit(cx, emit(cx, st)) == emit(cx, st),
{
    reveal(good); reveal(ind_zero);
    lens_add(st.out, indications_at(cx.ind, st.pos));
    lens_zero(indications_at(cx.ind, st.pos));
}
#[verifier::opaque]
spec fn ind_zero(cx: Cx) -> bool { forall|p: nat, i: int| 0 <= i < indications_at(cx.ind, p).len() ==> (#[trigger] indications_at(cx.ind, p)[i]).length == 0 }
spec fn measure(cx: Cx, st: St) -> (int, int) { (cx.w.len() - st.pos, zero_universe(cx.tb, cx.w).len() - st.seen.len()) }
proof fn cased_len(cx: Cx, pos: int, t: T) ensures cased(cx, pos, t).length == t.length {}
/// one turn keeps the invariant and makes progress
proof fn step_good(cx: Cx, s: St, b: St)
    requires wf(cx.tb, cx.w), ind_zero(cx), good(cx, s), step(cx, s, b),
    ensures good(cx, b),
        b.pos > s.pos || (b.pos == s.pos && s.seen.len() < b.seen.len() <= zero_universe(cx.tb, cx.w).len()),
{
    reveal(choice);
    reveal(wf); reveal(good);
    let a = emit(cx, s);
    emit_good(cx, s);
    match choice(cx, a) {
        Choice::Nocross(t) => {
            heaviest_is(nocross_allowed(cx, a));
            nocross_ok(cx, a, t);
            later_ok(cx, a, t.length);
            assert(b.out.drop_last() =~= a.out);
        }
        Choice::Rule(t) => {
            heaviest_is(eligible(cx, a));
            eligible_ok(cx, a, t);
            later_ok(cx, a, t.length);
            assert(b.out.drop_last() =~= a.out);
            if t.length == 0 {
                let z = zero_universe(cx.tb, cx.w);
                assert(b.seen.subset_of(z));
                vstd::set_lib::lemma_len_subset(b.seen, z);
            }
        }
        Choice::Char(c) => {
            later_ok(cx, a, 1);
            assert(b.out.drop_last() =~= a.out);
            assert(b.out.last().length == 1);
        }
        Choice::End => {}
    }
}
@fn translator/table/primary.rs PrimaryTable::trace loops=7 owned_iter retain vecextend optmap inline=uppercase_if_needed slice=t.effects()
@subst input . chars ( ) =>> chars_of ( input )
@subst HashSet < TranslationSubset > =>> Seen
@subst HashSet :: default ( ) =>> Seen :: default ( )
@subst chars . clone ( ) . next ( ) =>> peek ( & chars )
@subst chars . as_str ( ) . len ( ) == input . len ( ) =>> nothing_consumed ( & chars , input )
@subst options . emphasis ( ) . to_vec ( ) =>> spans_to_vec ( options . emphasis ( ) )
@subst translation . output ( ) . to_uppercase ( ) =>> string_upper ( & translation . output ( ) )
@subst output . chars ( ) =>> chars_of ( & output )
@subst c . to_uppercase ( ) . chain ( chars ) . collect :: < String > ( ) =>> upper_then_rest ( c , chars )
@subst & next_char . to_string ( ) =>> & char_string ( next_char )
@spec
    requires wf(*self, input@),
    ensures
        exists|cx: Cx| cx.tb == *self && cx.w == input@
            && cx.ind == indications_of(self.indicators, input@, spans_for(*self, input@, options.emphasis@))
            && cx.con == constraints_of(self.constrainers, input@, spans_for(*self, input@, options.emphasis@))
            && ind_zero(cx) && #[trigger] explained(cx, r@),
@loop 0 pre
    let ghost cx = Cx { tb: *self, w: input@, ind: indications, con: constraints };
    let ghost mut hist: Seq<St> = seq![start()];
    proof {
        assert(input@.skip(0) =~= input@);
        assert(run(cx, hist)) by { reveal(run); }
        assert(good(cx, hist.last())) by { reveal(good); }
        assert(ind_zero(cx)) by { reveal(ind_zero); }
        assert(delayed_translations@ =~= Seq::<T>::empty());
        assert(translations@ =~= Seq::<T>::empty());
    }
@loop 0
    invariant_except_break
        hist.last() == (St { pos: char_pos as nat, prev: prev, seen: seen@, env: env, delayed: delayed_translations@, out: translations@, ind: onat(last_indications_pos) }),
    invariant
        cx.tb == *self, cx.w == input@, cx.ind == indications, cx.con == constraints, wf(*self, input@), ind_zero(cx),
        input@.len() <= isize::MAX, char_pos <= input@.len(),
        chars@ == cx.w.skip(char_pos as int),
run(cx, hist), good(cx, hist.last()),
    ensures
        explained(cx, translations@),
    decreases input@.len() - char_pos, zero_universe(cx.tb, cx.w).len() - seen@.len(),
@loop 0 start
    let ghost cur = hist.last();
    let ghost a = emit(cx, cur);
    proof { emit_good(cx, cur); assert(wf_nocross(*self)) by { reveal(wf); } }
@before let at_start
    proof {
        assert(translations@ == a.out);
        assert(chars@ == rest(cx, a));
    }
@loop 1
    invariant
        __i0 <= __s0@.len(),
        __s0@ == keep(trie_find(self.nocross_trie, chars@, prev), uncrossed(constraints, char_pos as int)),
        __acc0 == heaviest(keep(__s0@.take(__i0 as int), unrestricted(constraints, char_pos as int))),
        __acc0 is Some ==> __key0 == (__acc0->0).weight,
    decreases __s0@.len() - __i0,
@loop 1 start
    proof {
        keep_take(__s0@, unrestricted(constraints, char_pos as int), __i0 as int);
        heaviest_push(keep(__s0@.take(__i0 as int), unrestricted(constraints, char_pos as int)), __s0@[__i0 as int]);
    }
@loop 1 post
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
@before let ( mut candidates , delayed )
    proof { assert(nocross_candidate == heaviest(nocross_allowed(cx, a))) by { reveal(nocross_allowed); } }
@loop 2 pre
    let ghost g0 = candidates@;
    proof {
        assert(g0 == gathered(cx, a)) by { reveal(gathered); reveal(pending); }
        assert(delayed_translations@ == keep(pending(cx, a), offn())) by { reveal(pending); }
    }
@loop 2
    invariant
        __i1 <= candidates@.len(), candidates@ == g0,
        __acc1@ == keep(candidates@.take(__i1 as int), punct_ok(constraints, char_pos as int)),
    decreases candidates@.len() - __i1,
@loop 2 start
    proof { keep_take(candidates@, punct_ok(constraints, char_pos as int), __i1 as int); }
@loop 2 post
    proof { assert(candidates@.take(candidates@.len() as int) =~= candidates@); }
@before if self . direction == Direction :: Backward && constraints . prefer_digit_at
    let ghost v1 = candidates@;
    proof { assert(v1 == c1(cx, a)) by { reveal(c1); } }
@loop 3
    invariant
        __i2 <= candidates@.len(), candidates@ == v1,
        __acc2@ == keep(candidates@.take(__i2 as int), not_one()),
    decreases candidates@.len() - __i2,
@loop 3 start
    proof { keep_take(candidates@, not_one(), __i2 as int); }
@loop 3 post
    proof { assert(candidates@.take(candidates@.len() as int) =~= candidates@); }
@before if constraints . dont_contract_at ( char_pos )
    let ghost v2 = candidates@;
    proof { assert(v2 == c2(cx, a)) by { reveal(c2); } }
@loop 4
    invariant
        __i3 <= candidates@.len(), candidates@ == v2,
        __acc3@ == keep(candidates@.take(__i3 as int), short()),
    decreases candidates@.len() - __i3,
@loop 4 start
    proof { keep_take(candidates@, short(), __i3 as int); }
@loop 4 post
    proof { assert(candidates@.take(candidates@.len() as int) =~= candidates@); }
@before if constraints . use_comp6_at ( char_pos )
    proof { assert(candidates@ == c3(cx, a)) by { reveal(c3); } }
@before let is_backward
    proof {
        let found = trie_find(self.comp6_trie, chars@, prev);
        assert(Seq::<T>::empty() + found =~= found);
        assert(candidates@ == allowed(cx, a)) by { reveal(allowed); }
    }
@loop 5
    invariant
        __i4 <= candidates@.len(),
        opt_val(__acc4) == heaviest(keep(candidates@.take(__i4 as int), unseen(seen@))),
        __acc4 is Some ==> __key4 == (__acc4->0).weight,
    decreases candidates@.len() - __i4,
@loop 5 start
    proof {
        keep_take(candidates@, unseen(seen@), __i4 as int);
        heaviest_push(keep(candidates@.take(__i4 as int), unseen(seen@)), candidates@[__i4 as int]);
    }
@loop 5 post
    proof { assert(candidates@.take(candidates@.len() as int) =~= candidates@); }
@before match & nocross_candidate
    let ghost later = delayed_translations@;
    proof {
        assert(later == keep(pending(cx, a), offn()));
        assert(opt_val(candidate) == heaviest(eligible(cx, a))) by { reveal(eligible); }
        chosen_ok(cx, a);
    }
@before translations . push ( translation )
    proof { assert(translation == cased(cx, a.pos as int, nocross_candidate->0)); }
@before2 translations . push ( translation )
    proof { assert(translation == cased(cx, a.pos as int, *t)); }
@loop 6
    invariant
        __i5 <= __s5@.len(), __s5@ == t.effects@, env == env_all(a.env, __s5@.take(__i5 as int)),
    decreases __s5@.len() - __i5,
@loop 6 start
    proof { assert(__s5@.take(__i5 + 1).drop_last() =~= __s5@.take(__i5 as int)); assert(__s5@.take(__i5 + 1).last() == __s5@[__i5 as int]); }
@loop 6 post
    proof { assert(__s5@.take(__s5@.len() as int) =~= __s5@); }
@before break
    proof {
        assert(choice(cx, a) is End) by { reveal(choice); }
        assert(explained(cx, translations@));
    }
@loop 0 end
    proof {
        let b = St { pos: char_pos as nat, prev: prev, seen: seen@, env: env, delayed: delayed_translations@, out: translations@, ind: onat(last_indications_pos) };
        assert(step(cx, cur, b)) by { reveal(choice); }
        step_good(cx, cur, b);
        run_push(cx, hist, b);
        hist = hist.push(b);
        assert(hist.last() == b);
    }
@raw
proof fn chosen_ok(cx: Cx, st: St)
    requires wf(cx.tb, cx.w), good(cx, st),
    ensures
        match heaviest(eligible(cx, st)) { Some(t) => st.pos + t.length <= cx.w.len(), None => true },
        match heaviest(nocross_allowed(cx, st)) { Some(t) => 0 < t.length && st.pos + t.length <= cx.w.len(), None => true },
{
    heaviest_is(eligible(cx, st));
    heaviest_is(nocross_allowed(cx, st));
    if let Some(t) = heaviest(eligible(cx, st)) { eligible_ok(cx, st, t); }
    if let Some(t) = heaviest(nocross_allowed(cx, st)) { nocross_ok(cx, st, t); }
}
spec fn opt_val(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
spec fn onat(o: Option<usize>) -> Option<nat> { match o { Some(p) => Some(p as nat), None => None } }
spec fn spans_for(tb: PrimaryTable, w: Seq<char>, caller: Seq<EmphasisSpan>) -> Seq<EmphasisSpan> {
    match tb.compbrl_scanner { Some(s) => enriched(s, w, caller), None => caller }
}
proof fn heaviest_push(s: Seq<T>, t: T)
    ensures heaviest(s.push(t)) == (match heaviest(s) { Some(m) => if m.weight > t.weight { Some(m) } else { Some(t) }, None => Some(t) }),
{ assert(s.push(t).drop_last() =~= s); }
proof fn run_push(cx: Cx, h: Seq<St>, b: St)
    requires run(cx, h), step(cx, h.last(), b),
    ensures run(cx, h.push(b)),
{
    reveal(run);
    let g = h.push(b);
    assert forall|i: int| 0 <= i < g.len() - 1 implies #[trigger] step(cx, g[i], g[i + 1]) by {
        if i < h.len() - 1 { assert(step(cx, h[i], h[i + 1])); }
    }
}
// ---- what a run promises (the listed properties, read off the contract of `trace`) ----
proof fn run_good(cx: Cx, h: Seq<St>, i: int)
    requires wf(cx.tb, cx.w), ind_zero(cx), run(cx, h), 0 <= i < h.len(),
    ensures good(cx, h[i]), good(cx, emit(cx, h[i])),
    decreases i
{
    reveal(run);
    if i == 0 { assert(good(cx, h[0])) by { reveal(good); } }
    else { run_good(cx, h, i - 1); assert(step(cx, h[i - 1], h[i - 1 + 1])); step_good(cx, h[i - 1], h[i]); }
    emit_good(cx, h[i]);
}
/// C03: the pieces of a translation stand for consecutive stretches that cover the text exactly
proof fn th_tiling(cx: Cx, out: Seq<T>)
    requires wf(cx.tb, cx.w), ind_zero(cx), explained(cx, out),
    ensures lens(out) == cx.w.len(),
{
    let h = choose|h: Seq<St>| #[trigger] run(cx, h) && choice(cx, emit(cx, h.last())) is End && out == emit(cx, h.last()).out;
    reveal(run);
    run_good(cx, h, h.len() - 1);
    reveal(choice); reveal(good);
}
/// C04: a rule that is applied is as heavy as any that may be applied there; a character is only
/// translated by itself where no rule may be applied
proof fn th_selection(cx: Cx, st: St, t: T, u: T)
    requires wf(cx.tb, cx.w), good(cx, st), eligible(cx, st).contains(u),
    ensures
        choice(cx, st) is Rule ==> u.weight <= (choice(cx, st)->Rule_0).weight,
        choice(cx, st) is Nocross ==> u.weight <= (choice(cx, st)->Nocross_0).weight,
        !(choice(cx, st) is Char), !(choice(cx, st) is End),
{
    reveal(choice);
    heaviest_is(eligible(cx, st));
    let k = eligible(cx, st).index_of(u);
    assert(eligible(cx, st)[k] == u);
}
proof fn th_selection_nocross(cx: Cx, st: St, u: T)
    requires wf(cx.tb, cx.w), good(cx, st), nocross_allowed(cx, st).contains(u),
    ensures
        choice(cx, st) is Rule ==> u.weight < (choice(cx, st)->Rule_0).weight,
        choice(cx, st) is Nocross ==> u.weight <= (choice(cx, st)->Nocross_0).weight,
        !(choice(cx, st) is Char), !(choice(cx, st) is End),
{
    reveal(choice);
    heaviest_is(nocross_allowed(cx, st));
    heaviest_is(eligible(cx, st));
    let k = nocross_allowed(cx, st).index_of(u);
    assert(nocross_allowed(cx, st)[k] == u);
}
/// C11: no allowed break between the characters of an applied nocross rule
proof fn th_nocross(cx: Cx, st: St, k: int)
    requires wf(cx.tb, cx.w), good(cx, st), choice(cx, st) is Nocross, st.pos <= k < st.pos + (choice(cx, st)->Nocross_0).length - 1,
    ensures !at(cx.con, k, Constraint::HyphenationBreak),
{
    reveal(choice);
    heaviest_is(nocross_allowed(cx, st));
    nocross_ok(cx, st, choice(cx, st)->Nocross_0);
}
/// C12: inside a number (and outside computer braille) no applied rule covers two characters
proof fn th_number(cx: Cx, st: St)
    requires wf(cx.tb, cx.w), good(cx, st), at(cx.con, st.pos as int, Constraint::DontContract), !at(cx.con, st.pos as int, Constraint::UseComp6),
    ensures
        choice(cx, st) is Rule ==> (choice(cx, st)->Rule_0).length <= 1,
        choice(cx, st) is Nocross ==> (choice(cx, st)->Nocross_0).length <= 1,
{
    reveal(choice);
    heaviest_is(nocross_allowed(cx, st));
    heaviest_is(eligible(cx, st));
    if choice(cx, st) is Nocross { nocross_ok(cx, st, choice(cx, st)->Nocross_0); }
    if choice(cx, st) is Rule {
        eligible_ok(cx, st, choice(cx, st)->Rule_0);
        reveal(allowed); reveal(c3);
        keep_in(c2(cx, st), short());
        let s = keep(c2(cx, st), short());
        assert(s[s.index_of(choice(cx, st)->Rule_0)] == choice(cx, st)->Rule_0);
    }
}
/// C15: in computer braille only comp6 rules are applied
proof fn th_computer_braille(cx: Cx, st: St)
    requires wf(cx.tb, cx.w), good(cx, st), at(cx.con, st.pos as int, Constraint::UseComp6),
    ensures !(choice(cx, st) is Nocross),
        choice(cx, st) is Rule ==> trie_find(cx.tb.comp6_trie, rest(cx, st), st.prev).contains(choice(cx, st)->Rule_0),
{
    reveal(choice);
    heaviest_is(nocross_allowed(cx, st));
    heaviest_is(eligible(cx, st));
    if choice(cx, st) is Nocross { nocross_ok(cx, st, choice(cx, st)->Nocross_0); }
    if choice(cx, st) is Rule { eligible_ok(cx, st, choice(cx, st)->Rule_0); reveal(allowed); }
}
/// C25: prepunc and postpunc rules only where the constraint allows them
proof fn th_punctuation(cx: Cx, st: St)
    requires wf(cx.tb, cx.w), good(cx, st), choice(cx, st) is Rule, !at(cx.con, st.pos as int, Constraint::UseComp6), !digit_here(cx, st),
    ensures punct_ok(cx.con, st.pos as int)(choice(cx, st)->Rule_0),
{
    let t = choice(cx, st)->Rule_0;
    reveal(choice);
    heaviest_is(eligible(cx, st));
    eligible_ok(cx, st, t);
    reveal(allowed); reveal(c3); reveal(c2); reveal(c1);
    keep_in(c2(cx, st), short());
    let s = keep(c2(cx, st), short());
    if at(cx.con, st.pos as int, Constraint::DontContract) { assert(s[s.index_of(t)] == t); }
    assert(c1(cx, st).contains(t));
    keep_in(gathered(cx, st), punct_ok(cx.con, st.pos as int));
    assert(c1(cx, st)[c1(cx, st).index_of(t)] == t);
}
/// C26: a cell inside a number that can be a digit is read as that digit, unless a longer rule wins
proof fn th_digit(cx: Cx, st: St)
    requires wf(cx.tb, cx.w), good(cx, st), choice(cx, st) is Rule, !at(cx.con, st.pos as int, Constraint::UseComp6), digit_here(cx, st),
        (choice(cx, st)->Rule_0).length == 1,
    ensures choice(cx, st)->Rule_0 == cx.tb.backward_digit_overrides@[cx.w[st.pos as int]],
{
    let t = choice(cx, st)->Rule_0;
    reveal(choice);
    heaviest_is(eligible(cx, st));
    eligible_ok(cx, st, t);
    reveal(allowed); reveal(c3); reveal(c2);
    keep_in(c2(cx, st), short());
    let s = keep(c2(cx, st), short());
    if at(cx.con, st.pos as int, Constraint::DontContract) { assert(s[s.index_of(t)] == t); }
    assert(c2(cx, st).contains(t));
    let q = c2(cx, st);
    let k = q.index_of(t);
    keep_in(c1(cx, st), not_one());
    let m = keep(c1(cx, st), not_one());
    assert(q[k] == t);
    if k < m.len() { assert(m[k] == t); }
}
