@include trace_types.vs
@raw
#[verifier::external_body]
struct ContextPatterns { id: usize }
uninterp spec fn ctx_find(t: ContextPatterns, rest: Seq<char>, env: Environment, at_start: bool) -> Seq<T>;
impl ContextPatterns {
    #[verifier::external_body]
    fn find(&self, input: &str, env: &Environment, at_start: bool) -> (r: Vec<T>)
        ensures r@ == ctx_find(*self, input@, *env, at_start)
    { unimplemented!() }
}
#[verifier::external_body]
fn last_char(s: &String) -> (r: Option<char>) ensures r == (if s@.len() == 0 { None } else { Some(s@.last()) }) { s.chars().last() }
@type translator/table/multipass.rs MultipassTable
@raw
/// what the pattern matcher guarantees (assumed here): matches lie inside the rest of the text, and the
/// zero-length results over all positions of the text come from one (finite) set
uninterp spec fn zero_universe(tb: MultipassTable, w: Seq<char>) -> Set<Sub>;
spec fn zero_ok(tb: MultipassTable, w: Seq<char>, t: T) -> bool { t.length == 0 ==> zero_universe(tb, w).contains(sub_of(t)) }
#[verifier::opaque]
spec fn wf(tb: MultipassTable, w: Seq<char>) -> bool {
    &&& forall|p: int, e: Environment, b: bool, i: int| 0 <= p <= w.len() && 0 <= i < ctx_find(tb.patterns, w.skip(p), e, b).len() ==> {
        let t = #[trigger] ctx_find(tb.patterns, w.skip(p), e, b)[i];
        zero_ok(tb, w, t) && p + t.offset + t.length <= w.len()
    }
}
@fn translator/table/multipass.rs MultipassTable::update_offsets loops=1 owned_iter
@spec
    ensures r@ == shift(translations@, decrement),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == translations@, __acc0@ == shift(__s0@.take(__i0 as int), decrement),
    decreases __s0@.len() - __i0,
@loop 0 start
    proof { shift_take(__s0@, decrement, __i0 as int); }
@loop 0 post
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
@fn translator/table/multipass.rs MultipassTable::translation_candidates loops=1 owned_iter
@spec
    ensures r.0@ == keep(ctx_find(self.patterns, input@, *env, at_start), off0()), r.1@ == keep(ctx_find(self.patterns, input@, *env, at_start), offn()),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == ctx_find(self.patterns, input@, *env, at_start), __a0@ == keep(__s0@.take(__i0 as int), off0()), __b0@ == keep(__s0@.take(__i0 as int), offn()),
    decreases __s0@.len() - __i0,
@loop 0 start
    proof { keep_take(__s0@, off0(), __i0 as int); keep_take(__s0@, offn(), __i0 as int); }
@loop 0 post
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
@fn translator/table/multipass.rs MultipassTable::partition_delayed_translations loops=1 owned_iter
@spec
    ensures r.0@ == keep(delayed@, off0()), r.1@ == keep(delayed@, offn()),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == delayed@, __a0@ == keep(__s0@.take(__i0 as int), off0()), __b0@ == keep(__s0@.take(__i0 as int), offn()),
    decreases __s0@.len() - __i0,
@loop 0 start
    proof { keep_take(__s0@, off0(), __i0 as int); keep_take(__s0@, offn(), __i0 as int); }
@loop 0 post
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
@raw
// ---- one pass, as a function from state to state ----
struct St { pos: nat, seen: Set<Sub>, env: Environment, delayed: Seq<T>, out: Seq<T> }
struct Cx { tb: MultipassTable, w: Seq<char> }
spec fn found(cx: Cx, st: St) -> Seq<T> { ctx_find(cx.tb.patterns, cx.w.skip(st.pos as int), st.env, st.pos == 0) }
/// all matches whose place is further on, or now
#[verifier::opaque]
spec fn pending(cx: Cx, st: St) -> Seq<T> { st.delayed + keep(found(cx, st), offn()) }
#[verifier::opaque]
spec fn allowed(cx: Cx, st: St) -> Seq<T> { keep(found(cx, st), off0()) + keep(pending(cx, st), off0()) }
spec fn unseen(s: Set<Sub>) -> spec_fn(T) -> bool { |t: T| !s.contains(sub_of(t)) }
#[verifier::opaque]
spec fn eligible(cx: Cx, st: St) -> Seq<T> { keep(allowed(cx, st), unseen(st.seen)) }
/// a character no rule applies to is passed on
spec fn char_piece(cx: Cx, c: char, t: T) -> bool {
    &&& t.input@ == seq![c] && t.output@ == seq![c] && t.length == 1 && t.weight == 1 && t.offset == 0 && t.effects@.len() == 0 && t.origin is None && t.stage == cx.tb.stage
}
enum Choice { Rule(T), Char(char), End }
#[verifier::opaque]
spec fn choice(cx: Cx, st: St) -> Choice {
    let c = heaviest(eligible(cx, st));
    if c is Some { Choice::Rule(c->0) }
    else if st.pos < cx.w.len() { Choice::Char(cx.w[st.pos as int]) }
    else { Choice::End }
}
spec fn step(cx: Cx, a: St, b: St) -> bool {
    let later = keep(pending(cx, a), offn());
    match choice(cx, a) {
        Choice::Rule(t) => b == (St { pos: (a.pos + t.length) as nat,
            seen: if t.length == 0 { a.seen.insert(sub_of(t)) } else { Set::<Sub>::empty() },
            env: env_all(a.env, t.effects@), delayed: shift(later, t.length), out: a.out.push(t) }),
        Choice::Char(c) => b.out.len() == a.out.len() + 1 && char_piece(cx, c, b.out.last())
            && b == (St { pos: (a.pos + 1) as nat, seen: Set::<Sub>::empty(), env: a.env, delayed: shift(later, 1), out: a.out.push(b.out.last()) }),
        Choice::End => false,
    }
}
spec fn start() -> St { St { pos: 0, seen: Set::empty(), env: env0(), delayed: seq![], out: seq![] } }
#[verifier::opaque]
spec fn run(cx: Cx, h: Seq<St>) -> bool {
    h.len() > 0 && h[0] == start() && forall|i: int| 0 <= i < h.len() - 1 ==> #[trigger] step(cx, h[i], h[i + 1])
}
spec fn explained(cx: Cx, out: Seq<T>) -> bool {
    exists|h: Seq<St>| #[trigger] run(cx, h) && choice(cx, h.last()) is End && out == h.last().out
}
#[verifier::opaque]
spec fn good(cx: Cx, st: St) -> bool {
    &&& st.pos <= cx.w.len()
    &&& lens(st.out) == st.pos
    &&& st.seen.subset_of(zero_universe(cx.tb, cx.w))
    &&& forall|i: int| 0 <= i < st.delayed.len() ==> delayed_ok(cx, st.pos, #[trigger] st.delayed[i])
}
spec fn delayed_ok(cx: Cx, pos: nat, t: T) -> bool { pos + t.offset + t.length <= cx.w.len() && zero_ok(cx.tb, cx.w, t) }
proof fn pending_ok(cx: Cx, st: St)
    requires wf(cx.tb, cx.w), good(cx, st),
    ensures forall|i: int| 0 <= i < pending(cx, st).len() ==> delayed_ok(cx, st.pos, #[trigger] pending(cx, st)[i]),
{
    reveal(wf); reveal(good); reveal(pending);
    let (a, d) = (st.delayed, found(cx, st));
    keep_in(d, offn());
    let kd = keep(d, offn());
    assert forall|i: int| 0 <= i < pending(cx, st).len() implies delayed_ok(cx, st.pos, #[trigger] pending(cx, st)[i]) by {
        let t = pending(cx, st)[i];
        if i < a.len() { assert(t == a[i]); }
        else { assert(t == kd[i - a.len()]); let k = d.index_of(t); assert(d[k] == t); }
    }
}
proof fn eligible_ok(cx: Cx, st: St, t: T)
    requires wf(cx.tb, cx.w), good(cx, st), eligible(cx, st).contains(t),
    ensures st.pos + t.length <= cx.w.len(), zero_ok(cx.tb, cx.w, t), !st.seen.contains(sub_of(t)), allowed(cx, st).contains(t),
{
    reveal(wf); reveal(good); reveal(eligible); reveal(allowed);
    keep_in(allowed(cx, st), unseen(st.seen));
    let i = eligible(cx, st).index_of(t);
    assert(eligible(cx, st)[i] == t);
    let al = allowed(cx, st);
    let k = al.index_of(t);
    assert(al[k] == t);
    pending_ok(cx, st);
    let (d, e) = (found(cx, st), pending(cx, st));
    keep_in(d, off0()); keep_in(e, off0());
    let (kd, ke) = (keep(d, off0()), keep(e, off0()));
    if k < kd.len() { assert(t == kd[k]); let j = d.index_of(t); assert(d[j] == t); }
    else { assert(t == ke[k - kd.len()]); let j = e.index_of(t); assert(e[j] == t); }
}
proof fn later_ok(cx: Cx, st: St, d: usize)
    requires wf(cx.tb, cx.w), good(cx, st),
    ensures forall|i: int| 0 <= i < shift(keep(pending(cx, st), offn()), d).len() ==> delayed_ok(cx, (st.pos + d) as nat, #[trigger] shift(keep(pending(cx, st), offn()), d)[i]),
{
    pending_ok(cx, st);
    let p = pending(cx, st);
    let l = keep(p, offn());
    keep_in(p, offn());
    shift_in(l, d);
    assert forall|i: int| 0 <= i < shift(l, d).len() implies delayed_ok(cx, (st.pos + d) as nat, #[trigger] shift(l, d)[i]) by {
        let k = choose|k: int| 0 <= k < l.len() && l[k].offset >= d && shift(l, d)[i] == (ResolvedTranslation { offset: (l[k].offset - d) as usize, ..l[k] });
        assert(p.contains(l[k]));
        let z = p.index_of(l[k]);
        assert(delayed_ok(cx, st.pos, p[z]));
    }
}
proof fn step_good(cx: Cx, a: St, b: St)
    requires wf(cx.tb, cx.w), good(cx, a), step(cx, a, b),
    ensures good(cx, b),
        b.pos > a.pos || (b.pos == a.pos && a.seen.len() < b.seen.len() <= zero_universe(cx.tb, cx.w).len()),
{
    reveal(good); reveal(choice);
    match choice(cx, a) {
        Choice::Rule(t) => {
            heaviest_is(eligible(cx, a));
            eligible_ok(cx, a, t);
            later_ok(cx, a, t.length);
            assert(b.out.drop_last() =~= a.out);
            if t.length == 0 {
                let z = zero_universe(cx.tb, cx.w);
                assert(b.seen.subset_of(z));
                vstd::set_lib::lemma_len_subset(b.seen, z);
            }
        }
        Choice::Char(c) => { later_ok(cx, a, 1); assert(b.out.drop_last() =~= a.out); }
        Choice::End => {}
    }
}
proof fn run_push(cx: Cx, h: Seq<St>, b: St)
    requires run(cx, h), step(cx, h.last(), b),
    ensures run(cx, h.push(b)),
{
    reveal(run);
    let g = h.push(b);
    assert forall|i: int| 0 <= i < g.len() - 1 implies #[trigger] step(cx, g[i], g[i + 1]) by {
        if i < h.len() - 1 { assert(step(cx, h[i], h[i + 1])); }
    }
}
proof fn chosen_ok(cx: Cx, st: St)
    requires wf(cx.tb, cx.w), good(cx, st),
    ensures match heaviest(eligible(cx, st)) { Some(t) => st.pos + t.length <= cx.w.len(), None => true },
{
    heaviest_is(eligible(cx, st));
    if let Some(t) = heaviest(eligible(cx, st)) { eligible_ok(cx, st, t); }
}
proof fn heaviest_push(s: Seq<T>, t: T)
    ensures heaviest(s.push(t)) == (match heaviest(s) { Some(m) => if m.weight > t.weight { Some(m) } else { Some(t) }, None => Some(t) }),
{ assert(s.push(t).drop_last() =~= s); }
@fn translator/table/multipass.rs MultipassTable::trace loops=3 owned_iter vecextend optmap slice=t.effects()
@subst input . chars ( ) =>> chars_of ( input )
@subst HashSet < TranslationSubset > =>> Seen
@subst HashSet :: default ( ) =>> Seen :: default ( )
@subst chars . as_str ( ) . len ( ) == input . len ( ) =>> nothing_consumed ( & chars , input )
@subst t . input ( ) . chars ( ) . last ( ) =>> last_char ( & t . input ( ) )
@subst & next_char . to_string ( ) =>> & char_string ( next_char )
@spec
    requires wf(*self, input@),
    ensures explained(Cx { tb: *self, w: input@ }, r@),
@loop 0 pre
    let ghost cx = Cx { tb: *self, w: input@ };
    let ghost mut hist: Seq<St> = seq![start()];
    proof {
        assert(input@.skip(0) =~= input@);
        assert(run(cx, hist)) by { reveal(run); }
        assert(good(cx, hist.last())) by { reveal(good); }
        assert(delayed_translations@ =~= Seq::<T>::empty());
        assert(translations@ =~= Seq::<T>::empty());
    }
    let ghost mut pos: int = 0;
@loop 0
    invariant_except_break
        hist.last() == (St { pos: pos as nat, seen: seen@, env: env, delayed: delayed_translations@, out: translations@ }),
    invariant
        cx.tb == *self, cx.w == input@, wf(*self, input@),
        input@.len() <= isize::MAX, 0 <= pos <= input@.len(),
        chars@ == cx.w.skip(pos as int),
        run(cx, hist), good(cx, hist.last()),
    ensures
        explained(cx, translations@),
    decreases input@.len() - pos, zero_universe(cx.tb, cx.w).len() - seen@.len(),
@loop 0 start
    let ghost a = hist.last();
@before let candidate
    let ghost later = delayed_translations@;
    proof {
        assert(candidates@ == allowed(cx, a)) by { reveal(allowed); reveal(pending); }
        assert(later == keep(pending(cx, a), offn())) by { reveal(pending); }
    }
@loop 1
    invariant
        __i0 <= candidates@.len(),
        __acc0 == heaviest(keep(candidates@.take(__i0 as int), unseen(seen@))),
        __acc0 is Some ==> __key0 == (__acc0->0).weight,
    decreases candidates@.len() - __i0,
@loop 1 start
    proof {
        keep_take(candidates@, unseen(seen@), __i0 as int);
        heaviest_push(keep(candidates@.take(__i0 as int), unseen(seen@)), candidates@[__i0 as int]);
    }
@loop 1 post
    proof { assert(candidates@.take(candidates@.len() as int) =~= candidates@); }
@before if let Some ( t ) = candidate
    proof {
        assert(candidate == heaviest(eligible(cx, a))) by { reveal(eligible); }
        chosen_ok(cx, a);
    }
    let ghost taken: int = if candidate is Some { (candidate->0).length as int } else { 1 };
@loop 2
    invariant
        __i1 <= __s1@.len(), __s1@ == t.effects@, env == env_all(a.env, __s1@.take(__i1 as int)),
    decreases __s1@.len() - __i1,
@loop 2 start
    proof { assert(__s1@.take(__i1 + 1).drop_last() =~= __s1@.take(__i1 as int)); assert(__s1@.take(__i1 + 1).last() == __s1@[__i1 as int]); }
@loop 2 post
    proof { assert(__s1@.take(__s1@.len() as int) =~= __s1@); }
@before break
    proof {
        assert(choice(cx, a) is End) by { reveal(choice); }
        assert(explained(cx, translations@));
    }
@loop 0 end
    proof {
        pos = pos + taken;
        let b = St { pos: pos as nat, seen: seen@, env: env, delayed: delayed_translations@, out: translations@ };
        assert(step(cx, a, b)) by { reveal(choice); }
        step_good(cx, a, b);
        run_push(cx, hist, b);
        hist = hist.push(b);
        assert(hist.last() == b);
    }
@raw
// ---- what a run promises ----
proof fn run_good(cx: Cx, h: Seq<St>, i: int)
    requires wf(cx.tb, cx.w), run(cx, h), 0 <= i < h.len(),
    ensures good(cx, h[i]),
    decreases i
{
    reveal(run);
    if i == 0 { assert(good(cx, h[0])) by { reveal(good); } }
    else { run_good(cx, h, i - 1); assert(step(cx, h[i - 1], h[i - 1 + 1])); step_good(cx, h[i - 1], h[i]); }
}
/// C03: the pieces of a pass stand for consecutive stretches that cover its text exactly
proof fn th_tiling(cx: Cx, out: Seq<T>)
    requires wf(cx.tb, cx.w), explained(cx, out),
    ensures lens(out) == cx.w.len(),
{
    let h = choose|h: Seq<St>| #[trigger] run(cx, h) && choice(cx, h.last()) is End && out == h.last().out;
    reveal(run);
    run_good(cx, h, h.len() - 1);
    reveal(choice); reveal(good);
}
/// C16: the heaviest matching rule is applied; a character is passed on only where no rule may be applied
proof fn th_selection(cx: Cx, st: St, u: T)
    requires wf(cx.tb, cx.w), good(cx, st), eligible(cx, st).contains(u),
    ensures
        choice(cx, st) is Rule ==> u.weight <= (choice(cx, st)->Rule_0).weight,
        !(choice(cx, st) is Char), !(choice(cx, st) is End),
{
    reveal(choice);
    heaviest_is(eligible(cx, st));
    let k = eligible(cx, st).index_of(u);
    assert(eligible(cx, st)[k] == u);
}
