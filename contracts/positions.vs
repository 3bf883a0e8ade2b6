@include common.vs
@include translation_types.vs
@fn translator/translation.rs ResolvedTranslation::input
@spec
    ensures r@ == self.input@,
@fn translator/translation.rs ResolvedTranslation::output subst
@subst self . output . to_string ( ) =>> self . output . clone ( )
@spec
    ensures r@ == self.output@,
@raw
spec fn in_len(t: ResolvedTranslation) -> int { t.input@.len() as int }
spec fn out_len(t: ResolvedTranslation) -> int { t.output@.len() as int }
spec fn sum_in(ts: Seq<ResolvedTranslation>) -> int decreases ts.len() {
    if ts.len() == 0 { 0 } else { sum_in(ts.drop_last()) + in_len(ts.last()) }
}
spec fn sum_out(ts: Seq<ResolvedTranslation>) -> int decreases ts.len() {
    if ts.len() == 0 { 0 } else { sum_out(ts.drop_last()) + out_len(ts.last()) }
}
spec fn clip(i: int, len: int) -> int { if len == 0 { 0 } else if i < len { i } else { len - 1 } }
/// the map input char index -> output char index promised to callers
spec fn map_out(ts: Seq<ResolvedTranslation>) -> Seq<usize> decreases ts.len() {
    if ts.len() == 0 { seq![] } else {
        let p = ts.drop_last();
        map_out(p) + Seq::new(in_len(ts.last()) as nat, |i: int| (sum_out(p) + clip(i, out_len(ts.last()))) as usize)
    }
}
spec fn map_in(ts: Seq<ResolvedTranslation>) -> Seq<usize> decreases ts.len() {
    if ts.len() == 0 { seq![] } else {
        let p = ts.drop_last();
        map_in(p) + Seq::new(out_len(ts.last()) as nat, |i: int| (sum_in(p) + clip(i, in_len(ts.last()))) as usize)
    }
}
proof fn sums_mono(ts: Seq<ResolvedTranslation>, k: int)
    requires 0 <= k <= ts.len(),
    ensures 0 <= sum_in(ts.take(k)) <= sum_in(ts), 0 <= sum_out(ts.take(k)) <= sum_out(ts),
    decreases ts.len() - k, k
{
    if k < ts.len() {
        sums_mono(ts, k + 1);
        assert(ts.take(k + 1).drop_last() =~= ts.take(k));
        assert(ts.take(k + 1).last() == ts[k]);
    } else { assert(ts.take(k) =~= ts); if k > 0 { sums_nonneg(ts); } }
    sums_nonneg(ts.take(k));
}
proof fn sums_nonneg(ts: Seq<ResolvedTranslation>)
    ensures 0 <= sum_in(ts), 0 <= sum_out(ts),
    decreases ts.len()
{ if ts.len() > 0 { sums_nonneg(ts.drop_last()); } }

/// every entry is a valid index into the output (or 0 when there is no output), entries never decrease
proof fn positions_sound(ts: Seq<ResolvedTranslation>)
    requires sum_out(ts) <= usize::MAX, sum_in(ts) <= usize::MAX,
    ensures
        map_out(ts).len() == sum_in(ts),
        map_in(ts).len() == sum_out(ts),
        forall|i: int| 0 <= i < map_out(ts).len() ==> #[trigger] map_out(ts)[i] <= sum_out(ts),
        forall|i: int| 0 <= i < map_in(ts).len() ==> #[trigger] map_in(ts)[i] <= sum_in(ts),
        forall|i: int, j: int| 0 <= i <= j < map_out(ts).len() ==> map_out(ts)[i] <= map_out(ts)[j],
        forall|i: int, j: int| 0 <= i <= j < map_in(ts).len() ==> map_in(ts)[i] <= map_in(ts)[j],
    decreases ts.len()
{
    if ts.len() > 0 {
        sums_nonneg(ts.drop_last());
        positions_sound(ts.drop_last());
    }
}
@raw
struct Translator;
@fn lib.rs Translator::compute_output_positions loops=2 slice=translations
@spec
    requires sum_out(translations@) <= usize::MAX,
    ensures r@ == map_out(translations@),
@loop 0
    invariant
        __i0 <= translations@.len(),
        sum_out(translations@) <= usize::MAX,
        output_offset as int == sum_out(translations@.take(__i0 as int)),
        output_positions@ == map_out(translations@.take(__i0 as int)),
    decreases translations@.len() - __i0,
@loop 0 start
    proof {
        sums_mono(translations@, __i0 as int + 1);
        assert(translations@.take(__i0 as int + 1).drop_last() =~= translations@.take(__i0 as int));
        sums_nonneg(translations@.take(__i0 as int));
    }
    let ghost before = output_positions@;
@loop 1
    invariant
        translation == translations@[__i0 - 1], 1 <= __i0 <= translations@.len(),
        input_len == in_len(*translation), output_len == out_len(*translation),
        output_offset + output_len <= usize::MAX,
        output_positions@ == before + Seq::new(i as nat, |i: int| (output_offset + clip(i, out_len(*translation))) as usize),
@loop 0 end
    proof {
        assert(output_positions@ =~= map_out(translations@.take(__i0 as int)));
    }
@loop 0 post
    proof { assert(translations@.take(__i0 as int) =~= translations@); }
@fn lib.rs Translator::compute_input_positions loops=2 slice=translations
@spec
    requires sum_in(translations@) <= usize::MAX,
    ensures r@ == map_in(translations@),
@loop 0
    invariant
        __i0 <= translations@.len(),
        sum_in(translations@) <= usize::MAX,
        input_offset as int == sum_in(translations@.take(__i0 as int)),
        input_positions@ == map_in(translations@.take(__i0 as int)),
    decreases translations@.len() - __i0,
@loop 0 start
    proof {
        sums_mono(translations@, __i0 as int + 1);
        assert(translations@.take(__i0 as int + 1).drop_last() =~= translations@.take(__i0 as int));
        sums_nonneg(translations@.take(__i0 as int));
    }
    let ghost before = input_positions@;
@loop 1
    invariant
        translation == translations@[__i0 - 1], 1 <= __i0 <= translations@.len(),
        input_len == in_len(*translation), output_len == out_len(*translation),
        input_offset + input_len <= usize::MAX,
        input_positions@ == before + Seq::new(i as nat, |i: int| (input_offset + clip(i, in_len(*translation))) as usize),
@loop 0 end
    proof {
        assert(input_positions@ =~= map_in(translations@.take(__i0 as int)));
    }
@loop 0 post
    proof { assert(translations@.take(__i0 as int) =~= translations@); }
