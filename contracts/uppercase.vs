@include indication_types.vs
@include spans.vs
@type translator/indication/uppercase.rs Indicator
@type translator/indication/uppercase.rs Run
@type translator/indication/uppercase.rs WordKind
@type translator/indication/uppercase.rs Word
@type translator/indication/uppercase.rs IndicatorBuilder derive=
@raw
/// its signs stand for no character
spec fn quiet(t: Indicator) -> bool { sign_or_none(t.capsletter) && sign_or_none(t.begcapsword) && sign_or_none(t.endcapsword) && sign_or_none(t.begcaps) && sign_or_none(t.endcaps) && sign_or_none(t.begcapsphrase) && sign_or_none(t.endcapsphrase) }
spec fn letter(t: Indicator, c: char) -> bool { t.letter_chars@.contains(c) }
spec fn upper(t: Indicator, c: char) -> bool { t.uppercase_chars@.contains(c) }
/// an uppercase letter
spec fn cap(t: Indicator, c: char) -> bool { letter(t, c) && upper(t, c) }
spec fn word_char(t: Indicator, c: char) -> bool { letter(t, c) || t.mode_chars@.contains(c) }
spec fn count_letters(t: Indicator, s: Seq<char>, a: int, b: int) -> nat decreases b - a {
    if b <= a { 0 } else { count_letters(t, s, a, b - 1) + if letter(t, s[b - 1]) { 1nat } else { 0nat } }
}
proof fn count_bound(t: Indicator, s: Seq<char>, a: int, b: int)
    requires a <= b,
    ensures count_letters(t, s, a, b) <= b - a,
    decreases b - a
{ if a < b { count_bound(t, s, a, b - 1); } }
/// one indicator per uppercase letter of s[a..b)
spec fn letterwise(t: Indicator, s: Seq<char>, a: int, b: int) -> Seq<Event> decreases b - a {
    if b <= a || t.capsletter is None { seq![] }
    else if cap(t, s[b - 1]) { letterwise(t, s, a, b - 1).push(((b - 1) as usize, t.capsletter->0)) }
    else { letterwise(t, s, a, b - 1) }
}
spec fn one(p: usize, t: Option<ResolvedTranslation>) -> Seq<Event> { if t is Some { seq![(p, t->0)] } else { seq![] } }
/// indicators of one run of capitals inside a mixed word
spec fn run_events(t: Indicator, s: Seq<char>, r: Run) -> Seq<Event> {
    if r.letter_count == 1 && t.capsletter is Some { one(r.open, t.capsletter) }
    else if t.begcapsword is Some && !r.needs_close { one(r.open, t.begcapsword) }
    else if t.begcapsword is Some && t.endcapsword is Some { one(r.open, t.begcapsword) + one(r.close_trigger, t.endcapsword) }
    else if t.begcaps is Some { one(r.open, t.begcaps) + one(r.close, t.endcaps) }
    else { letterwise(t, s, r.open as int, r.close as int) }
}
/// indicators of one all-capital word
spec fn word_events(t: Indicator, s: Seq<char>, w: (usize, usize, usize)) -> Seq<Event> {
    if w.2 == 1 && t.capsletter is Some { one(w.0, t.capsletter) }
    else if t.begcapsword is Some { one(w.0, t.begcapsword) }
    else if t.begcaps is Some { one(w.0, t.begcaps) + one(w.1, t.endcaps) }
    else { letterwise(t, s, w.0 as int, w.1 as int) }
}
spec fn each_word(t: Indicator, s: Seq<char>, g: Seq<(usize, usize, usize)>) -> Seq<Event> decreases g.len() {
    if g.len() == 0 { seq![] } else { each_word(t, s, g.drop_last()) + word_events(t, s, g.last()) }
}
/// indicators of a passage of consecutive all-capital words
spec fn group_events(t: Indicator, s: Seq<char>, g: Seq<(usize, usize, usize)>, words: nat) -> Seq<Event> {
    if words >= t.len_phrase && t.begcapsphrase is Some {
        one(g[0].0, t.begcapsphrase) + (
            if t.endcapsphrase is Some && t.endcapsphrase_before { word_events(t, s, g.last()) }
            else if t.endcapsphrase is Some { one(g.last().1, t.endcapsphrase) }
            else { one(g.last().1, t.endcaps) })
    } else if words >= t.len_phrase && t.begcaps is Some {
        one(g[0].0, t.begcaps) + one(g.last().1, t.endcaps)
    } else { each_word(t, s, g) }
}
/// `w` classifies the letters of s[w.start..w.end)
spec fn classified(t: Indicator, s: Seq<char>, w: Word) -> bool {
    match w.kind {
        WordKind::WholeUpper { open, close, letter_count } => {
            &&& w.start <= open < close <= w.end <= s.len()
            &&& letter(t, s[open as int]) && letter(t, s[close - 1])
            &&& forall|i: int| w.start <= i < w.end && letter(t, #[trigger] s[i]) ==> upper(t, s[i]) && open <= i < close
            &&& letter_count == count_letters(t, s, w.start as int, w.end as int)
        }
        WordKind::Partial => {
            (forall|i: int| w.start <= i < w.end ==> !letter(t, #[trigger] s[i]))
            || exists|i: int| w.start <= i < w.end && letter(t, #[trigger] s[i]) && !upper(t, s[i])
        }
    }
}
/// `rs` lists exactly the maximal runs of capitals of s[a..b) (mode characters are transparent)
spec fn one_run(t: Indicator, s: Seq<char>, b: int, r: Run) -> bool {
    &&& r.open < r.close <= b <= s.len()
    &&& cap(t, s[r.open as int]) && cap(t, s[r.close - 1])
    &&& forall|i: int| r.open <= i < r.close && letter(t, #[trigger] s[i]) ==> upper(t, s[i])
    &&& r.letter_count == count_letters(t, s, r.open as int, r.close as int)
    &&& if r.needs_close {
            r.close <= r.close_trigger < b && letter(t, s[r.close_trigger as int]) && !upper(t, s[r.close_trigger as int])
            && forall|i: int| r.close <= i < r.close_trigger ==> !letter(t, #[trigger] s[i])
        } else {
            r.close_trigger == r.close && forall|i: int| r.close <= i < b ==> !letter(t, #[trigger] s[i])
        }
}
#[verifier::opaque]
spec fn runs_upto(t: Indicator, s: Seq<char>, a: int, pos: int, b: int, rs: Seq<Run>) -> bool {
    &&& forall|k: int| 0 <= k < rs.len() ==> one_run(t, s, b, #[trigger] rs[k]) && a <= rs[k].open && rs[k].close <= pos
    &&& forall|k: int| 0 < k < rs.len() ==> rs[k - 1].close <= (#[trigger] rs[k]).open && rs[k - 1].needs_close
    &&& forall|i: int| a <= i < pos && cap(t, #[trigger] s[i]) ==> in_run(rs, i)
}
spec fn in_run(rs: Seq<Run>, i: int) -> bool { exists|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).open <= i < rs[k].close }
proof fn runs_skip(t: Indicator, s: Seq<char>, a: int, pos: int, b: int, rs: Seq<Run>)
    requires runs_upto(t, s, a, pos, b, rs), a <= pos, !cap(t, s[pos]),
    ensures runs_upto(t, s, a, pos + 1, b, rs),
{ reveal(runs_upto); }
proof fn runs_none(t: Indicator, s: Seq<char>, a: int, b: int)
    ensures runs_upto(t, s, a, a, b, seq![]),
{ reveal(runs_upto); }
proof fn runs_push(t: Indicator, s: Seq<char>, a: int, pos: int, end: int, b: int, rs: Seq<Run>, r: Run)
    requires runs_upto(t, s, a, pos, b, rs), a <= pos == r.open, one_run(t, s, b, r), rs.len() > 0 ==> rs.last().needs_close,
        r.close <= end, forall|i: int| r.close <= i < end ==> !letter(t, #[trigger] s[i]),
    ensures runs_upto(t, s, a, end, b, rs.push(r)),
{
    reveal(runs_upto);
    let q = rs.push(r);
    assert forall|k: int| 0 < k < q.len() implies q[k - 1].close <= (#[trigger] q[k]).open && q[k - 1].needs_close by {
        if k == rs.len() { assert(q[k - 1] == rs[rs.len() - 1]); } else { assert(q[k] == rs[k]); assert(q[k - 1] == rs[k - 1]); }
    }
    assert forall|i: int| a <= i < end && cap(t, #[trigger] s[i]) implies in_run(q, i) by {
        if i < pos { assert(in_run(rs, i)); let k = choose|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).open <= i < rs[k].close; assert(q[k] == rs[k]); }
        else if i < r.close { assert(q[rs.len() as int] == r); }
    }
}
proof fn count_gap(t: Indicator, s: Seq<char>, a: int, b: int, c: int)
    requires a <= b <= c, forall|x: int| b <= x < c ==> !letter(t, #[trigger] s[x]),
    ensures count_letters(t, s, a, c) == count_letters(t, s, a, b),
    decreases c - b
{ if b < c { count_gap(t, s, a, b, c - 1); } }
spec fn partial_events(t: Indicator, s: Seq<char>, rs: Seq<Run>) -> Seq<Event> decreases rs.len() {
    if rs.len() == 0 { seq![] } else { partial_events(t, s, rs.drop_last()) + run_events(t, s, rs.last()) }
}
proof fn each_word_step(t: Indicator, s: Seq<char>, g: Seq<(usize, usize, usize)>, i: int)
    requires 0 <= i < g.len(),
    ensures each_word(t, s, g.take(i + 1)) == each_word(t, s, g.take(i)) + word_events(t, s, g[i]),
{ assert(g.take(i + 1).drop_last() =~= g.take(i)); }
@fn translator/indication/uppercase.rs Indicator::is_indicating
@spec
    ensures r == (self.capsletter is Some || self.begcapsword is Some || self.begcaps is Some || self.begcapsphrase is Some),
@fn translator/indication/uppercase.rs Indicator::is_letter
@spec
    ensures r == letter(*self, c),
@fn translator/indication/uppercase.rs Indicator::is_upper
@spec
    ensures r == upper(*self, c),
@fn translator/indication/uppercase.rs Indicator::is_word_char
@spec
    ensures r == word_char(*self, c),
@fn translator/indication/uppercase.rs Indicator::is_space
@spec
    ensures r == is_ws(self.character_classes, c),
@fn translator/indication/uppercase.rs Indicator::find_words
@subst find_spans ( chars , 0 , chars . len ( ) , | c | self . is_word_char ( c ) ) =>> find_spans ( chars , 0 , chars . len ( ) , vxraw ! ( "|c: char| -> (b: bool) ensures b == word_char(*self, c) { self.is_word_char(c) }, Ghost(|c: char| word_char(*self, c))" ) )
@spec
    ensures spans_upto(chars@, 0, chars@.len() as int, |c: char| word_char(*self, c), r@),
@fn translator/indication/uppercase.rs Indicator::classify_word loops=1
@subst first_letter . get_or_insert ( i ) =>> if first_letter . is_none ( ) { first_letter = Some ( i ) }
@spec
    requires start <= end <= chars@.len(),
    ensures r.start == start, r.end == end, classified(*self, chars@, r),
@loop 0
    invariant
        start <= __i0 <= __n0 == end <= chars@.len(),
        letter_count == count_letters(*self, chars@, start as int, __i0 as int), letter_count <= __i0 - start,
        has_upper || has_lower <==> first_letter is Some, first_letter is Some <==> last_letter is Some,
        first_letter is Some ==> start <= first_letter->0 <= last_letter->0 < __i0 && letter(*self, chars@[first_letter->0 as int]) && letter(*self, chars@[last_letter->0 as int]),
        forall|i: int| start <= i < __i0 && letter(*self, #[trigger] chars@[i]) ==> first_letter is Some && first_letter->0 <= i <= last_letter->0,
        !has_lower ==> forall|i: int| start <= i < __i0 && letter(*self, #[trigger] chars@[i]) ==> upper(*self, chars@[i]),
        has_lower ==> exists|i: int| start <= i < __i0 && letter(*self, #[trigger] chars@[i]) && !upper(*self, chars@[i]),
    decreases end - __i0,
@fn translator/indication/uppercase.rs Indicator::upper_runs loops=3
@spec
    requires start <= end <= chars@.len(),
    ensures runs_upto(*self, chars@, start as int, end as int, end as int, r@),
@entry
    proof { runs_none(*self, chars@, start as int, end as int); }
@loop 0
    invariant
        start <= i <= end <= chars@.len(),
        runs_upto(*self, chars@, start as int, i as int, end as int, runs@),
        runs@.len() > 0 && !runs@.last().needs_close ==> i == end,
    decreases end - i,
@loop 0 start
    let ghost i0 = i as int;
    let ghost runs0 = runs@;
    proof { assert(!cap(*self, chars@[i0]) ==> runs_upto(*self, chars@, start as int, i0 + 1, end as int, runs0)) by { if !cap(*self, chars@[i0]) { runs_skip(*self, chars@, start as int, i0, end as int, runs0); } } }
@loop 1 pre
    proof { reveal_with_fuel(count_letters, 3); }
@loop 1
    invariant
        start <= open == i0 < close <= j <= end <= chars@.len(), i == i0,
        cap(*self, chars@[open as int]), cap(*self, chars@[close - 1]),
        forall|x: int| open <= x < close && letter(*self, #[trigger] chars@[x]) ==> upper(*self, chars@[x]),
        forall|x: int| close <= x < j ==> !letter(*self, #[trigger] chars@[x]),
        letter_count == count_letters(*self, chars@, open as int, close as int), letter_count <= close - open,
    ensures
        j < end ==> letter(*self, chars@[j as int]) && !upper(*self, chars@[j as int]),
    decreases end - j,
@loop 1 start
    proof { count_gap(*self, chars@, open as int, close as int, j as int); }
@loop 2
    invariant_except_break
        !needs_close,
    invariant
        close <= k <= end <= chars@.len(), 
        !needs_close ==> close_trigger == close,
        forall|x: int| close <= x < k ==> !letter(*self, #[trigger] chars@[x]),
    ensures
        needs_close ==> k < end && close_trigger == k && letter(*self, chars@[k as int]),
        !needs_close ==> k == end,
    decreases end - k,
@before i = j
    proof {
        assert(needs_close ==> close_trigger == j) by {
            if needs_close { if k < j { assert(!letter(*self, chars@[k as int])); } if j < k { assert(!letter(*self, chars@[j as int])); } }
        }
        assert(!needs_close ==> j == end);
        runs_push(*self, chars@, start as int, i0, j as int, end as int, runs0, runs@.last());
        assert(runs@ =~= runs0.push(runs@.last()));
    }
@fn translator/indication/uppercase.rs Indicator::emit_letterwise loops=1
@spec
    requires start <= end <= chars@.len(),
    ensures final(result)@ == old(result)@ + letterwise(*self, chars@, start as int, end as int),
@loop 0
    invariant
        start <= __i0 <= __n0 == end <= chars@.len(), self.capsletter is Some, *t == self.capsletter->0,
        result@ == old(result)@ + letterwise(*self, chars@, start as int, __i0 as int),
    decreases end - __i0,
@fn translator/indication/uppercase.rs Indicator::emit_run
@spec
    requires run.open <= run.close <= chars@.len(),
    ensures final(result)@ == old(result)@ + run_events(*self, chars@, *run),
@raw
proof fn runs_bounds(t: Indicator, s: Seq<char>, a: int, pos: int, b: int, rs: Seq<Run>, k: int)
    requires runs_upto(t, s, a, pos, b, rs), 0 <= k < rs.len(),
    ensures one_run(t, s, b, rs[k]), a <= rs[k].open, rs[k].close <= pos,
{ reveal(runs_upto); }
@fn translator/indication/uppercase.rs Indicator::emit_partial_word loops=1
@subst in self . upper_runs ( chars , start , end ) =>> in & self . upper_runs ( chars , start , end )
@subst self . emit_run ( chars , & run , result ) =>> self . emit_run ( chars , run , result )
@spec
    requires start <= end <= chars@.len(),
    ensures exists|rs: Seq<Run>| runs_upto(*self, chars@, start as int, end as int, end as int, rs)
        && final(result)@ == old(result)@ + #[trigger] partial_events(*self, chars@, rs),
@loop 0
    invariant
        __i0 <= __s0@.len(), end <= chars@.len(),
        runs_upto(*self, chars@, start as int, end as int, end as int, __s0@),
        result@ == old(result)@ + partial_events(*self, chars@, __s0@.take(__i0 as int)),
    decreases __s0@.len() - __i0,
@loop 0 start
    proof {
        runs_bounds(*self, chars@, start as int, end as int, end as int, __s0@, __i0 as int);
        assert(__s0@.take(__i0 + 1).drop_last() =~= __s0@.take(__i0 as int));
        assert(__s0@.take(__i0 + 1).last() == __s0@[__i0 as int]);
    }
    let ghost result0 = result@;
@loop 0 end
    proof { assert(result@ =~= old(result)@ + (partial_events(*self, chars@, __s0@.take(__i0 - 1)) + run_events(*self, chars@, *run))); }
@loop 0 post
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
@fn translator/indication/uppercase.rs Indicator::emit_whole_word
@spec
    requires open <= close <= chars@.len(),
    ensures final(result)@ == old(result)@ + word_events(*self, chars@, (open, close, letter_count)),
@fn translator/indication/uppercase.rs Indicator::emit_group loops=1 slice=group
@spec
    requires group@.len() > 0, forall|k: int| 0 <= k < group@.len() ==> (#[trigger] group@[k]).0 <= group@[k].1 <= chars@.len(),
    ensures final(result)@ == old(result)@ + group_events(*self, chars@, group@, linguistic_words as nat),
@loop 0
    invariant
        __i0 <= group@.len(),
        forall|k: int| 0 <= k < group@.len() ==> (#[trigger] group@[k]).0 <= group@[k].1 <= chars@.len(),
        result@ == old(result)@ + each_word(*self, chars@, group@.take(__i0 as int)),
    decreases group@.len() - __i0,
@loop 0 end
    proof { each_word_step(*self, chars@, group@, __i0 - 1); }
@loop 0 post
    proof { assert(group@.take(group@.len() as int) =~= group@); }
@raw
// ---- the run list of a word is unique, so it can be named by a function ----
proof fn runs_sorted(t: Indicator, s: Seq<char>, a: int, b: int, rs: Seq<Run>, i: int, j: int)
    requires runs_upto(t, s, a, b, b, rs), 0 <= i < j < rs.len(),
    ensures rs[i].close <= rs[j].open,
    decreases j - i
{ runs_adjacent(t, s, a, b, rs, j); if i < j - 1 { runs_sorted(t, s, a, b, rs, i, j - 1); runs_bounds(t, s, a, b, b, rs, j - 1); } }
proof fn runs_adjacent(t: Indicator, s: Seq<char>, a: int, b: int, rs: Seq<Run>, j: int)
    requires runs_upto(t, s, a, b, b, rs), 0 < j < rs.len(),
    ensures rs[j - 1].close <= rs[j].open,
{ reveal(runs_upto); }
proof fn run_same_close(t: Indicator, s: Seq<char>, b: int, x: Run, y: Run)
    requires one_run(t, s, b, x), one_run(t, s, b, y), x.open == y.open,
    ensures x == y,
{
    if x.close < y.close { assert(letter(t, s[y.close - 1])); if x.needs_close { assert(x.close_trigger < y.close) by { if x.close_trigger >= y.close { assert(!letter(t, s[y.close - 1])); } } assert(upper(t, s[x.close_trigger as int])); } else { assert(!letter(t, s[y.close - 1])); } }
    if y.close < x.close { assert(letter(t, s[x.close - 1])); if y.needs_close { assert(y.close_trigger < x.close) by { if y.close_trigger >= x.close { assert(!letter(t, s[x.close - 1])); } } assert(upper(t, s[y.close_trigger as int])); } else { assert(!letter(t, s[x.close - 1])); } }
    assert(x.close == y.close);
    if x.needs_close && !y.needs_close { assert(letter(t, s[x.close_trigger as int])); }
    if y.needs_close && !x.needs_close { assert(letter(t, s[y.close_trigger as int])); }
    if x.needs_close && y.needs_close {
        if x.close_trigger < y.close_trigger { assert(!letter(t, s[x.close_trigger as int])); }
        if y.close_trigger < x.close_trigger { assert(!letter(t, s[y.close_trigger as int])); }
    }
}
/// with equal first k runs, run k of q exists and does not start later than run k of r
proof fn runs_next(t: Indicator, s: Seq<char>, a: int, b: int, r: Seq<Run>, q: Seq<Run>, k: int)
    requires runs_upto(t, s, a, b, b, r), runs_upto(t, s, a, b, b, q), 0 <= k < r.len(), k <= q.len(),
        forall|i: int| 0 <= i < k ==> r[i] == q[i],
    ensures k < q.len(), q[k].open <= r[k].open,
{
    runs_bounds(t, s, a, b, b, r, k);
    assert(in_run(q, r[k].open as int)) by { reveal(runs_upto); }
    let m = choose|m: int| 0 <= m < q.len() && (#[trigger] q[m]).open <= r[k].open < q[m].close;
    if m < k { runs_sorted(t, s, a, b, r, m, k); assert(r[m] == q[m]); }
    if m > k { runs_sorted(t, s, a, b, q, k, m); runs_bounds(t, s, a, b, b, q, k); }
}
proof fn runs_unique(t: Indicator, s: Seq<char>, a: int, b: int, r: Seq<Run>, q: Seq<Run>, k: int)
    requires runs_upto(t, s, a, b, b, r), runs_upto(t, s, a, b, b, q), 0 <= k <= r.len(), k <= q.len(),
        forall|i: int| 0 <= i < k ==> r[i] == q[i],
    ensures r == q,
    decreases r.len() - k
{
    if k < r.len() {
        runs_next(t, s, a, b, r, q, k);
        runs_next(t, s, a, b, q, r, k);
        runs_bounds(t, s, a, b, b, r, k);
        runs_bounds(t, s, a, b, b, q, k);
        run_same_close(t, s, b, r[k], q[k]);
        runs_unique(t, s, a, b, r, q, k + 1);
    } else if k < q.len() { runs_next(t, s, a, b, q, r, k); } else { assert(r =~= q); }
}
spec fn runs_of(t: Indicator, s: Seq<char>, a: int, b: int) -> Seq<Run> { choose|rs: Seq<Run>| runs_upto(t, s, a, b, b, rs) }
spec fn mixed_events(t: Indicator, s: Seq<char>, a: int, b: int) -> Seq<Event> { partial_events(t, s, runs_of(t, s, a, b)) }

// ---- passages: maximal series of all-capital words ----
struct Scan { evs: Seq<Event>, group: Seq<(usize, usize, usize)>, words: nat, prev: Option<usize> }
spec fn has_space(t: Indicator, s: Seq<char>, a: int, b: int) -> bool { exists|i: int| a <= i < b && is_ws(t.character_classes, #[trigger] s[i]) }
spec fn flush(t: Indicator, s: Seq<char>, st: Scan) -> Seq<Event> {
    if st.group.len() == 0 { st.evs } else { st.evs + group_events(t, s, st.group, st.words) }
}
spec fn scan(t: Indicator, s: Seq<char>, ws: Seq<Word>) -> Scan decreases ws.len() {
    if ws.len() == 0 { Scan { evs: seq![], group: seq![], words: 0, prev: None } }
    else {
        let st = scan(t, s, ws.drop_last());
        match ws.last().kind {
            WordKind::WholeUpper { open, close, letter_count } => Scan {
                evs: st.evs, group: st.group.push((open, close, letter_count)),
                // a word separated by white space counts; hyphenated segments of one word do not
                words: st.words + if st.prev is None || has_space(t, s, st.prev->0 as int, open as int) { 1nat } else { 0nat },
                prev: Some(close),
            },
            WordKind::Partial => Scan {
                evs: flush(t, s, st) + mixed_events(t, s, ws.last().start as int, ws.last().end as int),
                group: seq![], words: if st.group.len() == 0 { st.words } else { 0 }, prev: None,
            },
        }
    }
}
spec fn words_of(t: Indicator, s: Seq<char>, ws: Seq<Word>) -> bool {
    &&& spans_upto(s, 0, s.len() as int, |c: char| word_char(t, c), ws.map(|i: int, w: Word| (w.start, w.end)))
    &&& forall|k: int| 0 <= k < ws.len() ==> classified(t, s, #[trigger] ws[k])
}
/// the run list named in `mixed_events` exists for every mixed word
spec fn runs_known(t: Indicator, s: Seq<char>, ws: Seq<Word>) -> bool {
    forall|k: int| 0 <= k < ws.len() && (#[trigger] ws[k]).kind is Partial ==> runs_upto(t, s, ws[k].start as int, ws[k].end as int, ws[k].end as int, runs_of(t, s, ws[k].start as int, ws[k].end as int))
}
spec fn scan_wf(t: Indicator, s: Seq<char>, st: Scan, limit: int) -> bool {
    &&& forall|k: int| 0 <= k < st.group.len() ==> (#[trigger] st.group[k]).0 <= st.group[k].1 <= s.len()
    &&& (st.prev is Some ==> st.prev->0 <= limit) && st.words <= st.group.len() <= limit
}
proof fn spans_bounds(chars: Seq<char>, p: spec_fn(char) -> bool, r: Seq<(usize, usize)>, k: int)
    requires spans_upto(chars, 0, chars.len() as int, p, r), 0 <= k < r.len(),
    ensures r[k].0 < r[k].1 <= chars.len(), k > 0 ==> r[k - 1].1 < r[k].0, k <= r[k].0,
    decreases k
{ reveal(spans_upto); if k > 0 { spans_bounds(chars, p, r, k - 1); } }
proof fn scan_step(t: Indicator, s: Seq<char>, ws: Seq<Word>, k: int)
    requires 0 <= k < ws.len(),
    ensures ws.take(k + 1).drop_last() == ws.take(k), ws.take(k + 1).last() == ws[k],
{ assert(ws.take(k + 1).drop_last() =~= ws.take(k)); }
@fn translator/indication/uppercase.rs Indicator::precompute loops=3
@subst result . sort_by_key ( | ( pos , _ ) | * pos ) =>> sort_events ( & mut result )
@subst self . find_words ( & chars ) . into_iter ( ) . map ( | ( s , e ) | self . classify_word ( & chars , s , e ) ) . collect ( ) =>> self . find_words ( & chars ) . iter ( ) . map ( | & ( s , e ) | self . classify_word ( & chars , s , e ) ) . collect ( )
@spec
    ensures
        self.capsletter is None && self.begcapsword is None && self.begcaps is None && self.begcapsphrase is None ==> r@.len() == 0,
        self.capsletter is Some || self.begcapsword is Some || self.begcaps is Some || self.begcapsphrase is Some ==>
            exists|ws: Seq<Word>| words_of(*self, input@, ws) && runs_known(*self, input@, ws) && r@ == by_pos(flush(*self, input@, #[trigger] scan(*self, input@, ws))),
@loop 0
    invariant
        __i0 <= __s0@.len(), chars@ == input@,
        spans_upto(chars@, 0, chars@.len() as int, |c: char| word_char(*self, c), __s0@),
        __acc0@.len() == __i0,
        forall|k: int| 0 <= k < __i0 ==> classified(*self, chars@, #[trigger] __acc0@[k]) && __acc0@[k].start == __s0@[k].0 && __acc0@[k].end == __s0@[k].1,
    decreases __s0@.len() - __i0,
@loop 0 start
    proof { spans_bounds(chars@, |c: char| word_char(*self, c), __s0@, __i0 as int); }
@loop 0 post
    proof { assert(__acc0@.map(|i: int, w: Word| (w.start, w.end)) =~= __s0@); }
@loop 1
    invariant
        __i1 <= words@.len(), chars@ == input@, words_of(*self, chars@, words@), chars@.len() <= isize::MAX,
        runs_known(*self, chars@, words@.take(__i1 as int)),
        ({ let st = scan(*self, chars@, words@.take(__i1 as int));
           &&& result@ == st.evs && group@ == st.group && linguistic_words as nat == st.words && prev_close == st.prev
           &&& scan_wf(*self, chars@, st, if __i1 == 0 { 0 } else { words@[__i1 - 1].end as int }) }),
    decreases words@.len() - __i1,
@loop 1 start
    proof {
        scan_step(*self, chars@, words@, __i1 as int);
        let sp = words@.map(|i: int, w: Word| (w.start, w.end));
        spans_bounds(chars@, |c: char| word_char(*self, c), sp, __i1 as int);
        assert(sp[__i1 as int] == (words@[__i1 as int].start, words@[__i1 as int].end));
        if __i1 > 0 { assert(sp[__i1 - 1] == (words@[__i1 - 1].start, words@[__i1 - 1].end)); }
        assert(classified(*self, chars@, words@[__i1 as int]));
        assert forall|rs: Seq<Run>| #[trigger] runs_upto(*self, chars@, words@[__i1 as int].start as int, words@[__i1 as int].end as int, words@[__i1 as int].end as int, rs) implies rs == runs_of(*self, chars@, words@[__i1 as int].start as int, words@[__i1 as int].end as int) by {
            runs_unique(*self, chars@, words@[__i1 as int].start as int, words@[__i1 as int].end as int, rs, runs_of(*self, chars@, words@[__i1 as int].start as int, words@[__i1 as int].end as int), 0);
        }
    }
@loop 2
    invariant
        __i2 <= __s2@.len(), prev <= open <= chars@.len(), __s2@ == chars@.subrange(prev as int, open as int),
        !__acc2 ==> forall|i: int| prev <= i < prev + __i2 ==> !is_ws(self.character_classes, #[trigger] chars@[i]),
        __acc2 ==> has_space(*self, chars@, prev as int, open as int),
    ensures __acc2 || __i2 == __s2@.len(),
    decreases __s2@.len() - __i2,
@loop 2 start
    proof { assert(__s2@[__i2 as int] == chars@[prev + __i2]); assert(is_ws(self.character_classes, chars@[prev + __i2]) ==> has_space(*self, chars@, prev as int, open as int)); }
@loop 1 post
    proof { assert(words@.take(words@.len() as int) =~= words@); }
@raw
// ---- no sign outside of the text ----
proof fn letterwise_upto(t: Indicator, s: Seq<char>, a: int, b: int, n: int)
    requires quiet(t), 0 <= a, b <= n <= usize::MAX,
    ensures all_upto(letterwise(t, s, a, b), n),
    decreases b - a,
{ if b > a { letterwise_upto(t, s, a, b - 1, n); } }
proof fn partial_upto(t: Indicator, s: Seq<char>, a: int, b: int, rs: Seq<Run>, m: int)
    requires quiet(t), runs_upto(t, s, a, b, b, rs), 0 <= m <= rs.len(), b <= s.len() <= usize::MAX,
    ensures all_upto(partial_events(t, s, rs.take(m)), s.len() as int),
    decreases m,
{
    if m > 0 {
        partial_upto(t, s, a, b, rs, m - 1);
        assert(rs.take(m).drop_last() =~= rs.take(m - 1));
        runs_bounds(t, s, a, b, b, rs, m - 1);
        letterwise_upto(t, s, rs[m - 1].open as int, rs[m - 1].close as int, s.len() as int);
    }
}
proof fn word_upto(t: Indicator, s: Seq<char>, w: (usize, usize, usize))
    requires quiet(t), w.0 <= w.1 <= s.len() <= usize::MAX,
    ensures all_upto(word_events(t, s, w), s.len() as int),
{ letterwise_upto(t, s, w.0 as int, w.1 as int, s.len() as int); }
proof fn each_upto(t: Indicator, s: Seq<char>, g: Seq<(usize, usize, usize)>)
    requires quiet(t), forall|k: int| 0 <= k < g.len() ==> (#[trigger] g[k]).0 <= g[k].1 <= s.len(), s.len() <= usize::MAX,
    ensures all_upto(each_word(t, s, g), s.len() as int),
    decreases g.len(),
{ if g.len() > 0 { let d = g.drop_last(); assert(forall|k: int| 0 <= k < d.len() ==> #[trigger] d[k] == g[k]); each_upto(t, s, d); word_upto(t, s, g[g.len() - 1]); } }
proof fn group_upto(t: Indicator, s: Seq<char>, g: Seq<(usize, usize, usize)>, words: nat)
    requires quiet(t), g.len() > 0, forall|k: int| 0 <= k < g.len() ==> (#[trigger] g[k]).0 <= g[k].1 <= s.len(), s.len() <= usize::MAX,
    ensures all_upto(group_events(t, s, g, words), s.len() as int),
{ each_upto(t, s, g); word_upto(t, s, g[g.len() - 1]); assert(g[0].0 <= s.len()); }
proof fn scan_upto(t: Indicator, s: Seq<char>, ws: Seq<Word>, m: int)
    requires quiet(t), words_of(t, s, ws), runs_known(t, s, ws), 0 <= m <= ws.len(), s.len() <= isize::MAX,
    ensures ({ let st = scan(t, s, ws.take(m));
        &&& all_upto(st.evs, s.len() as int)
        &&& forall|k: int| 0 <= k < st.group.len() ==> (#[trigger] st.group[k]).0 <= st.group[k].1 <= s.len() }),
    decreases m,
{
    if m > 0 {
        scan_upto(t, s, ws, m - 1);
        scan_step(t, s, ws, m - 1);
        let st = scan(t, s, ws.take(m - 1));
        let w = ws[m - 1];
        assert(classified(t, s, w));
        let p = |c: char| word_char(t, c);
        let sp = ws.map(|i: int, w: Word| (w.start, w.end));
        spans_bounds(s, p, sp, m - 1);
        assert(sp[m - 1] == (w.start, w.end));
        if st.group.len() > 0 { group_upto(t, s, st.group, st.words); }
        let rs = runs_of(t, s, w.start as int, w.end as int);
        if w.kind is Partial { partial_upto(t, s, w.start as int, w.end as int, rs, rs.len() as int); }
        assert(rs.take(rs.len() as int) =~= rs);
    }
}
proof fn th_inside(t: Indicator, s: Seq<char>, ws: Seq<Word>)
    requires quiet(t), words_of(t, s, ws), runs_known(t, s, ws), s.len() <= isize::MAX,
    ensures all_upto(by_pos(flush(t, s, scan(t, s, ws))), s.len() as int),
{
    scan_upto(t, s, ws, ws.len() as int);
    assert(ws.take(ws.len() as int) =~= ws);
    let st = scan(t, s, ws);
    if st.group.len() > 0 { group_upto(t, s, st.group, st.words); }
    by_pos_upto(flush(t, s, st), s.len() as int);
}
@raw
#[verifier::external_body]
struct TableContext { id: usize }
uninterp spec fn classes(c: TableContext) -> CharacterClasses;
impl TableContext {
    #[verifier::external_body]
    fn character_classes(&self) -> (r: &CharacterClasses) ensures *r == classes(*self) { unimplemented!() }
}
impl Clone for CharacterClasses {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// `CharacterClasses::default()`; replaced before anything is asked of it
#[verifier::external_body]
fn no_classes() -> (r: CharacterClasses) { unimplemented!() }
@type parser.rs Position
@fn translator/indication/uppercase.rs make_translation
@subst origin.clone() =>> Some(origin.clone())
@entry
    proof { reveal_strlit(""); }
@spec
    ensures sign_of(Some(r), dots@, *origin),
@fn translator/indication/uppercase.rs IndicatorBuilder::new
@subst HashSet::default() =>> HashSet::new()
@subst CharacterClasses::default() =>> no_classes()
@spec
    ensures quiet(r.0), r.0.capsletter is None, r.0.begcapsword is None, r.0.endcapsword is None, r.0.begcaps is None, r.0.endcaps is None, r.0.begcapsphrase is None, r.0.endcapsphrase is None, r.0.endcapsphrase_before, r.0.len_phrase == 2, r.0.mode_chars@ == Set::<char>::empty(),
@raw
spec fn indicating(t: Indicator) -> bool { t.capsletter is Some || t.begcapsword is Some || t.begcaps is Some || t.begcapsphrase is Some }
@fn translator/indication/uppercase.rs IndicatorBuilder::build
@spec
    requires quiet(self.0),
    ensures r is Some <==> indicating(self.0), r is Some ==> quiet(r->0) && r->0 == (Indicator { character_classes: classes(*ctx), ..self.0 }),
@fn translator/indication/uppercase.rs IndicatorBuilder::capsletter
@spec
    ensures sign_of(final(self).0.capsletter, s@, *origin), final(self).0 == (Indicator { capsletter: final(self).0.capsletter, ..old(self).0 }),
@fn translator/indication/uppercase.rs IndicatorBuilder::begcapsword
@spec
    ensures sign_of(final(self).0.begcapsword, s@, *origin), final(self).0 == (Indicator { begcapsword: final(self).0.begcapsword, ..old(self).0 }),
@fn translator/indication/uppercase.rs IndicatorBuilder::endcapsword
@spec
    ensures sign_of(final(self).0.endcapsword, s@, *origin), final(self).0 == (Indicator { endcapsword: final(self).0.endcapsword, ..old(self).0 }),
@fn translator/indication/uppercase.rs IndicatorBuilder::begcaps
@spec
    ensures sign_of(final(self).0.begcaps, s@, *origin), final(self).0 == (Indicator { begcaps: final(self).0.begcaps, ..old(self).0 }),
@fn translator/indication/uppercase.rs IndicatorBuilder::endcaps
@spec
    ensures sign_of(final(self).0.endcaps, s@, *origin), final(self).0 == (Indicator { endcaps: final(self).0.endcaps, ..old(self).0 }),
@fn translator/indication/uppercase.rs IndicatorBuilder::begcapsphrase
@spec
    ensures sign_of(final(self).0.begcapsphrase, s@, *origin), final(self).0 == (Indicator { begcapsphrase: final(self).0.begcapsphrase, ..old(self).0 }),
@fn translator/indication/uppercase.rs IndicatorBuilder::endcapsphrase
@spec
    ensures sign_of(final(self).0.endcapsphrase, s@, *origin), final(self).0 == (Indicator { endcapsphrase: final(self).0.endcapsphrase, endcapsphrase_before: position is Before, ..old(self).0 }),
@fn translator/indication/uppercase.rs IndicatorBuilder::lencapsphrase
@spec
    ensures final(self).0 == (Indicator { len_phrase: len, ..old(self).0 }),
@fn translator/indication/uppercase.rs IndicatorBuilder::capsmodechars
@subst s.chars().collect() =>> set_of(s)
@spec
    ensures final(self).0.mode_chars@ == s@.to_set(), final(self).0 == (Indicator { mode_chars: final(self).0.mode_chars, ..old(self).0 }),
@fn translator/indication/uppercase.rs IndicatorBuilder::uppercase_characters
@spec
    ensures final(self).0 == (Indicator { uppercase_chars: chars, ..old(self).0 }),
@fn translator/indication/uppercase.rs IndicatorBuilder::letter_characters
@spec
    ensures final(self).0 == (Indicator { letter_chars: chars, ..old(self).0 }),
