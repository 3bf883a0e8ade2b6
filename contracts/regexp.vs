@include swap.vs
@include regexp_types.vs
@raw
#[verifier::external_body]
fn class_clone(s: &HashSet<char>) -> (r: HashSet<char>) ensures r@ == s@ { s.clone() }
spec fn pg(p: Vec<Instruction>, cc: Vec<HashSet<char>>) -> Pg { Pg { p: p@, cc: cc@ } }
/// what emitting keeps: earlier instructions and classes
spec fn ext(g: Pg, h: Pg) -> bool {
    &&& g.p.len() <= h.p.len() && forall|k: int| 0 <= k < g.p.len() ==> g.p[k] == #[trigger] h.p[k]
    &&& g.cc.len() <= h.cc.len() && forall|k: int| 0 <= k < g.cc.len() ==> g.cc[k] == #[trigger] h.cc[k]
}
/// the optional copies of a bounded repetition before their exits are known
spec fn parts(re: Regexp, n: int, ps: Seq<int>, g: Pg, a: int, b: int) -> bool {
    &&& n >= 0 && ps.len() == n + 1 && ps[0] == a && ps.last() == b && 0 <= a
    &&& forall|k: int| 0 <= k < n ==> code(re, g, #[trigger] ps[k] + 1, ps[k + 1])
}
proof fn parts_mono(re: Regexp, n: int, ps: Seq<int>, g: Pg, a: int, b: int, j: int, k: int)
    requires parts(re, n, ps, g, a, b), 0 <= j <= k <= n,
    ensures ps[j] <= ps[k], j < k ==> ps[j] < ps[k],
    decreases k - j
{ if j < k { parts_mono(re, n, ps, g, a, b, j, k - 1); assert(code(re, g, ps[k - 1] + 1, ps[k - 1 + 1])); code_in(re, g, ps[k - 1] + 1, ps[k]); } }
proof fn parts_ext(re: Regexp, n: int, ps: Seq<int>, g: Pg, h: Pg, a: int, b: int)
    requires parts(re, n, ps, g, a, b), ext(g, h), b <= g.p.len(),
    ensures parts(re, n, ps, h, a, b),
{
    assert forall|k: int| 0 <= k < n implies code(re, h, #[trigger] ps[k] + 1, ps[k + 1]) by {
        assert(code(re, g, ps[k] + 1, ps[k + 1]));
        parts_mono(re, n, ps, g, a, b, k + 1, n);
        code_frame(re, g, h, ps[k] + 1, ps[k + 1]);
    }
}
proof fn parts_patch(re: Regexp, n: int, ps: Seq<int>, g: Pg, h: Pg, a: int, b: int, i: int, ins: Instruction)
    requires parts(re, n, ps, g, a, b), 0 <= i < n, b <= g.p.len(), h == (Pg { p: g.p.update(ps[i], ins), cc: g.cc }),
    ensures parts(re, n, ps, h, a, b), a <= ps[i] < b,
{
    parts_mono(re, n, ps, g, a, b, 0, i); parts_mono(re, n, ps, g, a, b, i, n);
    assert forall|k: int| 0 <= k < n implies code(re, h, #[trigger] ps[k] + 1, ps[k + 1]) by {
        assert(code(re, g, ps[k] + 1, ps[k + 1]));
        parts_mono(re, n, ps, g, a, b, k + 1, n); parts_mono(re, n, ps, g, a, b, 0, k);
        if i <= k { parts_mono(re, n, ps, g, a, b, i, k); } else { parts_mono(re, n, ps, g, a, b, k + 1, i); }
        code_frame(re, g, h, ps[k] + 1, ps[k + 1]);
    }
}
@fn translator/regexp.rs Regexp::emit loops=8 ranges owned=splits exitlast
@subst characters . clone ( ) =>> class_clone ( characters )
@subst 0 .. * n =>> 0 .. ( * n as usize )
@subst 0 .. * min =>> 0 .. ( * min as usize )
@subst * min .. * max =>> ( * min as usize ) .. ( * max as usize )
@spec
    ensures ext(pg(*old(instructions), *old(character_classes)), pg(*final(instructions), *final(character_classes))),
        code(*self, pg(*final(instructions), *final(character_classes)), old(instructions)@.len() as int, final(instructions)@.len() as int),
    decreases self
@entry
    let ghost g0 = pg(*instructions, *character_classes);
    let ghost a = g0.p.len() as int;
    let ghost mut g1 = g0;
    let ghost mut g2 = g0;
    let ghost mut g3 = g0;
    let ghost mut ps: Seq<int> = seq![];
    let ghost mut qs: Seq<int> = seq![];
    proof { vec_bound(*instructions); }
@before right . emit
    proof { g1 = pg(*instructions, *character_classes); }
@before2 right . emit
    proof { g2 = pg(*instructions, *character_classes); }
@before let p2 =
    proof { g1 = pg(*instructions, *character_classes); vec_bound(*instructions); }
@before instructions [ p2 ] =
    proof { g3 = pg(*instructions, *character_classes); }
@before instructions [ pos ] =
    proof { g1 = pg(*instructions, *character_classes); }
@before instructions . push ( Instruction :: Jump ( pos ) )
    proof { g1 = pg(*instructions, *character_classes); }
@before instructions . push ( Instruction :: Split ( pos , instructions . len ( ) + 1 ) )
    proof { g1 = pg(*instructions, *character_classes); vec_bound(*instructions); }
@before2 instructions . push ( Instruction :: Jump ( pos ) )
    proof { g3 = pg(*instructions, *character_classes); }
@before instructions . push ( Instruction :: CaptureEnd )
    proof { g1 = pg(*instructions, *character_classes); }
@loop 0 pre
    proof { ps = seq![a]; }
@loop 0
    invariant *self == Regexp::RepeatExactly(*n, *regexp), *self is RepeatExactly, self->RepeatExactly_1 == *regexp, g0 == pg(*old(instructions), *old(character_classes)), a == g0.p.len(), __i0 <= __s0, ext(g0, pg(*instructions, *character_classes)),
        rep_code(**regexp, __i0 as int, ps, pg(*instructions, *character_classes), a, instructions@.len() as int), __s0 == *n,
    decreases __s0 - __i0,
@loop 0 start
    proof { g1 = pg(*instructions, *character_classes); }
@loop 0 end
    proof {
        let g = pg(*instructions, *character_classes);
        rep_frame(**regexp, __i0 - 1, ps, g1, g, a, g1.p.len() as int);
        let ps2 = ps.push(g.p.len() as int);
        assert forall|k: int| 0 <= k < __i0 implies code(**regexp, g, #[trigger] ps2[k], ps2[k + 1]) by {
            if k < __i0 - 1 { assert(code(**regexp, g, ps[k], ps[k + 1])); }
        }
        ps = ps2;
    }
@loop 1 pre
    proof { ps = seq![a]; }
@loop 1
    invariant *self == Regexp::RepeatAtLeast(*min, *regexp), *self is RepeatAtLeast, self->RepeatAtLeast_1 == *regexp, g0 == pg(*old(instructions), *old(character_classes)), a == g0.p.len(), __i1 <= __s1, ext(g0, pg(*instructions, *character_classes)),
        rep_code(**regexp, __i1 as int, ps, pg(*instructions, *character_classes), a, instructions@.len() as int), __s1 == *min,
    decreases __s1 - __i1,
@loop 1 start
    proof { g1 = pg(*instructions, *character_classes); }
@loop 1 end
    proof {
        let g = pg(*instructions, *character_classes);
        rep_frame(**regexp, __i1 - 1, ps, g1, g, a, g1.p.len() as int);
        let ps2 = ps.push(g.p.len() as int);
        assert forall|k: int| 0 <= k < __i1 implies code(**regexp, g, #[trigger] ps2[k], ps2[k + 1]) by {
            if k < __i1 - 1 { assert(code(**regexp, g, ps[k], ps[k + 1])); }
        }
        ps = ps2;
    }
@loop 1 post
    proof { g2 = pg(*instructions, *character_classes); vec_bound(*instructions); }
@loop 2 pre
    proof { ps = seq![a]; }
@loop 2
    invariant *self == Regexp::RepeatAtLeastAtMost(*min, *max, *regexp), *self is RepeatAtLeastAtMost, self->RepeatAtLeastAtMost_2 == *regexp, g0 == pg(*old(instructions), *old(character_classes)), a == g0.p.len(), __i2 <= __s2, ext(g0, pg(*instructions, *character_classes)),
        rep_code(**regexp, __i2 as int, ps, pg(*instructions, *character_classes), a, instructions@.len() as int), __s2 == *min,
    decreases __s2 - __i2,
@loop 2 start
    proof { g1 = pg(*instructions, *character_classes); }
@loop 2 end
    proof {
        let g = pg(*instructions, *character_classes);
        rep_frame(**regexp, __i2 - 1, ps, g1, g, a, g1.p.len() as int);
        let ps2 = ps.push(g.p.len() as int);
        assert forall|k: int| 0 <= k < __i2 implies code(**regexp, g, #[trigger] ps2[k], ps2[k + 1]) by {
            if k < __i2 - 1 { assert(code(**regexp, g, ps[k], ps[k + 1])); }
        }
        ps = ps2;
    }
@loop 2 post
    proof { g2 = pg(*instructions, *character_classes); qs = seq![g2.p.len() as int]; }
@loop 3
    invariant *self == Regexp::RepeatAtLeastAtMost(*min, *max, *regexp), *self is RepeatAtLeastAtMost, self->RepeatAtLeastAtMost_2 == *regexp, g0 == pg(*old(instructions), *old(character_classes)), a == g0.p.len(), __s3 == *max, *min <= __i3, __i3 <= __s3 || __i3 == *min, ext(g0, g2), ext(g2, pg(*instructions, *character_classes)),
        parts(**regexp, __i3 - *min, qs, pg(*instructions, *character_classes), g2.p.len() as int, instructions@.len() as int),
        splits@.len() == __i3 - *min, forall|k: int| 0 <= k < splits@.len() ==> splits@[k] == #[trigger] qs[k],
    decreases __s3 - __i3,
@loop 3 start
    proof { g1 = pg(*instructions, *character_classes); }
@loop 3 end
    proof {
        let g = pg(*instructions, *character_classes);
        let n = __i3 - *min;
        parts_ext(**regexp, n - 1, qs, g1, g, g2.p.len() as int, g1.p.len() as int);
        let ps2 = qs.push(g.p.len() as int);
        assert forall|k: int| 0 <= k < n implies code(**regexp, g, #[trigger] ps2[k] + 1, ps2[k + 1]) by {
            if k < n - 1 { assert(code(**regexp, g, qs[k] + 1, qs[k + 1])); }
        }
        assert forall|k: int| 0 <= k < splits@.len() implies splits@[k] == #[trigger] ps2[k] by { if k < n - 1 { assert(splits@[k] == qs[k]); } }
        qs = ps2;
    }
@loop 4
    invariant *self == Regexp::RepeatAtLeastAtMost(*min, *max, *regexp), *self is RepeatAtLeastAtMost, self->RepeatAtLeastAtMost_2 == *regexp, g0 == pg(*old(instructions), *old(character_classes)), a == g0.p.len(), ext(g0, g2), ext(g2, pg(*instructions, *character_classes)),
        splits@.len() == extra(*min, *max),
        parts(**regexp, extra(*min, *max), qs, pg(*instructions, *character_classes), g2.p.len() as int, instructions@.len() as int),
        __s4@ == splits@, __i4 <= __s4@.len(), forall|k: int| 0 <= k < splits@.len() ==> splits@[k] == #[trigger] qs[k],
        forall|k: int| 0 <= k < __i4 ==> split(pg(*instructions, *character_classes), #[trigger] qs[k], qs[k] + 1, instructions@.len() as int),
    decreases __s4@.len() - __i4,
@loop 4 start
    proof { g1 = pg(*instructions, *character_classes); parts_mono(**regexp, extra(*min, *max), qs, g1, g2.p.len() as int, g1.p.len() as int, __i4 as int, extra(*min, *max)); vec_bound(*instructions); }
@loop 4 end
    proof {
        let g = pg(*instructions, *character_classes);
        let n = extra(*min, *max);
        assert(g.p =~= g1.p.update(qs[__i4 - 1], g.p[qs[__i4 - 1]]));
        parts_patch(**regexp, n, qs, g1, g, g2.p.len() as int, g1.p.len() as int, __i4 - 1, g.p[qs[__i4 - 1]]);
        assert forall|k: int| 0 <= k < __i4 implies split(g, #[trigger] qs[k], qs[k] + 1, g.p.len() as int) by {
            if k < __i4 - 1 { assert(split(g1, qs[k], qs[k] + 1, g1.p.len() as int)); parts_mono(**regexp, n, qs, g1, g2.p.len() as int, g1.p.len() as int, k, __i4 - 1); parts_mono(**regexp, n, qs, g1, g2.p.len() as int, g1.p.len() as int, 0, k); }
        }
    }
@loop 5
    invariant g0 == pg(*old(instructions), *old(character_classes)), a == g0.p.len(), __s5@ == s@, __i5 <= __s5@.len(), ext(g0, pg(*instructions, *character_classes)),
        instructions@.len() == a + __i5, forall|x: int| 0 <= x < __i5 ==> instructions@[a + x] == mk(Kind::Same, #[trigger] s@[x]),
    decreases __s5@.len() - __i5,
@loop 6
    invariant g0 == pg(*old(instructions), *old(character_classes)), a == g0.p.len(), __s6@ == s@, __i6 <= __s6@.len(), ext(g0, pg(*instructions, *character_classes)),
        instructions@.len() == a + __i6, forall|x: int| 0 <= x < __i6 ==> instructions@[a + x] == mk(Kind::Differ, #[trigger] s@[x]),
    decreases __s6@.len() - __i6,
@loop 7
    invariant g0 == pg(*old(instructions), *old(character_classes)), a == g0.p.len(), __s7@ == s@, __i7 <= __s7@.len(), ext(g0, pg(*instructions, *character_classes)),
        instructions@.len() == a + __i7, forall|x: int| 0 <= x < __i7 ==> instructions@[a + x] == mk(Kind::Fold, #[trigger] s@[x]),
    decreases __s7@.len() - __i7,
@exit
    proof {
        let g = pg(*instructions, *character_classes);
        let b = g.p.len() as int;
        match self {
            Regexp::Concat(left, right) => {
                let x = g1.p.len() as int;
                code_frame(**left, g1, g, a, x);
                assert(num(x) && code(**left, g, a, x) && code(**right, g, x, b));
            }
            Regexp::Either(left, right) => {
                let x = g1.p.len() as int;
                code_in(**left, g1, a + 1, x);
                code_frame(**left, g1, g, a + 1, x);
                code_frame(**right, g3, g, x + 1, b);
                assert(g.p[a] == g2.p[a]);
                assert(num(x) && code(**left, g, a + 1, x) && code(**right, g, x + 1, b) && split(g, a, a + 1, x + 1) && jump(g, x, b));
            }
            Regexp::Optional(regexp) => { code_frame(**regexp, g1, g, a + 1, b); }
            Regexp::ZeroOrMore(regexp) => { code_in(**regexp, g1, a + 1, b - 1); code_frame(**regexp, g1, g, a + 1, b - 1); assert(star_code(**regexp, g, a, b)); }
            Regexp::OneOrMore(regexp) => { code_in(**regexp, g1, a, b - 1); code_frame(**regexp, g1, g, a, b - 1); }
            Regexp::Capture(regexp) => { code_in(**regexp, g1, a + 1, b - 1); code_frame(**regexp, g1, g, a + 1, b - 1); }
            Regexp::RepeatExactly(n, regexp) => { assert(sq(ps) && rep_code(**regexp, *n as int, ps, g, a, b)); }
            Regexp::RepeatAtLeast(n, regexp) => {
                let x = ps.last();
                rep_frame(**regexp, *n as int, ps, g2, g, a, x);
                code_in(**regexp, g3, x + 1, b - 1); code_frame(**regexp, g3, g, x + 1, b - 1);
                assert(star_code(**regexp, g, x, b));
                assert(sq(ps) && rep_code(**regexp, *n as int, ps, g, a, ps.last()) && star_code(**regexp, g, ps.last(), b));
            }
            Regexp::RepeatAtLeastAtMost(n, u, regexp) => {
                rep_frame(**regexp, *n as int, ps, g2, g, a, ps.last());
                assert(opt_code(**regexp, extra(*n, *u), qs, g, ps.last(), b));
                assert(sq(ps) && sq(qs) && rep_code(**regexp, *n as int, ps, g, a, ps.last()) && opt_code(**regexp, extra(*n, *u), qs, g, ps.last(), b));
            }
            _ => {}
        }
    }
@raw
#[verifier::external_body]
fn vec_one<X>(x: X) -> (r: Vec<X>) ensures r@ == seq![x] { vec![x] }
impl Clone for Translation {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
spec fn gp(c: CompiledRegexp) -> Pg { Pg { p: c.instructions@, cc: c.character_classes@ } }
/// the program is the translation of the pattern
spec fn is_prog(re: Regexp, c: CompiledRegexp) -> bool {
    let n = c.instructions@.len() as int;
    n >= 1 && code(re, gp(c), 0, n - 1) && c.instructions@[n - 1] == Instruction::Match(0) && c.translations@.len() == 1
}
spec fn wf(c: CompiledRegexp) -> bool { exists|re: Regexp| #[trigger] is_prog(re, c) }
@fn translator/regexp.rs Regexp::compile_with_payload ret=r
@subst Vec :: from ( [ payload ] ) =>> vec_one ( payload )
@spec
    ensures is_prog(*self, r), r.translations@ == seq![payload],
@before instructions . push
    let ghost g1 = pg(instructions, character_classes);
@before CompiledRegexp {
    proof { code_frame(*self, g1, pg(instructions, character_classes), 0, g1.p.len() as int); }
@type translator/regexp.rs Thread derive=Clone,Copy
@type translator/regexp.rs Bitset retype=0:SmallVec<[u64;1]>=>Vec<u64>
@type translator/regexp.rs ThreadList retype=threads:SmallVec<[Thread;64]>=>Vec<Thread>
@raw
/// stands for `SmallVec::from_elem`
#[verifier::external_body]
fn words(n: usize) -> (r: Vec<u64>) ensures r@.len() == n, forall|k: int| 0 <= k < n ==> r@[k] == 0 { vec![0; n] }
/// stands for `fill(0)`
#[verifier::external_body]
fn zero_all(v: &mut Vec<u64>) ensures final(v)@.len() == old(v)@.len(), forall|k: int| 0 <= k < final(v)@.len() ==> final(v)@[k] == 0 { v.fill(0) }
fn word_count(len: usize) -> (r: usize) ensures r >= 1, r * 64 >= len { if len == 0 { 1 } else { (len - 1) / 64 + 1 } }
spec fn inset(b: Bitset, i: int) -> bool { 0 <= i < 64 * b.0@.len() && (b.0@[i / 64] & (1u64 << ((i % 64) as u64))) != 0 }
/// how many instructions below n are not in the set
spec fn missing(b: Bitset, n: int) -> nat decreases n { if n <= 0 { 0 } else { missing(b, n - 1) + if inset(b, n - 1) { 0nat } else { 1nat } } }
proof fn missing_less(a: Bitset, b: Bitset, n: int)
    requires forall|i: int| inset(a, i) ==> inset(b, i),
    ensures missing(b, n) <= missing(a, n), forall|k: int| 0 <= k < n && inset(b, k) && !inset(a, k) ==> missing(b, n) < missing(a, n),
    decreases n
{ if n > 0 { missing_less(a, b, n - 1); } }
@fn translator/regexp.rs Bitset::new ret=r
@subst SmallVec :: from_elem ( 0 , len . div_ceil ( 64 ) . max ( 1 ) ) =>> words ( word_count ( len ) )
@spec
    ensures r.0@.len() * 64 >= len, forall|i: int| !inset(r, i),
@exit
    assert(forall|k: u64| 0u64 & (1u64 << k) == 0) by (bit_vector);
@fn translator/regexp.rs Bitset::get ret=r
@spec
    requires index < 64 * self.0@.len(),
    ensures r == inset(*self, index as int),
@fn translator/regexp.rs Bitset::insert
@spec
    requires index < 64 * old(self).0@.len(),
    ensures final(self).0@.len() == old(self).0@.len(), forall|i: int| inset(*final(self), i) <==> inset(*old(self), i) || i == index,
@exit
    proof {
        let k = (index % 64) as u64;
        let x = old(self).0@[index as int / 64];
        assert(forall|j: u64| j < 64 && k < 64 ==> ((((x | (1u64 << k)) & (1u64 << j)) != 0) <==> ((x & (1u64 << j)) != 0) || j == k)) by (bit_vector);
        assert(self.0@[index as int / 64] == x | (1u64 << k));
        assert forall|i: int| inset(*self, i) <==> inset(*old(self), i) || i == index by {
            if 0 <= i < 64 * self.0@.len() {
                let j = (i % 64) as u64;
                assert(j < 64);
                if i / 64 == index as int / 64 { assert(self.0@[i / 64] == x | (1u64 << k)); assert(old(self).0@[i / 64] == x); if i != index { assert(j != k); } } else { assert(self.0@[i / 64] == old(self).0@[i / 64]); }
            }
        }
    }
@fn translator/regexp.rs Bitset::clear
@subst self . 0 . fill ( 0 ) =>> zero_all ( & mut self . 0 )
@spec
    ensures final(self).0@.len() == old(self).0@.len(), forall|i: int| !inset(*final(self), i),
@exit
    assert(forall|k: u64| 0u64 & (1u64 << k) == 0) by (bit_vector);
@fn translator/regexp.rs ThreadList::new ret=r
@subst SmallVec :: new ( ) =>> Vec :: new ( )
@spec
    ensures r.seen.0@.len() * 64 >= program_len, forall|i: int| !inset(r.seen, i), r.threads@.len() == 0,
@fn translator/regexp.rs ThreadList::start_step
@spec
    ensures final(self).seen.0@.len() == old(self).seen.0@.len(), forall|i: int| !inset(final(self).seen, i), final(self).threads@.len() == 0,
@raw
fn in_range(lo: u8, hi: u8, v: u8) -> (r: bool) ensures r == between(v, lo, hi) { lo <= v && v <= hi }
/// what the byte positions the matcher works with stand for
spec fn at_byte(w: W, i: int, sp: usize, input_len: usize, at_start: bool, env: Environment) -> bool {
    w.env == env && w.start == at_start && 0 <= i <= w.s.len() && sp == boff(w.s, i) && input_len == boff(w.s, w.s.len() as int)
}
proof fn boff_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures boff(s, i) <= boff(s, j), i < j ==> boff(s, i) < boff(s, j), boff(s, i) >= i,
    decreases j
{ if j > i { boff_mono(s, i, j - 1); } else if i > 0 { boff_mono(s, i - 1, i - 1); } }
spec fn reach(g: Pg, w: W, pc: int, a: St, fin: Fin) -> bool { exists|f: nat| #[trigger] acc(g, w, pc, a, fin, f) }
spec fn tst(t: Thread, i: int) -> St { St { i: i, c0: t.capture.0 as int, c1: t.capture.1 as int } }
spec fn good_thread(c: CompiledRegexp, t: Thread) -> bool {
    t.pc < c.instructions@.len() && (c.instructions@[t.pc as int] is Match || is_eater(c.instructions@[t.pc as int]))
}
spec fn has_thread(l: ThreadList, q: int) -> bool { exists|k: int| 0 <= k < l.threads@.len() && #[trigger] l.threads@[k].pc == q }
/// everything the machine can do at instruction q without consuming input is on the list too
spec fn done(c: CompiledRegexp, w: W, i: int, l: ThreadList, q: int) -> bool {
    match c.instructions@[q] {
        Instruction::Jump(t) => inset(l.seen, t as int),
        Instruction::Split(t, u) => inset(l.seen, t as int) && inset(l.seen, u as int),
        Instruction::Fail => true,
        Instruction::Match(_) => has_thread(l, q),
        ins => if is_eater(ins) { has_thread(l, q) } else { passes(ins, w, i) ==> inset(l.seen, q + 1) },
    }
}
/// the list grew
spec fn grown(a: ThreadList, b: ThreadList) -> bool {
    &&& a.threads@.len() <= b.threads@.len() && a.seen.0@.len() == b.seen.0@.len()
    &&& forall|k: int| 0 <= k < a.threads@.len() ==> a.threads@[k] == #[trigger] b.threads@[k]
    &&& forall|q: int| inset(a.seen, q) ==> #[trigger] inset(b.seen, q)
}
/// nothing is missing among the additions
spec fn all_done(c: CompiledRegexp, w: W, i: int, a: ThreadList, b: ThreadList) -> bool {
    forall|q: int| #[trigger] inset(b.seen, q) && !inset(a.seen, q) ==> q < c.instructions@.len() && done(c, w, i, b, q)
}
/// every added thread stands for a run from pc
spec fn all_from(c: CompiledRegexp, w: W, i: int, a: ThreadList, b: ThreadList, pc: int, st: St) -> bool {
    forall|k: int, fin: Fin| a.threads@.len() <= k < b.threads@.len() && #[trigger] reach(gp(c), w, b.threads@[k].pc as int, tst(b.threads@[k], i), fin) ==> reach(gp(c), w, pc, st, fin)
}
proof fn has_thread_mono(a: ThreadList, b: ThreadList, q: int)
    requires has_thread(a, q), grown(a, b),
    ensures has_thread(b, q),
{ let k = choose|k: int| 0 <= k < a.threads@.len() && #[trigger] a.threads@[k].pc == q; assert(b.threads@[k].pc == q); }
proof fn done_mono(c: CompiledRegexp, w: W, i: int, a: ThreadList, b: ThreadList, q: int)
    requires done(c, w, i, a, q), grown(a, b),
    ensures done(c, w, i, b, q),
{ if has_thread(a, q) { has_thread_mono(a, b, q); } }
/// instructions only refer to instructions of the program, and its end is the only `Match`
proof fn wf_step(c: CompiledRegexp, pc: int)
    requires wf(c), 0 <= pc < c.instructions@.len(),
    ensures
        c.instructions@[pc] is Match || pc + 1 < c.instructions@.len(),
        c.instructions@[pc] is Match ==> c.instructions@[pc]->Match_0 == 0 && c.translations@.len() == 1,
        c.instructions@[pc] is Jump ==> c.instructions@[pc]->Jump_0 < c.instructions@.len(),
        c.instructions@[pc] is Split ==> c.instructions@[pc]->Split_0 < c.instructions@.len() && c.instructions@[pc]->Split_1 < c.instructions@.len(),
        c.instructions@[pc] is Class ==> c.instructions@[pc]->Class_0 < c.character_classes@.len(),
        c.instructions@[pc] is NotClass ==> c.instructions@[pc]->NotClass_0 < c.character_classes@.len(),
{
    let re = choose|re: Regexp| #[trigger] is_prog(re, c);
    if pc < c.instructions@.len() - 1 { code_tame(re, gp(c), 0, c.instructions@.len() - 1, pc); }
}
/// one step of a run that consumes nothing, backwards
proof fn reach_step(c: CompiledRegexp, w: W, pc: int, to: int, a: St, b: St, fin: Fin)
    requires 0 <= pc < c.instructions@.len(), 0 <= a.i <= w.s.len(), reach(gp(c), w, to, b, fin),
        match c.instructions@[pc] {
            Instruction::Jump(t) => to == t && a == b,
            Instruction::Split(t, u) => (to == t || to == u) && a == b,
            Instruction::Fail | Instruction::Match(_) => false,
            ins => if is_eater(ins) { a.i < w.s.len() && eats(ins, c.character_classes@, w.s[a.i]) && to == pc + 1 && b == at(a, a.i + 1) } else { passes(ins, w, a.i) && to == pc + 1 && b == after(ins, w, a) },
        },
    ensures reach(gp(c), w, pc, a, fin),
{
    let f = choose|f: nat| #[trigger] acc(gp(c), w, to, b, fin, f);
    assert(acc(gp(c), w, pc, a, fin, f + 1));
}
@fn translator/regexp.rs CompiledRegexp::add_thread exitlast
@subst ( min ..= max ) . contains ( & env . get ( var ) ) =>> in_range ( min , max , env . get ( var ) )
@spec
    requires wf(*self), pc < self.instructions@.len(), self.instructions@.len() <= 64 * old(list).seen.0@.len(),
    ensures
        grown(*old(list), *final(list)), inset(final(list).seen, pc as int),
        forall|k: int| old(list).threads@.len() <= k < final(list).threads@.len() ==> good_thread(*self, #[trigger] final(list).threads@[k]),
        forall|w: W, i: int| #[trigger] at_byte(w, i, sp, input_len, at_start, *env) ==>
            all_done(*self, w, i, *old(list), *final(list))
            && all_from(*self, w, i, *old(list), *final(list), pc as int, St { i: i, c0: capture.0 as int, c1: capture.1 as int }),
    decreases missing(old(list).seen, self.instructions@.len() as int),
@entry
    let ghost a0 = *list;
    let ghost mut l0 = *list;
    let ghost mut l1 = *list;
    let ghost n = self.instructions@.len() as int;
@before match self . instructions
    proof { vec_bound(self.instructions); l0 = *list; l1 = *list; missing_less(a0.seen, l0.seen, n); wf_step(*self, pc as int); }
@before self . add_thread ( list , b , capture , sp , input_len , at_start , env )
    proof { l1 = *list; missing_less(l0.seen, l1.seen, n); }
@exit
    proof {
        let b = *list;
        let ins = self.instructions@[pc as int];
        assert forall|w: W, i: int| #[trigger] at_byte(w, i, sp, input_len, at_start, *env) implies
            all_done(*self, w, i, a0, b) && all_from(*self, w, i, a0, b, pc as int, St { i: i, c0: capture.0 as int, c1: capture.1 as int }) by {
            let st = St { i: i, c0: capture.0 as int, c1: capture.1 as int };
            boff_mono(w.s, i, w.s.len() as int); boff_mono(w.s, 0, i);
            if ins is Match || is_eater(ins) { assert(b.threads@[a0.threads@.len() as int].pc == pc); }
            assert(done(*self, w, i, b, pc as int));
            assert forall|q: int| #[trigger] inset(b.seen, q) && !inset(a0.seen, q) implies q < n && done(*self, w, i, b, q) by {
                if q != pc {
                    if ins is Split && inset(l1.seen, q) { assert(done(*self, w, i, l1, q)); done_mono(*self, w, i, l1, b, q); }
                }
            }
            assert forall|k: int, fin: Fin| a0.threads@.len() <= k < b.threads@.len() && #[trigger] reach(gp(*self), w, b.threads@[k].pc as int, tst(b.threads@[k], i), fin)
                implies reach(gp(*self), w, pc as int, st, fin) by {
                match ins {
                    Instruction::Jump(t) => { reach_step(*self, w, pc as int, t as int, st, st, fin); }
                    Instruction::Split(t, u) => {
                        if k < l1.threads@.len() { assert(l1.threads@[k] == b.threads@[k]); reach_step(*self, w, pc as int, t as int, st, st, fin); }
                        else { reach_step(*self, w, pc as int, u as int, st, st, fin); }
                    }
                    Instruction::Match(_) => { assert(tst(b.threads@[k], i) == st); }
                    Instruction::Fail => {}
                    _ => {
                        if is_eater(ins) { assert(tst(b.threads@[k], i) == st); }
                        else {
                            assert(passes(ins, w, i));
                            reach_step(*self, w, pc as int, pc + 1, st, after(ins, w, st), fin);
                        }
                    }
                }
            }
        }
    }
@raw
// ---- trusted: byte positions inside a string ----
#[verifier::external_body]
fn str_len(s: &str) -> (r: usize) ensures r == boff(s@, s@.len() as int), r <= isize::MAX { s.len() }
/// stands for `input[sp..].chars().next()`
#[verifier::external_body]
fn char_at(s: &str, sp: usize) -> (r: Option<char>)
    requires exists|k: int| 0 <= k <= s@.len() && sp == #[trigger] boff(s@, k),
    ensures forall|k: int| 0 <= k <= s@.len() && sp == #[trigger] boff(s@, k) ==> r == (if k < s@.len() { Some(s@[k]) } else { None }),
{ s[sp..].chars().next() }
/// stands for `input[start..end]`
#[verifier::external_body]
fn span<'a>(s: &'a str, start: usize, end: usize) -> (r: &'a str)
    requires exists|x: int, y: int| 0 <= x <= y <= s@.len() && start == #[trigger] boff(s@, x) && end == #[trigger] boff(s@, y),
    ensures forall|x: int, y: int| 0 <= x <= y <= s@.len() && start == #[trigger] boff(s@, x) && end == #[trigger] boff(s@, y) ==> r@ == s@.subrange(x, y),
{ &s[start..end] }
/// stands for `input[..start].chars().count()`
#[verifier::external_body]
fn chars_before(s: &str, start: usize) -> (r: usize)
    requires exists|x: int| 0 <= x <= s@.len() && start == #[trigger] boff(s@, x),
    ensures forall|x: int| 0 <= x <= s@.len() && start == #[trigger] boff(s@, x) ==> r == x,
{ s[..start].chars().count() }
/// what `to_lowercase` yields decides case-insensitive comparison
@fn translator/regexp.rs chars_match_case_insensitive ret=r
@subst actual . to_lowercase ( ) . count ( ) =>> lower_count ( actual )
@subst actual . to_lowercase ( ) . next ( ) =>> lower_first ( actual )
@spec
    ensures r == same_fold(actual, expected),
@raw
spec fn world(input: Seq<char>, env: Environment, at_start: bool) -> W { W { s: input, env: env, start: at_start } }
/// the result carries the payload of the rule, resolved for the captured characters of the match that ends at b
spec fn result_of(t: T, pay: Translation, w: W, b: St) -> bool {
    exists|x: int, y: int| 0 <= x <= y <= b.i && b.c0 == #[trigger] boff(w.s, x) && b.c1 == #[trigger] boff(w.s, y) && t.offset == x && resolved(pay, w.s.subrange(x, y), b.i, t)
}
spec fn resolved(pay: Translation, cap: Seq<char>, weight: int, r: T) -> bool {
    &&& r.weight == weight
    &&& pay is Resolved ==> r == (T { weight: r.weight, offset: r.offset, ..pay->Resolved_0 })
    &&& pay is Unresolved ==> r.output@ == targets_text((pay->Unresolved_0).output@, cap) && r.input@ == cap && r.length == cap.len() && r.effects == (pay->Unresolved_0).effects
}
/// the machine can still accept from this list
spec fn can(c: CompiledRegexp, w: W, pc: int, i: int, f: nat) -> bool { exists|a: St, fin: Fin| a.i == i && #[trigger] acc(gp(c), w, pc, a, fin, f) }
spec fn live(c: CompiledRegexp, w: W, i: int, l: ThreadList) -> bool { exists|k: int, f: nat| 0 <= k < l.threads@.len() && #[trigger] can(c, w, l.threads@[k].pc as int, i, f) }
spec fn complete(c: CompiledRegexp, w: W, i: int, l: ThreadList) -> bool { forall|q: int| #[trigger] inset(l.seen, q) ==> q < c.instructions@.len() && done(c, w, i, l, q) }
proof fn live_from(c: CompiledRegexp, w: W, q: int, i: int, f: nat, l: ThreadList)
    requires complete(c, w, i, l), inset(l.seen, q), can(c, w, q, i, f),
    ensures live(c, w, i, l),
    decreases f
{
    let (a, fin) = choose|a: St, fin: Fin| a.i == i && #[trigger] acc(gp(c), w, q, a, fin, f);
    let h = (f - 1) as nat;
    assert(done(c, w, i, l, q));
    match c.instructions@[q] {
        Instruction::Jump(t) => { assert(acc(gp(c), w, t as int, a, fin, h)); live_from(c, w, t as int, i, h, l); }
        Instruction::Split(t, u) => {
            if acc(gp(c), w, t as int, a, fin, h) { live_from(c, w, t as int, i, h, l); } else { assert(acc(gp(c), w, u as int, a, fin, h)); live_from(c, w, u as int, i, h, l); }
        }
        Instruction::Fail => {}
        Instruction::Match(_) => { let k = choose|k: int| 0 <= k < l.threads@.len() && #[trigger] l.threads@[k].pc == q; assert(can(c, w, l.threads@[k].pc as int, i, f)); }
        ins => {
            if is_eater(ins) { let k = choose|k: int| 0 <= k < l.threads@.len() && #[trigger] l.threads@[k].pc == q; assert(can(c, w, l.threads@[k].pc as int, i, f)); }
            else { let a2 = after(ins, w, a); assert(a2.i == i && acc(gp(c), w, q + 1, a2, fin, h)); live_from(c, w, q + 1, i, h, l); }
        }
    }
}
/// all threads of the list continue runs from the start
spec fn rooted(c: CompiledRegexp, w: W, i: int, l: ThreadList) -> bool {
    forall|k: int, fin: Fin| 0 <= k < l.threads@.len() && #[trigger] reach(gp(c), w, l.threads@[k].pc as int, tst(l.threads@[k], i), fin) ==> reach(gp(c), w, 0, st0(), fin)
}
spec fn all_good(c: CompiledRegexp, l: ThreadList) -> bool { forall|k: int| 0 <= k < l.threads@.len() ==> good_thread(c, #[trigger] l.threads@[k]) }
spec fn fin_of(x: ((usize, usize), usize, usize)) -> Fin { Fin { st: St { i: x.1 as int, c0: x.0.0 as int, c1: x.0.1 as int }, ix: x.2 as int } }
spec fn matchable(c: CompiledRegexp, w: W) -> bool { exists|f: nat| #[trigger] can(c, w, 0, 0, f) }
/// thread t at point i is no match, and its continuation is on the next list
spec fn moved(c: CompiledRegexp, w: W, i: int, t: Thread, next: ThreadList) -> bool {
    let ins = c.instructions@[t.pc as int];
    !(ins is Match) && (i < w.s.len() && eats(ins, c.character_classes@, w.s[i]) ==> inset(next.seen, t.pc + 1))
}
@fn translator/regexp.rs CompiledRegexp::find_anchored ret=r loops=2 optmap
@subst input [ sp .. ] . chars ( ) . next ( ) =>> char_at ( input , sp )
@subst expected . len_utf8 ( ) =>> len_utf8 ( expected )
@subst actual . len_utf8 ( ) =>> len_utf8 ( actual )
@subst c . len_utf8 ( ) =>> len_utf8 ( c )
@subst input . len ( ) =>> str_len ( input )
@subst & input [ start .. end ] =>> span ( input , start , end )
@subst input [ .. start ] . chars ( ) . count ( ) =>> chars_before ( input , start )
@spec
    requires wf(*self),
    ensures forall|re: Regexp| #[trigger] is_prog(re, *self) ==> {
        let w = world(input@, *env, at_start);
        &&& (r is Some <==> exists|b: St| m(re, w, st0(), b))
        &&& r is Some ==> exists|b: St| #[trigger] m(re, w, st0(), b) && result_of(r->Some_0, self.translations@[0], w, b)
    },
@entry
    let ghost w = world(input@, *env, at_start);
    let ghost n = input@.len() as int;
    let ghost mut i: int = 0;
    proof { let re = choose|re: Regexp| #[trigger] is_prog(re, *self); boff_mono(w.s, 0, n); vec_bound(self.instructions); }
@before while ! current
    proof {
        assert(at_byte(w, 0, sp, boff(w.s, n) as usize, at_start, *env));
        assert(complete(*self, w, 0, *current));
        if matchable(*self, w) { let f = choose|f: nat| #[trigger] can(*self, w, 0, 0, f); live_from(*self, w, 0, 0, f, *current); }
    }
@loop 0
    invariant_except_break
        !matchable(*self, w) || matched is Some || live(*self, w, i, *current),
    invariant
        w == world(input@, *env, at_start), n == input@.len(), 0 <= i <= n, sp == boff(w.s, i), length == i, wf(*self), boff(w.s, n) <= isize::MAX,
        rooted(*self, w, i, *current), all_good(*self, *current),
        self.instructions@.len() <= 64 * current.seen.0@.len(), self.instructions@.len() <= 64 * next.seen.0@.len(),
        matched is Some ==> reach(gp(*self), w, 0, st0(), fin_of(matched->Some_0)) && matched->Some_0.2 == 0,
    ensures
        !matchable(*self, w) || matched is Some,
    decreases n - i,
@loop 0 end
    proof { i = i + 1; }
@before let Some ( c ) = next_char
    proof {
        if i < n { boff_mono(w.s, i + 1, n); boff_mono(w.s, i, i); }
        if matchable(*self, w) && matched is None {
            let (k, f) = choose|k: int, f: nat| 0 <= k < current.threads@.len() && #[trigger] can(*self, w, current.threads@[k].pc as int, i, f);
            let t = current.threads@[k];
            assert(moved(*self, w, i, t, *next) && good_thread(*self, t));
            let (a, fin) = choose|a: St, fin: Fin| a.i == i && #[trigger] acc(gp(*self), w, t.pc as int, a, fin, f);
            assert(is_eater(self.instructions@[t.pc as int]));
            assert(i < n && acc(gp(*self), w, t.pc + 1, at(a, i + 1), fin, (f - 1) as nat));
            assert(can(*self, w, t.pc + 1, i + 1, (f - 1) as nat));
            live_from(*self, w, t.pc + 1, i + 1, (f - 1) as nat, *next);
        }
    }
@loop 1
    invariant_except_break
        matched is Some || forall|k: int| 0 <= k < __i0 ==> #[trigger] moved(*self, w, i, current.threads@[k], *next),
    invariant
        w == world(input@, *env, at_start), n == input@.len(), 0 <= i <= n, sp == boff(w.s, i), length == i, wf(*self), boff(w.s, n) <= isize::MAX,
        next_char == (if i < n { Some(w.s[i]) } else { None }),
        !matchable(*self, w) || matched is Some || live(*self, w, i, *current),
        rooted(*self, w, i, *current), all_good(*self, *current),
        rooted(*self, w, i + 1, *next), all_good(*self, *next), complete(*self, w, i + 1, *next),
        self.instructions@.len() <= 64 * current.seen.0@.len(), self.instructions@.len() <= 64 * next.seen.0@.len(),
        matched is Some ==> reach(gp(*self), w, 0, st0(), fin_of(matched->Some_0)) && matched->Some_0.2 == 0,
        __i0 <= current.threads@.len(),
    ensures
        matched is Some || forall|k: int| 0 <= k < current.threads@.len() ==> #[trigger] moved(*self, w, i, current.threads@[k], *next),
    decreases current.threads@.len() - __i0,
@loop 1 start
    let ghost nx = *next;
    proof {
        vec_bound(self.instructions);
        if i < n { boff_mono(w.s, i + 1, n); assert(boff(w.s, i + 1) == boff(w.s, i) + clen(w.s[i])); }
        assert(good_thread(*self, current.threads@[__i0 as int]));
        wf_step(*self, current.threads@[__i0 as int].pc as int);
    }
@before matched = Some
    proof {
        let x = tst(*thread, i);
        let fin = fin_of((thread.capture, length, index));
        assert(fin == (Fin { st: x, ix: index as int }));
        assert(acc(gp(*self), w, thread.pc as int, x, fin, 1));
        assert(current.threads@[__i0 - 1] == *thread);
        assert(reach(gp(*self), w, current.threads@[__i0 - 1].pc as int, tst(current.threads@[__i0 - 1], i), fin));
    }
@loop 1 end
    proof {
        let t = current.threads@[__i0 - 1];
        let ins = self.instructions@[t.pc as int];
        if i < n && eats(ins, self.character_classes@, w.s[i]) {
            assert(at_byte(w, i + 1, (sp + clen(w.s[i])) as usize, boff(w.s, n) as usize, at_start, *env));
            assert(grown(nx, *next));
            assert forall|q: int| #[trigger] inset(next.seen, q) implies q < self.instructions@.len() && done(*self, w, i + 1, *next, q) by {
                if inset(nx.seen, q) { done_mono(*self, w, i + 1, nx, *next, q); }
            }
            assert forall|k: int, fin: Fin| 0 <= k < next.threads@.len() && #[trigger] reach(gp(*self), w, next.threads@[k].pc as int, tst(next.threads@[k], i + 1), fin) implies reach(gp(*self), w, 0, st0(), fin) by {
                if k < nx.threads@.len() { assert(nx.threads@[k] == next.threads@[k]); }
                else {
                    let y = St { i: i + 1, c0: t.capture.0 as int, c1: t.capture.1 as int };
                    assert(reach(gp(*self), w, t.pc + 1, y, fin));
                    reach_step(*self, w, t.pc as int, t.pc + 1, tst(t, i), y, fin);
                }
            }
            assert forall|k: int| 0 <= k < next.threads@.len() implies good_thread(*self, #[trigger] next.threads@[k]) by { if k < nx.threads@.len() { assert(nx.threads@[k] == next.threads@[k]); } }
        } else { assert(*next == nx); }
        if matched is None {
            assert forall|k: int| 0 <= k < __i0 implies #[trigger] moved(*self, w, i, current.threads@[k], *next) by {
                if k < __i0 - 1 { assert(moved(*self, w, i, current.threads@[k], nx)); }
            }
        }
    }
@exit
    proof {
        let len = self.instructions@.len() as int;
        boff_mono(w.s, 0, 0);
        assert(boff(w.s, 0) == 0 && inb(w, st0()) && closed(w, st0()));
        assert forall|re: Regexp| #[trigger] is_prog(re, *self) implies
            (matched is None ==> !exists|b: St| m(re, w, st0(), b))
            && (matched is Some ==> m(re, w, st0(), fin_of(matched->Some_0).st) && closed(w, fin_of(matched->Some_0).st) && fin_of(matched->Some_0).st.i <= n) by {
            if matched is Some {
                let fin = fin_of(matched->Some_0);
                let f = choose|f: nat| #[trigger] acc(gp(*self), w, 0, st0(), fin, f);
                let x = fwd(re, gp(*self), w, 0, len - 1, st0(), fin, f);
                m_sane(re, w, st0(), x.0);
            } else if exists|b: St| m(re, w, st0(), b) {
                let b = choose|b: St| m(re, w, st0(), b);
                m_sane(re, w, st0(), b);
                let fin = Fin { st: b, ix: 0 };
                assert(acc(gp(*self), w, len - 1, b, fin, 1));
                let r = bwd(re, gp(*self), w, 0, len - 1, st0(), b, fin, 1);
                assert(can(*self, w, 0, 0, r));
            }
        }
        let re = choose|re: Regexp| #[trigger] is_prog(re, *self);
        assert(is_prog(re, *self));
    }
@fn translator/regexp.rs CompiledRegexp::find ret=r
@spec
    requires wf(*self),
    ensures forall|re: Regexp| #[trigger] is_prog(re, *self) ==> {
        let w = world(input@, *env, false);
        &&& (r is Some <==> exists|b: St| m(re, w, st0(), b))
        &&& r is Some ==> exists|b: St| #[trigger] m(re, w, st0(), b) && result_of(r->Some_0, self.translations@[0], w, b)
    },
@fn translator/regexp.rs CompiledRegexp::is_match ret=r
@spec
    requires wf(*self),
    ensures forall|re: Regexp| #[trigger] is_prog(re, *self) ==> (r <==> exists|b: St| m(re, world(input@, *env, false), st0(), b)),
