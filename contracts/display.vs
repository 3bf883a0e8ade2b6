@include definitions_base.vs
@type parser.rs Direction attr=derive(PartialEq,Eq,Structural,Clone,Copy)
@type translator.rs DisplayTable derive=
@raw
/// the rule is not restricted to the other direction (contract of module direction)
uninterp spec fn serves(r: Rule, d: Direction) -> bool;
impl AnchoredRule {
    #[verifier::external_body]
    fn is_direction(&self, d: Direction) -> (r: bool) ensures r == serves(self.rule, d) { unimplemented!() }
}
#[verifier::external_body]
fn put_if_new(m: &mut HashMap<char, char>, k: char, v: char)
    ensures final(m)@ == (if old(m)@.contains_key(k) { old(m)@ } else { old(m)@.insert(k, v) })
{ m.entry(k).or_insert(v); }
type Rules = Seq<AnchoredRule>;
/// the first i rules that serve the direction
spec fn usable(r: Rules, d: Direction) -> Rules decreases r.len() {
    if r.len() == 0 { seq![] } else if serves(r.last().rule, d) { usable(r.drop_last(), d).push(r.last()) } else { usable(r.drop_last(), d) }
}
proof fn usable_take(r: Rules, d: Direction, i: int)
    requires 0 <= i < r.len(),
    ensures usable(r.take(i + 1), d) == (if serves(r[i].rule, d) { usable(r.take(i), d).push(r[i]) } else { usable(r.take(i), d) }),
{ assert(r.take(i + 1).drop_last() =~= r.take(i)); }
/// what a display rule maps to what in a direction; other rules map nothing
spec fn maps(r: Rule, d: Direction) -> Option<(char, char)> {
    match r { Rule::Display { character, dots, .. } => Some(match d { Direction::Forward => (cell(dots), character), Direction::Backward => (character, cell(dots)) }), _ => None }
}
/// the first rule for a character counts (feature `backwards_compatibility`, on by default)
spec fn shown(r: Rules, d: Direction) -> Map<char, char> decreases r.len() {
    if r.len() == 0 { Map::empty() } else {
        let m = shown(r.drop_last(), d);
        match maps(r.last().rule, d) { Some((a, b)) => if m.contains_key(a) { m } else { m.insert(a, b) }, None => m }
    }
}
proof fn shown_take(r: Rules, d: Direction, i: int)
    requires 0 <= i < r.len(),
    ensures shown(r.take(i + 1), d) == ({ let m = shown(r.take(i), d); match maps(r[i].rule, d) { Some((a, b)) => if m.contains_key(a) { m } else { m.insert(a, b) }, None => m } }),
{ assert(r.take(i + 1).drop_last() =~= r.take(i)); assert(r.take(i + 1).last() == r[i]); }
/// in other words: a character is shown as the first rule for it says, and not mapped if there is none
proof fn shown_is_first(r: Rules, d: Direction, c: char)
    ensures shown(r, d).contains_key(c) <==> exists|i: int| 0 <= i < r.len() && #[trigger] of(r, d, i, c),
        forall|i: int| 0 <= i < r.len() && #[trigger] of(r, d, i, c) && (forall|j: int| 0 <= j < i ==> !#[trigger] of(r, d, j, c)) ==> shown(r, d)[c] == (maps(r[i].rule, d)->0).1,
    decreases r.len()
{
    if r.len() > 0 {
        let q = r.drop_last();
        shown_is_first(q, d, c);
        assert forall|i: int| 0 <= i < q.len() implies of(q, d, i, c) == #[trigger] of(r, d, i, c) by { }
        assert(of(r, d, r.len() - 1, c) <==> maps(r.last().rule, d) is Some && (maps(r.last().rule, d)->0).0 == c);
        if exists|i: int| 0 <= i < q.len() && #[trigger] of(q, d, i, c) { let i = choose|i: int| 0 <= i < q.len() && #[trigger] of(q, d, i, c); assert(of(r, d, i, c)); }
        if exists|i: int| 0 <= i < r.len() && #[trigger] of(r, d, i, c) { let i = choose|i: int| 0 <= i < r.len() && #[trigger] of(r, d, i, c); if i < q.len() { assert(of(q, d, i, c)); } }
        assert forall|i: int| 0 <= i < r.len() && #[trigger] of(r, d, i, c) && (forall|j: int| 0 <= j < i ==> !#[trigger] of(r, d, j, c)) implies shown(r, d)[c] == (maps(r[i].rule, d)->0).1 by {
            if i < q.len() {
                assert(of(q, d, i, c));
                assert forall|j: int| 0 <= j < i implies !#[trigger] of(q, d, j, c) by { assert(!of(r, d, j, c)); }
            } else {
                assert(!shown(q, d).contains_key(c)) by {
                    if exists|k: int| 0 <= k < q.len() && #[trigger] of(q, d, k, c) { let k = choose|k: int| 0 <= k < q.len() && #[trigger] of(q, d, k, c); assert(of(r, d, k, c)); }
                }
            }
        }
    }
}
spec fn of(r: Rules, d: Direction, i: int, c: char) -> bool { maps(r[i].rule, d) is Some && (maps(r[i].rule, d)->0).0 == c }
spec fn same(v: Seq<&AnchoredRule>, r: Rules) -> bool { v.len() == r.len() && forall|i: int| 0 <= i < v.len() ==> *#[trigger] v[i] == r[i] }
/// each character as the map says, or itself
spec fn mapped(m: Map<char, char>, s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| if m.contains_key(s[i]) { m[s[i]] } else { s[i] }) }
@fn translator.rs DisplayTable::compile ret=r loops=2 owned=rules
@subst cfg!(feature = "backwards_compatibility") =>> true
@subst mapping . entry ( from ) . or_insert ( to ) =>> put_if_new ( & mut mapping , from , to )
@spec
    ensures r.dots_to_char@ == shown(usable(rules@, direction), direction),
@entry
    let ghost all = rules@;
@loop 0
    invariant __i0 <= rules@.len(), rules@ == all, same(__acc0@, usable(all.take(__i0 as int), direction)),
    decreases rules@.len() - __i0,
@loop 0 start
    proof { usable_take(all, direction, __i0 as int); }
@loop 0 post
    proof { assert(all.take(all.len() as int) =~= all); }
@loop 1
    invariant __i1 <= __s1@.len(), same(__s1@, usable(all, direction)), mapping@ == shown(usable(all, direction).take(__i1 as int), direction),
    decreases __s1@.len() - __i1,
@loop 1 start
    proof { shown_take(usable(all, direction), direction, __i1 as int); }
@loop 1 post
    proof { let u = usable(all, direction); assert(u.take(u.len() as int) =~= u); }
@fn translator.rs DisplayTable::translate ret=r loops=1 collect0=String
@subst | ref c | * self . dots_to_char . get ( c ) . unwrap_or ( c ) =>> | c | * self . dots_to_char . get ( & c ) . unwrap_or ( & c )
@spec
    ensures r@ == mapped(self.dots_to_char@, input@),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == input@, __acc0@ == mapped(self.dots_to_char@, __s0@.take(__i0 as int)),
    decreases __s0@.len() - __i0,
@loop 0 end
    proof { assert(__acc0@ =~= mapped(self.dots_to_char@, __s0@.take(__i0 as int))); }
@loop 0 post
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
