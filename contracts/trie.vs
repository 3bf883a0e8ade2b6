@include trace_types.vs
@include class_types.vs
@raw
/// appends all elements of a set, in some order
#[verifier::external_body]
fn flatten_into(v: &mut Vec<char>, s: HashSet<char>) ensures final(v)@.to_set() == old(v)@.to_set().union(s@) { v.extend(s) }
spec fn strict(s: Seq<char>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (s[i] as u32) < (s[j] as u32) }
spec fn sorted(s: Seq<char>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (s[i] as u32) <= (s[j] as u32) }
#[verifier::external_body]
fn sort_chars(v: &mut Vec<char>) ensures sorted(final(v)@), final(v)@.to_set() == old(v)@.to_set() { v.sort_unstable() }
#[verifier::external_body]
fn dedup_chars(v: &mut Vec<char>) requires sorted(old(v)@), ensures strict(final(v)@), final(v)@.to_set() == old(v)@.to_set() { v.dedup() }
#[verifier::external_body]
fn bsearch_ok(v: &Vec<char>, c: char) -> (r: bool) requires strict(v@), ensures r == v@.to_set().contains(c) { v.binary_search(&c).is_ok() }
#[verifier::external_body]
fn has_class(v: &[CharacterClass], c: CharacterClass) -> (r: bool) ensures r == v@.contains(c) { unimplemented!() }
#[verifier::external_body]
fn lower_count(c: char) -> (r: usize) ensures r == lower(c).len() { c.to_lowercase().count() }
#[verifier::external_body]
fn lower_first(c: char) -> (r: char) requires lower(c).len() > 0, ensures r == lower(c)[0] { unimplemented!() }
uninterp spec fn utf8_len(c: char) -> usize;
#[verifier::external_body]
fn len_utf8(c: char) -> (r: usize) ensures r == utf8_len(c) { c.len_utf8() }
#[verifier::external_body]
fn str_from(s: &str, n: usize) -> (r: &str) requires s@.len() > 0, n == utf8_len(s@[0]), ensures r@ == s@.skip(1) { &s[n..] }
/// no allocation is larger than isize::MAX bytes
#[verifier::external_body]
proof fn str_bound(s: &str) ensures s@.len() <= isize::MAX {}
spec fn rank(p: Precedence) -> int { match p { Precedence::Default => 0, Precedence::Indicator => 1, Precedence::Translation => 2 } }
/// `#[derive(PartialOrd)]`: the order of the variants
fn prec_gt(a: &Precedence, b: &Precedence) -> (r: bool) ensures r == (rank(*a) > rank(*b))
{
    match (a, b) {
        (Precedence::Indicator, Precedence::Default) => true,
        (Precedence::Translation, Precedence::Default) => true,
        (Precedence::Translation, Precedence::Indicator) => true,
        _ => false,
    }
}
@type translator/trie.rs ResolvedClasses
@type translator/trie.rs Transition
@type translator/trie.rs ResolvedTransition
@type translator/trie.rs ClassConstraint
@type translator/trie.rs TrieNode retype=transitions:BTreeMap<ResolvedTransition,TrieNode>=>Kids
@type translator/trie.rs Trie
@raw
// ---- the prefix tree as a map from paths to translations ----
/// one condition on the way to a rule; class sets by content
enum Key { Char(char), Start(Set<char>, bool), End(Set<char>, bool), Any }
spec fn key(t: ResolvedTransition) -> Key {
    match t {
        ResolvedTransition::Character(c) => Key::Char(c),
        ResolvedTransition::Start(r) => Key::Start(r.chars@.to_set(), r.includes_space),
        ResolvedTransition::End(r) => Key::End(r.chars@.to_set(), r.includes_space),
        ResolvedTransition::Any => Key::Any,
    }
}
/// class lists are sorted and free of duplicates, so equal sets are equal lists
spec fn clean(t: ResolvedTransition) -> bool {
    match t { ResolvedTransition::Start(r) => strict(r.chars@), ResolvedTransition::End(r) => strict(r.chars@), _ => true }
}
/// stand-in for `BTreeMap<ResolvedTransition, TrieNode>`, keyed by content
#[verifier::external_body]
struct Kids { id: usize }
uninterp spec fn kids(k: Kids) -> Map<Key, TrieNode>;
/// real trees are finite
uninterp spec fn height(k: Kids) -> nat;
impl Kids {
    #[verifier::external_body]
    fn get(&self, t: &ResolvedTransition) -> (r: Option<&TrieNode>)
        requires clean(*t),
        ensures (match r { Some(n) => kids(*self).contains_key(key(*t)) && kids(*self)[key(*t)] == *n && height(n.transitions) < height(*self), None => !kids(*self).contains_key(key(*t)) }),
    { unimplemented!() }
}
uninterp spec fn node0() -> TrieNode;
#[verifier::external_body]
proof fn node0_is() ensures node0().translation is None, kids(node0().transitions) == Map::<Key, TrieNode>::empty() {}
#[verifier::external_body]
fn entry_or_default<'a>(k: &'a mut Kids, t: ResolvedTransition) -> (r: &'a mut TrieNode)
    requires clean(t),
    ensures *r == (if kids(*old(k)).contains_key(key(t)) { kids(*old(k))[key(t)] } else { node0() }),
        kids(*final(k)) == kids(*old(k)).insert(key(t), *final(r)),
{ unimplemented!() }
/// `for (k, v) in &map`: every entry once
#[verifier::external_body]
fn kid_list<'a>(k: &'a Kids) -> (r: Vec<(&'a ResolvedTransition, &'a TrieNode)>)
    ensures
        forall|i: int| 0 <= i < r@.len() ==> clean(*(#[trigger] r@[i]).0) && kids(*k).contains_key(key(*r@[i].0)) && kids(*k)[key(*r@[i].0)] == *r@[i].1 && height(r@[i].1.transitions) < height(*k),
        forall|x: Key| #[trigger] kids(*k).contains_key(x) ==> exists|i: int| 0 <= i < r@.len() && key(*(#[trigger] r@[i]).0) == x,
{ unimplemented!() }
type P = Seq<Key>;
spec fn at(n: TrieNode, p: P) -> Option<T> decreases p.len() {
    if p.len() == 0 { n.translation } else if kids(n.transitions).contains_key(p[0]) { at(kids(n.transitions)[p[0]], p.skip(1)) } else { None }
}
/// the conditions of a path hold for the text `w` that follows the character `prev`
spec fn walk(p: P, w: Seq<char>, prev: Option<char>) -> bool decreases p.len() {
    p.len() == 0 || match p[0] {
        Key::Char(c) => w.len() > 0 && fold(w[0]) == Some(c) && walk(p.skip(1), w.skip(1), Some(w[0])),
        Key::Start(s, sp) => fits(s, sp, prev) && walk(p.skip(1), w, prev),
        Key::End(s, sp) => fits(s, sp, first(w)) && walk(p.skip(1), w, prev),
        Key::Any => false,
    }
}
spec fn no_any(n: TrieNode) -> bool { forall|p: P, i: int| (#[trigger] at(n, p)) is Some && 0 <= i < p.len() ==> !(#[trigger] p[i] is Any) }
/// exactly the translations whose path holds are among the results
spec fn finds(n: TrieNode, w: Seq<char>, prev: Option<char>, t: T) -> bool { exists|p: P| #[trigger] at(n, p) == Some(t) && walk(p, w, prev) }
/// ... and start with the key x
spec fn finds_by(n: TrieNode, w: Seq<char>, prev: Option<char>, t: T, x: Key) -> bool { exists|p: P| #[trigger] at(n, p) == Some(t) && walk(p, w, prev) && p.len() > 0 && p[0] == x }
proof fn kid_no_any(n: TrieNode, x: Key)
    requires no_any(n), kids(n.transitions).contains_key(x),
    ensures no_any(kids(n.transitions)[x]), x is Any ==> forall|p: P| at(kids(n.transitions)[x], p) is None,
{
    let k = kids(n.transitions)[x];
    assert forall|p: P, i: int| (#[trigger] at(k, p)) is Some && 0 <= i < p.len() implies !(#[trigger] p[i] is Any) by {
        let q = seq![x] + p;
        assert(q.skip(1) =~= p);
        assert(at(n, q) is Some);
        assert(q[i + 1] == p[i]);
    }
    if x is Any {
        assert forall|p: P| at(k, p) is None by {
            let q = seq![x] + p;
            assert(q.skip(1) =~= p);
            if at(k, p) is Some { assert(at(n, q) is Some); assert(q[0] is Any); }
        }
    }
}
/// results through one child
proof fn through_kid(n: TrieNode, w: Seq<char>, prev: Option<char>, x: Key, t: T)
    requires kids(n.transitions).contains_key(x),
    ensures finds_by(n, w, prev, t, x) <==> (match x {
        Key::Char(c) => w.len() > 0 && fold(w[0]) == Some(c) && finds(kids(n.transitions)[x], w.skip(1), Some(w[0]), t),
        Key::Start(s, sp) => fits(s, sp, prev) && finds(kids(n.transitions)[x], w, prev, t),
        Key::End(s, sp) => fits(s, sp, first(w)) && finds(kids(n.transitions)[x], w, prev, t),
        Key::Any => false,
    }),
{
    let k = kids(n.transitions)[x];
    if finds_by(n, w, prev, t, x) {
        let p = choose|p: P| #[trigger] at(n, p) == Some(t) && walk(p, w, prev) && p.len() > 0 && p[0] == x;
        assert(at(k, p.skip(1)) == Some(t));
    }
    let (w2, p2) = if x is Char { (w.skip(1), first(w)) } else { (w, prev) };
    if finds(k, w2, p2, t) {
        let p = choose|p: P| #[trigger] at(k, p) == Some(t) && walk(p, w2, p2);
        let q = seq![x] + p;
        assert(q.skip(1) =~= p);
        assert(at(n, q) == Some(t));
        assert(walk(q, w, prev) <==> match x {
            Key::Char(c) => w.len() > 0 && fold(w[0]) == Some(c) && walk(q.skip(1), w.skip(1), Some(w[0])),
            Key::Start(s, sp) => fits(s, sp, prev) && walk(q.skip(1), w, prev),
            Key::End(s, sp) => fits(s, sp, first(w)) && walk(q.skip(1), w, prev),
            Key::Any => false });
    }
}
proof fn split_finds(n: TrieNode, w: Seq<char>, prev: Option<char>, t: T)
    ensures finds(n, w, prev, t) <==> n.translation == Some(t) || exists|x: Key| kids(n.transitions).contains_key(x) && #[trigger] finds_by(n, w, prev, t, x),
{
    if finds(n, w, prev, t) {
        let p = choose|p: P| #[trigger] at(n, p) == Some(t) && walk(p, w, prev);
        if p.len() > 0 { assert(finds_by(n, w, prev, t, p[0])); }
    }
    if n.translation == Some(t) { let p: P = seq![]; assert(at(n, p) == Some(t) && walk(p, w, prev)); }
}
spec fn via(n: TrieNode, w: Seq<char>, prev: Option<char>, t: T, x: Key) -> bool { x is Char && kids(n.transitions).contains_key(x) && finds_by(n, w, prev, t, x) }
/// results through one of the first k children that are class conditions
#[verifier::opaque]
spec fn through(n: TrieNode, w: Seq<char>, prev: Option<char>, t: T, l: Seq<(&ResolvedTransition, &TrieNode)>, k: int) -> bool {
    exists|i: int| 0 <= i < k && !(key(*(#[trigger] l[i]).0) is Char) && finds_by(n, w, prev, t, key(*l[i].0))
}
spec fn through_upd(n: TrieNode, w: Seq<char>, prev: Option<char>, l: Seq<(&ResolvedTransition, &TrieNode)>, k: int) -> bool {
    forall|t: T| #[trigger] through(n, w, prev, t, l, k + 1) <==> through(n, w, prev, t, l, k) || (!(key(*l[k].0) is Char) && finds_by(n, w, prev, t, key(*l[k].0)))
}
proof fn no_through(n: TrieNode, w: Seq<char>, prev: Option<char>)
    ensures forall|t: T, l: Seq<(&ResolvedTransition, &TrieNode)>| !(#[trigger] through(n, w, prev, t, l, 0)),
{ reveal(through); }
proof fn all_through(n: TrieNode, w: Seq<char>, prev: Option<char>, t: T, l: Seq<(&ResolvedTransition, &TrieNode)>, i: int)
    requires 0 <= i < l.len(), !(key(*l[i].0) is Char), finds_by(n, w, prev, t, key(*l[i].0)),
    ensures through(n, w, prev, t, l, l.len() as int),
{ reveal(through); }
proof fn through_is(n: TrieNode, w: Seq<char>, prev: Option<char>, t: T, l: Seq<(&ResolvedTransition, &TrieNode)>, k: int)
    requires through(n, w, prev, t, l, k),
    ensures exists|i: int| 0 <= i < k && !(key(*(#[trigger] l[i]).0) is Char) && finds_by(n, w, prev, t, key(*l[i].0)),
{ reveal(through); }
proof fn through_next(n: TrieNode, w: Seq<char>, prev: Option<char>, l: Seq<(&ResolvedTransition, &TrieNode)>, k: int)
    requires 0 <= k < l.len(),
    ensures through_upd(n, w, prev, l, k),
{ 
    reveal(through);
    assert forall|t: T| through(n, w, prev, t, l, k + 1) <==> through(n, w, prev, t, l, k) || (!(key(*l[k].0) is Char) && finds_by(n, w, prev, t, key(*l[k].0))) by {
        if through(n, w, prev, t, l, k + 1) {
            let i = choose|i: int| 0 <= i < k + 1 && !(key(*(#[trigger] l[i]).0) is Char) && finds_by(n, w, prev, t, key(*l[i].0));
            if i < k { assert(through(n, w, prev, t, l, k)); }
        }
    }
}
@fn translator/trie.rs ResolvedClasses::resolve ret=r loops=1
@subst chars . sort_unstable ( ) =>> sort_chars ( & mut chars )
@subst chars . dedup ( ) =>> dedup_chars ( & mut chars )
@subst classes . contains ( & CharacterClass :: Space ) =>> has_class ( classes , CharacterClass :: Space )
@spec
    ensures strict(r.chars@), r.chars@.to_set() == union(*ctx, classes@), r.includes_space == classes@.contains(CharacterClass::Space),
@loop 0
    invariant __i0 <= classes@.len(), __acc0@.to_set() == union(*ctx, classes@.take(__i0 as int)),
    decreases classes@.len() - __i0,
@loop 0 start
    proof {
        let k = __i0 as int;
        assert(classes@.take(k + 1).drop_last() =~= classes@.take(k)); assert(classes@.take(k + 1).last() == classes@[k]);
        assert(union(*ctx, classes@.take(k)).union(Set::empty()) =~= union(*ctx, classes@.take(k)));
    }
@loop 0 pre
    proof { assert(classes@.take(0).len() == 0); assert(Seq::<char>::empty().to_set() =~= Set::empty()); }
@loop 0 post
    proof { assert(classes@.take(classes@.len() as int) =~= classes@); }
@fn translator/trie.rs ResolvedClasses::matches ret=r
@subst self . chars . binary_search ( & c ) . is_ok ( ) =>> bsearch_ok ( & self . chars , c )
@spec
    requires strict(self.chars@),
    ensures r == fits(self.chars@.to_set(), self.includes_space, c),
@fn translator/trie.rs TrieNode::char_transition ret=r
@subst c . to_lowercase ( ) . count ( ) =>> lower_count ( c )
@subst c . to_lowercase ( ) . next ( ) . unwrap ( ) =>> lower_first ( c )
@spec
    ensures (match r {
        Some(n) => fold(c) is Some && kids(self.transitions).contains_key(Key::Char(fold(c)->0)) && kids(self.transitions)[Key::Char(fold(c)->0)] == *n && height(n.transitions) < height(self.transitions),
        None => fold(c) is None || !kids(self.transitions).contains_key(Key::Char(fold(c)->0)) }),
@fn translator/trie.rs TrieNode::any_transition ret=r
@spec
    ensures r is Some ==> kids(self.transitions).contains_key(Key::Any) && kids(self.transitions)[Key::Any] == *(r->0) && height((r->0).transitions) < height(self.transitions),
@fn translator/trie.rs Trie::find_translations_from_node ret=r loops=1 vecextend owned=kid_list(&node.transitions)
@subst input . chars ( ) =>> chars_of ( input )
@subst c . len_utf8 ( ) =>> len_utf8 ( c )
@subst & input [ bytes .. ] =>> str_from ( input , bytes )
@subst & node . transitions =>> kid_list ( & node . transitions )
@spec
    requires no_any(*node), match_length + input@.len() <= usize::MAX,
    ensures forall|t: T| r@.contains(t) <==> finds(*node, input@, prev, t),
    decreases height(node.transitions)
@before if let Some ( ref translation )
    let ghost n0 = *node;
@before let c = chars . next ( )
    let ghost own = matching_rules@;
@before if let Some ( c ) = c
    proof {
        assert forall|t: T| own.contains(t) <==> n0.translation == Some(t) by {
            if n0.translation is Some { assert(own[0] == n0.translation->0); }
        }
    }
    let ghost ck = if input@.len() > 0 && fold(input@[0]) is Some { Key::Char(fold(input@[0])->0) } else { Key::Any };
@before vec_extend
    proof { kid_no_any(n0, ck); let z = kids(n0.transitions)[ck]; assert forall|t: T| finds(z, input@.skip(1), Some(input@[0]), t) <==> finds_by(n0, input@, prev, t, ck) by { through_kid(n0, input@, prev, ck, t); } }
@before2 vec_extend
    proof { kid_no_any(n0, Key::Any); }
@loop 0 pre
    proof {
        assert forall|t: T| #[trigger] matching_rules@.contains(t) <==> own.contains(t) || via(n0, input@, prev, t, ck) by {
            if kids(n0.transitions).contains_key(ck) { through_kid(n0, input@, prev, ck, t); }
        }
        no_through(n0, input@, prev);
    }
@loop 0
    invariant
        n0 == *node, no_any(n0), match_length + input@.len() <= usize::MAX, __i0 <= __s0@.len(), c == first(input@),
        forall|i: int| 0 <= i < __s0@.len() ==> clean(*(#[trigger] __s0@[i]).0) && kids(n0.transitions).contains_key(key(*__s0@[i].0)) && kids(n0.transitions)[key(*__s0@[i].0)] == *__s0@[i].1 && height(__s0@[i].1.transitions) < height(n0.transitions),
        forall|t: T| #[trigger] matching_rules@.contains(t) <==> n0.translation == Some(t) || via(n0, input@, prev, t, ck) || through(n0, input@, prev, t, __s0@, __i0 as int),
    decreases __s0@.len() - __i0,
@loop 0 start
    let ghost m0 = matching_rules@;
    proof {
        let x = key(*__s0@[__i0 as int].0);
        kid_no_any(n0, x);
        assert forall|t: T| finds_by(n0, input@, prev, t, x) <==> (match x {
            Key::Char(c) => input@.len() > 0 && fold(input@[0]) == Some(c) && finds(kids(n0.transitions)[x], input@.skip(1), Some(input@[0]), t),
            Key::Start(s, sp) => fits(s, sp, prev) && finds(kids(n0.transitions)[x], input@, prev, t),
            Key::End(s, sp) => fits(s, sp, first(input@)) && finds(kids(n0.transitions)[x], input@, prev, t),
            Key::Any => false }) by { through_kid(n0, input@, prev, x, t); }
        through_next(n0, input@, prev, __s0@, __i0 as int);
    }
@loop 0 end
    proof {
        let x = key(*__s0@[__i0 - 1].0);
        assert(through_upd(n0, input@, prev, __s0@, __i0 - 1));
        assert forall|t: T| #[trigger] matching_rules@.contains(t) <==> m0.contains(t) || (!(x is Char) && finds_by(n0, input@, prev, t, x)) by {
        }
    }
@loop 0 post
    proof {
        assert forall|t: T| #[trigger] matching_rules@.contains(t) <==> finds(n0, input@, prev, t) by {
            split_finds(n0, input@, prev, t);
            if via(n0, input@, prev, t, ck) { assert(finds_by(n0, input@, prev, t, ck)); }
            if exists|x: Key| kids(n0.transitions).contains_key(x) && #[trigger] finds_by(n0, input@, prev, t, x) {
                let x = choose|x: Key| kids(n0.transitions).contains_key(x) && #[trigger] finds_by(n0, input@, prev, t, x);
                through_kid(n0, input@, prev, x, t);
                if x is Char { assert(x == ck); }
                else {
                    let i = choose|i: int| 0 <= i < __s0@.len() && key(*(#[trigger] __s0@[i]).0) == x;
                    all_through(n0, input@, prev, t, __s0@, i);
                }
            }
            if through(n0, input@, prev, t, __s0@, __s0@.len() as int) { through_is(n0, input@, prev, t, __s0@, __s0@.len() as int); }
        }
    }
@fn translator/trie.rs Trie::find_translations ret=r
@spec
    requires no_any(self.root),
    ensures forall|t: T| r@.contains(t) <==> finds(self.root, input@, prev, t),
@entry
    proof { str_bound(input); }
@fn translator/translation.rs ResolvedTranslation::with_precedence ret=r
@spec
    ensures r == (T { precedence: precedence, ..self }),
@fn translator/translation.rs ResolvedTranslation::precedence ret=r
@spec
    ensures r == self.precedence,
@raw
// ---- storing a rule ----
spec fn set_key(start: bool, x: CharacterClasses, cs: Seq<CharacterClass>) -> Key {
    if start { Key::Start(union(x, cs), cs.contains(CharacterClass::Space)) } else { Key::End(union(x, cs), cs.contains(CharacterClass::Space)) }
}
spec fn cond_key(x: CharacterClasses, t: Transition) -> Key {
    match t { Transition::Start(c) => set_key(true, x, c@), Transition::End(c) => set_key(false, x, c@) }
}
/// keys of the `after` (start) resp. `before` (end) class keywords of a rule
spec fn class_keys(x: CharacterClasses, start: bool, cs: Seq<ClassConstraint>) -> P decreases cs.len() {
    if cs.len() == 0 { seq![] } else {
        let p = class_keys(x, start, cs.drop_last());
        match cs.last() {
            ClassConstraint::Start(c) => if start { p.push(set_key(true, x, seq![c])) } else { p },
            ClassConstraint::End(c) => if start { p } else { p.push(set_key(false, x, seq![c])) },
        }
    }
}
spec fn opt_key(x: CharacterClasses, t: Option<Transition>) -> P { match t { Some(t) => seq![cond_key(x, t)], None => seq![] } }
spec fn char_keys(s: Seq<char>) -> P { s.map_values(|c: char| Key::Char(c)) }
spec fn path_of(x: CharacterClasses, from: Seq<char>, before: Option<Transition>, after: Option<Transition>, cs: Seq<ClassConstraint>) -> P {
    class_keys(x, true, cs) + opt_key(x, before) + char_keys(from) + opt_key(x, after) + class_keys(x, false, cs)
}
spec fn rule_of(t: T, from: Seq<char>, to: Seq<char>, weight: nat, precedence: Precedence, stage: TranslationStage, origin: AnchoredRule) -> bool {
    t.input@ == from && t.output@ == to && t.length == from.len() && t.weight == weight && t.offset == 0 && t.effects@.len() == 0
        && t.precedence == precedence && t.stage == stage && t.origin == Some(origin)
}
spec fn starts(q: P, p: P) -> bool { q.len() >= p.len() && q.take(p.len() as int) =~= p }
/// where the walk down the tree is: `cur` is the node under `p` of the tree `a`; replacing it by `fcur` gives `fin`
spec fn cursor(a: TrieNode, fin: TrieNode, p: P, cur: TrieNode, fcur: TrieNode) -> bool {
    &&& forall|q: P| #[trigger] at(cur, q) == at(a, p + q)
    &&& forall|q: P| #[trigger] at(fin, q) == (if starts(q, p) { at(fcur, q.skip(p.len() as int)) } else { at(a, q) })
}
proof fn cursor_start(a: TrieNode, fin: TrieNode)
    ensures cursor(a, fin, seq![], a, fin),
{
    let e: P = seq![];
    assert forall|q: P| #[trigger] at(a, q) == at(a, e + q) by { assert(e + q =~= q); }
    assert forall|q: P| #[trigger] at(fin, q) == (if starts(q, e) { at(fin, q.skip(0)) } else { at(a, q) }) by { assert(q.skip(0) =~= q); assert(q.take(0) =~= e); }
}
proof fn cursor_down(a: TrieNode, fin: TrieNode, p: P, cur: TrieNode, fcur: TrieNode, x: Key, kid: TrieNode, fkid: TrieNode)
    requires cursor(a, fin, p, cur, fcur), fcur.translation == cur.translation,
        kid == (if kids(cur.transitions).contains_key(x) { kids(cur.transitions)[x] } else { node0() }),
        kids(fcur.transitions) == kids(cur.transitions).insert(x, fkid),
    ensures cursor(a, fin, p.push(x), kid, fkid),
{
    let px = p.push(x);
    node0_is();
    assert forall|q: P| #[trigger] at(kid, q) == at(a, px + q) by {
        let r = seq![x] + q;
        assert(r.skip(1) =~= q);
        assert(px + q =~= p + r);
        assert(at(cur, r) == at(a, p + r));
        if !kids(cur.transitions).contains_key(x) { assert(at(node0(), q) is None); }
    }
    assert forall|q: P| #[trigger] at(fin, q) == (if starts(q, px) { at(fkid, q.skip(px.len() as int)) } else { at(a, q) }) by {
        if starts(q, px) {
            assert(q.take(p.len() as int) =~= q.take(px.len() as int).take(p.len() as int));
            assert(px.take(p.len() as int) =~= p);
            assert(starts(q, p));
            let r = q.skip(p.len() as int);
            assert(r[0] == q.take(px.len() as int)[p.len() as int]);
            assert(r[0] == x);
            assert(r.skip(1) =~= q.skip(px.len() as int));
        } else if starts(q, p) {
            let r = q.skip(p.len() as int);
            assert(p + r =~= q);
            assert(at(cur, r) == at(a, p + r));
            if r.len() > 0 {
                if r[0] == x { assert(q.take(px.len() as int) =~= px); }
                assert(at(fcur, r) == at(cur, r));
            }
        }
    }
}
proof fn cursor_end(a: TrieNode, fin: TrieNode, p: P, cur: TrieNode, fcur: TrieNode)
    requires cursor(a, fin, p, cur, fcur),
    ensures at(a, p) == cur.translation,
        kids(fcur.transitions) == kids(cur.transitions) ==> forall|q: P| #[trigger] at(fin, q) == (if q == p { fcur.translation } else { at(a, q) }),
{
    let e: P = seq![];
    assert(at(cur, e) == at(a, p + e)); assert(p + e =~= p);
    if kids(fcur.transitions) == kids(cur.transitions) {
    assert forall|q: P| #[trigger] at(fin, q) == (if q == p { fcur.translation } else { at(a, q) }) by {
        if starts(q, p) {
            let r = q.skip(p.len() as int);
            assert(p + r =~= q);
            assert(at(cur, r) == at(a, p + r));
            if r.len() == 0 { assert(q =~= p); } else { assert(at(fcur, r) == at(cur, r)); }
        }
        if q == p { assert(q.take(p.len() as int) =~= p); assert(q.skip(p.len() as int) =~= e); }
    }
    }
}
proof fn class_keys_take(x: CharacterClasses, start: bool, cs: Seq<ClassConstraint>, k: int)
    requires 0 <= k < cs.len(),
    ensures class_keys(x, start, cs.take(k + 1)) == (match cs[k] {
        ClassConstraint::Start(c) => if start { class_keys(x, start, cs.take(k)).push(set_key(true, x, seq![c])) } else { class_keys(x, start, cs.take(k)) },
        ClassConstraint::End(c) => if start { class_keys(x, start, cs.take(k)) } else { class_keys(x, start, cs.take(k)).push(set_key(false, x, seq![c])) } }),
        class_keys(x, start, cs.take(k)).len() <= k,
    decreases k
{
    assert(cs.take(k + 1).drop_last() =~= cs.take(k));
    assert(cs.take(k + 1).last() == cs[k]);
    if k > 0 { class_keys_take(x, start, cs, k - 1); }
}
proof fn class_keys_kind(x: CharacterClasses, start: bool, cs: Seq<ClassConstraint>)
    ensures forall|i: int| 0 <= i < class_keys(x, start, cs).len() ==> if start { #[trigger] class_keys(x, start, cs)[i] is Start } else { class_keys(x, start, cs)[i] is End },
    decreases cs.len()
{ if cs.len() > 0 { class_keys_kind(x, start, cs.drop_last()); } }
proof fn path_no_any(x: CharacterClasses, from: Seq<char>, before: Option<Transition>, after: Option<Transition>, cs: Seq<ClassConstraint>)
    ensures forall|i: int| 0 <= i < path_of(x, from, before, after, cs).len() ==> !(#[trigger] path_of(x, from, before, after, cs)[i] is Any),
{
    class_keys_kind(x, true, cs);
    class_keys_kind(x, false, cs);
}
@fn translator/trie.rs Trie::resolve_transition ret=r
@spec
    ensures clean(r), key(r) == cond_key(self.ctx, transition), !(r is Any),
@raw
/// the class list of one keyword
fn resolve_one(ctx: &CharacterClasses, class: &CharacterClass) -> (r: ResolvedClasses)
    ensures strict(r.chars@), key(ResolvedTransition::Start(r)) == set_key(true, *ctx, seq![*class]), key(ResolvedTransition::End(r)) == set_key(false, *ctx, seq![*class]),
{
    let v = [class.clone()];
    let r = ResolvedClasses::resolve(ctx, &v);
    proof { assert(v@ =~= seq![*class]); }
    r
}
@fn translator/trie.rs Trie::insert loops=3 optmap slice=class_constraints
@subst ResolvedClasses :: resolve ( & self . ctx , & [ class . clone ( ) ] ) =>> resolve_one ( & self . ctx , class )
@subst cfg ! ( feature = "backwards_compatibility" ) =>> true
@subst precedence > existing . precedence ( ) =>> prec_gt ( & precedence , & existing . precedence ( ) )
@subst ResolvedTranslation :: new ( from , to , length , stage , origin . clone ( ) ) =>> ResolvedTranslation :: new ( from , to , length , stage , Some ( origin . clone ( ) ) )
@spec
    requires (if direction is Forward { from@ } else { to@ }).len() > 0, class_constraints@.len() < 0x1000_0000,
    ensures ({
        let (f, t) = if direction is Forward { (from@, to@) } else { (to@, from@) };
        let p = path_of(old(self).ctx, f, before, after, class_constraints@);
        &&& final(self).ctx == old(self).ctx
        &&& no_any(old(self).root) ==> no_any(final(self).root)
        &&& forall|q: P| q != p ==> #[trigger] at(final(self).root, q) == at(old(self).root, q)
        &&& match at(old(self).root, p) {
            Some(e) if rank(precedence) <= rank(e.precedence) => at(final(self).root, p) == Some(e),
            _ => at(final(self).root, p) is Some && rule_of(at(final(self).root, p)->0, f, t, p.len(), precedence, stage, *origin),
        }
    }),
@entry
    let ghost x = self.ctx;
    let ghost a = self.root;
    let ghost (b0, a0) = (before, after);
    let ghost cs = class_constraints@;
@before let mut length
    let ghost fin = *final(current_node);
    let ghost mut p: P = seq![];
    proof { cursor_start(a, fin); }
@loop 0
    invariant
        __i0 <= cs.len(), cs == class_constraints@, cs.len() < 0x1000_0000, x == self.ctx, from@.len() <= isize::MAX,
        p == class_keys(x, true, cs.take(__i0 as int)), length == from@.len() + p.len(), p.len() <= __i0,
        cursor(a, fin, p, *current_node, *final(current_node)),
    decreases cs.len() - __i0,
@loop 0 start
    let ghost (cn, fc) = (*current_node, *final(current_node));
    proof { class_keys_take(x, true, cs, __i0 as int); }
@loop 0 end
    proof {
        let k = __i0 - 1;
        if cs[k] is Start {
            let y = set_key(true, x, seq![cs[k]->Start_0]);
            cursor_down(a, fin, p, cn, fc, y, *current_node, *final(current_node));
            p = p.push(y);
        }
    }
@before if let Some ( t ) = before
    let ghost (cn, fc) = (*current_node, *final(current_node));
    let ghost p1 = p;
    proof { assert(cs.take(cs.len() as int) =~= cs); }
@loop 1 pre
    proof {
        if before is Some {
            cursor_down(a, fin, p, cn, fc, cond_key(x, b0->0), *current_node, *final(current_node));
            p = p.push(cond_key(x, b0->0));
        }
        assert(p =~= p1 + opt_key(x, b0));
    }
    let ghost p2 = p;
@loop 1
    invariant
        __i1 <= __s1@.len(), __s1@ == from@, p =~= p2 + char_keys(from@.take(__i1 as int)),
        cursor(a, fin, p, *current_node, *final(current_node)),
    decreases __s1@.len() - __i1,
@loop 1 start
    let ghost (cn, fc) = (*current_node, *final(current_node));
@loop 1 end
    proof {
        let y = Key::Char(c);
        cursor_down(a, fin, p, cn, fc, y, *current_node, *final(current_node));
        p = p.push(y);
        assert(from@.take(__i1 as int) =~= from@.take(__i1 - 1).push(c));
    }
@before if let Some ( t ) = after
    let ghost (cn, fc) = (*current_node, *final(current_node));
    let ghost p3 = p;
    proof { assert(from@.take(from@.len() as int) =~= from@); }
@loop 2 pre
    proof {
        if after is Some {
            cursor_down(a, fin, p, cn, fc, cond_key(x, a0->0), *current_node, *final(current_node));
            p = p.push(cond_key(x, a0->0));
        }
        assert(p =~= p3 + opt_key(x, a0));
        assert(cs.take(0).len() == 0);
    }
    let ghost p4 = p;
@loop 2
    invariant
        __i2 <= cs.len(), cs == class_constraints@, cs.len() < 0x1000_0000, x == self.ctx, from@.len() <= isize::MAX, p4.len() <= from@.len() + cs.len() + 2,
        p =~= p4 + class_keys(x, false, cs.take(__i2 as int)), length == p.len(), p.len() <= p4.len() + __i2,
        cursor(a, fin, p, *current_node, *final(current_node)),
    decreases cs.len() - __i2,
@loop 2 start
    let ghost (cn, fc) = (*current_node, *final(current_node));
    proof { class_keys_take(x, false, cs, __i2 as int); }
@loop 2 end
    proof {
        let k = __i2 - 1;
        if cs[k] is End {
            let y = set_key(false, x, seq![cs[k]->End_0]);
            cursor_down(a, fin, p, cn, fc, y, *current_node, *final(current_node));
            p = p.push(y);
        }
    }
@before let translation
    let ghost (cn, fc) = (*current_node, *final(current_node));
    proof {
        assert(cs.take(cs.len() as int) =~= cs);
        assert(p =~= path_of(x, from@, b0, a0, cs));
    }
@before if let Some ( existing )
    let ghost new = translation;
    let ghost old_t = current_node.translation;
@exit
    proof {
        cursor_end(a, fin, p, cn, fc);
        assert(rule_of(new, from@, to@, p.len(), precedence, stage, *origin));
        assert(p == path_of(x, from@, b0, a0, cs));
        path_no_any(x, from@, b0, a0, cs);
    }
@fn translator/trie.rs Trie::insert_char
@subst & from . to_string ( ) =>> & char_string ( from )
@subst vec ! [ ] =>> Vec :: new ( )
@spec
    requires direction is Backward ==> to@.len() > 0,
    ensures ({
        let (f, t) = if direction is Forward { (seq![from], to@) } else { (to@, seq![from]) };
        let p = char_keys(f);
        &&& final(self).ctx == old(self).ctx
        &&& no_any(old(self).root) ==> no_any(final(self).root)
        &&& forall|q: P| q != p ==> #[trigger] at(final(self).root, q) == at(old(self).root, q)
        &&& match at(old(self).root, p) {
            Some(e) if rank(precedence) <= rank(e.precedence) => at(final(self).root, p) == Some(e),
            _ => at(final(self).root, p) is Some && rule_of(at(final(self).root, p)->0, f, t, f.len(), precedence, stage, *origin),
        }
    }),
@entry
    proof {
        let f = if direction is Forward { seq![from] } else { to@ };
        assert(path_of(self.ctx, f, None, None, seq![]) =~= char_keys(f));
    }
@raw
// ---- what a stored rule demands of its surroundings ----
/// the condition, seen from the matched text: `prev` before it, `next` behind it
spec fn holds(k: Key, prev: Option<char>, next: Option<char>) -> bool {
    match k { Key::Start(s, sp) => fits(s, sp, prev), Key::End(s, sp) => fits(s, sp, next), _ => false }
}
proof fn walk_starts(ks: P, rest: P, w: Seq<char>, prev: Option<char>)
    requires forall|i: int| 0 <= i < ks.len() ==> #[trigger] ks[i] is Start,
    ensures walk(ks + rest, w, prev) <==> walk(rest, w, prev) && forall|i: int| 0 <= i < ks.len() ==> holds(#[trigger] ks[i], prev, None),
    decreases ks.len()
{
    if ks.len() == 0 { assert(ks + rest =~= rest); }
    else {
        let p = ks + rest;
        assert(p.skip(1) =~= ks.skip(1) + rest);
        walk_starts(ks.skip(1), rest, w, prev);
        assert(p[0] == ks[0]);
        if forall|i: int| 0 <= i < ks.skip(1).len() ==> holds(#[trigger] ks.skip(1)[i], prev, None) {
            assert forall|i: int| 1 <= i < ks.len() implies holds(#[trigger] ks[i], prev, None) by { assert(ks.skip(1)[i - 1] == ks[i]); }
        }
        if forall|i: int| 0 <= i < ks.len() ==> holds(#[trigger] ks[i], prev, None) {
            assert forall|i: int| 0 <= i < ks.skip(1).len() implies holds(#[trigger] ks.skip(1)[i], prev, None) by { assert(ks.skip(1)[i] == ks[i + 1]); }
        }
    }
}
proof fn walk_ends(ks: P, w: Seq<char>, prev: Option<char>)
    requires forall|i: int| 0 <= i < ks.len() ==> #[trigger] ks[i] is End,
    ensures walk(ks, w, prev) <==> forall|i: int| 0 <= i < ks.len() ==> holds(#[trigger] ks[i], None, first(w)),
    decreases ks.len()
{
    if ks.len() > 0 {
        let r = ks.skip(1);
        walk_ends(r, w, prev);
        if walk(ks, w, prev) {
            assert forall|i: int| 0 <= i < ks.len() implies holds(#[trigger] ks[i], None, first(w)) by { if i > 0 { assert(holds(r[i - 1], None, first(w))); } }
        }
        if forall|i: int| 0 <= i < ks.len() ==> holds(#[trigger] ks[i], None, first(w)) {
            assert forall|i: int| 0 <= i < r.len() implies holds(#[trigger] r[i], None, first(w)) by { assert(holds(ks[i + 1], None, first(w))); }
            assert(holds(ks[0], None, first(w)));
        }
    }
}
proof fn walk_chars(s: Seq<char>, rest: P, w: Seq<char>, prev: Option<char>)
    ensures walk(char_keys(s) + rest, w, prev) <==> reads(s, w) && walk(rest, w.skip(s.len() as int), if s.len() == 0 { prev } else { Some(w[s.len() - 1]) }),
    decreases s.len()
{
    let p = char_keys(s) + rest;
    if s.len() == 0 { assert(p =~= rest); assert(w.skip(0) =~= w); }
    else {
        let (s1, w1) = (s.skip(1), w.skip(1));
        assert(p.skip(1) =~= char_keys(s1) + rest);
        assert(p[0] == Key::Char(s[0]));
        if w.len() > 0 {
            walk_chars(s1, rest, w1, Some(w[0]));
            if s.len() <= w.len() { assert(w1.skip(s1.len() as int) =~= w.skip(s.len() as int)); }
            if reads(s1, w1) && fold(w[0]) == Some(s[0]) {
                assert forall|i: int| 0 <= i < s.len() implies fold(#[trigger] w[i]) == Some(s[i]) by { if i > 0 { assert(fold(w1[i - 1]) == Some(s1[i - 1])); } }
            }
            if reads(s, w) {
                assert forall|i: int| 0 <= i < s1.len() implies fold(#[trigger] w1[i]) == Some(s1[i]) by { assert(fold(w[i + 1]) == Some(s[i + 1])); }
                assert(fold(w[0]) == Some(s[0]));
            }
        }
    }
}
/// C06: a stored rule is found exactly where its text stands (ignoring case), its left conditions hold for the
/// character before it and its right conditions for the character behind it; the ends of the text count as space
proof fn th_match(x: CharacterClasses, from: Seq<char>, before: Option<Transition>, after: Option<Transition>, cs: Seq<ClassConstraint>, w: Seq<char>, prev: Option<char>)
    requires before is Some ==> before->0 is Start, after is Some ==> after->0 is End,
    ensures walk(path_of(x, from, before, after, cs), w, prev) <==> ({
        let next = first(w.skip(from.len() as int));
        &&& reads(from, w)
        &&& before is Some ==> holds(cond_key(x, before->0), prev, next)
        &&& after is Some ==> holds(cond_key(x, after->0), prev, next)
        &&& forall|i: int| 0 <= i < class_keys(x, true, cs).len() ==> holds(#[trigger] class_keys(x, true, cs)[i], prev, next)
        &&& forall|i: int| 0 <= i < class_keys(x, false, cs).len() ==> holds(#[trigger] class_keys(x, false, cs)[i], prev, next)
    }),
{
    let (c1, c2) = (class_keys(x, true, cs), class_keys(x, false, cs));
    class_keys_kind(x, true, cs);
    class_keys_kind(x, false, cs);
    let ks = c1 + opt_key(x, before);
    let es = opt_key(x, after) + c2;
    assert(path_of(x, from, before, after, cs) =~= ks + (char_keys(from) + es));
    walk_starts(ks, char_keys(from) + es, w, prev);
    walk_chars(from, es, w, prev);
    let w2 = w.skip(from.len() as int);
    walk_ends(es, w2, if from.len() == 0 { prev } else { Some(w[from.len() - 1]) });
    let next = first(w2);
    if walk(path_of(x, from, before, after, cs), w, prev) {
        assert forall|i: int| 0 <= i < c1.len() implies holds(#[trigger] c1[i], prev, next) by { assert(holds(ks[i], prev, None)); }
        assert forall|i: int| 0 <= i < c2.len() implies holds(#[trigger] c2[i], prev, next) by { assert(holds(es[i + opt_key(x, after).len()], None, next)); }
        if before is Some { assert(holds(ks[c1.len() as int], prev, None)); }
        if after is Some { assert(holds(es[0], None, next)); }
    } else if reads(from, w) && (before is Some ==> holds(cond_key(x, before->0), prev, next)) && (after is Some ==> holds(cond_key(x, after->0), prev, next))
        && (forall|i: int| 0 <= i < c1.len() ==> holds(#[trigger] c1[i], prev, next)) && (forall|i: int| 0 <= i < c2.len() ==> holds(#[trigger] c2[i], prev, next)) {
        assert forall|i: int| 0 <= i < ks.len() implies holds(#[trigger] ks[i], prev, None) by { if i < c1.len() { assert(holds(c1[i], prev, next)); } }
        assert forall|i: int| 0 <= i < es.len() implies holds(#[trigger] es[i], None, next) by { let o = opt_key(x, after).len(); if i >= o { assert(holds(c2[i - o], prev, next)); } }
    }
}
/// C05/C06: after a rule is stored, the rules found are those found before plus the new one where it fits - unless a
/// rule with the very same text and conditions was there and is not outranked, which then stays (and the new one is not used)
proof fn th_insert(a: TrieNode, b: TrieNode, p: P, w: Seq<char>, prev: Option<char>, t: T)
    requires forall|q: P| q != p ==> #[trigger] at(b, q) == at(a, q), at(a, p) is None, at(b, p) is Some,
    ensures finds(b, w, prev, t) <==> finds(a, w, prev, t) || (at(b, p) == Some(t) && walk(p, w, prev)),
{
    if finds(b, w, prev, t) {
        let q = choose|q: P| #[trigger] at(b, q) == Some(t) && walk(q, w, prev);
        if q != p { assert(at(a, q) == Some(t)); }
    }
    if finds(a, w, prev, t) {
        let q = choose|q: P| #[trigger] at(a, q) == Some(t) && walk(q, w, prev);
        assert(q != p);
        assert(at(b, q) == at(a, q));
    }
}
/// (contract of `Trie::insert` in the modules that only ask whether anything is found at all)
spec fn hits(n: TrieNode, w: Seq<char>, prev: Option<char>) -> bool { exists|t: T| finds(n, w, prev, t) }
proof fn th_hits(x: CharacterClasses, a: TrieNode, b: TrieNode, from: Seq<char>, before: Option<Transition>, after: Option<Transition>, w: Seq<char>, prev: Option<char>)
    requires before is Some ==> before->0 is Start, after is Some ==> after->0 is End,
        ({ let p = path_of(x, from, before, after, seq![]); at(b, p) is Some && forall|q: P| q != p ==> #[trigger] at(b, q) == at(a, q) }),
    ensures hits(b, w, prev) <==> hits(a, w, prev) || ({
        let next = first(w.skip(from.len() as int));
        &&& reads(from, w)
        &&& before is Some ==> holds(cond_key(x, before->0), prev, next)
        &&& after is Some ==> holds(cond_key(x, after->0), prev, next)
    }),
{
    let p = path_of(x, from, before, after, seq![]);
    th_match(x, from, before, after, seq![], w, prev);
    if hits(b, w, prev) {
        let t = choose|t: T| finds(b, w, prev, t);
        let q = choose|q: P| #[trigger] at(b, q) == Some(t) && walk(q, w, prev);
        if q != p { assert(at(a, q) == Some(t)); assert(finds(a, w, prev, t)); }
    }
    if hits(a, w, prev) {
        let t = choose|t: T| finds(a, w, prev, t);
        let q = choose|q: P| #[trigger] at(a, q) == Some(t) && walk(q, w, prev);
        if q != p { assert(at(b, q) == Some(t)); assert(finds(b, w, prev, t)); } else { assert(finds(b, w, prev, at(b, p)->0)); }
    }
    if walk(p, w, prev) { assert(finds(b, w, prev, at(b, p)->0)); }
}
