@include common.vs
@raw
#[verifier::external_body]
fn own(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
/// stands for `HashMap<K, V>::from_iter`: of pairs with the same key the last one counts
#[verifier::external_body]
fn table_of(v: Vec<(char, String)>) -> (r: HashMap<char, String>)
    ensures r@.map_values(|s: String| s@) == partners(Seq::new(v@.len(), |i: int| (v@[i].0, v@[i].1@)))
{ unimplemented!() }
/// what the pairs of a class give each character
spec fn partners(p: Seq<(char, Seq<char>)>) -> Map<char, Seq<char>>
    decreases p.len()
{ if p.len() == 0 { Map::empty() } else { partners(p.drop_last()).insert(p.last().0, p.last().1) } }
spec fn texts(v: Seq<(char, &str)>) -> Seq<(char, Seq<char>)> { Seq::new(v.len(), |i: int| (v[i].0, v[i].1@)) }
@type translator/swap.rs Swapper
@raw
spec fn gives(w: Swapper) -> Map<char, Seq<char>> { w.0@.map_values(|s: String| s@) }
@type translator/swap.rs SwapClasses retype=0:HashMap<String,Swapper>=>Named
@raw
/// stands for `HashMap<String, Swapper>`
#[verifier::external_body]
struct Named { e: u8 }
impl Named {
    uninterp spec fn view(&self) -> Map<Seq<char>, Map<char, Seq<char>>>;
    #[verifier::external_body]
    fn insert(&mut self, name: String, w: Swapper) ensures final(self)@ == old(self)@.insert(name@, gives(w)) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, name: &str) -> (r: Option<&Swapper>)
        ensures r is Some <==> self@.contains_key(name@), r is Some ==> gives(*(r->0)) == self@[name@]
    { unimplemented!() }
}
#[verifier::external_body]
fn owned(o: Option<&Swapper>) -> (r: Option<Swapper>) ensures r is Some <==> o is Some, r is Some ==> gives(r->0) == gives(*(o->0)) { unimplemented!() }
@raw
spec fn copied(v: Seq<(char, String)>, m: Seq<(char, &str)>, n: int) -> bool { v.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] v[i]).0 == m[i].0 && v[i].1@ == m[i].1@ }
@fn translator/swap.rs Swapper::new ret=r loops=1
@subst HashMap :: from_iter ( mappings . iter ( ) . cloned ( ) . map ( | ( c , s ) | ( c , s . to_string ( ) ) ) , ) =>> table_of ( mappings . iter ( ) . map ( | m | ( m . 0 , own ( m . 1 ) ) ) . collect ( ) )
@spec
    ensures gives(r) == partners(texts(mappings@)),
@loop 0
    invariant __i0 <= mappings@.len(), copied(__acc0@, mappings@, __i0 as int),
    decreases mappings@.len() - __i0,
@loop 0 post
    proof { assert(Seq::new(__acc0@.len(), |i: int| (__acc0@[i].0, __acc0@[i].1@)) =~= texts(mappings@)); }
@fn translator/swap.rs SwapClasses::insert
@subst name . to_string ( ) =>> own ( name )
@spec
    ensures final(self).0@ == old(self).0@.insert(name@, partners(texts(mappings@))),
@fn translator/swap.rs SwapClasses::get ret=r
@subst self . 0 . get ( name ) . cloned ( ) =>> owned ( self . 0 . get ( name ) )
@spec
    ensures r is Some <==> self.0@.contains_key(name@), r is Some ==> gives(r->0) == self.0@[name@],
@raw
/// a character that a class lists has the partner it has where it is listed last
proof fn th_last_pair(p: Seq<(char, Seq<char>)>, i: int)
    requires 0 <= i < p.len(), forall|k: int| i < k < p.len() ==> (#[trigger] p[k]).0 != p[i].0,
    ensures partners(p).contains_key(p[i].0), partners(p)[p[i].0] == p[i].1,
    decreases p.len()
{
    if i < p.len() - 1 { assert(p.drop_last()[i] == p[i]); assert forall|k: int| i < k < p.drop_last().len() implies (#[trigger] p.drop_last()[k]).0 != p.drop_last()[i].0 by { assert(p.drop_last()[k] == p[k]); }
        th_last_pair(p.drop_last(), i); assert(p[p.len() - 1].0 != p[i].0); }
}
proof fn th_only_listed(p: Seq<(char, Seq<char>)>, c: char)
    requires forall|k: int| 0 <= k < p.len() ==> (#[trigger] p[k]).0 != c,
    ensures !partners(p).contains_key(c),
    decreases p.len()
{ if p.len() > 0 { assert forall|k: int| 0 <= k < p.drop_last().len() implies (#[trigger] p.drop_last()[k]).0 != c by { assert(p.drop_last()[k] == p[k]); } th_only_listed(p.drop_last(), c); assert(p[p.len() - 1].0 != c); } }
