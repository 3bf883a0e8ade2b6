@include common.vs
@type parser/braille.rs ParseError derive=
@type parser/braille.rs BrailleDot derive=Clone,Copy
@raw
// ---- trusted: `enumset::EnumSet`, seen as a set of values ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct EnumSet<T> { id: usize, p: std::marker::PhantomData<T> }
impl<T> EnumSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    fn intersection(&self, o: EnumSet<T>) -> (r: EnumSet<T>) ensures r@ == self@.intersect(o@) { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body]
    fn from_iter(v: Vec<T>) -> (r: EnumSet<T>) ensures r@ == v@.to_set() { unimplemented!() }
}
impl<T: Copy> Clone for EnumSet<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl<T: Copy> Copy for EnumSet<T> { }
/// `enum_set!(a | b | ..)`
#[verifier::external_body]
fn enum_set_of<T>(v: Vec<T>) -> (r: EnumSet<T>) ensures r@ == v@.to_set() { unimplemented!() }
/// the values `EnumSet::iter` yields
#[verifier::external_body]
fn enum_list<T>(s: &EnumSet<T>) -> (r: Vec<T>) ensures r@.to_set() == s@, r@.no_duplicates() { unimplemented!() }
// ---- trusted: std ----
#[verifier::external_body]
fn char_from_u32(x: u32) -> (r: Option<char>)
    ensures (x < 0xD800 || 0xDFFF < x <= 0x10FFFF) <==> r is Some, r is Some ==> r->0 as u32 == x
{ char::from_u32(x) }
/// the pieces between the separators
spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if !s.contains(c) { seq![s] } else {
        let k = s.index_of_first(c);
        if k is Some && 0 <= k->0 < s.len() { seq![s.take(k->0)] + pieces(s.skip(k->0 + 1), c) } else { seq![s] }
    }
}
#[verifier::external_body]
fn str_split<'a>(s: &'a str, c: char) -> (r: Vec<&'a str>)
    ensures r@.len() == pieces(s@, c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == pieces(s@, c)[i]
{ s.split(c).collect() }
#[verifier::external_body]
fn str_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { s.is_empty() }

// ---- what a dot and a cell are ----
/// dots 1-8 are the bits of the Unicode braille block, the virtual dots 9-f the next seven; 0 is the empty cell
spec fn bit(d: BrailleDot) -> u32 {
    match d {
        BrailleDot::Dot0 => 0,
        BrailleDot::Dot1 => 1,
        BrailleDot::Dot2 => 2,
        BrailleDot::Dot3 => 4,
        BrailleDot::Dot4 => 8,
        BrailleDot::Dot5 => 16,
        BrailleDot::Dot6 => 32,
        BrailleDot::Dot7 => 64,
        BrailleDot::Dot8 => 128,
        BrailleDot::Dot9 => 256,
        BrailleDot::DotA => 512,
        BrailleDot::DotB => 1024,
        BrailleDot::DotC => 2048,
        BrailleDot::DotD => 4096,
        BrailleDot::DotE => 8192,
        BrailleDot::DotF => 16384,
    }
}
spec fn digit(c: char) -> Option<BrailleDot> {
    match c {
        '0' => Some(BrailleDot::Dot0),
        '1' => Some(BrailleDot::Dot1),
        '2' => Some(BrailleDot::Dot2),
        '3' => Some(BrailleDot::Dot3),
        '4' => Some(BrailleDot::Dot4),
        '5' => Some(BrailleDot::Dot5),
        '6' => Some(BrailleDot::Dot6),
        '7' => Some(BrailleDot::Dot7),
        '8' => Some(BrailleDot::Dot8),
        '9' => Some(BrailleDot::Dot9),
        'a' => Some(BrailleDot::DotA),
        'b' => Some(BrailleDot::DotB),
        'c' => Some(BrailleDot::DotC),
        'd' => Some(BrailleDot::DotD),
        'e' => Some(BrailleDot::DotE),
        'f' => Some(BrailleDot::DotF),
        _ => None,
    }
}
spec fn t(s: Set<BrailleDot>, d: BrailleDot, v: u32) -> u32 { if s.contains(d) { v } else { 0 } }
spec fn bits(s: Set<BrailleDot>) -> u32 {
    join(t(s, BrailleDot::Dot1, 1), t(s, BrailleDot::Dot2, 2), t(s, BrailleDot::Dot3, 4), t(s, BrailleDot::Dot4, 8), t(s, BrailleDot::Dot5, 16), t(s, BrailleDot::Dot6, 32), t(s, BrailleDot::Dot7, 64), t(s, BrailleDot::Dot8, 128), t(s, BrailleDot::Dot9, 256), t(s, BrailleDot::DotA, 512), t(s, BrailleDot::DotB, 1024), t(s, BrailleDot::DotC, 2048), t(s, BrailleDot::DotD, 4096), t(s, BrailleDot::DotE, 8192), t(s, BrailleDot::DotF, 16384))
}
spec fn virt(d: BrailleDot) -> bool { bit(d) >= 256 }
spec fn is_virtual(s: Set<BrailleDot>) -> bool { exists|d: BrailleDot| #[trigger] s.contains(d) && virt(d) }
spec fn virtual_list() -> Seq<BrailleDot> { seq![BrailleDot::Dot9, BrailleDot::DotA, BrailleDot::DotB, BrailleDot::DotC, BrailleDot::DotD, BrailleDot::DotE, BrailleDot::DotF] }
/// the character a cell is written as
spec fn cell(s: Set<BrailleDot>) -> u32 { (if is_virtual(s) { 0xF0000u32 } else { 0x2800u32 }) | bits(s) }
spec fn join(a1: u32, a2: u32, a4: u32, a8: u32, a16: u32, a32: u32, a64: u32, a128: u32, a256: u32, a512: u32, a1024: u32, a2048: u32, a4096: u32, a8192: u32, a16384: u32) -> u32 { a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384 }
proof fn join_Dot1(a1: u32, a2: u32, a4: u32, a8: u32, a16: u32, a32: u32, a64: u32, a128: u32, a256: u32, a512: u32, a1024: u32, a2048: u32, a4096: u32, a8192: u32, a16384: u32)
    requires a1 == 0 || a1 == 1,
    ensures join(1u32, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) == join(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) | 1,
{ assert((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) | 1 == (1u32 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384)) by (bit_vector) requires a1 == 0 || a1 == 1; }
proof fn join_Dot2(a1: u32, a2: u32, a4: u32, a8: u32, a16: u32, a32: u32, a64: u32, a128: u32, a256: u32, a512: u32, a1024: u32, a2048: u32, a4096: u32, a8192: u32, a16384: u32)
    requires a2 == 0 || a2 == 2,
    ensures join(a1, 2u32, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) == join(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) | 2,
{ assert((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) | 2 == (a1 | 2u32 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384)) by (bit_vector) requires a2 == 0 || a2 == 2; }
proof fn join_Dot3(a1: u32, a2: u32, a4: u32, a8: u32, a16: u32, a32: u32, a64: u32, a128: u32, a256: u32, a512: u32, a1024: u32, a2048: u32, a4096: u32, a8192: u32, a16384: u32)
    requires a4 == 0 || a4 == 4,
    ensures join(a1, a2, 4u32, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) == join(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) | 4,
{ assert((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) | 4 == (a1 | a2 | 4u32 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384)) by (bit_vector) requires a4 == 0 || a4 == 4; }
proof fn join_Dot4(a1: u32, a2: u32, a4: u32, a8: u32, a16: u32, a32: u32, a64: u32, a128: u32, a256: u32, a512: u32, a1024: u32, a2048: u32, a4096: u32, a8192: u32, a16384: u32)
    requires a8 == 0 || a8 == 8,
    ensures join(a1, a2, a4, 8u32, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) == join(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) | 8,
{ assert((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) | 8 == (a1 | a2 | a4 | 8u32 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384)) by (bit_vector) requires a8 == 0 || a8 == 8; }
proof fn join_Dot5(a1: u32, a2: u32, a4: u32, a8: u32, a16: u32, a32: u32, a64: u32, a128: u32, a256: u32, a512: u32, a1024: u32, a2048: u32, a4096: u32, a8192: u32, a16384: u32)
    requires a16 == 0 || a16 == 16,
    ensures join(a1, a2, a4, a8, 16u32, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) == join(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) | 16,
{ assert((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) | 16 == (a1 | a2 | a4 | a8 | 16u32 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384)) by (bit_vector) requires a16 == 0 || a16 == 16; }
proof fn join_Dot6(a1: u32, a2: u32, a4: u32, a8: u32, a16: u32, a32: u32, a64: u32, a128: u32, a256: u32, a512: u32, a1024: u32, a2048: u32, a4096: u32, a8192: u32, a16384: u32)
    requires a32 == 0 || a32 == 32,
    ensures join(a1, a2, a4, a8, a16, 32u32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) == join(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) | 32,
{ assert((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) | 32 == (a1 | a2 | a4 | a8 | a16 | 32u32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384)) by (bit_vector) requires a32 == 0 || a32 == 32; }
proof fn join_Dot7(a1: u32, a2: u32, a4: u32, a8: u32, a16: u32, a32: u32, a64: u32, a128: u32, a256: u32, a512: u32, a1024: u32, a2048: u32, a4096: u32, a8192: u32, a16384: u32)
    requires a64 == 0 || a64 == 64,
    ensures join(a1, a2, a4, a8, a16, a32, 64u32, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) == join(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) | 64,
{ assert((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) | 64 == (a1 | a2 | a4 | a8 | a16 | a32 | 64u32 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384)) by (bit_vector) requires a64 == 0 || a64 == 64; }
proof fn join_Dot8(a1: u32, a2: u32, a4: u32, a8: u32, a16: u32, a32: u32, a64: u32, a128: u32, a256: u32, a512: u32, a1024: u32, a2048: u32, a4096: u32, a8192: u32, a16384: u32)
    requires a128 == 0 || a128 == 128,
    ensures join(a1, a2, a4, a8, a16, a32, a64, 128u32, a256, a512, a1024, a2048, a4096, a8192, a16384) == join(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) | 128,
{ assert((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) | 128 == (a1 | a2 | a4 | a8 | a16 | a32 | a64 | 128u32 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384)) by (bit_vector) requires a128 == 0 || a128 == 128; }
proof fn join_Dot9(a1: u32, a2: u32, a4: u32, a8: u32, a16: u32, a32: u32, a64: u32, a128: u32, a256: u32, a512: u32, a1024: u32, a2048: u32, a4096: u32, a8192: u32, a16384: u32)
    requires a256 == 0 || a256 == 256,
    ensures join(a1, a2, a4, a8, a16, a32, a64, a128, 256u32, a512, a1024, a2048, a4096, a8192, a16384) == join(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) | 256,
{ assert((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) | 256 == (a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | 256u32 | a512 | a1024 | a2048 | a4096 | a8192 | a16384)) by (bit_vector) requires a256 == 0 || a256 == 256; }
proof fn join_DotA(a1: u32, a2: u32, a4: u32, a8: u32, a16: u32, a32: u32, a64: u32, a128: u32, a256: u32, a512: u32, a1024: u32, a2048: u32, a4096: u32, a8192: u32, a16384: u32)
    requires a512 == 0 || a512 == 512,
    ensures join(a1, a2, a4, a8, a16, a32, a64, a128, a256, 512u32, a1024, a2048, a4096, a8192, a16384) == join(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) | 512,
{ assert((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) | 512 == (a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | 512u32 | a1024 | a2048 | a4096 | a8192 | a16384)) by (bit_vector) requires a512 == 0 || a512 == 512; }
proof fn join_DotB(a1: u32, a2: u32, a4: u32, a8: u32, a16: u32, a32: u32, a64: u32, a128: u32, a256: u32, a512: u32, a1024: u32, a2048: u32, a4096: u32, a8192: u32, a16384: u32)
    requires a1024 == 0 || a1024 == 1024,
    ensures join(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, 1024u32, a2048, a4096, a8192, a16384) == join(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) | 1024,
{ assert((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) | 1024 == (a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | 1024u32 | a2048 | a4096 | a8192 | a16384)) by (bit_vector) requires a1024 == 0 || a1024 == 1024; }
proof fn join_DotC(a1: u32, a2: u32, a4: u32, a8: u32, a16: u32, a32: u32, a64: u32, a128: u32, a256: u32, a512: u32, a1024: u32, a2048: u32, a4096: u32, a8192: u32, a16384: u32)
    requires a2048 == 0 || a2048 == 2048,
    ensures join(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, 2048u32, a4096, a8192, a16384) == join(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) | 2048,
{ assert((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) | 2048 == (a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | 2048u32 | a4096 | a8192 | a16384)) by (bit_vector) requires a2048 == 0 || a2048 == 2048; }
proof fn join_DotD(a1: u32, a2: u32, a4: u32, a8: u32, a16: u32, a32: u32, a64: u32, a128: u32, a256: u32, a512: u32, a1024: u32, a2048: u32, a4096: u32, a8192: u32, a16384: u32)
    requires a4096 == 0 || a4096 == 4096,
    ensures join(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, 4096u32, a8192, a16384) == join(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) | 4096,
{ assert((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) | 4096 == (a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | 4096u32 | a8192 | a16384)) by (bit_vector) requires a4096 == 0 || a4096 == 4096; }
proof fn join_DotE(a1: u32, a2: u32, a4: u32, a8: u32, a16: u32, a32: u32, a64: u32, a128: u32, a256: u32, a512: u32, a1024: u32, a2048: u32, a4096: u32, a8192: u32, a16384: u32)
    requires a8192 == 0 || a8192 == 8192,
    ensures join(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, 8192u32, a16384) == join(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) | 8192,
{ assert((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) | 8192 == (a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | 8192u32 | a16384)) by (bit_vector) requires a8192 == 0 || a8192 == 8192; }
proof fn join_DotF(a1: u32, a2: u32, a4: u32, a8: u32, a16: u32, a32: u32, a64: u32, a128: u32, a256: u32, a512: u32, a1024: u32, a2048: u32, a4096: u32, a8192: u32, a16384: u32)
    requires a16384 == 0 || a16384 == 16384,
    ensures join(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, 16384u32) == join(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384) | 16384,
{ assert((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) | 16384 == (a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | 16384u32)) by (bit_vector) requires a16384 == 0 || a16384 == 16384; }
proof fn bits_insert(s: Set<BrailleDot>, d: BrailleDot)
    ensures bits(s.insert(d)) == bits(s) | bit(d),
{
    hide(join);
    let s1 = s.insert(d);
    let a1 = t(s, BrailleDot::Dot1, 1);
    let a2 = t(s, BrailleDot::Dot2, 2);
    let a4 = t(s, BrailleDot::Dot3, 4);
    let a8 = t(s, BrailleDot::Dot4, 8);
    let a16 = t(s, BrailleDot::Dot5, 16);
    let a32 = t(s, BrailleDot::Dot6, 32);
    let a64 = t(s, BrailleDot::Dot7, 64);
    let a128 = t(s, BrailleDot::Dot8, 128);
    let a256 = t(s, BrailleDot::Dot9, 256);
    let a512 = t(s, BrailleDot::DotA, 512);
    let a1024 = t(s, BrailleDot::DotB, 1024);
    let a2048 = t(s, BrailleDot::DotC, 2048);
    let a4096 = t(s, BrailleDot::DotD, 4096);
    let a8192 = t(s, BrailleDot::DotE, 8192);
    let a16384 = t(s, BrailleDot::DotF, 16384);
    match d {
        BrailleDot::Dot0 => { let x = bits(s); assert(x | 0 == x) by (bit_vector); }
        BrailleDot::Dot1 => { join_Dot1(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384); }
        BrailleDot::Dot2 => { join_Dot2(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384); }
        BrailleDot::Dot3 => { join_Dot3(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384); }
        BrailleDot::Dot4 => { join_Dot4(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384); }
        BrailleDot::Dot5 => { join_Dot5(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384); }
        BrailleDot::Dot6 => { join_Dot6(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384); }
        BrailleDot::Dot7 => { join_Dot7(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384); }
        BrailleDot::Dot8 => { join_Dot8(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384); }
        BrailleDot::Dot9 => { join_Dot9(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384); }
        BrailleDot::DotA => { join_DotA(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384); }
        BrailleDot::DotB => { join_DotB(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384); }
        BrailleDot::DotC => { join_DotC(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384); }
        BrailleDot::DotD => { join_DotD(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384); }
        BrailleDot::DotE => { join_DotE(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384); }
        BrailleDot::DotF => { join_DotF(a1, a2, a4, a8, a16, a32, a64, a128, a256, a512, a1024, a2048, a4096, a8192, a16384); }
    }
}
proof fn bits_empty()
    ensures bits(Set::<BrailleDot>::empty()) == 0,
{ assert(0u32 | 0 == 0) by (bit_vector); }
/// a dot is in the cell exactly if its bit is set
proof fn bits_has(s: Set<BrailleDot>, d: BrailleDot)
    requires d != BrailleDot::Dot0,
    ensures s.contains(d) <==> bits(s) & bit(d) != 0,
{
    let a1 = t(s, BrailleDot::Dot1, 1);
    let a2 = t(s, BrailleDot::Dot2, 2);
    let a4 = t(s, BrailleDot::Dot3, 4);
    let a8 = t(s, BrailleDot::Dot4, 8);
    let a16 = t(s, BrailleDot::Dot5, 16);
    let a32 = t(s, BrailleDot::Dot6, 32);
    let a64 = t(s, BrailleDot::Dot7, 64);
    let a128 = t(s, BrailleDot::Dot8, 128);
    let a256 = t(s, BrailleDot::Dot9, 256);
    let a512 = t(s, BrailleDot::DotA, 512);
    let a1024 = t(s, BrailleDot::DotB, 1024);
    let a2048 = t(s, BrailleDot::DotC, 2048);
    let a4096 = t(s, BrailleDot::DotD, 4096);
    let a8192 = t(s, BrailleDot::DotE, 8192);
    let a16384 = t(s, BrailleDot::DotF, 16384);
    match d {
        BrailleDot::Dot0 => { }
        BrailleDot::Dot1 => { assert(((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) & 1) != 0 <==> a1 != 0) by (bit_vector) requires (a1 == 0 || a1 == 1) && (a2 == 0 || a2 == 2) && (a4 == 0 || a4 == 4) && (a8 == 0 || a8 == 8) && (a16 == 0 || a16 == 16) && (a32 == 0 || a32 == 32) && (a64 == 0 || a64 == 64) && (a128 == 0 || a128 == 128) && (a256 == 0 || a256 == 256) && (a512 == 0 || a512 == 512) && (a1024 == 0 || a1024 == 1024) && (a2048 == 0 || a2048 == 2048) && (a4096 == 0 || a4096 == 4096) && (a8192 == 0 || a8192 == 8192) && (a16384 == 0 || a16384 == 16384); }
        BrailleDot::Dot2 => { assert(((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) & 2) != 0 <==> a2 != 0) by (bit_vector) requires (a1 == 0 || a1 == 1) && (a2 == 0 || a2 == 2) && (a4 == 0 || a4 == 4) && (a8 == 0 || a8 == 8) && (a16 == 0 || a16 == 16) && (a32 == 0 || a32 == 32) && (a64 == 0 || a64 == 64) && (a128 == 0 || a128 == 128) && (a256 == 0 || a256 == 256) && (a512 == 0 || a512 == 512) && (a1024 == 0 || a1024 == 1024) && (a2048 == 0 || a2048 == 2048) && (a4096 == 0 || a4096 == 4096) && (a8192 == 0 || a8192 == 8192) && (a16384 == 0 || a16384 == 16384); }
        BrailleDot::Dot3 => { assert(((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) & 4) != 0 <==> a4 != 0) by (bit_vector) requires (a1 == 0 || a1 == 1) && (a2 == 0 || a2 == 2) && (a4 == 0 || a4 == 4) && (a8 == 0 || a8 == 8) && (a16 == 0 || a16 == 16) && (a32 == 0 || a32 == 32) && (a64 == 0 || a64 == 64) && (a128 == 0 || a128 == 128) && (a256 == 0 || a256 == 256) && (a512 == 0 || a512 == 512) && (a1024 == 0 || a1024 == 1024) && (a2048 == 0 || a2048 == 2048) && (a4096 == 0 || a4096 == 4096) && (a8192 == 0 || a8192 == 8192) && (a16384 == 0 || a16384 == 16384); }
        BrailleDot::Dot4 => { assert(((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) & 8) != 0 <==> a8 != 0) by (bit_vector) requires (a1 == 0 || a1 == 1) && (a2 == 0 || a2 == 2) && (a4 == 0 || a4 == 4) && (a8 == 0 || a8 == 8) && (a16 == 0 || a16 == 16) && (a32 == 0 || a32 == 32) && (a64 == 0 || a64 == 64) && (a128 == 0 || a128 == 128) && (a256 == 0 || a256 == 256) && (a512 == 0 || a512 == 512) && (a1024 == 0 || a1024 == 1024) && (a2048 == 0 || a2048 == 2048) && (a4096 == 0 || a4096 == 4096) && (a8192 == 0 || a8192 == 8192) && (a16384 == 0 || a16384 == 16384); }
        BrailleDot::Dot5 => { assert(((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) & 16) != 0 <==> a16 != 0) by (bit_vector) requires (a1 == 0 || a1 == 1) && (a2 == 0 || a2 == 2) && (a4 == 0 || a4 == 4) && (a8 == 0 || a8 == 8) && (a16 == 0 || a16 == 16) && (a32 == 0 || a32 == 32) && (a64 == 0 || a64 == 64) && (a128 == 0 || a128 == 128) && (a256 == 0 || a256 == 256) && (a512 == 0 || a512 == 512) && (a1024 == 0 || a1024 == 1024) && (a2048 == 0 || a2048 == 2048) && (a4096 == 0 || a4096 == 4096) && (a8192 == 0 || a8192 == 8192) && (a16384 == 0 || a16384 == 16384); }
        BrailleDot::Dot6 => { assert(((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) & 32) != 0 <==> a32 != 0) by (bit_vector) requires (a1 == 0 || a1 == 1) && (a2 == 0 || a2 == 2) && (a4 == 0 || a4 == 4) && (a8 == 0 || a8 == 8) && (a16 == 0 || a16 == 16) && (a32 == 0 || a32 == 32) && (a64 == 0 || a64 == 64) && (a128 == 0 || a128 == 128) && (a256 == 0 || a256 == 256) && (a512 == 0 || a512 == 512) && (a1024 == 0 || a1024 == 1024) && (a2048 == 0 || a2048 == 2048) && (a4096 == 0 || a4096 == 4096) && (a8192 == 0 || a8192 == 8192) && (a16384 == 0 || a16384 == 16384); }
        BrailleDot::Dot7 => { assert(((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) & 64) != 0 <==> a64 != 0) by (bit_vector) requires (a1 == 0 || a1 == 1) && (a2 == 0 || a2 == 2) && (a4 == 0 || a4 == 4) && (a8 == 0 || a8 == 8) && (a16 == 0 || a16 == 16) && (a32 == 0 || a32 == 32) && (a64 == 0 || a64 == 64) && (a128 == 0 || a128 == 128) && (a256 == 0 || a256 == 256) && (a512 == 0 || a512 == 512) && (a1024 == 0 || a1024 == 1024) && (a2048 == 0 || a2048 == 2048) && (a4096 == 0 || a4096 == 4096) && (a8192 == 0 || a8192 == 8192) && (a16384 == 0 || a16384 == 16384); }
        BrailleDot::Dot8 => { assert(((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) & 128) != 0 <==> a128 != 0) by (bit_vector) requires (a1 == 0 || a1 == 1) && (a2 == 0 || a2 == 2) && (a4 == 0 || a4 == 4) && (a8 == 0 || a8 == 8) && (a16 == 0 || a16 == 16) && (a32 == 0 || a32 == 32) && (a64 == 0 || a64 == 64) && (a128 == 0 || a128 == 128) && (a256 == 0 || a256 == 256) && (a512 == 0 || a512 == 512) && (a1024 == 0 || a1024 == 1024) && (a2048 == 0 || a2048 == 2048) && (a4096 == 0 || a4096 == 4096) && (a8192 == 0 || a8192 == 8192) && (a16384 == 0 || a16384 == 16384); }
        BrailleDot::Dot9 => { assert(((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) & 256) != 0 <==> a256 != 0) by (bit_vector) requires (a1 == 0 || a1 == 1) && (a2 == 0 || a2 == 2) && (a4 == 0 || a4 == 4) && (a8 == 0 || a8 == 8) && (a16 == 0 || a16 == 16) && (a32 == 0 || a32 == 32) && (a64 == 0 || a64 == 64) && (a128 == 0 || a128 == 128) && (a256 == 0 || a256 == 256) && (a512 == 0 || a512 == 512) && (a1024 == 0 || a1024 == 1024) && (a2048 == 0 || a2048 == 2048) && (a4096 == 0 || a4096 == 4096) && (a8192 == 0 || a8192 == 8192) && (a16384 == 0 || a16384 == 16384); }
        BrailleDot::DotA => { assert(((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) & 512) != 0 <==> a512 != 0) by (bit_vector) requires (a1 == 0 || a1 == 1) && (a2 == 0 || a2 == 2) && (a4 == 0 || a4 == 4) && (a8 == 0 || a8 == 8) && (a16 == 0 || a16 == 16) && (a32 == 0 || a32 == 32) && (a64 == 0 || a64 == 64) && (a128 == 0 || a128 == 128) && (a256 == 0 || a256 == 256) && (a512 == 0 || a512 == 512) && (a1024 == 0 || a1024 == 1024) && (a2048 == 0 || a2048 == 2048) && (a4096 == 0 || a4096 == 4096) && (a8192 == 0 || a8192 == 8192) && (a16384 == 0 || a16384 == 16384); }
        BrailleDot::DotB => { assert(((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) & 1024) != 0 <==> a1024 != 0) by (bit_vector) requires (a1 == 0 || a1 == 1) && (a2 == 0 || a2 == 2) && (a4 == 0 || a4 == 4) && (a8 == 0 || a8 == 8) && (a16 == 0 || a16 == 16) && (a32 == 0 || a32 == 32) && (a64 == 0 || a64 == 64) && (a128 == 0 || a128 == 128) && (a256 == 0 || a256 == 256) && (a512 == 0 || a512 == 512) && (a1024 == 0 || a1024 == 1024) && (a2048 == 0 || a2048 == 2048) && (a4096 == 0 || a4096 == 4096) && (a8192 == 0 || a8192 == 8192) && (a16384 == 0 || a16384 == 16384); }
        BrailleDot::DotC => { assert(((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) & 2048) != 0 <==> a2048 != 0) by (bit_vector) requires (a1 == 0 || a1 == 1) && (a2 == 0 || a2 == 2) && (a4 == 0 || a4 == 4) && (a8 == 0 || a8 == 8) && (a16 == 0 || a16 == 16) && (a32 == 0 || a32 == 32) && (a64 == 0 || a64 == 64) && (a128 == 0 || a128 == 128) && (a256 == 0 || a256 == 256) && (a512 == 0 || a512 == 512) && (a1024 == 0 || a1024 == 1024) && (a2048 == 0 || a2048 == 2048) && (a4096 == 0 || a4096 == 4096) && (a8192 == 0 || a8192 == 8192) && (a16384 == 0 || a16384 == 16384); }
        BrailleDot::DotD => { assert(((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) & 4096) != 0 <==> a4096 != 0) by (bit_vector) requires (a1 == 0 || a1 == 1) && (a2 == 0 || a2 == 2) && (a4 == 0 || a4 == 4) && (a8 == 0 || a8 == 8) && (a16 == 0 || a16 == 16) && (a32 == 0 || a32 == 32) && (a64 == 0 || a64 == 64) && (a128 == 0 || a128 == 128) && (a256 == 0 || a256 == 256) && (a512 == 0 || a512 == 512) && (a1024 == 0 || a1024 == 1024) && (a2048 == 0 || a2048 == 2048) && (a4096 == 0 || a4096 == 4096) && (a8192 == 0 || a8192 == 8192) && (a16384 == 0 || a16384 == 16384); }
        BrailleDot::DotE => { assert(((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) & 8192) != 0 <==> a8192 != 0) by (bit_vector) requires (a1 == 0 || a1 == 1) && (a2 == 0 || a2 == 2) && (a4 == 0 || a4 == 4) && (a8 == 0 || a8 == 8) && (a16 == 0 || a16 == 16) && (a32 == 0 || a32 == 32) && (a64 == 0 || a64 == 64) && (a128 == 0 || a128 == 128) && (a256 == 0 || a256 == 256) && (a512 == 0 || a512 == 512) && (a1024 == 0 || a1024 == 1024) && (a2048 == 0 || a2048 == 2048) && (a4096 == 0 || a4096 == 4096) && (a8192 == 0 || a8192 == 8192) && (a16384 == 0 || a16384 == 16384); }
        BrailleDot::DotF => { assert(((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) & 16384) != 0 <==> a16384 != 0) by (bit_vector) requires (a1 == 0 || a1 == 1) && (a2 == 0 || a2 == 2) && (a4 == 0 || a4 == 4) && (a8 == 0 || a8 == 8) && (a16 == 0 || a16 == 16) && (a32 == 0 || a32 == 32) && (a64 == 0 || a64 == 64) && (a128 == 0 || a128 == 128) && (a256 == 0 || a256 == 256) && (a512 == 0 || a512 == 512) && (a1024 == 0 || a1024 == 1024) && (a2048 == 0 || a2048 == 2048) && (a4096 == 0 || a4096 == 4096) && (a8192 == 0 || a8192 == 8192) && (a16384 == 0 || a16384 == 16384); }
    }
}
proof fn bits_range(s: Set<BrailleDot>)
    ensures bits(s) < 0x8000, !is_virtual(s) ==> bits(s) < 0x100, is_virtual(s) ==> bits(s) >= 0x100,
{
    let a1 = t(s, BrailleDot::Dot1, 1);
    let a2 = t(s, BrailleDot::Dot2, 2);
    let a4 = t(s, BrailleDot::Dot3, 4);
    let a8 = t(s, BrailleDot::Dot4, 8);
    let a16 = t(s, BrailleDot::Dot5, 16);
    let a32 = t(s, BrailleDot::Dot6, 32);
    let a64 = t(s, BrailleDot::Dot7, 64);
    let a128 = t(s, BrailleDot::Dot8, 128);
    let a256 = t(s, BrailleDot::Dot9, 256);
    let a512 = t(s, BrailleDot::DotA, 512);
    let a1024 = t(s, BrailleDot::DotB, 1024);
    let a2048 = t(s, BrailleDot::DotC, 2048);
    let a4096 = t(s, BrailleDot::DotD, 4096);
    let a8192 = t(s, BrailleDot::DotE, 8192);
    let a16384 = t(s, BrailleDot::DotF, 16384);
    assert((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) < 0x8000) by (bit_vector) requires (a1 == 0 || a1 == 1) && (a2 == 0 || a2 == 2) && (a4 == 0 || a4 == 4) && (a8 == 0 || a8 == 8) && (a16 == 0 || a16 == 16) && (a32 == 0 || a32 == 32) && (a64 == 0 || a64 == 64) && (a128 == 0 || a128 == 128) && (a256 == 0 || a256 == 256) && (a512 == 0 || a512 == 512) && (a1024 == 0 || a1024 == 1024) && (a2048 == 0 || a2048 == 2048) && (a4096 == 0 || a4096 == 4096) && (a8192 == 0 || a8192 == 8192) && (a16384 == 0 || a16384 == 16384);
    if !is_virtual(s) {
        assert(!s.contains(BrailleDot::Dot9)) by { assert(virt(BrailleDot::Dot9)); }
        assert(!s.contains(BrailleDot::DotA)) by { assert(virt(BrailleDot::DotA)); }
        assert(!s.contains(BrailleDot::DotB)) by { assert(virt(BrailleDot::DotB)); }
        assert(!s.contains(BrailleDot::DotC)) by { assert(virt(BrailleDot::DotC)); }
        assert(!s.contains(BrailleDot::DotD)) by { assert(virt(BrailleDot::DotD)); }
        assert(!s.contains(BrailleDot::DotE)) by { assert(virt(BrailleDot::DotE)); }
        assert(!s.contains(BrailleDot::DotF)) by { assert(virt(BrailleDot::DotF)); }
        assert((a1 | a2 | a4 | a8 | a16 | a32 | a64 | a128 | a256 | a512 | a1024 | a2048 | a4096 | a8192 | a16384) < 0x100) by (bit_vector) requires (a1 == 0 || a1 == 1) && (a2 == 0 || a2 == 2) && (a4 == 0 || a4 == 4) && (a8 == 0 || a8 == 8) && (a16 == 0 || a16 == 16) && (a32 == 0 || a32 == 32) && (a64 == 0 || a64 == 64) && (a128 == 0 || a128 == 128) && (a256 == 0 || a256 == 256) && (a512 == 0 || a512 == 512) && (a1024 == 0 || a1024 == 1024) && (a2048 == 0 || a2048 == 2048) && (a4096 == 0 || a4096 == 4096) && (a8192 == 0 || a8192 == 8192) && (a16384 == 0 || a16384 == 16384), a256 == 0 && a512 == 0 && a1024 == 0 && a2048 == 0 && a4096 == 0 && a8192 == 0 && a16384 == 0;
    } else {
        let d = choose|d: BrailleDot| #[trigger] s.contains(d) && virt(d);
        let b = bits(s); let k = bit(d);
        bits_has(s, d);
        assert(b >= 0x100) by (bit_vector) requires (b & k) != 0, k == 256 || k == 512 || k == 1024 || k == 2048 || k == 4096 || k == 8192 || k == 16384;
    }
}
/// two cells are written the same only if they have the same dots
proof fn th_cell_injective(s1: Set<BrailleDot>, s2: Set<BrailleDot>)
    requires cell(s1) == cell(s2),
    ensures s1.remove(BrailleDot::Dot0) == s2.remove(BrailleDot::Dot0),
{
    bits_range(s1); bits_range(s2);
    let (x, y) = (bits(s1), bits(s2));
    assert(x < 0x8000 && y < 0x100 ==> 0xF0000u32 | x != 0x2800u32 | y) by (bit_vector);
    assert(y < 0x8000 && x < 0x100 ==> 0xF0000u32 | y != 0x2800u32 | x) by (bit_vector);
    assert(is_virtual(s1) == is_virtual(s2));
    if is_virtual(s1) { assert(x == y) by (bit_vector) requires 0xF0000u32 | x == 0xF0000u32 | y, x < 0x8000, y < 0x8000; }
    else { assert(x == y) by (bit_vector) requires 0x2800u32 | x == 0x2800u32 | y, x < 0x100, y < 0x100; }
    assert forall|d: BrailleDot| s1.remove(BrailleDot::Dot0).contains(d) <==> s2.remove(BrailleDot::Dot0).contains(d) by {
        if d != BrailleDot::Dot0 { bits_has(s1, d); bits_has(s2, d); }
    }
    assert(s1.remove(BrailleDot::Dot0) =~= s2.remove(BrailleDot::Dot0));
}
/// dot digits: the cell a piece of text describes
spec fn cell_text(t: Seq<char>) -> bool { t.len() > 0 && forall|i: int| 0 <= i < t.len() ==> (#[trigger] digit(t[i])) is Some }
spec fn dots_in(t: Seq<char>) -> Set<BrailleDot> { t.map(|i: int, c: char| digit(c)->0).to_set() }
@type parser/braille.rs BrailleChar derive=
@type parser/braille.rs BrailleChars derive=
@fn parser/braille.rs BrailleDot::to_hex
@spec
    ensures r == bit(self),
@fn parser/braille.rs TryFrom@BrailleDot::try_from
@sig fn try_from(value: char) -> (r: Result<BrailleDot, ParseError>)
@spec
    ensures digit(value) is Some ==> r == Ok::<BrailleDot, ParseError>(digit(value)->0),
        digit(value) is None ==> r == Err::<BrailleDot, ParseError>(ParseError::InvalidBraille { character: Some(value) }),
@fn parser/braille.rs BrailleChar::has_virtual_dots
@subst let virtual_dots = =>> let virtual_dots : EnumSet<BrailleDot> =
@spec
    ensures r == is_virtual(self.0@),
@before ! virtual_dots
    proof {
        let v = virtual_dots@; assert(v == virtual_list().to_set());
        assert forall|d: BrailleDot| #[trigger] v.contains(d) <==> virt(d) by { match d { BrailleDot::Dot9 => { assert(virtual_list()[0] == d); } BrailleDot::DotA => { assert(virtual_list()[1] == d); } BrailleDot::DotB => { assert(virtual_list()[2] == d); } BrailleDot::DotC => { assert(virtual_list()[3] == d); } BrailleDot::DotD => { assert(virtual_list()[4] == d); } BrailleDot::DotE => { assert(virtual_list()[5] == d); } BrailleDot::DotF => { assert(virtual_list()[6] == d); } _ => { } } };
        if exists|d: BrailleDot| #[trigger] self.0@.contains(d) && virt(d) {
            let d = choose|d: BrailleDot| #[trigger] self.0@.contains(d) && virt(d);
            assert(v.intersect(self.0@).contains(d));
        }
        assert(v.intersect(self.0@) == Set::<BrailleDot>::empty() || exists|d: BrailleDot| v.intersect(self.0@).contains(d)) by {
            if forall|d: BrailleDot| !v.intersect(self.0@).contains(d) { assert(v.intersect(self.0@) =~= Set::<BrailleDot>::empty()); }
        }
    }
@fn parser/braille.rs BrailleChar::to_unicode loops=1 vecsrc=enum_list(&self.0)
@subst self.0.iter() =>> enum_list(&self.0)
@subst char::from_u32(unicode) =>> char_from_u32(unicode)
@spec
    ensures r as u32 == cell(self.0@),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@.to_set() == self.0@, __acc0 == unicode_plane | bits(__s0@.take(__i0 as int).to_set()),
        unicode_plane == (if is_virtual(self.0@) { 0xF0000u32 } else { 0x2800u32 }),
    decreases __s0@.len() - __i0,
@loop 0 pre
    proof { bits_empty(); assert(__s0@.take(0).to_set() =~= Set::<BrailleDot>::empty()); let u = unicode_plane; assert(u | 0 == u) by (bit_vector); }
@loop 0 end
    proof {
        let i = __i0 as int;
        let d = __s0@[i - 1];
        let s = __s0@.take(i - 1).to_set();
        assert(__s0@.take(i) =~= __s0@.take(i - 1).push(d));
        __s0@.take(i - 1).lemma_push_to_set_commute(d);
        bits_insert(s, d);
        let (u, b, k) = (unicode_plane, bits(s), bit(d));
        assert((u | b) | k == u | (b | k)) by (bit_vector);
    }
@loop 0 post
    proof { assert(__s0@.take(__i0 as int) =~= __s0@); }
@before char_from_u32
    proof {
        bits_range(self.0@);
        let b = bits(self.0@);
        assert(0xF0000u32 | b <= 0xF7FFF && 0xF0000u32 | b >= 0xF0000) by (bit_vector) requires b < 0x8000;
        assert(b < 0x100 ==> 0x2800u32 | b < 0xD800) by (bit_vector);
    }
@fn parser/braille.rs FromIterator@BrailleChar::from_iter
@sig fn from_iter(iter: Vec<BrailleDot>) -> (r: BrailleChar)
@spec
    ensures r.0@ == iter@.to_set(),
@fn parser/braille.rs TryFrom@BrailleChar::try_from loops=1 collect0=ResultOf:BrailleChar::from_iter acc0=Vec<BrailleDot>
@sig fn try_from(value: &str) -> (r: Result<BrailleChar, ParseError>)
@subst value.is_empty() =>> str_empty(value)
@spec
    ensures r is Ok <==> cell_text(value@), r is Ok ==> r->Ok_0.0@ == dots_in(value@),
@loop 0
    invariant_except_break __i0 <= __s0@.len(), __e0 is None, __acc0@.len() == __i0,
        forall|j: int| 0 <= j < __i0 ==> (#[trigger] digit(__s0@[j])) is Some && __acc0@[j] == digit(__s0@[j])->0,
    invariant __s0@ == value@, value@.len() > 0,
    ensures __e0 is None ==> cell_text(value@) && __acc0@ == value@.map(|i: int, c: char| digit(c)->0), __e0 is Some ==> !cell_text(value@),
    decreases __s0@.len() - __i0,
@loop 0 post
    proof { }
@fn parser/braille.rs FromIterator@BrailleChars::from_iter
@sig fn from_iter(iter: Vec<BrailleChar>) -> (r: BrailleChars)
@subst iter.into_iter().collect() =>> iter
@spec
    ensures r.0@ == iter@,
@fn parser/braille.rs TryFrom@BrailleChars::try_from loops=1 vecsrc=str_split(value,'-') collect0=ResultOf:BrailleChars::from_iter acc0=Vec<BrailleChar>
@sig fn try_from(value: &str) -> (r: Result<BrailleChars, ParseError>)
@subst value.split('-') =>> str_split(value, '-')
@spec
    ensures
        r is Ok <==> forall|i: int| 0 <= i < pieces(value@, '-').len() ==> cell_text(#[trigger] pieces(value@, '-')[i]),
        r is Ok ==> r->Ok_0.0@.len() == pieces(value@, '-').len() && forall|i: int| 0 <= i < r->Ok_0.0@.len() ==> (#[trigger] r->Ok_0.0@[i]).0@ == dots_in(pieces(value@, '-')[i]),
@loop 0
    invariant_except_break __i0 <= __s0@.len(), __e0 is None, __acc0@.len() == __i0,
        forall|j: int| 0 <= j < __i0 ==> cell_text(#[trigger] pieces(value@, '-')[j]) && __acc0@[j].0@ == dots_in(pieces(value@, '-')[j]),
    invariant __s0@.len() == pieces(value@, '-').len(), forall|i: int| 0 <= i < __s0@.len() ==> (#[trigger] __s0@[i])@ == pieces(value@, '-')[i],
    ensures __e0 is None ==> __acc0@.len() == __s0@.len() && (forall|j: int| 0 <= j < __s0@.len() ==> cell_text(#[trigger] pieces(value@, '-')[j]) && __acc0@[j].0@ == dots_in(pieces(value@, '-')[j])),
        __e0 is Some ==> exists|j: int| 0 <= j < __s0@.len() && !cell_text(#[trigger] pieces(value@, '-')[j]),
    decreases __s0@.len() - __i0,
@fn parser/braille.rs Display@BrailleChars::fmt loops=1 collect0=String name=to_text
@sig fn to_text(&self) -> (r: String)
@subst write!(f, "{}", self.0.iter().map(|b| b.to_unicode()).collect::<String>()) =>> self.0.iter().map(|b| b.to_unicode()).collect::<String>()
@spec
    ensures r@.len() == self.0@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) as u32 == cell(self.0@[i].0@),
@loop 0
    invariant __i0 <= self.0@.len(), __acc0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> (#[trigger] __acc0@[i]) as u32 == cell(self.0@[i].0@),
    decreases self.0@.len() - __i0,
@fn parser/braille.rs is_braille_dot
@spec
    ensures r == (digit(c) is Some),
