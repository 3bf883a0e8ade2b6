@include common.vs
@type parser/braille.rs BrailleDot derive=Clone,Copy
@type parser/braille.rs BrailleChar derive= retype=0:EnumSet<BrailleDot>=>EnumSet<BrailleDot>
@type translator.rs TranslationError derive= keep=ImplicitCharacterNotDefined
@type translator.rs CharacterDefinition derive=
@raw
// ---- trusted: `enumset::EnumSet`, seen as a set of values ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct EnumSet<T> { id: usize, p: std::marker::PhantomData<T> }
impl<T> EnumSet<T> { pub uninterp spec fn view(&self) -> Set<T>; }
/// the union of the listed values
#[verifier::external_body]
fn union_of<T>(v: Vec<T>) -> (r: EnumSet<T>) ensures r@ == v@.to_set() { unimplemented!() }
fn enum_set_of<T>(v: Vec<T>) -> (r: EnumSet<T>)
    ensures r@ == v@.to_set(),
        v@.len() == 1 ==> r@ == seq![v@[0]].to_set(),
        v@.len() == 2 ==> r@ == seq![v@[0], v@[1]].to_set(),
        v@.len() == 3 ==> r@ == seq![v@[0], v@[1], v@[2]].to_set(),
        v@.len() == 4 ==> r@ == seq![v@[0], v@[1], v@[2], v@[3]].to_set(),
{
    proof {
        if v@.len() == 1 { assert(v@ =~= seq![v@[0]]); }
        if v@.len() == 2 { assert(v@ =~= seq![v@[0], v@[1]]); }
        if v@.len() == 3 { assert(v@ =~= seq![v@[0], v@[1], v@[2]]); }
        if v@.len() == 4 { assert(v@ =~= seq![v@[0], v@[1], v@[2], v@[3]]); }
    }
    union_of(v)
}
/// the character a cell is written as (contract of module braille)
pub uninterp spec fn cell(s: Set<BrailleDot>) -> char;
impl BrailleChar {
    /// assumed here, proved in module braille
    #[verifier::external_body]
    fn to_unicode(&self) -> (r: char) ensures r == cell(self.0@) { unimplemented!() }
}
/// `HashMap::from` on a list of pairs: the last one of a key counts
spec fn lookup(s: Seq<(char, BrailleChar)>, k: char, n: nat) -> Option<BrailleChar> decreases n {
    if n == 0 { None } else if s[n - 1].0 == k { Some(s[n - 1].1) } else { lookup(s, k, (n - 1) as nat) }
}
#[verifier::external_body]
fn cells_of<const N: usize>(a: [(char, BrailleChar); N]) -> (r: HashMap<char, BrailleChar>)
    ensures forall|k: char| #[trigger] r@.contains_key(k) <==> lookup(a@, k, N as nat) is Some,
        forall|k: char| lookup(a@, k, N as nat) is Some ==> #[trigger] r@[k] == lookup(a@, k, N as nat)->0,
{ unimplemented!() }

// ---- what is written for a character without definition ----
/// North American Braille Computer Code of the characters an escape is made of
spec fn nabcc(c: char) -> Option<Set<BrailleDot>> {
    match c {
        '0' => Some(seq![BrailleDot::Dot3, BrailleDot::Dot5, BrailleDot::Dot6].to_set()),
        '1' => Some(seq![BrailleDot::Dot2].to_set()),
        '2' => Some(seq![BrailleDot::Dot2, BrailleDot::Dot3].to_set()),
        '3' => Some(seq![BrailleDot::Dot2, BrailleDot::Dot5].to_set()),
        '4' => Some(seq![BrailleDot::Dot2, BrailleDot::Dot5, BrailleDot::Dot6].to_set()),
        '5' => Some(seq![BrailleDot::Dot2, BrailleDot::Dot6].to_set()),
        '6' => Some(seq![BrailleDot::Dot2, BrailleDot::Dot3, BrailleDot::Dot5].to_set()),
        '7' => Some(seq![BrailleDot::Dot2, BrailleDot::Dot3, BrailleDot::Dot5, BrailleDot::Dot6].to_set()),
        '8' => Some(seq![BrailleDot::Dot2, BrailleDot::Dot3, BrailleDot::Dot6].to_set()),
        '9' => Some(seq![BrailleDot::Dot3, BrailleDot::Dot5].to_set()),
        'a' => Some(seq![BrailleDot::Dot1].to_set()),
        'b' => Some(seq![BrailleDot::Dot1, BrailleDot::Dot2].to_set()),
        'c' => Some(seq![BrailleDot::Dot1, BrailleDot::Dot4].to_set()),
        'd' => Some(seq![BrailleDot::Dot1, BrailleDot::Dot4, BrailleDot::Dot5].to_set()),
        'e' => Some(seq![BrailleDot::Dot1, BrailleDot::Dot5].to_set()),
        'f' => Some(seq![BrailleDot::Dot1, BrailleDot::Dot2, BrailleDot::Dot4].to_set()),
        '\\' => Some(seq![BrailleDot::Dot1, BrailleDot::Dot2, BrailleDot::Dot5, BrailleDot::Dot6].to_set()),
        'x' => Some(seq![BrailleDot::Dot1, BrailleDot::Dot3, BrailleDot::Dot4, BrailleDot::Dot6].to_set()),
        _ => None,
    }
}
spec fn hexdigit(n: nat) -> char {
    if n == 0 { '0' } else if n == 1 { '1' } else if n == 2 { '2' } else if n == 3 { '3' } else if n == 4 { '4' } else if n == 5 { '5' }
    else if n == 6 { '6' } else if n == 7 { '7' } else if n == 8 { '8' } else if n == 9 { '9' } else if n == 10 { 'a' } else if n == 11 { 'b' }
    else if n == 12 { 'c' } else if n == 13 { 'd' } else if n == 14 { 'e' } else { 'f' }
}
/// hexadecimal digits without leading zeros
spec fn hex(n: nat) -> Seq<char> decreases n { if n < 16 { seq![hexdigit(n)] } else { hex(n / 16).push(hexdigit(n % 16)) } }
/// the escape that stands for a character: backslash, x, its code
spec fn escape(c: char) -> Seq<char> { seq!['\\', 'x'] + hex(c as nat) }
/// one character of an escape: as the table defines it, otherwise in computer braille
spec fn part(d: CharacterDefinition, c: char) -> Seq<char> {
    if d.0@.contains_key(c) { d.0@[c]@ } else { seq![cell(nabcc(c)->0)] }
}
spec fn escaped(d: CharacterDefinition, t: Seq<char>) -> Seq<char> decreases t.len() {
    if t.len() == 0 { seq![] } else { escaped(d, t.drop_last()) + part(d, t.last()) }
}
proof fn hex_chars(n: nat)
    ensures forall|i: int| 0 <= i < hex(n).len() ==> (#[trigger] nabcc(hex(n)[i])) is Some && hex(n)[i] != '\\' && hex(n)[i] != 'x' && hex(n)[i] != '{' && hex(n)[i] != '}' && hex(n)[i] != 'u',
    decreases n,
{ if n >= 16 { hex_chars(n / 16); } }
// ---- trusted: std ----
#[verifier::external_body]
fn str_append(s: &mut String, t: &String) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body]
fn char_text(c: char) -> (r: String) ensures r@ == seq![c] { c.to_string() }
/// `ch.escape_unicode().to_string()`
#[verifier::external_body]
fn escape_text(ch: char) -> (r: String) ensures r@ == seq!['\\', 'u', '{'] + hex(ch as nat) + seq!['}'] { ch.escape_unicode().to_string() }
/// `str::replace`: every occurrence of a non-empty text, from left to right
spec fn replaced(s: Seq<char>, from: Seq<char>, to: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 || from.len() == 0 { s }
    else if s.len() >= from.len() && s.take(from.len() as int) == from { to + replaced(s.skip(from.len() as int), from, to) }
    else { seq![s[0]] + replaced(s.skip(1), from, to) }
}
/// `str::replace` with a set of characters and the empty text
spec fn other(a: char, b: char) -> spec_fn(char) -> bool { |c: char| c != a && c != b }
spec fn without(s: Seq<char>, a: char, b: char) -> Seq<char> { s.filter(other(a, b)) }
trait ReplaceText { fn replace_text(&self, from: &str, to: &str) -> String; fn drop_two(&self, a: char, b: char) -> String; }
impl ReplaceText for String {
    #[verifier::external_body]
    fn replace_text(&self, from: &str, to: &str) -> (r: String) ensures from@.len() > 0 ==> r@ == replaced(self@, from@, to@) { self.replace(from, to) }
    #[verifier::external_body]
    fn drop_two(&self, a: char, b: char) -> (r: String) ensures r@ == without(self@, a, b) { self.replace([a, b], "") }
}
proof fn no_more(s: Seq<char>, to: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != '\\',
    ensures replaced(s, seq!['\\', 'u'], to) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        let f = seq!['\\', 'u'];
        if s.len() >= 2 { assert(s.take(2)[0] == s[0]); assert(f[0] == '\\'); assert(s.take(f.len() as int) != f); }
        no_more(s.skip(1), to);
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}
proof fn nothing_dropped(s: Seq<char>, a: char, b: char)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != a && s[i] != b,
    ensures without(s, a, b) == s,
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 { nothing_dropped(s.drop_last(), a, b); assert(s.drop_last().push(s.last()) =~= s); }
}
/// the chain of replacements makes the escape
proof fn th_escape(ch: char)
    ensures without(replaced(seq!['\\', 'u', '{'] + hex(ch as nat) + seq!['}'], seq!['\\', 'u'], seq!['\\', 'x']), '{', '}') == escape(ch),
{
    let h = hex(ch as nat);
    let s = seq!['\\', 'u', '{'] + h + seq!['}'];
    let (f, t) = (seq!['\\', 'u'], seq!['\\', 'x']);
    hex_chars(ch as nat);
    assert(s.take(2) =~= f);
    let rest = s.skip(2);
    assert(rest =~= seq!['{'] + h + seq!['}']);
    assert forall|i: int| 0 <= i < rest.len() implies rest[i] != '\\' by {
        if 0 < i < rest.len() - 1 { assert(rest[i] == h[i - 1]); assert(nabcc(h[i - 1]) is Some); }
    }
    no_more(rest, t);
    let u = t + rest;
    assert(replaced(s, f, t) == u);
    // dropping the braces
    let p = other('{', '}');
    reveal(Seq::filter);
    assert(u.drop_last() =~= t + seq!['{'] + h);
    assert(u.last() == '}');
    assert(!p(u.last()));
    assert(without(u, '{', '}') == without(t + seq!['{'] + h, '{', '}'));
    assert forall|i: int| 0 <= i < h.len() implies h[i] != '{' && h[i] != '}' by { assert(nabcc(h[i]) is Some); }
    nothing_dropped(h, '{', '}');
    Seq::filter_distributes_over_add(t + seq!['{'], h, p);
    assert((t + seq!['{'] + h).filter(p) == (t + seq!['{']).filter(p) + h.filter(p));
    assert((t + seq!['{']).drop_last() =~= t);
    nothing_dropped(t, '{', '}');
    assert((t + seq!['{']).last() == '{' && !p('{'));
    assert((t + seq!['{']).filter(p) =~= t);
}
@fn parser/braille.rs fallback
@subst HashMap::from =>> cells_of
@spec
    requires nabcc(ch) is Some,
    ensures r == cell(nabcc(ch)->0),
@before let dots =
    proof { reveal_with_fuel(lookup, 20); }
@fn translator.rs CharacterDefinition::get
@spec
    ensures r is Some <==> self.0@.contains_key(*from), r is Some ==> *r->0 == self.0@[*from],
@raw
pub struct PrimaryTable { fallback_definitions: CharacterDefinition }
@fn translator/table/primary.rs PrimaryTable::handle_undefined_char loops=1 collect0=Strings
@subst fallback(c).to_string() =>> char_text(fallback(c))
@subst ch.escape_unicode().to_string() =>> escape_text(ch)
@subst .replace(r"\u", r"\x") =>> .replace_text(r"\u", r"\x")
@subst .replace(['{', '}'], "") =>> .drop_two('{', '}')
@spec
    ensures r@ == escaped(self.fallback_definitions, escape(ch)),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == escape(ch), __acc0@ == escaped(self.fallback_definitions, __s0@.take(__i0 as int)),
    decreases __s0@.len() - __i0,
@loop 0 start
    proof {
        hex_chars(ch as nat);
        assert(nabcc(__s0@[__i0 as int]) is Some) by { if __i0 >= 2 { assert(escape(ch)[__i0 as int] == hex(ch as nat)[__i0 - 2]); } }
        assert(__s0@.take(__i0 + 1).drop_last() =~= __s0@.take(__i0 as int));
    }
@loop 0 post
    proof { assert(__s0@.take(__i0 as int) =~= __s0@); }
@entry
    proof { th_escape(ch); reveal_strlit(r"\u"); reveal_strlit(r"\x"); assert(r"\u"@ =~= seq!['\\', 'u']); assert(r"\x"@ =~= seq!['\\', 'x']); }
@raw
// ---- no two characters share their escape ----
proof fn digits_differ(a: nat, b: nat)
    requires a < 16, b < 16, a != b,
    ensures hexdigit(a) != hexdigit(b),
{ }
proof fn hex_injective(a: nat, b: nat)
    requires hex(a) == hex(b),
    ensures a == b,
    decreases a + b,
{
    hex_long(a); hex_long(b);
    if a < 16 && b < 16 {
        assert(hex(a)[0] == hexdigit(a) && hex(b)[0] == hexdigit(b));
        if a != b { digits_differ(a, b); }
    } else {
        assert(hex(a).len() == hex(b).len());
        assert(hex(a).last() == hexdigit(a % 16) && hex(b).last() == hexdigit(b % 16));
        assert(hex(a).drop_last() =~= hex(a / 16));
        assert(hex(b).drop_last() =~= hex(b / 16));
        if a % 16 != b % 16 { digits_differ(a % 16, b % 16); }
        hex_injective(a / 16, b / 16);
    }
}
proof fn hex_long(a: nat)
    ensures hex(a).len() >= 1, (hex(a).len() == 1) == (a < 16),
    decreases a,
{ if a >= 16 { hex_long(a / 16); } }
/// the cells of different characters differ
proof fn nabcc_injective(a: char, b: char)
    requires nabcc(a) is Some, nabcc(b) is Some, nabcc(a) == nabcc(b),
    ensures a == b,
{
    let s = nabcc(a)->0;
    members(a); members(b);
    assert(dots(a) == dots(b));
}
/// the dots of a character, one by one
spec fn dots(c: char) -> (bool, bool, bool, bool, bool, bool) {
    let s = nabcc(c)->0;
    (s.contains(BrailleDot::Dot1), s.contains(BrailleDot::Dot2), s.contains(BrailleDot::Dot3), s.contains(BrailleDot::Dot4), s.contains(BrailleDot::Dot5), s.contains(BrailleDot::Dot6))
}
spec fn table_dots(c: char) -> (bool, bool, bool, bool, bool, bool) {
    match c {
        '0' => (false, false, true, false, true, true),
        '1' => (false, true, false, false, false, false),
        '2' => (false, true, true, false, false, false),
        '3' => (false, true, false, false, true, false),
        '4' => (false, true, false, false, true, true),
        '5' => (false, true, false, false, false, true),
        '6' => (false, true, true, false, true, false),
        '7' => (false, true, true, false, true, true),
        '8' => (false, true, true, false, false, true),
        '9' => (false, false, true, false, true, false),
        'a' => (true, false, false, false, false, false),
        'b' => (true, true, false, false, false, false),
        'c' => (true, false, false, true, false, false),
        'd' => (true, false, false, true, true, false),
        'e' => (true, false, false, false, true, false),
        'f' => (true, true, false, true, false, false),
        '\\' => (true, true, false, false, true, true),
        'x' => (true, false, true, true, false, true),
        _ => (true, true, true, true, true, true),
    }
}
proof fn one(s: Seq<BrailleDot>, d: BrailleDot)
    ensures s.to_set().contains(d) <==> s.contains(d)
{ s.to_set_ensures(); }
proof fn members(c: char)
    requires nabcc(c) is Some,
    ensures dots(c) == table_dots(c),
{
    let l = list(c);
    assert(nabcc(c)->0 == l.to_set());
    one(l, BrailleDot::Dot1); one(l, BrailleDot::Dot2); one(l, BrailleDot::Dot3); one(l, BrailleDot::Dot4); one(l, BrailleDot::Dot5); one(l, BrailleDot::Dot6);
    in_list(c);
}
spec fn list(c: char) -> Seq<BrailleDot> {
    match c {
        '0' => seq![BrailleDot::Dot3, BrailleDot::Dot5, BrailleDot::Dot6],
        '1' => seq![BrailleDot::Dot2],
        '2' => seq![BrailleDot::Dot2, BrailleDot::Dot3],
        '3' => seq![BrailleDot::Dot2, BrailleDot::Dot5],
        '4' => seq![BrailleDot::Dot2, BrailleDot::Dot5, BrailleDot::Dot6],
        '5' => seq![BrailleDot::Dot2, BrailleDot::Dot6],
        '6' => seq![BrailleDot::Dot2, BrailleDot::Dot3, BrailleDot::Dot5],
        '7' => seq![BrailleDot::Dot2, BrailleDot::Dot3, BrailleDot::Dot5, BrailleDot::Dot6],
        '8' => seq![BrailleDot::Dot2, BrailleDot::Dot3, BrailleDot::Dot6],
        '9' => seq![BrailleDot::Dot3, BrailleDot::Dot5],
        'a' => seq![BrailleDot::Dot1],
        'b' => seq![BrailleDot::Dot1, BrailleDot::Dot2],
        'c' => seq![BrailleDot::Dot1, BrailleDot::Dot4],
        'd' => seq![BrailleDot::Dot1, BrailleDot::Dot4, BrailleDot::Dot5],
        'e' => seq![BrailleDot::Dot1, BrailleDot::Dot5],
        'f' => seq![BrailleDot::Dot1, BrailleDot::Dot2, BrailleDot::Dot4],
        '\\' => seq![BrailleDot::Dot1, BrailleDot::Dot2, BrailleDot::Dot5, BrailleDot::Dot6],
        'x' => seq![BrailleDot::Dot1, BrailleDot::Dot3, BrailleDot::Dot4, BrailleDot::Dot6],
        _ => seq![],
    }
}
proof fn in_list(c: char)
    requires nabcc(c) is Some,
    ensures (list(c).contains(BrailleDot::Dot1), list(c).contains(BrailleDot::Dot2), list(c).contains(BrailleDot::Dot3), list(c).contains(BrailleDot::Dot4), list(c).contains(BrailleDot::Dot5), list(c).contains(BrailleDot::Dot6)) == table_dots(c),
{
    let l = list(c);
    if l.len() > 0 { assert(l.contains(l[0])); }
    if l.len() > 1 { assert(l.contains(l[1])); }
    if l.len() > 2 { assert(l.contains(l[2])); }
    if l.len() > 3 { assert(l.contains(l[3])); }
}
/// the escape of a character without any definition to help, as cells
proof fn plain_escape(d: CharacterDefinition, t: Seq<char>)
    requires d.0@.dom() == Set::<char>::empty(),
    ensures escaped(d, t).len() == t.len(), forall|i: int| 0 <= i < t.len() ==> #[trigger] escaped(d, t)[i] == cell(nabcc(t[i])->0),
    decreases t.len(),
{
    if t.len() > 0 {
        plain_escape(d, t.drop_last());
        assert(!d.0@.dom().contains(t.last()));
        assert forall|i: int| 0 <= i < t.len() implies #[trigger] escaped(d, t)[i] == cell(nabcc(t[i])->0) by {
            if i < t.len() - 1 { assert(escaped(d, t)[i] == escaped(d, t.drop_last())[i]); assert(t.drop_last()[i] == t[i]); }
        }
    }
}
/// in a table that defines no characters at all, two different undefined characters are rendered differently
/// (that different dots give different cells is th_cell_injective in module braille)
proof fn th_escapes_differ(d: CharacterDefinition, a: char, b: char)
    requires d.0@.dom() == Set::<char>::empty(), a != b, forall|s: Set<BrailleDot>, t: Set<BrailleDot>| cell(s) == cell(t) ==> s == t,
    ensures escaped(d, escape(a)) != escaped(d, escape(b)),
{
    let (s, t) = (escape(a), escape(b));
    plain_escape(d, s); plain_escape(d, t);
    if escaped(d, s) == escaped(d, t) {
        assert(s.len() == t.len());
        hex_chars(a as nat); hex_chars(b as nat);
        assert forall|i: int| 0 <= i < hex(a as nat).len() implies #[trigger] hex(a as nat)[i] == hex(b as nat)[i] by {
            assert(s[i + 2] == hex(a as nat)[i] && t[i + 2] == hex(b as nat)[i]);
            assert(escaped(d, s)[i + 2] == escaped(d, t)[i + 2]);
            assert(nabcc(hex(a as nat)[i]) is Some && nabcc(hex(b as nat)[i]) is Some);
            nabcc_injective(s[i + 2], t[i + 2]);
        }
        assert(hex(a as nat) =~= hex(b as nat));
        hex_injective(a as nat, b as nat);
    }
}
