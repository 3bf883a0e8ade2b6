@raw
/// stands for `Peekable<Chars>`: the characters still to come
#[verifier::external_body]
struct CharStream<'a> { c: std::iter::Peekable<std::str::Chars<'a>> }
impl<'a> View for CharStream<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> CharStream<'a> {
    #[verifier::external_body]
    fn of(s: &'a str) -> (r: CharStream<'a>) ensures r@ == s@ { CharStream { c: s.chars().peekable() } }
    #[verifier::external_body]
    fn peek(&self) -> (r: Option<&char>) ensures r is None <==> self@.len() == 0, r is Some ==> *(r->0) == self@[0] { unimplemented!() }
    /// `peek` with a pattern that copies the character
    fn peek_char(&self) -> (r: Option<char>) ensures r == (if self@.len() == 0 { None } else { Some(self@[0]) })
    { match self.peek() { Some(c) => Some(*c), None => None } }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<char>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1)
    { self.c.next() }
    #[verifier::external_body]
    fn clone(&self) -> (r: CharStream<'a>) ensures r@ == self@ { CharStream { c: self.c.clone() } }
    /// `next_if` with a comparison
    fn next_is(&mut self, x: char) -> (r: Option<char>)
        ensures old(self)@.len() > 0 && old(self)@[0] == x ==> r == Some(x) && final(self)@ == old(self)@.skip(1),
            !(old(self)@.len() > 0 && old(self)@[0] == x) ==> r is None && final(self)@ == old(self)@
    { let hit = match self.peek() { Some(c) => *c == x, None => false }; if hit { self.next() } else { None } }
}
/// what was read between two states
spec fn took(o: Seq<char>, n: Seq<char>) -> Seq<char> { o.take(o.len() - n.len()) }
spec fn moved(o: Seq<char>, n: Seq<char>) -> bool { n.len() <= o.len() && o == took(o, n) + n }
proof fn took_join(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires moved(a, b), moved(b, c),
    ensures moved(a, c), took(a, c) == took(a, b) + took(b, c),
{
    assert(took(a, c) =~= took(a, b) + took(b, c)) by { assert(a == took(a, b) + (took(b, c) + c)); }
    assert(a =~= took(a, c) + c);
}
proof fn took_one(a: Seq<char>)
    requires a.len() > 0,
    ensures moved(a, a.skip(1)), took(a, a.skip(1)) == seq![a[0]],
{ assert(took(a, a.skip(1)) =~= seq![a[0]]); assert(a =~= seq![a[0]] + a.skip(1)); }
proof fn took_none(a: Seq<char>)
    ensures moved(a, a), took(a, a) == Seq::<char>::empty(),
{ assert(took(a, a) =~= Seq::<char>::empty()); assert(a =~= took(a, a) + a); }
/// between brackets
proof fn took_inside(a: Seq<char>, b: Seq<char>)
    requires a.len() > 0, moved(a.skip(1), b), b.len() > 0,
    ensures moved(a, b.skip(1)), took(a, b.skip(1)).len() == took(a.skip(1), b).len() + 2, took(a, b.skip(1))[0] == a[0], took(a, b.skip(1)).last() == b[0],
        took(a, b.skip(1)).subrange(1, took(a, b.skip(1)).len() - 1) == took(a.skip(1), b),
{
    took_one(a); took_one(b); took_join(a.skip(1), b, b.skip(1)); took_join(a, a.skip(1), b.skip(1));
    assert(took(a, b.skip(1)) == seq![a[0]] + (took(a.skip(1), b) + seq![b[0]]));
    assert(took(a, b.skip(1)).subrange(1, took(a, b.skip(1)).len() - 1) =~= took(a.skip(1), b));
}
/// one character further
proof fn took_next(o: Seq<char>, b: Seq<char>)
    requires moved(o, b), b.len() > 0,
    ensures moved(o, b.skip(1)), took(o, b.skip(1)) == took(o, b).push(b[0]),
{ took_one(b); took_join(o, b, b.skip(1)); assert(took(o, b.skip(1)) =~= took(o, b).push(b[0])); }
