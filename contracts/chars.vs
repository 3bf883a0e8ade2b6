@raw
/// `std::str::Chars`, seen as the characters still to come
#[verifier::external_body]
struct CharIter { id: usize }
impl CharIter {
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    fn as_str(&self) -> (r: &str) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<char>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { unimplemented!() }
    #[verifier::external_body]
    fn nth(&mut self, n: usize) -> (r: Option<char>)
        ensures
            n < old(self)@.len() ==> r == Some(old(self)@[n as int]) && final(self)@ == old(self)@.skip(n + 1),
            n >= old(self)@.len() ==> r is None && final(self)@.len() == 0,
    { unimplemented!() }
}
#[verifier::external_body]
fn chars_of(s: &str) -> (r: CharIter) ensures r@ == s@, s@.len() <= isize::MAX { unimplemented!() }
