@include common.vs
@type parser.rs Constraint attr=derive(PartialEq,Eq,Structural,Clone,Copy)
@type parser.rs Direction attr=derive(PartialEq,Eq,Structural,Clone,Copy)
@raw
// ---- trusted: `enumset::EnumSet`, seen as a set of values ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct EnumSet<T> { id: usize, p: std::marker::PhantomData<T> }
impl<T> EnumSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    fn contains(&self, v: T) -> (r: bool) ensures r == self@.contains(v) { unimplemented!() }
    #[verifier::external_body]
    fn is_subset(&self, o: EnumSet<T>) -> (r: bool) ensures r == self@.subset_of(o@) { unimplemented!() }
    #[verifier::external_body]
    fn difference(&self, o: EnumSet<T>) -> (r: EnumSet<T>) ensures r@ == self@.difference(o@) { unimplemented!() }
    #[verifier::external_body]
    fn empty() -> (r: EnumSet<T>) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, v: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(v), r == !old(self)@.contains(v) { unimplemented!() }
}
impl<T: Copy> Clone for EnumSet<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl<T: Copy> Copy for EnumSet<T> { }
/// `enum_set!(a | b | ..)`
#[verifier::external_body]
fn enum_set_of<T>(v: Vec<T>) -> (r: EnumSet<T>) ensures r@ == v@.to_set() { unimplemented!() }
@type parser.rs Constraints derive=Clone,Copy
@type parser.rs Rule derive= keepfields=constraints
@raw
/// the opcodes that take nofor and noback
spec fn limits(r: Rule) -> Option<Set<Constraint>> {
    match r {
        Rule::Display { constraints } => Some(constraints.0@),
        Rule::Multind { constraints } => Some(constraints.0@),
        Rule::Space { constraints } => Some(constraints.0@),
        Rule::Punctuation { constraints } => Some(constraints.0@),
        Rule::Digit { constraints } => Some(constraints.0@),
        Rule::Letter { constraints } => Some(constraints.0@),
        Rule::Lowercase { constraints } => Some(constraints.0@),
        Rule::Uppercase { constraints } => Some(constraints.0@),
        Rule::Litdigit { constraints } => Some(constraints.0@),
        Rule::Sign { constraints } => Some(constraints.0@),
        Rule::Math { constraints } => Some(constraints.0@),
        Rule::Modeletter { constraints } => Some(constraints.0@),
        Rule::Capsletter { constraints } => Some(constraints.0@),
        Rule::Begmodeword { constraints } => Some(constraints.0@),
        Rule::Begcapsword { constraints } => Some(constraints.0@),
        Rule::Endcapsword { constraints } => Some(constraints.0@),
        Rule::Begemph { constraints } => Some(constraints.0@),
        Rule::Endemph { constraints } => Some(constraints.0@),
        Rule::Begcomp { constraints } => Some(constraints.0@),
        Rule::Endcomp { constraints } => Some(constraints.0@),
        Rule::Hyphen { constraints } => Some(constraints.0@),
        Rule::Compbrl { constraints } => Some(constraints.0@),
        Rule::Always { constraints } => Some(constraints.0@),
        Rule::Repeated { constraints } => Some(constraints.0@),
        Rule::Word { constraints } => Some(constraints.0@),
        Rule::Lowword { constraints } => Some(constraints.0@),
        Rule::Sufword { constraints } => Some(constraints.0@),
        Rule::Prfword { constraints } => Some(constraints.0@),
        Rule::Begword { constraints } => Some(constraints.0@),
        Rule::Begmidword { constraints } => Some(constraints.0@),
        Rule::Midword { constraints } => Some(constraints.0@),
        Rule::Midendword { constraints } => Some(constraints.0@),
        Rule::Endword { constraints } => Some(constraints.0@),
        Rule::Partword { constraints } => Some(constraints.0@),
        Rule::Prepunc { constraints } => Some(constraints.0@),
        Rule::Postpunc { constraints } => Some(constraints.0@),
        Rule::Begnum { constraints } => Some(constraints.0@),
        Rule::Midnum { constraints } => Some(constraints.0@),
        Rule::Endnum { constraints } => Some(constraints.0@),
        Rule::Joinnum { constraints } => Some(constraints.0@),
        Rule::Context { constraints } => Some(constraints.0@),
        Rule::Pass2 { constraints } => Some(constraints.0@),
        Rule::Pass3 { constraints } => Some(constraints.0@),
        Rule::Pass4 { constraints } => Some(constraints.0@),
        Rule::Correct { constraints } => Some(constraints.0@),
        Rule::Match { constraints } => Some(constraints.0@),
        Rule::Nocontractsign { constraints } => Some(constraints.0@),
        Rule::Nonumsign { constraints } => Some(constraints.0@),
        _ => None,
    }
}
/// the opcodes that take nocross
spec fn crossing(r: Rule) -> Option<Set<Constraint>> {
    match r {
        Rule::Always { constraints } => Some(constraints.0@),
        Rule::Word { constraints } => Some(constraints.0@),
        Rule::Lowword { constraints } => Some(constraints.0@),
        Rule::Sufword { constraints } => Some(constraints.0@),
        Rule::Prfword { constraints } => Some(constraints.0@),
        Rule::Begword { constraints } => Some(constraints.0@),
        Rule::Begmidword { constraints } => Some(constraints.0@),
        Rule::Midword { constraints } => Some(constraints.0@),
        Rule::Midendword { constraints } => Some(constraints.0@),
        Rule::Endword { constraints } => Some(constraints.0@),
        Rule::Partword { constraints } => Some(constraints.0@),
        Rule::Prepunc { constraints } => Some(constraints.0@),
        Rule::Postpunc { constraints } => Some(constraints.0@),
        Rule::Begnum { constraints } => Some(constraints.0@),
        Rule::Midnum { constraints } => Some(constraints.0@),
        Rule::Endnum { constraints } => Some(constraints.0@),
        Rule::Joinnum { constraints } => Some(constraints.0@),
        _ => None,
    }
}
/// nofor rules are for backward translation only, noback rules for forward translation only, all others for both
spec fn serves(r: Rule, d: Direction) -> bool {
    match limits(r) {
        None => true,
        Some(c) => match d {
            Direction::Forward => !c.contains(Constraint::Nofor),
            Direction::Backward => c.contains(Constraint::Nofor) || !c.contains(Constraint::Noback),
        },
    }
}
/// what the restrictions at the start of a rule say
spec fn prefix(t: Seq<Seq<char>>) -> (Set<Constraint>, int) {
    let a = if t.len() > 0 && t[0] == "nofor"@ { (Set::<Constraint>::empty().insert(Constraint::Nofor), 1int) }
        else if t.len() > 0 && t[0] == "noback"@ { (Set::<Constraint>::empty().insert(Constraint::Noback), 1) } else { (Set::<Constraint>::empty(), 0) };
    if t.len() > a.1 && t[a.1] == "nocross"@ { (a.0.insert(Constraint::Nocross), a.1 + 1) } else { a }
}
/// the words of a line
#[verifier::external_body]
struct Tokens<'a> { t: std::iter::Peekable<std::str::SplitAsciiWhitespace<'a>> }
impl<'a> View for Tokens<'a> { type V = Seq<Seq<char>>; uninterp spec fn view(&self) -> Seq<Seq<char>>; }
impl<'a> Tokens<'a> {
    #[verifier::external_body]
    fn next_if_eq(&mut self, x: &&str) -> (r: Option<&'a str>)
        ensures
            old(self)@.len() > 0 && old(self)@[0] == x@ ==> r is Some && r->0@ == x@ && final(self)@ == old(self)@.skip(1),
            !(old(self)@.len() > 0 && old(self)@[0] == x@) ==> r is None && final(self)@ == old(self)@,
    { self.t.next_if_eq(x) }
}
@type parser.rs RuleParser retype=tokens:Peekable<SplitAsciiWhitespace<'a>>=>Tokens<'a>
@fn parser.rs Constraints::contains
@spec
    ensures r == self.0@.contains(value),
@fn parser.rs Constraints::empty
@spec
    ensures r.0@ == Set::<Constraint>::empty(),
@fn parser.rs Constraints::insert
@spec
    ensures final(self).0@ == old(self).0@.insert(value),
@fn parser.rs Constraints::is_subset
@spec
    ensures r == self.0@.subset_of(other.0@),
@fn parser.rs Constraints::difference
@spec
    ensures r.0@ == self.0@.difference(other.0@),
@fn parser.rs HasDirection@Rule::directions
@spec
    ensures forall|d: Direction| r@.contains(d) <==> serves(*self, d),
@entry
    proof {
        assert(seq![Direction::Backward].to_set() =~= Set::<Direction>::empty().insert(Direction::Backward)) by { assert(seq![Direction::Backward][0] == Direction::Backward); }
        assert(seq![Direction::Forward].to_set() =~= Set::<Direction>::empty().insert(Direction::Forward)) by { assert(seq![Direction::Forward][0] == Direction::Forward); }
        let b = seq![Direction::Forward, Direction::Backward];
        assert(b.to_set() =~= Set::<Direction>::empty().insert(Direction::Forward).insert(Direction::Backward)) by { assert(b[0] == Direction::Forward && b[1] == Direction::Backward); }
    }
@fn parser.rs trait@HasDirection::is_direction on=Rule
@spec
    ensures r == serves(*self, direction),
@fn parser.rs HasNocross@Rule::constraints
@subst constraint_set!() =>> Constraints::empty()
@spec
    ensures r.0@ == (match crossing(*self) { Some(c) => c, None => Set::<Constraint>::empty() }),
@fn parser.rs trait@HasNocross::is_nocross on=Rule
@spec
    ensures r == (crossing(*self) is Some && crossing(*self)->0.contains(Constraint::Nocross)),
@fn parser.rs RuleParser::nofor
@spec
    ensures r == (old(self).tokens@.len() > 0 && old(self).tokens@[0] == "nofor"@), final(self).tokens@ == (if r { old(self).tokens@.skip(1) } else { old(self).tokens@ }),
@fn parser.rs RuleParser::noback
@spec
    ensures r == (old(self).tokens@.len() > 0 && old(self).tokens@[0] == "noback"@), final(self).tokens@ == (if r { old(self).tokens@.skip(1) } else { old(self).tokens@ }),
@fn parser.rs RuleParser::nocross
@spec
    ensures r == (old(self).tokens@.len() > 0 && old(self).tokens@[0] == "nocross"@), final(self).tokens@ == (if r { old(self).tokens@.skip(1) } else { old(self).tokens@ }),
@fn parser.rs RuleParser::constraints
@spec
    ensures r.0@ == prefix(old(self).tokens@).0, final(self).tokens@ == old(self).tokens@.skip(prefix(old(self).tokens@).1),
@entry
    proof {
        let t = self.tokens@;
        assert(t.skip(0) =~= t);
        if t.len() >= 2 { assert(t.skip(1).skip(1) =~= t.skip(2)); }
    }
@type parser.rs Opcode attr=derive(Clone,Copy) derive= keep=Always
@type parser.rs ParseError derive= keep=InvalidConstraints
@fn parser.rs fail_if_invalid_constraints
@spec
    ensures r is Ok <==> actual.0@.subset_of(expected.0@),
