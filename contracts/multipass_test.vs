@include common.vs
@include char_stream.vs
@include multipass_scan.vs
@type parser/character_class.rs CharacterClass derive=PartialEq,Eq,Hash
@type parser/attribute.rs Attribute derive=PartialEq,Eq,Hash
@type parser/multipass/test.rs Operator derive=
@type parser/multipass/test.rs Quantifier derive=
@type parser/multipass/test.rs TestInstruction derive=
@type parser/multipass/test.rs Test derive=
@type parser/multipass/test.rs Parser retype=chars:Peekable<Chars<'a>>=>CharStream<'a>
@raw
// ---- trusted: hash sets of std, derived Hash/Eq ----
#[verifier::external_body]
proof fn attr_keys() ensures vstd::std_specs::hash::obeys_key_model::<Attribute>() { }
#[verifier::external_body]
fn set_none<V>(s: &HashSet<V>) -> (r: bool) ensures r == (s@ == Set::<V>::empty()) { s.is_empty() }

// ---- how tests are written ----
spec fn attr_of(c: char) -> Attribute {
    match c {
        'd' => Attribute::Class(CharacterClass::Digit),
        'D' => Attribute::Class(CharacterClass::Litdigit),
        'l' => Attribute::Class(CharacterClass::Letter),
        'm' => Attribute::Class(CharacterClass::Math),
        'p' => Attribute::Class(CharacterClass::Punctuation),
        'S' => Attribute::Class(CharacterClass::Sign),
        's' => Attribute::Class(CharacterClass::Space),
        'U' => Attribute::Class(CharacterClass::Uppercase),
        'u' => Attribute::Class(CharacterClass::Lowercase),
        'w' => Attribute::ByOrder(1),
        'x' => Attribute::ByOrder(2),
        'y' => Attribute::ByOrder(3),
        'z' => Attribute::ByOrder(4),
        _ => Attribute::Any,
    }
}
spec fn attr_set(t: Seq<char>) -> Set<Attribute> decreases t.len() { if t.len() == 0 { Set::empty() } else { attr_set(t.drop_last()).insert(attr_of(t.last())) } }
/// how often: `.` once or more, `n` n times, `n-m` n to m times; and what follows
spec fn quantity(o: Seq<char>) -> Option<(Option<Quantifier>, Seq<char>)> {
    if o.len() > 0 && o[0] == '.' { Some((Some(Quantifier::OneOrMore), o.skip(1))) }
    else if o.len() > 0 && digit(o[0]) {
        match number(o) {
            None => None,
            Some((a, r)) => if r.len() > 0 && r[0] == '-' {
                match number(r.skip(1)) { Some((b, q)) => if a < b { Some((Some(Quantifier::Range(a, b)), q)) } else { None }, None => None }
            } else { Some((Some(Quantifier::Number(a)), r)) },
        }
    } else { Some((None, o)) }
}
spec fn comparison(o: Seq<char>) -> Option<(Operator, Seq<char>)> {
    if o.len() == 0 { None } else if o[0] == '=' { Some((Operator::Eq, o.skip(1))) }
    else if o.len() == 1 { None }
    else if o[0] == '<' { if o[1] == '=' { Some((Operator::LtEq, o.skip(2))) } else { Some((Operator::Lt, o.skip(1))) } }
    else if o[0] == '>' { if o[1] == '=' { Some((Operator::GtEq, o.skip(2))) } else { Some((Operator::Gt, o.skip(1))) } }
    else { None }
}
spec fn variable(o: Seq<char>) -> Option<(u8, Operator, u8, Seq<char>)> {
    match number(o) { None => None, Some((v, q)) => match comparison(q) { None => None, Some((op, p)) => match number(p) { None => None, Some((x, n)) => Some((v, op, x, n)) } } }
}
spec fn class_digit(o: Seq<char>) -> bool { o.len() > 0 && '1' <= o[0] <= '7' }
spec fn starts(c: char) -> bool { c == '_' || c == '%' || c == '@' || c == '"' || c == '$' || c == '[' || c == '#' || c == '!' || c == '`' || c == '~' }
spec fn more(o: Seq<char>) -> bool { o.len() > 0 && starts(o[0]) }
/// what follows the test at the start of o; None: that is no test
spec fn after(o: Seq<char>) -> Option<Seq<char>>
    decreases o.len(), 0int
{
    if o.len() == 0 { None } else {
        let r = o.skip(1);
        match o[0] {
            '_' => if r.len() > 0 && digit(r[0]) { match number(r) { Some((_, q)) => Some(q), None => None } } else { Some(r) },
            '%' => if class_digit(r) { Some(r.skip(1)) } else if run(r, 1) == 0 { None } else { match quantity(r.skip(run(r, 1))) { Some((_, q)) => Some(q), None => None } },
            '@' => if run(r, 2) > 0 && cells_of(r.take(run(r, 2))) is Some { Some(r.skip(run(r, 2))) } else { None },
            '"' => match text(r) { Some((_, q)) => Some(q), None => None },
            '$' => if run(r, 3) == 0 { None } else { match quantity(r.skip(run(r, 3))) { Some((_, q)) => Some(q), None => None } },
            '[' => match end(r) { Some(q) => if q.len() > 0 && q[0] == ']' { Some(q.skip(1)) } else { None }, None => None },
            '#' => match variable(r) { Some((_, _, _, q)) => Some(q), None => None },
            '!' => if r.len() > 0 && (r[0] == '!' || r[0] == '[') { None } else { after(r) },
            '`' | '~' => Some(r),
            _ => None,
        }
    }
}
/// what follows the tests at the start of o
spec fn end(o: Seq<char>) -> Option<Seq<char>>
    decreases o.len(), 1int
{
    if more(o) { match after(o) { Some(r) => if r.len() < o.len() { end(r) } else { None }, None => None } } else { Some(o) }
}
/// what follows the first k tests
spec fn nth(o: Seq<char>, k: int) -> Seq<char> decreases k { if k <= 0 { o } else { after(nth(o, k - 1))->0 } }
/// p is the test at the start of o
spec fn means(p: TestInstruction, o: Seq<char>) -> bool
    decreases p
{
    let r = o.skip(1);
    &&& o.len() > 0
    &&& match p {
        TestInstruction::Lookback { len } => o[0] == '_' && len == (if r.len() > 0 && digit(r[0]) { (number(r)->0).0 } else { 1 }),
        TestInstruction::Class { name, quantifier } => o[0] == '%' && (if class_digit(r) { name@ == r.take(1) && quantifier is None }
            else { name@ == r.take(run(r, 1)) && quantifier == (quantity(r.skip(run(r, 1)))->0).0 }),
        TestInstruction::Dots { dots } => o[0] == '@' && Some(dots) == cells_of(r.take(run(r, 2))),
        TestInstruction::String { s } => o[0] == '"' && s@ == (text(r)->0).0,
        TestInstruction::Attributes { attrs, quantifier } => o[0] == '$' && attrs@ == attr_set(r.take(run(r, 3))) && quantifier == (quantity(r.skip(run(r, 3)))->0).0,
        TestInstruction::Replace { tests } => o[0] == '[' && forall|i: int| 0 <= i < tests.len() ==> means(#[trigger] tests[i], nth(r, i)),
        TestInstruction::Variable { var, op, operand } => o[0] == '#' && var == (variable(r)->0).0 && op == (variable(r)->0).1 && operand == (variable(r)->0).2,
        TestInstruction::Negate { test } => o[0] == '!' && means(*test, r),
        TestInstruction::AtBeginning => o[0] == '`',
        TestInstruction::AtEnd => o[0] == '~',
    }
}
/// the tests at the start of o, all of them
spec fn all_mean(ts: Seq<TestInstruction>, o: Seq<char>) -> bool { forall|i: int| 0 <= i < ts.len() ==> means(#[trigger] ts[i], nth(o, i)) }
/// reading the test at the start of o, with that result
spec fn reads(r: Result<TestInstruction, ParseError>, o: Seq<char>, n: Seq<char>) -> bool {
    &&& r is Ok <==> after(o) is Some
    &&& r is Ok ==> means(r->Ok_0, o) && n == after(o)->0 && n.len() < o.len()
}
proof fn number_shrinks(o: Seq<char>)
    ensures number(o) is Some ==> (number(o)->0).1.len() < o.len(),
{ run_is(o, 0); }
proof fn quantity_fits(o: Seq<char>)
    ensures quantity(o) is Some ==> (quantity(o)->0).1.len() <= o.len(),
{ number_shrinks(o); if number(o) is Some { number_shrinks((number(o)->0).1.skip(1)); } }
proof fn variable_shrinks(o: Seq<char>)
    ensures variable(o) is Some ==> (variable(o)->0).3.len() < o.len(),
{ number_shrinks(o); if number(o) is Some { let q = (number(o)->0).1; if comparison(q) is Some { number_shrinks((comparison(q)->0).1); } } }
@fn parser/multipass/test.rs is_attribute ret=r
@spec
    ensures r == attr_char(*c),
@fn parser/multipass/test.rs is_test ret=r
@spec
    ensures r == starts(*c),
@fn parser/multipass/test.rs is_class_digit ret=r
@spec
    ensures r == ('1' <= *c <= '7'),
@fn parser/braille.rs is_braille_dot ret=r
@spec
    ensures r == dot(c),
@fn parser/multipass/test.rs Parser::new ret=r
@subst source . chars ( ) . peekable ( ) =>> CharStream :: of ( source )
@spec
    ensures r.chars@ == source@,
@fn parser/multipass/test.rs Parser::ascii_number ret=r loops=1 optmap
@subst c . is_ascii_digit ( ) =>> ascii_digit ( c )
@subst s . parse :: < u8 > ( ) =>> parse_u8 ( & s )
@spec
    ensures r is Ok <==> number(old(self).chars@) is Some,
        r is Ok ==> Some((r->Ok_0, final(self).chars@)) == number(old(self).chars@),
        final(self).chars@.len() <= old(self).chars@.len(),
@entry
    let ghost o = self.chars@;
    proof { reading_none(o, 0); }
@loop 0
    invariant reading(o, self.chars@, s@, 0),
    ensures self.chars@.len() > 0 ==> !of_kind(0, self.chars@[0]),
    decreases self.chars@.len(),
@loop 0 start
    proof { reading_next(o, self.chars@, s@, 0); }
@loop 0 post
    proof { reading_end(o, self.chars@, s@, 0); number_shrinks(o); run_is(o, 0); }
@fn parser/multipass/test.rs Parser::consume ret=r
@spec
    ensures old(self).chars@.len() > 0 ==> final(self).chars@ == old(self).chars@.skip(1), old(self).chars@.len() == 0 ==> final(self).chars@ == old(self).chars@,
        r is Ok <==> old(self).chars@.len() > 0 && old(self).chars@[0] == expected,
@fn parser/multipass/test.rs Parser::maybe_quantifier ret=r nestarms
@subst c . is_ascii_digit ( ) =>> ascii_digit ( c )
@subst self . chars . next_if_eq ( & '-' ) =>> self . chars . next_is ( '-' )
@spec
    ensures r is Ok <==> quantity(old(self).chars@) is Some,
        r is Ok ==> Some((r->Ok_0, final(self).chars@)) == quantity(old(self).chars@),
@fn parser/multipass/test.rs Parser::class ret=r loops=1 optmap
@subst c . is_ascii_alphabetic ( ) =>> ascii_alphabetic ( c )
@spec
    ensures reads(r, old(self).chars@, final(self).chars@) || !(old(self).chars@.len() > 0 && old(self).chars@[0] == '%'),
        !(old(self).chars@.len() > 0 && old(self).chars@[0] == '%') ==> r is Err,
@entry
    let ghost o = self.chars@;
    proof { if o.len() > 0 { reading_none(o.skip(1), 1); if o.len() > 1 { assert(o.skip(1).take(1) =~= Seq::<char>::empty().push(o[1])); } } }
@loop 0
    invariant o.len() > 0, o[0] == '%', reading(o.skip(1), self.chars@, name@, 1),
    ensures self.chars@.len() > 0 ==> !of_kind(1, self.chars@[0]),
    decreases self.chars@.len(),
@loop 0 start
    proof { reading_next(o.skip(1), self.chars@, name@, 1); }
@loop 0 post
    proof { reading_end(o.skip(1), self.chars@, name@, 1); run_is(o.skip(1), 1); quantity_fits(self.chars@); }
@fn parser/multipass/test.rs Parser::dots ret=r loops=1 optmap
@spec
    ensures reads(r, old(self).chars@, final(self).chars@) || !(old(self).chars@.len() > 0 && old(self).chars@[0] == '@'),
        !(old(self).chars@.len() > 0 && old(self).chars@[0] == '@') ==> r is Err,
@entry
    let ghost o = self.chars@;
    proof { if o.len() > 0 { reading_none(o.skip(1), 2); } }
@loop 0
    invariant o.len() > 0, o[0] == '@', reading(o.skip(1), self.chars@, dots@, 2),
    ensures self.chars@.len() > 0 ==> !of_kind(2, self.chars@[0]),
    decreases self.chars@.len(),
@loop 0 start
    proof { reading_next(o.skip(1), self.chars@, dots@, 2); }
@loop 0 post
    proof { reading_end(o.skip(1), self.chars@, dots@, 2); run_is(o.skip(1), 2); }
@fn parser/multipass/test.rs Parser::handle_escape_sequence ret=r
@spec
    ensures r is Ok <==> c != '\\' || escaped(old(self).chars@) is Some,
        r is Ok ==> (r->Ok_0, final(self).chars@) == (if c != '\\' { (c, old(self).chars@) } else { escaped(old(self).chars@)->0 }),
@fn parser/multipass/test.rs Parser::unescape_unicode ret=r loops=1 ranges
@subst u32 :: from_str_radix ( & s , 16 ) . ok ( ) . and_then ( char :: from_u32 ) =>> ( match u32_radix16 ( & s ) { Some ( x ) => char_from_u32 ( x ) , None => None } )
@spec
    requires len <= 5,
    ensures r is Ok <==> hexchar(old(self).chars@, len as int) is Some,
        r is Ok ==> Some((r->Ok_0, final(self).chars@)) == hexchar(old(self).chars@, len as int),
@entry
    let ghost o = self.chars@;
@loop 0
    invariant o == old(self).chars@, __i0 <= __s0, __s0 == len, s@.len() == __i0, s@.len() <= o.len(), s@ == o.take(s@.len() as int), self.chars@ == o.skip(s@.len() as int),
    decreases __s0 - __i0,
@loop 0 pre
    proof { assert(o.take(0) =~= s@); assert(o.skip(0) =~= o); }
@loop 0 start
    let ghost (s1, n1) = (s@, self.chars@);
@loop 0 end
    proof { assert(s1.push(n1[0]) =~= o.take(s1.len() as int + 1)); assert(n1.skip(1) =~= o.skip(s1.len() as int + 1)); }
@fn parser/multipass/test.rs Parser::string ret=r loops=1 optmap
@spec
    ensures reads(r, old(self).chars@, final(self).chars@) || !(old(self).chars@.len() > 0 && old(self).chars@[0] == '"'),
        !(old(self).chars@.len() > 0 && old(self).chars@[0] == '"') ==> r is Err,
@entry
    let ghost o = self.chars@;
@loop 0
    invariant o == old(self).chars@, o.len() > 0, o[0] == '"', after_text(s@, text(self.chars@)) == text(o.skip(1)),
    ensures self.chars@.len() > 0 ==> self.chars@[0] == '"',
    decreases self.chars@.len(),
@loop 0 pre
    proof { let t = text(o.skip(1)); if t is Some { assert(Seq::<char>::empty() + (t->0).0 =~= (t->0).0); } }
@loop 0 start
    proof { text_step(s@, self.chars@); }
@loop 0 post
    proof { text_shrinks(o.skip(1)); if self.chars@.len() > 0 { assert(s@ + Seq::<char>::empty() =~= s@); } }
@fn parser/multipass/test.rs Parser::lookback ret=r nestarms
@subst c . is_ascii_digit ( ) =>> ascii_digit ( c )
@spec
    ensures reads(r, old(self).chars@, final(self).chars@) || !(old(self).chars@.len() > 0 && old(self).chars@[0] == '_'),
        !(old(self).chars@.len() > 0 && old(self).chars@[0] == '_') ==> r is Err,
@entry
    proof { if self.chars@.len() > 0 { number_shrinks(self.chars@.skip(1)); } }
@fn parser/multipass/test.rs Parser::attribute ret=r
@spec
    ensures old(self).chars@.len() > 0 ==> final(self).chars@ == old(self).chars@.skip(1),
        r is Ok <==> old(self).chars@.len() > 0 && attr_char(old(self).chars@[0]),
        r is Ok ==> r->Ok_0 == attr_of(old(self).chars@[0]),
@fn parser/multipass/test.rs Parser::attributes ret=r loops=1 optmap
@subst attrs . is_empty ( ) =>> set_none ( & attrs )
@subst attrs . insert ( self . attribute ( ) ? ) ; =>> let a = self . attribute ( ) ? ; attrs . insert ( a ) ;
@spec
    ensures reads(r, old(self).chars@, final(self).chars@) || !(old(self).chars@.len() > 0 && old(self).chars@[0] == '$'),
        !(old(self).chars@.len() > 0 && old(self).chars@[0] == '$') ==> r is Err,
@entry
    let ghost o = self.chars@;
    let ghost mut t = Seq::<char>::empty();
    proof { attr_keys(); if o.len() > 0 { reading_none(o.skip(1), 3); } }
@loop 0
    invariant o.len() > 0, o[0] == '$', reading(o.skip(1), self.chars@, t, 3), attrs@ == attr_set(t),
        vstd::std_specs::hash::obeys_key_model::<Attribute>(), vstd::std_specs::hash::builds_valid_hashers::<std::hash::RandomState>(),
    ensures self.chars@.len() > 0 ==> !of_kind(3, self.chars@[0]),
    decreases self.chars@.len(),
@loop 0 start
    proof {
        reading_next(o.skip(1), self.chars@, t, 3);
        let t0 = t;
        t = t.push(self.chars@[0]);
        assert(t.drop_last() =~= t0);
    }
@loop 0 post
    proof {
        reading_end(o.skip(1), self.chars@, t, 3); run_is(o.skip(1), 3); quantity_fits(self.chars@);
        if t.len() > 0 { assert(attrs@.contains(attr_of(t.last()))); }
    }
@fn parser/multipass/test.rs Parser::replacement ret=r
@spec
    ensures reads(r, old(self).chars@, final(self).chars@) || !(old(self).chars@.len() > 0 && old(self).chars@[0] == '['),
        !(old(self).chars@.len() > 0 && old(self).chars@[0] == '[') ==> r is Err,
    decreases old(self).chars@.len(), 0int
@fn parser/multipass/test.rs Parser::operator ret=r
@spec
    ensures r is Ok <==> comparison(old(self).chars@) is Some,
        r is Ok ==> Some((r->Ok_0, final(self).chars@)) == comparison(old(self).chars@),
@fn parser/multipass/test.rs Parser::variable ret=r resmap
@spec
    ensures reads(r, old(self).chars@, final(self).chars@) || !(old(self).chars@.len() > 0 && old(self).chars@[0] == '#'),
        !(old(self).chars@.len() > 0 && old(self).chars@[0] == '#') ==> r is Err,
@entry
    proof { if self.chars@.len() > 0 { variable_shrinks(self.chars@.skip(1)); } }
@fn parser/multipass/test.rs Parser::negate ret=r
@spec
    ensures reads(r, old(self).chars@, final(self).chars@) || !(old(self).chars@.len() > 0 && old(self).chars@[0] == '!'),
        !(old(self).chars@.len() > 0 && old(self).chars@[0] == '!') ==> r is Err,
    decreases old(self).chars@.len(), 0int
@fn parser/multipass/test.rs Parser::at_beginning ret=r
@spec
    ensures reads(r, old(self).chars@, final(self).chars@) || !(old(self).chars@.len() > 0 && old(self).chars@[0] == '`'),
        !(old(self).chars@.len() > 0 && old(self).chars@[0] == '`') ==> r is Err,
@fn parser/multipass/test.rs Parser::at_end ret=r
@spec
    ensures reads(r, old(self).chars@, final(self).chars@) || !(old(self).chars@.len() > 0 && old(self).chars@[0] == '~'),
        !(old(self).chars@.len() > 0 && old(self).chars@[0] == '~') ==> r is Err,
@fn parser/multipass/test.rs Parser::test ret=r
@spec
    ensures reads(r, old(self).chars@, final(self).chars@),
    decreases old(self).chars@.len(), 1int
@fn parser/multipass/test.rs Parser::many_tests ret=r loops=1 optmap
@subst tests . push ( self . test ( ) ? ) ; =>> let t = self . test ( ) ? ; tests . push ( t ) ;
@spec
    ensures r is Ok <==> end(old(self).chars@) is Some,
        r is Ok ==> all_mean((r->Ok_0)@, old(self).chars@) && final(self).chars@ == end(old(self).chars@)->0 && final(self).chars@ == nth(old(self).chars@, (r->Ok_0)@.len() as int)
            && !more(final(self).chars@) && final(self).chars@.len() <= old(self).chars@.len(),
        r is Ok ==> ((r->Ok_0)@.len() == 0 <==> !more(old(self).chars@)),
    decreases old(self).chars@.len(), 2int
@entry
    let ghost o = self.chars@;
@loop 0
    invariant o == old(self).chars@, self.chars@.len() <= o.len(), end(self.chars@) == end(o), self.chars@ == nth(o, tests@.len() as int), all_mean(tests@, o), tests@.len() > 0 ==> more(o),
    ensures !more(self.chars@),
    decreases self.chars@.len(),
@fn parser/multipass/test.rs Parser::tests ret=r
@spec
    ensures r is Ok <==> ({ let o = old(self).chars@; more(o) && end(o) is Some && (end(o)->0).len() == 0 }),
        r is Ok ==> ({ let ts = (r->Ok_0).tests@; ts.len() > 0 && all_mean(ts, old(self).chars@) && nth(old(self).chars@, ts.len() as int).len() == 0 }),
