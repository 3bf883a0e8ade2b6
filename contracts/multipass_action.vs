@include common.vs
@include char_stream.vs
@include multipass_scan.vs
@type parser/multipass/action.rs ActionInstruction derive=
@type parser/multipass/action.rs Action derive=
@type parser/multipass/action.rs Parser retype=chars:Peekable<Chars<'a>>=>CharStream<'a>
@raw
// ---- how actions are written ----
spec fn starts(c: char) -> bool { c == '@' || c == '"' || c == '%' || c == '#' || c == '*' || c == '?' }
spec fn more(o: Seq<char>) -> bool { o.len() > 0 && starts(o[0]) }
/// what follows the action at the start of o; None: that is no action
spec fn after(o: Seq<char>) -> Option<Seq<char>> {
    if o.len() == 0 { None } else {
        let r = o.skip(1);
        match o[0] {
            '@' => if run(r, 2) > 0 && cells_of(r.take(run(r, 2))) is Some { Some(r.skip(run(r, 2))) } else { None },
            '"' => match text(r) { Some((_, q)) => Some(q), None => None },
            '%' => if run(r, 1) == 0 { None } else { Some(r.skip(run(r, 1))) },
            '#' => match number(r) {
                Some((_, q)) => if q.len() == 0 { None } else if q[0] == '+' || q[0] == '-' { Some(q.skip(1)) }
                    else if q[0] == '=' { match number(q.skip(1)) { Some((_, n)) => Some(n), None => None } } else { None },
                None => None,
            },
            '*' | '?' => Some(r),
            _ => None,
        }
    }
}
/// what follows the actions at the start of o
spec fn end(o: Seq<char>) -> Option<Seq<char>>
    decreases o.len()
{
    if more(o) { match after(o) { Some(r) => if r.len() < o.len() { end(r) } else { None }, None => None } } else { Some(o) }
}
/// what follows the first k actions
spec fn nth(o: Seq<char>, k: int) -> Seq<char> decreases k { if k <= 0 { o } else { after(nth(o, k - 1))->0 } }
/// p is the action at the start of o
spec fn means(p: ActionInstruction, o: Seq<char>) -> bool {
    let r = o.skip(1);
    &&& o.len() > 0
    &&& match p {
        ActionInstruction::String { s } => o[0] == '"' && s@ == (text(r)->0).0,
        ActionInstruction::Dots { dots } => o[0] == '@' && Some(dots) == cells_of(r.take(run(r, 2))),
        ActionInstruction::SwapClass { name } => o[0] == '%' && name@ == r.take(run(r, 1)),
        ActionInstruction::Assignment { variable, value } => o[0] == '#' && variable == (number(r)->0).0 && ({ let q = (number(r)->0).1; q.len() > 0 && q[0] == '=' && value == (number(q.skip(1))->0).0 }),
        ActionInstruction::Increment { variable } => o[0] == '#' && variable == (number(r)->0).0 && ({ let q = (number(r)->0).1; q.len() > 0 && q[0] == '+' }),
        ActionInstruction::Decrement { variable } => o[0] == '#' && variable == (number(r)->0).0 && ({ let q = (number(r)->0).1; q.len() > 0 && q[0] == '-' }),
        ActionInstruction::Replace => o[0] == '*',
        ActionInstruction::Ignore => o[0] == '?',
    }
}
spec fn all_mean(ts: Seq<ActionInstruction>, o: Seq<char>) -> bool { forall|i: int| 0 <= i < ts.len() ==> means(#[trigger] ts[i], nth(o, i)) }
/// reading the action at the start of o, with that result
spec fn reads(r: Result<ActionInstruction, ParseError>, o: Seq<char>, n: Seq<char>) -> bool {
    &&& r is Ok <==> after(o) is Some
    &&& r is Ok ==> means(r->Ok_0, o) && n == after(o)->0 && n.len() < o.len()
}
proof fn number_shrinks(o: Seq<char>)
    ensures number(o) is Some ==> (number(o)->0).1.len() < o.len(),
{ run_is(o, 0); }
@fn parser/multipass/action.rs is_action ret=r
@spec
    ensures r == starts(*c),
@fn parser/braille.rs is_braille_dot ret=r
@spec
    ensures r == dot(c),
@fn parser/multipass/action.rs Parser::new ret=r
@subst source . chars ( ) . peekable ( ) =>> CharStream :: of ( source )
@spec
    ensures r.chars@ == source@,
@fn parser/multipass/action.rs Parser::consume ret=r
@spec
    ensures old(self).chars@.len() > 0 ==> final(self).chars@ == old(self).chars@.skip(1), old(self).chars@.len() == 0 ==> final(self).chars@ == old(self).chars@,
        r is Ok <==> old(self).chars@.len() > 0 && old(self).chars@[0] == expected,
@fn parser/multipass/action.rs Parser::dots ret=r loops=1 optmap
@spec
    ensures reads(r, old(self).chars@, final(self).chars@) || !(old(self).chars@.len() > 0 && old(self).chars@[0] == '@'),
        !(old(self).chars@.len() > 0 && old(self).chars@[0] == '@') ==> r is Err,
@entry
    let ghost o = self.chars@;
    proof { if o.len() > 0 { reading_none(o.skip(1), 2); } }
@loop 0
    invariant o.len() > 0, o[0] == '@', reading(o.skip(1), self.chars@, dots@, 2),
    ensures self.chars@.len() > 0 ==> !of_kind(2, self.chars@[0]),
    decreases self.chars@.len(),
@loop 0 start
    proof { reading_next(o.skip(1), self.chars@, dots@, 2); }
@loop 0 post
    proof { reading_end(o.skip(1), self.chars@, dots@, 2); run_is(o.skip(1), 2); }
@fn parser/multipass/action.rs Parser::handle_escape_sequence ret=r
@spec
    ensures r is Ok <==> c != '\\' || escaped(old(self).chars@) is Some,
        r is Ok ==> (r->Ok_0, final(self).chars@) == (if c != '\\' { (c, old(self).chars@) } else { escaped(old(self).chars@)->0 }),
@fn parser/multipass/action.rs Parser::unescape_unicode ret=r loops=1 ranges
@subst u32 :: from_str_radix ( & s , 16 ) . ok ( ) . and_then ( char :: from_u32 ) =>> ( match u32_radix16 ( & s ) { Some ( x ) => char_from_u32 ( x ) , None => None } )
@spec
    requires len <= 5,
    ensures r is Ok <==> hexchar(old(self).chars@, len as int) is Some,
        r is Ok ==> Some((r->Ok_0, final(self).chars@)) == hexchar(old(self).chars@, len as int),
@entry
    let ghost o = self.chars@;
@loop 0
    invariant o == old(self).chars@, __i0 <= __s0, __s0 == len, s@.len() == __i0, s@.len() <= o.len(), s@ == o.take(s@.len() as int), self.chars@ == o.skip(s@.len() as int),
    decreases __s0 - __i0,
@loop 0 pre
    proof { assert(o.take(0) =~= s@); assert(o.skip(0) =~= o); }
@loop 0 start
    let ghost (s1, n1) = (s@, self.chars@);
@loop 0 end
    proof { assert(s1.push(n1[0]) =~= o.take(s1.len() as int + 1)); assert(n1.skip(1) =~= o.skip(s1.len() as int + 1)); }
@fn parser/multipass/action.rs Parser::string ret=r loops=1 optmap
@spec
    ensures reads(r, old(self).chars@, final(self).chars@) || !(old(self).chars@.len() > 0 && old(self).chars@[0] == '"'),
        !(old(self).chars@.len() > 0 && old(self).chars@[0] == '"') ==> r is Err,
@entry
    let ghost o = self.chars@;
@loop 0
    invariant o == old(self).chars@, o.len() > 0, o[0] == '"', after_text(s@, text(self.chars@)) == text(o.skip(1)),
    ensures self.chars@.len() > 0 ==> self.chars@[0] == '"',
    decreases self.chars@.len(),
@loop 0 pre
    proof { let t = text(o.skip(1)); if t is Some { assert(Seq::<char>::empty() + (t->0).0 =~= (t->0).0); } }
@loop 0 start
    proof { text_step(s@, self.chars@); }
@loop 0 post
    proof { text_shrinks(o.skip(1)); if self.chars@.len() > 0 { assert(s@ + Seq::<char>::empty() =~= s@); } }
@fn parser/multipass/action.rs Parser::replace ret=r
@spec
    ensures reads(r, old(self).chars@, final(self).chars@) || !(old(self).chars@.len() > 0 && old(self).chars@[0] == '*'),
        !(old(self).chars@.len() > 0 && old(self).chars@[0] == '*') ==> r is Err,
@fn parser/multipass/action.rs Parser::ignore ret=r
@spec
    ensures reads(r, old(self).chars@, final(self).chars@) || !(old(self).chars@.len() > 0 && old(self).chars@[0] == '?'),
        !(old(self).chars@.len() > 0 && old(self).chars@[0] == '?') ==> r is Err,
@fn parser/multipass/action.rs Parser::ascii_number ret=r loops=1 optmap
@subst c . is_ascii_digit ( ) =>> ascii_digit ( c )
@subst s . parse :: < u8 > ( ) =>> parse_u8 ( & s )
@spec
    ensures r is Ok <==> number(old(self).chars@) is Some,
        r is Ok ==> Some((r->Ok_0, final(self).chars@)) == number(old(self).chars@),
        final(self).chars@.len() <= old(self).chars@.len(),
@entry
    let ghost o = self.chars@;
    proof { reading_none(o, 0); }
@loop 0
    invariant reading(o, self.chars@, s@, 0),
    ensures self.chars@.len() > 0 ==> !of_kind(0, self.chars@[0]),
    decreases self.chars@.len(),
@loop 0 start
    proof { reading_next(o, self.chars@, s@, 0); }
@loop 0 post
    proof { reading_end(o, self.chars@, s@, 0); number_shrinks(o); run_is(o, 0); }
@fn parser/multipass/action.rs Parser::variable ret=r resmap
@spec
    ensures reads(r, old(self).chars@, final(self).chars@) || !(old(self).chars@.len() > 0 && old(self).chars@[0] == '#'),
        !(old(self).chars@.len() > 0 && old(self).chars@[0] == '#') ==> r is Err,
@entry
    proof { if self.chars@.len() > 0 { number_shrinks(self.chars@.skip(1)); if number(self.chars@.skip(1)) is Some { number_shrinks((number(self.chars@.skip(1))->0).1.skip(1)); }; } }
@fn parser/multipass/action.rs Parser::class ret=r loops=1 optmap
@subst c . is_ascii_alphabetic ( ) =>> ascii_alphabetic ( c )
@spec
    ensures reads(r, old(self).chars@, final(self).chars@) || !(old(self).chars@.len() > 0 && old(self).chars@[0] == '%'),
        !(old(self).chars@.len() > 0 && old(self).chars@[0] == '%') ==> r is Err,
@entry
    let ghost o = self.chars@;
    proof { if o.len() > 0 { reading_none(o.skip(1), 1); } }
@loop 0
    invariant o.len() > 0, o[0] == '%', reading(o.skip(1), self.chars@, name@, 1),
    ensures self.chars@.len() > 0 ==> !of_kind(1, self.chars@[0]),
    decreases self.chars@.len(),
@loop 0 start
    proof { reading_next(o.skip(1), self.chars@, name@, 1); }
@loop 0 post
    proof { reading_end(o.skip(1), self.chars@, name@, 1); run_is(o.skip(1), 1); }
@fn parser/multipass/action.rs Parser::action ret=r
@spec
    ensures reads(r, old(self).chars@, final(self).chars@),
@fn parser/multipass/action.rs Parser::many_actions ret=r loops=1 optmap
@subst actions . push ( self . action ( ) ? ) ; =>> let t = self . action ( ) ? ; actions . push ( t ) ;
@spec
    ensures r is Ok <==> ({ let o = old(self).chars@; more(o) && end(o) is Some && (end(o)->0).len() == 0 }),
        r is Ok ==> ({ let ts = (r->Ok_0)@; ts.len() > 0 && all_mean(ts, old(self).chars@) && nth(old(self).chars@, ts.len() as int).len() == 0 }),
@entry
    let ghost o = self.chars@;
@loop 0
    invariant o == old(self).chars@, self.chars@.len() <= o.len(), end(self.chars@) == end(o), self.chars@ == nth(o, actions@.len() as int), all_mean(actions@, o), actions@.len() > 0 ==> more(o), actions@.len() == 0 ==> self.chars@ == o,
    ensures !more(self.chars@),
    decreases self.chars@.len(),
@fn parser/multipass/action.rs Parser::actions ret=r
@spec
    ensures r is Ok <==> ({ let o = old(self).chars@; more(o) && end(o) is Some && (end(o)->0).len() == 0 }),
        r is Ok ==> ({ let ts = (r->Ok_0).actions@; ts.len() > 0 && all_mean(ts, old(self).chars@) && nth(old(self).chars@, ts.len() as int).len() == 0 }),
