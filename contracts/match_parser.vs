@include common.vs
@include pattern_types.vs
@include char_stream.vs
@type parser/match_rule.rs ParseError derive=
@type parser/match_rule.rs PatternParser retype=chars:Peekable<Chars<'a>>=>CharStream<'a>
@raw
// ---- trusted: hash sets of std, derived Hash/Eq ----
#[verifier::external_body]
proof fn attr_keys() ensures vstd::std_specs::hash::obeys_key_model::<Attribute>() { }
#[verifier::external_body]
fn char_text(c: char) -> (r: String) ensures r@ == seq![c] { c.to_string() }
#[verifier::external_body]
fn set_one(a: Attribute) -> (r: HashSet<Attribute>) ensures r@ == Set::<Attribute>::empty().insert(a), r@.contains(a) { HashSet::from([a]) }
#[verifier::external_body]
fn set_none<V>(s: &HashSet<V>) -> (r: bool) ensures r == (s@ == Set::<V>::empty()) { s.is_empty() }
#[verifier::external_body]
fn set_remove(s: &mut HashSet<Attribute>, a: Attribute) -> (r: bool) ensures r == old(s)@.contains(a), final(s)@ == old(s)@.remove(a) { s.remove(&a) }
#[verifier::external_body]
fn str_has(s: &str, c: char) -> (r: bool) ensures r == s@.contains(c) { s.contains(c) }

// ---- how patterns are written ----
spec fn special(c: char) -> bool {
    c == '.' || c == '*' || c == '%' || c == '^' || c == '$' || c == '!' || c == '[' || c == ']' || c == '(' || c == ')' || c == '\\' || c == '?' || c == '+' || c == '|'
}
spec fn quant_char(c: char) -> bool { c == '?' || c == '*' || c == '+' }
spec fn user(a: Attribute, c: char) -> bool { a is Class && a->Class_0 is UserDefined && (a->Class_0->UserDefined_0)@ == seq![c] }
/// the attribute a letter names
spec fn names(c: char, a: Attribute) -> bool {
    match c {
        '_' => a == Attribute::Class(CharacterClass::Space),
        '#' => a == Attribute::Class(CharacterClass::Digit),
        'a' => a == Attribute::Class(CharacterClass::Letter),
        'u' => a == Attribute::Class(CharacterClass::Uppercase),
        'l' => a == Attribute::Class(CharacterClass::Lowercase),
        '.' => a == Attribute::Class(CharacterClass::Punctuation),
        '$' => a == Attribute::Class(CharacterClass::Sign),
        '~' => a == Attribute::Class(CharacterClass::Seqdelimiter),
        '<' => a == Attribute::Class(CharacterClass::Seqbeforechars),
        '>' => a == Attribute::Class(CharacterClass::Seqafterchars),
        '^' => a == Attribute::Boundary,
        _ => '0' <= c <= '7' && user(a, c),
    }
}
spec fn nameable(c: char) -> bool {
    c == '_' || c == '#' || c == 'a' || c == 'u' || c == 'l' || c == '.' || c == '$' || c == '~' || c == '<' || c == '>' || c == '^' || '0' <= c <= '7'
}
/// the attributes a list of letters names
#[verifier::opaque]
spec fn name_set(t: Seq<char>, s: Set<Attribute>) -> bool {
    &&& forall|a: Attribute| #[trigger] s.contains(a) ==> exists|i: int| 0 <= i < t.len() && names(#[trigger] t[i], a)
    &&& forall|i: int| 0 <= i < t.len() ==> exists|a: Attribute| #[trigger] s.contains(a) && names(#[trigger] t[i], a)
}
proof fn name_push(t: Seq<char>, s: Set<Attribute>, c: char, a: Attribute)
    requires name_set(t, s), names(c, a),
    ensures name_set(t.push(c), s.insert(a)),
{ reveal(name_set);
    let (t1, s1) = (t.push(c), s.insert(a));
    assert forall|x: Attribute| #[trigger] s1.contains(x) implies exists|i: int| 0 <= i < t1.len() && names(#[trigger] t1[i], x) by {
        if s.contains(x) { let i = choose|i: int| 0 <= i < t.len() && names(#[trigger] t[i], x); assert(t1[i] == t[i]); }
        else { assert(names(t1[t.len() as int], x)); }
    }
    assert forall|i: int| 0 <= i < t1.len() implies exists|x: Attribute| #[trigger] s1.contains(x) && names(#[trigger] t1[i], x) by {
        if i < t.len() { let x = choose|x: Attribute| #[trigger] s.contains(x) && names(#[trigger] t[i], x); assert(s1.contains(x)); }
        else { assert(s1.contains(a) && names(t1[i], a)); }
    }
}
proof fn name_none(s: Set<Attribute>)
    requires name_set(Seq::<char>::empty(), s),
    ensures s == Set::<Attribute>::empty(),
{ reveal(name_set);
    assert forall|a: Attribute| !(#[trigger] s.contains(a)) by { if s.contains(a) { let i = choose|i: int| 0 <= i < 0 && names(#[trigger] Seq::<char>::empty()[i], a); } }
    assert(s =~= Set::<Attribute>::empty());
}
proof fn name_first()
    ensures name_set(Seq::<char>::empty(), Set::<Attribute>::empty()),
{ reveal(name_set); }
spec fn attr_text(t: Seq<char>, s: Set<Attribute>) -> bool {
    ||| t.len() == 2 && t[0] == '%' && name_set(t.skip(1), s)
    ||| t.len() > 3 && t[0] == '%' && t[1] == '[' && t.last() == ']' && name_set(t.subrange(2, t.len() - 1), s)
}
/// the characters between the brackets of a set; the flag: a backslash is pending
spec fn set_scan(t: Seq<char>) -> Option<(Set<char>, bool)> decreases t.len() {
    if t.len() == 0 { Some((Set::empty(), false)) } else {
        match set_scan(t.drop_last()) {
            None => None,
            Some((s, true)) => if t.last() == ']' || t.last() == '(' || t.last() == ')' { Some((s.insert(t.last()), false)) } else { None },
            Some((s, false)) => if t.last() == ']' { None } else if t.last() == '\\' { Some((s, true)) } else { Some((s.insert(t.last()), false)) },
        }
    }
}
proof fn scan_push(t: Seq<char>, c: char)
    ensures set_scan(t.push(c)) == (match set_scan(t) {
            None => None,
            Some((s, true)) => if c == ']' || c == '(' || c == ')' { Some((s.insert(c), false)) } else { None },
            Some((s, false)) => if c == ']' { None } else if c == '\\' { Some((s, true)) } else { Some((s.insert(c), false)) },
        }),
{ assert(t.push(c).drop_last() =~= t); }
/// a quantifier would have been read with this item
spec fn open(p: Pattern) -> bool decreases p {
    match p {
        Pattern::Optional(_) | Pattern::ZeroOrMore(_) | Pattern::OneOrMore(_) => false,
        Pattern::Negate(q) => open(*q),
        _ => true,
    }
}
spec fn counted(q: Pattern) -> bool {
    match q { Pattern::Negate(x) => !open(*x), Pattern::Optional(_) | Pattern::ZeroOrMore(_) | Pattern::OneOrMore(_) | Pattern::Either(..) | Pattern::Empty => false, _ => true }
}
/// t is a way to write p
spec fn spells(p: Pattern, side: Side, t: Seq<char>) -> bool
    decreases p, 0int
{
    match p {
        Pattern::Empty => t == seq!['-'],
        Pattern::Characters(s) => t == s@ && s@.len() > 0 && forall|i: int| 0 <= i < t.len() ==> !special(#[trigger] t[i]),
        Pattern::Boundary(d) => d == side && (t == seq!['^'] || t == seq!['$'] || attr_text(t, Set::<Attribute>::empty().insert(Attribute::Boundary))),
        Pattern::Any => t == seq!['.'],
        Pattern::Set(set) => t.len() > 2 && t[0] == '[' && t.last() == ']' && set_scan(t.subrange(1, t.len() - 1)) == Some((set@, false)) && set@ != Set::<char>::empty(),
        Pattern::Attributes(attrs) => attr_text(t, attrs@),
        Pattern::AttributesOrBoundary(attrs, d) => d == side && attr_text(t, attrs@.insert(Attribute::Boundary)),
        Pattern::Group(ps) => t.len() > 2 && t[0] == '(' && t.last() == ')' && ps.0.len() > 0 && reads(ps, ps.0.len() as int, side, t.subrange(1, t.len() - 1)),
        Pattern::Negate(q) => t.len() > 1 && t[0] == '!' && !(*q is Negate) && spells(*q, side, t.skip(1)),
        Pattern::Optional(q) => t.len() > 1 && t.last() == '?' && counted(*q) && spells(*q, side, t.drop_last()),
        Pattern::ZeroOrMore(q) => t.len() > 1 && t.last() == '*' && counted(*q) && spells(*q, side, t.drop_last()),
        Pattern::OneOrMore(q) => t.len() > 1 && t.last() == '+' && counted(*q) && spells(*q, side, t.drop_last()),
        Pattern::Either(l, r) => l.0.len() > 0 && r.0.len() > 0 && plain_seq(r) && exists|k: int| 0 < k < t.len() && #[trigger] t[k] == '|'
            && reads(l, l.0.len() as int, side, t.take(k)) && reads(r, r.0.len() as int, side, t.skip(k + 1)),
    }
}
/// no alternatives outside of groups
spec fn plain_seq(ps: Patterns) -> bool { forall|i: int| 0 <= i < ps.0@.len() ==> !(#[trigger] ps.0@[i] is Either) }
/// t is a way to write the first k items, literals as long as possible
spec fn reads(ps: Patterns, k: int, side: Side, t: Seq<char>) -> bool
    decreases ps, k
{
    if k <= 0 || k > ps.0.len() { k == 0 && t.len() == 0 } else {
        exists|j: int| #[trigger] num(j) && 0 <= j < t.len() && reads(ps, k - 1, side, t.take(j)) && spells(ps.0[k - 1], side, t.skip(j))
            && (k >= 2 && ps.0[k - 1] is Characters ==> !(ps.0[k - 2] is Characters))
    }
}
/// what parsing one item has done
spec fn got(p: Pattern, side: Side, o: Seq<char>, n: Seq<char>) -> bool {
    &&& moved(o, n) && n.len() < o.len() && spells(p, side, took(o, n)) && psound(p) && !(p is Either) && !(p is Empty)
    &&& p is Characters && n.len() > 0 ==> special(n[0])
    &&& p is Characters ==> !special(o[0])
}
spec fn got_seq(ps: Patterns, side: Side, o: Seq<char>, n: Seq<char>) -> bool {
    &&& moved(o, n) && reads(ps, ps.0@.len() as int, side, took(o, n)) && forall|i: int| 0 <= i < ps.0@.len() ==> psound(#[trigger] ps.0@[i])
}
spec fn num(x: int) -> bool { true }
spec fn quant_next(n: Seq<char>) -> bool { n.len() > 0 && quant_char(n[0]) }
proof fn reads_ext(p: Patterns, q: Patterns, k: int, side: Side, t: Seq<char>)
    requires reads(p, k, side, t), 0 <= k <= p.0@.len(), k <= q.0@.len(), forall|i: int| 0 <= i < k ==> p.0@[i] == #[trigger] q.0@[i],
    ensures reads(q, k, side, t),
    decreases k
{
    if k > 0 {
        let j = choose|j: int| #[trigger] num(j) && 0 <= j < t.len() && reads(p, k - 1, side, t.take(j)) && spells(p.0[k - 1], side, t.skip(j))
            && (k >= 2 && p.0[k - 1] is Characters ==> !(p.0[k - 2] is Characters));
        reads_ext(p, q, k - 1, side, t.take(j));
        assert(p.0[k - 1] == q.0@[k - 1] && q.0[k - 1] == q.0@[k - 1]);
        if k >= 2 { assert(p.0[k - 2] == q.0@[k - 2] && q.0[k - 2] == q.0@[k - 2]); }
    }
}
fn next_plain(s: &mut CharStream) -> (r: Option<char>)
    ensures old(s)@.len() > 0 && !special(old(s)@[0]) ==> r == Some(old(s)@[0]) && final(s)@ == old(s)@.skip(1),
        !(old(s)@.len() > 0 && !special(old(s)@[0])) ==> r is None && final(s)@ == old(s)@
{ let hit = match s.peek() { Some(c) => !char_is_special(*c), None => false }; if hit { s.next() } else { None } }
/// `next_if` with a test for what a backslash in a set protects
fn next_protected(s: &mut CharStream) -> (r: Option<char>)
    ensures ({ let hit = old(s)@.len() > 0 && (old(s)@[0] == ']' || old(s)@[0] == '(' || old(s)@[0] == ')');
        &&& hit ==> r == Some(old(s)@[0]) && final(s)@ == old(s)@.skip(1)
        &&& !hit ==> r is None && final(s)@ == old(s)@ }),
{ let hit = match s.peek() { Some(c) => *c == ']' || *c == '(' || *c == ')', None => false }; if hit { s.next() } else { None } }
@fn parser/match_rule.rs char_is_special ret=r
@subst ".*%^$![]()\\?*+|" . contains ( c ) =>> str_has ( ".*%^$![]()\\?*+|" , c )
@spec
    ensures r == special(c),
@entry
    proof {
        reveal_strlit(".*%^$![]()\\?*+|");
        let s = ".*%^$![]()\\?*+|"@;
        assert(s[0] == '.' && s[1] == '*' && s[2] == '%' && s[3] == '^' && s[4] == '$' && s[5] == '!' && s[6] == '[' && s[7] == ']' && s[8] == '(' && s[9] == ')' && s[10] == '\\' && s[11] == '?' && s[12] == '*' && s[13] == '+' && s[14] == '|');
        assert(s.len() == 15);
        if s.contains(c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(special(c)); }
    }
@fn parser/match_rule.rs PatternParser::new ret=r
@subst source . chars ( ) . peekable ( ) =>> CharStream :: of ( source )
@spec
    ensures r.chars@ == source@, r.side == side,
@fn parser/match_rule.rs PatternParser::consume ret=r
@spec
    ensures final(self).side == old(self).side,
        old(self).chars@.len() > 0 ==> final(self).chars@ == old(self).chars@.skip(1), old(self).chars@.len() == 0 ==> final(self).chars@ == old(self).chars@,
        r is Ok <==> old(self).chars@.len() > 0 && old(self).chars@[0] == expected,
@fn parser/match_rule.rs PatternParser::attribute ret=r
@subst c . to_string ( ) =>> char_text ( c )
@spec
    ensures final(self).side == old(self).side,
        old(self).chars@.len() > 0 ==> final(self).chars@ == old(self).chars@.skip(1), old(self).chars@.len() == 0 ==> final(self).chars@ == old(self).chars@,
        r is Ok <==> old(self).chars@.len() > 0 && nameable(old(self).chars@[0]),
        r is Ok ==> names(old(self).chars@[0], r->Ok_0) && (r->Ok_0 is Class || r->Ok_0 is Boundary),
@fn parser/match_rule.rs PatternParser::characters ret=r loops=1 exitret
@subst self . chars . next_if ( | & c | ! char_is_special ( c ) ) =>> next_plain ( & mut self . chars )
@spec
    requires old(self).chars@.len() > 0,
    ensures final(self).side == old(self).side,
        r is Ok <==> !special(old(self).chars@[0]),
        r is Ok ==> r->Ok_0 is Characters && got(r->Ok_0, old(self).side, old(self).chars@, final(self).chars@),
@entry
    let ghost o = self.chars@;
    proof { took_none(o); }
@loop 0
    invariant prev == self.chars@, moved(o, prev), took(o, prev) == characters@, self.side == old(self).side,
        forall|i: int| 0 <= i < characters@.len() ==> !special(#[trigger] characters@[i]),
    ensures self.chars@.len() == 0 || special(self.chars@[0]),
    decreases self.chars@.len(),
@loop 0 pre
    let ghost mut prev = self.chars@;
@loop 0 start
    let ghost c0 = characters@;
@loop 0 end
    proof {
        took_one(prev); took_join(o, prev, self.chars@); assert(characters@ =~= took(o, self.chars@));
        prev = self.chars@;
    }
@fn parser/match_rule.rs PatternParser::set ret=r loops=1
@subst while let Some ( & c ) = self . chars . peek ( ) =>> while let Some ( c ) = self . chars . peek_char ( )
@subst self . chars . next_if ( | & c | c == ']' || c == '(' || c == ')' ) =>> next_protected ( & mut self . chars )
@subst characters . is_empty ( ) =>> set_none ( & characters )
@spec
    ensures final(self).side == old(self).side, r is Ok ==> got(r->Ok_0, old(self).side, old(self).chars@, final(self).chars@), r is Ok ==> open(r->Ok_0),
@entry
    let ghost o = self.chars@;
@loop 0 pre
    let ghost o1 = self.chars@;
    proof { took_none(o1); }
@loop 0
    invariant moved(o1, self.chars@), set_scan(took(o1, self.chars@)) == Some((characters@, false)), self.side == old(self).side,
    decreases self.chars@.len(),
@loop 0 start
    let ghost (b, s0) = (self.chars@, characters@);
    let ghost t = took(o1, b);
@loop 0 end
    proof {
        took_next(o1, b); scan_push(t, b[0]);
        if b[0] == '\\' { let b1 = b.skip(1); took_next(o1, b1); scan_push(t.push(b[0]), b1[0]); }
    }
@loop 0 post
    let ghost n1 = self.chars@;
    proof { if n1.len() > 0 { took_inside(o, n1); } }
@before if set_none ( & characters )
    proof {
        if took(o1, n1).len() == 0 { assert(took(o1, n1) =~= Seq::<char>::empty()); }
    }
@fn parser/match_rule.rs PatternParser::attributes ret=r loops=1
@subst HashSet :: from ( [ self . attribute ( ) ? ] ) =>> set_one ( self . attribute ( ) ? )
@subst attrs . is_empty ( ) =>> set_none ( & attrs )
@subst while self . chars . peek ( ) != Some ( & ']' ) =>> while self . chars . peek_char ( ) != Some ( ']' )
@subst self . chars . peek ( ) == Some ( & '[' ) =>> self . chars . peek_char ( ) == Some ( '[' )
@subst attrs . insert ( self . attribute ( ) ? ) ; =>> let a = self . attribute ( ) ? ; attrs . insert ( a ) ;
@subst attrs . remove ( & Attribute :: Boundary ) =>> set_remove ( & mut attrs , Attribute :: Boundary )
@spec
    ensures final(self).side == old(self).side, r is Ok ==> got(r->Ok_0, old(self).side, old(self).chars@, final(self).chars@), r is Ok ==> open(r->Ok_0),
@entry
    let ghost o = self.chars@;
    proof { attr_keys(); }
@loop 0 pre
    let ghost o2 = self.chars@;
    let ghost mut prev = o2;
    proof { took_none(o2); name_first(); }
@loop 0
    invariant prev == self.chars@, moved(o2, prev), name_set(took(o2, prev), attrs@), forall|a: Attribute| #[trigger] attrs@.contains(a) ==> a is Class || a is Boundary, self.side == old(self).side,
        vstd::std_specs::hash::obeys_key_model::<Attribute>(), vstd::std_specs::hash::builds_valid_hashers::<std::hash::RandomState>(),
    decreases self.chars@.len(),
@loop 0 start
    let ghost s0 = attrs@;
@loop 0 end
    proof {
        took_next(o2, prev);
        let t = took(o2, prev);
        name_push(t, s0, prev[0], a);
        prev = self.chars@;
    }
@loop 0 post
    let ghost n1 = self.chars@;
    proof {
        if n1.len() > 0 {
            let t = took(o, n1.skip(1));
            took_one(o); took_inside(o.skip(1), n1); took_join(o, o.skip(1), n1.skip(1));
            assert(t == seq!['%'] + took(o.skip(1), n1.skip(1)));
            assert(t.subrange(2, t.len() - 1) =~= took(o2, n1));
            if took(o2, n1).len() == 0 { assert(took(o2, n1) =~= Seq::<char>::empty()); name_none(attrs@); } else { assert(attr_text(t, attrs@)); }
        }
    }
@before if set_remove
    let ghost all = attrs@;
    let ghost t = took(o, self.chars@);
    proof {
        if o.len() > 1 && o[1] != '[' {
            took_one(o); took_next(o, o.skip(1));
            let a = choose|a: Attribute| all.contains(a);
            assert(all =~= Set::<Attribute>::empty().insert(a)) by { assert(all.contains(a)); }
            name_first(); name_push(Seq::<char>::empty(), Set::<Attribute>::empty(), o[1], a);
            assert(t.skip(1) =~= Seq::<char>::empty().push(o[1]));
        }
        assert(attr_text(t, all));
        assert(all.contains(Attribute::Boundary) ==> all =~= all.remove(Attribute::Boundary).insert(Attribute::Boundary));
        assert(!all.contains(Attribute::Boundary) ==> all =~= all.remove(Attribute::Boundary));
    }
@fn parser/match_rule.rs PatternParser::any ret=r
@spec
    ensures final(self).side == old(self).side, r is Ok ==> got(r->Ok_0, old(self).side, old(self).chars@, final(self).chars@), r is Ok ==> open(r->Ok_0),
@entry
    proof { if self.chars@.len() > 0 { took_one(self.chars@); } }
@fn parser/match_rule.rs PatternParser::start_boundary ret=r
@spec
    ensures final(self).side == old(self).side, r is Ok ==> got(r->Ok_0, old(self).side, old(self).chars@, final(self).chars@), r is Ok ==> open(r->Ok_0),
@entry
    proof { if self.chars@.len() > 0 { took_one(self.chars@); } }
@fn parser/match_rule.rs PatternParser::end_boundary ret=r
@spec
    ensures final(self).side == old(self).side, r is Ok ==> got(r->Ok_0, old(self).side, old(self).chars@, final(self).chars@), r is Ok ==> open(r->Ok_0),
@entry
    proof { if self.chars@.len() > 0 { took_one(self.chars@); } }
@fn parser/match_rule.rs PatternParser::group ret=r
@subst patterns . is_empty ( ) =>> patterns . 0 . is_empty ( )
@spec
    ensures final(self).side == old(self).side, r is Ok ==> got(r->Ok_0, old(self).side, old(self).chars@, final(self).chars@), r is Ok ==> open(r->Ok_0),
    decreases old(self).chars@.len(), 0int
@entry
    let ghost o = self.chars@;
@before self . consume ( ')' )
    let ghost n1 = self.chars@;
    proof { if n1.len() > 0 { took_inside(o, n1); } }
@before if patterns . 0 . is_empty
    proof {
        if patterns.0@.len() > 0 {
            nonempty(patterns, patterns.0@.len() as int, self.side, took(o.skip(1), n1));
            assert(patterns.0.len() == patterns.0@.len());
            assert forall|i: int| 0 <= i < patterns.0.len() implies psound(#[trigger] patterns.0[i]) by { assert(patterns.0[i] == patterns.0@[i]); }
            assert(pssound(patterns));
            assert(spells(Pattern::Group(patterns), self.side, took(o, self.chars@)));
            assert(psound(Pattern::Group(patterns)));
        }
    }
@fn parser/match_rule.rs PatternParser::negate ret=r
@spec
    ensures final(self).side == old(self).side, r is Ok ==> got(r->Ok_0, old(self).side, old(self).chars@, final(self).chars@),
        r is Ok ==> r->Ok_0 is Negate && (open(*(r->Ok_0->Negate_0)) ==> !quant_next(final(self).chars@)),
    decreases old(self).chars@.len(), 0int
@entry
    let ghost o = self.chars@;
@before if matches !
    proof {
        took_one(o); took_join(o, o.skip(1), self.chars@);
        assert(took(o, self.chars@).skip(1) =~= took(o.skip(1), self.chars@));
    }
@fn parser/match_rule.rs PatternParser::inner_pattern ret=r
@spec
    ensures final(self).side == old(self).side, r is Ok ==> got(r->Ok_0, old(self).side, old(self).chars@, final(self).chars@),
        r is Ok ==> (match r->Ok_0 { Pattern::Negate(x) => open(*x) ==> !quant_next(final(self).chars@), p => open(p) }),
    decreases old(self).chars@.len(), 1int
@fn parser/match_rule.rs PatternParser::pattern_with_quantifier ret=r
@subst self . chars . next_if ( | & c | c == '?' ) =>> self . chars . next_is ( '?' )
@subst self . chars . next_if ( | & c | c == '*' ) =>> self . chars . next_is ( '*' )
@subst self . chars . next_if ( | & c | c == '+' ) =>> self . chars . next_is ( '+' )
@spec
    ensures final(self).side == old(self).side, r is Ok ==> got(r->Ok_0, old(self).side, old(self).chars@, final(self).chars@),
        r is Ok && open(r->Ok_0) ==> !quant_next(final(self).chars@),
    decreases old(self).chars@.len(), 2int
@entry
    let ghost o = self.chars@;
@before if self . chars . next_is
    let ghost n1 = self.chars@;
    proof {
        if n1.len() > 0 {
            took_next(o, n1);
            assert(took(o, n1.skip(1)).drop_last() =~= took(o, n1));
        }
    }
@fn parser/match_rule.rs PatternParser::sequence ret=r loops=1
@subst patterns . push ( =>> patterns . 0 . push (
@spec
    ensures final(self).side == old(self).side,
        r is Ok ==> got_seq(r->Ok_0, old(self).side, old(self).chars@, final(self).chars@) && plain_seq(r->Ok_0)
            && (final(self).chars@.len() > 0 ==> final(self).chars@[0] == '|' || final(self).chars@[0] == ')'),
    decreases old(self).chars@.len(), 3int
@entry
    let ghost o = self.chars@;
    proof { took_none(o); }
@loop 0
    invariant self.side == old(self).side, o == old(self).chars@, got_seq(patterns, self.side, o, self.chars@), plain_seq(patterns), self.chars@.len() <= o.len(),
        patterns.0@.len() > 0 && patterns.0@.last() is Characters && self.chars@.len() > 0 ==> special(self.chars@[0]),
    decreases self.chars@.len(),
@loop 0 start
    let ghost (b, p0) = (self.chars@, patterns);
@loop 0 end
    proof {
        let (t0, t1, k) = (took(o, b), took(o, self.chars@), patterns.0@.len() as int);
        took_join(o, b, self.chars@);
        assert(t1.take(t0.len() as int) =~= t0);
        assert(t1.skip(t0.len() as int) =~= took(b, self.chars@));
        reads_ext(p0, patterns, k - 1, self.side, t0);
        assert(num(t0.len() as int));
        assert(patterns.0[k - 1] == patterns.0@[k - 1]);
        if k >= 2 { assert(patterns.0[k - 2] == p0.0@.last()); }
        assert(reads(patterns, k, self.side, t1));
    }
@fn parser/match_rule.rs PatternParser::either ret=r loops=1
@subst self . chars . next_if ( | & c | c == '|' ) =>> self . chars . next_is ( '|' )
@subst self . chars . peek ( ) == Some ( & '|' ) =>> self . chars . peek_char ( ) == Some ( '|' )
@subst right . is_empty ( ) =>> right . 0 . is_empty ( )
@spec
    ensures final(self).side == old(self).side, r is Ok ==> got_seq(r->Ok_0, old(self).side, old(self).chars@, final(self).chars@),
    decreases old(self).chars@.len(), 4int
@entry
    let ghost o = self.chars@;
@loop 0 pre
    let ghost mut prev = self.chars@;
@loop 0
    invariant prev == self.chars@, self.side == old(self).side, o == old(self).chars@, got_seq(left, self.side, o, prev), prev.len() <= o.len(),
        left.0@.len() == 0 ==> prev.len() == 0 || prev[0] != '|',
    decreases self.chars@.len(),
@loop 0 start
    let ghost l0 = left;
    proof { took_next(o, prev); }
@before left =
    let ghost (r0, b, n1) = (right, prev.skip(1), self.chars@);
@loop 0 end
    proof {
        let (t0, t1) = (took(o, prev), took(o, n1));
        took_join(o, b, n1);
        let k = t0.len() as int;
        assert(t1 == t0.push('|') + took(b, n1));
        assert(t1.take(k) =~= t0);
        assert(t1.skip(k + 1) =~= took(b, n1));
        nonempty(l0, l0.0@.len() as int, self.side, t0);
        assert(t1[k] == '|');
        assert(spells(left.0@[0], self.side, t1));
        assert forall|i: int| 0 <= i < l0.0.len() implies psound(#[trigger] l0.0[i]) by { assert(l0.0[i] == l0.0@[i]); }
        assert forall|i: int| 0 <= i < r0.0.len() implies psound(#[trigger] r0.0[i]) by { assert(r0.0[i] == r0.0@[i]); }
        assert(pssound(l0) && pssound(r0));
        assert(psound(left.0@[0]));
        assert(num(0));
        assert(t1.skip(0) =~= t1);
        assert(t1.take(0) =~= Seq::<char>::empty());
        assert(left.0[0] == left.0@[0]);
        assert(reads(left, 0, self.side, t1.take(0)));
        assert(reads(left, 1, self.side, t1));
        prev = self.chars@;
    }
@fn parser/match_rule.rs PatternParser::pattern ret=r
@subst if let Some ( & c ) = self . chars . peek ( ) =>> if let Some ( c ) = self . chars . peek_char ( )
@spec
    ensures final(self).side == old(self).side,
        r is Ok ==> parses(r->Ok_0, old(self).side, old(self).chars@),
        r is Ok && old(self).chars@.len() > 0 ==> pssound(r->Ok_0),
@entry
    let ghost o = self.chars@;
@before return
    proof { assert(o =~= seq!['-']); }
@raw
/// the patterns that `t`, one side of a match rule, stands for
spec fn parses(ps: Patterns, side: Side, t: Seq<char>) -> bool {
    if t == seq!['-'] { ps.0@.len() == 1 && ps.0@[0] is Empty } else { reads(ps, ps.0@.len() as int, side, t) }
}
proof fn nonempty(ps: Patterns, k: int, side: Side, t: Seq<char>)
    requires reads(ps, k, side, t), k > 0,
    ensures t.len() > 0,
{ }
