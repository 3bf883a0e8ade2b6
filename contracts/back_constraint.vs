@include constraint_types.vs
@raw
/// `chars[pos..].starts_with(pattern)`
#[verifier::external_body]
fn slice_starts_with(chars: &[char], pos: usize, pattern: &Vec<char>) -> (r: bool)
    requires pos <= chars@.len(),
    ensures r == at(chars@, pos as int, pattern@),
{ chars[pos..].starts_with(pattern) }
spec fn at(s: Seq<char>, i: int, p: Seq<char>) -> bool { i + p.len() <= s.len() && s.subrange(i, i + p.len()) =~= p }
fn dots_len(s: &String) -> (r: usize) ensures r == s@.len() { str_chars(s).len() }
spec fn marks(d: Option<String>, s: Seq<char>, i: int) -> bool { d is Some && at(s, i, d->0@) }
spec fn dlen(d: Option<String>) -> int { if d is Some { d->0@.len() as int } else { 0 } }
/// an indicator has at least one cell
spec fn proper(d: Option<String>) -> bool { d is Some ==> d->0@.len() > 0 }
@fn translator/position_constraints.rs matches_at
@subst chars [ pos .. ] . starts_with ( & pattern ) =>> slice_starts_with ( chars , pos , & pattern )
@spec
    requires pos <= chars@.len(),
    ensures r == at(chars@, pos as int, pattern@),
@type translator/position_constraints.rs BackwardCapsConstrainer
@type translator/position_constraints.rs BackwardNumericConstrainer
@raw
impl BackwardCapsConstrainer {
    spec fn wf(&self) -> bool { proper(self.capsletter_dots) && proper(self.begcapsword_dots) && proper(self.endcapsword_dots) }
}
/// what reading the cells from `p` on capitalises: `word` = inside a capitalised word;
/// the cells whose whole reading is upper-cased (Uppercase)
spec fn upper(t: BackwardCapsConstrainer, s: Seq<char>, p: int, word: bool) -> Set<int>
    decreases s.len() - p, (if word { 1int } else { 0int }) when t.wf()
{
    if word {
        if p <= s.len() && marks(t.endcapsword_dots, s, p) { upper(t, s, p + dlen(t.endcapsword_dots), false) }
        else if p < s.len() && t.letter_cells@.contains(s[p]) { upper(t, s, p + 1, true).insert(p) }
        else { upper(t, s, p, false) }
    } else if p >= s.len() { Set::empty() }
    else if marks(t.begcapsword_dots, s, p) { upper(t, s, p + dlen(t.begcapsword_dots), true) }
    else if marks(t.capsletter_dots, s, p) { upper(t, s, p + dlen(t.capsletter_dots), false) }
    else { upper(t, s, p + 1, false) }
}
/// the cells of which the first letter is upper-cased (TitleCase)
spec fn title(t: BackwardCapsConstrainer, s: Seq<char>, p: int, word: bool) -> Set<int>
    decreases s.len() - p, (if word { 1int } else { 0int }) when t.wf()
{
    if word {
        if p <= s.len() && marks(t.endcapsword_dots, s, p) { title(t, s, p + dlen(t.endcapsword_dots), false) }
        else if p < s.len() && t.letter_cells@.contains(s[p]) { title(t, s, p + 1, true) }
        else { title(t, s, p, false) }
    } else if p >= s.len() { Set::empty() }
    else if marks(t.begcapsword_dots, s, p) { title(t, s, p + dlen(t.begcapsword_dots), true) }
    else if marks(t.capsletter_dots, s, p) { title(t, s, p + dlen(t.capsletter_dots), false).insert(p + dlen(t.capsletter_dots)) }
    else { title(t, s, p + 1, false) }
}
spec fn caps_inv(t: BackwardCapsConstrainer, s: Seq<char>, cs: Seq<Constraints>, p: int, word: bool) -> bool {
    &&& todo_inv(cs, Constraint::Uppercase, upper(t, s, p, word), upper(t, s, 0, false))
    &&& todo_inv(cs, Constraint::TitleCase, title(t, s, p, word), title(t, s, 0, false))
    &&& forall|i: int, d: Constraint| 0 <= i < cs.len() && #[trigger] has(cs, i, d) ==> d is Uppercase || d is TitleCase
}
@fn translator/position_constraints.rs BackwardCapsConstrainer::compute loops=2
@subst vec ! [ Constraints :: empty ( ) ; n ] =>> no_constraints ( n )
@subst dots . chars ( ) . count ( ) =>> dots_len ( dots )
@subst end_dots . chars ( ) . count ( ) =>> dots_len ( end_dots )
@subst constraints [ pos ] . insert ( Constraint :: Uppercase ) =>> mark ( & mut constraints , pos , Constraint :: Uppercase )
@subst constraints [ pos ] . insert ( Constraint :: TitleCase ) =>> mark ( & mut constraints , pos , Constraint :: TitleCase )
@spec
    requires self.wf(),
    ensures r@.len() == input@.len(), forall|i: int, c: Constraint| 0 <= i < r@.len() ==> (#[trigger] has(r@, i, c) <==> (c is Uppercase && upper(*self, input@, 0, false).contains(i)) || (c is TitleCase && title(*self, input@, 0, false).contains(i))),
@loop 0
    invariant
        self.wf(), chars@ == input@, n == chars@.len() == constraints@.len(), pos <= n, n <= isize::MAX,
        caps_inv(*self, input@, constraints@, pos as int, false),
    decreases n - pos,
@loop 0 start
    let ghost pos0 = pos;
@loop 1
    invariant_except_break
        caps_inv(*self, input@, constraints@, pos as int, true),
    invariant
        self.wf(), chars@ == input@, n == chars@.len() == constraints@.len(), pos0 < pos <= n, n <= isize::MAX,
    ensures
        caps_inv(*self, input@, constraints@, pos as int, false),
    decreases n - pos,
@raw
impl BackwardNumericConstrainer {
    spec fn wf(&self) -> bool { proper(self.numsign_dots) && proper(self.nonumsign_dots) }
}
spec fn starts_number(t: BackwardNumericConstrainer, s: Seq<char>, p: int) -> bool { marks(t.numsign_dots, s, p) && (p == 0 || !t.letter_cells@.contains(s[p - 1])) }
/// the cells that read as digits, reading on from `p`; `on` = inside a number
spec fn nums(t: BackwardNumericConstrainer, s: Seq<char>, p: int, on: bool) -> Set<int>
    decreases s.len() - p when t.wf()
{
    if p >= s.len() { Set::empty() }
    else if starts_number(t, s, p) { nums(t, s, p + dlen(t.numsign_dots), true) }
    else if on && marks(t.nonumsign_dots, s, p) { nums(t, s, p + dlen(t.nonumsign_dots), false) }
    else if on && t.digit_cells@.contains(s[p]) { nums(t, s, p + 1, true).insert(p) }
    else { nums(t, s, p + 1, false) }
}
/// what is marked so far and what is still to be marked make up `goal`
spec fn todo_inv(cs: Seq<Constraints>, c: Constraint, rest: Set<int>, goal: Set<int>) -> bool {
    forall|i: int| 0 <= i < cs.len() ==> (#[trigger] goal.contains(i) <==> has(cs, i, c) || rest.contains(i))
}
spec fn only(cs: Seq<Constraints>, c: Constraint) -> bool { forall|i: int, d: Constraint| 0 <= i < cs.len() && #[trigger] has(cs, i, d) ==> d == c }
@fn translator/position_constraints.rs BackwardNumericConstrainer::compute loops=1
@subst vec ! [ Constraints :: empty ( ) ; n ] =>> no_constraints ( n )
@subst dots . chars ( ) . count ( ) =>> dots_len ( dots )
@subst constraints [ pos ] . insert ( Constraint :: PreferDigit ) =>> mark ( & mut constraints , pos , Constraint :: PreferDigit )
@spec
    requires self.wf(),
    ensures r@.len() == input@.len(), forall|i: int, c: Constraint| 0 <= i < r@.len() ==> (#[trigger] has(r@, i, c) <==> (c is PreferDigit && nums(*self, input@, 0, false).contains(i))),
@loop 0
    invariant
        self.wf(), chars@ == input@, n == chars@.len() == constraints@.len(), pos <= n, n <= isize::MAX,
        todo_inv(constraints@, Constraint::PreferDigit, nums(*self, input@, pos as int, in_number), nums(*self, input@, 0, false)),
        only(constraints@, Constraint::PreferDigit),
    decreases n - pos,
