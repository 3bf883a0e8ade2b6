@include common.vs
@raw
/// `set.extend(s.chars())`
#[verifier::external_body]
fn add_chars(v: &mut HashSet<char>, s: &str) ensures final(v)@ == old(v)@.union(s@.to_set()) { v.extend(s.chars()) }
/// `HashSet::from_iter(s.chars())`
#[verifier::external_body]
fn set_of(s: &str) -> (r: HashSet<char>) ensures r@ == s@.to_set() { s.chars().collect() }
#[verifier::external_body]
fn own(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
fn no_chars(v: &HashSet<char>) -> (r: bool) ensures r == (v@ =~= Set::<char>::empty()) { v.is_empty() }
#[verifier::external_body]
struct HyphenationTable { id: usize }
@type translator/position_constraints.rs NumericConstrainer derive=
@type translator/position_constraints.rs NumericConstrainerBuilder derive=
@raw
/// `NumericConstrainerBuilder::default()`, derived
#[verifier::external_body]
fn blank_numeric() -> (r: NumericConstrainerBuilder) ensures r.numeric_chars@ == Set::<char>::empty(), r.extra_numeric_chars@ == Set::<char>::empty(), r.mid_numeric_chars@ == Set::<char>::empty() { unimplemented!() }
@fn translator/position_constraints.rs NumericConstrainerBuilder::new
@subst Self::default() =>> blank_numeric()
@spec
    ensures r.numeric_chars@ == Set::<char>::empty(), r.extra_numeric_chars@ == Set::<char>::empty(), r.mid_numeric_chars@ == Set::<char>::empty(),
@fn translator/position_constraints.rs NumericConstrainerBuilder::numeric_characters
@spec
    ensures *final(self) == (NumericConstrainerBuilder { numeric_chars: chars, ..*old(self) }),
@fn translator/position_constraints.rs NumericConstrainerBuilder::numericmodechars
@subst HashSet::from_iter(s.chars()) =>> set_of(s)
@spec
    ensures final(self).extra_numeric_chars@ == s@.to_set(), *final(self) == (NumericConstrainerBuilder { extra_numeric_chars: final(self).extra_numeric_chars, ..*old(self) }),
@fn translator/position_constraints.rs NumericConstrainerBuilder::midnum
@subst self.mid_numeric_chars.extend(s.chars()) =>> add_chars(&mut self.mid_numeric_chars, s)
@spec
    ensures final(self).mid_numeric_chars@ == old(self).mid_numeric_chars@.union(s@.to_set()), *final(self) == (NumericConstrainerBuilder { mid_numeric_chars: final(self).mid_numeric_chars, ..*old(self) }),
@fn translator/position_constraints.rs NumericConstrainerBuilder::build
@subst self.numeric_chars.is_empty() =>> no_chars(&self.numeric_chars)
@spec
    ensures r is Some <==> !(self.numeric_chars@ =~= Set::<char>::empty()), r is Some ==> r->0.numeric_chars == self.numeric_chars && r->0.extra_numeric_chars == self.extra_numeric_chars && r->0.mid_numeric_chars == self.mid_numeric_chars,
@type translator/position_constraints.rs BackwardCapsConstrainer derive=
@type translator/position_constraints.rs BackwardCapsConstrainerBuilder derive=
@raw
/// `BackwardCapsConstrainerBuilder::default()`, derived
#[verifier::external_body]
fn blank_backwardcaps() -> (r: BackwardCapsConstrainerBuilder) ensures r.capsletter_dots is None, r.begcapsword_dots is None, r.endcapsword_dots is None, r.letter_cells@ == Set::<char>::empty() { unimplemented!() }
@fn translator/position_constraints.rs BackwardCapsConstrainerBuilder::new
@subst Self::default() =>> blank_backwardcaps()
@spec
    ensures r.capsletter_dots is None, r.begcapsword_dots is None, r.endcapsword_dots is None, r.letter_cells@ == Set::<char>::empty(),
@fn translator/position_constraints.rs BackwardCapsConstrainerBuilder::capsletter
@subst dots.to_string() =>> own(dots)
@spec
    ensures final(self).capsletter_dots is Some, (final(self).capsletter_dots->0)@ == dots@, *final(self) == (BackwardCapsConstrainerBuilder { capsletter_dots: final(self).capsletter_dots, ..*old(self) }),
@fn translator/position_constraints.rs BackwardCapsConstrainerBuilder::begcapsword
@subst dots.to_string() =>> own(dots)
@spec
    ensures final(self).begcapsword_dots is Some, (final(self).begcapsword_dots->0)@ == dots@, *final(self) == (BackwardCapsConstrainerBuilder { begcapsword_dots: final(self).begcapsword_dots, ..*old(self) }),
@fn translator/position_constraints.rs BackwardCapsConstrainerBuilder::endcapsword
@subst dots.to_string() =>> own(dots)
@spec
    ensures final(self).endcapsword_dots is Some, (final(self).endcapsword_dots->0)@ == dots@, *final(self) == (BackwardCapsConstrainerBuilder { endcapsword_dots: final(self).endcapsword_dots, ..*old(self) }),
@fn translator/position_constraints.rs BackwardCapsConstrainerBuilder::letter_cells
@spec
    ensures *final(self) == (BackwardCapsConstrainerBuilder { letter_cells: cells, ..*old(self) }),
@fn translator/position_constraints.rs BackwardCapsConstrainerBuilder::build
@spec
    ensures r is Some <==> self.capsletter_dots is Some || self.begcapsword_dots is Some, r is Some ==> r->0.capsletter_dots == self.capsletter_dots && r->0.begcapsword_dots == self.begcapsword_dots && r->0.endcapsword_dots == self.endcapsword_dots && r->0.letter_cells == self.letter_cells,
@type translator/position_constraints.rs BackwardNumericConstrainer derive=
@type translator/position_constraints.rs BackwardNumericConstrainerBuilder derive=
@raw
/// `BackwardNumericConstrainerBuilder::default()`, derived
#[verifier::external_body]
fn blank_backwardnumeric() -> (r: BackwardNumericConstrainerBuilder) ensures r.numsign_dots is None, r.nonumsign_dots is None, r.digit_cells@ == Set::<char>::empty(), r.letter_cells@ == Set::<char>::empty() { unimplemented!() }
@fn translator/position_constraints.rs BackwardNumericConstrainerBuilder::new
@subst Self::default() =>> blank_backwardnumeric()
@spec
    ensures r.numsign_dots is None, r.nonumsign_dots is None, r.digit_cells@ == Set::<char>::empty(), r.letter_cells@ == Set::<char>::empty(),
@fn translator/position_constraints.rs BackwardNumericConstrainerBuilder::numsign
@subst dots.to_string() =>> own(dots)
@spec
    ensures final(self).numsign_dots is Some, (final(self).numsign_dots->0)@ == dots@, *final(self) == (BackwardNumericConstrainerBuilder { numsign_dots: final(self).numsign_dots, ..*old(self) }),
@fn translator/position_constraints.rs BackwardNumericConstrainerBuilder::nonumsign
@subst dots.to_string() =>> own(dots)
@spec
    ensures final(self).nonumsign_dots is Some, (final(self).nonumsign_dots->0)@ == dots@, *final(self) == (BackwardNumericConstrainerBuilder { nonumsign_dots: final(self).nonumsign_dots, ..*old(self) }),
@fn translator/position_constraints.rs BackwardNumericConstrainerBuilder::digit_cells
@spec
    ensures *final(self) == (BackwardNumericConstrainerBuilder { digit_cells: cells, ..*old(self) }),
@fn translator/position_constraints.rs BackwardNumericConstrainerBuilder::letter_cells
@spec
    ensures *final(self) == (BackwardNumericConstrainerBuilder { letter_cells: cells, ..*old(self) }),
@fn translator/position_constraints.rs BackwardNumericConstrainerBuilder::build
@spec
    ensures r is Some <==> self.numsign_dots is Some, r is Some ==> r->0.numsign_dots == self.numsign_dots && r->0.nonumsign_dots == self.nonumsign_dots && r->0.digit_cells == self.digit_cells && r->0.letter_cells == self.letter_cells,
@type translator/position_constraints.rs HyphenationConstrainer derive=
@type translator/position_constraints.rs HyphenationConstrainerBuilder derive=
@raw
/// `HyphenationConstrainerBuilder::default()`, derived
#[verifier::external_body]
fn blank_hyphenation() -> (r: HyphenationConstrainerBuilder) ensures r.hyphenator is None, r.letter_chars@ == Set::<char>::empty() { unimplemented!() }
@fn translator/position_constraints.rs HyphenationConstrainerBuilder::new
@subst Self::default() =>> blank_hyphenation()
@spec
    ensures r.hyphenator is None, r.letter_chars@ == Set::<char>::empty(),
@fn translator/position_constraints.rs HyphenationConstrainerBuilder::hyphenator
@spec
    ensures *final(self) == (HyphenationConstrainerBuilder { hyphenator: Some(hyphenator), ..*old(self) }),
@fn translator/position_constraints.rs HyphenationConstrainerBuilder::letter_characters
@spec
    ensures *final(self) == (HyphenationConstrainerBuilder { letter_chars: chars, ..*old(self) }),
@fn translator/position_constraints.rs HyphenationConstrainerBuilder::build
@spec
    ensures r is Some <==> self.hyphenator is Some, r is Some ==> r->0.letter_chars == self.letter_chars && r->0.hyphenator == self.hyphenator->0,
@type translator/position_constraints.rs PunctuationConstrainer derive=
@type translator/position_constraints.rs PunctuationConstrainerBuilder derive=
@raw
/// `PunctuationConstrainerBuilder::default()`, derived
#[verifier::external_body]
fn blank_punctuation() -> (r: PunctuationConstrainerBuilder) ensures !r.has_prepunc_or_postpunc, r.letter_chars@ == Set::<char>::empty(), r.letter_or_digit_chars@ == Set::<char>::empty(), r.space_chars@ == Set::<char>::empty() { unimplemented!() }
@fn translator/position_constraints.rs PunctuationConstrainerBuilder::new
@subst Self::default() =>> blank_punctuation()
@spec
    ensures !r.has_prepunc_or_postpunc, r.letter_chars@ == Set::<char>::empty(), r.letter_or_digit_chars@ == Set::<char>::empty(), r.space_chars@ == Set::<char>::empty(),
@fn translator/position_constraints.rs PunctuationConstrainerBuilder::mark_present
@spec
    ensures *final(self) == (PunctuationConstrainerBuilder { has_prepunc_or_postpunc: true, ..*old(self) }),
@fn translator/position_constraints.rs PunctuationConstrainerBuilder::letter_characters
@spec
    ensures *final(self) == (PunctuationConstrainerBuilder { letter_chars: chars, ..*old(self) }),
@fn translator/position_constraints.rs PunctuationConstrainerBuilder::letter_or_digit_characters
@spec
    ensures *final(self) == (PunctuationConstrainerBuilder { letter_or_digit_chars: chars, ..*old(self) }),
@fn translator/position_constraints.rs PunctuationConstrainerBuilder::space_characters
@spec
    ensures *final(self) == (PunctuationConstrainerBuilder { space_chars: chars, ..*old(self) }),
@fn translator/position_constraints.rs PunctuationConstrainerBuilder::build
@spec
    ensures r is Some <==> self.has_prepunc_or_postpunc, r is Some ==> r->0.letter_chars == self.letter_chars && r->0.letter_or_digit_chars == self.letter_or_digit_chars && r->0.space_chars == self.space_chars,
