@include direction.vs
@raw
#[verifier::external_body]
struct Path { id: usize }
@type parser.rs AnchoredRule derive= drop=path,line
@raw
impl Clone for AnchoredRule {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl AnchoredRule {
    /// contract of `HasDirection@Rule::directions` above, through `AnchoredRule`
    fn is_direction(&self, d: Direction) -> (r: bool) ensures r == serves(self.rule, d) { self.rule.is_direction(d) }
}
@type translator/translation.rs TranslationStage derive=Clone,Copy
@raw
// ---- stand-ins: what one step does is the subject of other contracts (C01..C07, C16, C18) ----
#[verifier::external_body]
struct TranslationError { id: usize }
#[verifier::external_body]
struct TranslationOptions { id: usize }
#[verifier::external_body]
struct TableContext { id: usize }
#[verifier::external_body]
struct MultipassTable { id: usize }
#[verifier::external_body]
struct PrimaryTable { id: usize }
#[verifier::external_body]
struct ResolvedTranslation { id: usize }
type Rules = Seq<AnchoredRule>;
uninterp spec fn no_options() -> TranslationOptions;
uninterp spec fn context(r: Rules) -> Result<TableContext, TranslationError>;
uninterp spec fn multipass(r: Rules, d: Direction, s: TranslationStage, c: TableContext) -> Result<MultipassTable, TranslationError>;
uninterp spec fn primary(r: Rules, d: Direction, c: TableContext) -> Result<PrimaryTable, TranslationError>;
uninterp spec fn multipass_pieces(t: MultipassTable, w: Seq<char>) -> Seq<ResolvedTranslation>;
uninterp spec fn primary_pieces(t: PrimaryTable, w: Seq<char>, o: TranslationOptions) -> Seq<ResolvedTranslation>;
uninterp spec fn written(t: ResolvedTranslation) -> Seq<char>;
impl TranslationOptions {
    #[verifier::external_body]
    fn default() -> (r: TranslationOptions) ensures r == no_options() { unimplemented!() }
}
impl ResolvedTranslation {
    #[verifier::external_body]
    fn output(&self) -> (r: String) ensures r@ == written(*self) { unimplemented!() }
}
impl TableContext {
    #[verifier::external_body]
    fn compile(rules: &[AnchoredRule]) -> (r: Result<TableContext, TranslationError>) ensures r == context(rules@) { unimplemented!() }
}
impl MultipassTable {
    #[verifier::external_body]
    fn compile(rules: &[AnchoredRule], direction: Direction, stage: TranslationStage, ctx: &TableContext) -> (r: Result<MultipassTable, TranslationError>)
        ensures r == multipass(rules@, direction, stage, *ctx) { unimplemented!() }
    #[verifier::external_body]
    fn trace(&self, input: &str) -> (r: Vec<ResolvedTranslation>) ensures r@ == multipass_pieces(*self, input@) { unimplemented!() }
}
impl PrimaryTable {
    #[verifier::external_body]
    fn compile(rules: &[AnchoredRule], direction: Direction, stage: TranslationStage, ctx: &TableContext) -> (r: Result<PrimaryTable, TranslationError>)
        ensures r == primary(rules@, direction, *ctx) { unimplemented!() }
    #[verifier::external_body]
    fn trace(&self, input: &str, options: &TranslationOptions) -> (r: Vec<ResolvedTranslation>) ensures r@ == primary_pieces(*self, input@, *options) { unimplemented!() }
}
#[verifier::external_body]
fn own(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
fn str_append(s: &mut String, t: &String) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
@type translator/pipeline.rs Transformation derive=
@type translator/pipeline.rs TranslationPipeline derive=
@raw
/// the texts of the pieces, one after the other
spec fn text(p: Seq<ResolvedTranslation>) -> Seq<char> decreases p.len() { if p.len() == 0 { seq![] } else { text(p.drop_last()) + written(p.last()) } }
proof fn text_take(p: Seq<ResolvedTranslation>, i: int)
    requires 0 <= i < p.len(),
    ensures text(p.take(i + 1)) == text(p.take(i)) + written(p[i]),
{ assert(p.take(i + 1).drop_last() =~= p.take(i)); }
/// the pieces one step yields
spec fn pieces(s: Transformation, w: Seq<char>, o: TranslationOptions) -> Seq<ResolvedTranslation> {
    match s {
        Transformation::Pre(t) => multipass_pieces(t, w),
        Transformation::Primary(t) => primary_pieces(t, w, o),
        Transformation::Post(t) => multipass_pieces(t, w),
    }
}
/// the text after the first n steps: each step translates what the one before it wrote
spec fn after(s: Seq<Transformation>, w: Seq<char>, o: TranslationOptions, n: int) -> Seq<char> decreases n {
    if n <= 0 { w } else { text(pieces(s[n - 1], after(s, w, o, n - 1), o)) }
}
spec fn keep(r: Rules, f: spec_fn(AnchoredRule) -> bool) -> Rules decreases r.len() {
    if r.len() == 0 { seq![] } else if f(r.last()) { keep(r.drop_last(), f).push(r.last()) } else { keep(r.drop_last(), f) }
}
proof fn keep_take(r: Rules, f: spec_fn(AnchoredRule) -> bool, i: int)
    requires 0 <= i < r.len(),
    ensures keep(r.take(i + 1), f) == (if f(r[i]) { keep(r.take(i), f).push(r[i]) } else { keep(r.take(i), f) }),
{ assert(r.take(i + 1).drop_last() =~= r.take(i)); }
spec fn usable(r: Rules, d: Direction) -> Rules { keep(r, |a: AnchoredRule| serves(a.rule, d)) }
spec fn correct(r: Rules) -> Rules { keep(r, |a: AnchoredRule| a.rule is Correct) }
spec fn pass2(r: Rules) -> Rules { keep(r, |a: AnchoredRule| a.rule is Pass2) }
spec fn pass3(r: Rules) -> Rules { keep(r, |a: AnchoredRule| a.rule is Pass3) }
spec fn pass4(r: Rules) -> Rules { keep(r, |a: AnchoredRule| a.rule is Pass4) }
/// a step for the rules of one kind, if there are any
spec fn step(r: Rules, d: Direction, s: TranslationStage, c: TableContext) -> Seq<Transformation> {
    if r.len() == 0 { seq![] } else if s is Pre { seq![Transformation::Pre(multipass(r, d, s, c)->Ok_0)] } else { seq![Transformation::Post(multipass(r, d, s, c)->Ok_0)] }
}
spec fn fine(r: Rules, d: Direction, s: TranslationStage, c: TableContext) -> bool { r.len() == 0 || multipass(r, d, s, c) is Ok }
/// the steps in the order the forward translation takes them
spec fn forward_steps(all: Rules, d: Direction) -> Seq<Transformation> {
    let r = usable(all, d);
    let c = context(all)->Ok_0;
    step(correct(r), d, TranslationStage::Pre, c)
    + seq![Transformation::Primary(primary(r, d, context(r)->Ok_0)->Ok_0)]
    + step(pass2(r), d, TranslationStage::Post1, c)
    + step(pass3(r), d, TranslationStage::Post2, c)
    + step(pass4(r), d, TranslationStage::Post3, c)
}
spec fn compiles(all: Rules, d: Direction) -> bool {
    let r = usable(all, d);
    let c = context(all)->Ok_0;
    &&& context(all) is Ok
    &&& context(r) is Ok
    &&& primary(r, d, context(r)->Ok_0) is Ok
    &&& fine(correct(r), d, TranslationStage::Pre, c)
    &&& fine(pass2(r), d, TranslationStage::Post1, c)
    &&& fine(pass3(r), d, TranslationStage::Post2, c)
    &&& fine(pass4(r), d, TranslationStage::Post3, c)
}
spec fn steps_of(all: Rules, d: Direction) -> Seq<Transformation> {
    match d { Direction::Forward => forward_steps(all, d), Direction::Backward => forward_steps(all, d).reverse() }
}
#[verifier::external_body]
fn reversed(v: Vec<Transformation>) -> (r: Vec<Transformation>) ensures r@ == v@.reverse() { v.into_iter().rev().collect() }
@fn translator/table/multipass.rs MultipassTable::translate loops=1 collect0=Strings
@spec
    ensures r@ == text(multipass_pieces(*self, input@)),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == multipass_pieces(*self, input@), __acc0@ == text(__s0@.take(__i0 as int)),
    decreases __s0@.len() - __i0,
@loop 0 start
    proof { text_take(__s0@, __i0 as int); }
@loop 0 post
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
@fn translator/table/primary.rs PrimaryTable::translate loops=1 collect0=Strings
@spec
    ensures r@ == text(primary_pieces(*self, input@, no_options())),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == primary_pieces(*self, input@, no_options()), __acc0@ == text(__s0@.take(__i0 as int)),
    decreases __s0@.len() - __i0,
@loop 0 start
    proof { text_take(__s0@, __i0 as int); }
@loop 0 post
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
@fn translator/table/primary.rs PrimaryTable::translate_with_options loops=1 collect0=Strings
@spec
    ensures r@ == text(primary_pieces(*self, input@, *options)),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == primary_pieces(*self, input@, *options), __acc0@ == text(__s0@.take(__i0 as int)),
    decreases __s0@.len() - __i0,
@loop 0 start
    proof { text_take(__s0@, __i0 as int); }
@loop 0 post
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
@fn translator/pipeline.rs Transformation::trace
@spec
    ensures r@ == pieces(*self, input@, *options),
@fn translator/pipeline.rs Transformation::translate
@spec
    ensures r@ == text(pieces(*self, input@, no_options())),
@fn translator/pipeline.rs Transformation::translate_with_options
@spec
    ensures r@ == text(pieces(*self, input@, *options)),
@fn translator/pipeline.rs TranslationPipeline::compile loops=5
@subst steps.into_iter().rev().collect() =>> reversed(steps)
@spec
    ensures r is Ok <==> compiles(rules@, direction), r is Ok ==> r->Ok_0.steps@ == steps_of(rules@, direction),
@loop 0
    invariant __i0 <= rules@.len(), __acc0@ == usable(rules@.take(__i0 as int), direction),
    decreases rules@.len() - __i0,
@loop 0 start
    proof { keep_take(rules@, |a: AnchoredRule| serves(a.rule, direction), __i0 as int); }
@loop 0 post
    proof { assert(rules@.take(rules@.len() as int) =~= rules@); }
@loop 1
    invariant __i1 <= rules@.len(), __acc1@ == correct(rules@.take(__i1 as int)),
    decreases rules@.len() - __i1,
@loop 1 start
    proof { keep_take(rules@, |a: AnchoredRule| a.rule is Correct, __i1 as int); }
@loop 1 post
    proof { assert(rules@.take(rules@.len() as int) =~= rules@); }
@loop 2
    invariant __i2 <= rules@.len(), __acc2@ == pass2(rules@.take(__i2 as int)),
    decreases rules@.len() - __i2,
@loop 2 start
    proof { keep_take(rules@, |a: AnchoredRule| a.rule is Pass2, __i2 as int); }
@loop 2 post
    proof { assert(rules@.take(rules@.len() as int) =~= rules@); }
@loop 3
    invariant __i3 <= rules@.len(), __acc3@ == pass3(rules@.take(__i3 as int)),
    decreases rules@.len() - __i3,
@loop 3 start
    proof { keep_take(rules@, |a: AnchoredRule| a.rule is Pass3, __i3 as int); }
@loop 3 post
    proof { assert(rules@.take(rules@.len() as int) =~= rules@); }
@loop 4
    invariant __i4 <= rules@.len(), __acc4@ == pass4(rules@.take(__i4 as int)),
    decreases rules@.len() - __i4,
@loop 4 start
    proof { keep_take(rules@, |a: AnchoredRule| a.rule is Pass4, __i4 as int); }
@loop 4 post
    proof { assert(rules@.take(rules@.len() as int) =~= rules@); }
@exit
    proof { }
@fn translator/pipeline.rs TranslationPipeline::trace
@spec
    ensures r@.len() == self.steps@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == pieces(self.steps@[i], after(self.steps@, input@, no_options(), i), no_options()),
@fn translator/pipeline.rs TranslationPipeline::trace_with_options loops=2 collect1=Strings
@subst input.to_string() =>> own(input)
@spec
    ensures r@.len() == self.steps@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == pieces(self.steps@[i], after(self.steps@, input@, *options, i), *options),
@entry
    let ghost w = input@;
@loop 0
    invariant __i0 <= self.steps@.len(), result@.len() == __i0, input@ == after(self.steps@, w, *options, __i0 as int),
        forall|i: int| 0 <= i < __i0 ==> (#[trigger] result@[i])@ == pieces(self.steps@[i], after(self.steps@, w, *options, i), *options),
    decreases self.steps@.len() - __i0,
@loop 1
    invariant __i1 <= translations@.len(), __acc1@ == text(translations@.take(__i1 as int)),
    decreases translations@.len() - __i1,
@loop 1 start
    proof { text_take(translations@, __i1 as int); }
@loop 1 post
    proof { assert(translations@.take(translations@.len() as int) =~= translations@); }
@fn translator/pipeline.rs TranslationPipeline::translate loops=1
@subst input.to_string() =>> own(input)
@spec
    ensures r@ == after(self.steps@, input@, no_options(), self.steps@.len() as int),
@loop 0
    invariant __i0 <= self.steps@.len(), result@ == after(self.steps@, input@, no_options(), __i0 as int),
    decreases self.steps@.len() - __i0,
@fn translator/pipeline.rs TranslationPipeline::translate_with_options loops=1
@subst input.to_string() =>> own(input)
@spec
    ensures r@ == after(self.steps@, input@, *options, self.steps@.len() as int),
@loop 0
    invariant __i0 <= self.steps@.len(), result@ == after(self.steps@, input@, *options, __i0 as int),
    decreases self.steps@.len() - __i0,
