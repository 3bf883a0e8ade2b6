@include common.vs
@type parser.rs Direction derive=Clone,Copy
@type translator/translation.rs TranslationStage derive=Clone,Copy
@raw
#[verifier::external_body]
pub struct BrailleChars { e: u8 }
mod multipass {
    #[verifier::external_body]
    pub struct Test { e: u8 }
}
use multipass::Test;
#[verifier::external_body]
struct TranslationError { e: u8 }
#[verifier::external_body]
struct TableContext { e: u8 }
@type parser/multipass/action.rs ActionInstruction derive=
@type parser/multipass/action.rs Action derive=
@type parser.rs Rule derive= keepfields=test,action
@type parser.rs AnchoredRule derive= drop=path,line
@raw
fn same_direction(a: Direction, b: Direction) -> (r: bool) ensures r == (a == b) { matches!((a, b), (Direction::Forward, Direction::Forward) | (Direction::Backward, Direction::Backward)) }
/// what stands in a pass: the test, the action, the rule they stem from, the stage and the classes they refer to
ghost struct Ce { test: Test, action: Action, rule: AnchoredRule, stage: TranslationStage, ctx: TableContext }
/// the rule cannot be compiled: it names a swap class that is not defined, say (contract in patterns.vs)
uninterp spec fn unusable(e: Ce) -> bool;
/// stands for the builder of the patterns; what it makes of a rule is the subject of patterns.vs
#[verifier::external_body]
struct ContextPatternsBuilder { e: u8 }
#[verifier::external_body]
struct ContextPatterns { e: u8 }
impl ContextPatterns { uninterp spec fn view(&self) -> Seq<Ce>; }
impl ContextPatternsBuilder {
    uninterp spec fn view(&self) -> Seq<Ce>;
    #[verifier::external_body]
    fn new() -> (r: Self) ensures r@ == Seq::<Ce>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, test: &Test, action: &Action, origin: &AnchoredRule, stage: TranslationStage, ctx: &TableContext) -> (r: Result<(), TranslationError>)
        ensures ({ let e = Ce { test: *test, action: *action, rule: *origin, stage, ctx: *ctx };
            (r is Err <==> unusable(e)) && (r is Ok ==> final(self)@ == old(self)@.push(e)) })
    { unimplemented!() }
    #[verifier::external_body]
    fn build(self) -> (r: ContextPatterns) ensures r@ == self@ { unimplemented!() }
}
@type translator/table/multipass.rs MultipassTable derive=
@type translator/table/multipass.rs MultipassTableBuilder derive=
@raw
/// something to match in backward translation: a text or cells
spec fn writes(i: ActionInstruction) -> bool { i is String || i is Dots }
spec fn says_something(a: Action) -> bool { exists|k: int| 0 <= k < a.actions@.len() && writes(#[trigger] a.actions@[k]) }
/// the test and action of a rule of a pass
spec fn operands(r: Rule) -> Option<(Test, Action)> {
    match r {
        Rule::Correct { test, action, .. } | Rule::Pass2 { test, action, .. } | Rule::Pass3 { test, action, .. } | Rule::Pass4 { test, action, .. } => Some((test, action)),
        _ => None,
    }
}
/// what the pass takes in of a rule
spec fn takes(r: AnchoredRule, d: Direction, s: TranslationStage, c: TableContext) -> Option<Ce> {
    match operands(r.rule) {
        Some((test, action)) => if d is Backward && !says_something(action) { None } else { Some(Ce { test, action, rule: r, stage: s, ctx: c }) },
        None => None,
    }
}
/// what the pass takes in of the rules, in their order
spec fn entries(r: Seq<AnchoredRule>, d: Direction, s: TranslationStage, c: TableContext) -> Seq<Ce>
    decreases r.len()
{
    if r.len() == 0 { seq![] } else {
        let b = entries(r.drop_last(), d, s, c);
        match takes(r.last(), d, s, c) { Some(e) => b.push(e), None => b }
    }
}
spec fn broken(r: Seq<AnchoredRule>, d: Direction, s: TranslationStage, c: TableContext) -> bool {
    exists|k: int| 0 <= k < r.len() && (#[trigger] takes(r[k], d, s, c)) is Some && unusable(takes(r[k], d, s, c)->0)
}
@fn parser/multipass/action.rs ConsumesInput@ActionInstruction::consumes_input ret=r
@spec
    ensures r == writes(*self),
@fn parser/multipass/action.rs ConsumesInput@Action::consumes_input ret=r loops=1
@spec
    ensures r == says_something(*self),
@loop 0
    invariant_except_break !__acc0,
    invariant __i0 <= self.actions@.len(), !__acc0 ==> forall|k: int| 0 <= k < __i0 ==> !writes(#[trigger] self.actions@[k]),
    ensures __acc0 <==> says_something(*self),
    decreases self.actions@.len() - __i0,
@fn translator/table/multipass.rs MultipassTableBuilder::new ret=r
@spec
    ensures r.patterns@ == Seq::<Ce>::empty(),
@fn translator/table/multipass.rs MultipassTableBuilder::build ret=r
@spec
    ensures r.direction == direction, r.stage == stage, r.patterns@ == self.patterns@,
@fn translator/table/multipass.rs MultipassTable::compile ret=r loops=1
@subst direction == Direction :: Backward =>> same_direction ( direction , Direction :: Backward )
@subst in rules =>> in rules . iter ( )
@spec
    ensures r is Err <==> broken(rules@, direction, stage, *ctx),
        r is Ok ==> (r->Ok_0).direction == direction && (r->Ok_0).stage == stage && (r->Ok_0).patterns@ == entries(rules@, direction, stage, *ctx),
@loop 0
    invariant __i0 <= rules@.len(), builder.patterns@ == entries(rules@.take(__i0 as int), direction, stage, *ctx), !broken(rules@.take(__i0 as int), direction, stage, *ctx),
    decreases rules@.len() - __i0,
@loop 0 start
    proof {
        let k = __i0 as int;
        assert(rules@.take(k + 1).drop_last() =~= rules@.take(k));
        assert(rules@.take(k + 1).last() == rules@[k]);
        assert forall|j: int| 0 <= j <= k implies rules@.take(k + 1)[j] == rules@[j] by {}
        if broken(rules@, direction, stage, *ctx) { }
        assert(broken(rules@.take(k + 1), direction, stage, *ctx) <==> (takes(rules@[k], direction, stage, *ctx) is Some && unusable(takes(rules@[k], direction, stage, *ctx)->0))) by {
            assert forall|j: int| 0 <= j < k implies rules@.take(k)[j] == rules@.take(k + 1)[j] by {}
            if takes(rules@[k], direction, stage, *ctx) is Some && unusable(takes(rules@[k], direction, stage, *ctx)->0) {
                assert(takes(rules@.take(k + 1)[k], direction, stage, *ctx) is Some);
            }
            if broken(rules@.take(k + 1), direction, stage, *ctx) {
                let j = choose|j: int| 0 <= j < k + 1 && (#[trigger] takes(rules@.take(k + 1)[j], direction, stage, *ctx)) is Some && unusable(takes(rules@.take(k + 1)[j], direction, stage, *ctx)->0);
                if j < k { assert(takes(rules@.take(k)[j], direction, stage, *ctx) is Some); assert(broken(rules@.take(k), direction, stage, *ctx)); }
            }
        }
        if broken(rules@.take(k + 1), direction, stage, *ctx) { assert(takes(rules@[k], direction, stage, *ctx) is Some); assert(broken(rules@, direction, stage, *ctx)); }
    }
@loop 0 post
    proof { assert(rules@.take(rules@.len() as int) =~= rules@); }
