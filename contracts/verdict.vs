@include common.vs
@type parser.rs Direction attr=derive(PartialEq,Eq,Structural,Clone,Copy)
@raw
// ---- stand-ins: what a translation writes is the subject of other contracts (pipeline.vs, display.vs) ----
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct EnumSet<T> { id: usize, p: std::marker::PhantomData<T> }
impl<T> EnumSet<T> {
    pub uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    fn contains(&self, v: T) -> (r: bool) ensures r == self@.contains(v) { unimplemented!() }
}
#[verifier::external_body]
pub struct TranslationModes { e: u8 }
impl TranslationModes {
    pub uninterp spec fn none() -> TranslationModes;
    #[verifier::external_body]
    fn clone(&self) -> (r: TranslationModes) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    fn default() -> (r: TranslationModes) ensures r == TranslationModes::none() { unimplemented!() }
}
#[verifier::external_body]
pub struct EmphasisSpan { e: u8 }
#[verifier::external_body]
fn spans_clone(v: &Vec<EmphasisSpan>) -> (r: Vec<EmphasisSpan>) ensures r@ == v@ { unimplemented!() }
@type translator/options.rs TranslationOptions derive=
@raw
impl TranslationOptions {
    /// derived
    #[verifier::external_body]
    fn default() -> (r: TranslationOptions) ensures r.mode == TranslationModes::none(), r.emphasis@.len() == 0, r.cursor_pos is None { unimplemented!() }
}
#[verifier::external_body]
pub struct TranslationPipeline { e: u8 }
#[verifier::external_body]
pub struct DisplayTable { e: u8 }
/// what a pipeline writes for a text (pipeline.vs) with modes and emphasis, and how a display table shows one (display.vs)
pub uninterp spec fn written(p: TranslationPipeline, s: Seq<char>, m: TranslationModes, e: Seq<EmphasisSpan>) -> Seq<char>;
pub uninterp spec fn shown(d: DisplayTable, s: Seq<char>) -> Seq<char>;
impl TranslationPipeline {
    #[verifier::external_body]
    fn translate_with_options(&self, s: &str, o: &TranslationOptions) -> (r: String) ensures r@ == written(*self, s@, o.mode, o.emphasis@) { unimplemented!() }
}
impl DisplayTable {
    #[verifier::external_body]
    fn translate(&self, s: &str) -> (r: String) ensures r@ == shown(*self, s@) { unimplemented!() }
}
type Directions = EnumSet<Direction>;
@type test.rs CursorPosition derive=
@type test.rs ExpectedFailure derive=
@type test.rs Test derive=
@type test.rs TestResult derive=
@raw
#[verifier::external_body]
fn text_eq(a: &String, b: &String) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
fn own(a: &String) -> (r: String) ensures r@ == a@ { a.to_string() }

/// the test is meant to fail in this direction
spec fn meant_to_fail(x: ExpectedFailure, d: Direction) -> bool {
    match x { ExpectedFailure::Simple(v) => v, ExpectedFailure::Reason(_) => true, ExpectedFailure::Direction(s) => s@.contains(d) }
}
/// forward: what the table writes, shown; backward: what the table writes for the input as it is shown
spec fn outcome(t: Test, p: TranslationPipeline, v: DisplayTable, d: Direction) -> Seq<char> {
    match d {
        Direction::Forward => shown(v, written(p, t.input@, t.modes, t.emphasis@)),
        Direction::Backward => written(p, shown(v, t.input@), t.modes, t.emphasis@),
    }
}
spec fn verdict(r: TestResult, t: Test, o: Seq<char>, d: Direction) -> bool {
    let same = o == t.expected@;
    let fail = meant_to_fail(t.xfail, d);
    match r {
        TestResult::Success => same && !fail,
        TestResult::UnexpectedSuccess { input, direction } => same && fail && input@ == t.input@ && direction == d,
        TestResult::ExpectedFailure { input, expected, actual, direction } => !same && fail && input@ == t.input@ && expected@ == t.expected@ && actual@ == o && direction == d,
        TestResult::Failure { input, expected, actual, direction } => !same && !fail && input@ == t.input@ && expected@ == t.expected@ && actual@ == o && direction == d,
    }
}
@fn translator/options.rs TranslationOptions::with_mode ret=r
@spec
    ensures r == (TranslationOptions { mode: mode, ..self }),
@fn translator/options.rs TranslationOptions::with_emphasis ret=r
@spec
    ensures r == (TranslationOptions { emphasis: emphasis, ..self }),
@fn translator/options.rs TranslationOptions::emphasis ret=r
@subst & self . emphasis =>> self . emphasis . as_slice ( )
@spec
    ensures r@ == self.emphasis@,
@fn test.rs TestResult::is_success ret=r
@spec
    ensures r == (self is Success),
@fn test.rs TestResult::is_failure ret=r
@spec
    ensures r == (self is Failure),
@fn test.rs TestResult::is_expected_failure ret=r
@spec
    ensures r == (self is ExpectedFailure),
@fn test.rs TestResult::is_unexpected_success ret=r
@spec
    ensures r == (self is UnexpectedSuccess),
@fn test.rs ExpectedFailure::is_failure ret=r
@subst match & self =>> match self
@spec
    ensures r == meant_to_fail(*self, direction),
@fn test.rs Test::check ret=r
@subst self . emphasis . clone ( ) =>> spans_clone ( & self . emphasis )
@subst self . input . to_string ( ) =>> own ( & self . input )
@subst self . expected . to_string ( ) =>> own ( & self . expected )
@subst translated == self . expected =>> text_eq ( & translated , & self . expected )
@spec
    ensures verdict(r, *self, outcome(*self, *table, *display_table, direction), direction),
@fn test.rs Test::reverse ret=r
@spec
    ensures r == (Test { input: self.expected, expected: self.input, ..self }),
@type test.rs TestMode derive=
@type test.rs Display derive=
@type test.rs Table derive=
@type test.rs TestMatrix derive=
@raw
#[verifier::external_body]
pub struct PathBuf { e: u8 }
#[verifier::external_body]
pub struct Path { e: u8 }
#[verifier::external_body]
pub struct TableQuery { e: u8 }
#[verifier::external_body]
pub struct SearchPath { e: u8 }
#[verifier::external_body]
pub struct AnchoredRule { e: u8 }
#[verifier::external_body]
pub struct TableError { e: u8 }
#[verifier::external_body]
pub struct TestError { e: u8 }
impl From<Vec<TableError>> for TestError { #[verifier::external_body] fn from(e: Vec<TableError>) -> TestError { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<Vec<TableError>> for TestError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: Vec<TableError>) -> TestError { arbitrary() }
}
mod translator { use super::*; #[verifier::external_body] pub struct TranslationError { e: u8 } }
impl From<translator::TranslationError> for TestError { #[verifier::external_body] fn from(e: translator::TranslationError) -> TestError { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<translator::TranslationError> for TestError {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(e: translator::TranslationError) -> TestError { arbitrary() }
}
type Rules = Seq<AnchoredRule>;
/// the rules of a file with what it includes (includes.vs), of a text in memory; None: errors
pub uninterp spec fn of_file(p: PathBuf) -> Option<Seq<AnchoredRule>>;
pub uninterp spec fn of_text(t: Seq<char>) -> Option<Seq<AnchoredRule>>;
/// what the rules compile to (pipeline.vs, display.vs); None: errors
pub uninterp spec fn compiled(r: Seq<AnchoredRule>, d: Direction) -> Option<TranslationPipeline>;
pub uninterp spec fn display_of(r: Seq<AnchoredRule>, d: Direction) -> DisplayTable;
#[verifier::external_body]
fn rules_of_file(p: &PathBuf) -> (r: Result<Vec<AnchoredRule>, Vec<TableError>>) ensures r is Ok <==> of_file(*p) is Some, r is Ok ==> Some((r->Ok_0)@) == of_file(*p) { unimplemented!() }
/// `parser::table(text, None)?` and `parser::expand_includes(rules, &search_path, &[])?`
#[verifier::external_body]
fn rules_of_text(t: &String) -> (r: Result<Vec<AnchoredRule>, Vec<TableError>>) ensures r is Ok <==> of_text(t@) is Some, r is Ok ==> Some((r->Ok_0)@) == of_text(t@) { unimplemented!() }
#[verifier::external_body]
fn not_implemented() -> TestError { unimplemented!() }
impl TranslationPipeline {
    #[verifier::external_body]
    fn compile(r: &Vec<AnchoredRule>, d: Direction) -> (p: Result<TranslationPipeline, translator::TranslationError>) ensures p is Ok <==> compiled(r@, d) is Some, p is Ok ==> Some(p->Ok_0) == compiled(r@, d) { unimplemented!() }
}
impl DisplayTable {
    #[verifier::external_body]
    fn compile(r: &Vec<AnchoredRule>, d: Direction) -> (p: DisplayTable) ensures p == display_of(r@, d) { unimplemented!() }
}
#[verifier::external_body]
fn vec_extend<T>(v: &mut Vec<T>, w: Vec<T>) ensures final(v)@ == old(v)@ + w@ { v.extend(w) }
#[verifier::external_body]
fn copy_of(t: &Test) -> (r: Test) ensures r == *t { unimplemented!() }
/// the rules of several files one after the other
spec fn of_files(p: Seq<PathBuf>) -> Option<Rules> decreases p.len() {
    if p.len() == 0 { Some(seq![]) } else { match (of_files(p.drop_last()), of_file(p.last())) { (Some(a), Some(b)) => Some(a + b), _ => None } }
}
proof fn files_take(p: Seq<PathBuf>, i: int)
    requires 0 <= i < p.len(),
    ensures of_files(p.take(i + 1)) == (match (of_files(p.take(i)), of_file(p[i])) { (Some(a), Some(b)) => Some(a + b), _ => None::<Rules> }),
{ assert(p.take(i + 1).drop_last() =~= p.take(i)); }
proof fn files_bad(p: Seq<PathBuf>, i: int)
    requires 0 <= i < p.len(), of_file(p[i]) is None,
    ensures of_files(p) is None,
    decreases p.len()
{ if i < p.len() - 1 { files_bad(p.drop_last(), i); } }
spec fn rules_of(t: Table) -> Option<Rules> { match t { Table::Simple(p) => of_file(p), Table::List(v) => of_files(v@), Table::Inline(s) => of_text(s@), Table::Query(_) => None } }
spec fn display_rules(t: Option<Display>) -> Option<Rules> {
    match t { None => Some(seq![]), Some(Display::Simple(p)) => of_file(p), Some(Display::List(v)) => of_files(v@), Some(Display::Inline(s)) => of_text(s@) }
}
spec fn pipeline_of(t: Table, d: Direction) -> Option<TranslationPipeline> { match rules_of(t) { Some(r) => compiled(r, d), None => None } }
/// one verdict for each test, in their order
spec fn row(rs: Seq<TestResult>, ts: Seq<Test>, p: TranslationPipeline, v: DisplayTable, d: Direction) -> bool {
    rs.len() == ts.len() && forall|i: int| 0 <= i < rs.len() ==> verdict(#[trigger] rs[i], ts[i], outcome(ts[i], p, v, d), d)
}
/// for each table one verdict for each test
spec fn rows(rs: Seq<TestResult>, ts: Seq<Test>, tables: Seq<Table>, v: DisplayTable, d: Direction) -> bool decreases tables.len() {
    if tables.len() == 0 { rs.len() == 0 } else {
        let k = rs.len() - ts.len();
        k >= 0 && pipeline_of(tables.last(), d) is Some && row(rs.skip(k), ts, pipeline_of(tables.last(), d)->0, v, d) && rows(rs.take(k), ts, tables.drop_last(), v, d)
    }
}
proof fn rows_next(rs: Seq<TestResult>, new: Seq<TestResult>, ts: Seq<Test>, tables: Seq<Table>, i: int, v: DisplayTable, d: Direction)
    requires 0 <= i < tables.len(), rows(rs, ts, tables.take(i), v, d), pipeline_of(tables[i], d) is Some, row(new, ts, pipeline_of(tables[i], d)->0, v, d),
    ensures rows(rs + new, ts, tables.take(i + 1), v, d),
{
    assert(tables.take(i + 1).drop_last() =~= tables.take(i));
    assert((rs + new).skip(rs.len() as int) =~= new);
    assert((rs + new).take(rs.len() as int) =~= rs);
}
proof fn rows_none(ts: Seq<Test>, tables: Seq<Table>, v: DisplayTable, d: Direction)
    ensures rows(seq![], ts, tables.take(0), v, d),
{}
spec fn all_turned(ts: Seq<Test>) -> Seq<Test> { ts.map_values(|t: Test| turned(t)) }
spec fn turned(t: Test) -> Test { Test { input: t.expected, expected: t.input, ..t } }
/// everything that a set of tests asks for works
spec fn runs(m: TestMatrix, d: Direction) -> bool { display_rules(*m.display) is Some && forall|i: int| 0 <= i < m.tables@.len() ==> pipeline_of(#[trigger] m.tables@[i], d) is Some }
spec fn display_for(m: TestMatrix, d: Direction) -> DisplayTable { display_of(display_rules(*m.display)->0, d) }
spec fn half(rs: Seq<TestResult>, m: TestMatrix, ts: Seq<Test>, d: Direction) -> bool { runs(m, d) && rows(rs, ts, m.tables@, display_for(m, d), d) }
/// first the tests forward, then the turned tests backward
spec fn both(rs: Seq<TestResult>, m: TestMatrix) -> bool {
    exists|k: int| 0 <= k <= rs.len() && #[trigger] half(rs.take(k), m, m.tests@, Direction::Forward) && half(rs.skip(k), m, all_turned(m.tests@), Direction::Backward)
}
@fn test.rs TestMatrix::display_table ret=r loops=1 owned_iter
@subst let search_path = SearchPath :: new_or ( "LOUIS_TABLE_PATH" , "." ) ; =>>
@subst parser :: table_expanded ( path . as_path ( ) ) =>> rules_of_file ( path )
@subst parser :: table_expanded ( path ) =>> rules_of_file ( path )
@subst { let rules = parser :: table ( text , None ) ? ; parser :: expand_includes ( rules , & search_path , & [ ] ) ? } =>> { rules_of_text ( text ) ? }
@subst rules . extend ( rules_of_file ( path ) ? ) =>> { let more = rules_of_file ( path ) ? ; vec_extend ( & mut rules , more ) }
@subst in paths =>> in paths . iter ( )
@spec
    ensures r is Ok <==> display_rules(*self.display) is Some, r is Ok ==> r->Ok_0 == display_of(display_rules(*self.display)->0, direction),
@loop 0
    invariant __i0 <= paths@.len(), of_files(paths@.take(__i0 as int)) == Some(rules@), *self.display == Some(Display::List(*paths)),
    decreases paths@.len() - __i0,
@loop 0 start
    proof { files_take(paths@, __i0 as int); if of_file(paths@[__i0 as int]) is None { files_bad(paths@, __i0 as int); } }
@loop 0 post
    proof { assert(paths@.take(paths@.len() as int) =~= paths@); }
@fn test.rs TestMatrix::translation_table ret=r loops=1 owned_iter
@subst let search_path = SearchPath :: new_or ( "LOUIS_TABLE_PATH" , "." ) ; =>>
@subst parser :: table_expanded ( path . as_path ( ) ) =>> rules_of_file ( path )
@subst parser :: table_expanded ( path ) =>> rules_of_file ( path )
@subst { let rules = parser :: table ( text , None ) ? ; parser :: expand_includes ( rules , & search_path , & [ ] ) ? } =>> { rules_of_text ( text ) ? }
@subst rules . extend ( rules_of_file ( path ) ? ) =>> { let more = rules_of_file ( path ) ? ; vec_extend ( & mut rules , more ) }
@subst in paths =>> in paths . iter ( )
@subst TestError :: NotImplemented ( "Table queries" . to_string ( ) ) =>> not_implemented ( )
@spec
    ensures r is Ok <==> pipeline_of(*table, direction) is Some, r is Ok ==> Some(r->Ok_0) == pipeline_of(*table, direction),
@loop 0
    invariant __i0 <= paths@.len(), of_files(paths@.take(__i0 as int)) == Some(rules@), *table == Table::List(*paths),
    decreases paths@.len() - __i0,
@loop 0 start
    proof { files_take(paths@, __i0 as int); if of_file(paths@[__i0 as int]) is None { files_bad(paths@, __i0 as int); } }
@loop 0 post
    proof { assert(paths@.take(paths@.len() as int) =~= paths@); }
@fn test.rs TestMatrix::check ret=r loops=9 owned_iter vecextend attr=verifier::loop_isolation(false)
@subst option_env ! ( "LOUIS_TEST_FORWARD_ONLY" ) . is_none ( ) =>> true
@subst self . tests . par_iter ( ) =>> self . tests . iter ( )
@subst reversed . par_iter ( ) =>> reversed . iter ( )
@subst in self . tables =>> in self . tables . iter ( )
@subst self . tests . iter ( ) . cloned ( ) . map ( | t | t . reverse ( ) ) =>> self . tests . iter ( ) . map ( | t | copy_of ( t ) . reverse ( ) )
@spec
    ensures r is Ok ==> match *self.mode {
        TestMode::Forward => half((r->Ok_0)@, *self, self.tests@, Direction::Forward),
        TestMode::Backward => half((r->Ok_0)@, *self, self.tests@, Direction::Backward),
        TestMode::BothDirections => both((r->Ok_0)@, *self),
        _ => (r->Ok_0)@.len() == 0,
    },
        r is Err ==> match *self.mode {
            TestMode::Forward => !runs(*self, Direction::Forward),
            TestMode::Backward => !runs(*self, Direction::Backward),
            TestMode::BothDirections => !runs(*self, Direction::Forward) || !runs(*self, Direction::Backward),
            _ => false,
        },
@entry
    hide(verdict); hide(outcome); hide(rows); hide(pipeline_of); hide(display_rules); hide(meant_to_fail);
@loop 0 pre
    proof { rows_none(self.tests@, self.tables@, display_for(*self, Direction::Forward), Direction::Forward); assert(results@ =~= seq![]); }
@loop 0
    invariant __i0 <= self.tables@.len(), display_rules(*self.display) is Some, display_table == display_for(*self, Direction::Forward),
        forall|j: int| 0 <= j < __i0 ==> pipeline_of(#[trigger] self.tables@[j], Direction::Forward) is Some,
        rows(results@, self.tests@, self.tables@.take(__i0 as int), display_for(*self, Direction::Forward), Direction::Forward),
    decreases self.tables@.len() - __i0,
@loop 0 start
    let ghost before = results@;
@loop 0 end
    proof {
        let new = results@.skip(before.len() as int);
        assert(results@ =~= before + new);
        rows_next(before, new, self.tests@, self.tables@, __i0 - 1, display_for(*self, Direction::Forward), Direction::Forward);
    }
@loop 0 post
    proof { assert(self.tables@.take(self.tables@.len() as int) =~= self.tables@); assert(half(results@, *self, self.tests@, Direction::Forward)); }
@loop 1
    invariant __i1 <= self.tests@.len(), __acc1@.len() == __i1, display_table == display_for(*self, Direction::Forward),
        forall|i: int| 0 <= i < __i1 ==> verdict(#[trigger] __acc1@[i], self.tests@[i], outcome(self.tests@[i], table, display_table, Direction::Forward), Direction::Forward),
    decreases self.tests@.len() - __i1,
@loop 2 pre
    proof { rows_none(self.tests@, self.tables@, display_for(*self, Direction::Backward), Direction::Backward); assert(results@ =~= seq![]); }
@loop 2
    invariant __i2 <= self.tables@.len(), display_rules(*self.display) is Some, display_table == display_for(*self, Direction::Backward),
        forall|j: int| 0 <= j < __i2 ==> pipeline_of(#[trigger] self.tables@[j], Direction::Backward) is Some,
        rows(results@, self.tests@, self.tables@.take(__i2 as int), display_for(*self, Direction::Backward), Direction::Backward),
    decreases self.tables@.len() - __i2,
@loop 2 start
    let ghost before = results@;
@loop 2 end
    proof {
        let new = results@.skip(before.len() as int);
        assert(results@ =~= before + new);
        rows_next(before, new, self.tests@, self.tables@, __i2 - 1, display_for(*self, Direction::Backward), Direction::Backward);
    }
@loop 2 post
    proof { assert(self.tables@.take(self.tables@.len() as int) =~= self.tables@); assert(half(results@, *self, self.tests@, Direction::Backward)); }
@loop 3
    invariant __i3 <= self.tests@.len(), __acc3@.len() == __i3, display_table == display_for(*self, Direction::Backward),
        forall|i: int| 0 <= i < __i3 ==> verdict(#[trigger] __acc3@[i], self.tests@[i], outcome(self.tests@[i], table, display_table, Direction::Backward), Direction::Backward),
    decreases self.tests@.len() - __i3,
@loop 4 pre
    proof { rows_none(self.tests@, self.tables@, display_for(*self, Direction::Forward), Direction::Forward); assert(results@ =~= seq![]); }
@loop 4
    invariant __i4 <= self.tables@.len(), display_rules(*self.display) is Some, display_table == display_for(*self, Direction::Forward),
        forall|j: int| 0 <= j < __i4 ==> pipeline_of(#[trigger] self.tables@[j], Direction::Forward) is Some,
        rows(results@, self.tests@, self.tables@.take(__i4 as int), display_for(*self, Direction::Forward), Direction::Forward),
    decreases self.tables@.len() - __i4,
@loop 4 start
    let ghost before = results@;
@loop 4 end
    proof {
        let new = results@.skip(before.len() as int);
        assert(results@ =~= before + new);
        rows_next(before, new, self.tests@, self.tables@, __i4 - 1, display_for(*self, Direction::Forward), Direction::Forward);
    }
@loop 4 post
    proof { assert(self.tables@.take(self.tables@.len() as int) =~= self.tables@); assert(half(results@, *self, self.tests@, Direction::Forward)); }
@loop 5
    invariant __i5 <= self.tests@.len(), __acc5@.len() == __i5, display_table == display_for(*self, Direction::Forward),
        forall|i: int| 0 <= i < __i5 ==> verdict(#[trigger] __acc5@[i], self.tests@[i], outcome(self.tests@[i], table, display_table, Direction::Forward), Direction::Forward),
    decreases self.tests@.len() - __i5,
@loop 6
    invariant __i6 <= self.tests@.len(), __acc6@ =~= all_turned(self.tests@.take(__i6 as int)),
    decreases self.tests@.len() - __i6,
@before let reversed
    let ghost __k: nat = results@.len();
    proof { assert(results@.take(__k as int) =~= results@); }
@loop 7 pre
    proof { rows_none(all_turned(self.tests@), self.tables@, display_for(*self, Direction::Backward), Direction::Backward); assert(results@.skip(__k as int) =~= seq![]); }
@loop 7
    invariant __i7 <= self.tables@.len(), display_rules(*self.display) is Some, display_table == display_for(*self, Direction::Backward), __k <= results@.len(), half(results@.take(__k as int), *self, self.tests@, Direction::Forward), reversed@ =~= all_turned(self.tests@),
        forall|j: int| 0 <= j < __i7 ==> pipeline_of(#[trigger] self.tables@[j], Direction::Backward) is Some,
        rows(results@.skip(__k as int), all_turned(self.tests@), self.tables@.take(__i7 as int), display_for(*self, Direction::Backward), Direction::Backward),
    decreases self.tables@.len() - __i7,
@loop 7 start
    let ghost before = results@;
@loop 7 end
    proof {
        let new = results@.skip(before.len() as int);
        assert(results@ =~= before + new);
        rows_next(before.skip(__k as int), new, all_turned(self.tests@), self.tables@, __i7 - 1, display_for(*self, Direction::Backward), Direction::Backward); assert(results@.skip(__k as int) =~= before.skip(__k as int) + new); assert(results@.take(__k as int) =~= before.take(__k as int));
    }
@loop 7 post
    proof { assert(self.tables@.take(self.tables@.len() as int) =~= self.tables@); assert(half(results@.skip(__k as int), *self, all_turned(self.tests@), Direction::Backward)); assert(0 <= __k <= results@.len()); assert(both(results@, *self)); }
@loop 8
    invariant __i8 <= reversed@.len(), __acc8@.len() == __i8, display_table == display_for(*self, Direction::Backward),
        forall|i: int| 0 <= i < __i8 ==> verdict(#[trigger] __acc8@[i], all_turned(self.tests@)[i], outcome(all_turned(self.tests@)[i], table, display_table, Direction::Backward), Direction::Backward),
    decreases reversed@.len() - __i8,
