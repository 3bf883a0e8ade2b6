@include includes.vs
@raw
spec fn env_path() -> SearchPath { env_or("LOUIS_TABLE_PATH"@, "."@) }
uninterp spec fn env_or(v: Seq<char>, d: Seq<char>) -> SearchPath;
impl SearchPath {
    #[verifier::external_body]
    fn new_or(v: &str, d: &str) -> (r: SearchPath) ensures r == env_or(v@, d@) { unimplemented!() }
}
#[verifier::external_body]
fn no_chain<'a>() -> (r: &'a [PathBuf]) ensures r@ == Seq::<PathBuf>::empty() { &[] }
@fn parser.rs table_expanded
@subst &[] =>> no_chain()
@spec
    ensures same(r, file_rules(env_path(), *file, seq![])),
@raw
// ---- the public translator ----
mod translator {
    #[verifier::external_body]
    pub struct TranslationError { id: usize }
}
mod parser { pub(crate) use super::{Rule, TableError}; }
#[verifier::external_body]
struct TranslationPipeline { id: usize }
@type parser.rs Direction attr=derive(PartialEq,Eq,Structural,Clone,Copy)
@raw
uninterp spec fn pipeline(r: Seq<AnchoredRule>, d: Direction) -> Result<TranslationPipeline, translator::TranslationError>;
impl TranslationPipeline {
    #[verifier::external_body]
    fn compile(rules: &[AnchoredRule], direction: Direction) -> (r: Result<TranslationPipeline, translator::TranslationError>) ensures r == pipeline(rules@, direction) { unimplemented!() }
}
@type lib.rs TranslationError derive=
@type lib.rs Translator derive=
@raw
/// `TranslationError::from`
#[verifier::external_body]
fn failed<X>(r: Result<X, translator::TranslationError>) -> (x: Result<X, TranslationError>)
    ensures r is Ok ==> x == Ok::<X, TranslationError>(r->Ok_0), r is Err ==> x == Err::<X, TranslationError>(TranslationError::TranslationFailed(r->Err_0)),
{ unimplemented!() }
fn vec_append<X>(v: &mut Vec<X>, w: Vec<X>) ensures final(v)@ == old(v)@ + w@ { flatten_into(v, w) }
/// the rules of several files, the first n
spec fn files(t: Seq<PathBuf>, n: int) -> Rules decreases n {
    if n <= 0 { Ok(seq![]) } else {
        match files(t, n - 1) {
            Ok(a) => match file_rules(env_path(), t[n - 1], seq![]) { Ok(b) => Ok(a + b), Err(e) => Err(e) },
            Err(e) => Err(e),
        }
    }
}
/// the first file that cannot be read decides
proof fn files_err(t: Seq<PathBuf>, n: int, m: int)
    requires 0 <= n <= m, files(t, n) is Err,
    ensures files(t, m) == files(t, n),
    decreases m - n,
{ if n < m { files_err(t, n, m - 1); } }
/// errors of reading or of compiling the rules, or the translator for the rules
spec fn built(r: Result<Translator, TranslationError>, rules: Rules, d: Direction) -> bool {
    match rules {
        Err(e) => r is Err && r->Err_0 is ParseFailed && r->Err_0->ParseFailed_0@ =~= e,
        Ok(rs) => match pipeline(rs, d) {
            Err(e) => r is Err && r->Err_0 == TranslationError::TranslationFailed(e),
            Ok(p) => r is Ok && r->Ok_0.0 == p,
        },
    }
}
@fn lib.rs Translator::new loops=1 resmap
@sig fn new(tables: &[PathBuf], direction: Direction) -> (r: Result<Translator, TranslationError>)
@subst in tables =>> in tables.iter()
@subst table_path.as_ref() =>> table_path
@subst parser::table_expanded(path) =>> table_expanded(path)
@subst all_rules.extend(rules) =>> vec_append(&mut all_rules, rules)
@subst Ok(Self(TranslationPipeline::compile(&all_rules, direction)?)) =>> Ok(Self(failed(TranslationPipeline::compile(&all_rules, direction))?))
@spec
    ensures built(r, files(tables@, tables@.len() as int), direction),
@loop 0
    invariant __i0 <= tables@.len(), files(tables@, __i0 as int) == Ok::<Seq<AnchoredRule>, Seq<TableError>>(all_rules@),
    decreases tables@.len() - __i0,
@loop 0 start
    proof { if files(tables@, __i0 + 1) is Err { files_err(tables@, __i0 + 1, tables@.len() as int); } }
@fn lib.rs Translator::from_table_source loops=1 resmap
@subst parser::table(table, None) =>> read_table(table, None)
@spec
    ensures built(r, match table_of(table@, None) {
        Err(e) => Err(e),
        Ok(rs) => if exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).rule is Include { Err(seq![TableError::IncludesNotSupportedInMemory]) } else { Ok(rs) },
    }, direction),
@subst Ok(Self(TranslationPipeline::compile(&rules, direction)?)) =>> Ok(Self(failed(TranslationPipeline::compile(&rules, direction))?))
@loop 0
    invariant_except_break !__acc0, __i0 <= rules@.len(), forall|i: int| 0 <= i < __i0 ==> !((#[trigger] rules@[i]).rule is Include),
    ensures __acc0 == (exists|i: int| 0 <= i < rules@.len() && (#[trigger] rules@[i]).rule is Include),
    decreases rules@.len() - __i0,
