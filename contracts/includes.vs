@include table_lines.vs
@raw
// ---- trusted: the file system, which does not change while a table is read ----
type Path = PathBuf;
#[verifier::external_body]
struct SearchPath { id: usize }
uninterp spec fn found(s: SearchPath, file: Path) -> Option<PathBuf>;
uninterp spec fn canonical_path(p: PathBuf) -> Result<PathBuf, io::Error>;
uninterp spec fn content(p: PathBuf) -> Result<String, io::Error>;
uninterp spec fn named(s: Seq<char>) -> Path;
uninterp spec fn is_dic(p: Path) -> bool;
#[verifier::external_body]
fn read_to_string(p: &Path) -> (r: Result<String, io::Error>) ensures r == content(*p) { unimplemented!() }
impl SearchPath {
    #[verifier::external_body]
    fn find_file(&self, p: &Path) -> (r: Option<PathBuf>) ensures r == found(*self, *p) { unimplemented!() }
}
impl PathBuf {
    #[verifier::external_body]
    fn canonicalize(&self) -> (r: Result<PathBuf, io::Error>) ensures r == canonical_path(*self) { unimplemented!() }
    fn as_path(&self) -> (r: &Path) ensures *r == *self { self }
}
#[verifier::external_body]
fn path_named(s: &String) -> (r: &Path) ensures *r == named(s@) { unimplemented!() }
#[verifier::external_body]
fn has_dic_extension(p: &Path) -> (r: bool) ensures r == is_dic(*p) { unimplemented!() }
#[verifier::external_body]
fn chain_has(c: &[PathBuf], p: &PathBuf) -> (r: bool) ensures r == c@.contains(*p) { unimplemented!() }
#[verifier::external_body]
fn chain_copy(c: &[PathBuf]) -> (r: Vec<PathBuf>) ensures r@ == c@ { unimplemented!() }
/// `acc.extend(v)`
#[verifier::external_body]
fn flatten_into<X>(acc: &mut Vec<X>, v: Vec<X>) ensures final(acc)@ == old(acc)@ + v@ { acc.extend(v) }
@const parser.rs MAX_INCLUDE_DEPTH
@raw
// ---- what a table with includes stands for ----
type Rules = Result<Seq<AnchoredRule>, Seq<TableError>>;
/// an error list with one error; chains are compared by content
spec fn left(chain: Seq<PathBuf>) -> nat { if chain.len() < 64 { (64 - chain.len()) as nat } else { 0 } }
uninterp spec fn vec_of(s: Seq<PathBuf>) -> Vec<PathBuf>;
/// a vector is its items
#[verifier::external_body]
proof fn vec_of_items(v: Vec<PathBuf>) ensures vec_of(v@) == v {}
spec fn file_rules(s: SearchPath, file: Path, chain: Seq<PathBuf>) -> Rules decreases left(chain), 0int, 0nat {
    match found(s, file) {
        None => Err(seq![TableError::TableNotFound(file)]),
        Some(p) => match canonical_path(p) {
            Err(e) => Err(seq![TableError::TableNotReadable(e)]),
            Ok(c) =>
                if chain.len() >= 64 { Err(seq![TableError::IncludeTooDeep(64)]) }
                // a table that is being read already
                else if chain.contains(c) { Err(seq![TableError::CircularInclude(vec_of(chain.push(c)))]) }
                else { match text_rules(p) { Ok(r) => included(s, r, chain.push(c)), Err(e) => Err(e) } },
        },
    }
}
/// the lines of one file
spec fn text_rules(p: PathBuf) -> Rules {
    match content(p) { Err(e) => Err(seq![TableError::TableNotReadable(e)]), Ok(t) => table_of(t@, Some(p)) }
}
/// an include stands for the rules of its file, a dictionary for its place; everything else for itself
spec fn one_rule(s: SearchPath, r: AnchoredRule, chain: Seq<PathBuf>) -> Rules decreases left(chain), 1int, 0nat {
    match r.rule {
        Rule::Include { file } =>
            if is_dic(named(file@)) {
                match found(s, named(file@)) {
                    None => Err(seq![TableError::HyphenationTableNotFound(named(file@))]),
                    Some(path) => Ok(seq![AnchoredRule { rule: Rule::IncludeHyphenation { path }, path: r.path, line: r.line }]),
                }
            } else { file_rules(s, named(file@), chain) },
        _ => Ok(seq![r]),
    }
}
/// the rules, in order, or the errors of all files, in order
spec fn all_rules(s: SearchPath, r: Seq<AnchoredRule>, chain: Seq<PathBuf>) -> Seq<AnchoredRule> decreases left(chain), 2int, r.len() {
    if r.len() == 0 { seq![] } else {
        match one_rule(s, r.last(), chain) { Ok(x) => all_rules(s, r.drop_last(), chain) + x, Err(_) => all_rules(s, r.drop_last(), chain) }
    }
}
spec fn all_errors(s: SearchPath, r: Seq<AnchoredRule>, chain: Seq<PathBuf>) -> Seq<TableError> decreases left(chain), 2int, r.len() {
    if r.len() == 0 { seq![] } else {
        match one_rule(s, r.last(), chain) { Ok(_) => all_errors(s, r.drop_last(), chain), Err(x) => all_errors(s, r.drop_last(), chain) + x }
    }
}
spec fn included(s: SearchPath, r: Seq<AnchoredRule>, chain: Seq<PathBuf>) -> Rules decreases left(chain), 3int, 0nat {
    if all_errors(s, r, chain).len() == 0 { Ok(all_rules(s, r, chain)) } else { Err(all_errors(s, r, chain)) }
}
@fn parser.rs table_file resmap
@subst table(&text, Some(path.into())) =>> read_table(&text, Some(path.clone()))
@spec
    ensures same(r, text_rules(*path)),
@fn parser.rs table_expanded_with resmap resandthen
@subst chain.contains(&canonical) =>> chain_has(chain, &canonical)
@subst chain.to_vec() =>> chain_copy(chain)
@subst file.into() =>> file.clone()
@spec
    ensures same(r, file_rules(*search_path, *file, chain@)),
    decreases left(chain@), 0int, 0nat
@before return Err(vec![TableError::CircularInclude(cycle)])
    proof { vec_of_items(cycle); }
@fn parser.rs AnchoredRule::new
@spec
    ensures r == (AnchoredRule { rule, path, line }),
@fn parser.rs expand_include
@subst Path::new(file) =>> path_named(file)
@subst path.extension().and_then(OsStr::to_str) == Some("dic") =>> has_dic_extension(path)
@subst path.into() =>> path.clone()
@spec
    ensures same(r, one_rule(*search_path, rule, chain@)),
    decreases left(chain@), 1int, 0nat
@raw
type Part = Result<Vec<AnchoredRule>, Vec<TableError>>;
spec fn cat_ok(s: Seq<Part>) -> Seq<AnchoredRule> decreases s.len() { if s.len() == 0 { seq![] } else { cat_ok(s.drop_last()) + s.last()->Ok_0@ } }
spec fn cat_err(s: Seq<Part>) -> Seq<TableError> decreases s.len() { if s.len() == 0 { seq![] } else { cat_err(s.drop_last()) + s.last()->Err_0@ } }
proof fn cat_push(s: Seq<Part>, x: Part)
    ensures cat_ok(s.push(x)) == cat_ok(s) + x->Ok_0@, cat_err(s.push(x)) == cat_err(s) + x->Err_0@,
{ assert(s.push(x).drop_last() =~= s); }
@fn parser.rs expand_includes loops=3 owned_iter flatvec
@subst Result::unwrap =>> get_ok
@subst Result::unwrap_err =>> get_err
@subst Result::is_ok =>> is_ok
@spec
    ensures same(r, included(*search_path, rules@, chain@)),
    decreases left(chain@), 3int, 0nat
@entry
    let ghost rs = rules@;
    let ghost (sp, ch) = (*search_path, chain@);
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == rs, sp == *search_path, ch == chain@, all_ok(__a0@), all_err(__b0@),
        cat_ok(__a0@) == all_rules(sp, rs.take(__i0 as int), ch), cat_err(__b0@) == all_errors(sp, rs.take(__i0 as int), ch),
    decreases __s0@.len() - __i0,
@loop 0 start
    let ghost (a0, b0) = (__a0@, __b0@);
    proof { assert(rs.take(__i0 + 1).drop_last() =~= rs.take(__i0 as int)); }
@loop 0 end
    proof { if __y0 is Ok { cat_push(a0, __y0); } else { cat_push(b0, __y0); } }
@loop 0 post
    proof { assert(rs.take(rs.len() as int) =~= rs); }
@loop 1
    invariant __i1 <= __s1@.len(), all_ok(__s1@), cat_ok(__s1@) == all_rules(sp, rs, ch), __acc1@ == cat_ok(__s1@.take(__i1 as int)),
    decreases __s1@.len() - __i1,
@loop 1 start
    proof { assert(__s1@.take(__i1 + 1).drop_last() =~= __s1@.take(__i1 as int)); }
@loop 1 post
    proof { assert(__s1@.take(__s1@.len() as int) =~= __s1@); }
@loop 2
    invariant __i2 <= __s2@.len(), all_err(__s2@), cat_err(__s2@) == all_errors(sp, rs, ch), __acc2@ == cat_err(__s2@.take(__i2 as int)),
    decreases __s2@.len() - __i2,
@loop 2 start
    proof { assert(__s2@.take(__i2 + 1).drop_last() =~= __s2@.take(__i2 as int)); }
@loop 2 post
    proof { assert(__s2@.take(__s2@.len() as int) =~= __s2@); }
