@include common.vs
@raw
// ---- stand-ins: paths, files and the parser of one line (C02, C08, C22, C29 cover parts of it) ----
#[verifier::external_body]
struct PathBuf { id: usize }
impl Clone for PathBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
fn path_clone(p: &Option<PathBuf>) -> (r: Option<PathBuf>) ensures r == *p { p.clone() }
#[verifier::external_body]
struct ParseError { id: usize }
mod io {
    #[verifier::external_body]
    pub struct Error { id: usize }
}
@type parser.rs Rule derive= keep=Include,IncludeHyphenation
@type parser.rs AnchoredRule derive=
@type parser.rs TableError derive=
@raw
uninterp spec fn parsed(line: Seq<char>) -> Result<Rule, ParseError>;
#[verifier::external_body]
struct RuleParser<'a> { l: &'a str }
impl<'a> RuleParser<'a> {
    uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    fn new(line: &'a str) -> (r: RuleParser<'a>) ensures r@ == line@ { unimplemented!() }
    #[verifier::external_body]
    fn rule(self) -> (r: Result<Rule, ParseError>) ensures r == parsed(self@) { unimplemented!() }
}
// ---- trusted: std ----
/// the lines of a text: what is between the line feeds, without a carriage return in front of one
spec fn lines(t: Seq<char>) -> Seq<Seq<char>> decreases t.len() {
    if t.len() == 0 { seq![] } else {
        match t.index_of_first('\n') {
            Some(i) if 0 <= i < t.len() => seq![if i > 0 && t[i - 1] == '\r' { t.take(i - 1) } else { t.take(i) }] + lines(t.skip(i + 1)),
            _ => seq![t],
        }
    }
}
#[verifier::external_body]
fn str_lines(t: &str) -> (r: Vec<&str>) ensures r@.len() == lines(t@).len(), r@.len() < usize::MAX, forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == lines(t@)[i] { t.lines().collect() }
uninterp spec fn white(c: char) -> bool;
spec fn unindented(l: Seq<char>) -> Seq<char> decreases l.len() { if l.len() == 0 || !white(l[0]) { l } else { unindented(l.skip(1)) } }
/// `l.trim().starts_with(c)`, for a c that is not white space
#[verifier::external_body]
fn trimmed_starts_with(l: &str, c: char) -> (r: bool) ensures r == (unindented(l@).len() > 0 && unindented(l@)[0] == c) { l.trim().starts_with(c) }
#[verifier::external_body]
fn trimmed_is_empty(l: &str) -> (r: bool) ensures r == (unindented(l@).len() == 0) { l.trim().is_empty() }

// ---- a table, line by line ----
/// empty lines and comments say nothing
spec fn silent(l: Seq<char>) -> bool { unindented(l).len() == 0 || unindented(l)[0] == '#' }
type Line = Result<AnchoredRule, TableError>;
/// what line i of a table says
spec fn reading(l: Seq<char>, path: Option<PathBuf>, i: int) -> Line {
    match parsed(l) {
        Ok(rule) => Ok(AnchoredRule { rule, path, line: (i + 1) as usize }),
        Err(error) => Err(TableError::ParseError { path, line: (i + 1) as usize, error }),
    }
}
spec fn readings(l: Seq<Seq<char>>, path: Option<PathBuf>) -> Seq<Line> decreases l.len() {
    if l.len() == 0 { seq![] }
    else if silent(l.last()) { readings(l.drop_last(), path) }
    else { readings(l.drop_last(), path).push(reading(l.last(), path, l.len() - 1)) }
}
proof fn readings_take(l: Seq<Seq<char>>, path: Option<PathBuf>, i: int)
    requires 0 <= i < l.len(),
    ensures readings(l.take(i + 1), path) == (if silent(l[i]) { readings(l.take(i), path) } else { readings(l.take(i), path).push(reading(l[i], path, i)) }),
{ assert(l.take(i + 1).drop_last() =~= l.take(i)); }
spec fn oks<A, E>(s: Seq<Result<A, E>>) -> Seq<A> decreases s.len() {
    if s.len() == 0 { seq![] } else { match s.last() { Ok(a) => oks(s.drop_last()).push(a), Err(_) => oks(s.drop_last()) } }
}
spec fn errs<A, E>(s: Seq<Result<A, E>>) -> Seq<E> decreases s.len() {
    if s.len() == 0 { seq![] } else { match s.last() { Ok(_) => errs(s.drop_last()), Err(e) => errs(s.drop_last()).push(e) } }
}
/// the rules of a table in order, or all of its errors in order
spec fn table_of(t: Seq<char>, path: Option<PathBuf>) -> Result<Seq<AnchoredRule>, Seq<TableError>> {
    let r = readings(lines(t), path);
    if errs(r).len() == 0 { Ok(oks(r)) } else { Err(errs(r)) }
}
/// s is a vector of values / of errors
spec fn all_ok<A, E>(s: Seq<Result<A, E>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok }
spec fn all_err<A, E>(s: Seq<Result<A, E>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Err }
spec fn okv<A, E>(s: Seq<Result<A, E>>) -> Seq<A> { s.map_values(|x: Result<A, E>| x->Ok_0) }
spec fn errv<A, E>(s: Seq<Result<A, E>>) -> Seq<E> { s.map_values(|x: Result<A, E>| x->Err_0) }
spec fn same<A, E>(r: Result<Vec<A>, Vec<E>>, s: Result<Seq<A>, Seq<E>>) -> bool {
    match (r, s) { (Ok(a), Ok(b)) => a@ =~= b, (Err(a), Err(b)) => a@ =~= b, _ => false }
}
#[verifier::external_body]
fn get_ok<A, E>(r: Result<A, E>) -> (v: A) requires r is Ok, ensures v == r->Ok_0 { unimplemented!() }
#[verifier::external_body]
fn get_err<A, E>(r: Result<A, E>) -> (v: E) requires r is Err, ensures v == r->Err_0 { unimplemented!() }
#[verifier::external_body]
fn is_ok<A, E>(r: &Result<A, E>) -> (v: bool) ensures v == (r is Ok) { r.is_ok() }
@fn parser.rs table loops=3 name=read_table owned_iter vecsrc=str_lines(table) okmap resmap
@subst table.lines() =>> str_lines(table)
@subst line.trim().starts_with('#') =>> trimmed_starts_with(line, '#')
@subst line.trim().is_empty() =>> trimmed_is_empty(line)
@subst path.clone() =>> path_clone(&path)
@subst Result::unwrap =>> get_ok
@subst Result::unwrap_err =>> get_err
@subst Result::is_ok =>> is_ok
@spec
    ensures same(r, table_of(table@, path)),
@entry
    let ghost ls = lines(table@);
    let ghost rd = readings(ls, path);
@loop 0
    invariant
        __i0 <= __s0@.len(), __s0@.len() < usize::MAX, __s0@.len() == ls.len(), forall|i: int| 0 <= i < __s0@.len() ==> (#[trigger] __s0@[i])@ == ls[i],
        all_ok(__a0@), all_err(__b0@),
        okv(__a0@) == oks(readings(ls.take(__i0 as int), path)),
        errv(__b0@) == errs(readings(ls.take(__i0 as int), path)),
    decreases __s0@.len() - __i0,
@loop 0 pre
    proof { assert(okv(Seq::<Line>::empty()) =~= Seq::<AnchoredRule>::empty()); assert(errv(Seq::<Line>::empty()) =~= Seq::<TableError>::empty()); }
@loop 0 start
    let ghost (a0, b0, i0, d0) = (__a0@, __b0@, __i0 as int, readings(ls.take(__i0 as int), path));
    proof { readings_take(ls, path, __i0 as int); }
@loop 0 end
    proof {
        let x = reading(ls[i0], path, i0);
        assert(d0.push(x).drop_last() =~= d0);
        if x is Ok { assert(okv(a0.push(x)) =~= okv(a0).push(x->Ok_0)); } else { assert(errv(b0.push(x)) =~= errv(b0).push(x->Err_0)); }
    }
@loop 0 post
    proof { assert(ls.take(ls.len() as int) =~= ls); }
@loop 1
    invariant __i1 <= __s1@.len(), all_ok(__s1@), okv(__s1@) == oks(rd), __acc1@ == oks(rd).take(__i1 as int),
    decreases __s1@.len() - __i1,
@loop 1 pre
    proof { assert(oks(rd).take(0) =~= Seq::<AnchoredRule>::empty()); }
@loop 1 end
    proof { assert(oks(rd).take(__i1 as int) =~= oks(rd).take(__i1 - 1).push(oks(rd)[__i1 - 1])); }
@loop 1 post
    proof { assert(oks(rd).take(oks(rd).len() as int) =~= oks(rd)); }
@loop 2
    invariant __i2 <= __s2@.len(), all_err(__s2@), errv(__s2@) == errs(rd), __acc2@ == errs(rd).take(__i2 as int),
    decreases __s2@.len() - __i2,
@loop 2 pre
    proof { assert(errs(rd).take(0) =~= Seq::<TableError>::empty()); }
@loop 2 end
    proof { assert(errs(rd).take(__i2 as int) =~= errs(rd).take(__i2 - 1).push(errs(rd)[__i2 - 1])); }
@loop 2 post
    proof { assert(errs(rd).take(errs(rd).len() as int) =~= errs(rd)); }
