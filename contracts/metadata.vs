@include common.vs
@raw
#[verifier::external_body]
pub struct PathBuf { e: u8 }
/// stands for `HashSet<PathBuf>`
#[verifier::external_body]
pub struct FileSet { e: u8 }
impl FileSet {
    pub uninterp spec fn view(&self) -> Set<PathBuf>;
    #[verifier::external_body]
    fn contains(&self, p: &PathBuf) -> (r: bool) ensures r == self@.contains(*p) { unimplemented!() }
    #[verifier::external_body]
    fn members(&self) -> (r: &Vec<PathBuf>) ensures forall|p: PathBuf| self@.contains(p) <==> #[trigger] r@.contains(p) { unimplemented!() }
}
type Query = Vec<(String, String)>;
/// stands for `HashMap<(String, String), HashSet<PathBuf>>`
#[verifier::external_body]
pub struct Index { e: u8 }
impl Index {
    pub uninterp spec fn view(&self) -> Map<(Seq<char>, Seq<char>), Set<PathBuf>>;
    #[verifier::external_body]
    fn get(&self, k: &(String, String)) -> (r: Option<&FileSet>)
        ensures r is Some <==> self@.contains_key((k.0@, k.1@)), r is Some ==> (r->0)@ == self@[(k.0@, k.1@)] { unimplemented!() }
}
fn flatten_into<'a>(v: &mut Vec<&'a FileSet>, x: &Option<&'a FileSet>) ensures final(v)@ == (match *x { Some(s) => old(v)@.push(s), None => old(v)@ })
{ if let Some(s) = x { v.push(*s); } }
#[verifier::external_body]
fn tail<'a, 'b>(v: &'b Vec<&'a FileSet>) -> (r: &'b [&'a FileSet]) requires v@.len() > 0, ensures r@ == v@.skip(1) { unimplemented!() }
/// the file carries this value
spec fn carries(ix: Index, p: PathBuf, q: (String, String)) -> bool { ix@.contains_key((q.0@, q.1@)) && ix@[(q.0@, q.1@)].contains(p) }
spec fn carries_all(ix: Index, p: PathBuf, q: Seq<(String, String)>) -> bool { forall|i: int| 0 <= i < q.len() ==> carries(ix, p, #[trigger] q[i]) }
spec fn among(v: Seq<&PathBuf>, p: PathBuf) -> bool { exists|j: int| 0 <= j < v.len() && *(#[trigger] v[j]) == p }
spec fn before(v: Seq<PathBuf>, n: int, p: PathBuf) -> bool { exists|j: int| 0 <= j < n && (#[trigger] v[j]) == p }
proof fn among_push(v: Seq<&PathBuf>, x: &PathBuf)
    ensures forall|p: PathBuf| #[trigger] among(v.push(x), p) <==> among(v, p) || p == *x,
{
    assert forall|p: PathBuf| #[trigger] among(v.push(x), p) <==> among(v, p) || p == *x by {
        if among(v, p) { let j = choose|j: int| 0 <= j < v.len() && *(#[trigger] v[j]) == p; assert(*v.push(x)[j] == p); }
        assert(*v.push(x)[v.len() as int] == *x);
    }
}
proof fn before_next(v: Seq<PathBuf>, n: int)
    requires 0 <= n < v.len(),
    ensures forall|p: PathBuf| #[trigger] before(v, n + 1, p) <==> before(v, n, p) || p == v[n],
{}
spec fn found(ix: Index, q: (String, String), c: Option<&FileSet>) -> bool {
    (c is Some <==> ix@.contains_key((q.0@, q.1@))) && (c is Some ==> (c->0)@ == ix@[(q.0@, q.1@)])
}
@fn metadata.rs find ret=r loops=5
@sig fn find<'a>(index: &'a Index, query: Query) -> (r: Vec<&'a PathBuf>)
@subst query . into_iter ( ) . map ( | ( k , v ) | index . get ( & ( k , v ) ) ) =>> query . iter ( ) . map ( | e | index . get ( e ) )
@subst HashSet :: new ( ) =>> Vec :: new ( )
@subst candidates [ 0 ] . iter ( ) =>> candidates [ 0 ] . members ( ) . iter ( )
@subst candidates [ 1 .. ] . iter ( ) =>> tail ( & candidates ) . iter ( )
@spec
    requires query@.len() > 0,
    ensures forall|p: PathBuf| carries_all(*index, p, query@) <==> among(r@, p),
@loop 0
    invariant __i0 <= query@.len(), __acc0@.len() == __i0, forall|i: int| 0 <= i < __i0 ==> found(*index, query@[i], #[trigger] __acc0@[i]),
    decreases query@.len() - __i0,
@loop 1
    invariant_except_break !__acc1,
    invariant __i1 <= candidates@.len(), !__acc1 ==> forall|i: int| 0 <= i < __i1 ==> (#[trigger] candidates@[i]) is Some,
    ensures __acc1 <==> exists|i: int| 0 <= i < candidates@.len() && (#[trigger] candidates@[i]) is None,
    decreases candidates@.len() - __i1,
@loop 2 pre
    let ghost all = candidates@;
@loop 2
    invariant __i2 <= candidates@.len(), candidates@ == all, forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]) is Some,
        __acc2@.len() == __i2, forall|i: int| 0 <= i < __i2 ==> #[trigger] __acc2@[i] == all[i]->0,
    decreases candidates@.len() - __i2,
@loop 3
    invariant __i3 <= __s3@.len(), candidates@.len() == query@.len(), query@.len() > 0, forall|p: PathBuf| candidates@[0]@.contains(p) <==> #[trigger] __s3@.contains(p),
        forall|i: int| 0 <= i < query@.len() ==> found(*index, query@[i], Some(#[trigger] candidates@[i])),
        forall|p: PathBuf| (carries_all(*index, p, query@) && before(__s3@, __i3 as int, p)) <==> among(__acc3@, p),
    decreases __s3@.len() - __i3,
@loop 4
    invariant_except_break __acc4,
    invariant __i4 <= __s4@.len(), __s4@ == candidates@.skip(1), __acc4 ==> forall|i: int| 0 <= i < __i4 ==> (#[trigger] __s4@[i])@.contains(**c),
    ensures __acc4 <==> forall|i: int| 0 <= i < __s4@.len() ==> (#[trigger] __s4@[i])@.contains(**c),
    decreases __s4@.len() - __i4,
@loop 3 start
    proof { before_next(__s3@, __i3 as int); assert forall|v: Seq<&PathBuf>, x: &PathBuf, p: PathBuf| #[trigger] among(v.push(x), p) <==> among(v, p) || p == *x by { among_push(v, x); } }
@loop 4 post
    proof {
        assert(__s3@.contains(*__x3));
        assert(candidates@[0]@.contains(*__x3));
        if __acc4 { assert forall|i: int| 0 <= i < query@.len() implies carries(*index, *__x3, #[trigger] query@[i]) by { if i > 0 { assert(__s4@[i - 1]@.contains(*__x3)); } assert(found(*index, query@[i], Some(candidates@[i]))); } }
        else { let i = choose|i: int| 0 <= i < __s4@.len() && !(#[trigger] __s4@[i])@.contains(*__x3); assert(found(*index, query@[i + 1], Some(candidates@[i + 1]))); assert(!carries(*index, *__x3, query@[i + 1])); }
        assert(__acc4 <==> carries_all(*index, *__x3, query@));
    }
@loop 3 post
    proof {
        assert forall|p: PathBuf| carries_all(*index, p, query@) implies before(__s3@, __s3@.len() as int, p) by {
            assert(carries(*index, p, query@[0])); assert(found(*index, query@[0], Some(candidates@[0]))); assert(__s3@.contains(p));
        }
    }
@loop 1 post
    proof {
        if __acc1 {
            let i = choose|i: int| 0 <= i < candidates@.len() && (#[trigger] candidates@[i]) is None;
            assert(found(*index, query@[i], candidates@[i]));
            assert forall|p: PathBuf| !carries_all(*index, p, query@) by { assert(!carries(*index, p, query@[i])); }
        }
    }
@raw
#[verifier::external_body]
pub struct MetaDataError { e: u8 }
#[verifier::external_body]
pub struct Dir { e: u8 }
/// the directories of the search path, the files of a directory in some order, the text of a file if it is one, and its lines
pub uninterp spec fn dirs() -> Seq<Dir>;
pub uninterp spec fn files_in(d: Dir) -> Seq<PathBuf>;
pub uninterp spec fn text_of(p: PathBuf) -> Option<Seq<char>>;
pub uninterp spec fn lines_of(t: Seq<char>) -> Seq<Seq<char>>;
/// `str::trim`
pub uninterp spec fn trimmed(t: Seq<char>) -> Seq<char>;
pub uninterp spec fn failed(d: Dir) -> bool;
#[verifier::external_body]
fn search_dirs() -> (r: Vec<Dir>) ensures r@ == dirs() { unimplemented!() }
#[verifier::external_body]
fn read_dir(d: &Dir) -> (r: Result<Vec<Result<PathBuf, MetaDataError>>, MetaDataError>)
    ensures r is Ok ==> (r->Ok_0)@.len() == files_in(*d).len() && forall|i: int| 0 <= i < files_in(*d).len() && (#[trigger] (r->Ok_0)@[i]) is Ok ==> (r->Ok_0)@[i]->Ok_0 == files_in(*d)[i],
{ unimplemented!() }
#[verifier::external_body]
fn taken(e: &Result<PathBuf, MetaDataError>) -> (r: Result<PathBuf, MetaDataError>) ensures r == *e { unimplemented!() }
#[verifier::external_body]
fn read_text(p: &PathBuf) -> (r: Result<String, MetaDataError>) ensures (match text_of(*p) { Some(t) => r is Ok && (r->Ok_0)@ == t, None => r is Err }) { unimplemented!() }
#[verifier::external_body]
fn lines(t: &String) -> (r: Vec<&str>) ensures r@.len() == lines_of(t@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == lines_of(t@)[i] { unimplemented!() }
/// `line.strip_prefix("#+")`
#[verifier::external_body]
fn marked(l: &str) -> (r: Option<&str>) ensures r is Some <==> is_marked(l@), r is Some ==> (r->0)@ == l@.skip(2) { unimplemented!() }
/// `line.split_once(':')`
#[verifier::external_body]
fn at_colon(l: &str) -> (r: Option<(&str, &str)>) ensures r is Some <==> colon(l@) < l@.len(), r is Some ==> (r->0).0@ == l@.take(colon(l@)) && (r->0).1@ == l@.skip(colon(l@) + 1) { unimplemented!() }
#[verifier::external_body]
fn trim(l: &str) -> (r: &str) ensures r@ == trimmed(l@) { unimplemented!() }
#[verifier::external_body]
fn alnum(c: char) -> (r: bool) ensures r == is_alnum(c) { unimplemented!() }
#[verifier::external_body]
fn graphic(c: char) -> (r: bool) ensures r == is_graphic(c) { unimplemented!() }
#[verifier::external_body]
fn no_text(t: &str) -> (r: bool) ensures r == (t@.len() == 0) { unimplemented!() }
impl Index {
    #[verifier::external_body]
    fn new() -> (r: Index) ensures r@ == Map::<(Seq<char>, Seq<char>), Set<PathBuf>>::empty() { unimplemented!() }
    /// `index.entry((k.into(), v.into())).or_default().insert(path.clone())`
    #[verifier::external_body]
    fn add(&mut self, k: &str, v: &str, p: &PathBuf) ensures final(self)@ == with(old(self)@, (k@, v@), *p) { unimplemented!() }
}
spec fn is_marked(l: Seq<char>) -> bool { l.len() >= 2 && l[0] == '#' && l[1] == '+' }
spec fn colon(l: Seq<char>) -> int decreases l.len() { if l.len() == 0 || l[0] == ':' { 0 } else { 1 + colon(l.skip(1)) } }
spec fn is_alnum(c: char) -> bool { '0' <= c <= '9' || 'a' <= c <= 'z' || 'A' <= c <= 'Z' }
spec fn is_graphic(c: char) -> bool { '!' <= c <= '~' }
type Key = (Seq<char>, Seq<char>);
type Values = Map<Key, Set<PathBuf>>;
spec fn with(m: Values, k: Key, p: PathBuf) -> Values { m.insert(k, if m.contains_key(k) { m[k].insert(p) } else { Set::empty().insert(p) }) }
spec fn well_formed(k: Key) -> bool { k.0.len() > 0 && k.1.len() > 0 && (forall|i: int| 0 <= i < k.0.len() ==> is_alnum(#[trigger] k.0[i])) && (forall|i: int| 0 <= i < k.1.len() ==> is_graphic(#[trigger] k.1[i])) }
/// the key and the value a line declares
spec fn declares(l: Seq<char>) -> Option<Key> {
    if is_marked(l) {
        let r = l.skip(2);
        if colon(r) < r.len() {
            let k = (trimmed(r.take(colon(r))), trimmed(r.skip(colon(r) + 1)));
            if well_formed(k) { Some(k) } else { None }
        } else { None }
    } else { None }
}
spec fn with_lines(m: Values, l: Seq<Seq<char>>, p: PathBuf, n: int) -> Values decreases n {
    if n <= 0 { m } else { let b = with_lines(m, l, p, n - 1); match declares(l[n - 1]) { Some(k) => with(b, k, p), None => b } }
}
spec fn with_file(m: Values, p: PathBuf) -> Values { match text_of(p) { Some(t) => with_lines(m, lines_of(t), p, lines_of(t).len() as int), None => m } }
spec fn with_files(m: Values, f: Seq<PathBuf>, n: int) -> Values decreases n { if n <= 0 { m } else { with_file(with_files(m, f, n - 1), f[n - 1]) } }
spec fn with_dirs(m: Values, d: Seq<Dir>, n: int) -> Values decreases n { if n <= 0 { m } else { let b = with_dirs(m, d, n - 1); with_files(b, files_in(d[n - 1]), files_in(d[n - 1]).len() as int) } }
spec fn has_value(m: Values, k: Key, p: PathBuf) -> bool { m.contains_key(k) && m[k].contains(p) }
proof fn lines_say(m: Values, l: Seq<Seq<char>>, q: PathBuf, n: int)
    requires 0 <= n <= l.len(),
    ensures forall|k: Key, p: PathBuf| #[trigger] has_value(with_lines(m, l, q, n), k, p) <==> has_value(m, k, p) || p == q && exists|i: int| 0 <= i < n && #[trigger] declares(l[i]) == Some(k),
    decreases n
{
    if n > 0 {
        lines_say(m, l, q, n - 1);
        assert forall|k: Key, p: PathBuf| #[trigger] has_value(with_lines(m, l, q, n), k, p) <==> has_value(m, k, p) || p == q && exists|i: int| 0 <= i < n && #[trigger] declares(l[i]) == Some(k) by {
            let b = with_lines(m, l, q, n - 1);
            let _ = has_value(b, k, p);
            if declares(l[n - 1]) == Some(k) {}
        }
    }
}
/// one of the lines of the file declares the value
spec fn file_says(p: PathBuf, k: Key) -> bool { match text_of(p) { Some(t) => exists|i: int| 0 <= i < lines_of(t).len() && #[trigger] declares(lines_of(t)[i]) == Some(k), None => false } }
proof fn files_say(m: Values, f: Seq<PathBuf>, n: int)
    requires 0 <= n <= f.len(),
    ensures forall|k: Key, p: PathBuf| #[trigger] has_value(with_files(m, f, n), k, p) <==> has_value(m, k, p) || file_says(p, k) && exists|i: int| 0 <= i < n && #[trigger] f[i] == p,
    decreases n
{
    if n > 0 {
        files_say(m, f, n - 1);
        let b = with_files(m, f, n - 1);
        let q = f[n - 1];
        if text_of(q) is Some { lines_say(b, lines_of(text_of(q)->0), q, lines_of(text_of(q)->0).len() as int); }
        assert forall|k: Key, p: PathBuf| #[trigger] has_value(with_files(m, f, n), k, p) <==> has_value(m, k, p) || file_says(p, k) && exists|i: int| 0 <= i < n && #[trigger] f[i] == p by {
            let _ = has_value(b, k, p);
            if p == q { assert(f[n - 1] == p); }
        }
    }
}
spec fn among_files(d: Seq<Dir>, n: int, p: PathBuf) -> bool { exists|i: int, j: int| 0 <= i < n && 0 <= j < files_in(d[i]).len() && #[trigger] files_in(d[i])[j] == p }
proof fn dirs_say(m: Values, d: Seq<Dir>, n: int)
    requires 0 <= n <= d.len(),
    ensures forall|k: Key, p: PathBuf| #[trigger] has_value(with_dirs(m, d, n), k, p) <==> has_value(m, k, p) || file_says(p, k) && among_files(d, n, p),
    decreases n
{
    if n > 0 {
        dirs_say(m, d, n - 1);
        let b = with_dirs(m, d, n - 1);
        files_say(b, files_in(d[n - 1]), files_in(d[n - 1]).len() as int);
        assert forall|k: Key, p: PathBuf| #[trigger] has_value(with_dirs(m, d, n), k, p) <==> has_value(m, k, p) || file_says(p, k) && among_files(d, n, p) by {
            let _ = has_value(b, k, p);
            if among_files(d, n, p) {
                let (i, j) = choose|i: int, j: int| 0 <= i < n && 0 <= j < files_in(d[i]).len() && #[trigger] files_in(d[i])[j] == p;
                if i < n - 1 { assert(among_files(d, n - 1, p)); } else { assert(files_in(d[n - 1])[j] == p); }
            }
            if among_files(d, n - 1, p) {}
        }
    }
}
@fn metadata.rs index ret=r loops=5
@subst let search_path = & SearchPath :: new_or ( "LOUIS_TABLE_PATH" , "." ) ; =>>
@subst search_path . iter ( ) =>> search_dirs ( ) . iter ( )
@subst fs :: read_dir ( dir ) ? =>> read_dir ( dir ) ? . iter ( )
@subst entry ? . path ( ) =>> taken ( entry ) ?
@subst HashMap :: new ( ) =>> Index :: new ( )
@subst fs :: read_to_string ( & path ) =>> read_text ( & path )
@subst content . lines ( ) =>> lines ( & content ) . iter ( )
@subst line . strip_prefix ( "#+" ) =>> marked ( line )
@subst line . split_once ( ':' ) =>> at_colon ( line )
@subst key . trim ( ) =>> trim ( key )
@subst value . trim ( ) =>> trim ( value )
@subst k . is_empty ( ) =>> no_text ( k )
@subst v . is_empty ( ) =>> no_text ( v )
@subst c . is_ascii_alphanumeric ( ) =>> alnum ( c )
@subst c . is_ascii_graphic ( ) =>> graphic ( c )
@subst index . entry ( ( k . into ( ) , v . into ( ) ) ) . or_default ( ) . insert ( path . clone ( ) ) =>> index . add ( k , v , & path )
@spec
    ensures r is Ok ==> forall|k: Key, p: PathBuf| #[trigger] has_value((r->Ok_0)@, k, p) <==> file_says(p, k) && among_files(dirs(), dirs().len() as int, p),
@loop 0
    invariant __i0 <= __s0@.len(), __s0@ == dirs(), index@ == with_dirs(Map::empty(), dirs(), __i0 as int),
    decreases __s0@.len() - __i0,
@loop 0 start
    let ghost base = index@;
    let ghost here = dirs()[__i0 as int];
@loop 1
    invariant __i1 <= __s1@.len(), __s1@.len() == files_in(here).len(), index@ == with_files(base, files_in(here), __i1 as int),
        forall|i: int| 0 <= i < files_in(here).len() && (#[trigger] __s1@[i]) is Ok ==> __s1@[i]->Ok_0 == files_in(here)[i],
    decreases __s1@.len() - __i1,
@loop 1 start
    let ghost low = index@;
@loop 2
    invariant __i2 <= __s2@.len(), __s2@.len() == lines_of(content@).len(), index@ == with_lines(low, lines_of(content@), path, __i2 as int),
        forall|i: int| 0 <= i < __s2@.len() ==> (#[trigger] __s2@[i])@ == lines_of(content@)[i],
    decreases __s2@.len() - __i2,
@loop 3
    invariant_except_break __acc3,
    invariant __i3 <= __s3@.len(), __s3@ == k@, __acc3 ==> forall|i: int| 0 <= i < __i3 ==> is_alnum(#[trigger] k@[i]),
    ensures __acc3 <==> forall|i: int| 0 <= i < k@.len() ==> is_alnum(#[trigger] k@[i]),
    decreases __s3@.len() - __i3,
@loop 4
    invariant_except_break __acc4,
    invariant __i4 <= __s4@.len(), __s4@ == v@, __acc4 ==> forall|i: int| 0 <= i < __i4 ==> is_graphic(#[trigger] v@[i]),
    ensures __acc4 <==> forall|i: int| 0 <= i < v@.len() ==> is_graphic(#[trigger] v@[i]),
    decreases __s4@.len() - __i4,
@loop 0 post
    proof { dirs_say(Map::empty(), dirs(), dirs().len() as int); }
