@include common.vs
@raw
#[verifier::external_body]
struct BrailleChar { id: usize }
#[verifier::external_body]
struct BrailleChars { id: usize }
#[verifier::external_body]
struct Path { id: usize }
uninterp spec fn cell(b: BrailleChar) -> char;
uninterp spec fn list(b: BrailleChars) -> Seq<BrailleChar>;
/// the text a sequence of cells is written as (contract of module braille)
spec fn cells(b: BrailleChars) -> Seq<char> { Seq::new(list(b).len(), |i: int| cell(list(b)[i])) }
impl BrailleChar {
    #[verifier::external_body]
    fn to_unicode(&self) -> (r: char) ensures r == cell(*self) { unimplemented!() }
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) ensures r@ == seq![cell(*self)] { unimplemented!() }
}
impl BrailleChars {
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) ensures r@ == cells(*self) { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == list(*self).len() { unimplemented!() }
    #[verifier::external_body]
    fn first(&self) -> (r: Option<&BrailleChar>) ensures match r { Some(b) => list(*self).len() > 0 && *b == list(*self)[0], None => list(*self).len() == 0 } { unimplemented!() }
}
@type parser.rs Braille derive=
@type parser/character_class.rs CharacterClass derive=
@raw
// only moved around by the functions under contract
mod multipass {
    #[verifier::external_body]
    pub struct Test { id: usize }
}
#[verifier::external_body]
struct Action { id: usize }
#[verifier::external_body]
struct Patterns { id: usize }
#[verifier::external_body]
struct PathBuf { id: usize }
/// `EnumSet<Constraint>`, seen as a set
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
struct EnumSet<T> { id: usize, p: std::marker::PhantomData<T> }
impl<T> EnumSet<T> {
    uninterp spec fn view(&self) -> Set<T>;
    #[verifier::external_body]
    fn contains(&self, v: T) -> (r: bool) ensures r == self@.contains(v) { unimplemented!() }
    #[verifier::external_body]
    fn empty() -> (r: EnumSet<T>) ensures r@ == Set::<T>::empty() { unimplemented!() }
}
impl<T: Copy> Clone for EnumSet<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T: Copy> Copy for EnumSet<T> { }
@type parser.rs Constraint attr=derive(PartialEq,Eq,Structural,Clone,Copy)
@type parser.rs Constraints derive=Clone,Copy
@type parser.rs Position derive=
@type parser.rs WithClass derive=
@type parser.rs Rule derive= keepfields=character,dots,chars,name,derived,base,replacement,constraints,with_classes,position,number,path,test,action,pre,post
@type parser.rs AnchoredRule derive= drop=path,line
@type translator.rs TranslationError derive= keep=ImplicitCharacterNotDefined,BaseCharacterNotDefined
@type translator.rs CharacterDefinition derive=
@raw
// ---- trusted: std ----
#[verifier::external_body]
fn own(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
fn str_append(s: &mut String, t: &String) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
/// `map.entry(k).or_insert(v)`
#[verifier::external_body]
fn insert_if_new<V>(m: &mut HashMap<char, V>, k: char, v: V)
    ensures final(m)@ == (if old(m)@.contains_key(k) { old(m)@ } else { old(m)@.insert(k, v) })
{ m.entry(k).or_insert(v); }
uninterp spec fn alphabetic(c: char) -> bool;
/// `chars.chars().all(|c| c.is_alphabetic())`
#[verifier::external_body]
fn all_alphabetic(s: &String) -> (r: bool) ensures r == all_letters(s@) { s.chars().all(|c| c.is_alphabetic()) }
spec fn all_letters(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> alphabetic(#[trigger] s[i]) }
#[verifier::external_body]
fn owned_text(o: Option<&String>) -> (r: Option<String>) ensures match o { Some(s) => r is Some && (r->0)@ == s@, None => r is None } { o.cloned() }
#[verifier::external_body]
fn text_clone(o: &String) -> (r: String) ensures r@ == o@ { o.clone() }

// ---- definitions of characters ----
type Defs = Map<char, Seq<char>>;
spec fn defs(d: CharacterDefinition) -> Defs { d.0@.map_values(|s: String| s@) }
/// the first definition of a character counts (feature `backwards_compatibility`, on by default)
spec fn define(d: Defs, c: char, t: Seq<char>) -> Defs { if d.contains_key(c) { d } else { d.insert(c, t) } }
impl CharacterDefinition {
    #[verifier::external_body]
    fn new() -> (r: Self) ensures defs(r) == Map::<char, Seq<char>>::empty() { unimplemented!() }
}
@fn translator.rs CharacterDefinition::insert exitlast
@subst cfg!(feature = "backwards_compatibility") =>> true
@subst self.0.entry(from).or_insert(to.to_string()) =>> insert_if_new(&mut self.0, from, own(to))
@subst to.to_string() =>> own(to)
@spec
    ensures defs(*final(self)) == define(defs(*old(self)), from, to@),
@exit
    proof {
        let (a, b) = (defs(*self), define(defs(*old(self)), from, to@));
        assert(a.dom() =~= b.dom());
        assert forall|c: char| a.contains_key(c) implies #[trigger] a[c] == b[c] by { }
        assert(a =~= b);
    }
@fn translator.rs CharacterDefinition::get
@spec
    ensures r is Some <==> defs(*self).contains_key(*from), r is Some ==> (*r->0)@ == defs(*self)[*from],
@raw
/// the characters one after the other as they are defined; None if one is not
spec fn spelled(d: Defs, s: Seq<char>) -> Option<Seq<char>> decreases s.len() {
    if s.len() == 0 { Some(seq![]) } else {
        match spelled(d, s.drop_last()) { Some(t) => if d.contains_key(s.last()) { Some(t + d[s.last()]) } else { None }, None => None }
    }
}
/// the first character without definition
spec fn unspelled(d: Defs, s: Seq<char>, c: char) -> bool { exists|i: int| 0 <= i < s.len() && s[i] == c && !d.contains_key(c) && forall|k: int| 0 <= k < i ==> d.contains_key(#[trigger] s[k]) }
proof fn spelled_take(d: Defs, s: Seq<char>, i: int)
    requires 0 <= i < s.len(),
    ensures spelled(d, s.take(i + 1)) == (match spelled(d, s.take(i)) { Some(t) => if d.contains_key(s[i]) { Some(t + d[s[i]]) } else { None }, None => None }),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
proof fn spelled_none(d: Defs, s: Seq<char>, i: int)
    requires 0 <= i < s.len(), !d.contains_key(s[i]),
    ensures spelled(d, s) is None,
    decreases s.len(),
{ if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); spelled_none(d, s.drop_last(), i); } }
@fn translator.rs CharacterDefinition::resolve_implicit_dots loops=1 collect0=ResultStrings okmap
@subst t.to_string() =>> text_clone(t)
@spec
    ensures match r {
        Ok(t) => spelled(defs(*self), chars@) == Some(t@),
        Err(e) => spelled(defs(*self), chars@) is None && (e matches TranslationError::ImplicitCharacterNotDefined(c) && unspelled(defs(*self), chars@, c)),
    },
@loop 0
    invariant_except_break
        __e0 is None, spelled(defs(*self), __s0@.take(__i0 as int)) == Some(__acc0@),
        forall|k: int| 0 <= k < __i0 ==> defs(*self).contains_key(#[trigger] __s0@[k]),
    invariant __i0 <= __s0@.len(), __s0@ == chars@, __s0@.take(__s0@.len() as int) == __s0@,
    ensures
        match __e0 { None => __i0 == __s0@.len() && spelled(defs(*self), __s0@) == Some(__acc0@),
            Some(e) => spelled(defs(*self), chars@) is None && (e matches TranslationError::ImplicitCharacterNotDefined(c) && unspelled(defs(*self), chars@, c)) },
    decreases __s0@.len() - __i0,
@loop 0 pre
    proof { assert(chars@.take(0) =~= seq![]); assert(chars@.take(chars@.len() as int) =~= chars@); }
@loop 0 start
    proof { spelled_take(defs(*self), __s0@, __i0 as int); if !defs(*self).contains_key(__s0@[__i0 as int]) { spelled_none(defs(*self), __s0@, __i0 as int); } }
@raw
/// the cells of a rule: as given, or those of its characters
spec fn outcome(d: Defs, b: Braille, s: Seq<char>) -> Option<Seq<char>> { match b { Braille::Implicit => spelled(d, s), Braille::Explicit(x) => Some(cells(x)) } }
@fn translator.rs CharacterDefinition::braille_to_unicode
@spec
    ensures match r { Ok(t) => outcome(defs(*self), *dots, chars@) == Some(t@), Err(e) => outcome(defs(*self), *dots, chars@) is None },
@raw
// ---- classes of characters and of cells ----
enum Key { Space, Digit, Litdigit, Letter, Uppercase, Lowercase, Punctuation, Sign, Math, Seqdelimiter, Seqbeforechars, Seqafterchars, User(Seq<char>) }
/// a class is known by its name
spec fn key(c: CharacterClass) -> Key {
    match c {
        CharacterClass::Space => Key::Space, CharacterClass::Digit => Key::Digit, CharacterClass::Litdigit => Key::Litdigit, CharacterClass::Letter => Key::Letter,
        CharacterClass::Uppercase => Key::Uppercase, CharacterClass::Lowercase => Key::Lowercase, CharacterClass::Punctuation => Key::Punctuation,
        CharacterClass::Sign => Key::Sign, CharacterClass::Math => Key::Math, CharacterClass::Seqdelimiter => Key::Seqdelimiter,
        CharacterClass::Seqbeforechars => Key::Seqbeforechars, CharacterClass::Seqafterchars => Key::Seqafterchars,
        CharacterClass::UserDefined(s) => Key::User(s@),
    }
}
spec fn named(s: Seq<char>) -> Key {
    if s == "space"@ { Key::Space } else if s == "digit"@ { Key::Digit } else if s == "litdigit"@ { Key::Litdigit } else if s == "letter"@ { Key::Letter }
    else if s == "uppercase"@ { Key::Uppercase } else if s == "lowercase"@ { Key::Lowercase } else if s == "punctuation"@ { Key::Punctuation }
    else if s == "sign"@ { Key::Sign } else if s == "math"@ { Key::Math } else if s == "seqdelimiter"@ { Key::Seqdelimiter }
    else if s == "seqbeforechars"@ { Key::Seqbeforechars } else if s == "seqafterchars"@ { Key::Seqafterchars } else { Key::User(s) }
}
impl Clone for CharacterClass {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
type Classes = Map<Key, Set<char>>;
spec fn within(m: Classes, k: Key, c: char) -> bool { m.contains_key(k) && m[k].contains(c) }
spec fn add(m: Classes, k: Key, c: char) -> Classes { m.insert(k, (if m.contains_key(k) { m[k] } else { Set::empty() }).insert(c)) }
/// `HashMap<CharacterClass, HashSet<char>>`
#[verifier::external_body]
struct CharacterClasses { id: usize }
uninterp spec fn classes(c: CharacterClasses) -> Classes;
impl CharacterClasses {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures classes(r) == Map::<Key, Set<char>>::empty() { unimplemented!() }
    /// `self.0.entry(class).or_default().insert(c)`
    #[verifier::external_body]
    fn insert(&mut self, class: CharacterClass, c: char) -> (r: bool) ensures classes(*final(self)) == add(classes(*old(self)), key(class), c) { unimplemented!() }
    /// `self.0.get(class).cloned()`
    #[verifier::external_body]
    fn get(&self, class: &CharacterClass) -> (r: Option<HashSet<char>>)
        ensures match r { Some(s) => classes(*self).contains_key(key(*class)) && s@ == classes(*self)[key(*class)], None => !classes(*self).contains_key(key(*class)) }
    { unimplemented!() }
    /// `self.0.entry(class).or_default().insert(dot.to_unicode())`
    #[verifier::external_body]
    fn insert_dot(&mut self, class: CharacterClass, dot: &BrailleChar) -> (r: bool) ensures classes(*final(self)) == add(classes(*old(self)), key(class), cell(*dot)) { unimplemented!() }
}
/// what a definition says about its cell: only a definition of a single cell puts it into the class
spec fn add_cell(m: Classes, k: Key, b: BrailleChars) -> Classes { if list(b).len() == 1 { add(m, k, cell(list(b)[0])) } else { m } }
spec fn add_defined(m: Classes, k: Key, c: char, d: Defs) -> Classes { if d.contains_key(c) && d[c].len() == 1 { add(m, k, d[c][0]) } else { m } }
#[verifier::external_body]
fn char_count(s: &String) -> (r: usize) ensures r == s@.len() { s.chars().count() }
#[verifier::external_body]
fn first_char(s: &String) -> (r: Option<char>) ensures r == (if s@.len() == 0 { None } else { Some(s@[0]) }) { s.chars().next() }
@fn parser/character_class.rs CharacterClasses::insert_dots
@subst dots.iter().next() =>> dots.first()
@spec
    ensures classes(*final(self)) == add_cell(classes(*old(self)), key(class), *dots),
@fn parser/character_class.rs CharacterClasses::insert_associated_dot nestelse
@subst dots.chars().count() =>> char_count(dots)
@subst dots.chars().next() =>> first_char(dots)
@spec
    ensures classes(*final(self)) == add_defined(classes(*old(self)), key(class), c, defs(*character_definitions)),
@fn parser/character_class.rs CharacterClasses::is_punctuation
@spec
    ensures r == within(classes(*self), Key::Punctuation, c),
@fn parser/character_class.rs CharacterClasses::is_whitespace
@spec
    ensures r == within(classes(*self), Key::Space, c),
@fn parser/character_class.rs CharacterClasses::is_sign
@spec
    ensures r == within(classes(*self), Key::Sign, c),
@raw
/// texts with the same characters are the same text
#[verifier::external_body]
proof fn same_text(a: &str, b: &str) ensures (a == b) == (a@ == b@) {}
@fn parser/character_class.rs From@CharacterClass::from
@subst class.to_string() =>> own(class)
@spec
    ensures key(r) == named(value@),
@entry
    proof {
        same_text(value, "space"); same_text(value, "digit"); same_text(value, "litdigit"); same_text(value, "letter"); same_text(value, "uppercase");
        same_text(value, "lowercase"); same_text(value, "punctuation"); same_text(value, "sign"); same_text(value, "math");
        same_text(value, "seqdelimiter"); same_text(value, "seqbeforechars"); same_text(value, "seqafterchars");
    }
@raw
// ---- what a table says about characters, classes and swap classes ----
/// `chars.chars().zip(replacements)`: pairs as long as both last
type Swap = Seq<(char, Seq<char>)>;
#[verifier::external_body]
struct SwapClasses { id: usize }
uninterp spec fn swaps(s: SwapClasses) -> Map<Seq<char>, Swap>;
spec fn pair_texts(v: Seq<(char, &str)>) -> Swap { Seq::new(v.len(), |i: int| (v[i].0, v[i].1@)) }
impl SwapClasses {
    #[verifier::external_body]
    fn default() -> (r: Self) ensures swaps(r) == Map::<Seq<char>, Swap>::empty() { unimplemented!() }
    /// a later definition of the same name replaces an earlier one
    #[verifier::external_body]
    fn insert(&mut self, name: &String, mappings: &Vec<(char, &str)>) ensures swaps(*final(self)) == swaps(*old(self)).insert(name@, pair_texts(mappings@)) { unimplemented!() }
}
spec fn singles(s: Seq<char>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| seq![s[i]]) }
spec fn cell_texts(b: Seq<BrailleChars>) -> Seq<Seq<char>> { Seq::new(b.len(), |i: int| cells(b[i])) }
spec fn paired(s: Seq<char>, t: Seq<Seq<char>>) -> Swap { Seq::new(if s.len() <= t.len() { s.len() } else { t.len() }, |i: int| (s[i], t[i])) }
#[verifier::external_body]
fn each_char(s: &String) -> (r: Vec<String>) ensures r@.map_values(|t: String| t@) == singles(s@) { s.chars().map(|c| c.to_string()).collect() }
#[verifier::external_body]
fn texts_of(b: &Vec<BrailleChars>) -> (r: Vec<String>) ensures r@.map_values(|t: String| t@) == cell_texts(b@) { b.iter().map(|c| c.to_string()).collect() }
#[verifier::external_body]
fn pairs<'a>(s: &String, t: &'a Vec<String>) -> (r: Vec<(char, &'a str)>) ensures pair_texts(r@) == paired(s@, t@.map_values(|x: String| x@)) { s.chars().zip(t.iter().map(|x| x.as_str())).collect() }
#[verifier::external_body]
fn cell_pairs<'a>(s: &BrailleChars, t: &'a Vec<String>) -> (r: Vec<(char, &'a str)>) ensures pair_texts(r@) == paired(cells(*s), t@.map_values(|x: String| x@)) { unimplemented!() }
#[verifier::external_body]
fn text_is(a: &String, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
/// how a table writes the cells of a rule
uninterp spec fn written(b: Braille) -> Seq<char>;
impl Braille {
    #[verifier::external_body]
    fn to_string(&self) -> (r: String) ensures r@ == written(*self), self matches Braille::Explicit(x) ==> r@ == cells(*x) { unimplemented!() }
}
@type translator/table.rs TableContext derive=
@raw
struct Cx { d: Defs, cc: Classes, dc: Classes, sw: Map<Seq<char>, Swap> }
spec fn cx(t: TableContext) -> Cx { Cx { d: defs(t.character_definitions), cc: classes(t.character_classes), dc: classes(t.dots_classes), sw: swaps(t.swap_classes) } }
spec fn no_cx() -> Cx { Cx { d: Map::empty(), cc: Map::empty(), dc: Map::empty(), sw: Map::empty() } }
/// a definition gives the character its cells and its class, and a single cell the class as well
spec fn defining(x: Cx, k: Key, c: char, b: BrailleChars) -> Cx { Cx { d: define(x.d, c, cells(b)), cc: add(x.cc, k, c), dc: add_cell(x.dc, k, b), sw: x.sw } }
/// upper and lower case characters are letters
spec fn letter_too(x: Cx, c: char, b: BrailleChars) -> Cx { Cx { cc: add(x.cc, Key::Letter, c), dc: add_cell(x.dc, Key::Letter, b), ..x } }
spec fn add_all(m: Classes, k: Key, s: Seq<char>) -> Classes decreases s.len() { if s.len() == 0 { m } else { add(add_all(m, k, s.drop_last()), k, s.last()) } }
spec fn add_all_defined(m: Classes, k: Key, s: Seq<char>, d: Defs) -> Classes decreases s.len() { if s.len() == 0 { m } else { add_defined(add_all_defined(m, k, s.drop_last(), d), k, s.last(), d) } }
/// characters become members of a class, and so do the cells they are defined by
spec fn members(x: Cx, k: Key, s: Seq<char>) -> Cx { Cx { cc: add_all(x.cc, k, s), dc: add_all_defined(x.dc, k, s, x.d), ..x } }
/// definitions
spec fn first(x: Cx, r: Rule) -> Cx {
    match r {
        Rule::Space { character, dots, .. } => defining(x, Key::Space, character, dots),
        Rule::Punctuation { character, dots, .. } => defining(x, Key::Punctuation, character, dots),
        Rule::Digit { character, dots, .. } => defining(x, Key::Digit, character, dots),
        Rule::Litdigit { character, dots, .. } => defining(x, Key::Litdigit, character, dots),
        Rule::Letter { character, dots, .. } => defining(x, Key::Letter, character, dots),
        Rule::Lowercase { character, dots, .. } => letter_too(defining(x, Key::Lowercase, character, dots), character, dots),
        Rule::Uppercase { character, dots, .. } => letter_too(defining(x, Key::Uppercase, character, dots), character, dots),
        Rule::Sign { character, dots, .. } => defining(x, Key::Sign, character, dots),
        Rule::Math { character, dots, .. } => defining(x, Key::Math, character, dots),
        Rule::Hyphen { character, dots, .. } => defining(x, Key::Punctuation, character, dots),
        Rule::Decpoint { character, dots, .. } => defining(x, Key::Punctuation, character, dots),
        // a contraction made of letters stands for letters
        Rule::Always { chars, dots, .. } => if all_letters(chars@) { Cx { dc: add_all(x.dc, Key::Letter, written(dots)), ..x } } else { x },
        _ => x,
    }
}
/// everything that refers to definitions
spec fn second(x: Cx, r: Rule) -> Cx {
    match r {
        Rule::Base { name, derived, base, .. } => if x.d.contains_key(base) {
            let y = Cx { d: define(x.d, derived, x.d[base]), cc: add(x.cc, named(name@), derived), ..x };
            if name@ == "uppercase"@ || name@ == "lowercase"@ { Cx { cc: add(y.cc, Key::Letter, derived), ..y } } else { y }
        } else { x },
        Rule::Attribute { name, chars, .. } => members(x, named(name@), chars@),
        Rule::Seqdelimiter { chars, .. } => members(x, Key::Seqdelimiter, chars@),
        Rule::Seqbeforechars { chars, .. } => members(x, Key::Seqbeforechars, chars@),
        Rule::Seqafterchars { chars, .. } => members(x, Key::Seqafterchars, chars@),
        Rule::Swapcc { name, chars, replacement, .. } => {
            let y = members(x, named(name@), chars@);
            Cx { sw: y.sw.insert(name@, paired(chars@, singles(replacement@))), ..y }
        },
        Rule::Swapcd { name, chars, dots, .. } => {
            let y = members(x, named(name@), chars@);
            Cx { sw: y.sw.insert(name@, paired(chars@, cell_texts(dots@))), ..y }
        },
        Rule::Swapdd { name, dots, replacement, .. } => Cx {
            cc: add_all(x.cc, named(name@), cells(dots)), dc: add_all(x.dc, named(name@), cells(dots)),
            sw: x.sw.insert(name@, paired(cells(dots), cell_texts(replacement@))), ..x
        },
        _ => x,
    }
}
spec fn firsts(x: Cx, r: Seq<AnchoredRule>) -> Cx decreases r.len() { if r.len() == 0 { x } else { first(firsts(x, r.drop_last()), r.last().rule) } }
spec fn seconds(x: Cx, r: Seq<AnchoredRule>) -> Cx decreases r.len() { if r.len() == 0 { x } else { second(seconds(x, r.drop_last()), r.last().rule) } }
proof fn all_take(m: Classes, k: Key, s: Seq<char>, d: Defs, i: int)
    requires 0 <= i < s.len(),
    ensures add_all(m, k, s.take(i + 1)) == add(add_all(m, k, s.take(i)), k, s[i]),
        add_all_defined(m, k, s.take(i + 1), d) == add_defined(add_all_defined(m, k, s.take(i), d), k, s[i], d),
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
proof fn all_done(s: Seq<char>) ensures s.take(s.len() as int) == s, s.take(0).len() == 0 { assert(s.take(s.len() as int) =~= s); }
spec fn here(d: CharacterDefinition, cc: CharacterClasses, dc: CharacterClasses, sw: SwapClasses) -> Cx { Cx { d: defs(d), cc: classes(cc), dc: classes(dc), sw: swaps(sw) } }
proof fn firsts_take(x: Cx, r: Seq<AnchoredRule>, i: int)
    requires 0 <= i < r.len(),
    ensures firsts(x, r.take(i + 1)) == first(firsts(x, r.take(i)), r[i].rule),
{ assert(r.take(i + 1).drop_last() =~= r.take(i)); }
proof fn seconds_take(x: Cx, r: Seq<AnchoredRule>, i: int)
    requires 0 <= i < r.len(),
    ensures seconds(x, r.take(i + 1)) == second(seconds(x, r.take(i)), r[i].rule),
{ assert(r.take(i + 1).drop_last() =~= r.take(i)); }
