@include definitions_base.vs
@fn translator/table.rs TableContext::compile nestelse attr=verifier::loop_isolation(false)
@subst chars.chars().all(|c| c.is_alphabetic()) =>> all_alphabetic(chars)
@subst character_definitions.get(base).cloned() =>> owned_text(character_definitions.get(base))
@subst cfg!(feature = "backwards_compatibility") =>> true
@subst name == "uppercase" =>> text_is(name, "uppercase")
@subst name == "lowercase" =>> text_is(name, "lowercase")
@subst replacement.chars().map(|c| c.to_string()).collect() =>> each_char(replacement)
@subst dots.iter().map(|b| b.to_string()).collect() =>> texts_of(dots)
@subst replacement.iter().map(|b| b.to_string()).collect() =>> texts_of(replacement)
@subst chars.chars().zip(replacements.iter().map(|s| s.as_str())).collect() =>> pairs(chars, &replacements)
@subst dots.iter().map(|b| b.to_unicode()).zip(replacements.iter().map(|s| s.as_str())).collect() =>> cell_pairs(dots, &replacements)
@subst in rules =>> in rules.iter()
@spec
    ensures r matches Ok(t) && cx(t) == seconds(firsts(no_cx(), rules@), rules@),
@loop 0
    invariant __i0 <= rules@.len(), here(character_definitions, character_classes, dots_classes, swap_classes) == firsts(no_cx(), rules@.take(__i0 as int)),
    decreases rules@.len() - __i0,
@loop 0 start
    let ghost x = here(character_definitions, character_classes, dots_classes, swap_classes);
    proof { firsts_take(no_cx(), rules@, __i0 as int); }
@loop 0 end
    proof { assert(here(character_definitions, character_classes, dots_classes, swap_classes) == first(x, rule.rule)); }
@loop 0 post
    let ghost x1 = firsts(no_cx(), rules@);
    proof { assert(rules@.take(rules@.len() as int) =~= rules@); assert(here(character_definitions, character_classes, dots_classes, swap_classes) == x1); }
@loop 1
    invariant __i1 <= __s1@.len(), __s1@ == written(*dots), classes(dots_classes) == add_all(x.dc, Key::Letter, __s1@.take(__i1 as int)),
    decreases __s1@.len() - __i1,
@loop 1 start
    proof { all_take(x.dc, Key::Letter, __s1@, x.d, __i1 as int); }
@loop 1 post
    proof { all_done(__s1@); }
@loop 2
    invariant __i2 <= rules@.len(), here(character_definitions, character_classes, dots_classes, swap_classes) == seconds(firsts(no_cx(), rules@), rules@.take(__i2 as int)),
    decreases rules@.len() - __i2,
@loop 2 start
    let ghost x = here(character_definitions, character_classes, dots_classes, swap_classes);
    proof { seconds_take(firsts(no_cx(), rules@), rules@, __i2 as int); }
@loop 2 end
    proof { assert(here(character_definitions, character_classes, dots_classes, swap_classes) == second(x, rule.rule)); }
@loop 2 post
    proof { assert(rules@.take(rules@.len() as int) =~= rules@); }
@loop 3 pre
    proof { all_done(chars@); }
@loop 3
    invariant __i3 <= __s3@.len(), __s3@ == chars@, classes(character_classes) == add_all(x.cc, key(class), __s3@.take(__i3 as int)), classes(dots_classes) == add_all_defined(x.dc, key(class), __s3@.take(__i3 as int), x.d),
    decreases __s3@.len() - __i3,
@loop 3 start
    proof { all_take(x.cc, key(class), __s3@, x.d, __i3 as int); all_take(x.dc, key(class), __s3@, x.d, __i3 as int); }
@loop 3 post
    proof { all_done(__s3@); }
@loop 4 pre
    proof { all_done(chars@); }
@loop 4
    invariant __i4 <= __s4@.len(), __s4@ == chars@, classes(character_classes) == add_all(x.cc, Key::Seqdelimiter, __s4@.take(__i4 as int)), classes(dots_classes) == add_all_defined(x.dc, Key::Seqdelimiter, __s4@.take(__i4 as int), x.d),
    decreases __s4@.len() - __i4,
@loop 4 start
    proof { all_take(x.cc, Key::Seqdelimiter, __s4@, x.d, __i4 as int); all_take(x.dc, Key::Seqdelimiter, __s4@, x.d, __i4 as int); }
@loop 4 post
    proof { all_done(__s4@); }
@loop 5 pre
    proof { all_done(chars@); }
@loop 5
    invariant __i5 <= __s5@.len(), __s5@ == chars@, classes(character_classes) == add_all(x.cc, Key::Seqbeforechars, __s5@.take(__i5 as int)), classes(dots_classes) == add_all_defined(x.dc, Key::Seqbeforechars, __s5@.take(__i5 as int), x.d),
    decreases __s5@.len() - __i5,
@loop 5 start
    proof { all_take(x.cc, Key::Seqbeforechars, __s5@, x.d, __i5 as int); all_take(x.dc, Key::Seqbeforechars, __s5@, x.d, __i5 as int); }
@loop 5 post
    proof { all_done(__s5@); }
@loop 6 pre
    proof { all_done(chars@); }
@loop 6
    invariant __i6 <= __s6@.len(), __s6@ == chars@, classes(character_classes) == add_all(x.cc, Key::Seqafterchars, __s6@.take(__i6 as int)), classes(dots_classes) == add_all_defined(x.dc, Key::Seqafterchars, __s6@.take(__i6 as int), x.d),
    decreases __s6@.len() - __i6,
@loop 6 start
    proof { all_take(x.cc, Key::Seqafterchars, __s6@, x.d, __i6 as int); all_take(x.dc, Key::Seqafterchars, __s6@, x.d, __i6 as int); }
@loop 6 post
    proof { all_done(__s6@); }
@loop 7 pre
    proof { all_done(chars@); }
@loop 7
    invariant __i7 <= __s7@.len(), __s7@ == chars@, classes(character_classes) == add_all(x.cc, key(class), __s7@.take(__i7 as int)), classes(dots_classes) == add_all_defined(x.dc, key(class), __s7@.take(__i7 as int), x.d),
    decreases __s7@.len() - __i7,
@loop 7 start
    proof { all_take(x.cc, key(class), __s7@, x.d, __i7 as int); all_take(x.dc, key(class), __s7@, x.d, __i7 as int); }
@loop 7 post
    proof { all_done(__s7@); }
@loop 8 pre
    proof { all_done(chars@); }
@loop 8
    invariant __i8 <= __s8@.len(), __s8@ == chars@, classes(character_classes) == add_all(x.cc, key(class), __s8@.take(__i8 as int)), classes(dots_classes) == add_all_defined(x.dc, key(class), __s8@.take(__i8 as int), x.d),
    decreases __s8@.len() - __i8,
@loop 8 start
    proof { all_take(x.cc, key(class), __s8@, x.d, __i8 as int); all_take(x.dc, key(class), __s8@, x.d, __i8 as int); }
@loop 8 post
    proof { all_done(__s8@); }
@loop 9 pre
    proof { all_done(cells(*dots)); }
@loop 9
    invariant __i9 <= __s9@.len(), __s9@ == cells(*dots), classes(character_classes) == add_all(x.cc, key(class), __s9@.take(__i9 as int)), classes(dots_classes) == add_all(x.dc, key(class), __s9@.take(__i9 as int)),
    decreases __s9@.len() - __i9,
@loop 9 start
    proof { all_take(x.cc, key(class), __s9@, x.d, __i9 as int); all_take(x.dc, key(class), __s9@, x.d, __i9 as int); }
@loop 9 post
    proof { all_done(__s9@); }
