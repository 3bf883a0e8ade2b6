@raw
use vstd::std_specs::hash::*;
broadcast use {vstd::std_specs::hash::group_hash_axioms, keys::char_is_key};
mod keys {
    use vstd::prelude::*;
    // std: `char` is a well-behaved hash key
    pub broadcast axiom fn char_is_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<char>();
}

// ---- trusted wrappers around std (each is listed in the evidence as an assumption) ----

/// `s.chars().collect::<Vec<char>>()`
#[verifier::external_body]
fn str_chars(s: &str) -> (r: Vec<char>)
    ensures r@ == s@, s@.len() <= isize::MAX,
{ s.chars().collect() }

fn usize_min(a: usize, b: usize) -> (r: usize)
    ensures r == if a <= b { a } else { b },
{ if a <= b { a } else { b } }

fn usize_max(a: usize, b: usize) -> (r: usize)
    ensures r == if a >= b { a } else { b },
{ if a >= b { a } else { b } }

/// end of `skip(lo).take(n)` over `len` items
fn usize_min_add(lo: usize, n: usize, len: usize) -> (r: usize)
    requires lo <= len,
    ensures r as int == if lo + n <= len { (lo + n) as int } else { len as int },
{ if n <= len - lo { lo + n } else { len } }

fn range_end_inclusive(b: usize) -> (r: usize)
    requires b < usize::MAX,
    ensures r == b + 1,
{ b + 1 }

/// moves item i out of an iterated vector (`into_iter()`); the rewritten loop visits each index once
#[verifier::external_body]
fn vec_take<T>(v: &Vec<T>, i: usize) -> (r: T)
    requires i < v@.len(),
    ensures r == v@[i as int],
{ unimplemented!() }

/// std: `Option<&T>::copied`
pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures r == (match o { Some(x) => Some(*x), None => None::<T> }),
;
