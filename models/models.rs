//! Plain-Rust definitions of library iterator methods whose library bodies go
//! through specialised or pointer-based internals. Each has the same type
//! parameters, in the same order, as the function it stands for; the path it
//! stands for is on the `//=` line above it.
#![crate_type = "lib"]
#![crate_name = "verif_models"]
#![feature(allocator_api, try_trait_v2)]
use std::alloc::Allocator;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::hash::{BuildHasher, Hash};
use std::ops::Try;

//= std::iter::Iterator::find
pub fn iter_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next() { if p(&x) { return Some(x); } }
    None
}
//= std::iter::Iterator::find_map
pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(b) = f(x) { return Some(b); } }
    None
}
//= std::iter::Iterator::any
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
//= std::iter::Iterator::all
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
//= std::iter::Iterator::position
pub fn iter_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut n = 0;
    while let Some(x) = it.next() { if p(x) { return Some(n); } n += 1; }
    None
}
//= std::iter::Iterator::count
pub fn iter_count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() { n += 1; }
    n
}
//= std::iter::Iterator::for_each
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() { f(x); }
}
//= std::iter::Iterator::fold
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
//= std::iter::Iterator::last
pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut l = None;
    while let Some(x) = it.next() { l = Some(x); }
    l
}
//= <std::vec::Vec<T> as std::iter::FromIterator<T>>::from_iter
pub fn vec_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut v = Vec::new();
    for x in it { v.push(x); }
    v
}
//= <std::vec::Vec<T, A> as std::iter::Extend<T>>::extend
pub fn vec_extend<T, A: Allocator, I: IntoIterator<Item = T>>(v: &mut Vec<T, A>, it: I) {
    for x in it { v.push(x); }
}
//= <std::result::Result<V, E> as std::iter::FromIterator<std::result::Result<A, E>>>::from_iter
//= <std::result::Result<V, E> as std::iter::FromIterator<std::result::Result<T, E>>>::from_iter
pub fn result_from_iter<A, E, V: FromIterator<A>, I: IntoIterator<Item = Result<A, E>>>(it: I) -> Result<V, E> {
    let mut v: Vec<A> = Vec::new();
    for x in it {
        match x {
            Ok(a) => v.push(a),
            Err(e) => return Err(e),
        }
    }
    Ok(V::from_iter(v))
}
//= std::iter::Iterator::try_fold
pub fn iter_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x)?; }
    R::from_output(acc)
}
//= std::iter::Iterator::try_for_each
pub fn iter_try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: Try<Output = ()>>(it: &mut I, mut f: F) -> R {
    while let Some(x) = it.next() { f(x)?; }
    R::from_output(())
}
//= core::unit::<impl std::iter::FromIterator<()> for ()>::from_iter
pub fn unit_from_iter<I: IntoIterator<Item = ()>>(it: I) {
    for _ in it {}
}
//= <std::option::Option<V> as std::iter::FromIterator<std::option::Option<A>>>::from_iter
//= <std::option::Option<V> as std::iter::FromIterator<std::option::Option<T>>>::from_iter
pub fn option_from_iter<A, V: FromIterator<A>, I: IntoIterator<Item = Option<A>>>(it: I) -> Option<V> {
    let mut v: Vec<A> = Vec::new();
    for x in it {
        match x {
            Some(a) => v.push(a),
            None => return None,
        }
    }
    Some(V::from_iter(v))
}
//= <std::string::String as std::iter::FromIterator<std::string::String>>::from_iter
pub fn string_from_iter<I: IntoIterator<Item = String>>(it: I) -> String {
    let mut s = String::new();
    for x in it { s.push_str(&x); }
    s
}
//= <std::collections::HashMap<K, V, S> as std::iter::FromIterator<(K, V)>>::from_iter
pub fn map_from_iter<K: Eq + Hash, V, S: BuildHasher + Default, T: IntoIterator<Item = (K, V)>>(it: T) -> HashMap<K, V, S> {
    let mut m = HashMap::with_hasher(S::default());
    for (k, v) in it { m.insert(k, v); }
    m
}
//= <std::collections::HashMap<K, V, S, A> as std::iter::Extend<(K, V)>>::extend
pub fn map_extend<K: Eq + Hash, V, S: BuildHasher, A: Allocator, T: IntoIterator<Item = (K, V)>>(m: &mut HashMap<K, V, S>, it: T) {
    for (k, v) in it { m.insert(k, v); }
}
//= <std::string::String as std::iter::FromIterator<&'a str>>::from_iter
pub fn string_from_strs<I: IntoIterator>(it: I) -> String where I::Item: AsRef<str> {
    let mut s = String::new();
    for x in it { s.push_str(x.as_ref()); }
    s
}
//= <std::string::String as std::iter::Extend<std::string::String>>::extend
pub fn string_extend<I: IntoIterator<Item = String>>(s: &mut String, it: I) {
    for x in it { s.push_str(&x); }
}
//= <std::string::String as std::iter::Extend<&'a str>>::extend
pub fn string_extend_strs<I: IntoIterator>(s: &mut String, it: I) where I::Item: AsRef<str> {
    for x in it { s.push_str(x.as_ref()); }
}
//= std::boxed::iter::<impl std::iter::FromIterator<T> for std::boxed::Box<[T]>>::from_iter
pub fn boxed_from_iter<T, I: IntoIterator<Item = T>>(it: I) -> Box<[T]> {
    let mut v = Vec::new();
    for x in it { v.push(x); }
    v.into_boxed_slice()
}
// field by field the library's Zip
pub struct Zip<A, B> { a: A, b: B, index: usize, len: usize }
//= <std::iter::Zip<A, B> as std::iter::adapters::zip::ZipImpl<A, B>>::new
pub fn zip_new<A: Iterator, B: Iterator>(a: A, b: B) -> Zip<A, B> { Zip { a, b, index: 0, len: 0 } }
//= <std::iter::Zip<A, B> as std::iter::Iterator>::next
pub fn zip_next<A: Iterator, B: Iterator>(z: &mut Zip<A, B>) -> Option<(A::Item, B::Item)> {
    let x = match z.a.next() { Some(x) => x, None => return None };
    match z.b.next() { Some(y) => Some((x, y)), None => None }
}
// the library's algorithm, so that a list that is not sorted gets the library's answer
//= core::slice::<impl [T]>::binary_search_by
pub fn halving_search_by<T, F: FnMut(&T) -> Ordering>(s: &[T], mut f: F) -> Result<usize, usize> {
    let mut size = s.len();
    if size == 0 { return Err(0); }
    let mut base = 0usize;
    while size > 1 {
        let half = size / 2;
        let mid = base + half;
        if f(&s[mid]) != Ordering::Greater { base = mid; }
        size -= half;
    }
    match f(&s[base]) {
        Ordering::Equal => Ok(base),
        Ordering::Less => Err(base + 1),
        Ordering::Greater => Err(base),
    }
}
//= core::slice::<impl [T]>::binary_search_by_key
pub fn halving_search_by_key<T, B: Ord, F: FnMut(&T) -> B>(s: &[T], b: &B, mut f: F) -> Result<usize, usize> {
    halving_search_by(s, |k| f(k).cmp(b))
}
//= core::slice::<impl [T]>::binary_search
pub fn halving_search<T: Ord>(s: &[T], x: &T) -> Result<usize, usize> {
    halving_search_by(s, |p| p.cmp(x))
}
