//! Reference bodies for the standard-library combinators.  The analyser inlines
//! these (as MIR) at the corresponding call sites, so that a `match`, a `?`, a
//! combinator chain and an explicit loop produce the same control flow.
//! Nothing in here is ever executed.
#![allow(dead_code, clippy::all)]
use std::cmp::Ordering;
use std::ops::ControlFlow;

// ---- stand-ins the analyser interprets itself -------------------------------
/// Adds one element to a collection.
pub fn add_one<C, T>(_c: &mut C, _x: T) {}
/// A new empty collection.
pub fn empty<C>() -> C { loop {} }
pub fn default<C>() -> C { loop {} }
/// Result of a reduction the analyser treats as opaque.
pub fn reduced<I, T>(_it: &I) -> T { loop {} }
pub fn choice() -> bool { loop {} }

// ---- Option ----------------------------------------------------------------
pub fn option_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> {
    match o { Some(x) => Some(f(x)), None => None }
}
pub fn option_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> {
    match o { Some(x) => f(x), None => None }
}
pub fn option_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> {
    match o { Some(x) => Some(x), None => f() }
}
pub fn option_or<T>(o: Option<T>, p: Option<T>) -> Option<T> {
    match o { Some(x) => Some(x), None => p }
}
pub fn ordering_then(o: Ordering, p: Ordering) -> Ordering {
    match o { Ordering::Equal => p, x => x }
}
pub fn ordering_then_with<F: FnOnce() -> Ordering>(o: Ordering, f: F) -> Ordering {
    match o { Ordering::Equal => f(), x => x }
}
pub fn ordering_is_eq(o: Ordering) -> bool {
    match o { Ordering::Equal => true, _ => false }
}
pub fn ordering_is_ne(o: Ordering) -> bool {
    match o { Ordering::Equal => false, _ => true }
}
pub fn option_and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> {
    match o { Some(_) => p, None => None }
}
pub fn option_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> {
    match o { Some(x) => Ok(x), None => Err(e) }
}
pub fn option_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> {
    match o { Some(x) => Ok(x), None => Err(f()) }
}
pub fn option_unwrap_or<T>(o: Option<T>, d: T) -> T {
    match o { Some(x) => x, None => d }
}
pub fn option_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T {
    match o { Some(x) => x, None => f() }
}
pub fn option_unwrap_or_default<T>(o: Option<T>) -> T {
    match o { Some(x) => x, None => default() }
}
pub fn option_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U {
    match o { Some(x) => f(x), None => d }
}
pub fn option_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U {
    match o { Some(x) => f(x), None => d() }
}
pub fn option_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> {
    match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None }
}
pub fn option_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
    match o { Some(x) => f(x), None => false }
}
pub fn option_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
    match o { Some(x) => f(x), None => true }
}
pub fn option_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> {
    match o { Some(x) => { f(&x); Some(x) } None => None }
}
pub fn option_expect<T>(o: Option<T>) -> T {
    match o { Some(x) => x, None => panic!() }
}
pub fn option_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> {
    match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) }
}
pub fn option_flatten<T>(o: Option<Option<T>>) -> Option<T> {
    match o { Some(x) => x, None => None }
}
pub fn option_zip<T, U>(a: Option<T>, b: Option<U>) -> Option<(T, U)> {
    match a { Some(x) => match b { Some(y) => Some((x, y)), None => None }, None => None }
}
pub fn option_take<T>(o: &mut Option<T>) -> Option<T> {
    std::mem::replace(o, None)
}
pub fn option_branch<T>(o: Option<T>) -> ControlFlow<Option<std::convert::Infallible>, T> {
    match o { Some(x) => ControlFlow::Continue(x), None => ControlFlow::Break(None) }
}
pub fn option_from_residual<T>(_r: Option<std::convert::Infallible>) -> Option<T> { None }
pub fn option_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T {
    if o.is_none() { *o = Some(f()); }
    match o { Some(x) => x, None => panic!() }
}

// ---- Result ----------------------------------------------------------------
pub fn result_map<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> {
    match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) }
}
pub fn result_map_err<T, E, U, F: FnOnce(E) -> U>(o: Result<T, E>, f: F) -> Result<T, U> {
    match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) }
}
pub fn result_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> {
    match o { Ok(x) => f(x), Err(e) => Err(e) }
}
pub fn result_and<T, E, U>(o: Result<T, E>, p: Result<U, E>) -> Result<U, E> {
    match o { Ok(_) => p, Err(e) => Err(e) }
}
pub fn result_or_else<T, E, G, F: FnOnce(E) -> Result<T, G>>(o: Result<T, E>, f: F) -> Result<T, G> {
    match o { Ok(x) => Ok(x), Err(e) => f(e) }
}
pub fn result_or<T, E, G>(o: Result<T, E>, p: Result<T, G>) -> Result<T, G> {
    match o { Ok(x) => Ok(x), Err(_) => p }
}
pub fn result_ok<T, E>(o: Result<T, E>) -> Option<T> {
    match o { Ok(x) => Some(x), Err(_) => None }
}
pub fn result_err<T, E>(o: Result<T, E>) -> Option<E> {
    match o { Ok(_) => None, Err(e) => Some(e) }
}
pub fn result_unwrap_or<T, E>(o: Result<T, E>, d: T) -> T {
    match o { Ok(x) => x, Err(_) => d }
}
pub fn result_unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T {
    match o { Ok(x) => x, Err(e) => f(e) }
}
pub fn result_unwrap_or_default<T, E>(o: Result<T, E>) -> T {
    match o { Ok(x) => x, Err(_) => default() }
}
pub fn result_map_or<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U {
    match o { Ok(x) => f(x), Err(_) => d }
}
pub fn result_map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U {
    match o { Ok(x) => f(x), Err(e) => d(e) }
}
pub fn result_is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool {
    match o { Ok(x) => f(x), Err(_) => false }
}
pub fn result_is_err_and<T, E, F: FnOnce(E) -> bool>(o: Result<T, E>, f: F) -> bool {
    match o { Ok(_) => false, Err(e) => f(e) }
}
pub fn result_inspect<T, E, F: FnOnce(&T)>(o: Result<T, E>, f: F) -> Result<T, E> {
    match o { Ok(x) => { f(&x); Ok(x) } Err(e) => Err(e) }
}
pub fn result_inspect_err<T, E, F: FnOnce(&E)>(o: Result<T, E>, f: F) -> Result<T, E> {
    match o { Ok(x) => Ok(x), Err(e) => { f(&e); Err(e) } }
}
pub fn result_expect<T, E>(o: Result<T, E>) -> T {
    match o { Ok(x) => x, Err(_) => panic!() }
}
pub fn result_expect_err<T, E>(o: Result<T, E>) -> E {
    match o { Ok(_) => panic!(), Err(e) => e }
}
pub fn result_transpose<T, E>(o: Result<Option<T>, E>) -> Option<Result<T, E>> {
    match o { Ok(Some(x)) => Some(Ok(x)), Ok(None) => None, Err(e) => Some(Err(e)) }
}
pub fn result_flatten<T, E>(o: Result<Result<T, E>, E>) -> Result<T, E> {
    match o { Ok(x) => x, Err(e) => Err(e) }
}
pub fn result_branch<T, E>(o: Result<T, E>) -> ControlFlow<Result<std::convert::Infallible, E>, T> {
    match o { Ok(x) => ControlFlow::Continue(x), Err(e) => ControlFlow::Break(Err(e)) }
}
pub fn result_from_residual<T, E, F, C: FnOnce(E) -> F>(r: Result<T, E>, conv: C) -> Result<T, F> {
    match r { Err(e) => Err(conv(e)), Ok(x) => Ok(x) }
}
/// `Confined::try_from` and friends: size check, contents unchanged.
pub fn checked_size<C, E>(c: C, r: Result<(), E>) -> Result<C, E> {
    match r { Ok(_) => Ok(c), Err(e) => Err(e) }
}

// ---- bool ------------------------------------------------------------------
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> {
    if b { Some(f()) } else { None }
}
pub fn bool_then_some<T>(b: bool, x: T) -> Option<T> {
    if b { Some(x) } else { None }
}

// ---- map entries -------------------------------------------------------------
pub trait MapLike<K, V> {
    fn get_mut(&mut self, k: &K) -> Option<&mut V>;
    fn insert(&mut self, k: K, v: V);
}
pub struct Entry<'a, M, K> { pub map: &'a mut M, pub key: K }
pub fn entry_and_modify<'a, K, V, M: MapLike<K, V>, F: FnOnce(&mut V)>(e: Entry<'a, M, K>, f: F) -> Entry<'a, M, K> {
    if let Some(v) = e.map.get_mut(&e.key) { f(v) }
    e
}
pub fn entry_or_insert<'a, K, V: 'a, M: MapLike<K, V>>(e: Entry<'a, M, K>, x: V) -> &'a mut V {
    if let None = e.map.get_mut(&e.key) { entry_fill(e.map, e.key, x) } else { entry_slot(e.map, e.key) }
}
pub fn entry_or_insert_with<'a, K, V: 'a, M: MapLike<K, V>, F: FnOnce() -> V>(e: Entry<'a, M, K>, f: F) -> &'a mut V {
    if let None = e.map.get_mut(&e.key) { entry_fill(e.map, e.key, f()) } else { entry_slot(e.map, e.key) }
}
pub fn entry_or_default<'a, K, V: 'a, M: MapLike<K, V>>(e: Entry<'a, M, K>) -> &'a mut V {
    if let None = e.map.get_mut(&e.key) { entry_fill(e.map, e.key, default()) } else { entry_slot(e.map, e.key) }
}
/// interpreted by the analyser: reference to the value under a key
pub fn entry_slot<'a, M, K, V>(_m: &'a mut M, _k: K) -> &'a mut V { loop {} }
/// interpreted by the analyser: insert, then reference to the value under the key
pub fn entry_fill<'a, M, K, V>(_m: &'a mut M, _k: K, _v: V) -> &'a mut V { loop {} }

// ---- iterator adaptors ---------------------------------------------------------
pub struct Map<I, F> { pub iter: I, pub f: F }
pub fn map_next<I: Iterator, B, F: FnMut(I::Item) -> B>(s: &mut Map<I, F>) -> Option<B> {
    match s.iter.next() { Some(x) => Some((s.f)(x)), None => None }
}
pub struct Filter<I, F> { pub iter: I, pub f: F }
pub fn filter_next<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut Filter<I, F>) -> Option<I::Item> {
    loop {
        match s.iter.next() {
            Some(x) => if (s.f)(&x) { return Some(x) },
            None => return None,
        }
    }
}
pub struct FilterMap<I, F> { pub iter: I, pub f: F }
pub fn filtermap_next<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(s: &mut FilterMap<I, F>) -> Option<B> {
    loop {
        match s.iter.next() {
            Some(x) => if let Some(y) = (s.f)(x) { return Some(y) },
            None => return None,
        }
    }
}
pub struct Inspect<I, F> { pub iter: I, pub f: F }
pub fn inspect_next<I: Iterator, F: FnMut(&I::Item)>(s: &mut Inspect<I, F>) -> Option<I::Item> {
    match s.iter.next() { Some(x) => { (s.f)(&x); Some(x) } None => None }
}
pub struct TakeWhile<I, F> { pub iter: I, pub f: F }
pub fn takewhile_next<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut TakeWhile<I, F>) -> Option<I::Item> {
    match s.iter.next() { Some(x) => if (s.f)(&x) { Some(x) } else { None }, None => None }
}
pub struct MapWhile<I, F> { pub iter: I, pub f: F }
pub fn mapwhile_next<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(s: &mut MapWhile<I, F>) -> Option<B> {
    match s.iter.next() { Some(x) => (s.f)(x), None => None }
}
pub struct FlatMap<I, F, U> { pub iter: I, pub f: F, pub cur: Option<U> }
pub fn flatmap_next<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(s: &mut FlatMap<I, F, U::IntoIter>) -> Option<U::Item> {
    loop {
        if let Some(c) = &mut s.cur {
            match c.next() {
                Some(x) => return Some(x),
                None => s.cur = None,
            }
        }
        match s.iter.next() {
            Some(x) => s.cur = Some((s.f)(x).into_iter()),
            None => return None,
        }
    }
}
pub struct Flatten<I, U> { pub iter: I, pub cur: Option<U> }
pub fn flatten_next<U: IntoIterator, I: Iterator<Item = U>>(s: &mut Flatten<I, U::IntoIter>) -> Option<U::Item> {
    loop {
        if let Some(c) = &mut s.cur {
            match c.next() {
                Some(x) => return Some(x),
                None => s.cur = None,
            }
        }
        match s.iter.next() {
            Some(x) => s.cur = Some(x.into_iter()),
            None => return None,
        }
    }
}
pub struct Chain<A, B> { pub a: A, pub b: B, pub first: bool }
pub fn chain_next<A: Iterator, B: Iterator<Item = A::Item>>(s: &mut Chain<A, B>) -> Option<A::Item> {
    if s.first {
        match s.a.next() { Some(x) => return Some(x), None => s.first = false }
    }
    s.b.next()
}
pub struct Zip<A, B> { pub a: A, pub b: B }
pub fn zip_next<A: Iterator, B: Iterator>(s: &mut Zip<A, B>) -> Option<(A::Item, B::Item)> {
    match s.a.next() {
        Some(x) => match s.b.next() { Some(y) => Some((x, y)), None => None },
        None => None,
    }
}
pub struct Enumerate<I> { pub iter: I }
pub fn enumerate_next<I: Iterator>(s: &mut Enumerate<I>) -> Option<(usize, I::Item)> {
    match s.iter.next() { Some(x) => Some((position_of(&s.iter), x)), None => None }
}
/// interpreted: running index
pub fn position_of<I>(_i: &I) -> usize { loop {} }
pub fn last_position_of<I>(_i: &I) -> usize { loop {} }
pub struct OptIter<T> { pub opt: Option<T> }
pub fn optiter_next<T>(s: &mut OptIter<T>) -> Option<T> {
    std::mem::replace(&mut s.opt, None)
}

// ---- iterator consumers ----------------------------------------------------------
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() { f(x) }
}
pub fn iter_try_for_each<I: Iterator, E, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() { match f(x) { Ok(_) => {} Err(e) => return Err(e) } }
    Ok(())
}
pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x) }
    acc
}
pub fn iter_try_fold<I: Iterator, B, E, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() { match f(acc, x) { Ok(b) => acc = b, Err(e) => return Err(e) } }
    Ok(acc)
}
pub fn iter_try_fold_option<I: Iterator, B, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> {
    let mut acc = init;
    while let Some(x) = it.next() { match f(acc, x) { Some(b) => acc = b, None => return None } }
    Some(acc)
}
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true } }
    false
}
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false } }
    true
}
pub fn iter_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() { if f(&x) { return Some(x) } }
    None
}
pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y) } }
    None
}
pub fn iter_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    while let Some(x) = it.next() { if f(x) { return Some(position_of(it)) } }
    None
}
pub fn iter_rposition<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    while let Some(x) = it.next() { if f(x) { return Some(last_position_of(it)) } }
    None
}
pub fn iter_reduce_opaque<I: Iterator, T>(mut it: I) -> T {
    let r = reduced(&it);
    while let Some(_) = it.next() {}
    r
}
pub fn iter_sum<I: Iterator, T>(mut it: I, zero: T) -> T {
    let mut acc = zero;
    while let Some(x) = it.next() { add_assign(&mut acc, x) }
    acc
}
pub fn add_assign<T, X>(_a: &mut T, _x: X) {}
pub fn iter_collect<I: Iterator, C>(mut it: I) -> C {
    let mut c: C = empty();
    while let Some(x) = it.next() { add_one(&mut c, x) }
    c
}
pub fn iter_collect_result<I: Iterator<Item = Result<T, E>>, T, E, C>(mut it: I) -> Result<C, E> {
    let mut c: C = empty();
    while let Some(x) = it.next() { match x { Ok(x) => add_one(&mut c, x), Err(e) => return Err(e) } }
    Ok(c)
}
pub fn iter_collect_option<I: Iterator<Item = Option<T>>, T, C>(mut it: I) -> Option<C> {
    let mut c: C = empty();
    while let Some(x) = it.next() { match x { Some(x) => add_one(&mut c, x), None => return None } }
    Some(c)
}
pub fn iter_extend<I: IntoIterator, C>(c: &mut C, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { add_one(c, x) }
}
pub fn iter_extend_checked<I: IntoIterator, C, E>(c: &mut C, it: I, r: Result<(), E>) -> Result<(), E> {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { add_one(c, x) }
    r
}
pub fn iter_partition<I: Iterator, C, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) -> (C, C) {
    let mut a: C = empty();
    let mut b: C = empty();
    while let Some(x) = it.next() { if f(&x) { add_one(&mut a, x) } else { add_one(&mut b, x) } }
    (a, b)
}
pub fn iter_unzip<I: Iterator<Item = (X, Y)>, X, Y, A, B>(mut it: I) -> (A, B) {
    let mut a: A = empty();
    let mut b: B = empty();
    while let Some((x, y)) = it.next() { add_one(&mut a, x); add_one(&mut b, y) }
    (a, b)
}
/// In-place filtering: every element is shown to the predicate.
pub fn retain<I: Iterator, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) {
    while let Some(x) = it.next() { if f(&x) { keep(&x) } else { discard(&x) } }
}
pub fn keep<T>(_x: &T) {}
pub fn discard<T>(_x: &T) {}
