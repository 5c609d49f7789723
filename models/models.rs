//! Models of std items, used by the abstract interpreter in place of the std bodies.
//! A function `a__b__c` stands for the std function with (generics-free) path `a::b::c`.
//! `__vp_*` functions are interpreter intrinsics.
#![allow(non_snake_case, unused, non_camel_case_types)]

use std::ops::ControlFlow;

pub mod vpm {
    pub fn __vp_retry() -> ! { loop {} }
    pub fn __vp_phase() -> ! { loop {} }
    pub fn __vp_can_retry() -> bool { loop {} }
    pub fn __vp_new_vec<T>() -> Vec<T> { loop {} }

    // ---- iterator adaptors -------------------------------------------------------------
    pub struct Map<I, F> { pub iter: I, pub f: F }
    impl<B, I: Iterator, F: FnMut(I::Item) -> B> Iterator for Map<I, F> {
        type Item = B;
        fn next(&mut self) -> Option<B> {
            match self.iter.next() { None => None, Some(x) => Some((self.f)(x)) }
        }
    }
    impl<B, I: DoubleEndedIterator, F: FnMut(I::Item) -> B> DoubleEndedIterator for Map<I, F> {
        fn next_back(&mut self) -> Option<B> {
            match self.iter.next_back() { None => None, Some(x) => Some((self.f)(x)) }
        }
    }

    pub struct Filter<I, F> { pub iter: I, pub f: F }
    impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for Filter<I, F> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            if __vp_can_retry() {
                match self.iter.next() {
                    None => None,
                    Some(x) => if (self.f)(&x) { Some(x) } else { __vp_retry() },
                }
            } else {
                loop {
                    match self.iter.next() {
                        None => return None,
                        Some(x) => if (self.f)(&x) { return Some(x); },
                    }
                }
            }
        }
    }

    pub struct FilterMap<I, F> { pub iter: I, pub f: F }
    impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> {
        type Item = B;
        fn next(&mut self) -> Option<B> {
            if __vp_can_retry() {
                match self.iter.next() {
                    None => None,
                    Some(x) => match (self.f)(x) { Some(y) => Some(y), None => __vp_retry() },
                }
            } else {
                loop {
                    match self.iter.next() {
                        None => return None,
                        Some(x) => if let Some(y) = (self.f)(x) { return Some(y); },
                    }
                }
            }
        }
    }

    pub struct MapWhile<I, F> { pub iter: I, pub f: F }
    impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for MapWhile<I, F> {
        type Item = B;
        fn next(&mut self) -> Option<B> {
            match self.iter.next() { None => None, Some(x) => (self.f)(x) }
        }
    }

    pub struct TakeWhile<I, F> { pub iter: I, pub f: F, pub done: bool }
    impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, F> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            if self.done { return None; }
            match self.iter.next() {
                None => None,
                Some(x) => if (self.f)(&x) { Some(x) } else { self.done = true; None },
            }
        }
    }

    pub struct SkipWhile<I, F> { pub iter: I, pub f: F, pub started: bool }
    impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, F> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            loop {
                match self.iter.next() {
                    None => return None,
                    Some(x) => if self.started { return Some(x); } else if !(self.f)(&x) { self.started = true; return Some(x); },
                }
            }
        }
    }

    pub struct Enumerate<I> { pub iter: I, pub count: usize }
    impl<I: Iterator> Iterator for Enumerate<I> {
        type Item = (usize, I::Item);
        fn next(&mut self) -> Option<(usize, I::Item)> {
            match self.iter.next() {
                None => None,
                Some(x) => { let i = self.count; self.count = i + 1; Some((i, x)) }
            }
        }
    }

    pub struct Chain<A, B> { pub a: Option<A>, pub b: B }
    impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for Chain<A, B> {
        type Item = A::Item;
        fn next(&mut self) -> Option<A::Item> {
            let r = __vp_can_retry();
            if let Some(a) = &mut self.a {
                match a.next() {
                    Some(x) => return Some(x),
                    None => {
                        self.a = None;
                        if r { __vp_phase() }
                    }
                }
            }
            self.b.next()
        }
    }

    pub struct Zip<A, B> { pub a: A, pub b: B }
    impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> {
        type Item = (A::Item, B::Item);
        fn next(&mut self) -> Option<(A::Item, B::Item)> {
            match self.a.next() {
                None => None,
                Some(x) => match self.b.next() { None => None, Some(y) => Some((x, y)) },
            }
        }
    }

    pub struct Take<I> { pub iter: I, pub n: usize }
    impl<I: Iterator> Iterator for Take<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            if self.n == 0 { None } else { self.n -= 1; self.iter.next() }
        }
    }

    pub struct Inspect<I, F> { pub iter: I, pub f: F }
    impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            match self.iter.next() { None => None, Some(x) => { (self.f)(&x); Some(x) } }
        }
    }

    pub struct Peekable<I: Iterator> { pub iter: I, pub peeked: Option<Option<I::Item>> }
    impl<I: Iterator> Iterator for Peekable<I> {
        type Item = I::Item;
        fn next(&mut self) -> Option<I::Item> {
            match self.peeked.take() { Some(x) => x, None => self.iter.next() }
        }
    }

    pub struct FlatMap<I, U: IntoIterator, F> { pub iter: I, pub f: F, pub front: Option<U::IntoIter> }
    impl<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U> Iterator for FlatMap<I, U, F> {
        type Item = U::Item;
        fn next(&mut self) -> Option<U::Item> {
            loop {
                if let Some(it) = &mut self.front {
                    match it.next() { Some(x) => return Some(x), None => { self.front = None; } }
                }
                match self.iter.next() {
                    None => return None,
                    Some(x) => { self.front = Some((self.f)(x).into_iter()); }
                }
            }
        }
    }

    pub struct OptIter<T> { pub v: Option<T> }
    impl<T> Iterator for OptIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> { self.v.take() }
    }

    pub struct Successors<T, F> { pub next: Option<T>, pub f: F }
    pub struct FromFn<F> { pub f: F }
    impl<T, F: FnMut() -> Option<T>> Iterator for FromFn<F> {
        type Item = T;
        fn next(&mut self) -> Option<T> { (self.f)() }
    }
    pub struct Repeat<T> { pub v: T }
    impl<T: Clone> Iterator for Repeat<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> { Some(self.v.clone()) }
    }
    pub struct RepeatWith<F> { pub f: F }
    impl<T, F: FnMut() -> T> Iterator for RepeatWith<F> {
        type Item = T;
        fn next(&mut self) -> Option<T> { Some((self.f)()) }
    }
}
use vpm::*;

// ---- Iterator provided methods -----------------------------------------------------------
pub fn core__iter__traits__iterator__Iterator__map<I, F>(iter: I, f: F) -> Map<I, F> { Map { iter, f } }
pub fn core__iter__traits__iterator__Iterator__filter<I, F>(iter: I, f: F) -> Filter<I, F> { Filter { iter, f } }
pub fn core__iter__traits__iterator__Iterator__filter_map<I, F>(iter: I, f: F) -> FilterMap<I, F> { FilterMap { iter, f } }
pub fn core__iter__traits__iterator__Iterator__map_while<I, F>(iter: I, f: F) -> MapWhile<I, F> { MapWhile { iter, f } }
pub fn core__iter__traits__iterator__Iterator__take_while<I, F>(iter: I, f: F) -> TakeWhile<I, F> { TakeWhile { iter, f, done: false } }
pub fn core__iter__traits__iterator__Iterator__skip_while<I, F>(iter: I, f: F) -> SkipWhile<I, F> { SkipWhile { iter, f, started: false } }
pub fn core__iter__traits__iterator__Iterator__enumerate<I>(iter: I) -> Enumerate<I> { Enumerate { iter, count: 0 } }
pub fn core__iter__traits__iterator__Iterator__chain<A, B: IntoIterator>(a: A, b: B) -> Chain<A, B::IntoIter> { Chain { a: Some(a), b: b.into_iter() } }
pub fn core__iter__traits__iterator__Iterator__zip<A, B: IntoIterator>(a: A, b: B) -> Zip<A, B::IntoIter> { Zip { a, b: b.into_iter() } }
pub fn core__iter__adapters__zip__zip<A: IntoIterator, B: IntoIterator>(a: A, b: B) -> Zip<A::IntoIter, B::IntoIter> { Zip { a: a.into_iter(), b: b.into_iter() } }
pub fn core__iter__traits__iterator__Iterator__inspect<I, F>(iter: I, f: F) -> Inspect<I, F> { Inspect { iter, f } }
pub fn core__iter__traits__iterator__Iterator__peekable<I: Iterator>(iter: I) -> Peekable<I> { Peekable { iter, peeked: None } }
pub fn core__iter__adapters__peekable__Peekable__peek<I: Iterator>(p: &mut Peekable<I>) -> Option<&I::Item> {
    if p.peeked.is_none() { let n = p.iter.next(); p.peeked = Some(n); }
    match &p.peeked { Some(Some(x)) => Some(x), _ => None }
}
pub fn core__iter__traits__iterator__Iterator__flat_map<I, U: IntoIterator, F>(iter: I, f: F) -> FlatMap<I, U, F> { FlatMap { iter, f, front: None } }
pub fn core__iter__traits__iterator__Iterator__flatten<I: Iterator<Item = U>, U: IntoIterator>(iter: I) -> FlatMap<I, U, fn(U) -> U> { FlatMap { iter, f: ident, front: None } }
fn ident<T>(t: T) -> T { t }
pub fn core__iter__traits__iterator__Iterator__cloned<I>(iter: I) -> I { iter }
pub fn core__iter__traits__iterator__Iterator__copied<I>(iter: I) -> I { iter }
pub fn core__iter__traits__iterator__Iterator__by_ref<I>(iter: &mut I) -> &mut I { iter }
pub fn core__iter__traits__iterator__Iterator__fuse<I>(iter: I) -> I { iter }
pub fn core__iter__sources__once__once<T>(t: T) -> OptIter<T> { OptIter { v: Some(t) } }
pub fn core__iter__sources__empty__empty<T>() -> OptIter<T> { OptIter { v: None } }
pub fn core__iter__sources__from_fn__from_fn<F>(f: F) -> FromFn<F> { FromFn { f } }
pub fn core__iter__sources__repeat__repeat<T>(v: T) -> Repeat<T> { Repeat { v } }
pub fn core__iter__sources__repeat_with__repeat_with<F>(f: F) -> RepeatWith<F> { RepeatWith { f } }

pub fn core__iter__traits__iterator__Iterator__for_each<I: Iterator, F: FnMut(I::Item)>(iter: I, mut f: F) {
    for x in iter { f(x); }
}
pub fn core__iter__traits__iterator__Iterator__try_for_each<E, I: Iterator, F: FnMut(I::Item) -> Result<(), E>>(iter: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = iter.next() { match f(x) { Ok(_) => {}, Err(e) => return Err(e) } }
    Ok(())
}
pub fn core__iter__traits__iterator__Iterator__fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(iter: I, init: B, mut f: F) -> B {
    let mut acc = init;
    for x in iter { acc = f(acc, x); }
    acc
}
pub fn core__iter__traits__iterator__Iterator__any<I: Iterator, F: FnMut(I::Item) -> bool>(iter: &mut I, mut f: F) -> bool {
    while let Some(x) = iter.next() { if f(x) { return true; } }
    false
}
pub fn core__iter__traits__iterator__Iterator__all<I: Iterator, F: FnMut(I::Item) -> bool>(iter: &mut I, mut f: F) -> bool {
    while let Some(x) = iter.next() { if !f(x) { return false; } }
    true
}
pub fn core__iter__traits__iterator__Iterator__find<I: Iterator, F: FnMut(&I::Item) -> bool>(iter: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = iter.next() { if f(&x) { return Some(x); } }
    None
}
pub fn core__iter__traits__iterator__Iterator__find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(iter: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = iter.next() { if let Some(y) = f(x) { return Some(y); } }
    None
}
pub fn core__iter__traits__iterator__Iterator__position<I: Iterator, F: FnMut(I::Item) -> bool>(iter: &mut I, mut f: F) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = iter.next() { if f(x) { return Some(i); } i += 1; }
    None
}
pub fn core__iter__traits__iterator__Iterator__count<I: Iterator>(iter: I) -> usize {
    let mut i = 0;
    for _ in iter { i += 1; }
    i
}
pub fn core__iter__traits__iterator__Iterator__last<I: Iterator>(iter: I) -> Option<I::Item> {
    let mut l = None;
    for x in iter { l = Some(x); }
    l
}
pub fn core__iter__traits__iterator__Iterator__nth<I: Iterator>(iter: &mut I, n: usize) -> Option<I::Item> {
    let mut i = 0;
    while i < n { iter.next(); i += 1; }
    iter.next()
}
pub fn __vp_skip1<I: Iterator>(iter: I) -> I { let mut iter = iter; iter.next(); iter }
// generic collectors (used when the source is not a plain sequence)
pub fn __vp_collect_vec<I: Iterator>(iter: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    for x in iter { v.push(x); }
    v
}
pub fn __vp_extend_vec<I: Iterator>(v: &mut Vec<I::Item>, iter: I) {
    for x in iter { v.push(x); }
}
pub fn __vp_collect_set<I: Iterator>(s: &mut std::collections::HashSet<I::Item>, iter: I) where I::Item: Eq + std::hash::Hash {
    for x in iter { s.insert(x); }
}
pub fn __vp_collect_map<K: Eq + std::hash::Hash, V, I: Iterator<Item = (K, V)>>(s: &mut std::collections::HashMap<K, V>, iter: I) {
    for (k, v) in iter { s.insert(k, v); }
}
pub fn __vp_collect_string<I: Iterator<Item = String>>(iter: I) -> String {
    let mut s = String::new();
    for x in iter { s.push_str(&x); }
    s
}
pub fn __vp_collect_tokens<I: Iterator>(iter: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    for x in iter { v.push(x); }
    v
}
pub fn __vp_extend_tokens<I: Iterator>(v: &mut Vec<I::Item>, iter: I) {
    for x in iter { v.push(x); }
}
pub fn __vp_collect_result<T, E, I: Iterator<Item = Result<T, E>>>(iter: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    for x in iter { match x { Ok(y) => v.push(y), Err(e) => return Err(e) } }
    Ok(v)
}
pub fn __vp_collect_option<T, I: Iterator<Item = Option<T>>>(iter: I) -> Option<Vec<T>> {
    let mut v = Vec::new();
    for x in iter { match x { Some(y) => v.push(y), None => return None } }
    Some(v)
}
pub fn __vp_retain<T, F: FnMut(&T) -> bool>(v: Vec<T>, mut f: F) -> Vec<T> {
    let mut r = Vec::new();
    for x in v { if f(&x) { r.push(x); } }
    r
}
pub fn __vp_partition<I: Iterator, F: FnMut(&I::Item) -> bool>(iter: I, mut f: F) -> (Vec<I::Item>, Vec<I::Item>) {
    let mut a = Vec::new();
    let mut b = Vec::new();
    for x in iter { if f(&x) { a.push(x); } else { b.push(x); } }
    (a, b)
}
pub fn __vp_unzip<A, B, I: Iterator<Item = (A, B)>>(iter: I) -> (Vec<A>, Vec<B>) {
    let mut a = Vec::new();
    let mut b = Vec::new();
    for (x, y) in iter { a.push(x); b.push(y); }
    (a, b)
}
pub fn __vp_repeat_vec<T: Clone>(v: T, n: usize) -> Vec<T> {
    let mut r = Vec::new();
    for _ in 0..n { r.push(v.clone()); }
    r
}
pub fn __vp_range_incl(a: usize, b: usize) -> std::ops::Range<usize> { a..b + 1 }

// ---- Option --------------------------------------------------------------------------------
pub fn core__option__Option__map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn core__option__Option__inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => { f(&x); Some(x) } None => None } }
pub fn core__option__Option__and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn core__option__Option__and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> { match o { Some(_) => p, None => None } }
pub fn core__option__Option__filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
pub fn core__option__Option__or<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => p } }
pub fn core__option__Option__or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn core__option__Option__xor<T>(o: Option<T>, p: Option<T>) -> Option<T> { match (o, p) { (Some(x), None) => Some(x), (None, Some(x)) => Some(x), _ => None } }
pub fn core__option__Option__unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn core__option__Option__unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn core__option__Option__unwrap_or_default<T: Default>(o: Option<T>) -> T { match o { Some(x) => x, None => T::default() } }
pub fn core__option__Option__map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn core__option__Option__map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn core__option__Option__ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn core__option__Option__ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn core__option__Option__is_some<T>(o: &Option<T>) -> bool { match o { Some(_) => true, None => false } }
pub fn core__option__Option__is_none<T>(o: &Option<T>) -> bool { match o { Some(_) => false, None => true } }
pub fn core__option__Option__is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn core__option__Option__is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn core__option__Option__unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => panic!("called `Option::unwrap()` on a `None` value") } }
pub fn core__option__Option__expect<T>(o: Option<T>, m: &str) -> T { match o { Some(x) => x, None => panic!("expect failed") } }
pub fn core__option__Option__unwrap_unchecked<T>(o: Option<T>) -> T { match o { Some(x) => x, None => panic!() } }
pub fn core__option__Option__as_ref<T>(o: &Option<T>) -> Option<&T> { match o { Some(x) => Some(x), None => None } }
pub fn core__option__Option__as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match o { Some(x) => Some(x), None => None } }
pub fn core__option__Option__as_deref<T>(o: &Option<T>) -> Option<&T> { match o { Some(x) => Some(x), None => None } }
pub fn core__option__Option__copied<T>(o: Option<T>) -> Option<T> { o }
pub fn core__option__Option__cloned<T>(o: Option<T>) -> Option<T> { o }
pub fn core__option__Option__take<T>(o: &mut Option<T>) -> Option<T> { std::mem::replace(o, None) }
pub fn core__option__Option__replace<T>(o: &mut Option<T>, v: T) -> Option<T> { std::mem::replace(o, Some(v)) }
pub fn core__option__Option__insert<T>(o: &mut Option<T>, v: T) -> &mut T { *o = Some(v); match o { Some(x) => x, None => panic!() } }
pub fn core__option__Option__get_or_insert<T>(o: &mut Option<T>, v: T) -> &mut T { if o.is_none() { *o = Some(v); } match o { Some(x) => x, None => panic!() } }
pub fn core__option__Option__get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T { if o.is_none() { *o = Some(f()); } match o { Some(x) => x, None => panic!() } }
pub fn core__option__Option__zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> { match (o, p) { (Some(x), Some(y)) => Some((x, y)), _ => None } }
pub fn core__option__Option__flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn core__option__Option__iter<T>(o: &Option<T>) -> OptIter<&T> { match o { Some(x) => OptIter { v: Some(x) }, None => OptIter { v: None } } }
pub fn __vp_option_into_iter<T>(o: Option<T>) -> OptIter<T> { OptIter { v: o } }
pub fn core__option__Option__transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> { match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
pub fn core__bool__then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn core__bool__then_some<T>(b: bool, t: T) -> Option<T> { if b { Some(t) } else { None } }

// ---- Result --------------------------------------------------------------------------------
pub fn core__result__Result__map<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn core__result__Result__map_err<T, E, U, F: FnOnce(E) -> U>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn core__result__Result__map_or<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U { match o { Ok(x) => f(x), Err(_) => d } }
pub fn core__result__Result__map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(o: Result<T, E>, d: D, f: F) -> U { match o { Ok(x) => f(x), Err(e) => d(e) } }
pub fn core__result__Result__and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn core__result__Result__or_else<T, E, U, F: FnOnce(E) -> Result<T, U>>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn core__result__Result__ok<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(x) => Some(x), Err(_) => None } }
pub fn core__result__Result__err<T, E>(o: Result<T, E>) -> Option<E> { match o { Ok(_) => None, Err(e) => Some(e) } }
pub fn core__result__Result__is_ok<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => true, Err(_) => false } }
pub fn core__result__Result__is_err<T, E>(o: &Result<T, E>) -> bool { match o { Ok(_) => false, Err(_) => true } }
pub fn core__result__Result__is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(x) => f(x), Err(_) => false } }
pub fn core__result__Result__unwrap<T, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => panic!("called `Result::unwrap()` on an `Err` value") } }
pub fn core__result__Result__expect<T, E>(o: Result<T, E>, m: &str) -> T { match o { Ok(x) => x, Err(_) => panic!("expect failed") } }
pub fn core__result__Result__unwrap_err<T, E>(o: Result<T, E>) -> E { match o { Ok(_) => panic!(), Err(e) => e } }
pub fn core__result__Result__unwrap_or<T, E>(o: Result<T, E>, d: T) -> T { match o { Ok(x) => x, Err(_) => d } }
pub fn core__result__Result__unwrap_or_default<T: Default, E>(o: Result<T, E>) -> T { match o { Ok(x) => x, Err(_) => T::default() } }
pub fn core__result__Result__unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T { match o { Ok(x) => x, Err(e) => f(e) } }
pub fn core__result__Result__as_ref<T, E>(o: &Result<T, E>) -> Result<&T, &E> { match o { Ok(x) => Ok(x), Err(e) => Err(e) } }
pub fn __vp_result_branch<T, E>(o: Result<T, E>) -> ControlFlow<Result<std::convert::Infallible, E>, T> {
    match o { Ok(x) => ControlFlow::Continue(x), Err(e) => ControlFlow::Break(Err(e)) }
}
pub fn __vp_option_branch<T>(o: Option<T>) -> ControlFlow<Option<std::convert::Infallible>, T> {
    match o { Some(x) => ControlFlow::Continue(x), None => ControlFlow::Break(None) }
}

// ---- cmp -----------------------------------------------------------------------------------
pub fn core__cmp__Ord__max(a: usize, b: usize) -> usize { if b < a { a } else { b } }
pub fn core__cmp__Ord__min(a: usize, b: usize) -> usize { if b < a { b } else { a } }
pub fn core__cmp__max(a: usize, b: usize) -> usize { if b < a { a } else { b } }
pub fn core__cmp__min(a: usize, b: usize) -> usize { if b < a { b } else { a } }

// ---- mem -----------------------------------------------------------------------------------
// replace / swap / take are interpreter primitives
