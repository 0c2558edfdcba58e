//! Reference definitions of the std functions the library uses, written as
//! plain Rust so that the analyser can read their MIR instead of std's
//! optimised bodies. Nothing here is ever executed.
#![allow(dead_code, unused, clippy::all)]
#![no_std]
#![no_implicit_prelude]
extern crate core;
extern crate alloc;
use alloc::vec::Vec;
use alloc::collections::VecDeque;
use core::option::Option::{self, None, Some};
use core::iter::{Iterator, IntoIterator, DoubleEndedIterator};
use core::ops::{FnOnce, FnMut, Fn};
use core::clone::Clone;
use core::cmp::PartialEq;
use core::marker::Copy;
use core::result::Result::{self, Ok, Err};

// ---------------------------------------------------------------- Option
pub fn opt_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn opt_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn opt_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn opt_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn opt_and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> { match o { Some(_) => p, None => None } }
pub fn opt_or<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => p } }
pub fn opt_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn opt_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
pub fn opt_unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => core::panic!() } }
pub fn opt_expect<T>(o: Option<T>, _m: &str) -> T { match o { Some(x) => x, None => core::panic!() } }
pub fn opt_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn opt_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn opt_is_some<T>(o: &Option<T>) -> bool { match *o { Some(_) => true, None => false } }
pub fn opt_is_none<T>(o: &Option<T>) -> bool { match *o { Some(_) => false, None => true } }
pub fn opt_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn opt_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn opt_as_ref<T>(o: &Option<T>) -> Option<&T> { match *o { Some(ref x) => Some(x), None => None } }
pub fn opt_as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match *o { Some(ref mut x) => Some(x), None => None } }
pub fn opt_take<T>(o: &mut Option<T>) -> Option<T> { core::mem::replace(o, None) }
pub fn opt_take_if<T, F: FnOnce(&mut T) -> bool>(o: &mut Option<T>, f: F) -> Option<T> { let b = match *o { Some(ref mut x) => f(x), None => false }; if b { core::mem::replace(o, None) } else { None } }
pub fn opt_replace<T>(o: &mut Option<T>, v: T) -> Option<T> { core::mem::replace(o, Some(v)) }
pub fn opt_insert<T>(o: &mut Option<T>, v: T) -> &mut T { *o = Some(v); match *o { Some(ref mut x) => x, None => core::panic!() } }
pub fn opt_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T {
    let b = match *o { Some(_) => false, None => true };
    if b { *o = Some(f()); }
    match *o { Some(ref mut x) => x, None => core::panic!() }
}
pub fn opt_cloned<T: Clone>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(x.clone()), None => None } }
pub fn opt_copied<T: Copy>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
pub fn opt_clone<T: Clone>(o: &Option<T>) -> Option<T> { match *o { Some(ref x) => Some(x.clone()), None => None } }
pub fn opt_flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn opt_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn opt_zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> { match o { Some(x) => match p { Some(y) => Some((x, y)), None => None }, None => None } }
pub fn opt_unzip<T, U>(o: Option<(T, U)>) -> (Option<T>, Option<U>) { match o { Some((x, y)) => (Some(x), Some(y)), None => (None, None) } }
pub fn opt_inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => { f(&x); Some(x) } None => None } }
pub struct OptIntoIter<T> { pub o: Option<T> }
impl<T> Iterator for OptIntoIter<T> { fn size_hint(&self) -> (usize, Option<usize>) { match self.o { Some(_) => (1, Some(1)), None => (0, Some(0)) } }
    type Item = T; fn next(&mut self) -> Option<T> { core::mem::replace(&mut self.o, None) } }
pub fn opt_into_iter<T>(o: Option<T>) -> OptIntoIter<T> { OptIntoIter { o } }
pub fn opt_iter<T>(o: &Option<T>) -> OptIntoIter<&T> { OptIntoIter { o: opt_as_ref(o) } }
pub fn opt_iter_mut<T>(o: &mut Option<T>) -> OptIntoIter<&mut T> { OptIntoIter { o: opt_as_mut(o) } }

pub fn opt_branch<T>(o: Option<T>) -> core::ops::ControlFlow<Option<core::convert::Infallible>, T> {
    match o { Some(x) => core::ops::ControlFlow::Continue(x), None => core::ops::ControlFlow::Break(None) }
}
pub fn opt_from_residual<T>(_o: Option<core::convert::Infallible>) -> Option<T> { None }
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, v: T) -> Option<T> { if b { Some(v) } else { None } }
pub fn res_unwrap<T, E>(r: Result<T, E>) -> T { match r { Ok(x) => x, Err(_) => core::panic!() } }
pub fn res_ok<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }

// ---------------------------------------------------------------- adapters
pub struct Map<I, F> { pub iter: I, pub f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> B> Iterator for Map<I, F> {
    fn size_hint(&self) -> (usize, Option<usize>) { self.iter.size_hint() }
    type Item = B;
    fn next(&mut self) -> Option<B> { match self.iter.next() { Some(x) => Some((self.f)(x)), None => None } }
}
pub fn iter_map<B, I: Iterator, F: FnMut(I::Item) -> B>(iter: I, f: F) -> Map<I, F> { Map { iter, f } }

pub struct Filter<I, F> { pub iter: I, pub f: F }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for Filter<I, F> {
    fn size_hint(&self) -> (usize, Option<usize>) { let (_, hi) = self.iter.size_hint(); (0, hi) }
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { loop { match self.iter.next() { Some(x) => if (self.f)(&x) { return Some(x); }, None => return None } } }
}
pub fn iter_filter<I: Iterator, F: FnMut(&I::Item) -> bool>(iter: I, f: F) -> Filter<I, F> { Filter { iter, f } }

pub struct FilterMap<I, F> { pub iter: I, pub f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> {
    fn size_hint(&self) -> (usize, Option<usize>) { let (_, hi) = self.iter.size_hint(); (0, hi) }
    type Item = B;
    fn next(&mut self) -> Option<B> { loop { match self.iter.next() { Some(x) => if let Some(y) = (self.f)(x) { return Some(y); }, None => return None } } }
}
pub fn iter_filter_map<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(iter: I, f: F) -> FilterMap<I, F> { FilterMap { iter, f } }

pub struct Enumerate<I> { pub iter: I, pub count: usize }
impl<I: Iterator> Iterator for Enumerate<I> {
    fn size_hint(&self) -> (usize, Option<usize>) { self.iter.size_hint() }
    type Item = (usize, I::Item);
    fn next(&mut self) -> Option<(usize, I::Item)> { match self.iter.next() { Some(x) => { let i = self.count; self.count += 1; Some((i, x)) } None => None } }
}
pub fn iter_enumerate<I: Iterator>(iter: I) -> Enumerate<I> { Enumerate { iter, count: 0 } }

pub struct Fuse<I> { pub iter: Option<I> }
impl<I: Iterator> Iterator for Fuse<I> {
    fn size_hint(&self) -> (usize, Option<usize>) { match self.iter { Some(ref i) => i.size_hint(), None => (0, Some(0)) } }
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match self.iter {
            Some(ref mut i) => match i.next() { Some(x) => Some(x), None => { self.iter = None; None } },
            None => None,
        }
    }
}
pub fn iter_fuse<I: Iterator>(iter: I) -> Fuse<I> { Fuse { iter: Some(iter) } }

pub struct Peekable<I: Iterator> { pub iter: I, pub peeked: Option<Option<I::Item>> }
impl<I: Iterator> Iterator for Peekable<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { match core::mem::replace(&mut self.peeked, None) { Some(v) => v, None => self.iter.next() } }
}
pub fn iter_peekable<I: Iterator>(iter: I) -> Peekable<I> { Peekable { iter, peeked: None } }
pub fn peekable_peek<I: Iterator>(p: &mut Peekable<I>) -> Option<&I::Item> {
    let b = match p.peeked { Some(_) => false, None => true };
    if b { p.peeked = Some(p.iter.next()); }
    match p.peeked { Some(Some(ref x)) => Some(x), _ => None }
}
pub fn peekable_peek_mut<I: Iterator>(p: &mut Peekable<I>) -> Option<&mut I::Item> {
    let b = match p.peeked { Some(_) => false, None => true };
    if b { p.peeked = Some(p.iter.next()); }
    match p.peeked { Some(Some(ref mut x)) => Some(x), _ => None }
}

pub struct FlatMap<I, U: IntoIterator, F> { pub iter: Option<I>, pub f: F, pub front: Option<U::IntoIter> }
impl<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U> Iterator for FlatMap<I, U, F> {
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (flo, fhi) = match self.front { Some(ref f) => f.size_hint(), None => (0, Some(0)) };
        let done = match self.iter { Some(ref i) => match i.size_hint() { (0, Some(0)) => true, _ => false }, None => true };
        (flo, if done { fhi } else { None })
    }
    type Item = U::Item;
    fn next(&mut self) -> Option<U::Item> {
        loop {
            if let Some(ref mut inner) = self.front {
                match inner.next() { None => self.front = None, Some(x) => return Some(x) }
            }
            match self.iter {
                None => return None,
                Some(ref mut i) => match i.next() {
                    Some(x) => { let u = (self.f)(x); self.front = Some(u.into_iter()); }
                    None => { self.iter = None; return None; }
                },
            }
        }
    }
}
pub fn iter_flat_map<I: Iterator, U: IntoIterator, F: FnMut(I::Item) -> U>(iter: I, f: F) -> FlatMap<I, U, F> { FlatMap { iter: Some(iter), f, front: None } }
pub struct Flatten<I, U> { pub iter: Option<I>, pub front: Option<U> }
impl<I: Iterator, U: Iterator> Iterator for Flatten<I, U> where I::Item: IntoIterator<IntoIter = U, Item = U::Item> {
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (flo, fhi) = match self.front { Some(ref f) => f.size_hint(), None => (0, Some(0)) };
        let done = match self.iter { Some(ref i) => match i.size_hint() { (0, Some(0)) => true, _ => false }, None => true };
        (flo, if done { fhi } else { None })
    }
    type Item = U::Item;
    fn next(&mut self) -> Option<U::Item> {
        loop {
            if let Some(ref mut inner) = self.front {
                match inner.next() { None => self.front = None, Some(x) => return Some(x) }
            }
            match self.iter {
                None => return None,
                Some(ref mut i) => match i.next() {
                    Some(x) => { self.front = Some(x.into_iter()); }
                    None => { self.iter = None; return None; }
                },
            }
        }
    }
}
pub fn iter_flatten<I: Iterator, U: Iterator>(iter: I) -> Flatten<I, U> where I::Item: IntoIterator<IntoIter = U, Item = U::Item> { Flatten { iter: Some(iter), front: None } }

pub struct Chain<A, B> { pub a: Option<A>, pub b: Option<B> }
impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for Chain<A, B> {
    type Item = A::Item;
    fn next(&mut self) -> Option<A::Item> {
        if let Some(ref mut a) = self.a { match a.next() { Some(x) => return Some(x), None => {} } self.a = None; }
        match self.b { Some(ref mut b) => b.next(), None => None }
    }
}
pub fn iter_chain<A: Iterator, B: IntoIterator<Item = A::Item>>(a: A, b: B) -> Chain<A, B::IntoIter> { Chain { a: Some(a), b: Some(b.into_iter()) } }

pub struct Zip<A, B> { pub a: A, pub b: B }
impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> {
    type Item = (A::Item, B::Item);
    fn next(&mut self) -> Option<(A::Item, B::Item)> { match self.a.next() { Some(x) => match self.b.next() { Some(y) => Some((x, y)), None => None }, None => None } }
}
pub fn iter_zip<A: Iterator, B: IntoIterator>(a: A, b: B) -> Zip<A, B::IntoIter> { Zip { a, b: b.into_iter() } }
pub struct Cloned<I> { pub it: I }
impl<'a, T: Clone + 'a, I: Iterator<Item = &'a T>> Iterator for Cloned<I> {
    fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
    type Item = T;
    fn next(&mut self) -> Option<T> { match self.it.next() { Some(x) => Some(x.clone()), None => None } }
}
pub fn iter_cloned<'a, T: Clone + 'a, I: Iterator<Item = &'a T>>(it: I) -> Cloned<I> { Cloned { it } }
pub struct Take<I> { pub it: I, pub n: usize }
impl<I: Iterator> Iterator for Take<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { if self.n != 0 { self.n -= 1; self.it.next() } else { None } }
}
pub fn iter_take<I: Iterator>(it: I, n: usize) -> Take<I> { Take { it, n } }
pub struct Skip<I> { pub it: I, pub n: usize }
impl<I: Iterator> Iterator for Skip<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { while self.n != 0 { self.n -= 1; match self.it.next() { Some(_) => {} None => return None } } self.it.next() }
}
pub fn iter_skip<I: Iterator>(it: I, n: usize) -> Skip<I> { Skip { it, n } }
pub struct Rev<I> { pub it: I }
impl<I: DoubleEndedIterator> Iterator for Rev<I> { fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
    type Item = I::Item; fn next(&mut self) -> Option<I::Item> { self.it.next_back() } }
pub fn iter_rev<I: DoubleEndedIterator>(it: I) -> Rev<I> { Rev { it } }
pub struct FromFn<F> { pub f: F }
impl<T, F: FnMut() -> Option<T>> Iterator for FromFn<F> { type Item = T; fn next(&mut self) -> Option<T> { (self.f)() } }
pub fn iter_from_fn<T, F: FnMut() -> Option<T>>(f: F) -> FromFn<F> { FromFn { f } }
pub fn iter_once<T>(x: T) -> OptIntoIter<T> { OptIntoIter { o: Some(x) } }
pub fn iter_empty<T>() -> OptIntoIter<T> { OptIntoIter { o: None } }

// ---------------------------------------------------------------- consumers
pub fn iter_nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> {
    loop { match it.next() { None => return None, Some(x) => { if n == 0 { return Some(x); } n -= 1; } } }
}
pub fn iter_find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    loop { match it.next() { None => return None, Some(x) => if f(&x) { return Some(x); } } }
}
pub fn iter_find_map<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    loop { match it.next() { None => return None, Some(x) => if let Some(y) = f(x) { return Some(y); } } }
}
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    loop { match it.next() { None => return false, Some(x) => if f(x) { return true; } } }
}
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    loop { match it.next() { None => return true, Some(x) => if !f(x) { return false; } } }
}
pub fn iter_fold<B, I: Iterator, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    loop { match it.next() { None => return acc, Some(x) => acc = f(acc, x) } }
}
pub fn iter_try_fold_opt<B, I: Iterator, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> {
    let mut acc = init;
    loop { match it.next() { None => return Some(acc), Some(x) => match f(acc, x) { Some(x) => acc = x, None => return None } } }
}
pub fn iter_try_rfold_opt<B, I: DoubleEndedIterator, F: FnMut(B, I::Item) -> Option<B>>(it: &mut I, init: B, mut f: F) -> Option<B> {
    let mut acc = init;
    loop { match it.next_back() { None => return Some(acc), Some(x) => match f(acc, x) { Some(x) => acc = x, None => return None } } }
}
pub fn iter_try_for_each_opt<I: Iterator, F: FnMut(I::Item) -> Option<()>>(it: &mut I, mut f: F) -> Option<()> {
    loop { match it.next() { None => return Some(()), Some(x) => match f(x) { Some(()) => {}  None => return None } } }
}
pub fn iter_try_fold_res<B, E, I: Iterator, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    loop { match it.next() { None => return Ok(acc), Some(x) => match f(acc, x) { Ok(x) => acc = x, Err(e) => return Err(e) } } }
}
pub fn iter_try_rfold_res<B, E, I: DoubleEndedIterator, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    loop { match it.next_back() { None => return Ok(acc), Some(x) => match f(acc, x) { Ok(x) => acc = x, Err(e) => return Err(e) } } }
}
pub fn iter_try_for_each_res<E, I: Iterator, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    loop { match it.next() { None => return Ok(()), Some(x) => match f(x) { Ok(()) => {}  Err(e) => return Err(e) } } }
}
pub fn iter_try_fold_cf<B, E, I: Iterator, F: FnMut(B, I::Item) -> core::ops::ControlFlow<E, B>>(it: &mut I, init: B, mut f: F) -> core::ops::ControlFlow<E, B> {
    let mut acc = init;
    loop { match it.next() { None => return core::ops::ControlFlow::Continue(acc), Some(x) => match f(acc, x) { core::ops::ControlFlow::Continue(x) => acc = x, core::ops::ControlFlow::Break(e) => return core::ops::ControlFlow::Break(e) } } }
}
pub fn iter_try_rfold_cf<B, E, I: DoubleEndedIterator, F: FnMut(B, I::Item) -> core::ops::ControlFlow<E, B>>(it: &mut I, init: B, mut f: F) -> core::ops::ControlFlow<E, B> {
    let mut acc = init;
    loop { match it.next_back() { None => return core::ops::ControlFlow::Continue(acc), Some(x) => match f(acc, x) { core::ops::ControlFlow::Continue(x) => acc = x, core::ops::ControlFlow::Break(e) => return core::ops::ControlFlow::Break(e) } } }
}
pub fn iter_try_for_each_cf<E, I: Iterator, F: FnMut(I::Item) -> core::ops::ControlFlow<E, ()>>(it: &mut I, mut f: F) -> core::ops::ControlFlow<E, ()> {
    loop { match it.next() { None => return core::ops::ControlFlow::Continue(()), Some(x) => match f(x) { core::ops::ControlFlow::Continue(()) => {}  core::ops::ControlFlow::Break(e) => return core::ops::ControlFlow::Break(e) } } }
}
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { loop { match it.next() { None => return, Some(x) => f(x) } } }
pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> { let mut l = None; loop { match it.next() { None => return l, Some(x) => l = Some(x) } } }
pub fn iter_count<I: Iterator>(mut it: I) -> usize { let mut c = 0; loop { match it.next() { None => return c, Some(_) => c += 1 } } }
pub fn iter_collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> { let mut v = Vec::new(); loop { match it.next() { None => return v, Some(x) => v.push(x) } } }
pub fn iter_collect_deque<I: Iterator>(mut it: I) -> VecDeque<I::Item> { let mut v = VecDeque::new(); loop { match it.next() { None => return v, Some(x) => v.push_back(x) } } }
pub fn vec_extend<T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) { let mut it = it.into_iter(); loop { match it.next() { None => return, Some(x) => v.push(x) } } }
pub fn deque_extend<T, I: IntoIterator<Item = T>>(v: &mut VecDeque<T>, it: I) { let mut it = it.into_iter(); loop { match it.next() { None => return, Some(x) => v.push_back(x) } } }
pub fn vec_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = core::mem::replace(v, Vec::new());
    let mut it = old.into_iter();
    loop { match it.next() { None => return, Some(x) => if f(&x) { v.push(x); } } }
}
pub fn vec_retain_mut<T, F: FnMut(&mut T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let old = core::mem::replace(v, Vec::new());
    let mut it = old.into_iter();
    loop { match it.next() { None => return, Some(mut x) => if f(&mut x) { v.push(x); } } }
}
pub fn deque_retain<T, F: FnMut(&T) -> bool>(v: &mut VecDeque<T>, mut f: F) {
    let old = core::mem::replace(v, VecDeque::new());
    let mut it = old.into_iter();
    loop { match it.next() { None => return, Some(x) => if f(&x) { v.push_back(x); } } }
}
pub fn deque_retain_mut<T, F: FnMut(&mut T) -> bool>(v: &mut VecDeque<T>, mut f: F) {
    let old = core::mem::replace(v, VecDeque::new());
    let mut it = old.into_iter();
    loop { match it.next() { None => return, Some(mut x) => if f(&mut x) { v.push_back(x); } } }
}
pub fn iter_by_ref<I>(it: &mut I) -> &mut I { it }
pub fn iter_into_iter<I>(it: I) -> I { it }
pub fn mutref_next<I: Iterator>(it: &mut &mut I) -> Option<I::Item> { (**it).next() }

// ---------------------------------------------------------------- misc
pub fn usize_saturating_sub(a: usize, b: usize) -> usize { if a < b { 0 } else { a - b } }
pub fn usize_min(a: usize, b: usize) -> usize { if b < a { b } else { a } }
pub fn usize_max(a: usize, b: usize) -> usize { if b < a { a } else { b } }
pub fn usize_checked_sub(a: usize, b: usize) -> Option<usize> { if a < b { None } else { Some(a - b) } }
pub fn array_map2<T, U, F: FnMut(T) -> U>(a: [T; 2], mut f: F) -> [U; 2] { let [x, y] = a; let p = f(x); let q = f(y); [p, q] }

pub trait Streaming { type Item: ?core::marker::Sized; fn advance(&mut self); fn get(&self) -> Option<&Self::Item>; fn get_mut(&mut self) -> Option<&mut Self::Item>; }
pub fn si_next<S: Streaming>(s: &mut S) -> Option<&S::Item> { s.advance(); (*s).get() }
pub fn si_next_mut<S: Streaming>(s: &mut S) -> Option<&mut S::Item> { s.advance(); (*s).get_mut() }

// ---------------------------------------------------------------- integers
pub fn usize_clamp(a: usize, lo: usize, hi: usize) -> usize { if a < lo { lo } else if hi < a { hi } else { a } }
pub fn usize_abs_diff(a: usize, b: usize) -> usize { if a < b { b - a } else { a - b } }
pub fn usize_cmp(a: &usize, b: &usize) -> core::cmp::Ordering { if *a < *b { core::cmp::Ordering::Less } else if *b < *a { core::cmp::Ordering::Greater } else { core::cmp::Ordering::Equal } }
pub fn usize_partial_cmp(a: &usize, b: &usize) -> Option<core::cmp::Ordering> { Some(usize_cmp(a, b)) }
pub fn ord_is_lt(o: core::cmp::Ordering) -> bool { match o { core::cmp::Ordering::Less => true, _ => false } }
pub fn ord_is_le(o: core::cmp::Ordering) -> bool { match o { core::cmp::Ordering::Greater => false, _ => true } }
pub fn ord_is_gt(o: core::cmp::Ordering) -> bool { match o { core::cmp::Ordering::Greater => true, _ => false } }
pub fn ord_is_ge(o: core::cmp::Ordering) -> bool { match o { core::cmp::Ordering::Less => false, _ => true } }
pub fn ord_is_eq(o: core::cmp::Ordering) -> bool { match o { core::cmp::Ordering::Equal => true, _ => false } }
pub fn ord_is_ne(o: core::cmp::Ordering) -> bool { match o { core::cmp::Ordering::Equal => false, _ => true } }

// ---------------------------------------------------------------- more Option
pub fn opt_xor<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(x) => match p { Some(_) => None, None => Some(x) }, None => p } }
pub fn opt_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn opt_get_or_insert<T>(o: &mut Option<T>, v: T) -> &mut T {
    if let None = *o { *o = Some(v); }
    match *o { Some(ref mut x) => x, None => core::panic!() }
}
pub fn opt_not_lt(a: &Option<usize>, b: &Option<usize>) -> bool { match *a { Some(x) => match *b { Some(y) => x < y, None => false }, None => match *b { Some(_) => true, None => false } } }
pub fn res_is_ok<T, E>(r: &Result<T, E>) -> bool { match *r { Ok(_) => true, Err(_) => false } }
pub fn res_is_err<T, E>(r: &Result<T, E>) -> bool { match *r { Ok(_) => false, Err(_) => true } }
pub fn res_err<T, E>(r: Result<T, E>) -> Option<E> { match r { Ok(_) => None, Err(e) => Some(e) } }
pub fn res_map<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn res_unwrap_or<T, E>(r: Result<T, E>, d: T) -> T { match r { Ok(x) => x, Err(_) => d } }
pub fn res_unwrap_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> T { match r { Ok(x) => x, Err(e) => f(e) } }

// ---------------------------------------------------------------- more adapters
pub struct Inspect<I, F> { pub it: I, pub f: F }
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { match self.it.next() { Some(x) => { (self.f)(&x); Some(x) } None => None } }
    fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
}
pub fn iter_inspect<I: Iterator, F: FnMut(&I::Item)>(it: I, f: F) -> Inspect<I, F> { Inspect { it, f } }
pub struct TakeWhile<I, F> { pub it: I, pub f: F, pub done: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.done { return None; }
        match self.it.next() { Some(x) => if (self.f)(&x) { Some(x) } else { self.done = true; None }, None => None }
    }
}
pub fn iter_take_while<I: Iterator, F: FnMut(&I::Item) -> bool>(it: I, f: F) -> TakeWhile<I, F> { TakeWhile { it, f, done: false } }
pub struct SkipWhile<I, F> { pub it: I, pub f: F, pub started: bool }
impl<I: Iterator, F: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        loop {
            match self.it.next() {
                None => return None,
                Some(x) => { if self.started { return Some(x); } if !(self.f)(&x) { self.started = true; return Some(x); } }
            }
        }
    }
}
pub fn iter_skip_while<I: Iterator, F: FnMut(&I::Item) -> bool>(it: I, f: F) -> SkipWhile<I, F> { SkipWhile { it, f, started: false } }
pub struct MapWhile<I, F> { pub it: I, pub f: F }
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for MapWhile<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> { match self.it.next() { Some(x) => (self.f)(x), None => None } }
}
pub fn iter_map_while<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(it: I, f: F) -> MapWhile<I, F> { MapWhile { it, f } }
pub struct Scan<I, S, F> { pub it: I, pub s: S, pub f: F }
impl<B, S, I: Iterator, F: FnMut(&mut S, I::Item) -> Option<B>> Iterator for Scan<I, S, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> { match self.it.next() { Some(x) => (self.f)(&mut self.s, x), None => None } }
}
pub fn iter_scan<B, S, I: Iterator, F: FnMut(&mut S, I::Item) -> Option<B>>(it: I, s: S, f: F) -> Scan<I, S, F> { Scan { it, s, f } }
pub struct StepBy<I> { pub it: I, pub n: usize, pub first: bool }
impl<I: Iterator> Iterator for StepBy<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { if self.first { self.first = false; self.it.next() } else { iter_nth(&mut self.it, self.n) } }
}
pub fn iter_step_by<I: Iterator>(it: I, n: usize) -> StepBy<I> { if n == 0 { core::panic!() } StepBy { it, n: n - 1, first: true } }
pub struct Successors<T, F> { pub next: Option<T>, pub f: F }
impl<T, F: FnMut(&T) -> Option<T>> Iterator for Successors<T, F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match core::mem::replace(&mut self.next, None) { Some(x) => { self.next = (self.f)(&x); Some(x) } None => None }
    }
}
pub fn iter_successors<T, F: FnMut(&T) -> Option<T>>(first: Option<T>, f: F) -> Successors<T, F> { Successors { next: first, f } }
pub struct RepeatWith<F> { pub f: F }
impl<T, F: FnMut() -> T> Iterator for RepeatWith<F> { type Item = T; fn next(&mut self) -> Option<T> { Some((self.f)()) } }
pub fn iter_repeat_with<T, F: FnMut() -> T>(f: F) -> RepeatWith<F> { RepeatWith { f } }

pub fn iter_position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut i = 0;
    loop { match it.next() { None => return None, Some(x) => { if f(x) { return Some(i); } i += 1; } } }
}
pub fn iter_reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut acc = match it.next() { None => return None, Some(x) => x };
    loop { match it.next() { None => return Some(acc), Some(x) => acc = f(acc, x) } }
}
pub fn iter_max_usize<I: Iterator<Item = usize>>(mut it: I) -> Option<usize> {
    let mut acc = match it.next() { None => return None, Some(x) => x };
    loop { match it.next() { None => return Some(acc), Some(x) => if acc < x { acc = x } } }
}
pub fn iter_min_usize<I: Iterator<Item = usize>>(mut it: I) -> Option<usize> {
    let mut acc = match it.next() { None => return None, Some(x) => x };
    loop { match it.next() { None => return Some(acc), Some(x) => if x < acc { acc = x } } }
}
pub fn iter_sum_usize<I: Iterator<Item = usize>>(mut it: I) -> usize { let mut a = 0; loop { match it.next() { None => return a, Some(x) => a += x } } }
pub fn iter_rfold<B, I: DoubleEndedIterator, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    loop { match it.next_back() { None => return acc, Some(x) => acc = f(acc, x) } }
}
pub fn iter_rfind<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    loop { match it.next_back() { None => return None, Some(x) => if f(&x) { return Some(x); } } }
}
pub fn iter_nth_back<I: DoubleEndedIterator>(it: &mut I, mut n: usize) -> Option<I::Item> {
    loop { match it.next_back() { None => return None, Some(x) => { if n == 0 { return Some(x); } n -= 1; } } }
}
pub fn peekable_next_if<I: Iterator, F: FnOnce(&I::Item) -> bool>(p: &mut Peekable<I>, f: F) -> Option<I::Item> {
    let m = match p.peeked { Some(_) => core::mem::replace(&mut p.peeked, None), None => None };
    let m = match m { Some(x) => x, None => p.iter.next() };
    match m {
        Some(x) => if f(&x) { Some(x) } else { p.peeked = Some(Some(x)); None },
        None => { p.peeked = Some(None); None }
    }
}
