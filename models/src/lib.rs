//! Reference definitions of the standard-library items the analysed crate (and plausible
//! variants of it) use.  They are never executed: the driver dumps their MIR and the analysis
//! interprets it in place of the library's own, heavily specialised, bodies.
//!
//! Naming: a struct stands for the std type it is mapped to in `analysis/mir.py`;
//! `Trait__method` is the provided body of a trait method, `Type__method` an inherent method,
//! `module__function` a free function.  Generic parameters are in the order of the original.
#![feature(try_trait_v2)]
#![allow(non_snake_case, non_camel_case_types, dead_code, unused_variables, clippy::all)]
#![allow(improper_ctypes, improper_ctypes_definitions)]

use core::cmp::Ordering;
use core::marker::PhantomData;

// ------------------------------------------------------------------ primitives
// opaque to the models, given a meaning by analysis/prims.py
pub mod prim {
    pub fn opiter_item<T>(pos: usize) -> T { loop {} }
    pub fn opiter_hint(pos: usize) -> (usize, Option<usize>) { loop {} }
    pub fn slice_get<'a, T>(s: &'a [T], i: usize) -> &'a T { loop {} }
    pub fn slice_get_mut<'a, 'b, T>(s: &'b mut &'a mut [T], i: usize) -> &'a mut T { loop {} }
    pub fn subslice<'a, T>(s: &'a [T], from: usize, to: usize) -> &'a [T] { loop {} }
    pub fn subslice_mut<'a, 'b, T>(s: &'b mut &'a mut [T], from: usize, to: usize) -> &'a mut [T] { loop {} }
    pub fn panic() -> ! { loop {} }
    pub fn line_count(s: &str) -> usize { loop {} }
    pub fn line_at<'a>(s: &'a str, i: usize) -> &'a str { loop {} }
    pub fn any<T>() -> T { loop {} }
    pub fn array_into<A, T>(a: A, i: usize) -> T { loop {} }
    pub fn array_len<A>(a: &A) -> usize { loop {} }
    pub fn fmt_elem<T: ?Sized>(f: &mut core::fmt::Formatter, t: &T) -> core::fmt::Result { loop {} }
    pub fn fmt_char(f: &mut core::fmt::Formatter, c: &str) -> core::fmt::Result { loop {} }
}

// ------------------------------------------------------------------ sources
pub struct OpIter<T> { pos: usize, len: usize, _p: PhantomData<T> }
impl<T> Iterator for OpIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.pos < self.len {
            let v = prim::opiter_item::<T>(self.pos);
            self.pos += 1;
            Some(v)
        } else { None }
    }
    // nothing binds the hint of a caller's iterator to what it produces
    fn size_hint(&self) -> (usize, Option<usize>) { prim::opiter_hint(self.pos) }
}

pub struct Range<A> { start: A, end: A }
macro_rules! ranges { ($($t:ty)*) => { $(
impl Iterator for Range<$t> {
    type Item = $t;
    fn next(&mut self) -> Option<$t> {
        if self.start < self.end {
            let v = self.start;
            self.start = v + 1;
            Some(v)
        } else { None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = if self.start < self.end { (self.end - self.start) as usize } else { 0 };
        (n, Some(n))
    }
    fn nth(&mut self, n: usize) -> Option<$t> {
        let rem = if self.start < self.end { (self.end - self.start) as usize } else { 0 };
        if n < rem {
            let v = self.start + n as $t;
            self.start = v + 1;
            Some(v)
        } else {
            self.start = self.end;
            None
        }
    }
    fn count(self) -> usize {
        if self.start < self.end { (self.end - self.start) as usize } else { 0 }
    }
}
impl DoubleEndedIterator for Range<$t> {
    fn next_back(&mut self) -> Option<$t> {
        if self.start < self.end {
            self.end -= 1;
            Some(self.end)
        } else { None }
    }
}
impl ExactSizeIterator for Range<$t> {}
)* } }
ranges! { usize u8 u16 u32 u64 isize i8 i16 i32 i64 }
pub fn Range__is_empty<A: PartialOrd>(r: &Range<A>) -> bool { !(r.start < r.end) }
pub fn Range__contains<A: PartialOrd>(r: &Range<A>, x: &A) -> bool { r.start <= *x && *x < r.end }

// `end` is kept as an exclusive bound (the constructor, a primitive of the analysis, adds one)
pub struct RangeInclusive<A> { start: A, end: A }
pub fn RangeInclusive__new(start: usize, end: usize) -> RangeInclusive<usize> {
    RangeInclusive { start, end }
}
impl Iterator for RangeInclusive<usize> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.start < self.end { let v = self.start; self.start = v + 1; Some(v) } else { None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = if self.start < self.end { self.end - self.start } else { 0 };
        (n, Some(n))
    }
}
impl DoubleEndedIterator for RangeInclusive<usize> {
    fn next_back(&mut self) -> Option<usize> {
        if self.start < self.end { self.end -= 1; Some(self.end) } else { None }
    }
}

pub struct SliceIter<'a, T> { s: &'a [T], i: usize, e: usize }
pub fn slice__iter<T>(s: &[T]) -> SliceIter<T> { SliceIter { s, i: 0, e: s.len() } }
impl<'a, T> Iterator for SliceIter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if self.i < self.e {
            let i = self.i;
            self.i += 1;
            Some(prim::slice_get(self.s, i))
        } else { None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = self.e - self.i; (n, Some(n)) }
    fn count(self) -> usize { self.e - self.i }
    fn nth(&mut self, n: usize) -> Option<&'a T> {
        if n < self.e - self.i {
            let i = self.i + n;
            self.i = i + 1;
            Some(prim::slice_get(self.s, i))
        } else {
            self.i = self.e;
            None
        }
    }
    fn last(mut self) -> Option<&'a T> { self.next_back() }
}
impl<'a, T> DoubleEndedIterator for SliceIter<'a, T> {
    fn next_back(&mut self) -> Option<&'a T> {
        if self.i < self.e {
            self.e -= 1;
            Some(prim::slice_get(self.s, self.e))
        } else { None }
    }
}
impl<'a, T> ExactSizeIterator for SliceIter<'a, T> {}
impl<'a, T> Clone for SliceIter<'a, T> {
    fn clone(&self) -> Self { SliceIter { s: self.s, i: self.i, e: self.e } }
}
pub fn SliceIter__as_slice<'a, T>(it: &SliceIter<'a, T>) -> &'a [T] { prim::subslice(it.s, it.i, it.e) }

pub struct SliceIterMut<'a, T> { s: &'a mut [T], i: usize, e: usize }
pub fn slice__iter_mut<T>(s: &mut [T]) -> SliceIterMut<T> { let e = s.len(); SliceIterMut { s, i: 0, e } }
impl<'a, T> Iterator for SliceIterMut<'a, T> {
    type Item = &'a mut T;
    fn next(&mut self) -> Option<&'a mut T> {
        if self.i < self.e {
            let i = self.i;
            self.i += 1;
            Some(prim::slice_get_mut(&mut self.s, i))
        } else { None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = self.e - self.i; (n, Some(n)) }
    fn count(self) -> usize { self.e - self.i }
    fn nth(&mut self, n: usize) -> Option<&'a mut T> {
        if n < self.e - self.i {
            let i = self.i + n;
            self.i = i + 1;
            Some(prim::slice_get_mut(&mut self.s, i))
        } else {
            self.i = self.e;
            None
        }
    }
}
impl<'a, T> DoubleEndedIterator for SliceIterMut<'a, T> {
    fn next_back(&mut self) -> Option<&'a mut T> {
        if self.i < self.e {
            self.e -= 1;
            Some(prim::slice_get_mut(&mut self.s, self.e))
        } else { None }
    }
}
impl<'a, T> ExactSizeIterator for SliceIterMut<'a, T> {}

pub struct ArrayIter<A, T> { a: A, i: usize, e: usize, _p: PhantomData<T> }
pub fn array__into_iter<A, T>(a: A) -> ArrayIter<A, T> { let e = prim::array_len(&a); ArrayIter { a, i: 0, e, _p: PhantomData } }
impl<A: Copy, T> Iterator for ArrayIter<A, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.i < self.e {
            let i = self.i;
            self.i += 1;
            Some(prim::array_into(self.a, i))
        } else { None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { let n = self.e - self.i; (n, Some(n)) }
}
impl<A: Copy, T> DoubleEndedIterator for ArrayIter<A, T> {
    fn next_back(&mut self) -> Option<T> {
        if self.i < self.e {
            self.e -= 1;
            Some(prim::array_into(self.a, self.e))
        } else { None }
    }
}
impl<A: Copy, T> ExactSizeIterator for ArrayIter<A, T> {}

// slice::Chunks (exact or with a shorter last one)
pub struct SliceChunks<'a, T> { s: &'a [T], i: usize, e: usize, n: usize }
pub fn slice__chunks<T>(s: &[T], n: usize) -> SliceChunks<T> {
    if n == 0 { prim::panic() }
    SliceChunks { s, i: 0, e: s.len(), n }
}
impl<'a, T> Iterator for SliceChunks<'a, T> {
    type Item = &'a [T];
    fn next(&mut self) -> Option<&'a [T]> {
        if self.i < self.e {
            let i = self.i;
            let k = if self.e - i < self.n { self.e } else { i + self.n };
            self.i = k;
            Some(prim::subslice(self.s, i, k))
        } else { None }
    }
}

pub struct Lines<'a> { s: &'a str, i: usize, e: usize }
pub fn str__lines(s: &str) -> Lines { Lines { s, i: 0, e: prim::line_count(s) } }
impl<'a> Iterator for Lines<'a> {
    type Item = &'a str;
    fn next(&mut self) -> Option<&'a str> {
        if self.i < self.e {
            let i = self.i;
            self.i += 1;
            Some(prim::line_at(self.s, i))
        } else { None }
    }
    fn nth(&mut self, n: usize) -> Option<&'a str> {
        if n < self.e - self.i {
            let i = self.i + n;
            self.i = i + 1;
            Some(prim::line_at(self.s, i))
        } else {
            self.i = self.e;
            None
        }
    }
    fn count(self) -> usize { self.e - self.i }
}
impl<'a> DoubleEndedIterator for Lines<'a> {
    fn next_back(&mut self) -> Option<&'a str> {
        if self.i < self.e {
            self.e -= 1;
            Some(prim::line_at(self.s, self.e))
        } else { None }
    }
}

pub struct Once<T> { v: Option<T> }
pub fn iter__once<T>(v: T) -> Once<T> { Once { v: Some(v) } }
impl<T> Iterator for Once<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { self.v.take() }
}
impl<T> DoubleEndedIterator for Once<T> {
    fn next_back(&mut self) -> Option<T> { self.v.take() }
}
pub struct Empty<T> { _p: PhantomData<T> }
pub fn iter__empty<T>() -> Empty<T> { Empty { _p: PhantomData } }
impl<T> Iterator for Empty<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { None }
}
pub struct Repeat<T> { v: T }
pub fn iter__repeat<T: Clone>(v: T) -> Repeat<T> { Repeat { v } }
impl<T: Clone> Iterator for Repeat<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> { Some(self.v.clone()) }
}

// ------------------------------------------------------------------ adaptors
pub struct Map<I, F> { it: I, f: F }
pub fn Iterator__map<I: Iterator, B, F: FnMut(I::Item) -> B>(it: I, f: F) -> Map<I, F> { Map { it, f } }
impl<B, I: Iterator, F: FnMut(I::Item) -> B> Iterator for Map<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        match self.it.next() { None => None, Some(x) => Some((self.f)(x)) }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
}
impl<B, I: DoubleEndedIterator, F: FnMut(I::Item) -> B> DoubleEndedIterator for Map<I, F> {
    fn next_back(&mut self) -> Option<B> {
        match self.it.next_back() { None => None, Some(x) => Some((self.f)(x)) }
    }
}
impl<B, I: ExactSizeIterator, F: FnMut(I::Item) -> B> ExactSizeIterator for Map<I, F> {
    fn len(&self) -> usize { self.it.len() }
}

pub struct Zip<A, B> { a: A, b: B }
pub fn Iterator__zip<A: Iterator, U: IntoIterator>(a: A, b: U) -> Zip<A, U::IntoIter> { Zip { a, b: b.into_iter() } }
pub fn iter__zip<A: IntoIterator, B: IntoIterator>(a: A, b: B) -> Zip<A::IntoIter, B::IntoIter> { Zip { a: a.into_iter(), b: b.into_iter() } }
impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> {
    type Item = (A::Item, B::Item);
    fn next(&mut self) -> Option<(A::Item, B::Item)> {
        match self.a.next() {
            None => None,
            Some(x) => match self.b.next() { None => None, Some(y) => Some((x, y)) },
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (a, _) = self.a.size_hint();
        let (b, _) = self.b.size_hint();
        let n = if a < b { a } else { b };
        (n, Some(n))
    }
}
impl<A: DoubleEndedIterator + ExactSizeIterator, B: DoubleEndedIterator + ExactSizeIterator> DoubleEndedIterator for Zip<A, B> {
    fn next_back(&mut self) -> Option<(A::Item, B::Item)> {
        while self.b.len() < self.a.len() { self.a.next_back(); }
        while self.a.len() < self.b.len() { self.b.next_back(); }
        match self.a.next_back() {
            None => None,
            Some(x) => match self.b.next_back() { None => None, Some(y) => Some((x, y)) },
        }
    }
}
impl<A: ExactSizeIterator, B: ExactSizeIterator> ExactSizeIterator for Zip<A, B> {}

pub struct Enumerate<I> { it: I, n: usize }
pub fn Iterator__enumerate<I: Iterator>(it: I) -> Enumerate<I> { Enumerate { it, n: 0 } }
impl<I: Iterator> Iterator for Enumerate<I> {
    type Item = (usize, I::Item);
    fn next(&mut self) -> Option<(usize, I::Item)> {
        match self.it.next() {
            None => None,
            Some(x) => { let n = self.n; self.n += 1; Some((n, x)) }
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
}
impl<I: ExactSizeIterator + DoubleEndedIterator> DoubleEndedIterator for Enumerate<I> {
    fn next_back(&mut self) -> Option<(usize, I::Item)> {
        match self.it.next_back() {
            None => None,
            Some(x) => { let l = self.it.len(); Some((self.n + l, x)) }
        }
    }
}
impl<I: ExactSizeIterator> ExactSizeIterator for Enumerate<I> {
    fn len(&self) -> usize { self.it.len() }
}

pub struct Rev<I> { it: I }
pub fn Iterator__rev<I: DoubleEndedIterator>(it: I) -> Rev<I> { Rev { it } }
impl<I: DoubleEndedIterator> Iterator for Rev<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.it.next_back() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
}
impl<I: DoubleEndedIterator> DoubleEndedIterator for Rev<I> {
    fn next_back(&mut self) -> Option<I::Item> { self.it.next() }
}
impl<I: ExactSizeIterator + DoubleEndedIterator> ExactSizeIterator for Rev<I> {
    fn len(&self) -> usize { self.it.len() }
}

pub struct Take<I> { it: I, n: usize }
pub fn Iterator__take<I: Iterator>(it: I, n: usize) -> Take<I> { Take { it, n } }
impl<I: Iterator> Iterator for Take<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.n != 0 { self.n -= 1; self.it.next() } else { None }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (l, _) = self.it.size_hint();
        let n = if l < self.n { l } else { self.n };
        (n, Some(n))
    }
}
impl<I: ExactSizeIterator> ExactSizeIterator for Take<I> {}

pub struct Skip<I> { it: I, n: usize }
pub fn Iterator__skip<I: Iterator>(it: I, n: usize) -> Skip<I> { Skip { it, n } }
impl<I: Iterator> Iterator for Skip<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.n > 0 { let n = self.n; self.n = 0; self.it.nth(n) } else { self.it.next() }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (l, _) = self.it.size_hint();
        let n = if l < self.n { 0 } else { l - self.n };
        (n, Some(n))
    }
}
impl<I: ExactSizeIterator> ExactSizeIterator for Skip<I> {}

pub struct StepBy<I> { it: I, step: usize, first: bool }
pub fn Iterator__step_by<I: Iterator>(it: I, step: usize) -> StepBy<I> {
    if step == 0 { prim::panic() }
    StepBy { it, step: step - 1, first: true }
}
impl<I: Iterator> Iterator for StepBy<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let n = if self.first { 0 } else { self.step };
        self.first = false;
        self.it.nth(n)
    }
}

pub struct Filter<I, P> { it: I, p: P }
pub fn Iterator__filter<I: Iterator, P: FnMut(&I::Item) -> bool>(it: I, p: P) -> Filter<I, P> { Filter { it, p } }
impl<I: Iterator, P: FnMut(&I::Item) -> bool> Iterator for Filter<I, P> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        loop {
            match self.it.next() {
                None => return None,
                Some(x) => if (self.p)(&x) { return Some(x); },
            }
        }
    }
}
impl<I: DoubleEndedIterator, P: FnMut(&I::Item) -> bool> DoubleEndedIterator for Filter<I, P> {
    fn next_back(&mut self) -> Option<I::Item> {
        loop {
            match self.it.next_back() {
                None => return None,
                Some(x) => if (self.p)(&x) { return Some(x); },
            }
        }
    }
}

// one step of a filter: None at the end, Some(None) for an item left out
pub fn Filter__step<I: Iterator, P: FnMut(&I::Item) -> bool>(f: &mut Filter<I, P>) -> Option<Option<I::Item>> {
    match f.it.next() {
        None => None,
        Some(x) => if (f.p)(&x) { Some(Some(x)) } else { Some(None) },
    }
}
pub fn FilterMap__step<B, I: Iterator, F: FnMut(I::Item) -> Option<B>>(f: &mut FilterMap<I, F>) -> Option<Option<B>> {
    match f.it.next() {
        None => None,
        Some(x) => Some((f.f)(x)),
    }
}

pub struct FilterMap<I, F> { it: I, f: F }
pub fn Iterator__filter_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: I, f: F) -> FilterMap<I, F> { FilterMap { it, f } }
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        loop {
            match self.it.next() {
                None => return None,
                Some(x) => if let Some(y) = (self.f)(x) { return Some(y); },
            }
        }
    }
}

pub struct TakeWhile<I, P> { it: I, p: P, done: bool }
pub fn Iterator__take_while<I: Iterator, P: FnMut(&I::Item) -> bool>(it: I, p: P) -> TakeWhile<I, P> { TakeWhile { it, p, done: false } }
impl<I: Iterator, P: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, P> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.done { return None; }
        match self.it.next() {
            None => None,
            Some(x) => if (self.p)(&x) { Some(x) } else { self.done = true; None },
        }
    }
}

pub struct Chain<A, B> { a: A, b: B }
pub fn Iterator__chain<A: Iterator, U: IntoIterator<Item = A::Item>>(a: A, b: U) -> Chain<A, U::IntoIter> { Chain { a, b: b.into_iter() } }
impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for Chain<A, B> {
    type Item = A::Item;
    fn next(&mut self) -> Option<A::Item> {
        match self.a.next() { Some(x) => Some(x), None => self.b.next() }
    }
}
impl<A: DoubleEndedIterator, B: DoubleEndedIterator<Item = A::Item>> DoubleEndedIterator for Chain<A, B> {
    fn next_back(&mut self) -> Option<A::Item> {
        match self.b.next_back() { Some(x) => Some(x), None => self.a.next_back() }
    }
}

pub struct Cloned<I> { it: I }
pub fn Iterator__cloned<'a, I: Iterator<Item = &'a T>, T: Clone + 'a>(it: I) -> Cloned<I> { Cloned { it } }
impl<'a, I: Iterator<Item = &'a T>, T: Clone + 'a> Iterator for Cloned<I> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.it.next() { None => None, Some(x) => Some(x.clone()) }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
}
impl<'a, I: DoubleEndedIterator<Item = &'a T>, T: Clone + 'a> DoubleEndedIterator for Cloned<I> {
    fn next_back(&mut self) -> Option<T> {
        match self.it.next_back() { None => None, Some(x) => Some(x.clone()) }
    }
}
impl<'a, I: ExactSizeIterator<Item = &'a T>, T: Clone + 'a> ExactSizeIterator for Cloned<I> {
    fn len(&self) -> usize { self.it.len() }
}
pub struct Copied<I> { it: I }
pub fn Iterator__copied<'a, I: Iterator<Item = &'a T>, T: Copy + 'a>(it: I) -> Copied<I> { Copied { it } }
impl<'a, I: Iterator<Item = &'a T>, T: Copy + 'a> Iterator for Copied<I> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.it.next() { None => None, Some(x) => Some(*x) }
    }
    fn size_hint(&self) -> (usize, Option<usize>) { self.it.size_hint() }
}
impl<'a, I: DoubleEndedIterator<Item = &'a T>, T: Copy + 'a> DoubleEndedIterator for Copied<I> {
    fn next_back(&mut self) -> Option<T> {
        match self.it.next_back() { None => None, Some(x) => Some(*x) }
    }
}

pub struct Inspect<I, F> { it: I, f: F }
pub fn Iterator__inspect<I: Iterator, F: FnMut(&I::Item)>(it: I, f: F) -> Inspect<I, F> { Inspect { it, f } }
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match self.it.next() { None => None, Some(x) => { (self.f)(&x); Some(x) } }
    }
}

pub struct Fuse<I> { it: I }
pub fn Iterator__fuse<I: Iterator>(it: I) -> Fuse<I> { Fuse { it } }
impl<I: Iterator> Iterator for Fuse<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.it.next() }
}

pub struct Peekable<I: Iterator> { it: I, p: Option<Option<I::Item>> }
pub fn Iterator__peekable<I: Iterator>(it: I) -> Peekable<I> { Peekable { it, p: None } }
impl<I: Iterator> Iterator for Peekable<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match self.p.take() { Some(v) => v, None => self.it.next() }
    }
}
pub fn Peekable__peek<I: Iterator>(it: &mut Peekable<I>) -> Option<&I::Item> {
    if it.p.is_none() { it.p = Some(it.it.next()); }
    match it.p { Some(Some(ref x)) => Some(x), _ => None }
}

// `&mut I` is an iterator
impl<'a, I: Iterator> Iterator for ByRef<'a, I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> { self.0.next() }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    fn nth(&mut self, n: usize) -> Option<I::Item> { self.0.nth(n) }
}
impl<'a, I: DoubleEndedIterator> DoubleEndedIterator for ByRef<'a, I> {
    fn next_back(&mut self) -> Option<I::Item> { self.0.next_back() }
}
impl<'a, I: ExactSizeIterator> ExactSizeIterator for ByRef<'a, I> {
    fn len(&self) -> usize { self.0.len() }
}
pub struct ByRef<'a, I>(&'a mut I);

// ------------------------------------------------------------------ provided iterator methods
pub fn Iterator__size_hint<I: Iterator>(it: &I) -> (usize, Option<usize>) { (0, None) }
pub fn Iterator__by_ref<I: Iterator>(it: &mut I) -> &mut I { it }
pub fn Iterator__count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() { n += 1; }
    n
}
pub fn Iterator__last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() { r = Some(x); }
    r
}
pub fn Iterator__nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    for _ in 0..n {
        if let None = it.next() { return None; }
    }
    it.next()
}
pub fn DoubleEndedIterator__nth_back<I: DoubleEndedIterator>(it: &mut I, n: usize) -> Option<I::Item> {
    for _ in 0..n {
        if let None = it.next_back() { return None; }
    }
    it.next_back()
}
pub fn Iterator__fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
pub fn DoubleEndedIterator__rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next_back() { acc = f(acc, x); }
    acc
}
pub fn Iterator__reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
    match it.next() {
        None => None,
        Some(x) => {
            let mut acc = x;
            while let Some(y) = it.next() { acc = f(acc, y); }
            Some(acc)
        }
    }
}
pub fn Iterator__for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() { f(x); }
}
pub fn Iterator__try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: core::ops::Try<Output = ()>>(it: &mut I, mut f: F) -> R {
    while let Some(x) = it.next() {
        match f(x).branch() { core::ops::ControlFlow::Continue(_) => {} core::ops::ControlFlow::Break(r) => return R::from_residual(r) }
    }
    R::from_output(())
}
pub fn Iterator__try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: core::ops::Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x).branch() { core::ops::ControlFlow::Continue(a) => { acc = a; } core::ops::ControlFlow::Break(r) => return R::from_residual(r) }
    }
    R::from_output(acc)
}
pub fn Iterator__all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
pub fn Iterator__any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
pub fn Iterator__find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut f: P) -> Option<I::Item> {
    while let Some(x) = it.next() { if f(&x) { return Some(x); } }
    None
}
pub fn Iterator__find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } }
    None
}
pub fn Iterator__position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut f: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() { if f(x) { return Some(i); } i += 1; }
    None
}
pub fn Iterator__collect<I: Iterator, B: FromIterator<I::Item>>(it: I) -> B { B::from_iter(it) }
pub fn Iterator__max<I: Iterator>(it: I) -> Option<I::Item> where I::Item: Ord {
    it.max_by(|a, b| a.cmp(b))
}
pub fn Iterator__min<I: Iterator>(it: I) -> Option<I::Item> where I::Item: Ord {
    it.min_by(|a, b| a.cmp(b))
}
pub fn Iterator__max_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
    match it.next() {
        None => None,
        Some(x) => {
            let mut acc = x;
            while let Some(y) = it.next() {
                match f(&acc, &y) { Ordering::Greater => {} _ => { acc = y; } }
            }
            Some(acc)
        }
    }
}
pub fn Iterator__min_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
    match it.next() {
        None => None,
        Some(x) => {
            let mut acc = x;
            while let Some(y) = it.next() {
                match f(&acc, &y) { Ordering::Greater => { acc = y; } _ => {} }
            }
            Some(acc)
        }
    }
}
pub fn Iterator__sum<I: Iterator, S: core::iter::Sum<I::Item>>(it: I) -> S { S::sum(it) }
pub fn Iterator__eq<I: Iterator, J: IntoIterator>(mut a: I, b: J) -> bool where I::Item: PartialEq<J::Item> {
    let mut b = b.into_iter();
    loop {
        match a.next() {
            None => return match b.next() { None => true, Some(_) => false },
            Some(x) => match b.next() { None => return false, Some(y) => if !(x == y) { return false; } },
        }
    }
}
pub fn Iterator__ne<I: Iterator, J: IntoIterator>(a: I, b: J) -> bool where I::Item: PartialEq<J::Item> { !a.eq(b) }
pub fn ExactSizeIterator__len<I: ExactSizeIterator>(it: &I) -> usize { let (n, _) = it.size_hint(); n }
pub fn ExactSizeIterator__is_empty<I: ExactSizeIterator>(it: &I) -> bool { it.len() == 0 }

// ------------------------------------------------------------------ slices
pub fn slice__is_empty<T>(s: &[T]) -> bool { s.len() == 0 }
pub fn slice__first<T>(s: &[T]) -> Option<&T> { if s.len() == 0 { None } else { Some(prim::slice_get(s, 0)) } }
pub fn slice__last<T>(s: &[T]) -> Option<&T> { if s.len() == 0 { None } else { Some(prim::slice_get(s, s.len() - 1)) } }
pub fn slice__swap<T>(mut s: &mut [T], a: usize, b: usize) {
    let n = s.len();
    if a >= n || b >= n { prim::panic() }
    let x = prim::slice_get_mut(&mut s, a) as *mut T;
    let y = prim::slice_get_mut(&mut s, b) as *mut T;
    unsafe { core::ptr::swap(x, y) }
}
pub fn slice__split_at<T>(s: &[T], m: usize) -> (&[T], &[T]) {
    if m > s.len() { prim::panic() }
    (prim::subslice(s, 0, m), prim::subslice(s, m, s.len()))
}
pub fn slice__split_at_mut<T>(mut s: &mut [T], m: usize) -> (&mut [T], &mut [T]) {
    let n = s.len();
    if m > n { prim::panic() }
    (prim::subslice_mut(&mut s, 0, m), prim::subslice_mut(&mut s, m, n))
}
pub fn slice__split_first<T>(s: &[T]) -> Option<(&T, &[T])> {
    if s.len() == 0 { None } else { Some((prim::slice_get(s, 0), prim::subslice(s, 1, s.len()))) }
}
pub fn slice__contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    let mut i = 0;
    while i < s.len() { if *prim::slice_get(s, i) == *x { return true; } i += 1; }
    false
}
pub fn slice__clone_from_slice<T: Clone>(mut d: &mut [T], s: &[T]) {
    let n = d.len();
    if n != s.len() { prim::panic() }
    let mut i = 0;
    while i < n { *prim::slice_get_mut(&mut d, i) = prim::slice_get(s, i).clone(); i += 1; }
}
pub fn slice__eq<A: PartialEq<B>, B>(a: &[A], b: &[B]) -> bool {
    if a.len() != b.len() { return false; }
    let mut i = 0;
    while i < a.len() {
        if !(*prim::slice_get(a, i) == *prim::slice_get(b, i)) { return false; }
        i += 1;
    }
    true
}
pub fn slice__reverse<T>(mut s: &mut [T]) {
    let n = s.len();
    let mut i = 0;
    while i < n / 2 {
        let x = core::mem::replace(prim::slice_get_mut(&mut s, i), prim::any());
        let y = core::mem::replace(prim::slice_get_mut(&mut s, n - 1 - i), x);
        *prim::slice_get_mut(&mut s, i) = y;
        i += 1;
    }
}

// ------------------------------------------------------------------ Option / Result
pub fn Option__unwrap<T>(o: Option<T>) -> T { match o { Some(x) => x, None => prim::panic() } }
pub fn Option__expect<T>(o: Option<T>, m: &str) -> T { match o { Some(x) => x, None => prim::panic() } }
pub fn Option__unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn Option__unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn Option__unwrap_or_default<T: Default>(o: Option<T>) -> T { match o { Some(x) => x, None => T::default() } }
pub fn Option__map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn Option__map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn Option__map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn Option__and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn Option__filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => if f(&x) { Some(x) } else { None }, None => None } }
pub fn Option__or<T>(o: Option<T>, d: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => d } }
pub fn Option__or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn Option__is_some<T>(o: &Option<T>) -> bool { match *o { Some(_) => true, None => false } }
pub fn Option__is_none<T>(o: &Option<T>) -> bool { match *o { Some(_) => false, None => true } }
pub fn Option__cloned<T: Clone>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(x.clone()), None => None } }
pub fn Option__copied<T: Copy>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
pub fn Option__as_ref<T>(o: &Option<T>) -> Option<&T> { match *o { Some(ref x) => Some(x), None => None } }
pub fn Option__as_mut<T>(o: &mut Option<T>) -> Option<&mut T> { match *o { Some(ref mut x) => Some(x), None => None } }
pub fn Option__take<T>(o: &mut Option<T>) -> Option<T> { core::mem::replace(o, None) }
pub fn Option__replace<T>(o: &mut Option<T>, v: T) -> Option<T> { core::mem::replace(o, Some(v)) }
pub fn Option__ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn Option__ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn Option__zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> { match o { Some(x) => match p { Some(y) => Some((x, y)), None => None }, None => None } }
pub fn Result__ok<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
pub fn Result__is_ok<T, E>(r: &Result<T, E>) -> bool { match *r { Ok(_) => true, Err(_) => false } }
pub fn Result__is_err<T, E>(r: &Result<T, E>) -> bool { match *r { Ok(_) => false, Err(_) => true } }
pub fn Result__map<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn Result__and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(r: Result<T, E>, f: F) -> Result<U, E> { match r { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn Result__and<T, E, U>(r: Result<T, E>, s: Result<U, E>) -> Result<U, E> { match r { Ok(_) => s, Err(e) => Err(e) } }
pub fn Result__map_err<T, E, U, F: FnOnce(E) -> U>(r: Result<T, E>, f: F) -> Result<T, U> { match r { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn Result__unwrap<T, E>(r: Result<T, E>) -> T { match r { Ok(x) => x, Err(_) => prim::panic() } }
pub fn Result__expect<T, E>(r: Result<T, E>, m: &str) -> T { match r { Ok(x) => x, Err(_) => prim::panic() } }
pub fn Result__unwrap_or<T, E>(r: Result<T, E>, d: T) -> T { match r { Ok(x) => x, Err(_) => d } }
// the `?` operator
pub fn TryOption__branch<T>(o: Option<T>) -> core::ops::ControlFlow<Option<core::convert::Infallible>, T> {
    match o { Some(x) => core::ops::ControlFlow::Continue(x), None => core::ops::ControlFlow::Break(None) }
}
pub fn TryResult__branch<T, E>(o: Result<T, E>) -> core::ops::ControlFlow<Result<core::convert::Infallible, E>, T> {
    match o { Ok(x) => core::ops::ControlFlow::Continue(x), Err(e) => core::ops::ControlFlow::Break(Err(e)) }
}
pub fn TryOption__from_output<T>(x: T) -> Option<T> { Some(x) }
pub fn TryResult__from_output<T, E>(x: T) -> Result<T, E> { Ok(x) }
pub fn Result__or_else<T, E, F, O: FnOnce(E) -> Result<T, F>>(r: Result<T, E>, op: O) -> Result<T, F> { match r { Ok(t) => Ok(t), Err(e) => op(e) } }
pub fn Result__or<T, E, F>(r: Result<T, E>, o: Result<T, F>) -> Result<T, F> { match r { Ok(t) => Ok(t), Err(_) => o } }
pub fn Result__err<T, E>(r: Result<T, E>) -> Option<E> { match r { Ok(_) => None, Err(e) => Some(e) } }
pub fn Result__unwrap_err<T, E>(r: Result<T, E>) -> E { match r { Ok(_) => prim::panic(), Err(e) => e } }
pub fn Result__unwrap_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> T { match r { Ok(t) => t, Err(e) => f(e) } }
pub fn Result__unwrap_or_default<T: Default, E>(r: Result<T, E>) -> T { match r { Ok(t) => t, Err(_) => T::default() } }
pub fn Result__map_or<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, d: U, f: F) -> U { match r { Ok(t) => f(t), Err(_) => d } }
pub fn Result__as_ref<T, E>(r: &Result<T, E>) -> Result<&T, &E> { match *r { Ok(ref t) => Ok(t), Err(ref e) => Err(e) } }
pub fn TryOption__from_residual<T>(o: Option<core::convert::Infallible>) -> Option<T> { None }
pub fn TryResult__from_residual<T, E>(r: Result<core::convert::Infallible, E>) -> Result<T, E> { match r { Err(e) => Err(e), Ok(_) => prim::panic() } }

// ------------------------------------------------------------------ ordering
pub fn cmp__max<T: Ord>(a: T, b: T) -> T { match a.cmp(&b) { Ordering::Greater => a, _ => b } }
pub fn cmp__min<T: Ord>(a: T, b: T) -> T { match a.cmp(&b) { Ordering::Greater => b, _ => a } }
pub fn Ord__max<T: Ord>(a: T, b: T) -> T { match a.cmp(&b) { Ordering::Greater => a, _ => b } }
pub fn Ord__min<T: Ord>(a: T, b: T) -> T { match a.cmp(&b) { Ordering::Greater => b, _ => a } }
pub fn Ord__clamp<T: Ord>(a: T, lo: T, hi: T) -> T {
    match lo.cmp(&hi) { Ordering::Greater => prim::panic(), _ => {} }
    match a.cmp(&lo) { Ordering::Less => lo, _ => match a.cmp(&hi) { Ordering::Greater => hi, _ => a } }
}
pub fn Ordering__reverse(o: Ordering) -> Ordering {
    match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}
pub fn Ordering__is_lt(o: Ordering) -> bool { match o { Ordering::Less => true, _ => false } }
pub fn Ordering__is_gt(o: Ordering) -> bool { match o { Ordering::Greater => true, _ => false } }
pub fn Ordering__is_le(o: Ordering) -> bool { match o { Ordering::Greater => false, _ => true } }
pub fn Ordering__is_ge(o: Ordering) -> bool { match o { Ordering::Less => false, _ => true } }
pub fn Ordering__is_eq(o: Ordering) -> bool { match o { Ordering::Equal => true, _ => false } }
pub fn Ordering__is_ne(o: Ordering) -> bool { match o { Ordering::Equal => false, _ => true } }
pub fn Ordering__then(o: Ordering, p: Ordering) -> Ordering { match o { Ordering::Equal => p, x => x } }

// ------------------------------------------------------------------ integers
pub fn usize__saturating_sub(a: usize, b: usize) -> usize { if a < b { 0 } else { a - b } }
pub fn usize__checked_sub(a: usize, b: usize) -> Option<usize> { if a < b { None } else { Some(a - b) } }
pub fn usize__saturating_add(a: usize, b: usize) -> usize { if usize::MAX - a < b { usize::MAX } else { a + b } }
pub fn usize__checked_add(a: usize, b: usize) -> Option<usize> { if usize::MAX - a < b { None } else { Some(a + b) } }
pub fn usize__abs_diff(a: usize, b: usize) -> usize { if a < b { b - a } else { a - b } }
pub fn usize__min(a: usize, b: usize) -> usize { if a < b { a } else { b } }
pub fn usize__max(a: usize, b: usize) -> usize { if a < b { b } else { a } }

// ------------------------------------------------------------------ mem
pub fn mem__replace<T>(d: &mut T, v: T) -> T { unsafe { let r = core::ptr::read(d); core::ptr::write(d, v); r } }
pub fn mem__swap<T>(a: &mut T, b: &mut T) { unsafe { let r = core::ptr::read(a); core::ptr::write(a, core::ptr::read(b)); core::ptr::write(b, r); } }

// ------------------------------------------------------------------ formatting
pub fn DebugList__entries<'a, 'b, D, I: IntoIterator<Item = D>>(l: &'a mut DebugList<'b>, it: I) -> &'a mut DebugList<'b> {
    let mut it = it.into_iter();
    while let Some(x) = it.next() { DebugList__entry(l, &x); }
    l
}
pub struct DebugList<'b> { f: &'b mut core::fmt::Formatter<'b>, res: core::fmt::Result, n: usize }
pub fn Formatter__debug_list<'b>(f: &'b mut core::fmt::Formatter<'b>) -> DebugList<'b> {
    let res = prim::fmt_char(f, "[");
    DebugList { f, res, n: 0 }
}
pub fn DebugList__entry<'a, 'b, D>(l: &'a mut DebugList<'b>, x: &D) -> &'a mut DebugList<'b> {
    if l.res.is_ok() {
        if l.n != 0 { l.res = prim::fmt_char(l.f, ", "); }
        if l.res.is_ok() { l.res = prim::fmt_elem(l.f, x); }
    }
    l.n += 1;
    l
}
pub fn DebugList__finish<'a, 'b>(l: &'a mut DebugList<'b>) -> core::fmt::Result {
    if l.res.is_ok() { l.res = prim::fmt_char(l.f, "]"); }
    l.res
}
