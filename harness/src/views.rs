//! Views with arbitrary bounds, also beyond their backing store, and views of views.
use crate::spec::*;
use crate::util::*;
use std::ops::{Bound, RangeBounds};
use succinct_neo::bit_vec::slice::BitSlice;
use succinct_neo::bit_vec::*;

// ---- P08: whatever the bounds of a view, using it may panic but touches only its backing store ----------

pub fn p08_wild_get(n: usize, s: usize, e: usize, i: usize) {
    let b = bv(n);
    let v = BitSlice::new(&*b, s, e);
    v.get_bit(i);
    v.get(i);
}

pub fn p08_wild_set(n: usize, s: usize, e: usize, i: usize, x: bool) {
    let mut b = bv(n);
    let mut v = BitSlice::new(&mut *b, s, e);
    v.set_bit(i, x);
    v.flip_bit(i);
}

pub fn p08_wild_words(w: usize, s: usize, e: usize, i: usize, x: bool) {
    let mut d = words(w);
    let mut v = BitSlice::new(&mut *d, s, e);
    v.get_bit(i);
    v.set_bit(i, x);
    v.flip_bit(i);
}

pub fn p08_wild_word(s: usize, e: usize, i: usize, x: bool) {
    let mut d: u32 = any_word();
    let mut v = BitSlice::new(&mut d, s, e);
    v.get_bit(i);
    v.set_bit(i, x);
    v.flip_bit(i);
}

pub fn p08_wild_next(n: usize, s: usize, e: usize) {
    let b = bv(n);
    let v = BitSlice::new(&*b, s, e);
    v.iter().next();
    v.into_iter().next();
}

pub fn p08_wild_nth(n: usize, s: usize, e: usize, k: usize) {
    let b = bv(n);
    let v = BitSlice::new(&*b, s, e);
    v.iter().nth(k);
}

pub fn p08_wild_iter(n: usize, s: usize, e: usize) {
    let b = bv(n);
    let v = BitSlice::new(&*b, s, e);
    for x in &v {
        if x {
            continue;
        }
    }
}

pub fn p08_wild_words_iter(w: usize, s: usize, e: usize) {
    let d = words(w);
    let v = BitSlice::new(&*d, s, e);
    for x in v {
        if x {
            continue;
        }
    }
}

pub fn p08_wild_eq(n: usize, s: usize, e: usize, m: usize, a: usize) {
    let b = bv(n);
    let c = bv(m);
    let v = BitSlice::new(&*b, s, e);
    let w = BitSlice::new(&*c, a, m);
    if v == w {
        verify(e - s == m - a);
    }
}

pub fn p08_wild_slice(n: usize, s: usize, e: usize, a: usize, c: usize, i: usize) {
    let b = bv(n);
    let v = BitSlice::new(&*b, s, e);
    v.slice(a..c).get_bit(i);
    v.slice(a..).get_bit(i);
}

pub fn p08_wild_slice_mut(n: usize, s: usize, e: usize, a: usize, c: usize, i: usize, x: bool) {
    let mut b = bv(n);
    let mut v = BitSlice::new(&mut *b, s, e);
    v.slice_mut(a..c).set_bit(i, x);
    v.slice_mut(..=c).flip_bit(i);
}

pub fn p08_wild_split(n: usize, s: usize, e: usize, k: usize, i: usize) {
    let b = bv(n);
    let v = BitSlice::new(&*b, s, e);
    let (l, r) = v.split_at(k);
    l.get_bit(i);
    r.get_bit(i);
}

pub fn p08_wild_split_mut(n: usize, s: usize, e: usize, k: usize, i: usize, x: bool) {
    let mut b = bv(n);
    let mut v = BitSlice::new(&mut *b, s, e);
    let (mut l, mut r) = v.split_at_mut(k);
    l.set_bit(i, x);
    r.flip_bit(i);
}

// ---- P23: views of views --------------------------------------------------------------------------------

macro_rules! nested {
    ($($read:ident, $write:ident, |$s:ident, $e:ident| $r:expr, $from:expr, $to:expr;)*) => {$(
        pub fn $read(n: usize, a: usize, c: usize, $s: usize, $e: usize, i: usize) {
            let b = bv(n);
            assume(a <= c && c <= n);
            let m = c - a;
            assume($s < m && $e < m && $from($s, $e, m) <= $to($s, $e, m));
            let o = b.slice(a..c);
            let v = unsafe { o.slice_unchecked($r) };
            verify(v.len() == $to($s, $e, m) - $from($s, $e, m));
            if i < v.len() {
                verify(v.get_bit(i) == b.get_bit(a + $from($s, $e, m) + i));
                verify(unsafe { v.get_unchecked(i) } == b.get_bit(a + $from($s, $e, m) + i));
            }
        }

        pub fn $write(n: usize, a: usize, c: usize, $s: usize, $e: usize, i: usize, x: bool, j: usize) {
            let mut b = bv(n);
            assume(a <= c && c <= n && j < n);
            let m = c - a;
            assume($s < m && $e < m && $from($s, $e, m) <= $to($s, $e, m));
            let pre = b.get_bit(j);
            {
                let mut o = b.slice_mut(a..c);
                let mut v = unsafe { o.slice_unchecked_mut($r) };
                verify(v.len() == $to($s, $e, m) - $from($s, $e, m));
                assume(i < v.len());
                v.set_bit(i, x);
            }
            verify(b.get_bit(j) == if j == a + $from($s, $e, m) + i { x } else { pre });
        }
    )*};
}

fn first(s: usize, _: usize, _: usize) -> usize {
    s
}
fn after(s: usize, _: usize, _: usize) -> usize {
    s + 1
}
fn zero(_: usize, _: usize, _: usize) -> usize {
    0
}
fn before(_: usize, e: usize, _: usize) -> usize {
    e
}
fn through(_: usize, e: usize, _: usize) -> usize {
    e + 1
}
fn all(_: usize, _: usize, m: usize) -> usize {
    m
}

nested! {
    p23_nested_range, p23_nested_range_mut, |s, e| s..e, first, before;
    p23_nested_inclusive, p23_nested_inclusive_mut, |s, e| s..=e, first, through;
    p23_nested_from, p23_nested_from_mut, |s, e| s.., first, all;
    p23_nested_to, p23_nested_to_mut, |s, e| ..e, zero, before;
    p23_nested_to_inclusive, p23_nested_to_inclusive_mut, |s, e| ..=e, zero, through;
    p23_nested_full, p23_nested_full_mut, |s, e| .., zero, all;
    p23_nested_bounds, p23_nested_bounds_mut, |s, e| (Bound::Excluded(s), Bound::Included(e)), after, through;
}
