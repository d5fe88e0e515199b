//! Iteration over and equality of bit sequences.
use crate::util::*;
use crate::spec::*;
use succinct_neo::bit_vec::*;

/// `it` must yield the bits `lo..hi` of `b`, report its exact remaining length, and stay exhausted.
macro_rules! walk {
    ($it:expr, $b:expr, $lo:expr, $hi:expr) => {{
        let mut it = $it;
        let len = $hi - $lo;
        verify(it.len() == len);
        verify(it.size_hint() == (len, Some(len)));
        let mut c = 0;
        while let Some(x) = it.next() {
            verify(c < len);
            verify(x == $b.get($lo + c));
            c += 1;
            verify(it.len() == len - c);
            verify(it.size_hint() == (len - c, Some(len - c)));
        }
        verify(c == len);
        verify(it.len() == 0);
        verify(it.next().is_none());
        verify(it.next().is_none());
    }};
}

// ---- P06 ---------------------------------------------------------------------------------------------

pub fn p06_vec_iter(n: usize) {
    let b = bv(n);
    walk!(b.iter(), b, 0, n);
}

pub fn p06_vec_into_iter(n: usize) {
    let b = bv(n);
    walk!((&b).into_iter(), b, 0, n);
}

pub fn p06_slice_iter(n: usize, s: usize, e: usize) {
    let b = bv(n);
    assume(s <= e && e <= n);
    let sl = b.slice(s..e);
    walk!(sl.iter(), b, s, e);
}

pub fn p06_slice_ref_into_iter(n: usize, s: usize, e: usize) {
    let b = bv(n);
    assume(s <= e && e <= n);
    let sl = b.slice(s..e);
    walk!((&sl).into_iter(), b, s, e);
}

pub fn p06_slice_into_iter(n: usize, s: usize, e: usize) {
    let b = bv(n);
    assume(s <= e && e <= n);
    walk!(b.slice(s..e).into_iter(), b, s, e);
}

pub fn p06_slice_mut_into_iter(n: usize, s: usize, e: usize) {
    let mut b = bv(n);
    assume(s <= e && e <= n);
    let c = b.clone();
    walk!(b.slice_mut(s..e).into_iter(), c, s, e);
}

pub fn p06_nested_iter(n: usize, s: usize, e: usize, s2: usize, e2: usize) {
    let b = bv(n);
    assume(s <= e && e <= n && s2 <= e2 && e2 <= e - s);
    let sl = b.slice(s..e);
    let sl2 = sl.slice(s2..e2);
    walk!(sl2.iter(), b, s + s2, s + e2);
}

pub fn p06_split_iter(n: usize, k: usize) {
    let b = bv(n);
    assume(k < n);
    let (l, r) = b.split_at(k);
    walk!(l.iter(), b, 0, k);
    walk!(r.into_iter(), b, k, n);
}

pub fn p06_words_iter(w: usize, s: usize, e: usize) {
    let d = words(w);
    assume(w <= (1 << 57) && s <= e && e <= 64 * w);
    let v = BitSlice::new(&*d, s, e);
    let o = BitSlice::new(&*d, 0, 64 * w);
    walk!(v.iter(), o, s, e);
}

/// dropping the first bits by position agrees with reading
pub fn p06_nth(n: usize, s: usize, e: usize, k: usize) {
    let b = bv(n);
    assume(s <= e && e <= n);
    let sl = b.slice(s..e);
    let mut it = sl.iter();
    let x = it.nth(k);
    if k < e - s {
        verify(x == Some(b.get(s + k)));
        verify(it.len() == e - s - k - 1);
    } else {
        verify(x.is_none());
        verify(it.len() == 0);
    }
}

/// the same in the middle of an iteration, for a consuming iterator
pub fn p06_nth_twice(n: usize, s: usize, e: usize, j: usize, k: usize) {
    let b = bv(n);
    assume(s <= e && e <= n && j < e - s);
    let mut it = b.slice(s..e).into_iter();
    verify(it.nth(j) == Some(b.get(s + j)));
    let x = it.nth(k);
    if k < e - s - j - 1 {
        verify(x == Some(b.get(s + j + 1 + k)));
        verify(it.len() == e - s - j - k - 2);
    } else {
        verify(x.is_none());
        verify(it.len() == 0);
    }
}

pub fn p06_count(n: usize, s: usize, e: usize) {
    let b = bv(n);
    assume(s <= e && e <= n);
    verify(b.slice(s..e).into_iter().count() == e - s);
}

pub fn p06_last(n: usize, s: usize, e: usize) {
    let b = bv(n);
    assume(s <= e && e <= n);
    let x = b.slice(s..e).into_iter().last();
    if s == e {
        verify(x.is_none());
    } else {
        verify(x == Some(b.get(e - 1)));
    }
}

/// counting the yielded ones gives the number of ones in the range
pub fn p06_ones(n: usize, s: usize, e: usize) {
    let b = bv(n);
    assume(s <= e && e <= n);
    let mut c = 0usize;
    for x in b.slice(s..e) {
        if x {
            c += 1;
        }
    }
    verify(c == ones_before(&b, e) - ones_before(&b, s));
}

pub fn p06_fold(n: usize, s: usize, e: usize) {
    let b = bv(n);
    assume(s <= e && e <= n);
    let c = b.slice(s..e).into_iter().fold(0usize, |a, x| a + x as usize);
    verify(c == ones_before(&b, e) - ones_before(&b, s));
}

// ---- P07 ---------------------------------------------------------------------------------------------

/// equality only holds between sequences with the same bits
pub fn p07_equal_means_same(n: usize, s: usize, e: usize, m: usize, s2: usize, e2: usize, i: usize) {
    let a = bv(n);
    let b = bv(m);
    assume(s <= e && e <= n && s2 <= e2 && e2 <= m);
    let (x, y) = (a.slice(s..e), b.slice(s2..e2));
    if x == y {
        verify(x.len() == y.len());
        if i < x.len() {
            verify(x.get(i) == y.get(i));
        }
    }
}

/// sequences with the same bits are equal
pub fn p07_same_means_equal(n: usize, s: usize, e: usize, m: usize, s2: usize) {
    let a = bv(n);
    let b = bv(m);
    assume(s <= e && e <= n && s2 <= m && e - s <= m - s2);
    same_bits(&a, s, &b, s2, e - s);
    let (x, y) = (a.slice(s..e), b.slice(s2..s2 + (e - s)));
    verify(x == y);
    verify(!(x != y));
}

pub fn p07_length_matters(n: usize, s: usize, e: usize, m: usize, s2: usize, e2: usize) {
    let a = bv(n);
    let b = bv(m);
    assume(s <= e && e <= n && s2 <= e2 && e2 <= m && e - s != e2 - s2);
    let (x, y) = (a.slice(s..e), b.slice(s2..e2));
    verify(!(x == y));
    verify(x != y);
}

pub fn p07_whole_vectors(n: usize, m: usize, i: usize) {
    let a = bv(n);
    let b = bv(m);
    if *a == *b {
        verify(n == m);
        if i < n {
            verify(a.get(i) == b.get(i));
        }
    }
    let c = a.clone();
    verify(*a == *c);
}

pub fn p07_mixed_kinds(n: usize, s: usize, e: usize, m: usize, s2: usize, i: usize) {
    let a = bv(n);
    let mut b = bv(m);
    assume(s <= e && e <= n && s2 <= m && e - s <= m - s2);
    let x = a.slice(s..e);
    let y = b.slice_mut(s2..s2 + (e - s));
    let (p, q) = (x == y, y == x);
    verify(p == q);
    if p && i < x.len() {
        verify(x.get(i) == y.get(i));
    }
}
