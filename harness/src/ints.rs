//! Integer vectors. A parameter called `width` is enumerated over 1..=64 by the runner.
use crate::spec::*;
use succinct_neo::int_vec::*;

const MANY: usize = 1 << 40;

/// the vector holding elements 0..n of an arbitrary sequence
pub fn iv(width: usize, n: usize) -> IntVec {
    let mut v = IntVec::new(width);
    let mut k = 0;
    while k < n {
        v.push(stream(k, width));
        k += 1;
    }
    v
}

/// n arbitrary elements, `bits` bits in total
pub fn any_iv(width: usize, n: usize, bits: usize) -> IntVec {
    assume(n <= MANY && bits == n * width);
    let v = iv(width, n);
    havoc_bits(v.raw_data(), bits);
    v
}

/// an arbitrary value that fits
fn value(width: usize) -> usize {
    stream(0, width)
}

fn too_large(width: usize) -> usize {
    let x = any_usize();
    assume(width < 64 && x > (usize::MAX >> (64 - width)));
    x
}

// ---- P09 ------------------------------------------------------------------------------------------------

pub fn p09_push_get(width: usize, n: usize, i: usize) {
    assume(n <= MANY && i < n);
    let v = iv(width, n);
    verify(v.get(i) == stream(i, width));
    verify(!v.is_empty());
}

pub fn p09_empty(width: usize) {
    let mut v = IntVec::new(width);
    verify(v.is_empty());
    v.push(value(width));
    verify(!v.is_empty());
    verify(v.get(0) == value(width));
}

pub fn p09_with_capacity(width: usize, c: usize, n: usize) {
    assume(c <= MANY && n <= MANY);
    let mut v = IntVec::with_capacity(width, c);
    verify(v.is_empty());
    let mut k = 0;
    while k < n {
        v.push(stream(k, width));
        k += 1;
    }
    verify(v.is_empty() == (n == 0));
    verify(v.iter().len() == n);
    if n > 0 {
        verify(v.get(n - 1) == stream(n - 1, width));
    }
}

pub fn p09_push_more(width: usize, n: usize, bits: usize) {
    let mut v = any_iv(width, n, bits);
    let x = value(width);
    v.push(x);
    verify(v.get(n) == x);
    verify(v.iter().len() == n + 1);
}

pub fn p09_push_keeps(width: usize, n: usize, bits: usize, j: usize) {
    assume(j < n);
    let mut v = any_iv(width, n, bits);
    let old = v.get(j);
    v.push(value(width));
    verify(v.get(j) == old);
}

pub fn p09_set_get(width: usize, n: usize, bits: usize, i: usize) {
    assume(i < n);
    let mut v = any_iv(width, n, bits);
    let x = value(width);
    v.set(i, x);
    verify(v.get(i) == x);
    verify(v.iter().len() == n);
}

pub fn p09_set_frame(width: usize, n: usize, bits: usize, i: usize, j: usize) {
    assume(i < n && j < n && i != j);
    let mut v = any_iv(width, n, bits);
    let old = v.get(j);
    v.set(i, value(width));
    verify(v.get(j) == old);
}

fn full(width: usize) -> usize {
    usize::MAX >> (64 - width)
}

/// set changes no bit of the words outside of its element
pub fn p09_set_words(width: usize, n: usize, bits: usize, i: usize, b: usize) {
    assume(i < n);
    let mut v = any_iv(width, n, bits);
    assume(b < v.raw_data().len());
    let old = v.raw_data()[b];
    v.set(i, value(width));
    verify(v.raw_data().len() == n * width / 64 + 1);
    let new = v.raw_data()[b];
    let (lo, o) = (i * width / 64, partition(i * width % 64));
    let mut element = 0;
    if b == lo {
        element = full(width) << o;
    } else if b == lo + 1 && o + width > 64 {
        element = full(width) >> (64 - o);
    }
    verify((old ^ new) & !element == 0);
}

/// push changes no bit of earlier elements, sets its own and leaves zeros behind
pub fn p09_push_words(width: usize, n: usize, bits: usize, b: usize) {
    let mut v = any_iv(width, n, bits);
    verify(v.raw_data().len() == n * width / 64 + 1);
    assume(b < v.raw_data().len());
    let old = v.raw_data()[b];
    v.push(value(width));
    let raw = v.raw_data();
    let end = (n + 1) * width;
    verify(raw.len() == end / 64 + 1);
    verify(raw[end / 64] >> partition(end % 64) == 0);
    if b == n * width / 64 {
        let o = partition(n * width % 64);
        if o > 0 {
            verify((old ^ raw[b]) << (64 - o) == 0);
        }
    } else {
        verify(old == raw[b]);
    }
}

pub fn p09_set_push(width: usize, n: usize, bits: usize, i: usize) {
    assume(i < n);
    let mut v = any_iv(width, n, bits);
    let x = value(width);
    v.set(i, x);
    let y = stream(1, width);
    v.push(y);
    verify(v.get(n) == y);
    verify(v.get(i) == x);
}

// ---- P10 ------------------------------------------------------------------------------------------------

pub fn p10_get_reject(width: usize, n: usize, bits: usize, i: usize) {
    assume(i >= n);
    let v = any_iv(width, n, bits);
    v.get(i);
    unreachable_return();
}

pub fn p10_set_reject(width: usize, n: usize, bits: usize, i: usize) {
    assume(i >= n);
    let mut v = any_iv(width, n, bits);
    let x = any_usize();
    snapshot(&v);
    v.set(i, x);
    unreachable_return();
}

pub fn p10_set_value_reject(width: usize, n: usize, bits: usize, i: usize) {
    let x = too_large(width);
    let mut v = any_iv(width, n, bits);
    snapshot(&v);
    v.set(i, x);
    unreachable_return();
}

pub fn p10_push_value_reject(width: usize, n: usize, bits: usize) {
    let x = too_large(width);
    let mut v = any_iv(width, n, bits);
    snapshot(&v);
    v.push(x);
    unreachable_return();
}

pub fn p10_new_reject(w: usize) {
    assume(w == 0 || w > 64);
    IntVec::new(w);
    unreachable_return();
}

pub fn p10_with_capacity_reject(w: usize, c: usize) {
    assume(w == 0 || w > 64);
    IntVec::with_capacity(w, c);
    unreachable_return();
}

pub fn p10_valid(width: usize, n: usize, bits: usize, i: usize) {
    assume(i < n);
    let mut v = any_iv(width, n, bits);
    v.get(i);
    v.set(i, value(width));
    v.push(value(width));
}

pub fn p10_valid_capacity(width: usize, c: usize) {
    assume(c <= MANY);
    let v = IntVec::with_capacity(width, c);
    verify(v.is_empty());
}

// ---- P11 ------------------------------------------------------------------------------------------------

macro_rules! walk {
    ($it:expr, $v:expr, $n:expr) => {{
        let mut it = $it;
        let mut k = 0;
        loop {
            verify(it.len() == $n - k);
            let (lo, hi) = it.size_hint();
            verify(lo == $n - k);
            verify(hi == Some($n - k));
            let x = it.next();
            if k == $n {
                verify(x.is_none());
                break;
            }
            verify(x == Some($v.get(k)));
            k += 1;
        }
        verify(it.next().is_none());
        verify(it.len() == 0);
    }};
}

pub fn p11_iter(width: usize, n: usize, bits: usize) {
    let v = any_iv(width, n, bits);
    walk!(v.iter(), v, n);
}

pub fn p11_ref_into_iter(width: usize, n: usize, bits: usize) {
    let v = any_iv(width, n, bits);
    walk!((&v).into_iter(), v, n);
}

pub fn p11_into_iter(width: usize, n: usize, bits: usize) {
    let v = any_iv(width, n, bits);
    // the words stay where they are when the vector is moved into its iterator
    let raw = unsafe { std::slice::from_raw_parts(v.raw_data().as_ptr(), v.raw_data().len()) };
    let mut it = v.into_iter();
    let mut k = 0;
    loop {
        verify(it.len() == n - k);
        let (lo, hi) = it.size_hint();
        verify(lo == n - k);
        verify(hi == Some(n - k));
        let x = it.next();
        if k == n {
            verify(x.is_none());
            break;
        }
        verify(x == Some(raw_element(raw, width, k)));
        k += 1;
    }
    verify(it.next().is_none());
    verify(it.len() == 0);
}

// ---- P22 ------------------------------------------------------------------------------------------------

/// element i according to the documented layout
fn raw_element(raw: &[usize], width: usize, i: usize) -> usize {
    let p = i * width;
    let (b, o) = (p / 64, partition(p % 64));
    let mut x = raw[b] >> o;
    if o + width > 64 {
        x |= raw[b + 1] << (64 - o);
    }
    x & full(width)
}

pub fn p22_int_push(width: usize, n: usize, i: usize) {
    assume(n <= MANY && i < n);
    let v = iv(width, n);
    verify(raw_element(v.raw_data(), width, i) == stream(i, width));
}

pub fn p22_int_get(width: usize, n: usize, bits: usize, i: usize) {
    assume(i < n);
    let v = any_iv(width, n, bits);
    verify(v.get(i) == raw_element(v.raw_data(), width, i));
}

pub fn p22_int_set(width: usize, n: usize, bits: usize, i: usize) {
    assume(i < n);
    let mut v = any_iv(width, n, bits);
    let x = value(width);
    v.set(i, x);
    verify(raw_element(v.raw_data(), width, i) == x);
}

// ---- P23 ------------------------------------------------------------------------------------------------

pub fn p23_int_get_unchecked(width: usize, n: usize, bits: usize, i: usize) {
    assume(i < n);
    let v = any_iv(width, n, bits);
    verify(unsafe { v.get_unchecked(i) } == v.get(i));
}

pub fn p23_int_set_unchecked(width: usize, n: usize, bits: usize, i: usize) {
    assume(i < n);
    let mut v = any_iv(width, n, bits);
    let x = value(width);
    unsafe { v.set_unchecked(i, x) };
    verify(v.get(i) == x);
}

pub fn p23_int_set_unchecked_frame(width: usize, n: usize, bits: usize, i: usize, j: usize) {
    assume(i < n && j < n && i != j);
    let mut v = any_iv(width, n, bits);
    let old = v.get(j);
    unsafe { v.set_unchecked(i, value(width)) };
    verify(v.get(j) == old);
}

// ---- what rank and select support relies on -----------------------------------------------------------------

/// samples are block numbers, 13 bits shorter than the width they are stored at
pub fn p13_samples(width: usize, n: usize, i: usize) {
    assume(n <= MANY && i < n);
    let mut v = IntVec::new(width);
    let mut k = 0;
    while k < n {
        v.push(stream(k, width - 13));
        k += 1;
    }
    verify(v.get(i) == stream(i, width - 13));
}

pub fn p13_samples_first(width: usize) {
    let mut v = IntVec::new(width);
    v.push(0);
    verify(v.get(0) == 0);
}

pub fn p12_samples(width: usize, n: usize) {
    assume(n <= MANY);
    let mut v = IntVec::new(width);
    let mut k = 0;
    while k < n {
        v.push(stream(k, width - 13));
        k += 1;
    }
}

pub fn p12_samples_first(width: usize) {
    let mut v = IntVec::new(width);
    v.push(0);
}

pub fn p11_nth(width: usize, n: usize, bits: usize, k: usize) {
    let v = any_iv(width, n, bits);
    let mut it = v.iter();
    let x = it.nth(k);
    if k < n {
        verify(x == Some(v.get(k)));
        verify(it.len() == n - k - 1);
    } else {
        verify(x.is_none());
        verify(it.len() == 0);
        verify(it.next().is_none());
    }
}

pub fn p11_into_nth(width: usize, n: usize, bits: usize, k: usize) {
    let v = any_iv(width, n, bits);
    let raw = unsafe { std::slice::from_raw_parts(v.raw_data().as_ptr(), v.raw_data().len()) };
    let mut it = v.into_iter();
    let x = it.nth(k);
    if k < n {
        verify(x == Some(raw_element(raw, width, k)));
        verify(it.len() == n - k - 1);
    } else {
        verify(x.is_none());
        verify(it.len() == 0);
    }
}

pub fn p11_count_last(width: usize, n: usize, bits: usize) {
    let v = any_iv(width, n, bits);
    verify(v.iter().count() == n);
    let x = v.iter().last();
    if n == 0 {
        verify(x.is_none());
    } else {
        verify(x == Some(v.get(n - 1)));
    }
}

// ---- P17 ------------------------------------------------------------------------------------------------

pub fn p17_ints(width: usize, n: usize, bits: usize, i: usize) {
    assume(i < n);
    let v = any_iv(width, n, bits);
    freeze(&v);
    let x = v.get(i);
    unsafe {
        verify(v.get_unchecked(i) == x);
    }
    verify(!v.is_empty());
    verify(v.raw_data().len() > 0);
    let mut it = v.iter();
    verify(it.len() == n);
    verify(it.next().is_some());
}
