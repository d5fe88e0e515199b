//! Sub-slicing, splitting, iteration and equality of bit slices.
use crate::util::*;
use crate::spec::*;
use std::ops::{Bound, RangeBounds};
use succinct_neo::bit_vec::*;

/// a range with an arbitrary combination of bounds
pub struct R(pub Bound<usize>, pub Bound<usize>);

impl RangeBounds<usize> for R {
    fn start_bound(&self) -> Bound<&usize> {
        match &self.0 {
            Bound::Included(x) => Bound::Included(x),
            Bound::Excluded(x) => Bound::Excluded(x),
            Bound::Unbounded => Bound::Unbounded,
        }
    }
    fn end_bound(&self) -> Bound<&usize> {
        match &self.1 {
            Bound::Included(x) => Bound::Included(x),
            Bound::Excluded(x) => Bound::Excluded(x),
            Bound::Unbounded => Bound::Unbounded,
        }
    }
}

fn range(ks: usize, s: usize, ke: usize, e: usize) -> R {
    R(
        match ks {
            0 => Bound::Included(s),
            1 => Bound::Excluded(s),
            _ => Bound::Unbounded,
        },
        match ke {
            0 => Bound::Included(e),
            1 => Bound::Excluded(e),
            _ => Bound::Unbounded,
        },
    )
}

/// first bit of the range and one past its last bit, in unbounded integers
fn meaning(ks: usize, s: usize, ke: usize, e: usize, n: usize) -> (u128, u128) {
    (
        match ks {
            0 => s as u128,
            1 => s as u128 + 1,
            _ => 0,
        },
        match ke {
            0 => e as u128 + 1,
            1 => e as u128,
            _ => n as u128,
        },
    )
}

// ---- P04 ---------------------------------------------------------------------------------------------

pub fn p04_slice(n: usize, ks: usize, s: usize, ke: usize, e: usize, i: usize) {
    let b = bv(n);
    assume(ks < 3 && ke < 3);
    let (ks, ke) = (partition(ks), partition(ke));
    let (lo, hi) = meaning(ks, s, ke, e, n);
    assume(lo <= hi && hi <= n as u128);
    let sl = b.slice(range(ks, s, ke, e));
    verify(sl.len() as u128 == hi - lo);
    verify(sl.is_empty() == (lo == hi));
    if i < sl.len() {
        verify(sl.get(i) == b.get(lo as usize + i));
    }
}

pub fn p04_slice_mut(n: usize, ks: usize, s: usize, ke: usize, e: usize, i: usize, v: bool, j: usize) {
    let mut b = bv(n);
    assume(ks < 3 && ke < 3 && j < n);
    let (ks, ke) = (partition(ks), partition(ke));
    let (lo, hi) = meaning(ks, s, ke, e, n);
    assume(lo <= hi && hi <= n as u128);
    assume((i as u128) < hi - lo);
    let pre = b.get(j);
    {
        let mut sl = b.slice_mut(range(ks, s, ke, e));
        verify(sl.len() as u128 == hi - lo);
        sl.set(i, v);
    }
    verify(b.get(j) == if j as u128 == lo + i as u128 { v } else { pre });
}

pub fn p04_slice_reject(n: usize, ks: usize, s: usize, ke: usize, e: usize) {
    let b = bv(n);
    assume(ks < 3 && ke < 3);
    let (ks, ke) = (partition(ks), partition(ke));
    let (lo, hi) = meaning(ks, s, ke, e, n);
    assume(lo > hi || hi > n as u128);
    b.slice(range(ks, s, ke, e));
    unreachable_return();
}

pub fn p04_slice_mut_reject(n: usize, ks: usize, s: usize, ke: usize, e: usize) {
    let mut b = bv(n);
    assume(ks < 3 && ke < 3);
    let (ks, ke) = (partition(ks), partition(ke));
    let (lo, hi) = meaning(ks, s, ke, e, n);
    assume(lo > hi || hi > n as u128);
    snapshot(&b);
    b.slice_mut(range(ks, s, ke, e));
    unreachable_return();
}

pub fn p04_std_ranges(n: usize, s: usize, e: usize, i: usize) {
    let b = bv(n);
    assume(s <= e && e < n);
    verify(b.slice(..).len() == n);
    verify(b.slice(s..).len() == n - s);
    verify(b.slice(..e).len() == e);
    verify(b.slice(..=e).len() == e + 1);
    verify(b.slice(s..e).len() == e - s);
    verify(b.slice(s..=e).len() == e - s + 1);
    if i < n - s {
        verify(b.slice(s..).get(i) == b.get(s + i));
    }
    if i < e {
        verify(b.slice(..e).get(i) == b.get(i));
    }
}

pub fn p04_nested(n: usize, s: usize, e: usize, s2: usize, e2: usize, i: usize) {
    let b = bv(n);
    assume(s <= e && e <= n && s2 <= e2 && e2 <= e - s);
    let sl = b.slice(s..e);
    let sl2 = sl.slice(s2..e2);
    verify(sl2.len() == e2 - s2);
    if i < e2 - s2 {
        verify(sl2.get(i) == b.get(s + s2 + i));
    }
    let rest = sl.slice(s2..);
    verify(rest.len() == e - s - s2);
}

pub fn p04_nested_reject(n: usize, s: usize, e: usize, s2: usize, e2: usize) {
    let b = bv(n);
    assume(s <= e && e <= n && (s2 > e2 || e2 > e - s));
    b.slice(s..e).slice(s2..e2);
    unreachable_return();
}

pub fn p04_nested_mut_reject(n: usize, s: usize, e: usize, s2: usize, e2: usize) {
    let mut b = bv(n);
    assume(s <= e && e <= n && (s2 > e2 || e2 > e - s));
    b.slice_mut(s..e).slice_mut(s2..e2);
    unreachable_return();
}

// ---- P05 ---------------------------------------------------------------------------------------------

pub fn p05_split(n: usize, s: usize, e: usize, k: usize, i: usize) {
    let b = bv(n);
    assume(s <= e && e <= n && k < e - s);
    let sl = b.slice(s..e);
    let (l, r) = sl.split_at(k);
    verify(l.len() == k);
    verify(r.len() == e - s - k);
    if i < k {
        verify(l.get(i) == b.get(s + i));
    }
    if i < e - s - k {
        verify(r.get(i) == b.get(s + k + i));
    }
}

pub fn p05_split_vec(n: usize, k: usize, i: usize) {
    let b = bv(n);
    assume(k < n);
    let (l, r) = b.split_at(k);
    verify(l.len() == k);
    verify(r.len() == n - k);
    if i < k {
        verify(l.get(i) == b.get(i));
    }
    if i < n - k {
        verify(r.get(i) == b.get(k + i));
    }
}

pub fn p05_split_mut_left(n: usize, s: usize, e: usize, k: usize, i: usize, v: bool, j: usize) {
    let mut b = bv(n);
    assume(s <= e && e <= n && k < e - s && i < k && j < n);
    let pre = b.get(j);
    {
        let mut sl = b.slice_mut(s..e);
        let (mut l, r) = sl.split_at_mut(k);
        verify(l.len() == k);
        verify(r.len() == e - s - k);
        l.set(i, v);
        verify(l.get(i) == v);
        if j >= s + k && j < e {
            verify(r.get(j - s - k) == pre);
        }
    }
    verify(b.get(j) == if j == s + i { v } else { pre });
}

pub fn p05_split_mut_right(n: usize, s: usize, e: usize, k: usize, i: usize, j: usize) {
    let mut b = bv(n);
    assume(s <= e && e <= n && k < e - s && i < e - s - k && j < n);
    let pre = b.get(j);
    {
        let mut sl = b.slice_mut(s..e);
        let (l, mut r) = sl.split_at_mut(k);
        r.flip(i);
        if j >= s && j < s + k {
            verify(l.get(j - s) == pre);
        }
    }
    verify(b.get(j) == if j == s + k + i { !pre } else { pre });
}

pub fn p05_split_mut_both(n: usize, k: usize, i: usize, v: bool, i2: usize, v2: bool, j: usize) {
    let mut b = bv(n);
    assume(k < n && i < k && i2 < n - k && j < n);
    let pre = b.get(j);
    {
        let (mut l, mut r) = b.split_at_mut(k);
        r.set(i2, v2);
        l.set(i, v);
        verify(r.get(i2) == v2);
        verify(l.get(i) == v);
    }
    verify(b.get(j) == if j == i { v } else if j == k + i2 { v2 } else { pre });
}

pub fn p05_split_reject(n: usize, s: usize, e: usize, k: usize) {
    let b = bv(n);
    assume(s <= e && e <= n && k >= e - s);
    b.slice(s..e).split_at(k);
    unreachable_return();
}

pub fn p05_split_mut_reject(n: usize, s: usize, e: usize, k: usize) {
    let mut b = bv(n);
    assume(s <= e && e <= n && k >= e - s);
    snapshot(&b);
    b.slice_mut(s..e).split_at_mut(k);
    unreachable_return();
}

pub fn p05_halves_bounds_reject(n: usize, k: usize, i: usize, v: bool) {
    let mut b = bv(n);
    assume(k < n && i >= k);
    snapshot(&b);
    let (mut l, _r) = b.split_at_mut(k);
    l.set(i, v);
    unreachable_return();
}
