//! What operations through shared references touch, and lengths.
use crate::spec::*;
use crate::util::*;
use std::rc::Rc;
use succinct_neo::bit_vec::*;

// ---- P17: nothing is modified through a shared reference ------------------------------------------------

pub fn p17_vec_read(n: usize, i: usize) {
    let b = bv(n);
    assume(i < n);
    let pre = b.get(i);
    freeze(&b);
    verify(b.get_bit(i) == pre);
    verify(b.get(i) == pre);
    unsafe {
        verify(b.get_unchecked(i) == pre);
        verify(b.get_bit_unchecked(i) == pre);
    }
}

pub fn p17_vec_observe(n: usize) {
    let b = bv(n);
    freeze(&b);
    verify(b.len() == n);
    verify(b.is_empty() == (n == 0));
    verify(b.raw().len() == b.backing().len());
    let w: &[usize] = b.as_ref();
    verify(w.len() == b.raw().len());
    let s: &BitSlice<Box<[usize]>> = b.as_ref();
    verify(s.len() == n);
}

pub fn p17_vec_clone(n: usize, i: usize) {
    let b = bv(n);
    assume(i < n);
    freeze(&b);
    let c = b.clone();
    verify(c.get(i) == b.get(i));
}

pub fn p17_vec_iterate(n: usize) {
    let b = bv(n);
    freeze(&b);
    let mut c = 0;
    for _ in &b {
        c += 1;
    }
    verify(c == n);
}

pub fn p17_slice_read(n: usize, s: usize, e: usize, i: usize) {
    let b = bv(n);
    assume(s <= e && e <= n && i < e - s);
    freeze(&b);
    let sl = b.slice(s..e);
    freeze(&sl);
    verify(sl.get(i) == b.get(s + i));
    verify(sl.get_bit(i) == b.get_bit(s + i));
    verify(sl.len() == e - s);
    verify(!sl.is_empty());
    unsafe {
        verify(sl.get_unchecked(i) == b.get(s + i));
        verify(b.slice_unchecked(s..e).get(i) == b.get(s + i));
    }
}

pub fn p17_nested_read(n: usize, s: usize, e: usize, t: usize, i: usize) {
    let b = bv(n);
    assume(s <= e && e <= n && t <= e - s && i < e - s - t);
    freeze(&b);
    let sl = b.slice(s..e);
    freeze(&sl);
    let u = sl.slice(t..);
    freeze(&u);
    verify(u.get(i) == b.get(s + t + i));
}

pub fn p17_split_read(n: usize, k: usize, i: usize, j: usize) {
    let b = bv(n);
    assume(i < k && k <= n && j < n - k);
    freeze(&b);
    let (x, y) = b.split_at(k);
    freeze(&x);
    freeze(&y);
    verify(x.get(i) == b.get(i));
    verify(y.get(j) == b.get(k + j));
}

pub fn p17_slice_iterate(n: usize, s: usize, e: usize) {
    let b = bv(n);
    assume(s <= e && e <= n);
    freeze(&b);
    let sl = b.slice(s..e);
    freeze(&sl);
    let mut c = 0;
    for _ in sl.iter() {
        c += 1;
    }
    for _ in &sl {
        c += 1;
    }
    verify(c == 2 * (e - s));
}

pub fn p17_slice_eq(n: usize, m: usize) {
    let b = bv(n);
    let c = bv(m);
    freeze(&b);
    freeze(&c);
    let x = b.slice(..) == c.slice(..);
    verify(!x || n == m);
}

pub fn p17_mutable_view_read(n: usize, s: usize, e: usize, i: usize) {
    let mut b = bv(n);
    assume(s <= e && e <= n && i < e - s);
    let pre = b.get(s + i);
    let sl = b.slice_mut(s..e);
    freeze(&sl);
    verify(sl.get(i) == pre);
    verify(sl.get_bit(i) == pre);
    verify(sl.len() == e - s);
    verify(sl.slice(i..).get(0) == pre);
}

pub fn p17_words_read(w: usize, i: usize) {
    assume(w < 1 << 40 && i < 64 * w);
    let b = words(w);
    freeze(&b);
    verify(b.get_bit(i) == b[..].get_bit(i));
}

pub fn p17_word_read(x: u64, i: usize) {
    assume(i < 64);
    freeze(&x);
    verify(x.get_bit(i) == (x >> i & 1 == 1));
}

pub fn p17_counted_read(n: usize, i: usize) {
    let v = bv(n);
    assume(i < n);
    let pre = v.get(i);
    let b = Rc::new(v.slice(..));
    freeze(&b);
    verify(BitGet::get_bit(&b, i) == pre);
}

// ---- P21: the length stays ------------------------------------------------------------------------------

fn kept(b: &BitVec, n: usize, words: usize) {
    verify(b.len() == n);
    verify(b.is_empty() == (n == 0));
    verify(b.raw().len() == words);
    verify(64 * words >= n && 64 * words < n + 64);
}

pub fn p21_set(n: usize, i: usize, v: bool) {
    let mut b = bv(n);
    assume(i < n);
    let w = b.raw().len();
    b.set(i, v);
    kept(&b, n, w);
    b.set_bit(i, v);
    kept(&b, n, w);
}

pub fn p21_set_unchecked(n: usize, i: usize, v: bool) {
    let mut b = bv(n);
    assume(i < n);
    let w = b.raw().len();
    unsafe {
        b.set_unchecked(i, v);
        kept(&b, n, w);
        b.set_bit_unchecked(i, v);
    }
    kept(&b, n, w);
}

pub fn p21_flip(n: usize, i: usize) {
    let mut b = bv(n);
    assume(i < n);
    let w = b.raw().len();
    b.flip(i);
    kept(&b, n, w);
    b.flip_bit(i);
    kept(&b, n, w);
}

pub fn p21_flip_unchecked(n: usize, i: usize) {
    let mut b = bv(n);
    assume(i < n);
    let w = b.raw().len();
    unsafe {
        b.flip_unchecked(i);
        kept(&b, n, w);
        b.flip_bit_unchecked(i);
    }
    kept(&b, n, w);
}

pub fn p21_inner_view(n: usize, i: usize, v: bool) {
    let mut b = bv(n);
    assume(i < n);
    let w = b.raw().len();
    b.as_mut().set_bit(i, v);
    kept(&b, n, w);
    std::ops::DerefMut::deref_mut(&mut b).flip_bit(i);
    kept(&b, n, w);
}

pub fn p21_slice_mut(n: usize, s: usize, e: usize, i: usize, v: bool) {
    let mut b = bv(n);
    assume(s <= e && e <= n && i < e - s);
    let w = b.raw().len();
    {
        let mut sl = b.slice_mut(s..e);
        sl.set(i, v);
        verify(sl.len() == e - s);
        sl.flip(i);
        verify(sl.len() == e - s);
    }
    kept(&b, n, w);
}

pub fn p21_split_mut(n: usize, k: usize, i: usize, j: usize, v: bool) {
    let mut b = bv(n);
    assume(i < k && k <= n && j < n - k);
    let w = b.raw().len();
    {
        let (mut x, mut y) = b.split_at_mut(k);
        x.set(i, v);
        y.flip(j);
        verify(x.len() == k && y.len() == n - k);
    }
    kept(&b, n, w);
}

pub fn p21_reads(n: usize) {
    let b = bv(n);
    let w = b.raw().len();
    for _ in &b {}
    kept(&b, n, w);
    kept(&b.clone(), n, w);
}

// ---- P08: mutable references are exclusive ----------------------------------------------------------------

pub fn p08_halves_exclusive(n: usize, k: usize) {
    let mut b = bv(n);
    assume(k < n);
    let (x, y) = b.split_at_mut(k);
    exclusive(x.backing(), y.backing());
}
