//! Bit vectors and bit slices: write/read, frame, rejection, construction.
use crate::spec::*;
use crate::util::*;
use std::rc::Rc;
use succinct_neo::bit_vec::*;

// ---- P01: a write changes exactly the addressed bit ------------------------------------------------

pub fn p01_vec_set(n: usize, i: usize, v: bool, j: usize) {
    let mut b = bv(n);
    assume(i < n && j < n);
    let pre = b.get(j);
    b.set(i, v);
    verify(b.get(j) == if i == j { v } else { pre });
    verify(b.len() == n);
}

pub fn p01_vec_set_bit(n: usize, i: usize, v: bool, j: usize) {
    let mut b = bv(n);
    assume(i < n && j < n);
    let pre = b.get_bit(j);
    b.set_bit(i, v);
    verify(b.get_bit(j) == if i == j { v } else { pre });
    verify(b.len() == n);
}

pub fn p01_vec_flip(n: usize, i: usize, j: usize) {
    let mut b = bv(n);
    assume(i < n && j < n);
    let pre = b.get(j);
    b.flip(i);
    verify(b.get(j) == if i == j { !pre } else { pre });
    verify(b.len() == n);
}

pub fn p01_vec_flip_bit(n: usize, i: usize, j: usize) {
    let mut b = bv(n);
    assume(i < n && j < n);
    let pre = b.get_bit(j);
    b.flip_bit(i);
    verify(b.get_bit(j) == if i == j { !pre } else { pre });
}

pub fn p01_slice_set(n: usize, s: usize, e: usize, i: usize, v: bool, j: usize) {
    let mut b = bv(n);
    assume(s <= e && e <= n && i < e - s && j < n);
    let pre = b.get(j);
    {
        let mut sl = b.slice_mut(s..e);
        sl.set(i, v);
        verify(sl.get(i) == v);
    }
    verify(b.get(j) == if j == s + i { v } else { pre });
}

pub fn p01_slice_flip(n: usize, s: usize, e: usize, i: usize, j: usize) {
    let mut b = bv(n);
    assume(s <= e && e <= n && i < e - s && j < n);
    let pre = b.get(j);
    b.slice_mut(s..e).flip(i);
    verify(b.get(j) == if j == s + i { !pre } else { pre });
}

pub fn p01_slice_trait(n: usize, s: usize, e: usize, i: usize, v: bool, j: usize) {
    let mut b = bv(n);
    assume(s <= e && e <= n && i < e - s && j < n);
    let pre = b.get(j);
    b.slice_mut(s..e).set_bit(i, v);
    let mid = b.get(j);
    verify(mid == if j == s + i { v } else { pre });
    b.slice_mut(s..e).flip_bit(i);
    verify(b.get(j) == if j == s + i { !v } else { pre });
}

pub fn p01_nested(n: usize, s: usize, e: usize, s2: usize, e2: usize, i: usize, v: bool, j: usize) {
    let mut b = bv(n);
    assume(s <= e && e <= n && s2 <= e2 && e2 <= e - s && i < e2 - s2 && j < n);
    let pre = b.get(j);
    {
        let mut sl = b.slice_mut(s..e);
        let mut sl2 = sl.slice_mut(s2..e2);
        sl2.set(i, v);
        verify(sl2.get(i) == v);
    }
    verify(b.get(j) == if j == s + s2 + i { v } else { pre });
}

pub fn p01_two_writes(n: usize, i: usize, v: bool, k: usize, j: usize) {
    let mut b = bv(n);
    assume(i < n && j < n && k < n);
    let pre = b.get(j);
    b.set(i, v);
    b.flip(k);
    let mid = if i == j { v } else { pre };
    verify(b.get(j) == if k == j { !mid } else { mid });
}

pub fn p01_words(w: usize, i: usize, v: bool, j: usize) {
    let mut b = words(w);
    assume(i / 64 < w && j / 64 < w);
    let pre = b.get_bit(j);
    b.set_bit(i, v);
    let mid = b.get_bit(j);
    verify(mid == if i == j { v } else { pre });
    b.flip_bit(i);
    verify(b.get_bit(j) == if i == j { !v } else { pre });
}

pub fn p01_view_of_words(w: usize, s: usize, e: usize, i: usize, v: bool, j: usize) {
    let mut b = words(w);
    assume(e / 64 < w && s <= e && i < e - s && j / 64 < w);
    let pre = b.get_bit(j);
    {
        let mut sl = BitSlice::new(&mut b, s, e);
        sl.set(i, v);
        verify(sl.get(i) == v);
    }
    let mid = b.get_bit(j);
    verify(mid == if j == s + i { v } else { pre });
    BitSlice::new(&mut b, s, e).flip(i);
    verify(b.get_bit(j) == if j == s + i { !v } else { pre });
}

macro_rules! prim {
    ($($t:ty, $n:literal, $write:ident, $rej_get:ident, $rej_set:ident, $rej_flip:ident, $raw:ident;)*) => {$(
        pub fn $write(i: usize, v: bool, j: usize) {
            let mut w: $t = any_word();
            assume(i < $n && j < $n);
            let pre = w.get_bit(j);
            w.set_bit(i, v);
            let mid = w.get_bit(j);
            verify(mid == if i == j { v } else { pre });
            w.flip_bit(i);
            verify(w.get_bit(j) == if i == j { !v } else { pre });
        }
        pub fn $rej_get(i: usize) {
            let w: $t = any_word();
            assume(i >= $n);
            w.get_bit(i);
            unreachable_return();
        }
        pub fn $rej_set(i: usize, v: bool) {
            let mut w: $t = any_word();
            assume(i >= $n);
            snapshot(&w);
            w.set_bit(i, v);
            unreachable_return();
        }
        pub fn $rej_flip(i: usize) {
            let mut w: $t = any_word();
            assume(i >= $n);
            snapshot(&w);
            w.flip_bit(i);
            unreachable_return();
        }
        /// bit i has weight 2^i
        pub fn $raw(i: usize) {
            let w: $t = any_word();
            let i = partition(i & ($n - 1));
            verify(w.get_bit(i) == ((w >> i) & 1 == 1));
            let z: $t = 0;
            let mut z1 = z;
            z1.set_bit(i, true);
            verify(z1 >> i == 1);
        }
    )*};
}

prim! {
    u8, 8, p01_u8, p02_u8_get_reject, p02_u8_set_reject, p02_u8_flip_reject, p22_u8;
    u16, 16, p01_u16, p02_u16_get_reject, p02_u16_set_reject, p02_u16_flip_reject, p22_u16;
    u32, 32, p01_u32, p02_u32_get_reject, p02_u32_set_reject, p02_u32_flip_reject, p22_u32;
    u64, 64, p01_u64, p02_u64_get_reject, p02_u64_set_reject, p02_u64_flip_reject, p22_u64;
    usize, 64, p01_usize, p02_usize_get_reject, p02_usize_set_reject, p02_usize_flip_reject, p22_usize;
}

// ---- P02: out of range accesses are rejected and modify nothing -------------------------------------

pub fn p02_vec_get_reject(n: usize, i: usize) {
    let b = bv(n);
    assume(i >= n);
    b.get(i);
    unreachable_return();
}

pub fn p02_vec_get_bit_reject(n: usize, i: usize) {
    let b = bv(n);
    assume(i >= n);
    b.get_bit(i);
    unreachable_return();
}

pub fn p02_vec_set_reject(n: usize, i: usize, v: bool) {
    let mut b = bv(n);
    assume(i >= n);
    snapshot(&b);
    b.set(i, v);
    unreachable_return();
}

pub fn p02_vec_set_bit_reject(n: usize, i: usize, v: bool) {
    let mut b = bv(n);
    assume(i >= n);
    snapshot(&b);
    b.set_bit(i, v);
    unreachable_return();
}

pub fn p02_vec_flip_reject(n: usize, i: usize) {
    let mut b = bv(n);
    assume(i >= n);
    snapshot(&b);
    b.flip(i);
    unreachable_return();
}

pub fn p02_vec_flip_bit_reject(n: usize, i: usize) {
    let mut b = bv(n);
    assume(i >= n);
    snapshot(&b);
    b.flip_bit(i);
    unreachable_return();
}

pub fn p02_slice_get_reject(n: usize, s: usize, e: usize, i: usize) {
    let b = bv(n);
    assume(s <= e && e <= n && i >= e - s);
    b.slice(s..e).get(i);
    unreachable_return();
}

pub fn p02_slice_get_bit_reject(n: usize, s: usize, e: usize, i: usize) {
    let b = bv(n);
    assume(s <= e && e <= n && i >= e - s);
    b.slice(s..e).get_bit(i);
    unreachable_return();
}

pub fn p02_slice_set_reject(n: usize, s: usize, e: usize, i: usize, v: bool) {
    let mut b = bv(n);
    assume(s <= e && e <= n && i >= e - s);
    snapshot(&b);
    b.slice_mut(s..e).set(i, v);
    unreachable_return();
}

pub fn p02_slice_set_bit_reject(n: usize, s: usize, e: usize, i: usize, v: bool) {
    let mut b = bv(n);
    assume(s <= e && e <= n && i >= e - s);
    snapshot(&b);
    b.slice_mut(s..e).set_bit(i, v);
    unreachable_return();
}

pub fn p02_slice_flip_reject(n: usize, s: usize, e: usize, i: usize) {
    let mut b = bv(n);
    assume(s <= e && e <= n && i >= e - s);
    snapshot(&b);
    b.slice_mut(s..e).flip(i);
    unreachable_return();
}

pub fn p02_slice_flip_bit_reject(n: usize, s: usize, e: usize, i: usize) {
    let mut b = bv(n);
    assume(s <= e && e <= n && i >= e - s);
    snapshot(&b);
    b.slice_mut(s..e).flip_bit(i);
    unreachable_return();
}

pub fn p02_nested_set_reject(n: usize, s: usize, e: usize, s2: usize, e2: usize, i: usize, v: bool) {
    let mut b = bv(n);
    assume(s <= e && e <= n && s2 <= e2 && e2 <= e - s && i >= e2 - s2);
    snapshot(&b);
    b.slice_mut(s..e).slice_mut(s2..e2).set(i, v);
    unreachable_return();
}

pub fn p02_words_get_reject(w: usize, i: usize) {
    let b = words(w);
    assume(i / 64 >= w);
    b.get_bit(i);
    unreachable_return();
}

pub fn p02_words_set_reject(w: usize, i: usize, v: bool) {
    let mut b = words(w);
    assume(i / 64 >= w);
    snapshot(&b);
    b.set_bit(i, v);
    unreachable_return();
}

pub fn p02_words_flip_reject(w: usize, i: usize) {
    let mut b = words(w);
    assume(i / 64 >= w);
    snapshot(&b);
    b.flip_bit(i);
    unreachable_return();
}

/// a view that reaches beyond the words it is given
pub fn p02_view_get_reject(w: usize, s: usize, e: usize, i: usize) {
    let b = words(w);
    assume(s <= e && i < e - s && (s + i) / 64 >= w);
    BitSlice::new(&b, s, e).get(i);
    unreachable_return();
}

pub fn p02_view_set_reject(w: usize, s: usize, e: usize, i: usize, v: bool) {
    let mut b = words(w);
    assume(s <= e && i < e - s && (s + i) / 64 >= w);
    snapshot(&b);
    BitSlice::new(&mut b, s, e).set(i, v);
    unreachable_return();
}

pub fn p02_view_flip_reject(w: usize, s: usize, e: usize, i: usize) {
    let mut b = words(w);
    assume(s <= e && i < e - s && (s + i) / 64 >= w);
    snapshot(&b);
    BitSlice::new(&mut b, s, e).flip(i);
    unreachable_return();
}

pub fn p02_view_of_u64_get_reject(s: usize, e: usize, i: usize) {
    let w: u64 = any_word();
    assume(s <= e && i < e - s && s + i >= 64);
    BitSlice::new(w, s, e).get(i);
    unreachable_return();
}

pub fn p02_view_order_reject(s: usize, e: usize) {
    let w: u64 = any_word();
    assume(s > e);
    BitSlice::new(w, s, e);
    unreachable_return();
}

/// every in range access succeeds
pub fn p02_vec_ok(n: usize, i: usize, v: bool) {
    let mut b = bv(n);
    assume(i < n);
    b.get(i);
    b.get_bit(i);
    b.set(i, v);
    b.set_bit(i, v);
    b.flip(i);
    b.flip_bit(i);
}

pub fn p02_slice_ok(n: usize, s: usize, e: usize, i: usize, v: bool) {
    let mut b = bv(n);
    assume(s <= e && e <= n && i < e - s);
    b.slice(s..e).get(i);
    b.slice(s..e).get_bit(i);
    let mut sl = b.slice_mut(s..e);
    sl.set(i, v);
    sl.set_bit(i, v);
    sl.flip(i);
    sl.flip_bit(i);
}

// ---- P03: construction -------------------------------------------------------------------------------

pub fn p03_new(n: usize, i: usize) {
    let b = BitVec::new(n);
    verify(b.len() == n);
    verify(b.is_empty() == (n == 0));
    if i < n {
        verify(!b.get(i));
    }
}

pub fn p03_new_words(n: usize, k: usize) {
    let b = BitVec::new(n);
    let words = b.raw().len();
    verify(words == n / 64 + (n % 64 != 0) as usize);
    if k < words {
        verify(b.raw()[k] == 0);
    }
}

// ---- P18: clones are independent ---------------------------------------------------------------------

pub fn p18_clone_vec(n: usize, i: usize, v: bool, j: usize) {
    let mut a = bv(n);
    assume(i < n && j < n);
    let pre = a.get(j);
    let mut c = a.clone();
    verify(c.len() == n);
    verify(c.get(j) == pre);
    c.set(i, v);
    verify(a.get(j) == pre);
    verify(c.get(j) == if i == j { v } else { pre });
    a.flip(i);
    verify(a.get(j) == if i == j { !pre } else { pre });
    verify(c.get(j) == if i == j { v } else { pre });
}

pub fn p18_clone_slice_view(n: usize, s: usize, e: usize, i: usize) {
    let a = bv(n);
    assume(s <= e && e <= n && i < e - s);
    let sl = a.slice(s..e);
    let c = sl.clone();
    verify(c.len() == sl.len());
    verify(c.get(i) == sl.get(i));
    verify(c.get(i) == a.get(s + i));
}

// ---- P20: access through references and smart pointers ------------------------------------------------

fn via_get<B: BitGet>(b: B, i: usize) -> bool {
    b.get_bit(i)
}

fn via_get_un<B: BitGet>(b: B, i: usize) -> bool {
    unsafe { b.get_bit_unchecked(i) }
}

fn via_set<B: BitModify>(mut b: B, i: usize, v: bool) {
    b.set_bit(i, v)
}

fn via_set_un<B: BitModify>(mut b: B, i: usize, v: bool) {
    unsafe { b.set_bit_unchecked(i, v) }
}

fn via_flip<B: BitModify>(mut b: B, i: usize) {
    b.flip_bit(i)
}

fn via_flip_un<B: BitModify>(mut b: B, i: usize) {
    unsafe { b.flip_bit_unchecked(i) }
}

pub fn p20_get_ref(i: usize) {
    let mut w: u64 = any_word();
    assume(i < 64);
    let d = w.get_bit(i);
    verify(via_get(&w, i) == d);
    verify(via_get(&&w, i) == d);
    verify(via_get(&mut w, i) == d);
    verify(via_get_un(&w, i) == d);
    verify(via_get_un(&mut w, i) == d);
}

pub fn p20_get_box(i: usize) {
    let w: u64 = any_word();
    assume(i < 64);
    let d = w.get_bit(i);
    verify(via_get(Box::new(w), i) == d);
    verify(via_get_un(Box::new(w), i) == d);
}

pub fn p20_get_rc(i: usize) {
    let w: u64 = any_word();
    assume(i < 64);
    let d = w.get_bit(i);
    verify(via_get(Rc::new(w), i) == d);
    verify(via_get_un(Rc::new(w), i) == d);
}

pub fn p20_modify_ref(i: usize, v: bool, j: usize) {
    let mut w: u64 = any_word();
    assume(i < 64 && j < 64);
    let pre = w.get_bit(j);
    via_set(&mut w, i, v);
    verify(w.get_bit(j) == if i == j { v } else { pre });
    via_flip(&mut &mut w, i);
    verify(w.get_bit(j) == if i == j { !v } else { pre });
}

pub fn p20_modify_ref_unchecked(i: usize, v: bool, j: usize) {
    let mut w: u64 = any_word();
    assume(i < 64 && j < 64);
    let pre = w.get_bit(j);
    via_set_un(&mut w, i, v);
    verify(w.get_bit(j) == if i == j { v } else { pre });
    via_flip_un(&mut w, i);
    verify(w.get_bit(j) == if i == j { !v } else { pre });
}

pub fn p20_modify_box(i: usize, v: bool, j: usize) {
    let w: u64 = any_word();
    assume(i < 64 && j < 64);
    let pre = w.get_bit(j);
    let mut b = Box::new(w);
    BitModify::set_bit(&mut b, i, v);
    verify(b.get_bit(j) == if i == j { v } else { pre });
    BitModify::flip_bit(&mut b, i);
    verify(b.get_bit(j) == if i == j { !v } else { pre });
}

pub fn p20_modify_box_unchecked(i: usize, v: bool, j: usize) {
    let w: u64 = any_word();
    assume(i < 64 && j < 64);
    let pre = w.get_bit(j);
    let mut b = Box::new(w);
    unsafe { BitModify::set_bit_unchecked(&mut b, i, v) };
    verify(b.get_bit(j) == if i == j { v } else { pre });
    unsafe { BitModify::flip_bit_unchecked(&mut b, i) };
    verify(b.get_bit(j) == if i == j { !v } else { pre });
}

pub fn p20_get_ref_reject(i: usize) {
    let w: u64 = any_word();
    assume(i >= 64);
    via_get(&w, i);
    unreachable_return();
}

pub fn p20_get_mut_reject(i: usize) {
    let mut w: u64 = any_word();
    assume(i >= 64);
    via_get(&mut w, i);
    unreachable_return();
}

pub fn p20_get_box_reject(i: usize) {
    let w: u64 = any_word();
    assume(i >= 64);
    via_get(Box::new(w), i);
    unreachable_return();
}

pub fn p20_get_rc_reject(i: usize) {
    let w: u64 = any_word();
    assume(i >= 64);
    via_get(Rc::new(w), i);
    unreachable_return();
}

pub fn p20_set_ref_reject(i: usize, v: bool) {
    let mut w: u64 = any_word();
    assume(i >= 64);
    snapshot(&w);
    via_set(&mut w, i, v);
    unreachable_return();
}

pub fn p20_flip_ref_reject(i: usize) {
    let mut w: u64 = any_word();
    assume(i >= 64);
    snapshot(&w);
    via_flip(&mut w, i);
    unreachable_return();
}

pub fn p20_set_box_reject(i: usize, v: bool) {
    let w: u64 = any_word();
    assume(i >= 64);
    via_set(Box::new(w), i, v);
    unreachable_return();
}

pub fn p20_flip_box_reject(i: usize) {
    let w: u64 = any_word();
    assume(i >= 64);
    via_flip(Box::new(w), i);
    unreachable_return();
}

// ---- P22: word layout ---------------------------------------------------------------------------------

pub fn p22_vec_layout(n: usize, i: usize) {
    let b = bv(n);
    assume(i < n);
    let k = partition(i % 64);
    verify(b.get(i) == ((b.raw()[i / 64] >> k) & 1 == 1));
    let r: &[usize] = b.as_ref();
    verify(r.len() == b.raw().len());
    verify(r[i / 64] == b.raw()[i / 64]);
}

/// writing bit i changes exactly bit i % 64 of word i / 64, including the bits past the end
pub fn p22_vec_write_layout(n: usize, i: usize, v: bool, k: usize) {
    let mut b = bv(n);
    assume(i < n);
    let i0 = partition(i % 64);
    assume(k < b.raw().len());
    let pre = b.raw()[k];
    b.set(i, v);
    let expect = if k == i / 64 { if v { pre | (1 << i0) } else { pre & !(1 << i0) } } else { pre };
    verify(b.raw()[k] == expect);
    verify(b.raw().len() == n / 64 + (n % 64 != 0) as usize);
}

pub fn p22_words_layout(w: usize, i: usize) {
    let b = words(w);
    assume(i / 64 < w);
    let k = partition(i % 64);
    verify(b.get_bit(i) == ((b[i / 64] >> k) & 1 == 1));
}

// ---- P23: unchecked and alias methods agree with the checked ones --------------------------------------

pub fn p23_vec_get(n: usize, i: usize) {
    let b = bv(n);
    assume(i < n);
    let d = b.get(i);
    verify(b.get_bit(i) == d);
    verify(unsafe { b.get_unchecked(i) } == d);
    verify(unsafe { b.get_bit_unchecked(i) } == d);
}

pub fn p23_slice_get(n: usize, s: usize, e: usize, i: usize) {
    let b = bv(n);
    assume(s <= e && e <= n && i < e - s);
    let sl = b.slice(s..e);
    let d = b.get(s + i);
    verify(sl.get(i) == d);
    verify(sl.get_bit(i) == d);
    verify(unsafe { sl.get_unchecked(i) } == d);
    verify(unsafe { sl.get_bit_unchecked(i) } == d);
}

pub fn p23_vec_set(n: usize, i: usize, v: bool, j: usize) {
    let mut b = bv(n);
    assume(i < n && j < n);
    let pre = b.get(j);
    let want = if i == j { v } else { pre };
    unsafe { b.set_bit_unchecked(i, v) };
    verify(b.get(j) == want);
    unsafe { b.flip_bit_unchecked(i) };
    verify(b.get(j) == if i == j { !v } else { pre });
    unsafe { b.set_unchecked(i, v) };
    verify(b.get(j) == want);
    unsafe { b.flip_unchecked(i) };
    verify(b.get(j) == if i == j { !v } else { pre });
}

pub fn p23_slice_set(n: usize, s: usize, e: usize, i: usize, v: bool, j: usize) {
    let mut b = bv(n);
    assume(s <= e && e <= n && i < e - s && j < n);
    let pre = b.get(j);
    unsafe { b.slice_mut(s..e).set_unchecked(i, v) };
    verify(b.get(j) == if j == s + i { v } else { pre });
    unsafe { b.slice_mut(s..e).flip_unchecked(i) };
    verify(b.get(j) == if j == s + i { !v } else { pre });
}

pub fn p23_slice_set_bit(n: usize, s: usize, e: usize, i: usize, v: bool, j: usize) {
    let mut b = bv(n);
    assume(s <= e && e <= n && i < e - s && j < n);
    let pre = b.get(j);
    unsafe { b.slice_mut(s..e).set_bit_unchecked(i, v) };
    verify(b.get(j) == if j == s + i { v } else { pre });
    unsafe { b.slice_mut(s..e).flip_bit_unchecked(i) };
    verify(b.get(j) == if j == s + i { !v } else { pre });
}

pub fn p23_words(w: usize, i: usize, v: bool, j: usize) {
    let mut b = words(w);
    assume(i / 64 < w && j / 64 < w);
    let pre = b.get_bit(j);
    verify(unsafe { b.get_bit_unchecked(j) } == pre);
    unsafe { b.set_bit_unchecked(i, v) };
    verify(b.get_bit(j) == if i == j { v } else { pre });
    unsafe { b.flip_bit_unchecked(i) };
    verify(b.get_bit(j) == if i == j { !v } else { pre });
}

pub fn p23_u64(i: usize, v: bool, j: usize) {
    let mut b: u64 = any_word();
    assume(i < 64 && j < 64);
    let pre = b.get_bit(j);
    verify(unsafe { b.get_bit_unchecked(j) } == pre);
    unsafe { b.set_bit_unchecked(i, v) };
    verify(b.get_bit(j) == if i == j { v } else { pre });
    unsafe { b.flip_bit_unchecked(i) };
    verify(b.get_bit(j) == if i == j { !v } else { pre });
}

pub fn p23_slice_unchecked(n: usize, s: usize, e: usize, i: usize) {
    let b = bv(n);
    assume(s <= e && e <= n);
    let sl = unsafe { b.slice_unchecked(s..e) };
    verify(sl.len() == e - s);
    if i < e - s {
        verify(sl.get(i) == b.get(s + i));
    }
}

pub fn p23_slice_unchecked_incl(n: usize, s: usize, e: usize, i: usize) {
    let b = bv(n);
    assume(s <= e && e < n);
    let sl = unsafe { b.slice_unchecked(s..=e) };
    verify(sl.len() == e - s + 1);
    if i < e - s + 1 {
        verify(sl.get(i) == b.get(s + i));
    }
    let t = unsafe { b.slice_unchecked(..=e) };
    verify(t.len() == e + 1);
    let f = unsafe { b.slice_unchecked(s..) };
    verify(f.len() == n - s);
    if i < n - s {
        verify(f.get(i) == b.get(s + i));
    }
    verify(unsafe { b.slice_unchecked(..) }.len() == n);
    verify(unsafe { b.slice_unchecked(..e) }.len() == e);
}

pub fn p23_slice_unchecked_mut(n: usize, s: usize, e: usize, i: usize, v: bool, j: usize) {
    let mut b = bv(n);
    assume(s <= e && e <= n && i < e - s && j < n);
    let pre = b.get(j);
    {
        let mut sl = unsafe { b.slice_unchecked_mut(s..e) };
        verify(sl.len() == e - s);
        sl.set(i, v);
    }
    verify(b.get(j) == if j == s + i { v } else { pre });
}

pub fn p23_slice_unchecked_mut_incl(n: usize, s: usize, e: usize) {
    let mut b = bv(n);
    assume(s <= e && e < n);
    verify(unsafe { b.slice_unchecked_mut(s..=e) }.len() == e - s + 1);
    verify(unsafe { b.slice_unchecked_mut(..=e) }.len() == e + 1);
    verify(unsafe { b.slice_unchecked_mut(s..) }.len() == n - s);
    verify(unsafe { b.slice_unchecked_mut(..e) }.len() == e);
    verify(unsafe { b.slice_unchecked_mut(..) }.len() == n);
}
