//! Rank and select.
use crate::spec::*;
use crate::util::*;
use succinct_neo::bit_vec::*;
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch, SelectStrategy};
use succinct_neo::rank_select::*;

pub fn p12_rank(part: usize, a: usize, b: usize, i: usize) {
    let n = length(part, a, b);
    assume(i <= n);
    let v = bv(n);
    let r = FlatPopcount::<()>::new(&v);
    verify(r.rank::<true>(i) == ones_before(&v, i));
}

pub fn p12_rank_zeros(part: usize, a: usize, b: usize, i: usize) {
    let n = length(part, a, b);
    assume(i <= n);
    let v = bv(n);
    let r = FlatPopcount::<LinearSearch>::new(&v);
    verify(r.rank::<false>(i) == i - ones_before(&v, i));
}

pub fn p12_rank_dyn(part: usize, a: usize, b: usize, i: usize, value: bool) {
    let n = length(part, a, b);
    assume(i <= n);
    let v = bv(n);
    let r = FlatPopcount::<()>::new(&v);
    let ones = ones_before(&v, i);
    verify(r.rank_dyn(i, value) == if value { ones } else { i - ones });
}

pub fn p12_rank_empty(value: bool) {
    let v = bv(0);
    let r = FlatPopcount::<()>::new(&v);
    verify(r.rank_dyn(0, value) == 0);
    verify(r.rank::<true>(0) == 0);
    verify(r.rank::<false>(0) == 0);
}

/// An index entry: a count of earlier ones and seven cumulative counts.
fn found<S: SelectStrategy>(l1: u64, c: [usize; 7], rank: usize) {
    let mut entry = (l1 & ((1 << 44) - 1)) as u128;
    let mut i = 0;
    while i < 7 {
        assume(c[i] < 1 << 12);
        if i > 0 {
            assume(c[i - 1] <= c[i]);
        }
        entry = entry << 12 | c[i] as u128;
        i += 1;
    }
    assume(rank < 1 << 12);
    let (block, before) = S::find_l2(entry, rank);
    verify(block <= 7);
    verify(before == if block == 0 { 0 } else { c[block - 1] });
    verify(before <= rank);
    verify(block == 7 || rank < c[block]);
}

pub fn p14_linear(l1: u64, c0: usize, c1: usize, c2: usize, c3: usize, c4: usize, c5: usize, c6: usize, rank: usize) {
    found::<LinearSearch>(l1, [c0, c1, c2, c3, c4, c5, c6], rank);
}

pub fn p14_binary(l1: u64, c0: usize, c1: usize, c2: usize, c3: usize, c4: usize, c5: usize, c6: usize, rank: usize) {
    found::<BinarySearch>(l1, [c0, c1, c2, c3, c4, c5, c6], rank);
}

pub fn p15_rank_reject(part: usize, a: usize, b: usize, i: usize) {
    let n = length(part, a, b);
    assume(i > n);
    let v = bv(n);
    let r = FlatPopcount::<()>::new(&v);
    r.rank::<true>(i);
    unreachable_return();
}

pub fn p15_rank_zeros_reject(part: usize, a: usize, b: usize, i: usize) {
    let n = length(part, a, b);
    assume(i > n);
    let v = bv(n);
    let r = FlatPopcount::<()>::new(&v);
    r.rank::<false>(i);
    unreachable_return();
}

pub fn p15_rank_dyn_reject(part: usize, a: usize, b: usize, i: usize, value: bool) {
    let n = length(part, a, b);
    assume(i > n);
    let v = bv(n);
    let r = FlatPopcount::<()>::new(&v);
    r.rank_dyn(i, value);
    unreachable_return();
}

pub fn p15_rank_empty_reject(i: usize, value: bool) {
    assume(i > 0);
    let v = bv(0);
    let r = FlatPopcount::<()>::new(&v);
    r.rank_dyn(i, value);
    unreachable_return();
}

pub fn p15_rank_len(part: usize, a: usize, b: usize) {
    let n = length(part, a, b);
    let v = bv(n);
    let r = FlatPopcount::<()>::new(&v);
    verify(r.len() == n);
    verify(!r.is_empty());
}

pub fn p15_rank_len_empty() {
    let v = bv(0);
    let r = FlatPopcount::<()>::new(&v);
    verify(r.len() == 0);
    verify(r.is_empty());
}

pub fn p17_rank(part: usize, a: usize, b: usize, i: usize) {
    let n = length(part, a, b);
    assume(i <= n);
    let v = bv(n);
    freeze(&v);
    let r = FlatPopcount::<LinearSearch>::new(&v);
    freeze(&r);
    verify(r.rank::<true>(i) <= i);
    verify(r.rank::<false>(i) <= i);
    verify(r.rank_dyn(i, true) <= i);
    verify(r.len() == n);
    verify(!r.is_empty());
}

#[cfg(all(target_feature = "ssse3", target_feature = "sse4.1"))]
pub fn p14_simd(l1: u64, c0: usize, c1: usize, c2: usize, c3: usize, c4: usize, c5: usize, c6: usize, rank: usize) {
    found::<succinct_neo::rank_select::flat_popcount::SimdSearch>(l1, [c0, c1, c2, c3, c4, c5, c6], rank);
}
