//! Select.
use crate::spec::*;
use crate::util::*;
use succinct_neo::bit_vec::*;
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch, SelectStrategy};
use succinct_neo::rank_select::*;

fn selected<S: SelectStrategy>(n: usize, k: usize) {
    let v = bv(n);
    let r = FlatPopcount::<S>::new(&v);
    match r.select(k) {
        Some(p) => {
            verify(p < n);
            verify(ones_before(&v, p) == k);
            verify(ones_before(&v, p + 1) == k + 1);
        }
        None => verify(k >= ones_before(&v, n)),
    }
}

pub fn p13_select(part: usize, a: usize, b: usize, k: usize) {
    selected::<LinearSearch>(length(part, a, b), k);
}

pub fn p13_select_binary(part: usize, a: usize, b: usize, k: usize) {
    selected::<BinarySearch>(length(part, a, b), k);
}

pub fn p13_select_empty(k: usize) {
    selected::<LinearSearch>(0, k);
}

pub fn p17_select(part: usize, a: usize, b: usize, k: usize) {
    let n = length(part, a, b);
    let v = bv(n);
    freeze(&v);
    let r = FlatPopcount::<LinearSearch>::new(&v);
    freeze(&r);
    if let Some(p) = r.select(k) {
        verify(p < n);
    }
}
