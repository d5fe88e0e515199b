//! Arbitrary bit vectors and word arrays.
use crate::spec::*;
use succinct_neo::bit_vec::*;

pub fn bv(n: usize) -> BitVec {
    let b = BitVec::new(n);
    havoc_bits(&b, n);
    b
}

pub fn words(w: usize) -> Box<[usize]> {
    let b = vec![0usize; w].into_boxed_slice();
    havoc_words(&b);
    b
}

/// Length of an arbitrary non-empty bit vector: `a` full blocks of 4096 bits, `part` full blocks of
/// 512 bits, and 1 to 512 more bits.
pub fn length(part: usize, a: usize, b: usize) -> usize {
    assume(a < (1 << 32) - 1);
    assume(b >= 1);
    assume(b <= 512);
    4096 * a + 512 * part + b
}
