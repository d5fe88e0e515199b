//! Markers interpreted by the analyser. They are never executed.

/// Restricts the analysed states to those where `_c` holds.
#[inline(never)]
pub fn assume(_c: bool) {}

/// Proof obligation: `_c` must hold in every state that reaches this call.
#[inline(never)]
pub fn verify(_c: bool) {}

/// Proof obligation: this call must be unreachable (the preceding call must have panicked).
#[inline(never)]
pub fn unreachable_return() {}

/// In a must-panic root: the value must be unmodified when the panic starts.
#[inline(never)]
pub fn snapshot<T: ?Sized>(_t: &T) {}

/// The first `_n` bits of the words owned by `_t` become arbitrary, the remaining bits zero.
#[inline(never)]
pub fn havoc_bits<T: ?Sized>(_t: &T, _n: usize) {}

/// All words owned by `_t` become arbitrary.
#[inline(never)]
pub fn havoc_words<T: ?Sized>(_t: &T) {}

/// Number of one bits among the first `_i` bits of the arbitrary contents of `_t`.
#[inline(never)]
pub fn ones_before<T: ?Sized>(_t: &T, _i: usize) -> usize {
    0
}

/// Element `_i` of an arbitrary sequence of `_w`-bit values.
#[inline(never)]
pub fn stream(_i: usize, _w: usize) -> usize {
    0
}

/// Analyse separately for every value of a quantity with a small range.
#[inline(never)]
pub fn partition(v: usize) -> usize {
    v
}

/// An arbitrary machine word.
#[inline(never)]
pub fn any_word<T: Default>() -> T {
    T::default()
}

/// An arbitrary number.
#[inline(never)]
pub fn any_usize() -> usize {
    0
}

/// Restricts the states to those where bits `_p.._p + _len` of `_a` and `_q.._q + _len` of `_b` agree.
#[inline(never)]
pub fn same_bits<A: ?Sized, B: ?Sized>(_a: &A, _p: usize, _b: &B, _q: usize, _len: usize) {}

/// From here on nothing reachable from `_t` may be written to.
#[inline(never)]
pub fn freeze<T: ?Sized>(_t: &T) {}

/// Proof obligation: the two mutable references do not refer to the same object.
#[inline(never)]
pub fn exclusive<A: ?Sized, B: ?Sized>(_a: &&mut A, _b: &&mut B) {}
