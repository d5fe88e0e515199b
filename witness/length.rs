// Client programs that would change the length of a bit vector (P21); format as in borrow.rs.

//# resize_through_shared E0596,E0594,E0277,E0599
let mut v = BitVec::new(100);
{ let r = &v; **r = BitSlice::new(vec![0usize; 1].into_boxed_slice(), 0, 64); } //!
v.set_bit(1, true);
//# mutable_words E0596,E0594,E0277,E0599,E0308
let mut v = BitVec::new(100);
{ let w: &mut [usize] = v.as_mut(); w[0] = 1; } //!
v.set_bit(1, true);
//# take_the_storage E0507,E0508,E0509,E0308
let v = BitVec::new(100);
let b: Box<[usize]> = *v.backing(); use_it(b); //!
use_it(v.len());
//# replace_the_storage E0594,E0596,E0070,E0277
let mut v = BitVec::new(100);
*v.backing() = vec![0usize; 1].into_boxed_slice(); //!
v.set_bit(1, true);
//# assign_the_inner_view E0594,E0596,E0277,E0614,E0599
let mut v = BitVec::new(100);
*v = BitSlice::new(vec![0usize; 1].into_boxed_slice(), 0, 64); //!
v.set_bit(1, true);
//# swap_the_inner_views E0594,E0596,E0277,E0614,E0599
let mut v = BitVec::new(100); let mut w = BitVec::new(3);
std::mem::swap(&mut *v, &mut *w); //!
v.set_bit(1, true); w.set_bit(1, true);
//# replace_through_as_mut E0594,E0596,E0277,E0614,E0599
let mut v = BitVec::new(100);
use_it(std::mem::replace(v.as_mut(), BitSlice::new(vec![0usize; 1].into_boxed_slice(), 0, 64))); //!
v.set_bit(1, true);
