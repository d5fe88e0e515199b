// Client programs for the exclusion of conflicting access (P16).  `//# name codes` starts a program.  The
// program as written must be rejected with one of the error codes (default: any borrow error); the same
// program without the lines marked `//!` must be accepted.

//# slice_then_set
let mut v = BitVec::new(100); let s = v.slice(3..40);
v.set_bit(5, true); //!
use_it(s.get_bit(1));
//# slice_then_flip
let mut v = BitVec::new(100); let s = v.slice(..);
v.flip_bit(5); //!
use_it(s.len());
//# slice_then_alias_set
let mut v = BitVec::new(100); let s = v.slice(3..);
v.set(5, true); //!
use_it(s);
//# slice_then_alias_flip
let mut v = BitVec::new(100); let s = v.slice(..=3);
v.flip(5); //!
use_it(s);
//# slice_then_replace
let mut v = BitVec::new(100); let s = v.slice(3..40);
v = BitVec::new(2); //!
use_it(s.get_bit(1)); use_it(v);
//# slice_then_move
let v = BitVec::new(100); let s = v.slice(3..40);
let w = v; //!
use_it(s.get_bit(1));
//# slice_then_drop
let v = BitVec::new(100); let s = v.slice(3..40);
drop(v); //!
use_it(s.get_bit(1));
//# slice_unchecked_then_set
let mut v = BitVec::new(100); let s = unsafe { v.slice_unchecked(3..40) };
v.set_bit(5, true); //!
use_it(s.get_bit(1));
//# slice_then_slice_mut
let mut v = BitVec::new(100); let s = v.slice(3..40);
let mut t = v.slice_mut(3..9); t.set_bit(1, true); //!
use_it(s.get_bit(1));
//# slice_then_slice_unchecked_mut
let mut v = BitVec::new(100); let s = v.slice(3..40);
let mut t = unsafe { v.slice_unchecked_mut(3..9) }; t.set_bit(1, true); //!
use_it(s.get_bit(1));
//# slice_then_split_mut
let mut v = BitVec::new(100); let s = v.slice(3..40);
let (mut t, _) = v.split_at_mut(9); t.set_bit(1, true); //!
use_it(s.get_bit(1));
//# slice_then_as_mut
let mut v = BitVec::new(100); let s = v.slice(3..40);
v.as_mut().set_bit(1, true); //!
use_it(s.get_bit(1));
//# slice_then_deref_mut
let mut v = BitVec::new(100); let s = v.slice(3..40);
std::ops::DerefMut::deref_mut(&mut v).set_bit(1, true); //!
use_it(s.get_bit(1));
//# slice_mut_then_read
let mut v = BitVec::new(100); let mut s = v.slice_mut(3..40);
use_it(v.get_bit(5)); //!
s.set_bit(1, true);
//# slice_mut_then_len
let mut v = BitVec::new(100); let mut s = v.slice_mut(3..40);
use_it(v.len()); //!
s.set_bit(1, true);
//# slice_mut_then_raw
let mut v = BitVec::new(100); let mut s = v.slice_mut(3..40);
use_it(v.raw()[0]); //!
s.set_bit(1, true);
//# slice_mut_then_clone
let mut v = BitVec::new(100); let mut s = v.slice_mut(3..40);
use_it(v.clone()); //!
s.set_bit(1, true);
//# slice_mut_then_iter
let mut v = BitVec::new(100); let mut s = v.slice_mut(3..40);
use_it(v.iter().count()); //!
s.set_bit(1, true);
//# slice_mut_then_slice
let mut v = BitVec::new(100); let mut s = v.slice_mut(3..40);
let t = v.slice(..); use_it(t.len()); //!
s.set_bit(1, true);
//# slice_mut_then_set
let mut v = BitVec::new(100); let mut s = v.slice_mut(3..40);
v.set_bit(5, true); //!
s.flip_bit(1);
//# two_slices_mut
let mut v = BitVec::new(100); let mut s = v.slice_mut(3..40);
let mut t = v.slice_mut(50..60); t.set_bit(0, true); //!
s.set_bit(1, true);
//# two_slices_unchecked_mut
let mut v = BitVec::new(100); let mut s = unsafe { v.slice_unchecked_mut(3..40) };
let mut t = unsafe { v.slice_unchecked_mut(50..60) }; t.set_bit(0, true); //!
s.set_bit(1, true);
//# slice_mut_of_slice_mut_twice
let mut v = BitVec::new(100); let mut s = v.slice_mut(3..40);
let mut a = s.slice_mut(3..9);
let mut b = s.slice_mut(3..9); b.flip_bit(0); //!
a.flip_bit(0);
//# slice_mut_of_slice_mut_then_outer
let mut v = BitVec::new(100); let mut s = v.slice_mut(3..40);
let mut a = s.slice_mut(3..9);
s.flip_bit(0); //!
a.flip_bit(0);
//# slice_of_slice_mut_then_outer
let mut v = BitVec::new(100); let mut s = v.slice_mut(3..40);
let a = s.slice(3..9);
s.flip_bit(0); //!
use_it(a.get_bit(0));
//# slice_of_slice_then_source
let mut v = BitVec::new(100); let s = v.slice(3..40);
let a = s.slice(3..9);
v.flip_bit(0); //!
use_it(a.get_bit(0));
//# slice_mut_of_shared E0596
let mut v = BitVec::new(100);
{ let r = &v; let mut s = r.slice_mut(3..40); s.set_bit(1, true); } //!
v.set_bit(1, true);
//# split_mut_of_shared E0596
let mut v = BitVec::new(100);
{ let r = &v; let (mut s, _) = r.split_at_mut(40); s.set_bit(1, true); } //!
v.set_bit(1, true);
//# set_of_shared E0596
let mut v = BitVec::new(100);
{ let r = &v; r.set_bit(1, true); } //!
v.set_bit(1, true);
//# flip_of_shared E0596
let mut v = BitVec::new(100);
{ let r = &v; r.flip_bit(1); } //!
v.set_bit(1, true);
//# set_alias_of_shared E0596
let mut v = BitVec::new(100);
{ let r = &v; r.set(1, true); } //!
v.set(1, true);
//# flip_alias_of_shared E0596
let mut v = BitVec::new(100);
{ let r = &v; r.flip(1); } //!
v.flip(1);
//# set_unchecked_of_shared E0596
let mut v = BitVec::new(100);
{ let r = &v; unsafe { r.set_unchecked(1, true) } } //!
v.flip(1);
//# as_mut_of_shared E0596
let mut v = BitVec::new(100);
{ let r = &v; use_it(r.as_mut().len()); } //!
v.flip(1);
//# set_through_shared_slice E0277,E0599,E0596
let v = BitVec::new(100);
let mut s = v.slice(3..40);
s.set_bit(1, true); //!
use_it(s.get_bit(1));
//# flip_through_shared_slice E0277,E0599,E0596
let v = BitVec::new(100);
let mut s = v.slice(3..40);
s.flip_bit(1); //!
use_it(s.get_bit(1));
//# set_through_shared_half E0277,E0599,E0596
let v = BitVec::new(100);
let (mut s, t) = v.split_at(40);
s.set_bit(1, true); //!
use_it(s.get_bit(1) == t.get_bit(1));
//# split_mut_of_shared_slice E0277,E0599,E0596
let v = BitVec::new(100);
let mut s = v.slice(3..40);
use_it(s.split_at_mut(3).0.len()); //!
use_it(s.get_bit(1));
//# clone_of_mutable_view E0277,E0599,E0507,borrow
let mut v = BitVec::new(100); let mut s = v.slice_mut(3..40);
let mut t: BitSlice<_> = s.clone(); t.flip_bit(0); //!
s.set_bit(1, true);
//# copy_of_mutable_view E0382
let mut v = BitVec::new(100); let mut s = v.slice_mut(3..40);
let mut t = s; t.flip_bit(0); //!
s.set_bit(1, true);
//# iterate_twice_over_mutable_view E0382
let mut v = BitVec::new(100); let s = v.slice_mut(3..40);
use_it(s.into_iter().count()); //!
use_it(s.into_iter().count());
//# split_then_set
let mut v = BitVec::new(100); let (a, b) = v.split_at(40);
v.set_bit(5, true); //!
use_it(a.get_bit(1) == b.get_bit(1));
//# split_second_then_set
let mut v = BitVec::new(100); let (_, b) = v.split_at(40);
v.set_bit(5, true); //!
use_it(b.get_bit(1));
//# split_mut_then_read
let mut v = BitVec::new(100); let (mut a, mut b) = v.split_at_mut(40);
use_it(v.get_bit(5)); //!
a.flip_bit(0); b.flip_bit(0);
//# split_mut_first_then_read
let mut v = BitVec::new(100); let (mut a, _) = v.split_at_mut(40);
use_it(v.get_bit(5)); //!
a.flip_bit(0);
//# split_mut_second_then_read
let mut v = BitVec::new(100); let (_, mut b) = v.split_at_mut(40);
use_it(v.get_bit(5)); //!
b.flip_bit(0);
//# split_mut_then_set
let mut v = BitVec::new(100); let (mut a, mut b) = v.split_at_mut(40);
v.set_bit(5, true); //!
a.flip_bit(0); b.flip_bit(0);
//# split_mut_twice
let mut v = BitVec::new(100); let (mut a, _) = v.split_at_mut(40);
let (_, mut b) = v.split_at_mut(20); b.flip_bit(0); //!
a.flip_bit(0);
//# split_mut_of_half_then_half
let mut v = BitVec::new(100); let (mut a, mut c) = v.split_at_mut(40);
let (mut x, mut y) = a.split_at_mut(20);
a.flip_bit(0); //!
x.flip_bit(0); y.flip_bit(0); c.flip_bit(0);
//# iter_then_set
let mut v = BitVec::new(100); let mut it = v.iter();
v.set_bit(5, true); //!
use_it(it.next());
//# iter_then_flip
let mut v = BitVec::new(100); let mut it = v.slice(3..9).into_iter();
v.flip_bit(5); //!
use_it(it.next());
//# slice_iter_then_set
let mut v = BitVec::new(100); let s = v.slice(3..9); let mut it = s.iter();
v.set_bit(5, true); //!
use_it(it.next());
//# into_iter_ref_then_set
let mut v = BitVec::new(100); let mut it = (&v).into_iter();
v.set_bit(5, true); //!
use_it(it.next());
//# into_iter_slice_ref_then_set
let mut v = BitVec::new(100); let mut s = v.slice_mut(..); let mut it = (&s).into_iter();
s.set_bit(5, true); //!
use_it(it.next());
//# for_loop_set
let mut v = BitVec::new(100); let mut n = 0;
for b in &v { if b { n += 1; }
v.set_bit(n, true); //!
}
use_it(n);
//# raw_then_set
let mut v = BitVec::new(100); let r = v.raw();
v.set_bit(5, true); //!
use_it(r[0]);
//# backing_then_set
let mut v = BitVec::new(100); let r = v.backing();
v.set_bit(5, true); //!
use_it(r[0]);
//# as_ref_words_then_set
let mut v = BitVec::new(100); let r: &[usize] = v.as_ref();
v.set_bit(5, true); //!
use_it(r[0]);
//# as_ref_slice_then_set
let mut v = BitVec::new(100); let r: &BitSlice<Box<[usize]>> = v.as_ref();
v.set_bit(5, true); //!
use_it(r.get_bit(0));
//# deref_then_set
let mut v = BitVec::new(100); let r = &*v;
v.set_bit(5, true); //!
use_it(r.get_bit(0));
//# deref_mut_then_read
let mut v = BitVec::new(100); let r = &mut *v;
use_it(v.get_bit(1)); //!
r.set_bit(0, true);
//# as_mut_then_read
let mut v = BitVec::new(100); let r = v.as_mut();
use_it(v.get_bit(1)); //!
r.set_bit(0, true);
//# as_mut_twice
let mut v = BitVec::new(100); let r = v.as_mut();
v.as_mut().flip_bit(0); //!
r.set_bit(0, true);
//# rank_then_set
let mut v = BitVec::new(100); let r = FlatPopcount::<LinearSearch>::new(&v);
v.set_bit(5, true); //!
use_it(r.rank::<true>(3));
//# rank_then_flip
let mut v = BitVec::new(100); let r = FlatPopcount::<()>::new(&v);
v.flip(5); //!
use_it(r.rank_dyn(3, false));
//# select_then_set
let mut v = BitVec::new(100); let r = FlatPopcount::<BinarySearch>::new(&v);
v.set_bit(5, true); //!
use_it(r.select(3));
//# rank_then_replace
let mut v = BitVec::new(100); let r = FlatPopcount::<LinearSearch>::new(&v);
v = BitVec::new(1); //!
use_it(r.len()); use_it(v);
//# rank_then_move
let v = BitVec::new(100); let r = FlatPopcount::<LinearSearch>::new(&v);
let w = v; //!
use_it(r.len());
//# rank_then_slice_mut
let mut v = BitVec::new(100); let r = FlatPopcount::<LinearSearch>::new(&v);
v.slice_mut(..).set_bit(0, true); //!
use_it(r.is_empty());
//# ints_iter_then_push
let mut v = IntVec::new(7); let mut it = v.iter();
v.push(5); //!
use_it(it.next());
//# ints_iter_then_set
let mut v = IntVec::new(7); v.push(1); let mut it = v.iter();
v.set(0, 5); //!
use_it(it.len());
//# ints_into_iter_ref_then_push
let mut v = IntVec::new(7); let mut it = (&v).into_iter();
v.push(5); //!
use_it(it.next());
//# ints_for_loop_push
let mut v = IntVec::new(7); let mut n = 0;
for x in &v { n += x;
v.push(n); //!
}
use_it(n);
//# ints_raw_then_push
let mut v = IntVec::new(7); let r = v.raw_data();
v.push(5); //!
use_it(r.len());
//# ints_raw_then_set
let mut v = IntVec::new(7); v.push(1); let r = v.raw_data();
v.set(0, 5); //!
use_it(r.len());
//# ints_iter_then_drop
let v = IntVec::new(7); let mut it = v.iter();
drop(v); //!
use_it(it.next());
//# ints_push_of_shared E0596
let mut v = IntVec::new(7);
{ let r = &v; r.push(1); } //!
v.push(1);
//# ints_set_of_shared E0596
let mut v = IntVec::new(7); v.push(1);
{ let r = &v; r.set(0, 1); } //!
v.set(0, 1);
//# ints_consumed E0382
let v = IntVec::new(7);
use_it(v.into_iter().count()); //!
use_it(v.is_empty());

// ---- views that outlive their source ----
//# outlive_slice
let keep; let v = BitVec::new(100); { let w = BitVec::new(100);
keep = v.slice(1..); //-
keep = w.slice(1..); //!
use_it(w.len()); }
use_it(keep.get_bit(0));
//# outlive_slice_unchecked
let keep; let v = BitVec::new(100); { let w = BitVec::new(100);
keep = unsafe { v.slice_unchecked(1..) }; //-
keep = unsafe { w.slice_unchecked(1..) }; //!
use_it(w.len()); }
use_it(keep.get_bit(0));
//# outlive_slice_mut
let mut keep; let mut v = BitVec::new(100); { let mut w = BitVec::new(100);
keep = v.slice_mut(1..); //-
keep = w.slice_mut(1..); //!
}
keep.set_bit(0, true);
//# outlive_slice_unchecked_mut
let mut keep; let mut v = BitVec::new(100); { let mut w = BitVec::new(100);
keep = unsafe { v.slice_unchecked_mut(1..) }; //-
keep = unsafe { w.slice_unchecked_mut(1..) }; //!
}
keep.set_bit(0, true);
//# outlive_split
let keep; let v = BitVec::new(100); { let w = BitVec::new(100);
keep = v.split_at(1).0; //-
keep = w.split_at(1).0; //!
use_it(w.len()); }
use_it(keep.get_bit(0));
//# outlive_split_second
let keep; let v = BitVec::new(100); { let w = BitVec::new(100);
keep = v.split_at(1).1; //-
keep = w.split_at(1).1; //!
use_it(w.len()); }
use_it(keep.get_bit(0));
//# outlive_split_mut
let mut keep; let mut v = BitVec::new(100); { let mut w = BitVec::new(100);
keep = v.split_at_mut(1).0; //-
keep = w.split_at_mut(1).0; //!
}
keep.set_bit(0, true);
//# outlive_split_mut_second
let mut keep; let mut v = BitVec::new(100); { let mut w = BitVec::new(100);
keep = v.split_at_mut(1).1; //-
keep = w.split_at_mut(1).1; //!
}
keep.set_bit(0, true);
//# outlive_iter
let mut keep; let v = BitVec::new(100); { let w = BitVec::new(100);
keep = v.iter(); //-
keep = w.iter(); //!
}
use_it(keep.next());
//# outlive_into_iter
let mut keep; let v = BitVec::new(100); { let w = BitVec::new(100);
keep = (&v).into_iter(); //-
keep = (&w).into_iter(); //!
}
use_it(keep.next());
//# outlive_into_iter_of_slice
let mut keep; let v = BitVec::new(100); let s = v.slice(..); { let t = v.slice(..);
keep = (&s).into_iter(); //-
keep = (&t).into_iter(); //!
}
use_it(keep.next());
//# outlive_iter_consuming_view
let mut keep; let v = BitVec::new(100); { let w = BitVec::new(100);
keep = v.slice(..).into_iter(); //-
keep = w.slice(..).into_iter(); //!
}
use_it(keep.next());
//# outlive_raw
let keep; let v = BitVec::new(100); { let w = BitVec::new(100);
keep = v.raw(); //-
keep = w.raw(); //!
}
use_it(keep[0]);
//# outlive_backing
let keep; let v = BitVec::new(100); { let w = BitVec::new(100);
keep = v.backing(); //-
keep = w.backing(); //!
}
use_it(keep[0]);
//# outlive_as_ref_words
let keep: &[usize]; let v = BitVec::new(100); { let w = BitVec::new(100);
keep = v.as_ref(); //-
keep = w.as_ref(); //!
}
use_it(keep[0]);
//# outlive_as_ref_slice
let keep: &BitSlice<Box<[usize]>>; let v = BitVec::new(100); { let w = BitVec::new(100);
keep = v.as_ref(); //-
keep = w.as_ref(); //!
}
use_it(keep.len());
//# outlive_deref
let keep; let v = BitVec::new(100); { let w = BitVec::new(100);
keep = std::ops::Deref::deref(&v); //-
keep = std::ops::Deref::deref(&w); //!
}
use_it(keep.len());
//# outlive_as_mut
let keep; let mut v = BitVec::new(100); { let mut w = BitVec::new(100);
keep = v.as_mut(); //-
keep = w.as_mut(); //!
}
keep.flip_bit(1);
//# outlive_deref_mut
let keep; let mut v = BitVec::new(100); { let mut w = BitVec::new(100);
keep = std::ops::DerefMut::deref_mut(&mut v); //-
keep = std::ops::DerefMut::deref_mut(&mut w); //!
}
keep.flip_bit(1);
//# outlive_rank
let keep; let v = BitVec::new(100); { let w = BitVec::new(100);
keep = FlatPopcount::<LinearSearch>::new(&v); //-
keep = FlatPopcount::<LinearSearch>::new(&w); //!
}
use_it(keep.rank::<true>(1));
//# outlive_ints_iter
let mut keep; let v = IntVec::new(7); { let w = IntVec::new(7);
keep = v.iter(); //-
keep = w.iter(); //!
}
use_it(keep.next());
//# outlive_ints_into_iter
let mut keep; let v = IntVec::new(7); { let w = IntVec::new(7);
keep = (&v).into_iter(); //-
keep = (&w).into_iter(); //!
}
use_it(keep.next());
//# outlive_ints_raw
let keep; let v = IntVec::new(7); { let w = IntVec::new(7);
keep = v.raw_data(); //-
keep = w.raw_data(); //!
}
use_it(keep.len());
//# outlive_nested
let keep; let v = BitVec::new(100); let s = v.slice(2..50); { let t = v.slice(2..50);
keep = s.slice(1..); //-
keep = t.slice(1..); //!
}
use_it(keep.get_bit(0));
//# outlive_explicit_slice
let keep; let v = [0usize; 4]; { let w = [0usize; 4];
keep = BitSlice::new(&v[..], 3, 7); //-
keep = BitSlice::new(&w[..], 3, 7); //!
}
use_it(keep.get_bit(0));
//# static_slice E0597,E0310,E0716,borrow
let v = BitVec::new(100);
let s: BitSlice<&'static Box<[usize]>> = v.slice(1..); use_it(s); //!
use_it(v.len());
//# static_rank E0597,borrow
let v = BitVec::new(100);
let s: FlatPopcount<'static, LinearSearch> = FlatPopcount::new(&v); use_it(s.len()); //!
use_it(v.len());
//# thread_borrow E0373,E0597,borrow
let v = BitVec::new(100); let s = v.slice(1..);
std::thread::spawn(move || use_it(s.get_bit(0))); //!
use_it(v.len());
