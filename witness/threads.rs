// Client programs for use by several threads (P17).  `//# name codes`: the program as written must be rejected with
// one of the codes; `//+ name codes`: it must be accepted, a rejection with one of the codes is a violation.  In both
// cases the program without the lines marked `//!` must be accepted.

//+ bit_vector E0277
let v = BitVec::new(100); use_it(v.len());
shareable(&v); //!
//+ int_vector E0277
let v = IntVec::new(7); use_it(v.is_empty());
shareable(&v); //!
//+ rank_linear E0277
let v = BitVec::new(100); let r = FlatPopcount::<LinearSearch>::new(&v); use_it(r.len());
shareable(&r); //!
//+ rank_binary E0277
let v = BitVec::new(100); let r = FlatPopcount::<BinarySearch>::new(&v); use_it(r.len());
shareable(&r); //!
//+ rank_unit E0277
let v = BitVec::new(100); let r = FlatPopcount::<()>::new(&v); use_it(r.len());
shareable(&r); //!
//+ shared_view E0277
let v = BitVec::new(100); let s = v.slice(3..9); use_it(s.len());
shareable(&s); //!
//+ nested_view E0277
let v = BitVec::new(100); let s = v.slice(3..9); let t = s.slice(1..); use_it(t.len());
shareable(&t); //!
//+ mutable_view E0277
let mut v = BitVec::new(100); let s = v.slice_mut(3..9); use_it(s.len());
shareable(&s); //!
//+ shared_halves E0277
let v = BitVec::new(100); let (a, b) = v.split_at(3); use_it(a.len() + b.len());
shareable(&a); shareable(&b); //!
//+ inner_view E0277
let v = BitVec::new(100); let s = &*v; use_it(s.len());
shareable(s); //!
//+ view_of_words E0277
let w = [0usize; 3]; let s = BitSlice::new(&w[..], 3, 9); use_it(s.len());
shareable(&s); //!
//+ bit_iterator E0277
let v = BitVec::new(100); let it = v.iter(); use_it(it.len());
shareable(&it); //!
//+ bit_iterator_of_reference E0277
let v = BitVec::new(100); let it = (&v).into_iter(); use_it(it.len());
shareable(&it); //!
//+ bit_iterator_of_view E0277
let v = BitVec::new(100); let it = v.slice(3..9).into_iter(); use_it(it.len());
shareable(&it); //!
//+ int_iterator E0277
let v = IntVec::new(7); let it = v.iter(); use_it(it.len());
shareable(&it); //!
//+ int_iterator_consuming E0277
let v = IntVec::new(7); let it = v.into_iter(); use_it(it.len());
shareable(&it); //!
//+ raw_words E0277
let v = BitVec::new(100); let r = v.raw(); use_it(r.len());
shareable(r); //!
//+ read_in_threads E0277,E0373,E0521
let v = BitVec::new(100);
std::thread::scope(|s| { s.spawn(|| use_it(v.get_bit(1))); s.spawn(|| use_it(v.slice(3..).get_bit(1))); }); //!
use_it(v.len());
//+ rank_in_threads E0277,E0373,E0521
let v = BitVec::new(100); let r = FlatPopcount::<LinearSearch>::new(&v);
std::thread::scope(|s| { s.spawn(|| use_it(r.rank::<true>(1))); s.spawn(|| use_it(r.select(1))); }); //!
use_it(r.len());
//+ ints_in_threads E0277,E0373,E0521
let v = IntVec::new(7);
std::thread::scope(|s| { s.spawn(|| use_it(v.get(1))); s.spawn(|| use_it(v.iter().count())); }); //!
use_it(v.is_empty());
//+ move_to_thread E0277,E0373,E0521
let mut v = BitVec::new(100); v.set_bit(1, true);
std::thread::spawn(move || { v.set_bit(2, true); use_it(v.get_bit(1)) }); //!
//+ move_ints_to_thread E0277,E0373,E0521
let mut v = IntVec::new(7); v.push(1);
std::thread::spawn(move || { v.push(2); use_it(v.get(1)) }); //!
//+ mutable_view_in_thread E0277,E0373,E0521
let mut v = BitVec::new(100); let mut s = v.slice_mut(3..9); s.flip_bit(0);
std::thread::scope(|x| { x.spawn(move || s.set_bit(1, true)); }); //!
//+ shared_pointer_in_threads E0277,E0373,E0521
let v = Arc::new(BitVec::new(100)); let w = v.clone(); use_it(w.len());
std::thread::spawn(move || use_it(w.get_bit(1))); //!
use_it(v.len());

//# counted_view_not_sent E0277
let v = BitVec::new(100); let s = BitSlice::new(Rc::new(v), 3, 9); use_it(s.len());
sendable(&s); //!
//# counted_view_not_shared E0277
let v = BitVec::new(100); let s = BitSlice::new(Rc::new(v), 3, 9); use_it(s.len());
sharing(&s); //!
//# counted_iterator_not_sent E0277
let v = BitVec::new(100); let s = BitSlice::new(Rc::new(BitSlice::new(v.raw(), 0, 100)), 3, 9); let it = s.into_iter(); use_it(it.len());
sendable(&it); //!
//# view_of_counted_view_not_sent E0277
let v = BitVec::new(100); let s = BitSlice::new(Rc::new(v), 3, 9); let t = s.slice(1..); use_it(t.len());
sendable(&t); //!
//# view_of_cell_not_shared E0277
let s = BitSlice::new(Cell::new(5usize), 3, 9); use_it(s.len());
sharing(&s); //!
//# view_of_cell_reference_not_sent E0277
let c = Cell::new(5usize); let s = BitSlice::new(&c, 3, 9); use_it(s.len());
sendable(&s); //!
//# view_of_raw_pointer_not_sent E0277
let s = BitSlice::new(std::ptr::null::<usize>(), 3, 9); use_it(s.len());
sendable(&s); //!
//# write_in_two_threads
let mut v = BitVec::new(100);
std::thread::scope(|s| { s.spawn(|| v.set_bit(1, true)); s.spawn(|| v.set_bit(2, true)); }); //!
v.set_bit(3, true);
//# write_beside_read
let mut v = BitVec::new(100);
std::thread::scope(|s| { s.spawn(|| v.set_bit(1, true)); s.spawn(|| use_it(v.get_bit(2))); }); //!
v.set_bit(3, true);
//# write_beside_rank
let mut v = BitVec::new(100);
std::thread::scope(|s| { let r = FlatPopcount::<LinearSearch>::new(&v); s.spawn(move || use_it(r.rank::<true>(2))); v.set_bit(1, true); }); //!
v.set_bit(3, true);
//# push_beside_read
let mut v = IntVec::new(7);
std::thread::scope(|s| { s.spawn(|| v.push(1)); s.spawn(|| use_it(v.get(0))); }); //!
v.push(1);
//# push_in_two_threads
let mut v = IntVec::new(7);
std::thread::scope(|s| { s.spawn(|| v.push(1)); s.spawn(|| v.push(2)); }); //!
v.push(1);
//# write_through_shared_pointer E0596,E0594,E0277,E0599
let v = Arc::new(BitVec::new(100)); let mut w = v.clone();
w.set_bit(1, true); //!
use_it(v.len() + w.len()); w = v; use_it(w.len());
//# overlapping_views_in_two_threads
let mut v = BitVec::new(100);
std::thread::scope(|s| { let mut a = v.slice_mut(..); let mut b = v.slice_mut(..); s.spawn(move || a.set_bit(1, true)); s.spawn(move || b.set_bit(1, true)); }); //!
v.set_bit(3, true);
//# halves_written_in_two_threads E0277,borrow
let mut v = BitVec::new(100); let (mut a, mut b) = v.split_at_mut(40); a.flip_bit(0); b.flip_bit(0);
std::thread::scope(|s| { s.spawn(move || a.set_bit(1, true)); s.spawn(move || b.set_bit(1, true)); }); //!
