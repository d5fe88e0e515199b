#![allow(unused, dropping_references, dropping_copy_types)]
use std::cell::Cell;
use std::rc::Rc;
use std::sync::Arc;
use succinct_neo::bit_vec::*;
use succinct_neo::int_vec::*;
use succinct_neo::rank_select::flat_popcount::{BinarySearch, LinearSearch, SelectStrategy};
use succinct_neo::rank_select::*;
fn use_it<T>(_: T) {}
fn shareable<T: Send + Sync + ?Sized>(_: &T) {}
fn sendable<T: Send + ?Sized>(_: &T) {}
fn sharing<T: Sync + ?Sized>(_: &T) {}
