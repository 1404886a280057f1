//! What the generated client programs of C21 share.

use eastl_rs::{allocator::Allocator, compare::Compare, equals::Equals, hash::Hash};
use std::marker::PhantomData;

pub use eastl_rs;

/// A container from somewhere: the programs are compiled, never run.
pub fn mk<T>() -> T {
    unreachable!()
}

/// Uses a value.
pub fn used<T: ?Sized>(_: &T) {}

/// Uses a value mutably.
pub fn used_mut<T: ?Sized>(_: &mut T) {}

/// Takes a value away.
pub fn taken<T>(_: T) {}

/// Could be anything.
pub fn coin() -> bool {
    unreachable!()
}

/// An allocator of the client's.
#[derive(Clone, Default)]
pub struct ClientAlloc;

unsafe impl Allocator for ClientAlloc {
    fn allocate_raw_aligned(&mut self, _: usize, _: usize) -> *mut () {
        unreachable!()
    }
    unsafe fn deallocate_raw_aligned(&mut self, _: *mut (), _: usize, _: usize) {
        unreachable!()
    }
}

/// Something that is `Send` and `Sync` exactly as its parameters say.
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug, Default)]
pub struct M<const SEND: bool, const SYNC: bool, const USE: u8>(PhantomData<*mut ()>);
unsafe impl<const SYNC: bool, const USE: u8> Send for M<true, SYNC, USE> {}
unsafe impl<const SEND: bool, const USE: u8> Sync for M<SEND, true, USE> {}

/// Used as an element.
pub type El<const SEND: bool, const SYNC: bool> = M<SEND, SYNC, 0>;
/// Used as an allocator.
pub type Al<const SEND: bool, const SYNC: bool> = M<SEND, SYNC, 1>;
/// Used as a function: comparison, hash, equality.
pub type Fun<const SEND: bool, const SYNC: bool> = M<SEND, SYNC, 2>;

unsafe impl<const SEND: bool, const SYNC: bool> Allocator for Al<SEND, SYNC> {
    fn allocate_raw_aligned(&mut self, _: usize, _: usize) -> *mut () {
        unreachable!()
    }
    unsafe fn deallocate_raw_aligned(&mut self, _: *mut (), _: usize, _: usize) {
        unreachable!()
    }
}
impl<K, const SEND: bool, const SYNC: bool> Compare<K> for Fun<SEND, SYNC> {
    fn compare(_: &K, _: &K) -> bool {
        unreachable!()
    }
}
impl<K, const SEND: bool, const SYNC: bool> Hash<K> for Fun<SEND, SYNC> {
    fn hash(_: &K) -> usize {
        unreachable!()
    }
}
impl<K: PartialEq, const SEND: bool, const SYNC: bool> Equals<K> for Fun<SEND, SYNC> {
    fn equals(_: &K, _: &K) -> bool {
        unreachable!()
    }
}

/// `Probe::<T>::SEND`, `SYNC`, `CLONE`: whether `T` is.
pub struct Probe<T>(PhantomData<T>);
/// Where `Probe` has nothing to say.
pub trait Otherwise {
    const SEND: bool = false;
    const SYNC: bool = false;
    const CLONE: bool = false;
}
impl<T> Otherwise for Probe<T> {}
impl<T: Send> Probe<T> {
    pub const SEND: bool = true;
}
impl<T: Sync> Probe<T> {
    pub const SYNC: bool = true;
}
impl<T: Clone> Probe<T> {
    pub const CLONE: bool = true;
}

pub fn need_send<T: Send>(_: T) {}
pub fn need_sync<T: Sync>(_: T) {}
pub fn need_clone<T: Clone>(_: T) {}
