//! List, FixedList and the conformant FixedList against VecDeque<u32>.
use super::vector::Fresh;
use super::*;
use crate::env::*;
use crate::{chk, fail, must};
use eastl_rs::{FixedList, List};
use moveit::New;
use std::collections::VecDeque;
use std::mem::{align_of, size_of, MaybeUninit};
use std::pin::Pin;

pub const OPS: &[&str] = &[
    "push_back", "push_front", "pop_back", "pop_front", "clear", "extend", "mutate_ends", "mutate_iter", "iterate",
    "debug", "construct", "drain", "cpp_insert", "cpp_erase", "cpp_reverse", "extend_ref", "fault",
];
const W: [u32; 17] = [12, 10, 8, 8, 1, 2, 2, 2, 3, 1, 1, 2, 0, 0, 0, 1, 0];
const FAULT: u32 = 16;

/// the parts of the API the engine drives
pub trait LL: Sized {
    type T: Elem;
    type A: HAlloc;
    const CAP: usize; // 0: not fixed
    const FIXED: bool;
    unsafe fn construct(at: *mut Self, kind: u32, tag: u32) -> u32;
    fn push_back(&mut self, x: Self::T);
    fn push_front(&mut self, x: Self::T);
    fn pop_back(&mut self) -> Option<Self::T>;
    fn pop_front(&mut self) -> Option<Self::T>;
    fn clear(&mut self);
    fn front(&self) -> Option<&Self::T>;
    fn back(&self) -> Option<&Self::T>;
    fn front_mut(&mut self) -> Option<&mut Self::T>;
    fn back_mut(&mut self) -> Option<&mut Self::T>;
    fn lens(&self) -> [usize; 2];
    fn empties(&self) -> [bool; 2];
    fn iter<'x>(&'x self) -> Box<dyn Iterator<Item = &'x Self::T> + 'x>;
    fn iter_mut<'x>(&'x mut self) -> Box<dyn Iterator<Item = &'x mut Self::T> + 'x>;
    fn extend(&mut self, it: &mut dyn Iterator<Item = Self::T>);
    fn extend_ref(&mut self, xs: &[u32]);
    fn proto(&mut self, want: &[u32], which: u32, seed: u32, cx: &mut Ctx) -> R;
    fn rproto(&self, want: &[u32], seed: u32, cx: &mut Ctx) -> R;
    fn dbg(&self) -> String;
}
macro_rules! body {
    () => {
        fn push_back(&mut self, x: Self::T) {
            self.push_back(x)
        }
        fn push_front(&mut self, x: Self::T) {
            self.push_front(x)
        }
        fn pop_back(&mut self) -> Option<Self::T> {
            self.pop_back()
        }
        fn pop_front(&mut self) -> Option<Self::T> {
            self.pop_front()
        }
        fn clear(&mut self) {
            self.clear()
        }
        fn front(&self) -> Option<&Self::T> {
            self.front()
        }
        fn back(&self) -> Option<&Self::T> {
            self.back()
        }
        fn front_mut(&mut self) -> Option<&mut Self::T> {
            self.front_mut()
        }
        fn back_mut(&mut self) -> Option<&mut Self::T> {
            self.back_mut()
        }
        fn iter<'x>(&'x self) -> Box<dyn Iterator<Item = &'x Self::T> + 'x> {
            Box::new(self.iter())
        }
        fn iter_mut<'x>(&'x mut self) -> Box<dyn Iterator<Item = &'x mut Self::T> + 'x> {
            Box::new(Self::iter_mut(self))
        }
        fn proto(&mut self, want: &[u32], which: u32, seed: u32, cx: &mut Ctx) -> R {
            if which % 2 == 0 {
                super::proto::fwd(Self::iter(self), want, seed, true, cx, Class::Model, |x| x.v())
            } else {
                super::proto::fwd(Self::iter_mut(self), want, seed, true, cx, Class::Model, |x| x.v())
            }
        }
        fn rproto(&self, want: &[u32], seed: u32, cx: &mut Ctx) -> R {
            super::proto::fwd(Self::iter(self), want, seed, true, cx, Class::Model, |x| x.v())
        }
        fn dbg(&self) -> String {
            format!("{:?}", self)
        }
    };
}
unsafe fn build<L>(at: *mut L, n: impl New<Output = L>) {
    n.new(Pin::new_unchecked(&mut *(at as *mut MaybeUninit<L>)))
}
pub trait MaybeRef: Elem {
    fn ext<A: HAlloc>(_l: &mut List<Self, A>, _v: &[u32]) -> bool {
        false
    }
}
impl<T: Elem, A: HAlloc> LL for List<T, A> {
    type T = T;
    type A = A;
    const CAP: usize = 0;
    const FIXED: bool = false;
    unsafe fn construct(at: *mut Self, kind: u32, tag: u32) -> u32 {
        if kind % 2 == 0 {
            build(at, List::new());
            A::DEFTAG
        } else {
            build(at, List::new_in(A::mk(tag)));
            A::mk(tag).tag()
        }
    }
    body!();
    fn lens(&self) -> [usize; 2] {
        [self.len() as usize, self.size()]
    }
    fn empties(&self) -> [bool; 2] {
        [self.is_empty(), self.empty()]
    }
    fn extend(&mut self, it: &mut dyn Iterator<Item = T>) {
        Extend::extend(self, it)
    }
    fn extend_ref(&mut self, xs: &[u32]) {
        if let Some(l) = (self as &mut dyn std::any::Any).downcast_mut::<List<u32, A>>() {
            Extend::extend(l, xs.iter())
        } else {
            Extend::extend(self, xs.iter().map(|&x| T::mk(x)))
        }
    }
}
impl<T: Elem, A: HAlloc, const N: usize> LL for FixedList<T, N, A> {
    type T = T;
    type A = A;
    const CAP: usize = N;
    const FIXED: bool = true;
    unsafe fn construct(at: *mut Self, kind: u32, tag: u32) -> u32 {
        if kind % 2 == 0 {
            build(at, FixedList::new_with_default_overflow_allocator());
            A::DEFTAG
        } else {
            build(at, FixedList::new_in(A::mk(tag)));
            A::mk(tag).tag()
        }
    }
    fn push_back(&mut self, x: T) {
        (**self).push_back(x)
    }
    fn push_front(&mut self, x: T) {
        (**self).push_front(x)
    }
    fn pop_back(&mut self) -> Option<T> {
        (**self).pop_back()
    }
    fn pop_front(&mut self) -> Option<T> {
        (**self).pop_front()
    }
    fn clear(&mut self) {
        (**self).clear()
    }
    fn front(&self) -> Option<&T> {
        (**self).front()
    }
    fn back(&self) -> Option<&T> {
        (**self).back()
    }
    fn front_mut(&mut self) -> Option<&mut T> {
        (**self).front_mut()
    }
    fn back_mut(&mut self) -> Option<&mut T> {
        (**self).back_mut()
    }
    fn iter<'x>(&'x self) -> Box<dyn Iterator<Item = &'x T> + 'x> {
        Box::new((**self).iter())
    }
    fn iter_mut<'x>(&'x mut self) -> Box<dyn Iterator<Item = &'x mut T> + 'x> {
        Box::new((**self).iter_mut())
    }
    fn proto(&mut self, want: &[u32], which: u32, seed: u32, cx: &mut Ctx) -> R {
        if which % 2 == 0 {
            super::proto::fwd((**self).iter(), want, seed, true, cx, Class::Model, |x| x.v())
        } else {
            super::proto::fwd((**self).iter_mut(), want, seed, true, cx, Class::Model, |x| x.v())
        }
    }
    fn rproto(&self, want: &[u32], seed: u32, cx: &mut Ctx) -> R {
        super::proto::fwd((**self).iter(), want, seed, true, cx, Class::Model, |x| x.v())
    }
    fn dbg(&self) -> String {
        format!("{:?}", self)
    }
    fn lens(&self) -> [usize; 2] {
        [(**self).len() as usize, (**self).size()]
    }
    fn empties(&self) -> [bool; 2] {
        [(**self).is_empty(), (**self).empty()]
    }
    fn extend(&mut self, it: &mut dyn Iterator<Item = T>) {
        Extend::extend(&mut **self, it)
    }
    fn extend_ref(&mut self, xs: &[u32]) {
        Extend::extend(&mut **self, xs.iter().map(|&x| T::mk(x)))
    }
}
#[cfg(feature = "nightly")]
macro_rules! conformant {
    ($($t:ty, $n:literal, $a:ty);* $(;)?) => {$(
        impl LL for eastl_rs::fixed_list::conformant::FixedList<$t, $n, $a> {
            type T = $t;
            type A = $a;
            const CAP: usize = $n;
            const FIXED: bool = true;
            unsafe fn construct(at: *mut Self, kind: u32, tag: u32) -> u32 {
                if kind % 2 == 0 {
                    build(at, Self::new_with_default_overflow_allocator());
                    <$a>::DEFTAG
                } else {
                    build(at, Self::new_in(<$a>::mk(tag)));
                    <$a>::mk(tag).tag()
                }
            }
            body!();
            fn lens(&self) -> [usize; 2] {
                [self.len() as usize, self.size()]
            }
            fn empties(&self) -> [bool; 2] {
                [self.is_empty(), self.size() == 0]
            }
            fn extend(&mut self, it: &mut dyn Iterator<Item = $t>) {
                for x in it {
                    self.push_back(x)
                }
            }
            fn extend_ref(&mut self, xs: &[u32]) {
                for x in xs {
                    self.push_back(<$t as Elem>::mk(*x))
                }
            }
        }
    )*};
}
#[cfg(feature = "nightly")]
conformant! { u32, 5, TA; T4, 1, TA; T<0>, 4, FA; T<16>, 8, DA; B7, 3, TA; T<0>, 2, TA; A64, 3, TA; A16, 4, TA; }

#[repr(C)]
pub struct Base {
    pub next: *mut Base,
    pub prev: *mut Base,
}
#[repr(C)]
pub struct Node<T> {
    base: Base,
    value: T,
}
#[repr(C)]
struct RawList {
    node: Base,
    size: u32,
}
/// fixed pool as C++ sees it; the overflow allocator follows
#[repr(C)]
struct RawPool {
    head: *mut *mut u8,
    next: *mut u8,
    cap: *mut u8,
}
const POOL_AT: usize = 24;

fn gen(r: &mut Rng, size: u32, flags: u32) -> Case {
    let mut w = W;
    if flags & FL_FOREIGN != 0 {
        for i in 12..15 {
            w[i] = 4
        }
    }
    let cfg = vec![r.u(5), r.u(3), r.u(1 << 20), r.u(8), r.u(8)];
    let mut ops = OpGen { weights: &w }.gen(r, if size > 1 { 140 } else { 60 });
    if flags & FL_FAULT != 0 {
        sprinkle_faults(r, &mut ops, FAULT, flags);
    }
    Case { subject: String::new(), cfg, ops }
}

/// memory for an object that must not move
pub struct Place<L> {
    p: *mut L,
    l: std::alloc::Layout,
    base: *mut u8,
    guard: usize,
}
impl<L> Place<L> {
    pub fn new(fill: u8) -> Self {
        let guard = 64.max(align_of::<L>());
        // any address that suits the object will do, not only those of a high alignment
        let shift = crate::env::place_shift() * align_of::<L>();
        let l = std::alloc::Layout::from_size_align(size_of::<L>() + 2 * guard + shift, guard.max(128)).unwrap();
        unsafe {
            let b = sealable(|| std::alloc::alloc(l));
            std::ptr::write_bytes(b, fill, l.size());
            Place { p: b.add(guard + shift) as *mut L, l, base: b, guard }
        }
    }
    pub fn ptr(&self) -> *mut L {
        self.p
    }
    pub fn overrun(&self, fill: u8) -> bool {
        unsafe {
            let lo = std::slice::from_raw_parts((self.p as *const u8).sub(self.guard), self.guard);
            let hi = std::slice::from_raw_parts((self.p as *const u8).add(size_of::<L>()), self.guard);
            lo.iter().chain(hi).any(|&b| b != fill)
        }
    }
    pub fn contains(&self, a: usize) -> bool {
        a >= self.p as usize && a < self.p as usize + size_of::<L>()
    }
    pub fn fill(&self, b: u8) {
        unsafe { std::ptr::write_bytes(self.p as *mut u8, b, size_of::<L>()) }
    }
}
impl<L> Drop for Place<L> {
    fn drop(&mut self) {
        unsafe { std::alloc::dealloc(self.base, self.l) }
    }
}

struct St<L: LL> {
    place: Place<L>,
    alive: bool,
    /// value and whether it is expected in place
    m: VecDeque<(u32, bool)>,
    tag: u32,
    fill: u8,
}
impl<L: LL> Drop for St<L> {
    fn drop(&mut self) {
        if self.alive {
            self.alive = false;
            unsafe { std::ptr::drop_in_place(self.place.ptr()) }
        }
    }
}
impl<L: LL> St<L> {
    fn l(&mut self) -> &mut L {
        unsafe { &mut *self.place.ptr() }
    }
    fn raw(&mut self) -> &mut RawList {
        unsafe { &mut *(self.place.ptr() as *mut RawList) }
    }
    fn used(&self) -> usize {
        self.m.iter().filter(|x| x.1).count()
    }
    fn vals(&self) -> Vec<u32> {
        self.m.iter().map(|x| x.0).collect()
    }
    fn slot(&self) -> bool {
        L::FIXED && self.used() < L::CAP
    }
    fn add(&mut self, x: u32, back: bool, cx: &mut Ctx) {
        let s = self.slot();
        if L::FIXED && !s {
            cx.mark("overflowed the in-place storage")
        }
        if back {
            self.m.push_back((x, s))
        } else {
            self.m.push_front((x, s))
        }
    }
}

fn check<L: LL>(s: &mut St<L>, cx: &mut Ctx, deep: bool) -> R {
    let m = s.vals();
    let n = m.len();
    let l = s.l();
    must!(cx, Class::Model, l.lens() == [n, n], "length {:?} where {n} elements are expected", l.lens());
    chk!(cx, Class::Model, l.empties() == [n == 0, n == 0], "emptiness {:?} at length {n}", l.empties());
    must!(cx, Class::Model, l.front().map(|x| x.v()) == m.first().copied(), "front() is {:?}, expected {:?}", l.front().map(|x| x.v()), m.first());
    must!(cx, Class::Model, l.back().map(|x| x.v()) == m.last().copied(), "back() is {:?}, expected {:?}", l.back().map(|x| x.v()), m.last());
    let mut i = 0;
    {
        let mut it = l.iter();
        if deep {
            loop {
                let (lo, hi) = it.size_hint();
                chk!(cx, Class::Model, lo == n - i && hi == Some(n - i), "size hint {:?} with {} elements left", (lo, hi), n - i);
                let Some(x) = it.next() else { break };
                must!(cx, Class::Model, i < n, "iteration yields more than {n} elements");
                must!(cx, Class::Model, x.v() == m[i], "element {i} is {}, expected {}", x.v(), m[i]);
                i += 1;
            }
            must!(cx, Class::Model, it.next().is_none(), "an exhausted iterator yields an element");
        } else {
            for x in it {
                must!(cx, Class::Model, i < n, "iteration yields more than {n} elements");
                must!(cx, Class::Model, x.v() == m[i], "element {i} is {}, expected {}", x.v(), m[i]);
                i += 1;
            }
        }
    }
    must!(cx, Class::Model, i == n, "iteration yields {i} of {n} elements");
    links(s, cx)?;
    cx.poll()
}
/// links in both directions, node memory, in-place storage
fn links<L: LL>(s: &mut St<L>, cx: &mut Ctx) -> R {
    let n = s.m.len();
    let lc = if cx.on(Class::Layout) { Class::Layout } else { Class::Model };
    let want = s.m.clone();
    let tag = s.tag;
    let (lo, hi) = (s.place.ptr() as usize, s.place.ptr() as usize + size_of::<L>());
    let over = s.place.overrun(s.fill);
    chk!(cx, Class::Alloc, !over, "memory around the object was overwritten");
    chk!(cx, Class::Fixed, !over, "memory around the object was overwritten");
    let r = s.raw();
    must!(cx, Class::Layout, r.size as usize == n, "recorded size is {}, expected {n}", r.size);
    let head = &mut r.node as *mut Base;
    let mut p = r.node.next;
    let mut addrs: Vec<usize> = vec![];
    unsafe {
        for i in 0..=n {
            if p == head {
                must!(cx, lc, i == n, "following next links returns to the sentinel after {i} of {n} nodes");
                break;
            }
            must!(cx, lc, i < n, "following next links visits more than {n} nodes");
            let a = p as usize;
            let inside = a >= lo && a < hi;
            let blk = if inside { None } else { heap(|h| h.at(a)) };
            if !inside {
                match blk {
                    None => {
                        chk!(cx, Class::Layout, false, "node {i} lives in no block of the allocator");
                        chk!(cx, Class::Fixed, false, "node {i} lives in no block of the allocator");
                        chk!(cx, Class::Alloc, false, "node {i} lives in no block of the allocator");
                    }
                    Some(b) => {
                        chk!(cx, Class::Alloc, b.tag == tag, "node {i} came from allocator #{}, expected #{tag}", b.tag);
                        chk!(cx, Class::Layout, b.size == size_of::<Node<L::T>>() && b.align == align_of::<Node<L::T>>(), "node {i} is a block of {} bytes aligned to {}, expected {}", b.size, b.align, size_of::<Node<L::T>>());
                    }
                }
            }
            chk!(cx, Class::Fixed, inside == want[i].1, "element {i} of {n} is {} (capacity in place {})", if inside { "in place although all slots should be taken" } else { "in an overflow block although an in-place slot is free" }, L::CAP);
            chk!(cx, Class::Fixed, a % align_of::<Node<L::T>>() == 0, "node {i} at {a:#x} is misaligned");
            if inside {
                chk!(cx, Class::Fixed, a + size_of::<Node<L::T>>() <= hi && a >= lo + POOL_AT + 24, "in-place node {i} reaches outside the in-place storage");
                addrs.push(a);
            }
            let g = (*(p as *mut Node<L::T>)).value.v();
            must!(cx, lc, g == want[i].0, "node {i} holds {g}, expected {}", want[i].0);
            p = (*p).next;
        }
        let mut p = (*head).prev;
        for i in 0..=n {
            if p == head {
                must!(cx, lc, i == n, "following prev links returns to the sentinel after {i} of {n} nodes");
                break;
            }
            must!(cx, lc, i < n, "following prev links visits more than {n} nodes");
            let g = (*(p as *mut Node<L::T>)).value.v();
            must!(cx, lc, g == want[n - 1 - i].0, "backwards: node {} holds {g}, expected {}", n - 1 - i, want[n - 1 - i].0);
            p = (*p).prev;
        }
    }
    addrs.sort();
    for w in addrs.windows(2) {
        chk!(cx, Class::Fixed, w[1] - w[0] >= size_of::<Node<L::T>>(), "two in-place nodes overlap");
    }
    chk!(cx, Class::Fixed, !L::FIXED || addrs.len() <= L::CAP, "more than {} nodes in place", L::CAP);
    if L::FIXED && cx.on(Class::Layout) {
        // head, next, capacity of the pool; pool begin after the allocator
        let pool = unsafe { &*((lo + POOL_AT) as *const RawPool) };
        let (nx, cp) = (pool.next as usize, pool.cap as usize);
        let sz = size_of::<Node<L::T>>();
        must!(cx, Class::Layout, nx >= lo && cp <= hi && nx <= cp && (cp - nx) % sz == 0, "pool pointers {nx:#x}..{cp:#x} are outside the object {lo:#x}..{hi:#x}");
        let mut free = (cp - nx) / sz;
        let mut q = pool.head as usize;
        while q != 0 {
            must!(cx, Class::Layout, q >= lo && q < hi && free <= L::CAP && q % 8 == 0 && !addrs.contains(&q), "broken free list of the pool");
            free += 1;
            q = unsafe { *(q as *const usize) };
        }
        must!(cx, Class::Layout, free + addrs.len() == L::CAP, "the pool shows {free} free slots with {} of {} taken", addrs.len(), L::CAP);
        if L::A::NAME == "ta" {
            let pb = unsafe { *((lo + POOL_AT + 32) as *const usize) };
            chk!(cx, Class::Layout, pb >= lo && pb <= nx, "pool begin {pb:#x} is not at the in-place storage");
            chk!(cx, Class::Layout, unsafe { *((lo + POOL_AT + 24) as *const u8) } as u32 == tag, "the overflow allocator is not where C++ expects it");
        }
    } else if !L::FIXED && L::A::NAME == "ta" {
        chk!(cx, Class::Layout, size_of::<L>() == 24 && unsafe { *((lo + 20) as *const u8) } as u32 == tag, "the allocator byte is not at offset 20");
    }
    Ok(())
}

fn renew<L: LL>(s: &mut St<L>, kind: u32, tag: u32, cx: &mut Ctx) -> R {
    cx.note(|| format!("drop and construct kind {}", kind % 2));
    s.m.clear();
    if s.alive {
        s.alive = false;
        unsafe { std::ptr::drop_in_place(s.place.ptr()) };
    }
    s.place.fill(s.fill);
    s.tag = unsafe { L::construct(s.place.ptr(), kind, tag) };
    s.alive = true;
    Ok(())
}

fn node_at<L: LL>(s: &mut St<L>, i: usize) -> *mut Base {
    let r = s.raw();
    let mut p = r.node.next;
    for _ in 0..i {
        p = unsafe { (*p).next };
    }
    p
}

fn op<L: LL>(s: &mut St<L>, o: &[u32; 4], fr: &mut Fresh, added: &mut Vec<u32>, cx: &mut Ctx) -> R {
    let [code, a, b, c] = *o;
    let n = s.m.len();
    match code {
        0 | 1 => {
            let x = fr.next::<L::T>(c);
            added.push(x);
            cx.note(|| format!("push {x} at the {}", if code == 0 { "back" } else { "front" }));
            if code == 0 {
                s.l().push_back(L::T::mk(x))
            } else {
                s.l().push_front(L::T::mk(x))
            }
            s.add(x, code == 0, cx);
        }
        2 | 3 => {
            cx.note(|| format!("pop at the {}", if code == 2 { "back" } else { "front" }));
            let (g, w) = if code == 2 { (s.l().pop_back().map(|x| x.v()), s.m.pop_back()) } else { (s.l().pop_front().map(|x| x.v()), s.m.pop_front()) };
            must!(cx, Class::Model, g == w.map(|x| x.0), "pop gave {g:?}, expected {:?}", w.map(|x| x.0));
            match w {
                None => cx.mark("pop on empty"),
                Some((_, inp)) if L::FIXED && inp && n > L::CAP => cx.mark("freed an in-place slot while overflowed"),
                _ => {
                    if n > 2 {
                        cx.mark("pop with elements left")
                    }
                }
            }
        }
        4 => {
            cx.note(|| "clear".into());
            s.l().clear();
            if n > 0 {
                cx.mark("clear")
            }
            s.m.clear();
        }
        5 | 15 => {
            let k = a as usize % 14;
            let xs: Vec<u32> = (0..k).map(|_| fr.next::<L::T>(c)).collect();
            cx.note(|| format!("extend {}", show(&xs)));
            added.extend(&xs);
            if code == 5 {
                let buf: Vec<L::T> = xs.iter().map(|&x| L::T::mk(x)).collect();
                let mut src = Src { it: buf.into_iter(), lower: b as usize % 3 };
                s.l().extend(&mut src);
            } else {
                s.l().extend_ref(&xs);
            }
            for x in xs {
                s.add(x, true, cx);
            }
        }
        6 => {
            let x = fr.next::<L::T>(c);
            let front = b % 2 == 0;
            let r = if front { s.l().front_mut() } else { s.l().back_mut() };
            must!(cx, Class::Model, r.is_some() == (n > 0), "front_mut/back_mut at length {n} is wrong");
            if let Some(r) = r {
                cx.note(|| format!("set the {} to {x}", if front { "front" } else { "back" }));
                if a % 2 == 0 {
                    refit(r, L::T::mk(x))
                } else {
                    r.set(x)
                }
                (if front { s.m.front_mut() } else { s.m.back_mut() }).unwrap().0 = x;
            }
        }
        7 => {
            cx.note(|| "mutate through the iterator".into());
            let m0 = s.m.clone();
            let mut i = 0;
            let mut ch = vec![];
            {
                let mut it = s.l().iter_mut();
                loop {
                    let h = it.size_hint();
                    chk!(cx, Class::Model, h == (n - i, Some(n - i)), "size hint {h:?} of iter_mut with {} elements left", n - i);
                    let Some(x) = it.next() else { break };
                    must!(cx, Class::Model, i < n, "iter_mut yields more than {n} elements");
                    must!(cx, Class::Model, x.v() == m0[i].0, "iter_mut: element {i} is {}, expected {}", x.v(), m0[i].0);
                    if (i as u32 + a) % 3 == 0 {
                        let y = fr.next::<L::T>(c);
                        x.set(y);
                        ch.push((i, y));
                    }
                    i += 1;
                }
            }
            must!(cx, Class::Model, i == n, "iter_mut yields {i} of {n} elements");
            for (i, y) in ch {
                s.m[i].0 = y
            }
        }
        8 if b % 8 < 5 => {
            let w = s.vals();
            s.l().proto(&w, b >> 3, c, cx)?;
        }
        8 => {
            let k = a as usize % (n + 1);
            let g: Vec<u32> = s.l().iter().skip(k).take(b as usize % 5).map(|x| x.v()).collect();
            let w: Vec<u32> = s.vals().into_iter().skip(k).take(b as usize % 5).collect();
            must!(cx, Class::Model, g == w, "elements from {k} are {}, expected {}", show(&g), show(&w));
        }
        9 => {
            if L::T::NAME != "u32x3" {
                let g = s.l().dbg();
                let w = format!("{:?}", s.vals());
                must!(cx, Class::Model, g == w, "rendered as {g}, expected {w}");
            }
        }
        10 => renew(s, b, 2 + c % 6, cx)?,
        11 => {
            let k = 1 + a as usize % (n + 1);
            cx.note(|| format!("drain {k}"));
            for j in 0..k {
                let back = c.rotate_right(j as u32) & 1 == 1;
                let (g, w) = if back { (s.l().pop_back().map(|x| x.v()), s.m.pop_back()) } else { (s.l().pop_front().map(|x| x.v()), s.m.pop_front()) };
                must!(cx, Class::Model, g == w.map(|x| x.0), "pop gave {g:?}, expected {:?}", w.map(|x| x.0));
            }
        }
        12 => {
            // C++ insert before position i
            let i = a as usize % (n + 1);
            let x = fr.next::<L::T>(c);
            cx.foreign = true;
            cx.note(|| format!("C++ inserts {x} at {i}"));
            cx.mark("foreign code linked a node");
            let slot = s.slot();
            let lo = s.place.ptr() as usize;
            let at = node_at(s, i);
            unsafe {
                let node: *mut Node<L::T> = if slot {
                    let pool = &mut *((lo + POOL_AT) as *mut RawPool);
                    if !pool.head.is_null() {
                        let p = pool.head;
                        pool.head = *p as *mut *mut u8;
                        p as *mut Node<L::T>
                    } else {
                        let p = pool.next;
                        must!(cx, Class::Layout, p != pool.cap, "C++ finds no free slot in the pool, expected one");
                        pool.next = p.add(size_of::<Node<L::T>>());
                        p as *mut Node<L::T>
                    }
                } else {
                    L::A::mk(s.tag).allocate::<Node<L::T>>(1)
                };
                std::ptr::addr_of_mut!((*node).value).write(L::T::mk(x));
                let b = node as *mut Base;
                (*b).next = at;
                (*b).prev = (*at).prev;
                (*(*at).prev).next = b;
                (*at).prev = b;
            }
            s.raw().size += 1;
            s.m.insert(i, (x, slot));
        }
        13 => {
            if n > 0 {
                let i = a as usize % n;
                cx.foreign = true;
                cx.note(|| format!("C++ erases {i}"));
                cx.mark("foreign code unlinked a node");
                let p = node_at(s, i);
                let lo = s.place.ptr() as usize;
                let inside = s.place.contains(p as usize);
                let w = s.m.remove(i).unwrap();
                unsafe {
                    (*(*p).prev).next = (*p).next;
                    (*(*p).next).prev = (*p).prev;
                    let x = std::ptr::read(&(*(p as *mut Node<L::T>)).value);
                    must!(cx, Class::Layout, x.v() == w.0, "C++ sees {} at {i}, expected {}", x.v(), w.0);
                    if inside {
                        let pool = &mut *((lo + POOL_AT) as *mut RawPool);
                        *(p as *mut *mut *mut u8) = pool.head;
                        pool.head = p as *mut *mut u8;
                    } else {
                        L::A::mk(s.tag).deallocate::<Node<L::T>>(p as *mut Node<L::T>, 1);
                    }
                }
                s.raw().size -= 1;
            }
        }
        14 => {
            cx.foreign = true;
            cx.note(|| "C++ reverses the list".into());
            let r = s.raw();
            let head = &mut r.node as *mut Base;
            let mut p = head;
            loop {
                unsafe {
                    let nx = (*p).next;
                    std::mem::swap(&mut (*p).next, &mut (*p).prev);
                    p = nx;
                }
                if p == head {
                    break;
                }
            }
            let v: Vec<_> = s.m.iter().rev().copied().collect();
            s.m = v.into();
            cx.mark("foreign code relinked the list");
        }
        _ => {}
    }
    Ok(())
}
use eastl_rs::Allocator;

fn run<L: LL>(case: &Case, cx: &mut Ctx) -> R {
    let mut fr = Fresh(case.c(2));
    let fill = [0xCDu8, 0xFF, 0, 0x5A][case.c(3) as usize % 4];
    let mut s: St<L> = St { place: Place::new(fill), alive: false, m: VecDeque::new(), tag: 0, fill };
    renew(&mut s, case.c(4), 3, cx)?;
    check(&mut s, cx, true)?;
    let mut arm = None;
    let mut stay = still::Stay::default();
    for (step, o) in case.ops.iter().enumerate() {
        cx.step = step;
        cx.ops_done += 1;
        budget(2_000_000);
        let [code, a, b, c] = *o;
        let code = code % 17;
        if code == FAULT {
            arm = Some((a, b));
            continue;
        }
        let o = &[code, a, b, c];
        let mut added = vec![];
        let before = s.vals();
        let hit = {
            let (s, fr, added) = (&mut s, &mut fr, &mut added);
            guarded(&mut arm, cx, move |cx| op(s, o, fr, added, cx))?
        };
        if hit && !s.alive {
            s.place.fill(s.fill);
            s.tag = unsafe { L::construct(s.place.ptr(), b, 2 + c % 6) };
            s.alive = true;
        }
        if hit {
            let limit = before.len() + added.len() + 1;
            let got: Vec<u32> = s.l().iter().take(limit).map(|x| x.v()).collect();
            let all: Vec<u32> = before.iter().chain(&added).copied().collect();
            must!(cx, Class::Fault, sub_multiset(&got, &all), "after a panic the list holds {}, which was neither in it nor being added", show(&got));
            refused(cx, OPS[code as usize], got == before, || show(&got))?;
            let mut m = VecDeque::new();
            let mut p = s.raw().node.next;
            for g in got {
                let inside = s.place.contains(p as usize);
                m.push_back((g, inside));
                p = unsafe { (*p).next };
            }
            s.m = m;
        }
        check(&mut s, cx, step % 3 == 0)?;
        // (the links of a fixed list's nodes lie in the object)
        let l: &L = unsafe { &*s.place.ptr() };
        if cx.on(Class::Addr) {
            stay.see(l.iter().map(|x| (x.ident(), x as *const L::T as usize)).collect(), code == 10, OPS[code as usize], cx)?;
        }
        still::shared(cx, &[still::span(l)], a ^ c, |cx| {
            let m = s.vals();
            let n = m.len();
            must!(cx, Class::Model, l.lens() == [n, n] && l.empties() == [n == 0, n == 0], "length {:?} where {n} elements are expected", l.lens());
            must!(cx, Class::Model, l.front().map(|x| x.v()) == m.first().copied() && l.back().map(|x| x.v()) == m.last().copied(), "front() or back() is wrong");
            must!(cx, Class::Model, l.iter().map(|x| x.v()).eq(m.iter().copied()), "iteration is wrong");
            l.dbg();
            l.rproto(&m, a ^ c, cx)
        })?;
    }
    cx.step = case.ops.len();
    cx.note(|| "drop".into());
    drop(s);
    if cx.leak_ok {
        // (a panic may leak, it may not corrupt)
    }
    if false {
        fail!(cx, Class::Model, "")
    }
    cx.poll()
}

pub fn subjects(out: &mut Vec<Subject>) {
    macro_rules! s {
        ($($t:ty, $a:ty);* $(;)?) => {$(
            out.push(Subject { name: format!("list/{}/{}", <$t as Elem>::NAME, <$a as HAlloc>::NAME), gen, run: run::<List<$t, $a>>, ops: OPS });
        )*};
    }
    s! { u32, TA; u8, TA; T4, TA; T<0>, DA; T<16>, FA; A64, TA; A16, DA; B7, TA; }
    macro_rules! f {
        ($($t:ty, $n:literal, $a:ty);* $(;)?) => {$(
            out.push(Subject { name: format!("flist/{}/{}/{}", <$t as Elem>::NAME, <$a as HAlloc>::NAME, $n), gen, run: run::<FixedList<$t, $n, $a>>, ops: OPS });
        )*};
    }
    f! { u32, 5, TA; T4, 1, TA; T<0>, 2, TA; T<0>, 16, FA; T<16>, 8, DA; B7, 3, TA; A64, 3, TA; A16, 6, TA; }
    #[cfg(feature = "nightly")]
    {
        macro_rules! g {
            ($($t:ty, $n:literal, $a:ty);* $(;)?) => {$(
                out.push(Subject { name: format!("cflist/{}/{}/{}", <$t as Elem>::NAME, <$a as HAlloc>::NAME, $n), gen, run: run::<eastl_rs::fixed_list::conformant::FixedList<$t, $n, $a>>, ops: OPS });
            )*};
        }
        g! { u32, 5, TA; T4, 1, TA; T<0>, 4, FA; T<16>, 8, DA; B7, 3, TA; T<0>, 2, TA; A64, 3, TA; A16, 4, TA; }
    }
}
