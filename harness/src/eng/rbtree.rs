//! Map, Set and the fixed maps over search trees built by foreign code.
use super::list::Place;
use super::vecmap::{set_order, DynC, Ord2};
use super::vector::Fresh;
use super::*;
use crate::env::*;
use crate::{chk, must};
use eastl_rs::fixed_map::{FixedMap, FixedMapWithOverflow};
use eastl_rs::{Allocator, Greater, Less, Map, Set};
use moveit::New;
use std::mem::{align_of, size_of, MaybeUninit};
use std::pin::Pin;

pub const OPS: &[&str] = &[
    "cpp_insert", "cpp_erase", "cpp_fill", "cpp_relink", "get", "get_mut", "contains", "iterate", "iterate_mut", "partial",
    "debug", "clear", "rebuild", "cpp_write", "fault",
];
const FAULT: u32 = 14;
const W: [u32; 15] = [14, 5, 3, 3, 8, 6, 3, 3, 4, 3, 1, 2, 1, 2, 0];

/// rbtree_node as C++ lays it out; the colour is the lowest bit of `parent`
#[repr(C)]
pub struct RNode<P> {
    right: *mut RNode<P>,
    left: *mut RNode<P>,
    parent: usize,
    pair: P,
}
#[repr(C)]
struct RTree<P> {
    compare: u8,
    begin: *mut RNode<P>,
    end: *mut RNode<P>,
    root: *mut RNode<P>,
    size: u32,
}
#[repr(C)]
struct RPool {
    head: *mut *mut u8,
    next: *mut u8,
    cap: *mut u8,
}
const POOL_AT: usize = 40;

/// what the engine needs of a tree container
pub trait Tree: Sized {
    type K: Elem;
    type P;
    type A: HAlloc;
    type C: Ord2<Self::K>;
    const CAP: usize;
    const POOL: bool;
    const OVER: bool;
    const SET: bool;
    /// returns the tag of the allocator in use
    unsafe fn construct(at: *mut Self, kind: u32, tag: u32) -> u32;
    fn pair(k: u32, v: u32) -> Self::P;
    fn kv(p: &Self::P) -> (u32, u32);
    fn set_v(p: &mut Self::P, v: u32);
    fn get(&self, k: &Self::K) -> Option<u32>;
    fn put(&mut self, k: &Self::K, v: u32) -> Option<u32>;
    fn contains(&self, k: &Self::K) -> bool;
    fn len(&self) -> usize;
    fn empty(&self) -> bool;
    fn clear(&mut self);
    fn items(&self, limit: usize) -> Vec<(u32, u32)>;
    fn proto(&mut self, want: &[(u32, u32)], which: u32, seed: u32, cx: &mut Ctx) -> R;
    fn each_mut(&mut self, limit: usize, f: &mut dyn FnMut(u32, u32) -> Option<u32>);
    fn dbg(&self) -> Option<String>;
    fn normv(v: u32) -> u32;
    fn vdbg(v: u32) -> String;
    fn objsize() -> usize {
        size_of::<Self>()
    }
}
unsafe fn build<L, N: New<Output = L>>(at: *mut L, n: N) {
    n.new(Pin::new_unchecked(&mut *(at as *mut MaybeUninit<L>)))
}
macro_rules! mapbody {
    () => {
        type P = (K, V);
        fn pair(k: u32, v: u32) -> (K, V) {
            (K::mk(k), V::mk(v))
        }
        fn kv(p: &(K, V)) -> (u32, u32) {
            (p.0.v(), p.1.v())
        }
        fn set_v(p: &mut (K, V), v: u32) {
            p.1.set(v)
        }
        fn get(&self, k: &K) -> Option<u32> {
            Map::get(self, k).map(|v| v.v())
        }
        fn put(&mut self, k: &K, v: u32) -> Option<u32> {
            Map::get_mut(self, k).map(|x| {
                let o = x.v();
                x.set(v);
                o
            })
        }
        fn contains(&self, k: &K) -> bool {
            Map::contains_key(self, k)
        }
        fn len(&self) -> usize {
            Map::len(self)
        }
        fn empty(&self) -> bool {
            Map::is_empty(self)
        }
        fn clear(&mut self) {
            Map::clear(self)
        }
        fn items(&self, limit: usize) -> Vec<(u32, u32)> {
            unsafe { Map::iter(self) }.take(limit).map(|(k, v)| (k.v(), v.v())).collect()
        }
        fn each_mut(&mut self, limit: usize, f: &mut dyn FnMut(u32, u32) -> Option<u32>) {
            for (k, v) in unsafe { Map::iter_mut(self) }.take(limit) {
                if let Some(n) = f(k.v(), v.v()) {
                    v.set(n)
                }
            }
        }
        fn proto(&mut self, want: &[(u32, u32)], which: u32, seed: u32, cx: &mut Ctx) -> R {
            if which % 2 == 0 {
                proto::fwd(unsafe { Map::iter(self) }, want, seed, false, cx, Class::Model, |(k, v)| (k.v(), v.v()))
            } else {
                proto::fwd(unsafe { Map::iter_mut(self) }, want, seed, false, cx, Class::Model, |(k, v)| (k.v(), v.v()))
            }
        }
        fn normv(v: u32) -> u32 {
            V::norm(v)
        }
        fn vdbg(v: u32) -> String {
            format!("{:?}", V::mk(v))
        }
    };
}
impl<K: Elem, V: Elem, A: HAlloc, C: Ord2<K>> Tree for Map<K, V, A, C> {
    type K = K;
    type A = A;
    type C = C;
    const CAP: usize = 0;
    const POOL: bool = false;
    const OVER: bool = true;
    const SET: bool = false;
    unsafe fn construct(at: *mut Self, kind: u32, tag: u32) -> u32 {
        match kind % 3 {
            0 => {
                at.write(Map::with_allocator(A::mk(tag)));
                A::mk(tag).tag()
            }
            1 => {
                at.write(Map::with_compare(C::default()));
                A::DEFTAG
            }
            _ => {
                at.write(Map::with_allocator_and_compare(A::mk(tag), C::default()));
                A::mk(tag).tag()
            }
        }
    }
    mapbody!();
    fn dbg(&self) -> Option<String> {
        Some(format!("{:?}", self))
    }
}
impl<K: Elem, A: HAlloc, C: Ord2<K>> Tree for Set<K, A, C> {
    type K = K;
    type P = (K, ());
    type A = A;
    type C = C;
    const CAP: usize = 0;
    const POOL: bool = false;
    const OVER: bool = true;
    const SET: bool = true;
    unsafe fn construct(at: *mut Self, kind: u32, tag: u32) -> u32 {
        match kind % 3 {
            0 => {
                at.write(Set::with_allocator(A::mk(tag)));
                A::mk(tag).tag()
            }
            1 => {
                at.write(Set::with_compare(C::default()));
                A::DEFTAG
            }
            _ => {
                at.write(Set::with_allocator_and_compare(A::mk(tag), C::default()));
                A::mk(tag).tag()
            }
        }
    }
    fn pair(k: u32, _: u32) -> (K, ()) {
        (K::mk(k), ())
    }
    fn kv(p: &(K, ())) -> (u32, u32) {
        (p.0.v(), 0)
    }
    fn set_v(_: &mut (K, ()), _: u32) {}
    fn get(&self, k: &K) -> Option<u32> {
        if Set::contains_key(self, k) {
            Some(0)
        } else {
            None
        }
    }
    fn put(&mut self, k: &K, _: u32) -> Option<u32> {
        Tree::get(self, k)
    }
    fn contains(&self, k: &K) -> bool {
        Set::contains_key(self, k)
    }
    fn len(&self) -> usize {
        Set::len(self)
    }
    fn empty(&self) -> bool {
        Set::is_empty(self)
    }
    fn clear(&mut self) {
        Set::clear(self)
    }
    fn items(&self, limit: usize) -> Vec<(u32, u32)> {
        unsafe { Set::iter(self) }.take(limit).map(|k| (k.v(), 0)).collect()
    }
    fn proto(&mut self, want: &[(u32, u32)], _: u32, seed: u32, cx: &mut Ctx) -> R {
        proto::fwd(unsafe { Set::iter(self) }, want, seed, false, cx, Class::Model, |k| (k.v(), 0))
    }
    fn each_mut(&mut self, limit: usize, f: &mut dyn FnMut(u32, u32) -> Option<u32>) {
        for (k, v) in self.items(limit) {
            f(k, v);
        }
    }
    fn dbg(&self) -> Option<String> {
        None
    }
    fn normv(_: u32) -> u32 {
        0
    }
    fn vdbg(_: u32) -> String {
        String::new()
    }
}
impl<K: Elem, V: Elem, const N: usize, C: Ord2<K>> Tree for FixedMap<K, V, N, C> {
    type K = K;
    type A = TA;
    type C = C;
    const CAP: usize = N;
    const POOL: bool = true;
    const OVER: bool = false;
    const SET: bool = false;
    unsafe fn construct(at: *mut Self, _: u32, _: u32) -> u32 {
        build(at, Self::new());
        0
    }
    mapbody!();
    fn dbg(&self) -> Option<String> {
        Some(format!("{:?}", &**self))
    }
}
/// with an overflow allocator (a newtype only because two impls of one alias would overlap)
#[repr(transparent)]
pub struct FixedOver<K: Elem, V: Elem, const N: usize, A: HAlloc, C: Ord2<K>>(FixedMapWithOverflow<K, V, N, A, C>);
impl<K: Elem, V: Elem, const N: usize, A: HAlloc, C: Ord2<K>> std::ops::Deref for FixedOver<K, V, N, A, C> {
    type Target = FixedMapWithOverflow<K, V, N, A, C>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<K: Elem, V: Elem, const N: usize, A: HAlloc, C: Ord2<K>> std::ops::DerefMut for FixedOver<K, V, N, A, C> {
    fn deref_mut(&mut self) -> &mut Self::Target {
        &mut self.0
    }
}
impl<K: Elem, V: Elem, const N: usize, A: HAlloc, C: Ord2<K>> Tree for FixedOver<K, V, N, A, C> {
    type K = K;
    type A = A;
    type C = C;
    const CAP: usize = N;
    const POOL: bool = true;
    const OVER: bool = true;
    const SET: bool = false;
    unsafe fn construct(at: *mut Self, _: u32, _: u32) -> u32 {
        build(at as *mut FixedMapWithOverflow<K, V, N, A, C>, FixedMapWithOverflow::<K, V, N, A, C>::new());
        A::DEFTAG
    }
    mapbody!();
    fn dbg(&self) -> Option<String> {
        Some(format!("{:?}", &**self.deref_fixed()))
    }
}
impl<K: Elem, V: Elem, const N: usize, A: HAlloc, C: Ord2<K>> FixedOver<K, V, N, A, C> {
    fn deref_fixed(&self) -> &FixedMapWithOverflow<K, V, N, A, C> {
        &self.0
    }
}

fn gen(r: &mut Rng, size: u32, flags: u32) -> Case {
    let mut ops = OpGen { weights: &W }.gen(r, if size > 1 { 100 } else { 40 });
    if r.chance(2, 3) {
        let n = *r.pick(&[1u32, 2, 3, 5, 8, 17, 40, 120]);
        ops.insert(0, [2, n, r.r32(), r.r32()]);
    }
    if r.chance(1, if size > 1 { 60 } else { 250 }) {
        // thousands of nodes
        ops.truncate(12);
        ops.insert(0, [2, 1000 + r.u(3000), 0xB16, r.r32()]);
    }
    if flags & FL_FAULT != 0 {
        sprinkle_faults(r, &mut ops, FAULT, flags);
    }
    // memory filling, reuse, value base, ordering, shape, key universe, constructor, tag
    Case { subject: String::new(), cfg: vec![r.u(5), r.u(3), r.u(1000), r.u(10), r.u(8), r.u(4), r.u(3), 2 + r.u(8)], ops }
}

struct Ent<P> {
    k: u32,
    v: u32,
    at: *mut RNode<P>,
    inplace: bool,
}
struct St<L: Tree> {
    place: Place<L>,
    alive: bool,
    m: Vec<Ent<L::P>>, // ascending
    tag: u32,
    fill: u8,
    shape: u32,
    seed: u64,
    /// a destructor panicked: nodes may be lost
    leak: bool,
}
impl<L: Tree> Drop for St<L> {
    fn drop(&mut self) {
        if self.alive {
            self.alive = false;
            unsafe { std::ptr::drop_in_place(self.place.ptr()) }
        }
    }
}
impl<L: Tree> St<L> {
    fn l(&mut self) -> &mut L {
        unsafe { &mut *self.place.ptr() }
    }
    fn raw(&self) -> &mut RTree<L::P> {
        unsafe { &mut *(self.place.ptr() as *mut RTree<L::P>) }
    }
    fn pool(&self) -> &mut RPool {
        unsafe { &mut *((self.place.ptr() as usize + POOL_AT) as *mut RPool) }
    }
    fn anchor(&self) -> usize {
        self.place.ptr() as usize + 8
    }
    fn pos(&self, k: u32) -> Result<usize, usize> {
        self.m.binary_search_by(|e| L::C::rank(e.k).cmp(&L::C::rank(k)))
    }
    fn pairs(&self) -> Vec<(u32, u32)> {
        self.m.iter().map(|e| (e.k, e.v)).collect()
    }
    fn used(&self) -> usize {
        self.m.iter().filter(|e| e.inplace).count()
    }
    /// foreign allocation of a node
    fn node(&self, cx: &mut Ctx) -> R<Option<(*mut RNode<L::P>, bool)>> {
        if L::POOL {
            let pool = self.pool();
            if !pool.head.is_null() {
                let p = pool.head;
                unsafe { pool.head = *p as *mut *mut u8 };
                cx.label("a released in-place node was taken again");
                return Ok(Some((p as *mut RNode<L::P>, true)));
            }
            if pool.next != pool.cap {
                let p = pool.next;
                pool.next = unsafe { p.add(size_of::<RNode<L::P>>()) };
                return Ok(Some((p as *mut RNode<L::P>, true)));
            }
            must!(cx, Class::Fixed, self.used() == L::CAP, "the pool is exhausted with {} of {} nodes taken", self.used(), L::CAP);
            if !L::OVER {
                return Ok(None);
            }
            cx.mark("foreign code overflowed the in-place nodes");
        }
        Ok(Some((L::A::mk(self.tag).allocate::<RNode<L::P>>(1), false)))
    }
    fn insert(&mut self, k: u32, v: u32, cx: &mut Ctx) -> R<bool> {
        let Err(i) = self.pos(k) else { return Ok(false) };
        let Some((at, inplace)) = self.node(cx)? else { return Ok(false) };
        unsafe {
            std::ptr::write(at, RNode { right: std::ptr::null_mut(), left: std::ptr::null_mut(), parent: 0, pair: L::pair(k, v) });
        }
        self.m.insert(i, Ent { k, v, at, inplace });
        Ok(true)
    }
    fn erase(&mut self, i: usize) {
        let e = self.m.remove(i);
        unsafe {
            std::ptr::drop_in_place(&mut (*e.at).pair);
            if e.inplace {
                let pool = self.pool();
                *(e.at as *mut *mut *mut u8) = pool.head;
                pool.head = e.at as *mut *mut u8;
            } else {
                L::A::mk(self.tag).deallocate(e.at, 1);
            }
        }
    }
    /// a lookup made `cmp` comparisons
    fn cost(&self, cmp: u64, cx: &mut Ctx) -> R {
        if !cx.on(Class::Cost) {
            return Ok(());
        }
        let anchor = self.anchor();
        let mut depth = 0;
        for e in &self.m {
            let (mut d, mut at) = (0, e.at as usize);
            while at != anchor {
                d += 1;
                at = unsafe { (*(at as *const RNode<L::P>)).parent } & !1;
            }
            depth = depth.max(d);
        }
        let may = 4 * depth + 8;
        if depth > 3 {
            cx.mark("lookup in a tree of several levels")
        }
        must!(cx, Class::Cost, cmp <= may, "a lookup in a tree of {depth} levels made {cmp} comparisons, {may} are allowed");
        Ok(())
    }
    /// links all nodes into a search tree of the chosen shape
    fn relink(&mut self) {
        let anchor = self.anchor();
        let (n, shape) = (self.m.len(), self.shape % 8);
        let mut r = Rng(self.seed);
        self.seed = r.next();
        // (lo, hi, parent, is_left, depth)
        let mut work = vec![(0usize, n, anchor, false, 0u32)];
        let mut root = std::ptr::null_mut();
        while let Some((lo, hi, par, left, depth)) = work.pop() {
            let w = hi - lo;
            let at = if w == 0 {
                std::ptr::null_mut()
            } else {
                let mid = lo
                    + match shape {
                        // a chain of thousands cannot be a red-black tree: bounded depth
                        _ if depth > 40 && w > 8 => w / 2,
                        0 => w / 2,
                        1 => 0,
                        2 => w - 1,
                        3 => if depth % 2 == 0 { 0 } else { w - 1 },
                        4 => w / 3,
                        5 => w * 3 / 4,
                        _ => r.below(w as u64) as usize,
                    };
                let e = &self.m[mid];
                work.push((lo, mid, e.at as usize, true, depth + 1));
                work.push((mid + 1, hi, e.at as usize, false, depth + 1));
                // the root is black, the rest alternate or are arbitrary
                let black = depth == 0 || if shape == 0 { depth % 2 == 0 } else { r.chance(1, 2) };
                unsafe { (*e.at).parent = par | black as usize };
                e.at
            };
            if par == anchor {
                root = at;
            } else {
                let p = par as *mut RNode<L::P>;
                unsafe {
                    if left {
                        (*p).left = at
                    } else {
                        (*p).right = at
                    }
                }
            }
        }
        let (f, l) = (self.m.first().map(|e| e.at), self.m.last().map(|e| e.at));
        let t = self.raw();
        t.root = root;
        t.begin = f.unwrap_or(anchor as *mut _);
        t.end = l.unwrap_or(anchor as *mut _);
        t.size = n as u32;
    }
}

fn show2(v: &[(u32, u32)]) -> String {
    if v.len() <= 16 {
        format!("{v:?}")
    } else {
        format!("{:?}...({} pairs)", &v[..16], v.len())
    }
}

fn check<L: Tree>(s: &mut St<L>, cx: &mut Ctx, deep: bool) -> R {
    let n = s.m.len();
    let m = Class::Model;
    must!(cx, m, s.l().len() == n, "length {}, expected {n}", s.l().len());
    chk!(cx, m, s.l().empty() == (n == 0), "is_empty() is wrong at length {n}");
    if deep || n < 64 {
        let want = s.pairs();
        let g = s.l().items(n + 3);
        must!(cx, m, g == want, "iteration yields {}, expected {}", show2(&g), show2(&want));
    }
    // raw view
    let (anchor, t) = (s.anchor(), s.raw());
    let y = Class::Layout;
    if n == 0 {
        let (b, e) = (t.begin as usize, t.end as usize);
        must!(cx, y, t.root.is_null() && t.size == 0 && (b == 0 || b == anchor) && (e == 0 || e == anchor), "C++ sees root {:?}, begin {b:#x}, end {e:#x}, size {} in an empty tree", t.root, t.size);
    } else {
        must!(cx, y, t.size as usize == n && t.begin == s.m[0].at && t.end == s.m[n - 1].at, "C++ sees size {} of {n}, or the wrong begin or end", t.size);
        if deep {
            let mut par = 0;
            for e in &s.m {
                unsafe {
                    let x = &*e.at;
                    must!(cx, y, L::kv(&x.pair) == (e.k, e.v), "C++ sees {:?}, expected {:?}", L::kv(&x.pair), (e.k, e.v));
                    if x.parent & !1 == anchor {
                        par += 1;
                        must!(cx, y, t.root == e.at, "the root is not the node below the anchor");
                    }
                }
            }
            must!(cx, y, par == 1, "{par} nodes below the anchor");
        }
    }
    if L::POOL {
        let (lo, hi) = (s.place.ptr() as usize, s.place.ptr() as usize + L::objsize());
        let sz = size_of::<RNode<L::P>>();
        let p = s.pool();
        let (nx, cp) = (p.next as usize, p.cap as usize);
        must!(cx, y, nx > lo && cp <= hi && nx <= cp && (cp - nx) % sz == 0, "pool pointers {nx:#x}..{cp:#x} are outside the object");
        let mut free = (cp - nx) / sz;
        let mut q = p.head as usize;
        let mut seen = std::collections::HashSet::new();
        while q != 0 {
            must!(cx, Class::Fixed, q > lo && q + sz <= hi && seen.insert(q) && free < L::CAP, "the free list of the pool holds {q:#x}, which is not one of its nodes");
            chk!(cx, Class::Fixed, !s.m.iter().any(|e| e.at as usize == q), "a node in use is on the free list");
            free += 1;
            q = unsafe { *(q as *const usize) };
        }
        must!(cx, Class::Fixed, free + s.used() == L::CAP || s.leak && free + s.used() < L::CAP, "{free} in-place nodes free and {} used of {}", s.used(), L::CAP);
        chk!(cx, Class::Fixed, nx % align_of::<RNode<L::P>>() == 0, "in-place nodes are misaligned");
        for e in s.m.iter().filter(|e| e.inplace) {
            chk!(cx, Class::Fixed, s.place.contains(e.at as usize) && s.place.contains(e.at as usize + sz - 1), "an in-place node lies outside the object");
        }
        if s.place.overrun(s.fill) {
            must!(cx, Class::Fixed, false, "memory outside of the object was written");
        }
    }
    if L::C::DYN {
        chk!(cx, y, s.raw().compare == 0x7E, "the ordering's byte is not at offset 0");
    }
    if !L::POOL && L::A::NAME == "ta" {
        let at = s.place.ptr() as *const u8;
        chk!(cx, y, size_of::<L>() == 40 && unsafe { *at.add(36) } as u32 == s.tag, "the allocator byte is not at offset 36");
    }
    cx.poll()
}

fn key<L: Tree>(s: &St<L>, uni: u32, a: u32) -> u32 {
    let k = match uni % 4 {
        0 => a % 24,
        1 => a % 300,
        2 => a.wrapping_mul(0x9E3779B1),
        _ => {
            if a % 3 == 0 && !s.m.is_empty() {
                s.m[(a / 3) as usize % s.m.len()].k.wrapping_add(a % 2)
            } else {
                a % 4000
            }
        }
    };
    <L::K as Elem>::norm(k)
}

fn run<L: Tree>(case: &Case, cx: &mut Ctx) -> R {
    set_order(case.c(3));
    let fill = [0xCD, 0x00, 0xFF, 0x5A, 0x01][case.c(0) as usize % 5];
    let place = Place::<L>::new(fill);
    let mut s = St { place, alive: false, m: vec![], tag: 0, fill, shape: case.c(4), seed: case.c(2) as u64, leak: false };
    s.tag = unsafe { L::construct(s.place.ptr(), case.c(6), case.c(7)) };
    s.alive = true;
    let uni = case.c(5);
    let mut fr = Fresh(case.c(2).wrapping_mul(7000));
    let mut arm = None;
    let r = (|| -> R {
        check(&mut s, cx, true)?;
        for (step, o) in case.ops.iter().enumerate() {
            cx.step = step;
            cx.ops_done += 1;
            budget(5_000_000);
            let [code, a, b, c] = *o;
            let code = code % 15;
            if code == FAULT {
                arm = Some((a, b));
                continue;
            }
            let before = if arm.is_some() && code == 11 { s.pairs() } else { vec![] };
            let hit = {
                let (s, fr) = (&mut s, &mut fr);
                guarded(&mut arm, cx, move |cx| one(s, [code, a, b, c], uni, fr, cx))?
            };
            // if a comparison panicked in a lookup, nothing may have changed
            if hit && matches!(code, 11 | 12) {
                cx.mark("a destructor panicked in a tree");
                cx.leak_ok = true;
                if !s.alive {
                    s.place.fill(s.fill);
                    s.tag = unsafe { L::construct(s.place.ptr(), a, 2 + b % 8) };
                    s.alive = true;
                    s.leak = !L::POOL;
                } else {
                    s.leak = true;
                    let got = s.l().items(before.len() + 1);
                    must!(cx, Class::Fault, s.l().len() == got.len() && got.iter().all(|e| before.contains(e)), "after a panic the tree of {} pairs holds {}, before {}", s.l().len(), show2(&got), show2(&before));
                    if !got.is_empty() {
                        return Ok(());
                    }
                }
            }
            check(&mut s, cx, (step + a as usize) % 4 == 0 || code == 11)?;
            let l: &L = unsafe { &*s.place.ptr() };
            still::shared(cx, &[still::span(l)], a ^ c, |cx| {
                let w = s.pairs();
                let n = w.len();
                must!(cx, Class::Model, l.len() == n && l.empty() == (n == 0), "length {} where {n} pairs are expected", l.len());
                for i in 0..5 {
                    let k = if i < 3 && n > 0 { w[(a as usize + i * 7) % n].0 } else { key(&s, uni, c >> i) };
                    let kk = L::K::mk(k);
                    let v = s.pos(k).ok().map(|i| s.m[i].v);
                    must!(cx, Class::Model, l.get(&kk) == v && l.contains(&kk) == v.is_some(), "get({k}) is wrong");
                }
                must!(cx, Class::Model, l.items(n + 1) == w, "iteration is wrong");
                l.dbg();
                Ok(())
            })?;
        }
        Ok(())
    })();
    cx.step = case.ops.len();
    if r.is_ok() {
        if s.m.len() > 2 {
            cx.mark("destroyed while holding several pairs")
        }
        s.alive = false;
        unsafe { std::ptr::drop_in_place(s.place.ptr()) };
        if s.place.overrun(s.fill) {
            must!(cx, Class::Fixed, false, "memory outside of the object was written");
        }
    } else {
        // the tree may be inconsistent: do not run its destructor
        s.alive = false;
        cx.leak_ok = true;
    }
    r
}

fn one<L: Tree>(s: &mut St<L>, o: [u32; 4], uni: u32, fr: &mut Fresh, cx: &mut Ctx) -> R {
    let [code, a, b, c] = o;
    let m = Class::Model;
    let n = s.m.len();
    match code {
        0 => {
            let (k, v) = (key(s, uni, a), L::normv(fr.next::<u32>(c)));
            disarm_fault();
            if s.insert(k, v, cx)? {
                cx.foreign = true;
                cx.note(|| format!("C++ inserts {k}: {v}"));
                if s.m.len() >= 3 {
                    cx.mark("tree of at least three nodes")
                }
                if c % 4 == 0 {
                    s.shape = c >> 4
                }
                s.relink();
            }
        }
        1 => {
            if n > 0 {
                disarm_fault();
                let i = a as usize % n;
                cx.foreign = true;
                cx.note(|| format!("C++ erases {}", s.m[i].k));
                s.erase(i);
                s.relink();
            }
        }
        2 => {
            disarm_fault();
            let cnt = if b == 0xB16 && a < 4000 { a } else { a % 150 };
            cx.foreign = true;
            cx.note(|| format!("C++ inserts {cnt} keys"));
            let mut r = Rng(c as u64);
            for j in 0..cnt {
                let k = match c % 3 {
                    0 => <L::K as Elem>::norm(j * 3),
                    1 => <L::K as Elem>::norm(cnt - j),
                    _ => <L::K as Elem>::norm(r.u(cnt * 4 + 1)),
                };
                let v = L::normv(fr.next::<u32>(j));
                s.insert(k, v, cx)?;
            }
            if s.m.len() > 100 {
                cx.mark("tree of more than a hundred nodes")
            }
            s.shape = c >> 8;
            s.relink();
        }
        3 => {
            disarm_fault();
            s.shape = a;
            s.relink();
            cx.foreign = true;
            cx.note(|| format!("C++ rebalances to shape {}", a % 8));
        }
        4 | 6 => {
            let k = key(s, uni, a);
            let cmp = kind(F_CMP);
            let w = s.pos(k).ok().map(|i| s.m[i].v);
            let kk = <L::K as Elem>::mk(k);
            if code == 4 {
                let g = s.l().get(&kk);
                must!(cx, m, g == w, "get({k}) gave {g:?}, expected {w:?}");
            } else {
                let g = s.l().contains(&kk);
                must!(cx, m, g == w.is_some(), "contains_key({k}) is {g}");
            }
            let cmp = kind(F_CMP) - cmp;
            cx.label(if w.is_some() { "found a key" } else { "missed a key" });
            s.cost(cmp, cx)?;
            if let Ok(i) = s.pos(k) {
                if s.m[i].k != k {
                    cx.mark("found an equivalent but different key")
                }
            }
        }
        5 => {
            let k = key(s, uni, a);
            let v = L::normv(fr.next::<u32>(c));
            let at = s.pos(k).ok();
            let w = at.map(|i| s.m[i].v);
            let kk = <L::K as Elem>::mk(k);
            let cmp = kind(F_CMP);
            let g = s.l().put(&kk, v);
            let cmp = kind(F_CMP) - cmp;
            s.cost(cmp, cx)?;
            must!(cx, m, g == w, "get_mut({k}) gave {g:?}, expected {w:?}");
            if let Some(i) = at {
                s.m[i].v = v;
                cx.mark("mutated through a lookup")
            }
        }
        7 => {
            let want = s.pairs();
            let g = s.l().items(n + 3);
            must!(cx, m, g == want, "iteration yields {}, expected {}", show2(&g), show2(&want));
        }
        8 => {
            let want = s.pairs();
            let mut seen = vec![];
            let mut upd = vec![];
            {
                let (seen, upd) = (&mut seen, &mut upd);
                s.l().each_mut(n + 3, &mut |k, v| {
                    let i = seen.len();
                    seen.push((k, v));
                    if (i as u32 + a) % 3 == 0 {
                        let x = L::normv(fr.next::<u32>(c));
                        upd.push((i, x));
                        Some(x)
                    } else {
                        None
                    }
                });
            }
            must!(cx, m, seen == want, "mutable iteration yields {}, expected {}", show2(&seen), show2(&want));
            for (i, x) in upd {
                s.m[i].v = x;
            }
            if n > 1 {
                cx.mark("mutated through an iterator")
            }
        }
        9 if b % 2 == 0 => {
            let want = s.pairs();
            s.l().proto(&want, b >> 1, c, cx)?;
        }
        9 => {
            let want = s.pairs();
            let k = if n == 0 { 0 } else { a as usize % (n + 1) };
            let g = s.l().items(k);
            must!(cx, m, g == want[..k], "the first {k} pairs are {}, expected {}", show2(&g), show2(&want[..k]));
        }
        10 => {
            if let Some(g) = s.l().dbg() {
                if L::K::NAME != "u32x3" {
                    let w = format!("{{{}}}", s.m.iter().map(|e| format!("{:?}: {}", L::K::mk(e.k), L::vdbg(e.v))).collect::<Vec<_>>().join(","));
                    must!(cx, m, g == w, "rendered as {g}, expected {w}");
                }
            }
        }
        11 => {
            cx.note(|| "clear".into());
            if n > 0 {
                cx.mark("cleared a non-empty tree");
            } else {
                cx.mark("cleared an empty tree");
            }
            s.m.clear();
            s.l().clear();
            if !L::POOL {
                let left = heap(|h| h.blocks.len());
                chk!(cx, Class::Alloc, left == 0 || s.leak, "{left} node(s) still allocated after clear");
            }
        }
        12 => {
            cx.note(|| "destroy and build again".into());
            s.m.clear();
            s.alive = false;
            unsafe { std::ptr::drop_in_place(s.place.ptr()) };
            cx.poll()?;
            s.place.fill(s.fill);
            s.tag = unsafe { L::construct(s.place.ptr(), a, 2 + b % 8) };
            s.alive = true;
            s.leak &= !L::POOL;
        }
        13 => {
            if n > 0 && !L::SET {
                let i = a as usize % n;
                let v = L::normv(fr.next::<u32>(c));
                cx.foreign = true;
                cx.note(|| format!("C++ writes {v} at {}", s.m[i].k));
                s.m[i].v = v;
                unsafe { L::set_v(&mut (*s.m[i].at).pair, v) };
            }
        }
        _ => {}
    }
    Ok(())
}

pub fn subjects(v: &mut Vec<Subject>) {
    macro_rules! map {
        ($k:ty, $x:ty, $a:ty, $c:ty) => {
            v.push(Subject {
                name: format!("map/{}-{}/{}/{}", <$k>::NAME, <$x>::NAME, <$a>::NAME, <$c as Ord2<$k>>::NAME),
                gen,
                run: run::<Map<$k, $x, $a, $c>>,
                ops: OPS,
            })
        };
    }
    macro_rules! set {
        ($k:ty, $a:ty, $c:ty) => {
            v.push(Subject { name: format!("set/{}/{}/{}", <$k>::NAME, <$a>::NAME, <$c as Ord2<$k>>::NAME), gen, run: run::<Set<$k, $a, $c>>, ops: OPS })
        };
    }
    macro_rules! fix {
        ($k:ty, $x:ty, $n:literal, $c:ty) => {
            v.push(Subject {
                name: format!("fmap/{}-{}/{}/{}", <$k>::NAME, <$x>::NAME, $n, <$c as Ord2<$k>>::NAME),
                gen,
                run: run::<FixedMap<$k, $x, $n, $c>>,
                ops: OPS,
            })
        };
    }
    macro_rules! over {
        ($k:ty, $x:ty, $n:literal, $a:ty, $c:ty) => {
            v.push(Subject {
                name: format!("fmapo/{}-{}/{}/{}/{}", <$k>::NAME, <$x>::NAME, $n, <$a>::NAME, <$c as Ord2<$k>>::NAME),
                gen,
                run: run::<FixedOver<$k, $x, $n, $a, $c>>,
                ops: OPS,
            })
        };
    }
    map!(u32, u32, TA, Less<u32>);
    map!(T4, T<0>, TA, DynC);
    map!(T<0>, T4, FA, Greater<T<0>>);
    map!(B7, u32, TA, DynC);
    map!(u64, T<16>, DA, Less<u64>);
    map!(T<16>, B7, FA, DynC);
    set!(u32, TA, DynC);
    set!(T<0>, TA, Less<T<0>>);
    set!(T4, FA, DynC);
    fix!(u32, u32, 5, Less<u32>);
    fix!(T4, T<0>, 1, DynC);
    fix!(T<0>, T4, 17, Greater<T<0>>);
    fix!(B7, T4, 3, DynC);
    over!(u32, T4, 4, TA, DynC);
    over!(T<0>, T<0>, 1, TA, Less<T<0>>);
    over!(T4, u32, 8, FA, DynC);
    over!(B7, B7, 3, TA, Greater<B7>);
    over!(u64, T<16>, 2, DA, DynC);
}
