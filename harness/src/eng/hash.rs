//! HashMap and HashSet against an ideal map, under many hash functions and key equalities.
use super::vector::Fresh;
use super::*;
use crate::env::*;
use crate::{chk, fail, must};
use eastl_rs::hash::DefaultHash;
use eastl_rs::hash_map::iter::{Iter, IterMut};
use eastl_rs::{EqualTo, Equals, Hash, HashMap, HashSet, String as EString};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::mem::{align_of, offset_of, size_of};

pub const OPS: &[&str] = &[
    "insert", "reinsert", "get", "get_mut", "remove", "remove_entry", "or_insert", "or_insert_with", "entry_unused",
    "clear", "iter", "iter_mut", "debug", "construct", "fill", "thin_out", "compat", "compat_mut", "compat_cpp",
    "cpp_insert", "cpp_erase", "cpp_rehash", "cpp_reset", "cpp_write", "swap", "fault", "cpp_policy",
];
const FAULT: u32 = 25;
/// argument of `fill` for a very large table
const LARGE: u32 = 0xB16;
const W: [u32; 27] = [14, 4, 6, 3, 6, 4, 5, 4, 1, 1, 3, 2, 1, 1, 2, 2, 3, 3, 2, 0, 0, 0, 0, 0, 1, 0, 0];

thread_local! {
    static KIND: Cell<u32> = const { Cell::new(0) };
    static SHIFT: Cell<u32> = const { Cell::new(0) };
    static HASHES: Cell<u32> = const { Cell::new(0) };
}
/// equivalence class of a key under the key equality of this case
fn cls(v: u32) -> u64 {
    (v >> SHIFT.with(|s| s.get())) as u64
}
/// the hash functions, from perfect to useless
fn dyn_hash(c: u64) -> usize {
    match KIND.with(|k| k.get()) {
        0 => c as usize,
        1 => 7,
        2 => (c % 3) as usize,
        3 => (c.wrapping_mul(0x9E37_79B9_7F4A_7C15)) as usize,
        4 => ((c as usize) << 33) | 5,
        5 => usize::MAX - c as usize,
        6 => (c as usize).wrapping_mul(126271),
        7 => (c as usize).wrapping_mul(30727),
        8 => (c / 5) as usize,
        9 => (c as usize).wrapping_mul(55),
        10 => usize::MAX,
        _ => 0,
    }
}
fn hash_tick() {
    // only the hash of the looked-up key may panic (see C19)
    HASHES.with(|h| {
        let n = h.get();
        h.set(n + 1);
        tick(if n == 0 { F_HASH } else { F_NONE });
    })
}

pub trait KeyT: Clone + PartialEq + Debug + 'static {
    const KNAME: &'static str;
    const TRK: bool = false;
    fn mk(v: u32) -> Self;
    fn v(&self) -> u32;
    /// value that survives storage
    fn norm(v: u32) -> u32 {
        v
    }
    fn kcls(v: u32) -> u64;
    fn khash(v: u32) -> usize;
    fn ident(&self) -> Option<u32> {
        None
    }
}
macro_rules! tracked_key {
    ($($t:ty)*) => {$(
        impl KeyT for $t {
            const KNAME: &'static str = <$t as Elem>::NAME;
            const TRK: bool = true;
            fn ident(&self) -> Option<u32> {
                Some(Elem::ident(self))
            }
            fn mk(v: u32) -> Self {
                <$t as Elem>::mk(v)
            }
            fn v(&self) -> u32 {
                Elem::v(self)
            }
            fn kcls(v: u32) -> u64 {
                cls(v)
            }
            fn khash(v: u32) -> usize {
                dyn_hash(cls(v))
            }
        }
        impl Hash<$t> for DefaultHash<$t> {
            fn hash(k: &$t) -> usize {
                hash_tick();
                dyn_hash(cls(Elem::v(k)))
            }
        }
    )*};
}
tracked_key! { T4 T<0> T<8> A16 B7 }
macro_rules! int_key {
    ($($t:ident $n:literal;)*) => {$(
        impl KeyT for $t {
            const KNAME: &'static str = $n;
            fn mk(v: u32) -> Self {
                v as $t
            }
            fn v(&self) -> u32 {
                *self as u32
            }
            fn norm(v: u32) -> u32 {
                v as $t as u32
            }
            fn kcls(v: u32) -> u64 {
                v as u64
            }
            fn khash(v: u32) -> usize {
                v as $t as usize
            }
        }
    )*};
}
int_key! { u8 "u8"; i8 "i8"; u16 "u16"; i16 "i16"; u32 "u32"; i32 "i32"; }
macro_rules! wide_key {
    ($($t:ident $n:literal;)*) => {$(
        impl KeyT for $t {
            const KNAME: &'static str = $n;
            fn mk(v: u32) -> Self {
                (v as u64 | (v.rotate_left(7) as u64) << 32) as $t
            }
            fn v(&self) -> u32 {
                let x = *self as u64;
                if (x >> 32) as u32 == (x as u32).rotate_left(7) { x as u32 } else { 0xDEAD_BEEF }
            }
            fn kcls(v: u32) -> u64 {
                v as u64
            }
            fn khash(v: u32) -> usize {
                <Self as KeyT>::mk(v) as usize
            }
        }
    )*};
}
wide_key! { u64 "u64"; i64 "i64"; usize "usize"; isize "isize"; }
macro_rules! float_key {
    ($($t:ident $n:literal;)*) => {$(
        impl KeyT for $t {
            const KNAME: &'static str = $n;
            fn mk(v: u32) -> Self {
                // halves, negatives and both zeroes; bit 0 is the sign of zero
                let m = (v >> 1) as $t / 2.0;
                if v & 1 == 1 { -m } else { m }
            }
            fn v(&self) -> u32 {
                ((self.abs() * 2.0) as u32) << 1 | self.is_sign_negative() as u32
            }
            fn norm(v: u32) -> u32 {
                v & 0x3F_FFFF
            }
            fn kcls(v: u32) -> u64 {
                if v >> 1 == 0 { 0 } else { v as u64 }
            }
            fn khash(v: u32) -> usize {
                // truncated, negative values saturate at zero
                if v & 1 == 1 { 0 } else { (v >> 2) as usize }
            }
        }
    )*};
}
float_key! { f32 "f32"; f64 "f64"; }
impl KeyT for bool {
    const KNAME: &'static str = "bool";
    fn mk(v: u32) -> Self {
        v & 1 == 1
    }
    fn v(&self) -> u32 {
        *self as u32
    }
    fn norm(v: u32) -> u32 {
        v & 1
    }
    fn kcls(v: u32) -> u64 {
        v as u64
    }
    fn khash(v: u32) -> usize {
        v as usize
    }
}
pub fn fnv(b: &[u8]) -> usize {
    let mut h: u32 = 0x811C_9DC5;
    for &x in b {
        h = h.wrapping_mul(0x0100_0193);
        h ^= x as u32;
    }
    h as usize
}
fn text(v: u32) -> String {
    if v == 0 {
        String::new()
    } else {
        format!("{}{v:x}", ["", "k", "naïve ", "ключ"][v as usize & 3])
    }
}
fn untext(s: &str) -> u32 {
    if s.is_empty() {
        return 0;
    }
    for p in ["naïve ", "ключ", "k"] {
        if let Some(x) = s.strip_prefix(p) {
            return u32::from_str_radix(x, 16).unwrap_or(0xDEAD_BEEF);
        }
    }
    u32::from_str_radix(s, 16).unwrap_or(0xDEAD_BEEF)
}
impl KeyT for EString<TA> {
    const KNAME: &'static str = "string";
    fn mk(v: u32) -> Self {
        EString::from(text(v).as_str())
    }
    fn v(&self) -> u32 {
        untext(self.as_str())
    }
    fn kcls(v: u32) -> u64 {
        v as u64
    }
    fn khash(v: u32) -> usize {
        fnv(text(v).as_bytes())
    }
}
impl KeyT for &'static str {
    const KNAME: &'static str = "str";
    fn mk(v: u32) -> Self {
        thread_local! { static TAB: std::cell::RefCell<BTreeMap<u32, &'static str>> = const { std::cell::RefCell::new(BTreeMap::new()) }; }
        TAB.with(|t| *t.borrow_mut().entry(v).or_insert_with(|| Box::leak(text(v).into_boxed_str())))
    }
    fn v(&self) -> u32 {
        untext(self)
    }
    fn norm(v: u32) -> u32 {
        v % 4096
    }
    fn kcls(v: u32) -> u64 {
        v as u64
    }
    fn khash(v: u32) -> usize {
        fnv(text(v).as_bytes())
    }
}

/// user-supplied hash and equality
pub struct DynH;
pub struct DynE;
impl<K: KeyT> Hash<K> for DynH {
    fn hash(k: &K) -> usize {
        hash_tick();
        dyn_hash(cls(k.v()))
    }
}
impl<K: KeyT> Equals<K> for DynE {
    fn equals(a: &K, b: &K) -> bool {
        tick(F_EQ);
        cls(a.v()) == cls(b.v())
    }
}

pub trait ValT: Clone + Sized + 'static {
    fn mk(v: u32) -> Self;
    fn v(&self) -> u32;
    fn norm(v: u32) -> u32;
    const VNAME: &'static str;
    fn ident(&self) -> Option<u32> {
        None
    }
}
impl<T: Elem> ValT for T {
    fn mk(v: u32) -> Self {
        <T as Elem>::mk(v)
    }
    fn v(&self) -> u32 {
        Elem::v(self)
    }
    fn norm(v: u32) -> u32 {
        <T as Elem>::norm(v)
    }
    const VNAME: &'static str = <T as Elem>::NAME;
    fn ident(&self) -> Option<u32> {
        T::TRACKED.then(|| Elem::ident(self))
    }
}
impl ValT for () {
    fn mk(_: u32) {}
    fn v(&self) -> u32 {
        0
    }
    fn norm(_: u32) -> u32 {
        0
    }
    const VNAME: &'static str = "";
}

type Pairs = Vec<(u32, u32)>;
/// what the engine needs from a hash map or set
pub trait Tab: Sized {
    type K: KeyT;
    type V: ValT;
    const CUSTOM: bool;
    /// hash and equality are functors of their own, not those of the key type
    const DYN: bool;
    const SET: bool;
    const AN: &'static str;
    fn cons(kind: u32, tag: u32, items: &mut dyn Iterator<Item = (Self::K, Self::V)>) -> (Self, u32);
    fn atag(tag: u32) -> u32;
    fn clear(&mut self);
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn contains(&self, k: &Self::K) -> bool;
    /// (stored key if reported, value)
    fn get(&self, k: &Self::K) -> Option<(Option<u32>, u32)>;
    fn get_mut(&mut self, _k: &Self::K) -> Option<&mut Self::V> {
        None
    }
    /// (was there something, the old value)
    fn insert(&mut self, k: Self::K, v: Self::V) -> (bool, Option<u32>);
    fn remove(&mut self, k: &Self::K) -> Option<(Option<u32>, u32)>;
    fn remove_entry(&mut self, k: &Self::K) -> Option<(Option<u32>, u32)>;
    fn entry(&mut self, _how: u32, _k: Self::K, _old: &mut Option<u32>, _mods: &Cell<u32>, _v: u32, _nv: Option<u32>) -> Option<u32> {
        None
    }
    fn pairs(&self, limit: usize) -> Pairs;
    /// identity and address of every tracked key and value
    fn places(&self) -> Vec<(u32, usize)>;
    fn rproto(&self, want: &[(u32, u32)], seed: u32, cx: &mut Ctx) -> R;
    fn proto(&mut self, want: &[(u32, u32)], which: u32, seed: u32, cx: &mut Ctx) -> R;
    fn each_mut(&mut self, _f: &mut dyn FnMut(u32, &mut Self::V)) {}
    fn dbg(&self) -> String;
    /// after `skip` steps: the C++ pair, and the elements of the reconverted iterator
    fn compat(&mut self, kind: u32, skip: usize, limit: usize, f: &mut dyn FnMut(u32, &mut Self::V)) -> ([RawIt; 2], Pairs);
    fn from_cpp(&mut self, kind: u32, p: [RawIt; 2], limit: usize, f: &mut dyn FnMut(u32, &mut Self::V)) -> Pairs;
    fn alloc_nodes<T>(tag: u32, n: usize) -> *mut T;
    fn free_nodes<T>(tag: u32, p: *mut T, n: usize);
}
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(C)]
pub struct RawIt {
    node: usize,
    bucket: usize,
}
fn bits<I>(i: &I) -> RawIt {
    assert_eq!(size_of::<I>(), size_of::<RawIt>());
    unsafe { std::ptr::read(i as *const I as *const RawIt) }
}
fn unbits<I>(r: RawIt) -> I {
    assert_eq!(size_of::<I>(), size_of::<RawIt>());
    unsafe { std::mem::transmute_copy(&r) }
}

trait Ctor<A>: Sized {
    const DYN: bool = false;
    fn ctor(kind: u32, tag: u32, items: &mut dyn Iterator<Item = Self::Item>) -> (Self, u32);
    type Item;
}
impl<K: KeyT, V: ValT, A: HAlloc> Ctor<A> for HashMap<K, V, A>
where
    DefaultHash<K>: Hash<K>,
{
    type Item = (K, V);
    fn ctor(kind: u32, tag: u32, items: &mut dyn Iterator<Item = (K, V)>) -> (Self, u32) {
        match kind {
            0 => (HashMap::new(), A::DEFTAG),
            1 => (HashMap::default(), A::DEFTAG),
            2 => (unsafe { HashMap::new_in(A::mk(tag)) }, A::mk(tag).tag()),
            _ => (items.collect(), A::DEFTAG),
        }
    }
}
impl<K: KeyT, V: ValT, A: HAlloc> Ctor<A> for HashMap<K, V, A, DynH, DynE> {
    const DYN: bool = true;
    type Item = (K, V);
    fn ctor(kind: u32, tag: u32, items: &mut dyn Iterator<Item = (K, V)>) -> (Self, u32) {
        let mut m = unsafe { HashMap::new_in(A::mk(tag)) };
        if kind > 2 {
            for (k, v) in items {
                m.insert(k, v);
            }
        }
        (m, A::mk(tag).tag())
    }
}
impl<K: KeyT, A: HAlloc> Ctor<A> for HashSet<K, A>
where
    DefaultHash<K>: Hash<K>,
{
    type Item = K;
    fn ctor(kind: u32, tag: u32, items: &mut dyn Iterator<Item = K>) -> (Self, u32) {
        match kind {
            0 => (HashSet::new(), A::DEFTAG),
            1 => (HashSet::default(), A::DEFTAG),
            2 => (unsafe { HashSet::new_in(A::mk(tag)) }, A::mk(tag).tag()),
            _ => (items.collect(), A::DEFTAG),
        }
    }
}
impl<K: KeyT, A: HAlloc> Ctor<A> for HashSet<K, A, DynH, DynE> {
    const DYN: bool = true;
    type Item = K;
    fn ctor(kind: u32, tag: u32, items: &mut dyn Iterator<Item = K>) -> (Self, u32) {
        let mut m = unsafe { HashSet::new_in(A::mk(tag)) };
        if kind > 2 {
            for k in items {
                m.insert(k);
            }
        }
        (m, A::mk(tag).tag())
    }
}

macro_rules! common {
    () => {
        fn atag(tag: u32) -> u32 {
            A::mk(tag).tag()
        }
        fn clear(&mut self) {
            self.clear()
        }
        fn len(&self) -> usize {
            self.len()
        }
        fn is_empty(&self) -> bool {
            self.is_empty()
        }
        fn contains(&self, k: &K) -> bool {
            self.contains_key(k)
        }
        fn dbg(&self) -> String {
            format!("{:?}", self)
        }
        fn alloc_nodes<T>(tag: u32, n: usize) -> *mut T {
            A::mk(tag).allocate::<T>(n)
        }
        fn free_nodes<T>(tag: u32, p: *mut T, n: usize) {
            unsafe { A::mk(tag).deallocate::<T>(p, n) }
        }
    };
}
impl<K: KeyT, V: ValT + Debug, A: HAlloc, H: Hash<K> + 'static, E: Equals<K> + 'static> Tab for HashMap<K, V, A, H, E>
where
    HashMap<K, V, A, H, E>: Ctor<A, Item = (K, V)>,
{
    type K = K;
    type V = V;
    const CUSTOM: bool = K::TRK;
    const DYN: bool = <Self as Ctor<A>>::DYN;
    const SET: bool = false;
    const AN: &'static str = A::NAME;
    common!();
    fn cons(kind: u32, tag: u32, items: &mut dyn Iterator<Item = (K, V)>) -> (Self, u32) {
        Self::ctor(kind, tag, items)
    }
    fn get(&self, k: &K) -> Option<(Option<u32>, u32)> {
        self.get(k).map(|v| (None, v.v()))
    }
    fn get_mut(&mut self, k: &K) -> Option<&mut V> {
        self.get_mut(k)
    }
    fn insert(&mut self, k: K, v: V) -> (bool, Option<u32>) {
        let r = self.insert(k, v).map(|v| v.v());
        (r.is_some(), r)
    }
    fn remove(&mut self, k: &K) -> Option<(Option<u32>, u32)> {
        self.remove(k).map(|v| (None, v.v()))
    }
    fn remove_entry(&mut self, k: &K) -> Option<(Option<u32>, u32)> {
        self.remove_entry(k).map(|(k, v)| (Some(k.v()), v.v()))
    }
    fn entry(&mut self, how: u32, k: K, old: &mut Option<u32>, mods: &Cell<u32>, v: u32, nv: Option<u32>) -> Option<u32> {
        match how {
            0 => {
                let r = self.entry(k).or_insert(V::mk(v));
                *old = Some(r.v());
                if let Some(x) = nv {
                    refit(r, V::mk(x));
                }
                Some(r.v())
            }
            1 => {
                let r = self
                    .entry(k)
                    .and_modify(|x| {
                        tick(F_CLOSURE);
                        mods.set(mods.get() + 1);
                        if let Some(n) = nv {
                            refit(x, V::mk(n));
                        }
                    })
                    .or_insert_with(|| {
                        tick(F_CLOSURE);
                        mods.set(mods.get() + 100);
                        V::mk(v)
                    });
                *old = Some(r.v());
                *old
            }
            _ => {
                let e = self.entry(k);
                drop(e);
                None
            }
        }
    }
    fn pairs(&self, limit: usize) -> Pairs {
        self.iter().take(limit).map(|(k, v)| (k.v(), v.v())).collect()
    }
    fn places(&self) -> Vec<(u32, usize)> {
        let mut o = vec![];
        for (k, v) in self.iter() {
            o.extend(k.ident().map(|i| (i, k as *const K as usize)));
            o.extend(v.ident().map(|i| (i, v as *const V as usize)));
        }
        o
    }
    fn rproto(&self, want: &[(u32, u32)], seed: u32, cx: &mut Ctx) -> R {
        let k = seed as usize % (want.len() + 1);
        let mut it = self.iter();
        for w in &want[..k] {
            let g = it.next().map(|(k, v)| (k.v(), v.v()));
            must!(cx, Class::Model, g == Some(*w), "iteration gives {g:?}, expected {w:?}");
        }
        let (b, e) = it.clone().into_compat();
        must!(cx, Class::Model, unsafe { Iter::from_compat(b, e) }.take(want.len() + 1).map(|(k, v)| (k.v(), v.v())).eq(want[k..].iter().copied()), "the converted iterator is wrong");
        proto::fwd(it, &want[k..], seed, false, cx, Class::Model, |(k, v)| (k.v(), v.v()))
    }
    fn proto(&mut self, want: &[(u32, u32)], which: u32, seed: u32, cx: &mut Ctx) -> R {
        match which % 3 {
            0 => proto::fwd(self.iter(), want, seed, false, cx, Class::Model, |(k, v)| (k.v(), v.v())),
            1 => proto::fwd(self.iter_mut(), want, seed, false, cx, Class::Model, |(k, v)| (k.v(), v.v())),
            _ => {
                // a copy goes its own way
                let mut it = self.iter();
                let k = seed as usize % (want.len() + 1);
                for w in &want[..k] {
                    let g = it.next().map(|(k, v)| (k.v(), v.v()));
                    must!(cx, Class::Model, g == Some(*w), "iteration gives {g:?}, expected {w:?}");
                }
                let c = it.clone();
                let first = proto::fwd(it, &want[k..], seed >> 8, false, cx, Class::Model, |(k, v)| (k.v(), v.v()));
                first?;
                proto::fwd(c, &want[k..], seed >> 16, false, cx, Class::Model, |(k, v)| (k.v(), v.v()))
            }
        }
    }
    fn each_mut(&mut self, f: &mut dyn FnMut(u32, &mut V)) {
        for (k, v) in self.iter_mut() {
            f(k.v(), v)
        }
    }
    fn compat(&mut self, kind: u32, skip: usize, limit: usize, f: &mut dyn FnMut(u32, &mut V)) -> ([RawIt; 2], Pairs) {
        match kind % 4 {
            0 => {
                let mut i = self.iter();
                for _ in 0..skip {
                    i.next();
                }
                let (b, e) = i.into_compat();
                let p = [bits(&b), bits(&e)];
                (p, unsafe { Iter::from_compat(b, e) }.take(limit).map(|(k, v)| (k.v(), v.v())).collect())
            }
            1 => {
                let mut i = self.iter_mut();
                for _ in 0..skip {
                    i.next();
                }
                let (b, e) = i.into_compat();
                let p = [bits(&b), bits(&e)];
                (
                    p,
                    unsafe { IterMut::from_compat(b, e) }
                        .take(limit)
                        .map(|(k, v)| {
                            let o = v.v();
                            f(k.v(), v);
                            (k.v(), o)
                        })
                        .collect(),
                )
            }
            2 => {
                let mut i = self.iter_mut();
                for _ in 0..skip {
                    i.next();
                }
                let (b, e) = i.into_compat_mut();
                let p = [bits(&b), bits(&e)];
                (p, unsafe { Iter::from_compat_mut(b, e) }.take(limit).map(|(k, v)| (k.v(), v.v())).collect())
            }
            _ => {
                let mut i = self.iter();
                for _ in 0..skip {
                    i.next();
                }
                let p0 = i.into_compat();
                let p = [bits(&p0.0), bits(&p0.1)];
                // twice there and back again
                let j = unsafe { Iter::from_compat(p0.0, p0.1) };
                let p1 = j.into_compat();
                (p, unsafe { Iter::from_compat(p1.0, p1.1) }.take(limit).map(|(k, v)| (k.v(), v.v())).collect())
            }
        }
    }
    fn from_cpp(&mut self, kind: u32, p: [RawIt; 2], limit: usize, f: &mut dyn FnMut(u32, &mut V)) -> Pairs {
        match kind % 3 {
            0 => unsafe { Iter::<K, V>::from_compat(unbits(p[0]), unbits(p[1])) }.take(limit).map(|(k, v)| (k.v(), v.v())).collect(),
            1 => unsafe { Iter::<K, V>::from_compat_mut(unbits(p[0]), unbits(p[1])) }.take(limit).map(|(k, v)| (k.v(), v.v())).collect(),
            _ => unsafe { IterMut::<K, V>::from_compat(unbits(p[0]), unbits(p[1])) }
                .take(limit)
                .map(|(k, v)| {
                    let o = v.v();
                    f(k.v(), v);
                    (k.v(), o)
                })
                .collect(),
        }
    }
}
impl<K: KeyT, A: HAlloc, H: Hash<K> + 'static, E: Equals<K> + 'static> Tab for HashSet<K, A, H, E>
where
    HashSet<K, A, H, E>: Ctor<A, Item = K>,
{
    type K = K;
    type V = ();
    const CUSTOM: bool = K::TRK;
    const DYN: bool = <Self as Ctor<A>>::DYN;
    const SET: bool = true;
    const AN: &'static str = A::NAME;
    common!();
    fn cons(kind: u32, tag: u32, items: &mut dyn Iterator<Item = (K, ())>) -> (Self, u32) {
        Self::ctor(kind, tag, &mut items.map(|x| x.0))
    }
    fn get(&self, k: &K) -> Option<(Option<u32>, u32)> {
        self.get(k).map(|k| (Some(k.v()), 0))
    }
    fn insert(&mut self, k: K, _: ()) -> (bool, Option<u32>) {
        (!self.insert(k), None)
    }
    fn remove(&mut self, k: &K) -> Option<(Option<u32>, u32)> {
        self.remove(k).map(|k| (Some(k.v()), 0))
    }
    fn remove_entry(&mut self, k: &K) -> Option<(Option<u32>, u32)> {
        Tab::remove(self, k)
    }
    fn pairs(&self, limit: usize) -> Pairs {
        self.iter().take(limit).map(|k| (k.v(), 0)).collect()
    }
    fn places(&self) -> Vec<(u32, usize)> {
        self.iter().filter_map(|k| k.ident().map(|i| (i, k as *const K as usize))).collect()
    }
    fn rproto(&self, want: &[(u32, u32)], seed: u32, cx: &mut Ctx) -> R {
        let k = seed as usize % (want.len() + 1);
        let mut it = self.iter();
        for w in &want[..k] {
            let g = it.next().map(|k| (k.v(), 0));
            must!(cx, Class::Model, g == Some(*w), "iteration gives {g:?}, expected {w:?}");
        }
        proto::fwd(it, &want[k..], seed, false, cx, Class::Model, |k| (k.v(), 0))
    }
    fn proto(&mut self, want: &[(u32, u32)], _: u32, seed: u32, cx: &mut Ctx) -> R {
        proto::fwd(self.iter(), want, seed, false, cx, Class::Model, |k| (k.v(), 0))
    }
    fn compat(&mut self, _kind: u32, skip: usize, limit: usize, _f: &mut dyn FnMut(u32, &mut ())) -> ([RawIt; 2], Pairs) {
        let mut i = self.iter();
        for _ in 0..skip {
            i.next();
        }
        let (b, e) = i.into_compat();
        let p = [bits(&b), bits(&e)];
        (p, unsafe { eastl_rs::hash_set::iter::Iter::from_compat(b, e) }.take(limit).map(|k| (k.v(), 0)).collect())
    }
    fn from_cpp(&mut self, _kind: u32, p: [RawIt; 2], limit: usize, _f: &mut dyn FnMut(u32, &mut ())) -> Pairs {
        unsafe { eastl_rs::hash_set::iter::Iter::<K>::from_compat(unbits(p[0]), unbits(p[1])) }.take(limit).map(|k| (k.v(), 0)).collect()
    }
}

/// C++: struct node { pair<const K, V> value; node* next; } (same offsets for alignments up to 8)
#[repr(C)]
struct CNode<K, V> {
    k: K,
    v: V,
    next: *mut CNode<K, V>,
}
#[repr(C)]
struct CPair<K, V> {
    k: K,
    v: V,
}
#[repr(C)]
struct CNode2<K, V> {
    p: CPair<K, V>,
    next: *mut (),
}
#[repr(C)]
struct RawHT<K, V> {
    pad: u8,
    arr: *mut *mut CNode<K, V>,
    count: u32,
    elems: u32,
    mlf: f32,
    growth: f32,
    next_resize: u32,
}
fn rawt<X: Tab>(t: &mut X) -> &mut RawHT<X::K, X::V> {
    unsafe { &mut *(t as *mut X as *mut RawHT<X::K, X::V>) }
}
/// the empty array of the foreign side
static CPP_EMPTY: [usize; 2] = [0, !0];

const PRIMES: [u32; 257] = [
    2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97,
    103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313,
    337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109,
    1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739,
    4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273, 11113, 12011,
    12983, 14033, 15173, 16411, 17749, 19183, 20753, 22447, 24281, 26267, 28411, 30727, 33223,
    35933, 38873, 42043, 45481, 49201, 53201, 57557, 62233, 67307, 72817, 78779, 85229, 92203,
    99733, 107897, 116731, 126271, 136607, 147793, 159871, 172933, 187091, 202409, 218971, 236897,
    256279, 277261, 299951, 324503, 351061, 379787, 410857, 444487, 480881, 520241, 562841, 608903,
    658753, 712697, 771049, 834181, 902483, 976369, 1056323, 1142821, 1236397, 1337629, 1447153,
    1565659, 1693859, 1832561, 1982627, 2144977, 2320627, 2510653, 2716249, 2938679, 3179303,
    3439651, 3721303, 4026031, 4355707, 4712381, 5098259, 5515729, 5967347, 6456007, 6984629,
    7556579, 8175383, 8844859, 9569143, 10352717, 11200489, 12117689, 13109983, 14183539, 15345007,
    16601593, 17961079, 19431899, 21023161, 22744717, 24607243, 26622317, 28802401, 31160981,
    33712729, 36473443, 39460231, 42691603, 46187573, 49969847, 54061849, 58488943, 63278561,
    68460391, 74066549, 80131819, 86693767, 93793069, 101473717, 109783337, 118773397, 128499677,
    139022417, 150406843, 162723577, 176048909, 190465427, 206062531, 222936881, 241193053,
    260944219, 282312799, 305431229, 330442829, 357502601, 386778277, 418451333, 452718089,
    489790921, 529899637, 573292817, 620239453, 671030513, 725980837, 785430967, 849749479,
    919334987, 994618837, 1076067617, 1164186217, 1259520799, 1362662261, 1474249943, 1594975441,
    1725587117, 1866894511, 2019773507, 2185171673, 2364114217, 2557710269, 2767159799, 2993761039,
    3238918481, 3504151727, 3791104843, 4101556399, 4294967291, 4294967291,
];

struct St<X: Tab> {
    t: X,
    tag: u32,
    /// class of the key -> (stored key, value)
    m: BTreeMap<u64, (u32, u32)>,
    /// bucket count the growth schedule prescribes
    count: u32,
    /// largest load factor and growth factor in force; C++ can set other ones
    mlf: f64,
    growth: f64,
}
/// most elements that fit without growing. C++ rounds up, and so may a table whose limit was
/// computed before
fn fits(count: u32, mlf: f64) -> [u32; 2] {
    let n = count as f64 * mlf;
    [n.floor() as u32, n.ceil() as u32]
}
impl<X: Tab> St<X> {

    /// a new key was inserted
    fn added(&mut self, k: u32, v: u32, cx: &mut Ctx) {
        let need = self.m.len() as u32 + 1;
        let count = if self.count == 1 { 0 } else { self.count };
        let [low, high] = fits(count, self.mlf);
        if need > low && need <= high && rawt(&mut self.t).count == self.count {
            cx.mark("at a fractional load limit")
        } else if need > low {
            let want = ((need as f64 / self.mlf) as u32).max((self.growth * count as f64) as u32);
            self.count = *PRIMES.iter().find(|&&p| p >= want).unwrap();
            if count > 0 {
                cx.mark("grew the bucket array")
            }
        }
        self.m.insert(X::K::kcls(k), (k, v));
    }
    fn removed(&mut self, k: u32) -> Option<(u32, u32)> {
        self.m.remove(&X::K::kcls(k))
    }
    fn sorted(&self) -> Pairs {
        let mut p: Pairs = self.m.values().copied().collect();
        p.sort_unstable();
        p
    }
}
fn showp(v: &[(u32, u32)]) -> String {
    if v.len() <= 16 {
        format!("{v:?}")
    } else {
        format!("{:?}...({} pairs)", &v[..16], v.len())
    }
}

fn visible<X: Tab>(s: &mut St<X>, cx: &mut Ctx, deep: bool) -> R {
    let n = s.m.len();
    must!(cx, Class::Model, s.t.len() == n, "length {} where {n} keys are expected", s.t.len());
    chk!(cx, Class::Model, s.t.is_empty() == (n == 0), "is_empty() is wrong at length {n}");
    if deep {
        let mut p = s.t.pairs(n + 2);
        p.sort_unstable();
        must!(cx, Class::Model, p == s.sorted(), "iteration yields {}, expected {}", showp(&p), showp(&s.sorted()));
        for (k, v) in s.sorted().into_iter().take(12) {
            let g = s.t.get(&X::K::mk(k));
            must!(cx, Class::Model, g.is_some_and(|g| g.1 == v && g.0.unwrap_or(k) == k), "get({k}) gives {g:?}, expected {v}");
        }
    }
    cx.poll()
}

fn reads<X: Tab>(s: &St<X>, univ: u32, seed: u32, cx: &mut Ctx) -> R {
    let n = s.m.len();
    must!(cx, Class::Model, s.t.len() == n && s.t.is_empty() == (n == 0), "length {} where {n} keys are expected", s.t.len());
    let sorted = s.sorted();
    for i in 0..5 {
        let k = if i < 3 && n > 0 { sorted[(seed as usize).wrapping_add(i * 7) % n].0 } else { key::<X::K>(seed >> i, univ) };
        let kk = X::K::mk(k);
        let w = s.m.get(&X::K::kcls(k));
        must!(cx, Class::Model, s.t.get(&kk).map(|g| g.1) == w.map(|w| w.1) && s.t.contains(&kk) == w.is_some(), "get({k}) is wrong");
    }
    let p = s.t.pairs(n + 1);
    let mut q = p.clone();
    q.sort_unstable();
    must!(cx, Class::Model, q == sorted, "iteration is wrong");
    s.t.dbg();
    s.t.rproto(&p, seed, cx)
}

/// pairs in the order of the buckets and chains; checks the structure on the way
fn structure<X: Tab>(s: &mut St<X>, cx: &mut Ctx) -> R<Pairs> {
    let n = s.m.len();
    let want_count = s.count;
    let r = rawt(&mut s.t);
    let mut out = Pairs::new();
    // C++ relies on all of it but the exact growth schedule
    let y = if cx.on(Class::Struct) { Class::Struct } else { Class::Layout };
    if s.mlf != 1.0 || s.growth != 2.0 {
        chk!(cx, Class::Layout, r.count == want_count, "{} buckets at {n} keys; the load factor {} and growth factor {} set by C++ ask for {want_count}", r.count, s.mlf, s.growth);
    }
    chk!(cx, Class::Struct, r.count == want_count, "{} buckets at {n} keys, the growth schedule prescribes {want_count}", r.count);
    s.count = r.count;
    must!(cx, y, r.elems as usize == n, "element count field is {} at {n} keys", r.elems);
    must!(cx, y, !r.arr.is_null(), "null bucket array");
    if r.count > 1 {
        chk!(cx, Class::Struct, n as u32 <= fits(r.count, s.mlf)[1], "load factor {} / {} exceeds {}", n, r.count, s.mlf);
        match heap(|h| h.at(r.arr as usize)) {
            Some(b) => chk!(cx, Class::Alloc, b.size >= 8 * (r.count as usize + 1), "{} buckets and a sentinel in a block of {} bytes", r.count, b.size),
            None => chk!(cx, Class::Alloc, r.arr as usize == CPP_EMPTY.as_ptr() as usize, "the bucket array is not a block obtained from the allocator"),
        }
    }
    unsafe {
        for i in 0..r.count as usize {
            let mut p = *r.arr.add(i);
            let mut chain = 0;
            while !p.is_null() {
                if p as usize % 8 != 0 || p as usize == !0 {
                    fail!(cx, y, "bucket {i} holds {p:p}, which is no node");
                }
                if out.len() > n {
                    fail!(cx, y, "more nodes are chained than the {n} counted");
                }
                chk!(cx, Class::Alloc, heap(|h| h.at(p as usize)).is_some_and(|b| b.size == size_of::<CNode<X::K, X::V>>()), "a node of bucket {i} is not a block of node size obtained from the allocator");
                if heap(|h| h.at(p as usize)).is_none() {
                    fail!(cx, y, "bucket {i} links to memory that was released or never allocated");
                }
                let k = (*p).k.v();
                let at = X::K::khash(k) % r.count as usize;
                must!(cx, y, at == i, "key {k} sits in bucket {i}, its hash belongs in {at} of {}", r.count);
                out.push((k, (*p).v.v()));
                p = (*p).next;
                chain += 1;
            }
            if chain > 8 {
                cx.mark("long chain")
            }
        }
        must!(cx, y, *r.arr.add(r.count as usize) as usize == !0, "no sentinel after bucket {}", r.count);
    }
    must!(cx, y, out.len() == n, "{} nodes are chained, {n} counted", out.len());
    Ok(out)
}
fn layout<X: Tab>(s: &mut St<X>, order: &Pairs, cx: &mut Ctx) -> R {
    let (n, tag) = (s.m.len(), s.tag);
    let mut p = order.clone();
    p.sort_unstable();
    must!(cx, Class::Layout, p == s.sorted(), "C++ sees {}, expected {}", showp(&p), showp(&s.sorted()));
    let it = s.t.pairs(n + 2);
    must!(cx, Class::Layout, &it == order, "C++ iterates {}, Rust {}", showp(order), showp(&it));
    let r = rawt(&mut s.t);
    chk!(cx, Class::Layout, r.mlf as f64 == s.mlf && r.growth as f64 == s.growth, "growth parameters are {} and {}", r.mlf, r.growth);
    chk!(cx, Class::Layout, r.next_resize <= fits(s.count, s.mlf)[1] || r.count == 1 && r.next_resize <= 1, "C++ would not grow before {} elements at {} buckets", r.next_resize, r.count);
    if X::AN == "ta" {
        let at = r as *mut _ as *const u8;
        chk!(cx, Class::Layout, size_of::<X>() == 40 && unsafe { *at.add(36) } as u32 == tag, "the allocator byte is not at offset 36");
    }
    if align_of::<CNode<X::K, X::V>>() <= 8 {
        assert!(offset_of!(CNode<X::K, X::V>, v) == offset_of!(CPair<X::K, X::V>, v) && offset_of!(CNode<X::K, X::V>, next) == offset_of!(CNode2<X::K, X::V>, next));
    }
    Ok(())
}

fn gen(r: &mut Rng, size: u32, flags: u32) -> Case {
    let mut w = W;
    if flags & FL_REHASH != 0 && r.chance(1, 3) {
        (w[21], w[26]) = (1, 1);
    }
    if flags & FL_FOREIGN != 0 {
        for i in 19..24 {
            w[i] = 3
        }
        w[22] = 1;
        w[26] = 2;
    }
    let mut ops = OpGen { weights: &w }.gen(r, if size > 1 { 140 } else { 50 });
    let kind = r.u(12);
    let shift = if r.chance(1, 3) { r.range(1, 3) } else { 0 };
    let mut universe = r.u(6);
    if r.chance(1, 6) {
        ops.insert(0, [14, r.u(400), 0, r.r32()]);
    }
    if r.chance(1, 6000) {
        // a very large table, possibly with one enormous chain
        ops.truncate(20);
        let (n, kind) = *r.pick(&[(8000, 0), (62500, 0), (31000, 3), (20_000, 6), (15400, 7)]);
        ops.insert(0, [14, n, LARGE, r.r32()]);
        universe = 5;
        return Case { subject: String::new(), cfg: vec![r.u(5), r.u(4), kind, 0, universe, r.u(4)], ops };
    }
    if flags & FL_FAULT != 0 {
        sprinkle_faults(r, &mut ops, FAULT, flags);
    }
    Case { subject: String::new(), cfg: vec![r.u(5), r.u(4), kind, shift, universe, r.u(4)], ops }
}
fn key<K: KeyT>(a: u32, universe: u32) -> u32 {
    let u = [6u32, 20, 60, 400, 5000, u32::MAX][universe as usize % 6];
    K::norm(a % u)
}

fn cpp_rehash<X: Tab>(s: &mut St<X>, new: u32) {
    let tag = s.tag;
    let r = rawt(&mut s.t);
    unsafe {
        let a: *mut *mut CNode<X::K, X::V> = X::alloc_nodes(tag, new as usize + 1);
        for i in 0..new as usize {
            *a.add(i) = std::ptr::null_mut();
        }
        *a.add(new as usize) = !0usize as *mut _;
        for i in 0..r.count as usize {
            let mut p = *r.arr.add(i);
            while !p.is_null() {
                let nx = (*p).next;
                let b = X::K::khash((*p).k.v()) % new as usize;
                (*p).next = *a.add(b);
                *a.add(b) = p;
                p = nx;
            }
        }
        if r.count > 1 {
            X::free_nodes(tag, r.arr, r.count as usize + 1);
        }
        r.arr = a;
        r.count = new;
    }
    s.count = new;
}

fn op<X: Tab>(s: &mut St<X>, o: &[u32; 4], univ: u32, fr: &mut Fresh, added: &mut Pairs, cx: &mut Ctx) -> R {
    let [code, a, b, c] = *o;
    let n = s.m.len();
    let mut k = key::<X::K>(a, univ);
    if code == 1 && n > 0 || (2..=5).contains(&code) && n > 0 && b % 3 > 0 {
        // a key equal to a stored one
        let stored = s.m.values().nth(a as usize % n).unwrap().0;
        k = stored;
        if X::K::TRK && SHIFT.with(|x| x.get()) > 0 {
            k ^= c & ((1 << SHIFT.with(|x| x.get())) - 1);
        }
        if (X::K::KNAME == "f32" || X::K::KNAME == "f64") && k >> 1 == 0 {
            k = c & 1;
        }
    }
    let kc = X::K::kcls(k);
    let (eq, hashes, buckets) = (kind(F_EQ), HASHES.with(|h| h.get()), s.count);
    let mut fv = |c: u32| X::V::norm(fr.next::<u32>(c));
    match code {
        0 | 1 => {
            let v = fv(c);
            added.push((k, v));
            cx.note(|| format!("insert {k} -> {v}"));
            let (had, old) = s.t.insert(X::K::mk(k), X::V::mk(v));
            match s.m.get_mut(&kc) {
                Some(e) => {
                    cx.mark("insert of an existing key");
                    must!(cx, Class::Model, had, "insert({k}) reports a new key, but it was present");
                    must!(cx, Class::Model, X::SET || old == Some(e.1), "insert({k}) returned {old:?}, the old value was {}", e.1);
                    e.1 = v;
                }
                None => {
                    must!(cx, Class::Model, !had, "insert({k}) reports an existing key (old value {old:?}), but it was absent");
                    s.added(k, v, cx);
                }
            }
        }
        2 => {
            cx.note(|| format!("get {k}"));
            let kk = X::K::mk(k);
            let g = s.t.get(&kk);
            let w = s.m.get(&kc).copied();
            must!(cx, Class::Model, g.is_some() == w.is_some() && s.t.contains(&kk) == w.is_some(), "get({k}) gave {g:?}, expected {w:?}");
            if let (Some((gk, gv)), Some((wk, wv))) = (g, w) {
                must!(cx, Class::Model, gv == wv && gk.unwrap_or(wk) == wk, "get({k}) gave {g:?}, expected {w:?}");
                if wk != k {
                    cx.mark("found by an equivalent key")
                }
            }
        }
        3 => {
            cx.note(|| format!("get_mut {k}"));
            let kk = X::K::mk(k);
            if !X::SET {
                let w = s.m.get(&kc).copied();
                let v = fv(c);
                match (s.t.get_mut(&kk), w) {
                    (Some(r), Some((_, wv))) => {
                        must!(cx, Class::Model, r.v() == wv, "get_mut({k}) gave {}, expected {wv}", r.v());
                        added.push((k, v));
                        refit(r, X::V::mk(v));
                        s.m.get_mut(&kc).unwrap().1 = v;
                    }
                    (None, None) => {}
                    (g, w) => fail!(cx, Class::Model, "get_mut({k}) found: {}, expected {w:?}", g.is_some()),
                }
            }
        }
        4 | 5 => {
            cx.note(|| format!("remove {k}"));
            let kk = X::K::mk(k);
            let g = if code == 4 { s.t.remove(&kk) } else { s.t.remove_entry(&kk) };
            let w = s.removed(k);
            match (g, w) {
                (None, None) => {}
                (Some((gk, gv)), Some((wk, wv))) => {
                    must!(cx, Class::Model, gv == wv && gk.unwrap_or(wk) == wk, "remove({k}) gave {g:?}, expected ({wk}, {wv})");
                    cx.mark("removed a key")
                }
                _ => fail!(cx, Class::Model, "remove({k}) gave {g:?}, expected {w:?}"),
            }
        }
        6 | 7 if !X::SET => {
            let (v, nv) = (fv(c), if b % 2 == 0 { Some(fv(c ^ 0x55)) } else { None });
            added.push((k, v));
            if let Some(x) = nv {
                added.push((k, x))
            }
            for e in s.m.get(&kc) {
                added.push((e.0, v));
                if let Some(x) = nv {
                    added.push((e.0, x))
                }
            }
            cx.note(|| format!("entry({k}) {} {v} {nv:?}", if code == 6 { "or_insert" } else { "and_modify or_insert_with" }));
            let mods = Cell::new(0);
            let mut seen = None;
            let r = s.t.entry(code - 6, X::K::mk(k), &mut seen, &mods, v, nv);
            let had = s.m.get(&kc).copied();
            if had.is_some() {
                cx.mark("entry of an existing key")
            }
            let want_seen = if code == 6 {
                had.map_or(v, |h| h.1)
            } else {
                had.map_or(v, |h| nv.unwrap_or(h.1))
            };
            let last = if code == 6 { nv.unwrap_or(want_seen) } else { want_seen };
            must!(cx, Class::Model, seen == Some(want_seen) && r == Some(last), "the entry of {k} shows {seen:?} then {r:?}, expected {want_seen} then {last}");
            if code == 7 {
                let w = if had.is_some() { 1 } else { 100 };
                must!(cx, Class::Model, mods.get() == w, "entry closures ran wrongly: {} (1: and_modify, 100: or_insert_with), expected {w}", mods.get());
            }
            if had.is_some() {
                s.m.get_mut(&kc).unwrap().1 = last;
            } else {
                s.added(k, last, cx);
            }
        }
        8 if !X::SET => {
            cx.note(|| format!("entry({k}), unused"));
            s.t.entry(2, X::K::mk(k), &mut None, &Cell::new(0), 0, None);
        }
        9 => {
            cx.note(|| "clear".into());
            if n > 0 {
                cx.mark("clear")
            }
            s.t.clear();
            s.m.clear();
        }
        10 if b % 3 != 0 => {
            let w = s.t.pairs(n + 2);
            must!(cx, Class::Model, w.len() == n, "iteration yields {} pairs of {n}", w.len());
            s.t.proto(&w, b / 3, c, cx)?;
        }
        10 => visible(s, cx, true)?,
        11 => {
            let mut seen = Pairs::new();
            let m = &mut s.m;
            s.t.each_mut(&mut |k, v| {
                seen.push((k, v.v()));
                if k % 3 == a % 3 {
                    let x = fv(c);
                    refit(v, X::V::mk(x));
                    if let Some(e) = m.get_mut(&X::K::kcls(k)) {
                        e.1 = x;
                    }
                }
            });
            must!(cx, Class::Model, X::SET || seen.len() == n, "iter_mut yields {} pairs of {n}", seen.len());
        }
        12 => {
            let g = s.t.dbg();
            let p = s.t.pairs(n + 2);
            let w: Vec<String> = p.iter().map(|&(k, v)| if X::SET { format!("{:?}", X::K::mk(k)) } else { format!("{:?}: {v}", X::K::mk(k)) }).collect();
            if X::V::VNAME != "u32x3" {
                must!(cx, Class::Model, g == format!("{{{}}}", w.join(",")), "rendered as {g}");
            }
        }
        14 => {
            let large = b == LARGE && [8000, 62500, 31000, 20_000, 15400].contains(&a) && matches!(KIND.with(|k| k.get()), 0 | 3 | 6 | 7);
            // small floats share one bucket, and filling it takes quadratic time
            let float = matches!(X::K::KNAME, "f32" | "f64");
            let k = a as usize % if large && float { 3000 } else if large { 70000 } else { 300 };
            cx.note(|| format!("insert {k} keys"));
            for j in 0..k as u32 {
                let kv = key::<X::K>(if large { (c & 0xffff) + j } else { c.wrapping_add(j.wrapping_mul(c | 1)) }, if large { 5 } else { univ });
                let kc = X::K::kcls(kv);
                let v = fv(c.wrapping_add(j));
                added.push((kv, v));
                let (had, _) = s.t.insert(X::K::mk(kv), X::V::mk(v));
                must!(cx, Class::Model, had == s.m.contains_key(&kc), "insert({kv}) reports existing: {had}");
                if had {
                    s.m.get_mut(&kc).unwrap().1 = v;
                } else {
                    s.added(kv, v, cx);
                }
            }
            if k > 5000 {
                cx.mark("more than 5000 keys")
            }
        }
        15 => {
            let ks: Vec<u32> = s.m.values().map(|x| x.0).filter(|k| k.wrapping_mul(0x9E37_79B9) >> 16 & 7 <= b % 8).take(if n > 5000 { 100 } else { 2000 }).collect();
            cx.note(|| format!("remove {} keys", ks.len()));
            for k in ks {
                let w = s.removed(k).unwrap();
                let g = s.t.remove_entry(&X::K::mk(k));
                must!(cx, Class::Model, g.is_some_and(|g| g.1 == w.1 && g.0.unwrap_or(w.0) == w.0), "remove({k}) gave {g:?}, expected {w:?}");
            }
        }
        16 | 17 if cx.on(Class::Compat) => {
            let order = s.t.pairs(n + 2);
            must!(cx, Class::Model, order.len() == n, "iteration yields {} of {n} pairs", order.len());
            let skip = if b % 4 == 0 { n } else { a as usize % (n + 1) };
            cx.note(|| format!("convert an iterator after {skip} of {n} steps"));
            if skip > 0 && skip < n {
                cx.mark("converted a partly consumed iterator")
            }
            if n == skip {
                cx.mark("converted an exhausted iterator")
            }
            let mut news = vec![];
            let (p, got) = s.t.compat(c % 2 + if code == 17 { 1 } else { 0 } * 2, skip, n + 2, &mut |k, v| {
                let x = fv(c);
                refit(v, X::V::mk(x));
                news.push((k, x));
            });
            let m0 = s.m.clone();
            for (k, x) in news {
                added.push((k, x));
                if let Some(e) = s.m.get_mut(&X::K::kcls(k)) {
                    e.1 = x;
                }
            }
            must!(cx, Class::Compat, got == order[skip..], "the reconverted iterator yields {}, expected {}", showp(&got), showp(&order[skip..]));
            let w = cpp_walk::<X>(&mut s.t, p, n + 1);
            let want: Vec<u32> = order[skip..].iter().map(|x| x.0).collect();
            match w {
                Err(e) => fail!(cx, Class::Compat, "C++ loop over the converted iterator: {e}"),
                Ok(v) => must!(cx, Class::Compat, v == want, "C++ loop over the converted iterator visits keys {}, expected {}", show(&v), show(&want)),
            }
            let _ = m0;
        }
        18 if cx.on(Class::Compat) => {
            let order = s.t.pairs(n + 2);
            let skip = if b % 4 == 0 { n } else { a as usize % (n + 1) };
            cx.note(|| format!("C++ iterator at position {skip} of {n}"));
            cx.mark("iterator made by foreign code");
            let r = rawt(&mut s.t);
            let mut it = cpp_begin(r);
            for _ in 0..skip {
                it = cpp_next::<X>(it);
            }
            let end = cpp_end(r);
            let mut news = vec![];
            let got = s.t.from_cpp(c, [it, end], n + 2, &mut |k, v| {
                let x = fv(c);
                refit(v, X::V::mk(x));
                news.push((k, x));
            });
            for (k, x) in news {
                added.push((k, x));
                if let Some(e) = s.m.get_mut(&X::K::kcls(k)) {
                    e.1 = x;
                }
            }
            must!(cx, Class::Compat, got == order[skip..], "an iterator from a C++ pair yields {}, expected {}", showp(&got), showp(&order[skip..]));
        }
        19 => {
            if s.m.contains_key(&kc) {
                return Ok(());
            }
            let v = fv(c);
            cx.foreign = true;
            cx.note(|| format!("C++ insert {k} -> {v}"));
            cx.mark("foreign insertion");
            let old = s.count;
            s.added(k, v, cx);
            if s.count != old {
                let new = s.count;
                s.count = old;
                cpp_rehash(s, new);
                rawt(&mut s.t).next_resize = fits(new, s.mlf)[1];
            }
            let tag = s.tag;
            let r = rawt(&mut s.t);
            unsafe {
                let p: *mut CNode<X::K, X::V> = X::alloc_nodes(tag, 1);
                let b = r.arr.add(X::K::khash(k) % r.count as usize);
                p.write(CNode { k: X::K::mk(k), v: X::V::mk(v), next: *b });
                *b = p;
                r.elems += 1;
            }
        }
        20 => {
            if n == 0 {
                return Ok(());
            }
            let (k, _) = *s.m.values().nth(a as usize % n).unwrap();
            cx.foreign = true;
            cx.note(|| format!("C++ erase {k}"));
            cx.mark("foreign removal");
            let tag = s.tag;
            let r = rawt(&mut s.t);
            unsafe {
                let mut b = r.arr.add(X::K::khash(k) % r.count as usize);
                while !(*b).is_null() && (**b).k.v() != k {
                    b = &mut (**b).next;
                }
                must!(cx, Class::Struct, !(*b).is_null(), "C++ does not find key {k}");
                let p = *b;
                *b = (*p).next;
                drop(std::ptr::read(&(*p).k));
                drop(std::ptr::read(&(*p).v));
                X::free_nodes(tag, p, 1);
                r.elems -= 1;
            }
            s.removed(k);
        }
        21 => {
            let least = (n as f64 / s.mlf).ceil() as u32;
            let mut new = s.count.max(2).max(least) + if c % 4 == 0 { a % 2000 } else { a % 20 };
            if c % 2 == 1 {
                // the next growth is meant to end at a certain prime
                let p = PRIMES[(b >> 8) as usize % 60] as f64;
                new = new.max(if c % 4 == 1 { (p / s.growth) as u32 } else { ((p - 1.0) / s.growth).ceil() as u32 });
            }
            cx.foreign = true;
            cx.note(|| format!("C++ rehash({new})"));
            cx.mark("foreign rehash");
            cpp_rehash(s, new);
            if b % 2 == 0 {
                rawt(&mut s.t).next_resize = fits(new, s.mlf)[1];
            }
        }
        22 => {
            cx.foreign = true;
            cx.note(|| "C++ clear(true)".into());
            cx.mark("foreign reset");
            let tag = s.tag;
            let r = rawt(&mut s.t);
            unsafe {
                for i in 0..r.count as usize {
                    let mut p = *r.arr.add(i);
                    while !p.is_null() {
                        let nx = (*p).next;
                        drop(std::ptr::read(&(*p).k));
                        drop(std::ptr::read(&(*p).v));
                        X::free_nodes(tag, p, 1);
                        p = nx;
                    }
                }
                if r.count > 1 {
                    X::free_nodes(tag, r.arr, r.count as usize + 1);
                }
                r.arr = CPP_EMPTY.as_ptr() as *mut _;
                r.count = 1;
                r.elems = 0;
                r.next_resize = 0;
            }
            s.m.clear();
            s.count = 1;
        }
        23 => {
            if n == 0 {
                return Ok(());
            }
            let (k, _) = *s.m.values().nth(a as usize % n).unwrap();
            let v = fv(c);
            added.push((k, v));
            let r = rawt(&mut s.t);
            unsafe {
                let mut p = *r.arr.add(X::K::khash(k) % r.count as usize);
                while !p.is_null() && (*p).k.v() != k {
                    p = (*p).next;
                }
                must!(cx, Class::Struct, !p.is_null(), "C++ does not find key {k}");
                refit(&mut (*p).v, X::V::mk(v));
            }
            s.m.get_mut(&X::K::kcls(k)).unwrap().1 = v;
        }
        26 => {
            // set_max_load_factor, and the growth factor, a public field
            let mlf = [1.0, 2.0, 4.0, 0.5, 0.25, 0.0625, 0.75, if n < 50 { 1.0 / 128.0 } else { 1.5 }][a as usize % 8];
            let growth = [2.0, 2.0, 3.0, 4.0, 1.5][b as usize % 5];
            cx.foreign = true;
            cx.note(|| format!("C++ sets the load factor {mlf} and the growth factor {growth}"));
            cx.mark("foreign growth parameters");
            let r = rawt(&mut s.t);
            (r.mlf, r.growth, r.next_resize) = (mlf as f32, growth as f32, 0);
            (s.mlf, s.growth) = (mlf, growth);
            let need = (n as f64 / mlf).ceil() as u32;
            if need > s.count || need > 0 && s.count == 1 {
                let new = *PRIMES.iter().find(|&&p| p >= need).unwrap();
                cpp_rehash(s, new);
            }
        }
        _ => {}
    }
    if cx.on(Class::Cost) && code <= 8 {
        let (eq, hashes) = (kind(F_EQ) - eq, (HASHES.with(|h| h.get()) - hashes) as u64);
        let hk = X::K::khash(k) as u64;
        let chain = |c: u32| s.m.values().filter(|e| X::K::khash(e.0) as u64 % c.max(1) as u64 == hk % c.max(1) as u64).count() as u64;
        let longest = chain(buckets).max(chain(s.count));
        let looks = if code == 2 { 2 } else { 1 };
        let may = looks * (4 * longest + 8);
        if s.m.len() > 24 && longest < 4 {
            cx.mark("lookup among many keys in few of one bucket")
        }
        must!(cx, Class::Cost, eq <= may, "{} of a key in a bucket of {longest} among {} keys made {eq} comparisons, {may} are allowed", OPS[code as usize], s.m.len());
        let may = 6 * looks + if buckets == s.count { 0 } else { 4 * s.m.len() as u64 + 4 };
        must!(cx, Class::Cost, hashes <= may, "{} hashed {hashes} times among {} keys, {may} are allowed", OPS[code as usize], s.m.len());
    }
    Ok(())
}

fn cpp_begin<K, V>(r: &RawHT<K, V>) -> RawIt {
    unsafe {
        let mut b = r.arr;
        while (*b).is_null() {
            b = b.add(1);
        }
        RawIt { node: *b as usize, bucket: b as usize }
    }
}
fn cpp_end<K, V>(r: &RawHT<K, V>) -> RawIt {
    unsafe {
        let b = r.arr.add(r.count as usize);
        RawIt { node: *b as usize, bucket: b as usize }
    }
}
fn cpp_next<X: Tab>(i: RawIt) -> RawIt {
    unsafe {
        let mut n = (*(i.node as *mut CNode<X::K, X::V>)).next as usize;
        let mut b = i.bucket as *const usize;
        while n == 0 {
            b = b.add(1);
            n = *b;
        }
        RawIt { node: n, bucket: b as usize }
    }
}
/// what `for(; b != e; ++b)` visits; every access is checked first
fn cpp_walk<X: Tab>(t: &mut X, p: [RawIt; 2], limit: usize) -> Result<Vec<u32>, String> {
    let r = rawt(t);
    let (lo, hi) = (r.arr as usize, r.arr as usize + 8 * r.count as usize);
    let [mut b, e] = p;
    let mut v = vec![];
    while b.node != e.node {
        if v.len() >= limit {
            return Err(format!("the loop did not stop after {limit} elements"));
        }
        if b.node == !0 {
            return Err(format!("the loop runs past the sentinel after {} elements (end node is {:#x})", v.len(), e.node));
        }
        if b.bucket < lo || b.bucket >= hi {
            return Err(format!("the bucket pointer is outside the bucket array ({:#x} not in {lo:#x}..{hi:#x})", b.bucket));
        }
        match heap(|h| h.at(b.node)) {
            Some(_) => {}
            None => return Err(format!("node pointer {:#x} is no node", b.node)),
        }
        v.push(unsafe { (*(b.node as *mut CNode<X::K, X::V>)).k.v() });
        b = cpp_next::<X>(b);
    }
    if e.node != !0 {
        return Err(format!("the end iterator's node is {:#x}, not the sentinel C++ compares with", e.node));
    }
    if e.bucket != hi {
        return Err("the end iterator's bucket pointer is not the end of the bucket array".into());
    }
    Ok(v)
}

fn construct<X: Tab>(o: &[u32; 4], univ: u32, fr: &mut Fresh, added: &mut Pairs, cx: &mut Ctx) -> R<St<X>> {
    let [_, a, b, c] = *o;
    let kind = b % 5;
    let n = a as usize % 40;
    let items: Pairs = (0..n as u32)
        .map(|j| (key::<X::K>(c.wrapping_add(j.wrapping_mul(c >> 3 | 1)), univ), X::V::norm(fr.next::<u32>(c ^ j))))
        .collect();
    added.extend(&items);
    cx.note(|| format!("construct kind {kind} from {}", showp(&items)));
    let mut it = items.iter().map(|&(k, v)| {
        tick(F_ITER);
        (X::K::mk(k), X::V::mk(v))
    });
    let (t, tag) = X::cons(kind, 2 + c % 6, &mut it);
    let mut s = St { t, tag, m: BTreeMap::new(), count: 1, mlf: 1.0, growth: 2.0 };
    if kind > 2 {
        for (k, v) in items {
            match s.m.get_mut(&X::K::kcls(k)) {
                Some(e) => e.1 = v,
                None => s.added(k, v, cx),
            }
        }
    }
    Ok(s)
}

fn run<X: Tab>(case: &Case, cx: &mut Ctx) -> R {
    let mut fr = Fresh(case.c(5).wrapping_mul(1000));
    KIND.with(|k| k.set(case.c(2) % 12));
    SHIFT.with(|k| k.set(if X::CUSTOM { case.c(3) % 4 } else { 0 }));
    // a functor of its own need not agree with the key type's `==`
    let shift = SHIFT.with(|k| k.get());
    set_eq_shift(if X::DYN { [shift, 32, 31, 0][(case.c(1) + case.c(5)) as usize % 4] } else { shift });
    let univ = case.c(4);
    let mut slots: Vec<St<X>> = sealable_vec(2);
    let mut stay = [still::Stay::default(), still::Stay::default()];
    HASHES.with(|h| h.set(0));
    for kind in [0, 2] {
        let s = construct::<X>(&[13, 0, kind, 5], univ, &mut fr, &mut vec![], cx)?;
        slots.push(s);
    }
    let two = case.c(5) & 1 == 1;
    let mut arm = None;
    for (step, o) in case.ops.iter().enumerate() {
        cx.step = step;
        cx.ops_done += 1;
        let [code, a, b, c] = *o;
        let code = code % 27;
        let o = &[code, a, b, c];
        let si = if two { (c >> 1 & 1) as usize } else { 0 };
        if code == FAULT {
            arm = Some((a, b));
            continue;
        }
        let big = slots[0].m.len() + slots[1].m.len();
        budget(40_000_000 + 200 * big as u64);
        HASHES.with(|h| h.set(0));
        let mut added = Pairs::new();
        let before: Vec<Pairs> = slots.iter().map(|s| if arm.is_some() { s.sorted() } else { vec![] }).collect();
        let hit = {
            let (slots, fr, added) = (&mut slots, &mut fr, &mut added);
            guarded(&mut arm, cx, move |cx| match code {
                13 => {
                    slots[si] = construct::<X>(o, univ, fr, added, cx)?;
                    Ok(())
                }
                24 => {
                    let (x, y) = slots.split_at_mut(1);
                    std::mem::swap(&mut x[0], &mut y[0]);
                    Ok(())
                }
                _ => op(&mut slots[si], o, univ, fr, added, cx),
            })?
        };
        if hit {
            for (k, s) in slots.iter_mut().enumerate() {
                let got = s.t.pairs(before[k].len() + added.len() + 2);
                for (gk, gv) in &got {
                    let ok = |l: &Pairs| l.iter().any(|&(k, v)| X::K::kcls(k) == X::K::kcls(*gk) && v == *gv);
                    must!(cx, Class::Fault, ok(&before[k]) || ok(&added), "after a panic slot {k} holds ({gk}, {gv}), which was neither in it nor being added (before: {})", showp(&before[k]));
                }
                let m: BTreeMap<u64, (u32, u32)> = got.iter().map(|&(k, v)| (X::K::kcls(k), (k, v))).collect();
                must!(cx, Class::Fault, m.len() == got.len(), "after a panic slot {k} holds a key twice: {}", showp(&got));
                must!(cx, Class::Fault, s.t.len() == got.len(), "after a panic slot {k} reports length {} and holds {} pairs", s.t.len(), got.len());
                let mut sorted = got.clone();
                sorted.sort_unstable();
                refused(cx, OPS[code as usize], sorted == before[k], || showp(&got))?;
                s.m = m;
                let r = rawt(&mut s.t);
                let fit = if r.count == 1 { got.is_empty() } else { got.len() as u32 <= fits(r.count, s.mlf)[1] };
                must!(cx, Class::Fault, fit, "after a panic slot {k} holds {} pairs in {} buckets", got.len(), r.count);
                s.count = r.count;
            }
        }
        for k in 0..2 {
            if k == si || code == 24 || step % 8 == 7 {
                let s = &mut slots[k];
                let deep = (step + a as usize) % 3 == 0 && (big < 3000 || step % 8 == 0);
                visible(s, cx, deep)?;
                if (cx.on(Class::Struct) || cx.on(Class::Layout) || cx.on(Class::Alloc)) && (deep || s.m.len() < 30) {
                    let order = structure(s, cx)?;
                    if cx.on(Class::Layout) {
                        layout(s, &order, cx)?;
                    }
                }
                let s = &slots[k];
                if cx.on(Class::Addr) && (big < 3000 || step % 8 == 0) {
                    stay[k].see(s.t.places(), matches!(code, 13 | 24), OPS[code as usize], cx)?;
                }
                if big < 500 || step % 8 == 0 {
                    still::shared(cx, &[still::span(&s.t)], a ^ c, |cx| reads(s, univ, a ^ c, cx))?;
                }
            }
        }
        cx.poll()?;
    }
    cx.step = case.ops.len();
    cx.note(|| "drop".into());
    budget(u64::MAX / 4);
    drop(slots);
    cx.poll()
}

pub fn subjects(out: &mut Vec<Subject>) {
    macro_rules! s {
        ($($n:literal $t:ty;)*) => {$(
            out.push(Subject {
                name: format!("{}/{}{}/{}", $n, <<$t as Tab>::K as KeyT>::KNAME,
                    if <$t as Tab>::SET { String::new() } else { format!("-{}", <<$t as Tab>::V as ValT>::VNAME) }, <$t as Tab>::AN),
                gen,
                run: run::<$t>,
                ops: OPS,
            });
        )*};
    }
    s! {
        "hmap" HashMap<T<0>, T<0>, TA>;
        "hmap" HashMap<u32, u32, TA>;
        "hmap" HashMap<u64, u8, TA>;
        "hmap" HashMap<u8, [u32; 3], TA>;
        "hmap" HashMap<i8, T4, TA>;
        "hmap" HashMap<u16, u16, TA>;
        "hmap" HashMap<i16, u8, TA>;
        "hmap" HashMap<i32, u64, TA>;
        "hmap" HashMap<i64, T<0>, FA>;
        "hmap" HashMap<usize, u32, DA>;
        "hmap" HashMap<isize, u8, TA>;
        "hmap" HashMap<f32, u32, TA>;
        "hmap" HashMap<f64, T<0>, TA>;
        "hmap" HashMap<bool, u32, TA>;
        "hmap" HashMap<EString<TA>, T<0>, TA>;
        "hmap" HashMap<&'static str, u32, TA>;
        "hmap" HashMap<T4, B7, TA>;
        "hmap" HashMap<T<8>, u8, FA>;
        "hmap" HashMap<B7, u64, DA>;
        "hmap" HashMap<A16, T<0>, TA>;
        "hmapx" HashMap<T<0>, T4, TA, DynH, DynE>;
        "hmapx" HashMap<T<8>, T<0>, FA, DynH, DynE>;
        "hset" HashSet<T<0>, TA>;
        "hset" HashSet<u32, TA>;
        "hset" HashSet<u8, TA>;
        "hset" HashSet<i64, DA>;
        "hset" HashSet<EString<TA>, TA>;
        "hset" HashSet<B7, FA>;
        "hset" HashSet<f32, TA>;
        "hset" HashSet<A16, TA>;
        "hsetx" HashSet<T4, TA, DynH, DynE>;
        "hsetx" HashSet<T<0>, FA, DynH, DynE>;
    }
}
