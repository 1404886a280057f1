//! Instrumented world: tracked elements, allocators, call-back budget and fault injection.
use crate::core::{pend, Class, Ctx, R};
use eastl_rs::allocator::{Allocator, DefaultAllocator};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use std::collections::BTreeMap;
use std::fmt::Debug;

// ---------------------------------------------------------------------------------------------
// call-back ticks: budget against endless loops, fault injection

pub const F_EQ: u32 = 1;
pub const F_CMP: u32 = 2;
pub const F_HASH: u32 = 4;
pub const F_CLONE: u32 = 8;
pub const F_ITER: u32 = 16;
pub const F_CLOSURE: u32 = 32;
pub const F_FMT: u32 = 64;
/// the allocator is asked for memory
pub const F_ALLOC: u32 = 128;
/// an element is destroyed
pub const F_DROP: u32 = 256;
pub const F_NONE: u32 = 0;

thread_local! {
    static TICKS: Cell<u64> = const { Cell::new(0) };
    static BUDGET: Cell<u64> = const { Cell::new(u64::MAX) };
    static FAULT_MASK: Cell<u32> = const { Cell::new(0) };
    static FAULT_LEFT: Cell<u32> = const { Cell::new(0) };
    static FAULT_HIT: Cell<bool> = const { Cell::new(false) };
    static FAULT_KIND: Cell<u32> = const { Cell::new(0) };
    static KINDS: [Cell<u64>; 9] = const { [const { Cell::new(0) }; 9] };
}
thread_local! {
    static EQ_SHIFT: Cell<u32> = const { Cell::new(0) };
}
/// tracked elements compare equal when they agree above the lowest `s` bits (32: never)
pub fn set_eq_shift(s: u32) {
    EQ_SHIFT.with(|x| x.set(s))
}
pub const INJECTED: &str = "INJECTED-FAULT";

/// every call-back from a container goes through here
pub fn tick(kind: u32) {
    TICKS.with(|t| {
        let n = t.get() + 1;
        t.set(n);
        if n > BUDGET.with(|b| b.get()) && !std::thread::panicking() {
            BUDGET.with(|b| b.set(u64::MAX));
            panic!("call-back budget exceeded: the operation does not terminate");
        }
    });
    if kind != 0 {
        KINDS.with(|c| {
            let c = &c[kind.trailing_zeros() as usize % 9];
            c.set(c.get() + 1)
        })
    }
    if kind != 0 && FAULT_MASK.with(|m| m.get()) & kind != 0 {
        let left = FAULT_LEFT.with(|l| l.get());
        if left == 0 {
            FAULT_MASK.with(|m| m.set(0));
            FAULT_HIT.with(|m| m.set(true));
            FAULT_KIND.with(|k| k.set(kind));
            panic!("{}", INJECTED);
        }
        FAULT_LEFT.with(|l| l.set(left - 1));
    }
}
/// how many call-backs of one kind there have been
pub fn kind(k: u32) -> u64 {
    KINDS.with(|c| c[k.trailing_zeros() as usize % 9].get())
}
pub fn budget(n: u64) {
    let now = TICKS.with(|t| t.get());
    BUDGET.with(|b| b.set(now.saturating_add(n)));
}
pub fn ticks() -> u64 {
    TICKS.with(|t| t.get())
}
pub fn arm_fault(mask: u32, after: u32) {
    FAULT_MASK.with(|m| m.set(mask));
    FAULT_LEFT.with(|l| l.set(after));
    FAULT_HIT.with(|m| m.set(false));
}
/// replaces an element with no panic from the destructor of the old one: not the container's doing
pub fn refit<E>(x: &mut E, n: E) {
    calm(|| *x = n)
}
pub fn calm<T>(f: impl FnOnce() -> T) -> T {
    const ON: u32 = 1 << 31;
    let m = FAULT_MASK.with(|m| m.get());
    if m == 0 {
        return f();
    }
    FAULT_MASK.with(|x| x.set(m & !F_DROP | ON));
    let r = f();
    FAULT_MASK.with(|x| {
        if x.get() != 0 {
            x.set(m)
        }
    });
    r
}
pub fn disarm_fault() -> bool {
    FAULT_MASK.with(|m| m.set(0));
    FAULT_HIT.with(|m| m.replace(false))
}
/// what the last injected panic came from
pub fn fault_kind() -> u32 {
    FAULT_KIND.with(|k| k.get())
}
pub fn fault_armed() -> bool {
    FAULT_MASK.with(|m| m.get()) != 0
}

// ---------------------------------------------------------------------------------------------
// tracked elements

pub struct Reg {
    st: Vec<(bool, u32)>, // alive, value
    live: usize,
}
thread_local! {
    static REG: UnsafeCell<Reg> = const { UnsafeCell::new(Reg { st: Vec::new(), live: 0 }) };
}
const BASE: u32 = 0x0051_0000;
fn reg<T>(f: impl FnOnce(&mut Reg) -> T) -> T {
    REG.with(|r| f(unsafe { &mut *r.get() }))
}
fn reg_new(v: u32) -> u32 {
    reg(|r| {
        r.st.push((true, v));
        r.live += 1;
        BASE + (r.st.len() as u32 - 1)
    })
}
/// value of a live element, or None
fn reg_val(id: u32) -> Option<u32> {
    reg(|r| match r.st.get(id.wrapping_sub(BASE) as usize) {
        Some(&(true, v)) => Some(v),
        _ => None,
    })
}
fn reg_set(id: u32, v: u32) {
    reg(|r| {
        if let Some(s) = r.st.get_mut(id.wrapping_sub(BASE) as usize) {
            s.1 = v
        }
    })
}
fn reg_drop(id: u32) -> Result<(), &'static str> {
    reg(|r| match r.st.get_mut(id.wrapping_sub(BASE) as usize) {
        Some(s) if s.0 => {
            s.0 = false;
            r.live -= 1;
            Ok(())
        }
        Some(_) => Err("destroyed a second time"),
        None => Err("destroyed although it was never created (uninitialised or overwritten memory)"),
    })
}
pub fn reg_live() -> usize {
    reg(|r| r.live)
}
fn reg_reset() {
    reg(|r| {
        r.st.clear();
        r.live = 0;
    })
}
fn reg_leaked() -> Vec<u32> {
    reg(|r| r.st.iter().filter(|s| s.0).map(|s| s.1).take(5).collect())
}

/// An element type usable in every engine.
pub trait Elem: Clone + PartialEq + PartialOrd + Debug + 'static {
    const TRACKED: bool;
    const NAME: &'static str;
    fn mk(v: u32) -> Self;
    /// value, validating that the element is alive
    fn v(&self) -> u32;
    fn set(&mut self, v: u32);
    /// what value survives storage in this type
    fn norm(v: u32) -> u32 {
        v
    }
    /// identity of the object (tracked only)
    fn ident(&self) -> u32 {
        0
    }
}

macro_rules! plain {
    ($t:ty, $n:literal) => {
        impl Elem for $t {
            const TRACKED: bool = false;
            const NAME: &'static str = $n;
            fn mk(v: u32) -> Self {
                v as $t
            }
            fn v(&self) -> u32 {
                *self as u32
            }
            fn set(&mut self, v: u32) {
                *self = v as $t
            }
            fn norm(v: u32) -> u32 {
                (v as $t) as u32
            }
        }
    };
}
plain!(u8, "u8");
plain!(u16, "u16");
plain!(u32, "u32");
plain!(u64, "u64");

/// elements of odd sizes, of alignment 1
#[derive(Clone, Copy, PartialEq, PartialOrd)]
#[repr(transparent)]
pub struct By<const N: usize>([u8; N]);
impl<const N: usize> Debug for By<N>
where
    By<N>: Elem,
{
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.v())
    }
}
macro_rules! bytes {
    ($($n:literal)*) => {$(
        impl Elem for By<$n> {
            const TRACKED: bool = false;
            const NAME: &'static str = concat!("u8x", $n);
            fn mk(v: u32) -> Self {
                By(std::array::from_fn(|i| v.rotate_left(8 * i as u32) as u8 ^ (i as u8 & 0xfc)))
            }
            fn v(&self) -> u32 {
                let b = &self.0;
                let v = b[0] as u32 | (b[1] as u32) << 24 | (b[2] as u32) << 16 | (b[3] as u32) << 8;
                if *self != Self::mk(v) {
                    pend(Class::Model, format!("torn element {b:?}"));
                    return 0xDEAD_BEEF;
                }
                v
            }
            fn set(&mut self, v: u32) {
                *self = Self::mk(v)
            }
        }
    )*};
}
bytes!(5 9 17 33);

impl Elem for [u32; 3] {
    const TRACKED: bool = false;
    const NAME: &'static str = "u32x3";
    fn mk(v: u32) -> Self {
        [v, !v, v.rotate_left(9)]
    }
    fn v(&self) -> u32 {
        if self[1] != !self[0] || self[2] != self[0].rotate_left(9) {
            pend(Class::Model, format!("torn element {:?}", self));
            return 0xDEAD_BEEF;
        }
        self[0]
    }
    fn set(&mut self, v: u32) {
        *self = Self::mk(v)
    }
}

/// 4-byte tracked element
#[repr(C)]
pub struct T4 {
    id: u32,
}
/// tracked element of 8 + N bytes
#[repr(C)]
pub struct T<const N: usize> {
    id: u32,
    val: u32,
    pad: [u8; N],
}
/// over-aligned tracked elements
#[repr(C, align(16))]
pub struct A16 {
    id: u32,
    val: u32,
}
#[repr(C, align(64))]
pub struct A64 {
    id: u32,
    val: u32,
}
/// tracked element with 1-byte alignment and odd size
#[repr(C)]
pub struct B7 {
    id: [u8; 4],
    pad: [u8; 3],
}

trait Raw {
    fn id(&self) -> u32;
    /// does the rest of the element agree with its identity and value?
    fn intact(&self, v: u32) -> bool;
    fn fresh(id: u32, v: u32) -> Self;
    fn put(&mut self, v: u32);
    const RNAME: &'static str;
}
impl Raw for T4 {
    fn id(&self) -> u32 {
        self.id
    }
    fn intact(&self, _v: u32) -> bool {
        true
    }
    fn fresh(id: u32, _v: u32) -> Self {
        T4 { id }
    }
    fn put(&mut self, _v: u32) {}
    const RNAME: &'static str = "t4";
}
impl<const N: usize> Raw for T<N> {
    fn id(&self) -> u32 {
        self.id
    }
    fn intact(&self, v: u32) -> bool {
        self.val == v
            && self
                .pad
                .iter()
                .enumerate()
                .all(|(i, &b)| b == (self.id.wrapping_mul(31).wrapping_add(i as u32)) as u8)
    }
    fn fresh(id: u32, v: u32) -> Self {
        let mut pad = [0; N];
        for (i, b) in pad.iter_mut().enumerate() {
            *b = (id.wrapping_mul(31).wrapping_add(i as u32)) as u8
        }
        T { id, val: v, pad }
    }
    fn put(&mut self, v: u32) {
        self.val = v
    }
    const RNAME: &'static str = match N {
        0 => "t8",
        8 => "t16",
        16 => "t24",
        24 => "t32",
        32 => "t40",
        _ => "tN",
    };
}
macro_rules! raw_al {
    ($t:ident, $n:literal) => {
        impl Raw for $t {
            fn id(&self) -> u32 {
                self.id
            }
            fn intact(&self, v: u32) -> bool {
                if (self as *const Self as usize) % std::mem::align_of::<Self>() != 0 {
                    pend(Class::Alloc, format!("misaligned element at {:p}", self));
                }
                self.val == v
            }
            fn fresh(id: u32, v: u32) -> Self {
                $t { id, val: v }
            }
            fn put(&mut self, v: u32) {
                self.val = v
            }
            const RNAME: &'static str = $n;
        }
    };
}
raw_al!(A16, "a16");
raw_al!(A64, "a64");
impl Raw for B7 {
    fn id(&self) -> u32 {
        u32::from_le_bytes(self.id)
    }
    fn intact(&self, _v: u32) -> bool {
        let id = self.id();
        self.pad == [(id ^ 0x5a) as u8, (id >> 8) as u8, 0x77]
    }
    fn fresh(id: u32, _v: u32) -> Self {
        B7 {
            id: id.to_le_bytes(),
            pad: [(id ^ 0x5a) as u8, (id >> 8) as u8, 0x77],
        }
    }
    fn put(&mut self, _v: u32) {}
    const RNAME: &'static str = "b7";
}

fn val_of<E: Raw>(e: &E, what: &str) -> u32 {
    let id = e.id();
    match reg_val(id) {
        Some(v) => {
            if !e.intact(v) {
                pend(Class::Own, format!("{what}: element with value {v} has corrupted bytes"));
            }
            v
        }
        None => {
            pend(
                Class::Own,
                format!("{what}: memory that holds no live element was used (id word {id:#x})"),
            );
            0xDEAD_0000 ^ id
        }
    }
}
macro_rules! tracked {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> Drop for $t {
            fn drop(&mut self) {
                tick(F_NONE);
                let id = self.id();
                if let Some(v) = reg_val(id) {
                    if !self.intact(v) {
                        pend(Class::Own, format!("element with value {v} was corrupted before destruction"));
                    }
                }
                if let Err(e) = reg_drop(id) {
                    pend(Class::Own, format!("element {e} (id word {id:#x})"));
                }
                // an element whose destructor panics is gone all the same
                if !std::thread::panicking() {
                    tick(F_DROP);
                }
            }
        }
        impl<$($g)*> Clone for $t {
            fn clone(&self) -> Self {
                tick(F_CLONE);
                let v = val_of(self, "clone");
                <$t as Elem>::mk(v)
            }
        }
        impl<$($g)*> PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                tick(F_EQ);
                let s = EQ_SHIFT.with(|s| s.get());
                if s > 31 {
                    return false;
                }
                val_of(self, "==") >> s == val_of(o, "==") >> s
            }
        }
        impl<$($g)*> PartialOrd for $t {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                tick(F_CMP);
                Some(val_of(self, "compare").cmp(&val_of(o, "compare")))
            }
        }
        impl<$($g)*> Debug for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                tick(F_FMT);
                write!(f, "{}", val_of(self, "Debug"))
            }
        }
        impl<$($g)*> Elem for $t {
            const TRACKED: bool = true;
            const NAME: &'static str = <$t as Raw>::RNAME;
            fn mk(v: u32) -> Self {
                <$t as Raw>::fresh(reg_new(v), v)
            }
            fn v(&self) -> u32 {
                val_of(self, "read")
            }
            fn set(&mut self, v: u32) {
                val_of(self, "write");
                reg_set(self.id(), v);
                self.put(v);
            }
            fn ident(&self) -> u32 {
                self.id()
            }
        }
    };
}
tracked!([] T4);
tracked!([const N: usize] T<N>);
tracked!([] A16);
tracked!([] A64);
tracked!([] B7);

// ---------------------------------------------------------------------------------------------
// memory that can be made read-only while a container is only being read

const ARENA: usize = 8 << 20;
static ARENA_LO: AtomicUsize = AtomicUsize::new(0);
static ARENA_AT: AtomicUsize = AtomicUsize::new(0);
static SEALED: AtomicBool = AtomicBool::new(false);
static WRITTEN: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static OBJ_ON: Cell<bool> = const { Cell::new(false) };
}
fn in_arena(a: usize) -> bool {
    let lo = ARENA_LO.load(Relaxed);
    lo != 0 && a >= lo && a < lo + ARENA
}
fn arena_take(n: usize, align: usize) -> usize {
    if ARENA_LO.load(Relaxed) == 0 || SEALED.load(Relaxed) {
        return 0;
    }
    let a = ARENA_AT.load(Relaxed).next_multiple_of(align.max(16));
    if a + n > ARENA_LO.load(Relaxed) + ARENA {
        return 0;
    }
    ARENA_AT.store(a + n, Relaxed);
    a
}
extern "C" fn on_write(sig: i32, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    unsafe {
        let a = (*info).si_addr() as usize;
        if SEALED.load(Relaxed) && in_arena(a) {
            if WRITTEN.load(Relaxed) == 0 {
                WRITTEN.store(a, Relaxed);
            }
            libc::mprotect(ARENA_LO.load(Relaxed) as *mut _, ARENA, libc::PROT_READ | libc::PROT_WRITE);
        } else {
            libc::signal(sig, libc::SIG_DFL);
        }
    }
}
/// from now on containers live in memory that can be sealed
pub fn arena_on() {
    if ARENA_LO.load(Relaxed) != 0 {
        return;
    }
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), ARENA, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
        if p == libc::MAP_FAILED {
            return;
        }
        let mut sa: libc::sigaction = std::mem::zeroed();
        sa.sa_sigaction = on_write as *const () as usize;
        sa.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK;
        libc::sigaction(libc::SIGSEGV, &sa, std::ptr::null_mut());
        ARENA_AT.store(p as usize, Relaxed);
        ARENA_LO.store(p as usize, Relaxed);
    }
}
pub fn seal() {
    let lo = ARENA_LO.load(Relaxed);
    WRITTEN.store(0, Relaxed);
    if lo != 0 {
        SEALED.store(true, Relaxed);
        let n = (ARENA_AT.load(Relaxed) - lo).next_multiple_of(4096).min(ARENA);
        unsafe { libc::mprotect(lo as *mut _, n, libc::PROT_READ) };
    }
}
/// the first address that was written to while sealed
pub fn unseal() -> Option<usize> {
    let lo = ARENA_LO.load(Relaxed);
    if lo != 0 {
        unsafe { libc::mprotect(lo as *mut _, ARENA, libc::PROT_READ | libc::PROT_WRITE) };
        SEALED.store(false, Relaxed);
    }
    Some(WRITTEN.load(Relaxed)).filter(|a| *a != 0)
}
/// what `f` allocates is placed where it can be sealed
pub fn sealable<T>(f: impl FnOnce() -> T) -> T {
    OBJ_ON.with(|o| o.set(true));
    let r = f();
    OBJ_ON.with(|o| o.set(false));
    r
}
pub fn sealable_box<T>(v: T) -> Box<T> {
    let b = sealable(Box::<T>::new_uninit);
    Box::write(b, v)
}
pub fn sealable_vec<T>(n: usize) -> Vec<T> {
    sealable(|| Vec::with_capacity(n))
}

// ---------------------------------------------------------------------------------------------
// instrumented heap

#[derive(Clone, Copy, Debug)]
pub struct Block {
    pub addr: usize,
    pub size: usize,
    pub align: usize,
    pub tag: u32,
    base: usize,
    total: usize,
    guard: usize,
    serial: u64,
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Reuse {
    /// freed blocks are kept, poisoned, and checked for later writes
    Quarantine,
    /// freed blocks are handed out again at once for a request of the same shape
    Recycle,
}
pub struct Heap {
    pub blocks: BTreeMap<usize, Block>,
    quarantine: Vec<Block>,
    pub fill: u8,
    pub reuse: Reuse,
    pub allocs: u64,
    pub frees: u64,
    pub allowed: u64, // bit per tag that may allocate now
    serial: u64,
    pub max_request: usize,
    pub fail_over: usize,
    pub live_allocators: [i64; 64],
    pub fat_bad: bool,
    /// address a harness-made stale region may be handed out from (memory reuse of a dead object)
    pub plant: Option<(usize, usize)>,
}
impl Heap {
    const fn new() -> Self {
        Heap {
            blocks: BTreeMap::new(),
            quarantine: Vec::new(),
            fill: 0xCD,
            reuse: Reuse::Quarantine,
            allocs: 0,
            frees: 0,
            allowed: !0,
            serial: 0,
            max_request: 0,
            fail_over: 1 << 30,
            live_allocators: [0; 64],
            fat_bad: false,
            plant: None,
        }
    }
}
thread_local! {
    static HEAP: UnsafeCell<Heap> = const { UnsafeCell::new(Heap::new()) };
}
pub fn heap<T>(f: impl FnOnce(&mut Heap) -> T) -> T {
    HEAP.with(|h| f(unsafe { &mut *h.get() }))
}
#[cfg(feature = "asan")]
extern "C" {
    fn __asan_poison_memory_region(p: *const u8, n: usize);
    fn __asan_unpoison_memory_region(p: *const u8, n: usize);
}
/// under the address sanitizer, reads of released or foreign memory stop the process as well
#[allow(unused_variables)]
fn poison(a: usize, n: usize) {
    #[cfg(feature = "asan")]
    unsafe {
        __asan_poison_memory_region(a as *const u8, n)
    }
}
#[allow(unused_variables)]
fn unpoison(a: usize, n: usize) {
    #[cfg(feature = "asan")]
    unsafe {
        __asan_unpoison_memory_region(a as *const u8, n)
    }
}
fn poison_guards(b: &Block) {
    poison(b.base, b.guard);
    poison(b.addr + b.size, 64);
}
const FREED: u8 = 0xDD;
const GUARD: u8 = 0xA5;

fn heap_alloc(tag: u32, n: usize, align: usize) -> *mut () {
    tick(F_ALLOC);
    heap(|h| {
        h.allocs += 1;
        h.max_request = h.max_request.max(n);
        if n == 0 {
            pend(Class::Alloc, "zero bytes requested from the allocator".into());
        }
        if !align.is_power_of_two() {
            pend(Class::Alloc, format!("alignment {align} requested"));
        }
        if tag < 64 && h.allowed & (1 << tag) == 0 {
            pend(
                Class::Alloc,
                format!("{n} bytes requested from allocator #{tag}, which the container does not own or may not use now"),
            );
        }
        if n > h.fail_over {
            panic!("harness allocator refuses {n} bytes");
        }
        let align = align.max(1).next_power_of_two();
        if let Some((a, l)) = h.plant {
            if a % align == 0 && n <= l && n > 0 {
                // memory of a dead object is reused for this block
                h.plant = None;
                h.serial += 1;
                let b = Block { addr: a, size: n, align, tag, base: 0, total: 0, guard: 0, serial: h.serial };
                unsafe { std::ptr::write_bytes(a as *mut u8, h.fill, n) };
                h.blocks.insert(a, b);
                return a as *mut ();
            }
        }
        if h.reuse == Reuse::Recycle {
            if let Some(i) = h
                .quarantine
                .iter()
                .rposition(|b| b.size == n && b.align == align && !(SEALED.load(Relaxed) && in_arena(b.addr)))
            {
                let mut b = h.quarantine.swap_remove(i);
                check_poison(&b);
                h.serial += 1;
                b.tag = tag;
                b.serial = h.serial;
                unsafe { std::ptr::write_bytes(b.addr as *mut u8, h.fill, n) };
                poison_guards(&b);
                h.blocks.insert(b.addr, b);
                return b.addr as *mut ();
            }
        }
        let guard = 64usize.max(align);
        let total = guard + n + 64;
        let mut base = arena_take(total, align);
        if base == 0 {
            base = unsafe { System.alloc(Layout::from_size_align(total, align.max(16)).unwrap()) } as usize;
        }
        if base == 0 {
            panic!("harness out of memory ({n} bytes)");
        }
        unsafe {
            std::ptr::write_bytes(base as *mut u8, GUARD, guard);
            std::ptr::write_bytes((base + guard) as *mut u8, h.fill, n);
            std::ptr::write_bytes((base + guard + n) as *mut u8, GUARD, 64);
        }
        h.serial += 1;
        let b = Block { addr: base + guard, size: n, align, tag, base, total, guard, serial: h.serial };
        poison_guards(&b);
        h.blocks.insert(b.addr, b);
        b.addr as *mut ()
    })
}
fn check_guards(b: &Block) {
    if b.total == 0 {
        return;
    }
    unpoison(b.base, b.guard);
    unpoison(b.addr + b.size, 64);
    unsafe {
        let lo = std::slice::from_raw_parts(b.base as *const u8, b.guard);
        let hi = std::slice::from_raw_parts((b.addr + b.size) as *const u8, 64);
        if let Some(i) = lo.iter().rposition(|&x| x != GUARD) {
            pend(Class::Alloc, format!("write {} bytes before a block of {} bytes", b.guard - i, b.size));
        }
        if let Some(i) = hi.iter().position(|&x| x != GUARD) {
            pend(Class::Alloc, format!("write {} bytes past the end of a block of {} bytes", i + 1, b.size));
        }
    }
}
fn check_poison(b: &Block) {
    unpoison(b.addr, b.size);
    check_guards(b);
    let s = unsafe { std::slice::from_raw_parts(b.addr as *const u8, b.size) };
    if let Some(i) = s.iter().position(|&x| x != FREED) {
        pend(Class::Alloc, format!("write into a released block of {} bytes at offset {i}", b.size));
    }
}
fn heap_free(tag: u32, p: *mut (), n: usize, align: usize) {
    tick(F_NONE);
    heap(|h| {
        h.frees += 1;
        let a = p as usize;
        let Some(b) = h.blocks.get(&a).copied() else {
            let q = h.quarantine.iter().any(|b| b.addr == a);
            pend(
                Class::Alloc,
                if q {
                    format!("block of {n} bytes returned twice")
                } else {
                    format!("{n} bytes returned to allocator #{tag} that were never obtained from it")
                },
            );
            return;
        };
        if b.size != n {
            pend(Class::Alloc, format!("block of {} bytes returned as {n} bytes", b.size));
        }
        if b.align != align {
            pend(Class::Alloc, format!("block with alignment {} returned with alignment {align}", b.align));
        }
        if b.tag != tag {
            pend(Class::Alloc, format!("block of allocator #{} returned to allocator #{tag}", b.tag));
        }
        h.blocks.remove(&a);
        check_guards(&b);
        unsafe { std::ptr::write_bytes(b.addr as *mut u8, FREED, b.size) };
        if b.total != 0 {
            poison(b.base, b.total);
            h.quarantine.push(b);
            if h.quarantine.len() > 4096 {
                // bound memory: retire the oldest half
                let rest = h.quarantine.split_off(2048);
                for b in std::mem::replace(&mut h.quarantine, rest) {
                    check_poison(&b);
                    raw_release(&b);
                }
            }
        }
    })
}
fn raw_release(b: &Block) {
    if b.total != 0 {
        unpoison(b.base, b.total);
        if in_arena(b.base) {
            return;
        }
        unsafe { System.dealloc(b.base as *mut u8, Layout::from_size_align_unchecked(b.total, b.align.max(16))) }
    }
}
impl Heap {
    /// block that contains `addr`
    pub fn find(&self, addr: usize) -> Option<Block> {
        self.blocks
            .range(..=addr)
            .next_back()
            .map(|(_, b)| *b)
            .filter(|b| addr < b.addr + b.size.max(1))
    }
    /// block that starts at `addr`
    pub fn at(&self, addr: usize) -> Option<Block> {
        self.blocks.get(&addr).copied()
    }
    pub fn live_bytes(&self) -> usize {
        self.blocks.values().map(|b| b.size).sum()
    }
}

/// A stateful C++-style allocator of one byte: the byte names the heap it belongs to.
#[repr(C)]
pub struct TA {
    pub tag: u8,
}
/// A larger allocator with a destructor.
#[repr(C)]
pub struct FA {
    magic: u32,
    pub tag: u32,
}
/// The crate's own default allocator, watched from both sides.
#[repr(transparent)]
pub struct DA(pub DefaultAllocator);

pub trait HAlloc: Allocator + Clone + Default + 'static {
    const NAME: &'static str;
    const DEFTAG: u32;
    fn mk(tag: u32) -> Self;
    fn tag(&self) -> u32;
}
impl Default for TA {
    fn default() -> Self {
        TA { tag: 1 }
    }
}
impl Clone for TA {
    fn clone(&self) -> Self {
        TA { tag: self.tag }
    }
}
impl HAlloc for TA {
    const NAME: &'static str = "ta";
    const DEFTAG: u32 = 1;
    fn mk(tag: u32) -> Self {
        TA { tag: tag as u8 }
    }
    fn tag(&self) -> u32 {
        self.tag as u32
    }
}
unsafe impl Allocator for TA {
    fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
        heap_alloc(self.tag as u32, n, align)
    }
    unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
        heap_free(self.tag as u32, p, n, align)
    }
}
const MAGIC: u32 = 0xFA11_0C8D;
impl FA {
    fn ok(&self, what: &str) -> bool {
        if self.magic != MAGIC || self.tag >= 64 {
            pend(Class::Own, format!("{what}: an allocator that was never constructed was used (words {:#x} {:#x})", self.magic, self.tag));
            return false;
        }
        true
    }
}
impl HAlloc for FA {
    const NAME: &'static str = "fa";
    const DEFTAG: u32 = 1;
    fn mk(tag: u32) -> Self {
        heap(|h| h.live_allocators[tag as usize & 63] += 1);
        FA { magic: MAGIC, tag }
    }
    fn tag(&self) -> u32 {
        self.tag
    }
}
impl Default for FA {
    fn default() -> Self {
        Self::mk(1)
    }
}
impl Clone for FA {
    fn clone(&self) -> Self {
        self.ok("clone");
        Self::mk(self.tag & 63)
    }
}
impl Drop for FA {
    fn drop(&mut self) {
        if self.ok("destroy") {
            heap(|h| h.live_allocators[self.tag as usize & 63] -= 1);
        }
        self.magic = 0xDEAD_A110;
    }
}
unsafe impl Allocator for FA {
    fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
        self.ok("allocate");
        heap_alloc(self.tag & 63, n, align)
    }
    unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
        self.ok("release");
        heap_free(self.tag & 63, p, n, align)
    }
}

// --- DefaultAllocator, watched through the process's global allocator ---

pub struct Spy;
thread_local! {
    static SPY_LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
    static SPY_ON: Cell<bool> = const { Cell::new(false) };
    static SPY_A: Cell<(usize, usize, usize, u32)> = const { Cell::new((0, 0, 0, 0)) };
    static SPY_D: Cell<(usize, usize, usize, u32)> = const { Cell::new((0, 0, 0, 0)) };
}
unsafe impl GlobalAlloc for Spy {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if SPY_ON.try_with(|s| s.get()).unwrap_or(false) && l.size() > SPY_LIMIT.with(|s| s.get()) {
            return std::ptr::null_mut();
        }
        let mut p = std::ptr::null_mut();
        if OBJ_ON.try_with(|s| s.get()).unwrap_or(false) || SPY_ON.try_with(|s| s.get()).unwrap_or(false) {
            p = arena_take(l.size(), l.align()) as *mut u8;
        }
        if p.is_null() {
            p = System.alloc(l);
        }
        if SPY_ON.try_with(|s| s.get()).unwrap_or(false) {
            SPY_A.with(|s| s.set((p as usize, l.size(), l.align(), s.get().3 + 1)));
            if !p.is_null() && l.size() < (1 << 26) {
                std::ptr::write_bytes(p, heap(|h| h.fill), l.size());
            }
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if SPY_ON.try_with(|s| s.get()).unwrap_or(false) {
            SPY_A.with(|s| s.set((p as usize, l.size(), l.align(), s.get().3 + 1)));
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if in_arena(p as usize) {
            let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
            }
            return q;
        }
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if SPY_ON.try_with(|s| s.get()).unwrap_or(false) {
            SPY_D.with(|s| s.set((p as usize, l.size(), l.align(), s.get().3 + 1)));
        }
        if in_arena(p as usize) {
            return;
        }
        System.dealloc(p, l)
    }
}
/// the system has no more than `n` bytes per block for the default allocator
pub fn spy_limit(n: usize) {
    SPY_LIMIT.with(|s| s.set(n))
}
struct SpyGuard;
impl SpyGuard {
    fn new() -> Self {
        SPY_A.with(|s| s.set((0, 0, 0, 0)));
        SPY_D.with(|s| s.set((0, 0, 0, 0)));
        SPY_ON.with(|s| s.set(true));
        SpyGuard
    }
}
impl Drop for SpyGuard {
    fn drop(&mut self) {
        SPY_ON.with(|s| s.set(false));
    }
}

impl Default for DA {
    fn default() -> Self {
        DA(DefaultAllocator::default())
    }
}
impl Clone for DA {
    fn clone(&self) -> Self {
        DA(DefaultAllocator::new())
    }
}
impl HAlloc for DA {
    const NAME: &'static str = "def";
    const DEFTAG: u32 = 0;
    fn mk(_tag: u32) -> Self {
        DA(DefaultAllocator::new())
    }
    fn tag(&self) -> u32 {
        0
    }
}
impl DA {
    fn watch(&mut self, n: usize, align: usize, f: impl FnOnce(&mut DefaultAllocator) -> *mut ()) -> *mut () {
        tick(F_ALLOC);
        let p = {
            let _g = SpyGuard::new();
            f(&mut self.0)
        };
        let (gp, gs, ga, gn) = SPY_A.with(|s| s.get());
        if p.is_null() {
            pend(Class::Cap, format!("the default allocator returned null for {n} bytes"));
            return p;
        }
        if n == 0 {
            pend(Class::Alloc, "zero bytes requested from the allocator".into());
        }
        if p as usize % align != 0 {
            pend(Class::Alloc, format!("default allocator returned {p:p} for alignment {align}"));
        }
        if gn != 1 || gp != p as usize || gs < n || ga < align {
            pend(
                Class::Alloc,
                format!("default allocator asked the system {gn} time(s), last for {gs} bytes aligned to {ga}, to serve {n} bytes aligned to {align}"),
            );
        }
        heap(|h| {
            h.allocs += 1;
            h.serial += 1;
            h.max_request = h.max_request.max(n);
            h.blocks.insert(
                p as usize,
                Block { addr: p as usize, size: n.min(gs), align, tag: 0, base: gs, total: 0, guard: ga, serial: h.serial },
            );
        });
        p
    }
    fn unwatch(&mut self, p: *mut (), n: usize, align: usize, f: impl FnOnce(&mut DefaultAllocator)) {
        tick(F_NONE);
        let Some(b) = heap(|h| h.blocks.remove(&(p as usize))) else {
            pend(Class::Alloc, format!("{n} bytes returned to the default allocator that it never handed out"));
            return;
        };
        heap(|h| h.frees += 1);
        {
            let _g = SpyGuard::new();
            if b.size != n || b.align != align {
                pend(
                    Class::Alloc,
                    format!("block of {} bytes (alignment {}) returned as {n} bytes (alignment {align})", b.size, b.align),
                );
                // released with what it was obtained with, so that this cannot corrupt the harness
                unsafe { self.0.deallocate_raw_aligned(p, b.size, b.align) };
                return;
            }
            f(&mut self.0);
        }
        let (gp, gs, ga, gn) = SPY_D.with(|s| s.get());
        if gn != 1 || gp != p as usize || gs != b.base || ga != b.guard {
            pend(
                Class::Alloc,
                format!("default allocator returned {gs} bytes aligned to {ga} to the system ({gn} call(s)) for a block obtained as {} bytes aligned to {}", b.base, b.guard),
            );
        }
    }
}
unsafe impl Allocator for DA {
    fn allocate<U>(&mut self, n: usize) -> *mut U {
        let bytes = n.saturating_mul(std::mem::size_of::<U>());
        self.watch(bytes, std::mem::align_of::<U>(), |a| a.allocate::<U>(n) as *mut ()) as *mut U
    }
    fn allocate_raw(&mut self, n: usize) -> *mut () {
        self.watch(n, 8, |a| a.allocate_raw(n))
    }
    fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
        self.watch(n, align, |a| a.allocate_raw_aligned(n, align))
    }
    unsafe fn deallocate<U>(&mut self, p: *mut U, n: usize) {
        self.unwatch(p as *mut (), n * std::mem::size_of::<U>(), std::mem::align_of::<U>(), |a| a.deallocate(p, n))
    }
    unsafe fn deallocate_raw(&mut self, p: *mut (), n: usize) {
        self.unwatch(p, n, 8, |a| a.deallocate_raw(p, n))
    }
    unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
        self.unwatch(p, n, align, |a| a.deallocate_raw_aligned(p, n, align))
    }
}

// ---------------------------------------------------------------------------------------------
// world life cycle

thread_local! {
    static PLACE_SHIFT: Cell<usize> = const { Cell::new(0) };
}
/// how far objects in place are off a highly aligned address, in units of their own alignment
pub fn place_shift() -> usize {
    PLACE_SHIFT.with(|s| s.get())
}

/// resets every registry; called before each case
pub fn world_begin(fill_sel: u32, reuse_sel: u32) {
    PLACE_SHIFT.with(|s| s.set((fill_sel as usize * 3 + reuse_sel as usize) % 8));
    disarm_fault();
    set_eq_shift(0);
    TICKS.with(|t| t.set(0));
    BUDGET.with(|b| b.set(u64::MAX));
    crate::core::PENDING.with(|p| p.borrow_mut().clear());
    reg_reset();
    heap(|h| {
        for b in std::mem::take(&mut h.blocks).values() {
            raw_release(b);
        }
        for b in std::mem::take(&mut h.quarantine) {
            raw_release(&b);
        }
        *h = Heap::new();
        ARENA_AT.store(ARENA_LO.load(Relaxed), Relaxed);
        h.fill = [0xCD, 0xFF, 0xCD, 0x5A, 0x01][fill_sel as usize % 5];
        h.reuse = if reuse_sel % 3 == 1 { Reuse::Recycle } else { Reuse::Quarantine };
    });
}
/// end-of-case audit: everything destroyed, everything returned, nothing overwritten
pub fn world_end(cx: &Ctx) -> R {
    budget(u64::MAX / 2);
    let live = reg_live();
    if live != 0 && !cx.leak_ok {
        pend(
            Class::Own,
            format!("{live} element(s) never destroyed, values {:?}", reg_leaked()),
        );
    }
    heap(|h| {
        for b in h.blocks.values() {
            check_guards(b);
        }
        for b in &h.quarantine {
            check_poison(b);
        }
        if !h.blocks.is_empty() && !cx.leak_ok {
            let v: Vec<_> = h.blocks.values().take(4).map(|b| (b.tag, b.size)).collect();
            pend(
                Class::Alloc,
                format!("{} block(s), {} bytes never returned to the allocator (allocator, size): {:?}", h.blocks.len(), h.live_bytes(), v),
            );
        }
        for (t, n) in h.live_allocators.iter().enumerate() {
            if *n < 0 || *n > 0 && !cx.leak_ok {
                pend(Class::Own, format!("allocator #{t}: {n} instance(s) never destroyed (negative: destroyed too often)"));
            }
        }
    });
    cx.poll()
}
/// is there a pending report (not consumed)?
pub fn any_pending() -> bool {
    crate::core::PENDING.with(|p| !p.borrow().is_empty())
}
