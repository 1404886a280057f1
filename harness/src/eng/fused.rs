//! Operations compiled together: short runs of operations behind one exclusive reference, on a container that lives
//! in the function, or drained by a loop, as an optimising compiler sees them in a user's code.
//! Everything is kept thin on purpose (an allocator of a few instructions, elements without bookkeeping): what the
//! instrumented types of the other engines do between two operations hides what an optimiser may assume.
use super::*;
use crate::must;
use eastl_rs::allocator::DefaultAllocator;
use eastl_rs::compare::Less;
use eastl_rs::fixed_list::FixedList;
use eastl_rs::fixed_vector::FixedVector;
use eastl_rs::hash::DefaultHash;
use eastl_rs::string::String as EString;
use eastl_rs::{Allocator, Deque, EqualTo, HashMap, HashSet, List, Queue, Vector, VectorMap};
use moveit::New;
use std::cell::Cell;
use std::collections::{BTreeMap, VecDeque};
use std::mem::MaybeUninit;
use std::pin::Pin;

thread_local! {
    static HELD: Cell<i64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
}
/// a stateful allocator of one byte
#[derive(Default, Clone)]
#[repr(C)]
pub struct Thin(u8);
unsafe impl Allocator for Thin {
    fn allocate_raw_aligned(&mut self, n: usize, align: usize) -> *mut () {
        if n == 0 {
            return std::ptr::null_mut();
        }
        HELD.with(|h| h.set(h.get() + n as i64));
        unsafe { std::alloc::alloc(std::alloc::Layout::from_size_align_unchecked(n, align)) as *mut () }
    }
    unsafe fn deallocate_raw_aligned(&mut self, p: *mut (), n: usize, align: usize) {
        if p.is_null() {
            return;
        }
        HELD.with(|h| h.set(h.get() - n as i64));
        std::alloc::dealloc(p as *mut u8, std::alloc::Layout::from_size_align_unchecked(n, align))
    }
}
pub trait Al: Allocator + Default + 'static {
    const AL: &'static str;
}
impl Al for Thin {
    const AL: &'static str = "thin";
}
impl Al for DefaultAllocator {
    const AL: &'static str = "def";
}
pub trait Val: Clone + std::fmt::Debug + 'static {
    const VAL: &'static str;
    const COUNTED: bool;
    fn mk(x: u32) -> Self;
    fn v(&self) -> u32;
    fn add(&mut self, x: u32);
}
impl Val for u32 {
    const VAL: &'static str = "u32";
    const COUNTED: bool = false;
    #[inline(always)]
    fn mk(x: u32) -> u32 {
        x
    }
    #[inline(always)]
    fn v(&self) -> u32 {
        *self
    }
    #[inline(always)]
    fn add(&mut self, x: u32) {
        *self = self.wrapping_add(x)
    }
}
/// owns something: counted
#[derive(Debug)]
pub struct Own(u32, u64);
impl Val for Own {
    const VAL: &'static str = "own";
    const COUNTED: bool = true;
    #[inline(always)]
    fn mk(x: u32) -> Own {
        LIVE.with(|l| l.set(l.get() + 1));
        Own(x, !(x as u64))
    }
    #[inline(always)]
    fn v(&self) -> u32 {
        if self.1 == !(self.0 as u64) {
            self.0
        } else {
            u32::MAX
        }
    }
    #[inline(always)]
    fn add(&mut self, x: u32) {
        self.0 = self.0.wrapping_add(x);
        self.1 = !(self.0 as u64);
    }
}
impl Clone for Own {
    fn clone(&self) -> Own {
        Own::mk(self.v())
    }
}
impl Drop for Own {
    #[inline(always)]
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
        std::hint::black_box(&self.0);
    }
}
const NONE: u64 = u64::MAX;
#[inline(always)]
fn opt<T: Val>(x: Option<T>) -> u64 {
    match x {
        Some(x) => x.v() as u64,
        None => NONE,
    }
}
#[inline(always)]
fn opr<T: Val>(x: Option<&T>) -> u64 {
    match x {
        Some(x) => x.v() as u64,
        None => NONE,
    }
}
#[inline(always)]
fn roll(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x100_0000_01b3).wrapping_add(1)
}
fn mopt(x: Option<u32>) -> u64 {
    x.map_or(NONE, |x| x as u64)
}
fn mroll<I: IntoIterator<Item = u32>>(it: I) -> u64 {
    it.into_iter().fold(0, |h, x| roll(h, x as u64))
}

/// a container, its operations (0 to 9) and their reference
pub trait Fuse: 'static {
    type C;
    type M: Default + Clone + PartialEq + std::fmt::Debug;
    const NAME: &'static str;
    const COUNTED: bool;
    unsafe fn build(at: *mut Self::C);
    fn one<const K: u8>(c: &mut Self::C, x: u32) -> u64;
    fn model(m: &mut Self::M, k: u8, x: u32) -> u64;
    fn contents(c: &Self::C) -> Self::M;
    fn len(m: &Self::M) -> usize;
}
type Run<C> = fn(&mut C, &[u32], &mut [u64]);
type Loc<M> = fn(&[u32], &mut [u64]) -> (M, u64);

#[inline(never)]
fn two<F: Fuse, const A: u8, const B: u8>(c: &mut F::C, x: &[u32], log: &mut [u64]) {
    let (x, log) = (&x[..2], &mut log[..2]);
    log[0] = F::one::<A>(c, x[0]);
    log[1] = F::one::<B>(c, x[1]);
}
#[inline(never)]
fn looped<F: Fuse, const A: u8, const B: u8>(c: &mut F::C, x: &[u32], log: &mut [u64]) {
    for (x, l) in x.chunks_exact(2).zip(log.chunks_exact_mut(2)) {
        l[0] = F::one::<A>(c, x[0]);
        l[1] = F::one::<B>(c, x[1]);
    }
}
/// a container which nobody else ever saw
#[inline(never)]
fn local<F: Fuse, const A: u8, const B: u8>(x: &[u32], log: &mut [u64]) -> (F::M, u64) {
    let (x, log) = (&x[..4], &mut log[..4]);
    let mut c = MaybeUninit::<F::C>::uninit();
    unsafe { F::build(c.as_mut_ptr()) };
    let c = unsafe { c.assume_init_mut() };
    log[0] = F::one::<A>(c, x[0]);
    log[1] = F::one::<A>(c, x[1]);
    log[2] = F::one::<B>(c, x[2]);
    log[3] = F::one::<A>(c, x[3]);
    let r = F::one::<7>(c, 0);
    let m = F::contents(c);
    unsafe { std::ptr::drop_in_place(c) };
    (m, r)
}
/// until an operation has nothing to give
#[inline(never)]
fn drain<F: Fuse, const A: u8>(c: &mut F::C, most: u32) -> u32 {
    let mut n = 0;
    while n < most && F::one::<A>(c, n) != NONE {
        n += 1
    }
    n
}
macro_rules! row {
    ($f:ident, $F:ty, $a:literal) => {
        [
            $f::<$F, $a, 0>, $f::<$F, $a, 1>, $f::<$F, $a, 2>, $f::<$F, $a, 3>, $f::<$F, $a, 4>,
            $f::<$F, $a, 5>, $f::<$F, $a, 6>, $f::<$F, $a, 7>, $f::<$F, $a, 8>, $f::<$F, $a, 9>,
        ]
    };
}
macro_rules! square {
    ($f:ident, $F:ty) => {
        [
            row!($f, $F, 0), row!($f, $F, 1), row!($f, $F, 2), row!($f, $F, 3), row!($f, $F, 4),
            row!($f, $F, 5), row!($f, $F, 6), row!($f, $F, 7), row!($f, $F, 8), row!($f, $F, 9),
        ]
    };
}
trait Tables: Fuse + Sized {
    const TWO: [[Run<Self::C>; 10]; 10] = square!(two, Self);
    const LOOPED: [[Run<Self::C>; 10]; 10] = square!(looped, Self);
    const LOCAL: [[Loc<Self::M>; 10]; 10] = square!(local, Self);
    const DRAIN: [fn(&mut Self::C, u32) -> u32; 10] = [
        drain::<Self, 0>, drain::<Self, 1>, drain::<Self, 2>, drain::<Self, 3>, drain::<Self, 4>,
        drain::<Self, 5>, drain::<Self, 6>, drain::<Self, 7>, drain::<Self, 8>, drain::<Self, 9>,
    ];
}
impl<F: Fuse> Tables for F {}

struct Held<F: Fuse>(Box<MaybeUninit<F::C>>);
impl<F: Fuse> Held<F> {
    fn new() -> Self {
        let mut b = Box::new(MaybeUninit::uninit());
        unsafe { F::build(b.as_mut_ptr()) };
        Held(b)
    }
    fn c(&mut self) -> &mut F::C {
        unsafe { self.0.assume_init_mut() }
    }
}
impl<F: Fuse> Drop for Held<F> {
    fn drop(&mut self) {
        unsafe { self.0.assume_init_drop() }
    }
}

const OPS: &[&str] = &["two", "loop", "drain", "local", "one"];
fn gen(r: &mut Rng, size: u32, _flags: u32) -> Case {
    let n = r.range(1, if size > 1 { 24 } else { 12 });
    let few = r.chance(1, 2);
    let some = [r.u(10), r.u(10), r.u(10)];
    let mut pick = |r: &mut Rng| if few && r.chance(2, 3) { *r.pick(&some) } else { r.u(10) };
    let ops = (0..n)
        .map(|_| {
            let k = [0, 0, 0, 0, 1, 1, 1, 2, 3, 3][r.u(10) as usize];
            let (a, b) = (pick(r), pick(r));
            let n = if r.chance(1, 6) { r.u(40) } else { r.u(8) };
            [k, a * 10 + b, n, r.r32()]
        })
        .collect();
    Case { subject: String::new(), cfg: vec![0, 0], ops }
}
fn run<F: Fuse>(case: &Case, cx: &mut Ctx) -> R {
    HELD.with(|h| h.set(0));
    LIVE.with(|h| h.set(0));
    let r = inner::<F>(case, cx);
    r?;
    must!(cx, Class::Own, LIVE.with(|l| l.get()) == 0, "{} elements are left when the container is gone", LIVE.with(|l| l.get()));
    must!(cx, Class::Alloc, HELD.with(|l| l.get()) == 0, "{} bytes are left when the container is gone", HELD.with(|l| l.get()));
    Ok(())
}
fn inner<F: Fuse>(case: &Case, cx: &mut Ctx) -> R {
    let mut h = Held::<F>::new();
    let mut m = F::M::default();
    for (i, o) in case.ops.iter().enumerate() {
        cx.step = i;
        let (a, b) = ((o[1] / 10 % 10) as u8, (o[1] % 10) as u8);
        let mut rr = Rng(o[3] as u64);
        let small = rr.chance(3, 4);
        let mut arg = || if small { rr.u(6) } else { rr.u(40) };
        match o[0] % 4 {
            3 => {
                cx.note(|| format!("local {a} {b}"));
                let x: Vec<u32> = (0..4).map(|_| arg()).collect();
                let mut log = [0; 4];
                let (got, sum) = F::LOCAL[a as usize][b as usize](&x, &mut log);
                let mut lm = F::M::default();
                let want: Vec<u64> = [(a, x[0]), (a, x[1]), (b, x[2]), (a, x[3])].iter().map(|&(k, x)| F::model(&mut lm, k, x)).collect();
                must!(cx, Class::Model, log[..] == want[..], "operations {a} {a} {b} {a} with {x:?} on a new container returned {log:x?}, expected {want:x?}");
                let ws = F::model(&mut lm, 7, 0);
                must!(cx, Class::Model, got == lm && sum == ws, "operations {a} {a} {b} {a} with {x:?} on a new container left {got:?}, expected {lm:?}");
                cx.mark("operations on a container no one else saw");
            }
            2 => {
                let most = o[2] % 64;
                cx.note(|| format!("drain {a}"));
                let got = F::DRAIN[a as usize](h.c(), most);
                let mut n = 0;
                while n < most && F::model(&mut m, a, n) != NONE {
                    n += 1
                }
                must!(cx, Class::Model, got == n, "operation {a} until it had nothing to give ran {got} times, expected {n}");
                if got > 1 {
                    cx.mark("the same operation until it had nothing to give");
                }
            }
            k => {
                let n = if k == 0 { 2 } else { 2 * (o[2] as usize % 64) };
                let x: Vec<u32> = (0..n).map(|_| arg()).collect();
                let mut log = vec![0u64; n];
                cx.note(|| format!("{} {a} {b} with {x:?}", OPS[k as usize]));
                let f = if k == 0 { F::TWO[a as usize][b as usize] } else { F::LOOPED[a as usize][b as usize] };
                let before = F::len(&m);
                f(h.c(), &x, &mut log);
                for (j, x) in x.iter().enumerate() {
                    let k = if j % 2 == 0 { a } else { b };
                    let want = F::model(&mut m, k, *x);
                    must!(cx, Class::Model, log[j] == want, "operations {a} and {b} in one function: call {j} returned {:x}, expected {want:x}", log[j]);
                }
                if before > 0 && n > 0 {
                    cx.mark(if k == 0 { "two operations on a filled container in one function" } else { "two operations on a filled container in a loop" });
                }
            }
        }
        let got = F::contents(h.c());
        must!(cx, Class::Model, got == m, "the container holds {got:?}, expected {m:?}");
        if F::COUNTED {
            let live = LIVE.with(|l| l.get());
            must!(cx, Class::Own, live == F::len(&m) as i64, "{live} elements are alive, the container holds {}", F::len(&m));
        }
    }
    Ok(())
}

// --- lists ---
macro_rules! lists {
    ($F:ident, $C:ty, $name:literal, [$($g:tt)*], [$($i:tt)*], $build:expr) => {
        pub struct $F<$($g)*>(std::marker::PhantomData<$C>);
        impl<$($g)*> Fuse for $F<$($i)*> {
            type C = $C;
            type M = VecDeque<u32>;
            const NAME: &'static str = $name;
            const COUNTED: bool = T::COUNTED;
            #[inline(always)]
            unsafe fn build(at: *mut Self::C) {
                $build.new(Pin::new_unchecked(&mut *(at as *mut MaybeUninit<Self::C>)))
            }
            #[inline(always)]
            fn one<const K: u8>(c: &mut Self::C, x: u32) -> u64 {
                match K {
                    0 => {
                        c.push_back(T::mk(x));
                        x as u64
                    }
                    1 => {
                        c.push_front(T::mk(x));
                        x as u64
                    }
                    2 => opt(c.pop_front()),
                    3 => opt(c.pop_back()),
                    4 => {
                        c.clear();
                        NONE
                    }
                    5 => roll(opr(c.front()), opr(c.back())),
                    6 => match (x % 2 == 0, if x % 2 == 0 { c.front_mut() } else { c.back_mut() }) {
                        (_, Some(v)) => {
                            v.add(x);
                            v.v() as u64
                        }
                        _ => NONE,
                    },
                    7 => c.iter().fold(0, |h, x| roll(h, x.v() as u64)),
                    8 => {
                        for v in c.iter_mut() {
                            v.add(x)
                        }
                        c.len() as u64
                    }
                    _ => {
                        if c.is_empty() {
                            NONE
                        } else {
                            c.size() as u64
                        }
                    }
                }
            }
            fn model(m: &mut VecDeque<u32>, k: u8, x: u32) -> u64 {
                match k {
                    0 => {
                        m.push_back(x);
                        x as u64
                    }
                    1 => {
                        m.push_front(x);
                        x as u64
                    }
                    2 => mopt(m.pop_front()),
                    3 => mopt(m.pop_back()),
                    4 => {
                        m.clear();
                        NONE
                    }
                    5 => roll(mopt(m.front().copied()), mopt(m.back().copied())),
                    6 => match if x % 2 == 0 { m.front_mut() } else { m.back_mut() } {
                        Some(v) => {
                            *v = v.wrapping_add(x);
                            *v as u64
                        }
                        None => NONE,
                    },
                    7 => mroll(m.iter().copied()),
                    8 => {
                        for v in m.iter_mut() {
                            *v = v.wrapping_add(x)
                        }
                        m.len() as u64
                    }
                    _ => {
                        if m.is_empty() {
                            NONE
                        } else {
                            m.len() as u64
                        }
                    }
                }
            }
            fn contents(c: &Self::C) -> VecDeque<u32> {
                c.iter().map(|x| x.v()).collect()
            }
            fn len(m: &Self::M) -> usize {
                m.len()
            }
        }
    };
}
lists!(FList, List<T, A>, "list", [T: Val, A: Al], [T, A], List::<T, A>::new());
lists!(FFixedList, FixedList<T, N, A>, "flist", [T: Val, A: Al, const N: usize], [T, A, N], FixedList::<T, N, A>::new_with_default_overflow_allocator());

// --- deque and queue ---
pub struct FDeque<T, A>(std::marker::PhantomData<(T, A)>);
impl<T: Val, A: Al> Fuse for FDeque<T, A> {
    type C = Deque<'static, T, A>;
    type M = VecDeque<u32>;
    const NAME: &'static str = "deque";
    const COUNTED: bool = T::COUNTED;
    #[inline(always)]
    unsafe fn build(at: *mut Self::C) {
        at.write(Deque::new())
    }
    #[inline(always)]
    fn one<const K: u8>(c: &mut Self::C, x: u32) -> u64 {
        match K {
            0 => {
                c.push_back(T::mk(x));
                x as u64
            }
            1 => {
                c.push_front(T::mk(x));
                x as u64
            }
            2 => opt(c.pop_front()),
            3 => opt(c.pop_back()),
            4 => opt(c.remove(x as usize)),
            5 => roll(opr(c.front()), opr(c.back())),
            6 => match if x % 2 == 0 { c.front_mut() } else { c.back_mut() } {
                Some(v) => {
                    v.add(x);
                    v.v() as u64
                }
                _ => NONE,
            },
            7 => c.iter().fold(0, |h, x| roll(h, x.v() as u64)),
            8 => {
                for v in c.iter_mut() {
                    v.add(x)
                }
                c.len() as u64
            }
            _ => {
                if c.is_empty() {
                    NONE
                } else {
                    c.len() as u64
                }
            }
        }
    }
    fn model(m: &mut VecDeque<u32>, k: u8, x: u32) -> u64 {
        match k {
            4 => mopt(m.remove(x as usize)),
            _ => <FList<u32, Thin> as Fuse>::model(m, k, x),
        }
    }
    fn contents(c: &Self::C) -> VecDeque<u32> {
        c.iter().map(|x| x.v()).collect()
    }
    fn len(m: &Self::M) -> usize {
        m.len()
    }
}
pub struct FQueue<T, A>(std::marker::PhantomData<(T, A)>);
impl<T: Val, A: Al> Fuse for FQueue<T, A> {
    type C = Queue<'static, T, A>;
    type M = VecDeque<u32>;
    const NAME: &'static str = "queue";
    const COUNTED: bool = T::COUNTED;
    #[inline(always)]
    unsafe fn build(at: *mut Self::C) {
        at.write(Queue::new_in(A::default()))
    }
    #[inline(always)]
    fn one<const K: u8>(c: &mut Self::C, x: u32) -> u64 {
        match K {
            0 | 1 => {
                c.push(T::mk(x));
                x as u64
            }
            2 | 3 => opt(c.pop()),
            4 | 5 => opr(c.top()),
            7 => c.iter().fold(0, |h, x| roll(h, x.v() as u64)),
            6 | 8 => {
                for v in c.iter_mut() {
                    v.add(x)
                }
                c.len() as u64
            }
            _ => {
                if c.is_empty() {
                    NONE
                } else {
                    c.len() as u64
                }
            }
        }
    }
    fn model(m: &mut VecDeque<u32>, k: u8, x: u32) -> u64 {
        match k {
            0 | 1 => <FList<u32, Thin> as Fuse>::model(m, 0, x),
            2 | 3 => mopt(m.pop_front()),
            4 | 5 => mopt(m.front().copied()),
            6 | 8 => <FList<u32, Thin> as Fuse>::model(m, 8, x),
            _ => <FList<u32, Thin> as Fuse>::model(m, k, x),
        }
    }
    fn contents(c: &Self::C) -> VecDeque<u32> {
        c.iter().map(|x| x.v()).collect()
    }
    fn len(m: &Self::M) -> usize {
        m.len()
    }
}

// --- vectors ---
#[inline(always)]
fn vector_op<T: Val, A: Allocator, const K: u8>(c: &mut Vector<T, A>, x: u32) -> u64 {
    match K {
        0 => {
            c.push(T::mk(x));
            x as u64
        }
        1 => {
            let at = x as usize % (c.len() + 1);
            c.insert(at, T::mk(x));
            c.len() as u64
        }
        2 => opt(c.pop()),
        3 => opt(c.remove(x as usize)),
        4 => {
            c.clear();
            NONE
        }
        5 => {
            let k = x as usize % 4;
            c.append(&[T::mk(x), T::mk(x + 1), T::mk(x + 2), T::mk(x + 3)][..k]);
            c.len() as u64
        }
        6 => {
            let k = x as usize % 4;
            c.assign(&[T::mk(x), T::mk(x + 1), T::mk(x + 2), T::mk(x + 3)][..k]);
            c.len() as u64
        }
        7 => c.iter().fold(0, |h, x| roll(h, x.v() as u64)),
        8 => {
            for v in c.as_slice_mut() {
                v.add(x)
            }
            roll(opr(c.first()), opr(c.last()))
        }
        _ => {
            c.reserve(x as usize);
            (c.capacity() >= c.len() && c.is_empty() == (c.len() == 0) && c.is_full() == (c.len() == c.capacity())) as u64
        }
    }
}
fn vector_model(m: &mut Vec<u32>, k: u8, x: u32) -> u64 {
    match k {
        0 => {
            m.push(x);
            x as u64
        }
        1 => {
            let at = x as usize % (m.len() + 1);
            m.insert(at, x);
            m.len() as u64
        }
        2 => mopt(m.pop()),
        3 => mopt(if (x as usize) < m.len() { Some(m.remove(x as usize)) } else { None }),
        4 => {
            m.clear();
            NONE
        }
        5 | 6 => {
            if k == 6 {
                m.clear()
            }
            m.extend(x..x + x % 4);
            m.len() as u64
        }
        7 => mroll(m.iter().copied()),
        8 => {
            for v in m.iter_mut() {
                *v = v.wrapping_add(x)
            }
            roll(mopt(m.first().copied()), mopt(m.last().copied()))
        }
        _ => 1,
    }
}
macro_rules! whole {
    (mut $c:ident) => { $c };
    ($c:ident) => { $c };
}
macro_rules! base {
    (mut $c:ident) => { &mut **$c };
    ($c:ident) => { (**$c) };
}
macro_rules! vectors {
    ($F:ident, $C:ty, $name:literal, [$($g:tt)*], [$($i:tt)*], $deref:ident, |$at:ident| $build:expr) => {
        pub struct $F<$($g)*>(std::marker::PhantomData<$C>);
        impl<$($g)*> Fuse for $F<$($i)*> {
            type C = $C;
            type M = Vec<u32>;
            const NAME: &'static str = $name;
            const COUNTED: bool = T::COUNTED;
            #[inline(always)]
            unsafe fn build($at: *mut Self::C) {
                $build
            }
            #[inline(always)]
            fn one<const K: u8>(c: &mut Self::C, x: u32) -> u64 {
                if K == 4 {
                    c.clear();
                    return NONE;
                }
                vector_op::<T, _, K>($deref!(mut c), x)
            }
            fn model(m: &mut Vec<u32>, k: u8, x: u32) -> u64 {
                vector_model(m, k, x)
            }
            fn contents(c: &Self::C) -> Vec<u32> {
                $deref!(c).as_slice().iter().map(|x| x.v()).collect()
            }
            fn len(m: &Self::M) -> usize {
                m.len()
            }
        }
    };
}
vectors!(FVector, Vector<T, A>, "vec", [T: Val, A: Al], [T, A], whole, |at| at.write(Vector::new()));
vectors!(FFixedVector, FixedVector<T, N, A>, "fvec", [T: Val, A: Al, const N: usize], [T, A, N], base, |at| {
    FixedVector::<T, N, A>::new().new(Pin::new_unchecked(&mut *(at as *mut MaybeUninit<Self::C>)))
});

// --- strings ---
pub struct FString<A>(std::marker::PhantomData<A>);
const CHARS: [char; 5] = ['a', 'z', 'é', '€', '𝄞'];
#[inline(always)]
fn place(s: &str, x: u32) -> usize {
    let mut i = x as usize % (s.len() + 1);
    while !s.is_char_boundary(i) {
        i -= 1
    }
    i
}
impl<A: Al> Fuse for FString<A> {
    type C = EString<A>;
    type M = String;
    const NAME: &'static str = "string";
    const COUNTED: bool = false;
    #[inline(always)]
    unsafe fn build(at: *mut Self::C) {
        at.write(EString::new_in(A::default()))
    }
    #[inline(always)]
    fn one<const K: u8>(c: &mut Self::C, x: u32) -> u64 {
        match K {
            0 => {
                c.push(CHARS[x as usize % 5]);
                c.len() as u64
            }
            1 => {
                let i = place(c, x);
                c.insert(i, CHARS[x as usize % 5]);
                c.len() as u64
            }
            2 => c.pop().map_or(NONE, |x| x as u64),
            3 => {
                let i = place(c, x);
                if i < c.len() {
                    c.remove(i).map_or(NONE, |x| x as u64)
                } else {
                    NONE
                }
            }
            4 => {
                c.assign(["", "a", "ab€", "the quick brown fox"][x as usize % 4]);
                c.len() as u64
            }
            5 => roll(c.chars().next().map_or(NONE, |x| x as u64), c.chars().next_back().map_or(NONE, |x| x as u64)),
            6 => {
                c.reserve(x as usize);
                (c.capacity() >= c.len() && c.is_empty() == (c.len() == 0) && c.is_full() == (c.len() == c.capacity())) as u64
            }
            7 => c.as_bytes().iter().fold(0, |h, x| roll(h, *x as u64)),
            8 => {
                c.make_ascii_uppercase();
                c.as_str().len() as u64
            }
            // the terminator, as the other side reads it
            _ => {
                if c.capacity() == 0 {
                    c.reserve(1)
                }
                unsafe { *c.as_ptr().add(c.len()) as u64 }
            }
        }
    }
    fn model(m: &mut String, k: u8, x: u32) -> u64 {
        match k {
            0 => {
                m.push(CHARS[x as usize % 5]);
                m.len() as u64
            }
            1 => {
                let i = place(m, x);
                m.insert(i, CHARS[x as usize % 5]);
                m.len() as u64
            }
            2 => m.pop().map_or(NONE, |x| x as u64),
            3 => {
                let i = place(m, x);
                if i < m.len() {
                    m.remove(i) as u64
                } else {
                    NONE
                }
            }
            4 => {
                *m = ["", "a", "ab€", "the quick brown fox"][x as usize % 4].to_string();
                m.len() as u64
            }
            5 => roll(m.chars().next().map_or(NONE, |x| x as u64), m.chars().next_back().map_or(NONE, |x| x as u64)),
            6 => 1,
            7 => m.as_bytes().iter().fold(0, |h, x| roll(h, *x as u64)),
            8 => {
                m.make_ascii_uppercase();
                m.len() as u64
            }
            _ => 0,
        }
    }
    fn contents(c: &Self::C) -> String {
        String::from_utf8_lossy(c.as_bytes()).into_owned()
    }
    fn len(m: &Self::M) -> usize {
        m.len()
    }
}

// --- keyed containers; iteration order of the hash tables is not specified: sums that do not depend on it ---
#[inline(always)]
fn pairs<'a, V: Val>(it: impl Iterator<Item = (&'a u32, &'a V)>) -> u64 {
    it.fold(0, |h, (k, v)| h.wrapping_add(roll(*k as u64, v.v() as u64)))
}
fn keyed_model(m: &mut BTreeMap<u32, u32>, k: u8, x: u32) -> u64 {
    let key = x % 24;
    match k {
        0 => mopt(m.insert(key, x)),
        1 => {
            m.insert(key, x + 7);
            *m.entry(key + 1).or_insert(x) as u64
        }
        2 => mopt(m.remove(&key)),
        3 => m.remove_entry(&key).map_or(NONE, |(k, v)| roll(k as u64, v as u64)),
        4 => {
            m.clear();
            NONE
        }
        5 => mopt(m.get(&key).copied()),
        6 => m.get_mut(&key).map_or(NONE, |v| {
            *v = v.wrapping_add(x);
            *v as u64
        }),
        7 => m.iter().fold(0, |h, (k, v)| h.wrapping_add(roll(*k as u64, *v as u64))),
        8 => {
            for v in m.values_mut() {
                *v = v.wrapping_add(x)
            }
            m.len() as u64
        }
        _ => {
            m.entry(key).and_modify(|v| *v = v.wrapping_add(1)).or_insert(x);
            m.contains_key(&key) as u64
        }
    }
}
pub struct FHash<V, A>(std::marker::PhantomData<(V, A)>);
impl<V: Val, A: Al> Fuse for FHash<V, A> {
    type C = HashMap<u32, V, A, DefaultHash<u32>, EqualTo<u32>>;
    type M = BTreeMap<u32, u32>;
    const NAME: &'static str = "hmap";
    const COUNTED: bool = V::COUNTED;
    #[inline(always)]
    unsafe fn build(at: *mut Self::C) {
        at.write(HashMap::new_in(A::default()))
    }
    #[inline(always)]
    fn one<const K: u8>(c: &mut Self::C, x: u32) -> u64 {
        let key = x % 24;
        match K {
            0 => opt(c.insert(key, V::mk(x))),
            1 => {
                c.insert(key, V::mk(x + 7));
                c.entry(key + 1).or_insert(V::mk(x)).v() as u64
            }
            2 => opt(c.remove(&key)),
            3 => c.remove_entry(&key).map_or(NONE, |(k, v)| roll(k as u64, v.v() as u64)),
            4 => {
                c.clear();
                NONE
            }
            5 => opr(c.get(&key)),
            6 => c.get_mut(&key).map_or(NONE, |v| {
                v.add(x);
                v.v() as u64
            }),
            7 => pairs(c.iter()),
            8 => {
                for (_, v) in c.iter_mut() {
                    v.add(x)
                }
                c.len() as u64
            }
            _ => {
                c.entry(key).and_modify(|v| v.add(1)).or_insert_with(|| V::mk(x));
                c.contains_key(&key) as u64
            }
        }
    }
    fn model(m: &mut Self::M, k: u8, x: u32) -> u64 {
        keyed_model(m, k, x)
    }
    fn contents(c: &Self::C) -> Self::M {
        let m: BTreeMap<u32, u32> = c.iter().map(|(k, v)| (*k, v.v())).collect();
        if m.len() == c.len() {
            m
        } else {
            BTreeMap::from([(u32::MAX, c.len() as u32)])
        }
    }
    fn len(m: &Self::M) -> usize {
        m.len()
    }
}
pub struct FSet<A>(std::marker::PhantomData<A>);
impl<A: Al> Fuse for FSet<A> {
    type C = HashSet<u32, A, DefaultHash<u32>, EqualTo<u32>>;
    type M = BTreeMap<u32, u32>;
    const NAME: &'static str = "hset";
    const COUNTED: bool = false;
    #[inline(always)]
    unsafe fn build(at: *mut Self::C) {
        at.write(HashSet::new_in(A::default()))
    }
    #[inline(always)]
    fn one<const K: u8>(c: &mut Self::C, x: u32) -> u64 {
        let key = x % 24;
        match K {
            0 | 1 => c.insert(key) as u64,
            2 | 3 => c.remove(&key).map_or(NONE, |x| x as u64),
            4 => {
                c.clear();
                NONE
            }
            5 | 6 => c.get(&key).map_or(NONE, |x| *x as u64),
            7 => c.iter().fold(0, |h, k| h.wrapping_add(roll(*k as u64, 0))),
            8 => roll(c.len() as u64, c.is_empty() as u64),
            _ => c.contains_key(&key) as u64,
        }
    }
    fn model(m: &mut Self::M, k: u8, x: u32) -> u64 {
        let key = x % 24;
        match k {
            0 | 1 => m.insert(key, 0).is_none() as u64,
            2 | 3 => m.remove_entry(&key).map_or(NONE, |x| x.0 as u64),
            4 => {
                m.clear();
                NONE
            }
            5 | 6 => m.get_key_value(&key).map_or(NONE, |x| *x.0 as u64),
            7 => m.keys().fold(0, |h, k| h.wrapping_add(roll(*k as u64, 0))),
            8 => roll(m.len() as u64, m.is_empty() as u64),
            _ => m.contains_key(&key) as u64,
        }
    }
    fn contents(c: &Self::C) -> Self::M {
        c.iter().map(|k| (*k, 0)).collect()
    }
    fn len(m: &Self::M) -> usize {
        m.len()
    }
}
pub struct FVecMap<V, A>(std::marker::PhantomData<(V, A)>);
impl<V: Val, A: Al> Fuse for FVecMap<V, A> {
    type C = VectorMap<u32, V, A, Less<u32>>;
    type M = BTreeMap<u32, u32>;
    const NAME: &'static str = "vmap";
    const COUNTED: bool = V::COUNTED;
    #[inline(always)]
    unsafe fn build(at: *mut Self::C) {
        at.write(VectorMap::new())
    }
    #[inline(always)]
    fn one<const K: u8>(c: &mut Self::C, x: u32) -> u64 {
        use eastl_rs::vector_map::Entry;
        let key = x % 24;
        match K {
            0 => opt(c.insert(key, V::mk(x))),
            1 => {
                c.insert(key, V::mk(x + 7));
                match c.entry(key + 1) {
                    Entry::Occupied(e) => e.get().v() as u64,
                    Entry::Vacant(e) => e.insert(V::mk(x)).v() as u64,
                }
            }
            2 => opt(c.remove(&key)),
            3 => c.remove_entry(&key).map_or(NONE, |(k, v)| roll(k as u64, v.v() as u64)),
            4 => {
                c.clear();
                NONE
            }
            5 => opr(c.get(&key)),
            6 => c.get_mut(&key).map_or(NONE, |v| {
                v.add(x);
                v.v() as u64
            }),
            7 => pairs(c.iter().map(|(k, v)| (k, v))),
            8 => {
                for k in 0..25 {
                    if let Some(v) = c.get_mut(&k) {
                        v.add(x)
                    }
                }
                c.len() as u64
            }
            _ => {
                match c.entry(key) {
                    Entry::Occupied(mut e) => e.get_mut().add(1),
                    Entry::Vacant(e) => {
                        e.insert(V::mk(x));
                    }
                }
                c.contains_key(&key) as u64
            }
        }
    }
    fn model(m: &mut Self::M, k: u8, x: u32) -> u64 {
        keyed_model(m, k, x)
    }
    fn contents(c: &Self::C) -> Self::M {
        let m: BTreeMap<u32, u32> = c.iter().map(|(k, v)| (*k, v.v())).collect();
        if m.len() == c.len() {
            m
        } else {
            BTreeMap::from([(u32::MAX, c.len() as u32)])
        }
    }
    fn len(m: &Self::M) -> usize {
        m.len()
    }
}

fn add<F: Fuse>(v: &mut Vec<Subject>, what: &str) {
    v.push(Subject { name: format!("fused/{}/{what}", F::NAME), gen, run: run::<F>, ops: OPS })
}
pub fn subjects(v: &mut Vec<Subject>) {
    type D = DefaultAllocator;
    add::<FList<u32, Thin>>(v, "u32/thin");
    add::<FList<Own, Thin>>(v, "own/thin");
    add::<FList<u32, D>>(v, "u32/def");
    add::<FFixedList<u32, Thin, 4>>(v, "u32/4/thin");
    add::<FFixedList<Own, Thin, 2>>(v, "own/2/thin");
    add::<FDeque<u32, Thin>>(v, "u32/thin");
    add::<FDeque<Own, Thin>>(v, "own/thin");
    add::<FQueue<Own, Thin>>(v, "own/thin");
    add::<FVector<u32, Thin>>(v, "u32/thin");
    add::<FVector<Own, Thin>>(v, "own/thin");
    add::<FFixedVector<u32, Thin, 4>>(v, "u32/4/thin");
    add::<FFixedVector<Own, Thin, 3>>(v, "own/3/thin");
    add::<FString<Thin>>(v, "thin");
    add::<FHash<u32, Thin>>(v, "u32/thin");
    add::<FHash<Own, Thin>>(v, "own/thin");
    add::<FSet<Thin>>(v, "thin");
    add::<FVecMap<u32, Thin>>(v, "u32/thin");
    add::<FVecMap<Own, Thin>>(v, "own/thin");
}
