//! Cost of long histories: how often memory is asked for, how much of it is held, how much stack is used.
use super::*;
use crate::env::*;
use crate::must;
use eastl_rs::compare::Less;
use eastl_rs::deque::Deque;
use eastl_rs::hash_map::DefaultHashMap;
use eastl_rs::hash_set::HashSet;
use eastl_rs::list::DefaultList;
use eastl_rs::queue::Queue;
use eastl_rs::string::String as EString;
use eastl_rs::vector::Vector;
use eastl_rs::vector_map::VectorMap;
use eastl_rs::{Equals, Hash, HashMap};
use std::mem::size_of;

fn log2(n: u64) -> u64 {
    64 - n.leading_zeros() as u64
}
/// most key comparisons a sorted lookup among `n` keys may make
pub fn lookups(n: usize) -> u64 {
    4 * log2(n as u64) + 8
}
fn held() -> u64 {
    heap(|h| h.live_bytes() as u64)
}
fn asked() -> u64 {
    heap(|h| h.allocs)
}

// --- arrays -----------------------------------------------------------------------------------

const AOPS: &[&str] = &["push", "pop", "insert", "remove", "reserve", "clear", "read", "push_pop"];
fn agen(r: &mut Rng, size: u32, _flags: u32) -> Case {
    let n = r.range(1, 12);
    let ops = (0..n)
        .map(|_| {
            let code = *r.pick(&[0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7]);
            let top = if code == 2 || code == 3 { 60 } else if size > 1 { 20_000 } else { 3000 };
            let a = if r.chance(1, 3) { r.u(40) } else { r.u(top) };
            [code, a, r.u(8), r.r32()]
        })
        .collect();
    Case { subject: String::new(), cfg: vec![r.u(5), 0], ops }
}
trait Arr {
    const ES: u64;
    fn fresh() -> Self;
    fn push(&mut self, v: u32);
    fn pop(&mut self);
    fn insert(&mut self, i: usize, v: u32);
    fn remove(&mut self, i: usize);
    fn reserve(&mut self, n: usize);
    fn clear(&mut self);
    fn len(&self) -> usize;
    fn cap(&self) -> usize;
    /// reads through every accessor
    fn read(&mut self);
}
impl<T: Elem, A: HAlloc> Arr for Vector<T, A> {
    const ES: u64 = size_of::<T>() as u64;
    fn fresh() -> Self {
        Vector::new()
    }
    fn push(&mut self, v: u32) {
        self.push(T::mk(v))
    }
    fn pop(&mut self) {
        self.pop();
    }
    fn insert(&mut self, i: usize, v: u32) {
        self.insert(i, T::mk(v))
    }
    fn remove(&mut self, i: usize) {
        self.remove(i);
    }
    fn reserve(&mut self, n: usize) {
        self.reserve(n)
    }
    fn clear(&mut self) {
        self.clear()
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn read(&mut self) {
        let _ = (self.as_slice().len(), self.as_slice_mut().len(), self.first().is_some(), self.iter().count(), self.is_full(), self.is_empty());
    }
}
impl<A: HAlloc> Arr for EString<A> {
    const ES: u64 = 1;
    fn fresh() -> Self {
        EString::new()
    }
    fn push(&mut self, v: u32) {
        self.push((b'a' + (v % 26) as u8) as char)
    }
    fn pop(&mut self) {
        self.pop();
    }
    fn insert(&mut self, i: usize, v: u32) {
        self.insert(i, (b'a' + (v % 26) as u8) as char)
    }
    fn remove(&mut self, i: usize) {
        self.remove(i);
    }
    fn reserve(&mut self, n: usize) {
        self.reserve(n)
    }
    fn clear(&mut self) {
        self.assign("")
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn read(&mut self) {
        let _ = (self.as_str().len(), self.as_bytes().len(), self.chars().count(), self.is_full(), self.is_empty());
    }
}
fn arr<C: Arr>(case: &Case, cx: &mut Ctx) -> R {
    let mut s = C::fresh();
    // the most elements there may be room for
    let mut room = 16u64;
    let k = Class::Cost;
    for (step, &[code, a, b, c]) in case.ops.iter().enumerate() {
        cx.step = step;
        cx.ops_done += 1;
        budget(2_000_000);
        let n = a as u64;
        let (al, len) = (asked(), s.len() as u64);
        let mut allowed = 0;
        cx.note(|| format!("{} {a}, length {len}", AOPS[code as usize % 8]));
        match code % 8 {
            0 => {
                for j in 0..a {
                    s.push(c ^ j)
                }
                allowed = 3 * log2(len + n) + 4;
                if n > 64 {
                    cx.mark("appended many elements")
                }
            }
            1 => {
                for _ in 0..a.min(len as u32) {
                    s.pop()
                }
            }
            2 => {
                for j in 0..a % 64 {
                    let i = if b % 2 == 0 { 0 } else { c as usize % (s.len() + 1) };
                    s.insert(i, j)
                }
                allowed = 3 * log2(len + n) + 4;
                cx.mark("inserted a run of elements");
            }
            3 => {
                for _ in 0..(a as u64 % 64).min(len) {
                    let i = if b % 2 == 0 { 0 } else { c as usize % s.len() };
                    s.remove(i)
                }
            }
            4 => {
                let x = if b % 2 == 0 { a % 50 } else { a };
                s.reserve(x as usize);
                allowed = 1;
                room = (room + x as u64).max(2 * room) + 16;
                // what was reserved is there without asking again
                let al = asked();
                for j in 0..x {
                    s.push(j)
                }
                must!(cx, k, asked() == al, "room for {x} elements was reserved, but appending them asked for memory {} time(s)", asked() - al);
                cx.mark("appended into reserved room");
            }
            5 => {
                s.clear();
            }
            6 => s.read(),
            _ => {
                // crossing a full array again and again
                for j in 0..a {
                    s.push(j);
                    s.pop()
                }
                allowed = 1;
                cx.mark("pushed and popped at the same length");
            }
        }
        cx.poll()?;
        let al = asked() - al;
        must!(cx, k, al <= allowed, "{} x{a} at length {len} asked for memory {al} times, {allowed} are allowed", AOPS[code as usize % 8]);
        room = room.max(4 * s.len() as u64 + 16);
        must!(cx, k, s.cap() as u64 <= room && held() <= (room + 1) * C::ES, "{} bytes (room for {} elements) are held for {} elements, at most {room} were ever needed", held(), s.cap(), s.len());
    }
    Ok(())
}

// --- deque and queue --------------------------------------------------------------------------

const DOPS: &[&str] = &["push_back", "push_front", "pop_back", "pop_front", "drift", "drift_back", "read", "remove", "ping"];
fn dgen(r: &mut Rng, size: u32, _flags: u32) -> Case {
    let n = r.range(1, 10);
    let ops = (0..n)
        .map(|_| {
            let code = *r.pick(&[0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 8]);
            let top = match code {
                4 | 5 => if size > 1 { 60_000 } else { 8000 },
                6 | 7 => 20,
                _ => if size > 1 { 6000 } else { 1500 },
            };
            let a = if r.chance(1, 2) { r.u(100.min(top)) } else { r.u(top) };
            [code, a, r.u(8), r.r32()]
        })
        .collect();
    Case { subject: String::new(), cfg: vec![r.u(5), 0], ops }
}
trait Deq {
    const ES: u64;
    const BOTH: bool;
    fn fresh() -> Self;
    fn push_back(&mut self, v: u32);
    fn push_front(&mut self, v: u32);
    fn pop_back(&mut self);
    fn pop_front(&mut self);
    fn remove(&mut self, i: usize);
    fn len(&self) -> usize;
    fn read(&mut self);
}
impl<T: Elem, A: HAlloc> Deq for Deque<'static, T, A> {
    const ES: u64 = size_of::<T>() as u64;
    const BOTH: bool = true;
    fn fresh() -> Self {
        Deque::new()
    }
    fn push_back(&mut self, v: u32) {
        self.push_back(T::mk(v))
    }
    fn push_front(&mut self, v: u32) {
        self.push_front(T::mk(v))
    }
    fn pop_back(&mut self) {
        self.pop_back();
    }
    fn pop_front(&mut self) {
        self.pop_front();
    }
    fn remove(&mut self, i: usize) {
        self.remove(i);
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn read(&mut self) {
        let _ = (self.iter().count(), self.iter_mut().rev().count(), self.front().is_some(), self.back_mut().is_some());
    }
}
impl<T: Elem, A: HAlloc> Deq for Queue<'static, T, A> {
    const ES: u64 = size_of::<T>() as u64;
    const BOTH: bool = false;
    fn fresh() -> Self {
        Queue::default()
    }
    fn push_back(&mut self, v: u32) {
        self.push(T::mk(v))
    }
    fn push_front(&mut self, _: u32) {}
    fn pop_back(&mut self) {}
    fn pop_front(&mut self) {
        self.pop();
    }
    fn remove(&mut self, _: usize) {}
    fn len(&self) -> usize {
        self.len()
    }
    fn read(&mut self) {
        let _ = (self.iter().count(), self.iter_mut().count(), self.top().is_some());
    }
}
fn deq<C: Deq>(case: &Case, cx: &mut Ctx) -> R {
    let k = Class::Cost;
    // elements per block, as C++ lays them out
    let sub = match C::ES {
        0..=4 => 64,
        5..=8 => 32,
        9..=16 => 16,
        17..=32 => 8,
        _ => 4,
    };
    let mut s = C::fresh();
    let mut most = 0u64;
    for (step, &[code, a, b, c]) in case.ops.iter().enumerate() {
        cx.step = step;
        cx.ops_done += 1;
        budget(4_000_000);
        let n = a as u64;
        let (al, len) = (asked(), s.len() as u64);
        cx.note(|| format!("{} {a}, length {len}", DOPS[code as usize % 9]));
        let mut allowed = 0;
        most = most.max(len);
        match code % 9 {
            0 | 1 => {
                for j in 0..a {
                    if code % 9 == 0 || !C::BOTH { s.push_back(j) } else { s.push_front(j) }
                }
                allowed = n / sub + 2 * log2(len + n) + 4;
                if n > 3 * sub {
                    cx.mark("pushed several blocks at one end")
                }
            }
            2 | 3 => {
                for _ in 0..n.min(len) {
                    if code % 9 == 2 && C::BOTH { s.pop_back() } else { s.pop_front() }
                }
                if n.min(len) > 2 * sub {
                    cx.mark("popped several blocks at one end")
                }
            }
            4 | 5 => {
                for j in 0..a {
                    if code % 9 == 4 || !C::BOTH {
                        s.push_back(j);
                        s.pop_front()
                    } else {
                        s.push_front(j);
                        s.pop_back()
                    }
                    most = most.max(s.len() as u64 + 1);
                }
                // block changes at either end, and the table growing to its final size
                allowed = 2 * (n / sub) + 2 * log2(len + sub) + 6;
                if n > 20 * sub {
                    cx.mark("many blocks of elements passed through")
                }
            }
            6 => s.read(),
            7 => {
                for j in 0..n.min(len) {
                    let i = (c as u64).wrapping_mul(j + 1) as usize % s.len();
                    s.remove(i)
                }
            }
            _ => {
                for j in 0..a % 200 {
                    if b % 2 == 0 || !C::BOTH { s.push_back(j) } else { s.push_front(j) }
                    if b % 4 < 2 && C::BOTH { s.pop_back() } else { s.pop_front() }
                }
                allowed = 2 * (n % 200) + 2 * log2(len + sub) + 6;
            }
        }
        cx.poll()?;
        most = most.max(s.len() as u64);
        let al = asked() - al;
        must!(cx, k, al <= allowed, "{} x{a} at length {len} asked for memory {al} times, {allowed} are allowed", DOPS[code as usize % 9]);
        let blocks = (s.len() as u64).div_ceil(sub) + 2;
        let table = 6 * (most.div_ceil(sub) + 2) + 24;
        let may = blocks * sub * C::ES + table * 8;
        must!(cx, k, held() <= may, "{} bytes are held for {} elements of {} bytes (never more than {most}), {may} are allowed", held(), s.len(), C::ES);
    }
    Ok(())
}

// --- hash tables ------------------------------------------------------------------------------

const HOPS: &[&str] = &["insert", "look_up", "remove", "iterate", "clear", "churn"];
thread_local! {
    static NH: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
    static NE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
struct CH;
struct CE;
impl Hash<u32> for CH {
    fn hash(k: &u32) -> usize {
        NH.with(|n| n.set(n.get() + 1));
        tick(F_HASH);
        *k as usize
    }
}
impl Equals<u32> for CE {
    fn equals(a: &u32, b: &u32) -> bool {
        NE.with(|n| n.set(n.get() + 1));
        tick(F_EQ);
        a == b
    }
}
fn hgen(r: &mut Rng, size: u32, _flags: u32) -> Case {
    let n = r.range(1, 10);
    let ops = (0..n)
        .map(|_| {
            let code = *r.pick(&[0, 0, 0, 0, 1, 1, 2, 2, 3, 4, 5]);
            [code, if r.chance(1, 3) { r.u(30) } else { r.u(if size > 1 { 8000 } else { 1200 }) }, r.u(8), r.r32()]
        })
        .collect();
    Case { subject: String::new(), cfg: vec![r.u(5), 0], ops }
}
trait Hashed {
    fn fresh() -> Self;
    fn insert(&mut self, k: u32);
    fn get(&self, k: u32) -> bool;
    fn remove(&mut self, k: u32) -> bool;
    fn clear(&mut self);
    fn count(&self) -> usize;
    fn len(&self) -> usize;
}
impl<A: HAlloc> Hashed for HashMap<u32, u32, A, CH, CE> {
    fn fresh() -> Self {
        unsafe { HashMap::new_in(A::mk(1)) }
    }
    fn insert(&mut self, k: u32) {
        if k % 3 == 0 {
            self.entry(k).or_insert(1);
        } else {
            self.insert(k, 1);
        }
    }
    fn get(&self, k: u32) -> bool {
        if k % 2 == 0 { self.contains_key(&k) } else { self.get(&k).is_some() }
    }
    fn remove(&mut self, k: u32) -> bool {
        if k % 2 == 0 { self.remove(&k).is_some() } else { self.remove_entry(&k).is_some() }
    }
    fn clear(&mut self) {
        self.clear()
    }
    fn count(&self) -> usize {
        self.iter().count()
    }
    fn len(&self) -> usize {
        self.len()
    }
}
impl<A: HAlloc> Hashed for HashSet<u32, A, CH, CE> {
    fn fresh() -> Self {
        unsafe { HashSet::new_in(A::mk(1)) }
    }
    fn insert(&mut self, k: u32) {
        self.insert(k);
    }
    fn get(&self, k: u32) -> bool {
        if k % 2 == 0 { self.contains_key(&k) } else { self.get(&k).is_some() }
    }
    fn remove(&mut self, k: u32) -> bool {
        self.remove(&k).is_some()
    }
    fn clear(&mut self) {
        self.clear()
    }
    fn count(&self) -> usize {
        self.iter().count()
    }
    fn len(&self) -> usize {
        self.len()
    }
}
fn hashed<C: Hashed>(case: &Case, cx: &mut Ctx) -> R {
    let k = Class::Cost;
    let mut s = C::fresh();
    let mut keys: Vec<u32> = vec![];
    let mut next = 0u32;
    let mut most = 0u64;
    for (step, &[code, a, b, c]) in case.ops.iter().enumerate() {
        cx.step = step;
        cx.ops_done += 1;
        budget(8_000_000);
        let n = a as u64;
        let (al, h, e, len) = (asked(), NH.with(|x| x.get()), NE.with(|x| x.get()), s.len() as u64);
        cx.note(|| format!("{} {a}, length {len}", HOPS[code as usize % 6]));
        // (allocations, hashes, comparisons) allowed. the keys are distinct and consecutive, so chains have one key
        let may = match code % 6 {
            0 => {
                for _ in 0..a {
                    s.insert(next);
                    keys.push(next);
                    next = next.wrapping_add(1);
                }
                if n > 100 {
                    cx.mark("inserted many keys")
                }
                // a node each, and the bucket arrays of a geometric growth; each growth hashes every key again
                (n + 3 * log2(len + n) + 4, 10 * (n + len) + 40, 6 * n + 8)
            }
            1 => {
                for j in 0..a {
                    let x = if b % 2 == 0 { next.wrapping_add(j) } else { *keys.get((c ^ j) as usize % keys.len().max(1)).unwrap_or(&j) };
                    s.get(x);
                }
                cx.mark("looked many keys up");
                (0, 4 * n, 6 * n)
            }
            2 => {
                let mut m = 0;
                for _ in 0..n.min(keys.len() as u64) {
                    let i = c as usize % keys.len();
                    let x = keys.swap_remove(i);
                    if s.remove(x) {
                        m += 1
                    }
                }
                must!(cx, k, s.len() as u64 + m == len, "{m} keys were removed, the length went from {len} to {}", s.len());
                (0, 6 * m, 6 * m)
            }
            3 => {
                s.count();
                (0, 0, 0)
            }
            4 => {
                s.clear();
                keys.clear();
                (0, 0, 0)
            }
            _ => {
                // the same number of keys all the time
                for _ in 0..a {
                    s.insert(next);
                    s.remove(next);
                    next = next.wrapping_add(1);
                }
                cx.mark("keys came and went");
                (n + 3, 14 * n + 4 * (len + 2), 14 * n)
            }
        };
        most = most.max(s.len() as u64 + 1);
        cx.poll()?;
        let got = (asked() - al, NH.with(|x| x.get()) - h, NE.with(|x| x.get()) - e);
        must!(
            cx, k, got.0 <= may.0 && got.1 <= may.1 && got.2 <= may.2,
            "{} x{a} at length {len} made {} requests for memory, {} hashes and {} comparisons; {may:?} are allowed", HOPS[code as usize % 6], got.0, got.1, got.2
        );
        let bytes = s.len() as u64 * 32 + (8 * most + 32) * 8;
        must!(cx, k, held() <= bytes, "{} bytes are held for {} keys (never more than {most}), {bytes} are allowed", held(), s.len());
    }
    Ok(())
}

// --- sorted vector map ------------------------------------------------------------------------

struct CC;
impl Default for CC {
    fn default() -> Self {
        CC
    }
}
impl eastl_rs::compare::Compare<u32> for CC {
    fn compare(a: &u32, b: &u32) -> bool {
        NE.with(|n| n.set(n.get() + 1));
        tick(F_CMP);
        a < b
    }
}
fn sorted<A: HAlloc>(case: &Case, cx: &mut Ctx) -> R {
    let k = Class::Cost;
    let mut s: VectorMap<u32, u32, A, CC> = VectorMap::new();
    let mut most = 0u64;
    for (step, &[code, a, b, c]) in case.ops.iter().enumerate() {
        cx.step = step;
        cx.ops_done += 1;
        budget(8_000_000);
        let (al, e, len) = (asked(), NE.with(|x| x.get()), s.len() as u64);
        let n = a as u64 % 700;
        cx.note(|| format!("{} {n}, length {len}", HOPS[code as usize % 6]));
        let mut r = Rng(c as u64);
        let mut key = |j: u64| match b % 4 {
            0 => j as u32,
            1 => u32::MAX - j as u32,
            2 => r.u(2000),
            _ => (len + j) as u32 * 2,
        };
        let mut allowed = 0;
        match code % 6 {
            0 => {
                for j in 0..n {
                    if j % 4 == 3 {
                        if let eastl_rs::vector_map::Entry::Vacant(v) = s.entry(key(j)) {
                            v.insert(1);
                        }
                    } else {
                        s.insert(key(j), 1);
                    }
                }
                allowed = 3 * log2(len + n) + 4;
                if n > 50 {
                    cx.mark("inserted many keys")
                }
            }
            1 | 3 => {
                for j in 0..n {
                    let x = key(j);
                    match j % 3 {
                        0 => s.get(&x).is_some(),
                        1 => s.contains_key(&x),
                        _ => s.get_mut(&x).is_some(),
                    };
                }
                cx.mark("looked many keys up");
            }
            2 | 5 => {
                for j in 0..n {
                    s.remove(&key(j));
                }
            }
            _ => s.clear(),
        }
        most = most.max(s.len() as u64);
        cx.poll()?;
        let (al, e) = (asked() - al, NE.with(|x| x.get()) - e);
        must!(cx, k, al <= allowed, "{} x{n} at length {len} asked for memory {al} times, {allowed} are allowed", HOPS[code as usize % 6]);
        let may = n * lookups(len.max(s.len() as u64) as usize);
        must!(cx, k, e <= may, "{} x{n} at length {len} made {e} comparisons, {may} are allowed", HOPS[code as usize % 6]);
        must!(cx, k, held() <= (4 * most + 16) * 8, "{} bytes are held for {} pairs (never more than {most})", held(), s.len());
    }
    Ok(())
}

// --- stack ------------------------------------------------------------------------------------

/// one container is built, read, emptied and destroyed on a thread with little stack
fn sgen(r: &mut Rng, size: u32, _flags: u32) -> Case {
    let n = if size > 1 && r.chance(1, 2) { r.range(10_000, 120_000) } else { r.range(1000, 20_000) };
    Case { subject: String::new(), cfg: vec![r.u(5), 0], ops: vec![[r.u(8), n, r.u(8), r.r32()]] }
}
struct One;
impl Hash<u32> for One {
    fn hash(_: &u32) -> usize {
        5
    }
}
struct Never;
impl Equals<u32> for Never {
    fn equals(_: &u32, _: &u32) -> bool {
        false
    }
}
type Chain = HashMap<u32, u32, eastl_rs::allocator::DefaultAllocator, One, Never>;
const STACK: usize = if cfg!(feature = "asan") { 512 << 10 } else { 96 << 10 };
const SOPS: &[&str] = &["vector", "deque", "queue", "list", "hash_map", "one_chain", "string", "vector_map"];
fn stack(case: &Case, cx: &mut Ctx) -> R {
    for (step, &[code, n, b, _]) in case.ops.iter().enumerate() {
        cx.step = step;
        cx.ops_done += 1;
        cx.note(|| format!("{} of {n} elements on {} KiB of stack", SOPS[code as usize % 8], STACK >> 10));
        cx.mark("a large container was built and destroyed on a small stack");
        let t = std::thread::Builder::new().stack_size(STACK).spawn(move || stacked(code % 8, n, b));
        let Ok(t) = t else { return Ok(()) };
        match t.join() {
            Ok(true) => {}
            Ok(false) => must!(cx, Class::Cost, false, "{} of {n} elements gave a wrong result", SOPS[code as usize % 8]),
            Err(_) => must!(cx, Class::Panic, false, "{} of {n} elements panicked", SOPS[code as usize % 8]),
        }
    }
    Ok(())
}
fn stacked(code: u32, n: u32, b: u32) -> bool {
    let clear = b % 2 == 0;
    let sum = (0..n as u64).sum::<u64>();
    match code {
        0 => {
            let mut v: eastl_rs::vector::DefaultVector<Box<u64>> = (0..n as u64).map(Box::new).collect();
            let ok = v.iter().map(|x| **x).sum::<u64>() == sum;
            let w: eastl_rs::vector::DefaultVector<Box<u64>> = v.as_slice().into();
            if clear {
                v.clear()
            }
            ok && w.into_iter().map(|x| *x).sum::<u64>() == sum
        }
        1 => {
            let mut d: Deque<'static, Box<u64>, eastl_rs::allocator::DefaultAllocator> = Deque::new();
            for i in 0..n as u64 {
                if i % 2 == 0 { d.push_back(Box::new(i)) } else { d.push_front(Box::new(i)) }
            }
            let ok = d.iter().map(|x| **x).sum::<u64>() == sum;
            if clear {
                while d.pop_back().is_some() {}
            }
            ok
        }
        2 => {
            let q: Queue<'static, Box<u64>, eastl_rs::allocator::DefaultAllocator> = (0..n as u64).map(Box::new).collect();
            let ok = q.iter().map(|x| **x).sum::<u64>() == sum;
            ok && q.into_inner().iter().rev().count() == n as usize
        }
        3 => {
            moveit::moveit! {
                let mut l = unsafe { DefaultList::<Box<u64>>::new() };
            }
            for i in 0..n as u64 {
                if i % 2 == 0 { l.push_back(Box::new(i)) } else { l.push_front(Box::new(i)) }
            }
            let ok = l.iter().map(|x| **x).sum::<u64>() == sum;
            if clear {
                l.clear()
            }
            ok
        }
        4 => {
            let mut m: DefaultHashMap<u32, Box<u64>> = (0..n).map(|i| (i, Box::new(i as u64))).collect();
            let ok = m.iter().map(|x| **x.1).sum::<u64>() == sum;
            if clear {
                m.clear()
            }
            ok
        }
        5 => {
            // every pair lies in one bucket
            let n = n % 2500;
            let mut m: Chain = unsafe { HashMap::new_in(Default::default()) };
            for i in 0..n {
                m.insert(i, i);
            }
            let ok = m.iter().count() == n as usize && m.len() == n as usize;
            if clear {
                m.clear()
            }
            ok
        }
        6 => {
            let mut s = eastl_rs::string::DefaultString::new();
            for i in 0..n {
                s.push((b'a' + (i % 26) as u8) as char)
            }
            s.len() == n as usize && s.chars().count() == n as usize
        }
        _ => {
            let mut m: VectorMap<u32, Box<u64>, eastl_rs::allocator::DefaultAllocator, Less<u32>> = (0..n).map(|i| (i, Box::new(i as u64))).collect();
            let ok = m.iter().map(|x| *x.1).sum::<u64>() == sum;
            if clear {
                m.clear()
            }
            ok
        }
    }
}

pub fn subjects(v: &mut Vec<Subject>) {
    macro_rules! s {
        ($n:expr, $g:ident, $r:expr, $o:ident) => {
            v.push(Subject { name: format!("cost/{}", $n), gen: $g, run: $r, ops: $o })
        };
    }
    s!("vec-u8", agen, arr::<Vector<u8, TA>>, AOPS);
    s!("vec-u64", agen, arr::<Vector<u64, TA>>, AOPS);
    s!("vec-t24", agen, arr::<Vector<T<16>, FA>>, AOPS);
    s!("string", agen, arr::<EString<TA>>, AOPS);
    s!("deque-u32", dgen, deq::<Deque<'static, u32, TA>>, DOPS);
    s!("deque-u64", dgen, deq::<Deque<'static, u64, FA>>, DOPS);
    s!("deque-t24", dgen, deq::<Deque<'static, T<16>, TA>>, DOPS);
    s!("deque-a64", dgen, deq::<Deque<'static, A64, TA>>, DOPS);
    s!("queue-u32", dgen, deq::<Queue<'static, u32, TA>>, DOPS);
    s!("queue-t40", dgen, deq::<Queue<'static, T<32>, TA>>, DOPS);
    s!("hmap", hgen, hashed::<HashMap<u32, u32, TA, CH, CE>>, HOPS);
    s!("hset", hgen, hashed::<HashSet<u32, TA, CH, CE>>, HOPS);
    s!("vmap", hgen, sorted::<TA>, HOPS);
    s!("stack", sgen, stack, SOPS);
}
