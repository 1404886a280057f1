//! Oversized capacity requests: refused, or honoured with storage that really exists.
use super::vector::raw;
use super::*;
use crate::env::*;
use crate::must;
use eastl_rs::{allocator::DefaultAllocator, compare::Less, fixed_vector::FixedVector, string::String as EString, vector::Vector, vector_map::VectorMap, Allocator};
use moveit::New;
use std::mem::{align_of, size_of, MaybeUninit};
use std::pin::Pin;

pub const OPS: &[&str] = &["with_capacity", "reserve", "push", "collect_with_hint", "clear", "pop", "fresh"];

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn close(fd: i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
}

fn gen(r: &mut Rng, _size: u32, _flags: u32) -> Case {
    let n = r.range(1, 10);
    let mut ops = vec![];
    for _ in 0..n {
        let code = *r.pick(&[0, 0, 1, 1, 1, 1, 2, 2, 3, 4, 5, 6]);
        ops.push([code, r.u(40), r.u(10), r.r32()]);
    }
    Case { subject: String::new(), cfg: vec![r.u(5), 0, r.u(4)], ops }
}

/// a size request, concentrated around the places where its arithmetic may wrap
pub fn request(kind: u32, c: u32, es: usize, limit: usize, cap: usize, len: usize) -> usize {
    let big = 1u128 << 64;
    let k = (c % 67) as i128 - 3;
    let es_ = es as i128;
    let n: i128 = match kind % 10 {
        0 => usize::MAX as i128 - (c % 70) as i128,
        1 => big as i128 / es_ + k,
        2 => isize::MAX as i128 / es_ + k,
        3 => (1i128 << (31 + c / 128 % 33)) + k,
        4 => (big as i128 * (1 + (c / 128) as i128 % es_)) / es_ + k,
        5 => (c % 700) as i128,
        6 => (limit / es) as i128 + k,
        7 => big as i128 - cap as i128 + k,
        8 => big as i128 - len as i128 + k,
        _ => ((c as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (c % 8)) as i128,
    };
    n.clamp(0, usize::MAX as i128) as usize
}

trait CapC {
    const ES: usize;
    const EXTRA: usize = 0;
    /// elements that fit without any block
    const INPLACE: usize = 0;
    fn fresh() -> Self;
    fn with_cap(n: usize) -> Option<Self>
    where
        Self: Sized;
    fn reserve(&mut self, n: usize) -> bool;
    fn push(&mut self, v: u32);
    fn pop(&mut self);
    fn clear(&mut self);
    fn vals(&self) -> Vec<u32>;
    fn len(&self) -> usize;
    fn cap(&self) -> usize;
    fn begin(&mut self) -> usize;
    fn norm(v: u32) -> u32;
    fn collect(v: &[u32], lower: usize) -> Option<Self>
    where
        Self: Sized;
}
struct V<T: Elem, A: HAlloc>(Vector<T, A>);
impl<T: Elem, A: HAlloc> CapC for V<T, A> {
    const ES: usize = size_of::<T>();
    fn fresh() -> Self {
        V(Vector::new())
    }
    fn with_cap(n: usize) -> Option<Self> {
        Some(V(Vector::with_capacity(n)))
    }
    fn reserve(&mut self, n: usize) -> bool {
        self.0.reserve(n);
        true
    }
    fn push(&mut self, v: u32) {
        self.0.push(T::mk(v))
    }
    fn pop(&mut self) {
        self.0.pop();
    }
    fn clear(&mut self) {
        self.0.clear()
    }
    fn vals(&self) -> Vec<u32> {
        self.0.iter().map(|x| x.v()).collect()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn cap(&self) -> usize {
        self.0.capacity()
    }
    fn begin(&mut self) -> usize {
        raw(&mut self.0).begin as usize
    }
    fn norm(v: u32) -> u32 {
        T::norm(v)
    }
    fn collect(v: &[u32], lower: usize) -> Option<Self> {
        Some(V(Src { it: v.iter().map(|&x| T::mk(x)), lower }.collect()))
    }
}
struct S<A: HAlloc>(EString<A>);
impl<A: HAlloc> CapC for S<A> {
    const ES: usize = 1;
    const EXTRA: usize = 1;
    fn fresh() -> Self {
        S(EString::new())
    }
    fn with_cap(n: usize) -> Option<Self> {
        Some(S(EString::with_capacity(n)))
    }
    fn reserve(&mut self, n: usize) -> bool {
        self.0.reserve(n);
        true
    }
    fn push(&mut self, v: u32) {
        self.0.push((b'a' + (v % 26) as u8) as char)
    }
    fn pop(&mut self) {
        self.0.pop();
    }
    fn clear(&mut self) {
        self.0.assign("")
    }
    fn vals(&self) -> Vec<u32> {
        self.0.as_bytes().iter().map(|&b| (b - b'a') as u32).collect()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn cap(&self) -> usize {
        self.0.capacity()
    }
    fn begin(&mut self) -> usize {
        unsafe { *(self as *const Self as *const usize) }
    }
    fn norm(v: u32) -> u32 {
        v % 26
    }
    fn collect(_: &[u32], _: usize) -> Option<Self> {
        None
    }
}
struct M<A: HAlloc>(VectorMap<u32, [u32; 3], A, Less<u32>>);
impl<A: HAlloc> CapC for M<A> {
    const ES: usize = 16;
    fn fresh() -> Self {
        M(VectorMap::new())
    }
    fn with_cap(n: usize) -> Option<Self> {
        Some(M(VectorMap::with_capacity(n)))
    }
    fn reserve(&mut self, _: usize) -> bool {
        false
    }
    fn push(&mut self, v: u32) {
        let k = self.0.len() as u32;
        self.0.insert(k, Elem::mk(v));
    }
    fn pop(&mut self) {
        if self.0.len() > 0 {
            self.0.remove(&(self.0.len() as u32 - 1));
        }
    }
    fn clear(&mut self) {
        self.0.clear()
    }
    fn vals(&self) -> Vec<u32> {
        self.0.iter().map(|x| x.1.v()).collect()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn cap(&self) -> usize {
        self.0.capacity()
    }
    fn begin(&mut self) -> usize {
        unsafe { *(self as *const Self as *const usize) }
    }
    fn norm(v: u32) -> u32 {
        v
    }
    fn collect(_: &[u32], _: usize) -> Option<Self> {
        None
    }
}
struct F<T: Elem, const N: usize, A: HAlloc>(Box<MaybeUninit<FixedVector<T, N, A>>>);
impl<T: Elem, const N: usize, A: HAlloc> F<T, N, A> {
    fn g(&self) -> &FixedVector<T, N, A> {
        unsafe { self.0.assume_init_ref() }
    }
    fn m(&mut self) -> &mut FixedVector<T, N, A> {
        unsafe { self.0.assume_init_mut() }
    }
}
impl<T: Elem, const N: usize, A: HAlloc> Drop for F<T, N, A> {
    fn drop(&mut self) {
        unsafe { self.0.assume_init_drop() }
    }
}
impl<T: Elem, const N: usize, A: HAlloc> CapC for F<T, N, A> {
    const ES: usize = size_of::<T>();
    const INPLACE: usize = N;
    fn fresh() -> Self {
        let mut b = Box::new(MaybeUninit::uninit());
        unsafe { FixedVector::new().new(Pin::new_unchecked(&mut *b)) };
        F(b)
    }
    fn with_cap(_: usize) -> Option<Self> {
        None
    }
    fn reserve(&mut self, n: usize) -> bool {
        self.m().reserve(n);
        true
    }
    fn push(&mut self, v: u32) {
        self.m().push(T::mk(v))
    }
    fn pop(&mut self) {
        self.m().pop();
    }
    fn clear(&mut self) {
        self.m().clear()
    }
    fn vals(&self) -> Vec<u32> {
        self.g().as_ref().iter().map(|x| x.v()).collect()
    }
    fn len(&self) -> usize {
        self.g().as_ref().len()
    }
    fn cap(&self) -> usize {
        self.g().capacity()
    }
    fn begin(&mut self) -> usize {
        raw(&mut **self.m()).begin as usize
    }
    fn norm(v: u32) -> u32 {
        T::norm(v)
    }
    fn collect(_: &[u32], _: usize) -> Option<Self> {
        None
    }
}

/// the storage a container reports exists
fn check<C: CapC>(s: &mut C, m: &[u32], cx: &mut Ctx) -> R {
    cx.poll()?;
    let (len, cap) = (s.len(), s.cap());
    must!(cx, Class::Cap, len == m.len(), "length {len}, expected {}", m.len());
    must!(cx, Class::Cap, cap >= len, "capacity {cap} below the length {len}");
    let b = s.begin();
    if C::INPLACE > 0 && cap == C::INPLACE && heap(|h| h.at(b).is_none()) {
        // in place
    } else if cap > 0 {
        let Some(blk) = heap(|h| h.at(b)) else {
            must!(cx, Class::Cap, false, "capacity {cap} without a block");
            unreachable!()
        };
        must!(
            cx, Class::Cap, blk.size as u128 >= cap as u128 * C::ES as u128 + C::EXTRA as u128,
            "reports room for {cap} elements of {} bytes in a block of {} bytes", C::ES, blk.size
        );
    }
    must!(cx, Class::Cap, s.vals() == m, "contents changed");
    Ok(())
}

fn history<C: CapC>(case: &Case, cx: &mut Ctx, limit: usize) -> R {
    let mut s = C::fresh();
    let mut m: Vec<u32> = vec![];
    let mut fr = 0u32;
    for (step, &[code, a, b, c]) in case.ops.iter().enumerate() {
        cx.step = step;
        cx.ops_done += 1;
        budget(2_000_000);
        let (cap, len, begin) = (s.cap(), s.len(), s.begin());
        let n = request(b, c, C::ES, limit, cap, len);
        let mut made: Option<(C, Vec<u32>)> = None;
        let mut asked = None; // (elements of room that must exist afterwards, an honest implementation may need up to)
        let mut used = true;
        let r = {
            let (s, m, made, asked, used) = (&mut s, &mut m, &mut made, &mut asked, &mut used);
            let cx = &mut *cx;
            catch(move || match code % 7 {
                0 => {
                    cx.note(|| format!("with_capacity({n})"));
                    *asked = Some((n as u128, n as u128 + 1));
                    match C::with_cap(n) {
                        Some(x) => *made = Some((x, vec![])),
                        None => *used = false,
                    }
                }
                1 => {
                    cx.note(|| format!("reserve({n}) with capacity {cap}, length {len}"));
                    *asked = Some((len as u128 + n as u128, 2 * cap as u128 + n as u128 + 2));
                    *used = s.reserve(n);
                }
                3 => {
                    let k = a as usize % 8;
                    cx.note(|| format!("collect {k} elements from an iterator with size hint {n}"));
                    *asked = Some((k as u128, 2 * (n as u128).max(8) + 2));
                    let v: Vec<u32> = (0..k as u32).map(C::norm).collect();
                    // a hint is a lower bound the iterator may exceed, so it must be honest to be counted on
                    match C::collect(&v, n) {
                        Some(x) => *made = Some((x, v)),
                        None => *used = false,
                    }
                }
                4 => {
                    s.clear();
                    m.clear();
                }
                5 => {
                    for _ in 0..a % 5 {
                        s.pop();
                        m.pop();
                    }
                }
                6 => {
                    *made = Some((C::fresh(), vec![]));
                }
                _ => {}
            })
        };
        match (r, asked) {
            (Err(p), Some((_, most))) => {
                cx.poll()?;
                must!(cx, Class::Cap, most * C::ES as u128 + 1 > limit as u128, "a request for {n} elements of {} bytes was refused: {p}", C::ES);
                cx.mark("refused by a panic");
                // unchanged and usable
                must!(cx, Class::Cap, s.cap() == cap && s.len() == len && s.begin() == begin, "a refused request for {n} elements changed the container");
            }
            (Err(p), None) => must!(cx, Class::Panic, false, "unexpected panic: {p}"),
            (Ok(()), Some((least, _))) if used => {
                let room = match &mut made {
                    Some((x, _)) => x.cap(),
                    None => s.cap(),
                };
                must!(cx, Class::Cap, room as u128 >= least || n == 0, "granted {n} more elements, but the capacity is {room} (length {len})");
                cx.label(if n > 4096 { "a large request was granted" } else { "a small request was granted" });
                if let Some((mut x, v)) = made {
                    check(&mut x, &v, cx)?;
                    // replace only now: the old container is still there to be destroyed
                    s = x;
                    m = v;
                }
            }
            _ => {
                if let Some((x, v)) = made {
                    s = x;
                    m = v;
                }
            }
        }
        check(&mut s, &m, cx)?;
        if code % 7 == 2 || code % 7 < 2 && c & 1 == 0 {
            for _ in 0..a {
                if (s.len() + 1) * 2 * C::ES + 2 > limit {
                    // growth may be refused
                    let full = s.len() == s.cap();
                    let (cap, len) = (s.cap(), s.len());
                    let r = catch(|| s.push(fr));
                    match r {
                        Err(_) => {
                            must!(cx, Class::Cap, full, "a push that fits was refused");
                            cx.mark("growth refused by a panic");
                            must!(cx, Class::Cap, s.cap() == cap && s.len() == len, "a refused push changed the container");
                        }
                        Ok(()) => m.push(C::norm(fr)),
                    }
                } else {
                    s.push(fr);
                    m.push(C::norm(fr));
                }
                fr = (fr + 1) % 200;
            }
            check(&mut s, &m, cx)?;
        }
    }
    drop(s);
    cx.poll()
}

fn limit(case: &Case) -> usize {
    [1 << 12, 1 << 14, 300, 1 << 16][case.c(2) as usize % 4]
}
fn run_ta<C: CapC>(case: &Case, cx: &mut Ctx) -> R {
    let l = limit(case);
    heap(|h| h.fail_over = l);
    history::<C>(case, cx, l)
}
/// The default allocator aborts the process when the system has no memory: run in a child.
fn run_def<C: CapC>(case: &Case, cx: &mut Ctx) -> R {
    let l = limit(case);
    in_child(cx, |cx| {
        spy_limit(l);
        let r = history::<C>(case, cx, l);
        spy_limit(usize::MAX);
        r
    })
}
fn in_child(cx: &mut Ctx, f: impl FnOnce(&mut Ctx) -> R) -> R {
    unsafe {
        let mut p = [0i32; 2];
        assert!(pipe(p.as_mut_ptr()) == 0);
        let pid = fork();
        assert!(pid >= 0);
        if pid == 0 {
            alarm(20);
            close(p[0]);
            dup2(p[1], 2);
            let r = f(cx).and_then(|_| world_end(cx));
            let mut out = String::new();
            for (l, k) in &cx.case_labels {
                out += &format!("\u{1}L{l}\u{2}{k}");
            }
            if cx.nontrivial {
                out += "\u{1}N";
            }
            if let Err(v) = r {
                out += &format!("\u{1}V{}\u{2}{}", v.class as u32, v.msg);
            }
            out += "\u{1}E";
            write(p[1], out.as_ptr(), out.len());
            _exit(0)
        }
        close(p[1]);
        let mut all = Vec::new();
        let mut b = [0u8; 4096];
        loop {
            let n = read(p[0], b.as_mut_ptr(), b.len());
            if n <= 0 {
                break;
            }
            all.extend_from_slice(&b[..n as usize]);
        }
        close(p[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        let t = String::from_utf8_lossy(&all).to_string();
        let mut ended = false;
        for part in t.split('\u{1}').skip(1) {
            let (k, rest) = part.split_at(1);
            match k {
                "L" => {
                    for l in KNOWN {
                        if rest.split('\u{2}').next() == Some(l) {
                            cx.label(l)
                        }
                    }
                }
                "N" => cx.nontrivial = true,
                "V" => {
                    let (c, m) = rest.split_once('\u{2}').unwrap();
                    let class = [Class::Own, Class::Alloc, Class::Panic, Class::Cap].into_iter().find(|k| (*k as u32).to_string() == c).unwrap_or(Class::Cap);
                    return Err(Viol { class, msg: m.to_string() });
                }
                _ => ended = true,
            }
        }
        if st == 0 && ended {
            return Ok(());
        }
        if st & 0x7f == 6 && t.contains("memory allocation of") {
            cx.mark("refused by the standard allocation-failure abort");
            return Ok(());
        }
        let how = if st & 0x7f != 0 { format!("signal {}", st & 0x7f) } else { format!("exit {}", st >> 8) };
        Err(Viol { class: Class::Cap, msg: format!("the process ended by {how} instead of a panic or the allocation-failure abort: {}", t.chars().take(200).collect::<String>()) })
    }
}
const KNOWN: &[&'static str] = &["refused by a panic", "growth refused by a panic", "a large request was granted", "a small request was granted"];

// the allocator interface itself
const AOPS: &[&str] = &["allocate", "allocate_raw", "allocate_raw_aligned"];
fn agen(r: &mut Rng, _size: u32, _flags: u32) -> Case {
    let n = r.range(1, 6);
    let ops = (0..n).map(|_| [r.u(3), r.u(13), *r.pick(&[0, 1, 1, 2, 3, 4, 4, 5, 6, 9]), r.r32()]).collect();
    Case { subject: String::new(), cfg: vec![r.u(5), 0, r.u(4)], ops }
}
fn alloc_history<A: HAlloc>(case: &Case, cx: &mut Ctx, limit: usize) -> R {
    let mut al = A::mk(3);
    let mut held: Vec<(*mut (), usize, usize, u8)> = vec![];
    fn typed<T, A: Allocator>(al: &mut A, n: usize) -> (*mut (), usize, usize) {
        (al.allocate::<T>(n) as *mut (), size_of::<T>(), align_of::<T>())
    }
    for (step, &[code, a, b, c]) in case.ops.iter().enumerate() {
        cx.step = step;
        cx.ops_done += 1;
        budget(100_000);
        let es = [1, 2, 4, 8, 12, 16, 24, 32, 64, 4096, 100, 7, 3][a as usize % 13];
        let ty = code % 3 == 0;
        let n = request(b, c, if ty { es } else { 1 }, limit, 0, 0).max(1);
        let al_ = 1usize << (a % 13);
        let r = catch(|| match code % 3 {
            0 => match es {
                1 => typed::<u8, _>(&mut al, n),
                2 => typed::<u16, _>(&mut al, n),
                4 => typed::<u32, _>(&mut al, n),
                8 => typed::<u64, _>(&mut al, n),
                12 => typed::<[u32; 3], _>(&mut al, n),
                16 => typed::<A16, _>(&mut al, n),
                24 => typed::<[u64; 3], _>(&mut al, n),
                32 => typed::<[u64; 4], _>(&mut al, n),
                64 => typed::<A64, _>(&mut al, n),
                4096 => typed::<[u64; 512], _>(&mut al, n),
                100 => typed::<[u32; 25], _>(&mut al, n),
                7 => typed::<[u8; 7], _>(&mut al, n),
                _ => typed::<[u8; 3], _>(&mut al, n),
            },
            1 => (al.allocate_raw(n), 1, 8),
            _ => (al.allocate_raw_aligned(n, al_), 1, al_),
        });
        cx.note(|| format!("{} of {n} x {es} gave {r:?}", AOPS[code as usize % 3]));
        match r {
            Ok((p, es, align)) => {
                cx.poll()?;
                let blk = heap(|h| h.at(p as usize));
                let have = blk.map_or(0, |b| b.size);
                must!(cx, Class::Cap, have as u128 >= n as u128 * es as u128, "{n} x {es} bytes were granted as a block of {have} bytes");
                must!(cx, Class::Alloc, have == n * es, "{n} x {es} bytes were requested as {have} bytes");
                must!(cx, Class::Alloc, blk.unwrap().align == align && p as usize % align == 0, "alignment {align} was asked of the allocator as {}", blk.unwrap().align);
                cx.label("a small request was granted");
                let k = step as u8 ^ 0x3C;
                unsafe { std::ptr::write_bytes(p as *mut u8, k, have) };
                held.push((p, have, align, k));
            }
            Err(e) => {
                must!(cx, Class::Cap, n as u128 * es as u128 > limit as u128, "{n} x {es} bytes were refused: {e}");
                cx.mark("refused by a panic");
            }
        }
        if c % 3 == 0 && !held.is_empty() {
            release(&mut al, held.swap_remove(c as usize / 3 % held.len()), cx)?;
        }
    }
    for h in held {
        release(&mut al, h, cx)?;
    }
    drop(al);
    cx.poll()
}
fn release<A: HAlloc>(al: &mut A, (p, n, align, k): (*mut (), usize, usize, u8), cx: &mut Ctx) -> R {
    let ok = unsafe { std::slice::from_raw_parts(p as *const u8, n).iter().all(|&b| b == k) };
    must!(cx, Class::Alloc, ok, "two blocks overlap");
    unsafe {
        match align {
            1 if n % 3 == 0 => al.deallocate(p as *mut [u8; 3], n / 3),
            2 if n % 2 == 0 => al.deallocate(p as *mut u16, n / 2),
            8 if n % 5 == 0 => al.deallocate_raw(p, n),
            8 if n % 8 == 0 => al.deallocate(p as *mut u64, n / 8),
            _ => al.deallocate_raw_aligned(p, n, align),
        }
    }
    cx.poll()
}
fn run_alloc_ta(case: &Case, cx: &mut Ctx) -> R {
    let l = limit(case);
    heap(|h| h.fail_over = l);
    alloc_history::<TA>(case, cx, l)
}
fn run_alloc_def(case: &Case, cx: &mut Ctx) -> R {
    let l = limit(case);
    in_child(cx, |cx| {
        spy_limit(l);
        let r = alloc_history::<DA>(case, cx, l);
        spy_limit(usize::MAX);
        r
    })
}
/// the same requests, none of them too large
fn small_gen(r: &mut Rng, s: u32, f: u32) -> Case {
    let mut c = agen(r, s, f);
    for o in &mut c.ops {
        o[2] = 5;
    }
    c.cfg[2] = 1;
    c
}
fn run_alloc_small<A: HAlloc>(case: &Case, cx: &mut Ctx) -> R {
    if case.ops.len() > 1 {
        cx.mark("several blocks");
    }
    alloc_history::<A>(case, cx, 1 << 24)
}

pub fn subjects(v: &mut Vec<Subject>) {
    let _ = DefaultAllocator::new;
    macro_rules! both {
        ($n:expr, $ta:ty, $da:ty) => {
            v.push(Subject { name: format!("cap/{}/ta", $n), gen, run: run_ta::<$ta>, ops: OPS });
            v.push(Subject { name: format!("cap/{}/def", $n), gen, run: run_def::<$da>, ops: OPS });
        };
    }
    both!("vec-u8", V<u8, TA>, V<u8, DA>);
    both!("vec-u16", V<u16, TA>, V<u16, DA>);
    both!("vec-u64", V<u64, TA>, V<u64, DA>);
    both!("vec-u32x3", V<[u32; 3], TA>, V<[u32; 3], DA>);
    both!("vec-t24", V<T<16>, TA>, V<T<16>, DA>);
    both!("vec-b7", V<B7, TA>, V<B7, DA>);
    both!("vec-a64", V<A64, TA>, V<A64, DA>);
    both!("string", S<TA>, S<DA>);
    both!("vmap", M<TA>, M<DA>);
    both!("fvec-u32", F<u32, 4, TA>, F<u32, 4, DA>);
    both!("fvec-t24", F<T<16>, 3, TA>, F<T<16>, 3, DA>);
    v.push(Subject { name: "cap/alloc/ta".into(), gen: agen, run: run_alloc_ta, ops: AOPS });
    v.push(Subject { name: "cap/alloc/def".into(), gen: agen, run: run_alloc_def, ops: AOPS });
    v.push(Subject { name: "alloc/ta".into(), gen: small_gen, run: run_alloc_small::<TA>, ops: AOPS });
    v.push(Subject { name: "alloc/def".into(), gen: small_gen, run: run_alloc_small::<DA>, ops: AOPS });
}
