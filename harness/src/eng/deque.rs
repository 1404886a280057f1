//! Deque and Queue against VecDeque<u32>.
use super::*;
use crate::env::*;
use crate::{chk, fail, must};
use eastl_rs::deque::iter::{CompatIter, CompatIterMut, Iter, IterMut};
use eastl_rs::{Deque, Queue};
use std::collections::VecDeque;
use std::mem::{align_of, size_of};

pub const OPS: &[&str] = &[
    "push_back", "push_front", "pop_back", "pop_front", "remove", "remove_past_end", "fill_back", "fill_front",
    "drain_back", "drain_front", "mutate_ends", "mutate_iter", "iterate", "debug", "construct", "into_iter",
    "compat", "compat_mut", "compat_cpp", "cpp_push_back", "cpp_push_front", "cpp_pop_back", "cpp_pop_front",
    "cpp_move_table", "fault",
];
const W: [u32; 25] = [10, 10, 7, 7, 7, 2, 2, 2, 2, 2, 2, 2, 3, 1, 1, 2, 3, 3, 2, 0, 0, 0, 0, 0, 0];
const FAULT: u32 = 24;
type D<T, A> = Deque<'static, T, A>;

#[repr(C)]
struct RawIt<T> {
    cur: *mut T,
    begin: *mut T,
    end: *mut T,
    arr: *mut *mut T,
}
impl<T> Clone for RawIt<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for RawIt<T> {}
#[repr(C)]
struct RawDeque<T> {
    table: *mut *mut T,
    size: u32,
    b: RawIt<T>,
    e: RawIt<T>,
}
fn raw<T, A: HAlloc>(d: &mut D<T, A>) -> &mut RawDeque<T> {
    unsafe { &mut *(d as *mut D<T, A> as *mut RawDeque<T>) }
}
const fn sub<T>() -> usize {
    match size_of::<T>() {
        0..=4 => 64,
        5..=8 => 32,
        9..=16 => 16,
        17..=32 => 8,
        _ => 4,
    }
}
fn it_bits<T, I>(i: &I) -> RawIt<T> {
    assert_eq!(size_of::<I>(), size_of::<RawIt<T>>());
    unsafe { std::ptr::read(i as *const I as *const RawIt<T>) }
}
fn to_it<T>(r: RawIt<T>) -> CompatIter<'static, T> {
    unsafe { std::mem::transmute_copy(&r) }
}
fn to_it_mut<T>(r: RawIt<T>) -> CompatIterMut<'static, T> {
    unsafe { std::mem::transmute_copy(&r) }
}
/// C++: ++it
fn cpp_next<T>(i: &mut RawIt<T>) {
    unsafe {
        i.cur = i.cur.add(1);
        if i.cur == i.end {
            i.arr = i.arr.add(1);
            i.begin = *i.arr;
            i.end = i.begin.add(sub::<T>());
            i.cur = i.begin;
        }
    }
}
/// what `for(; b != e; ++b)` visits
fn cpp_walk<T: Elem>(mut b: RawIt<T>, e: RawIt<T>, limit: usize) -> Result<Vec<u32>, String> {
    let mut v = vec![];
    while b.cur != e.cur {
        if v.len() > limit {
            return Err(format!("the loop did not stop after {} elements", v.len()));
        }
        v.push(unsafe { (*b.cur).v() });
        cpp_next(&mut b);
    }
    if b.arr != e.arr || b.begin != e.begin || b.end != e.end {
        return Err("the end iterator is in another subarray than the position it names".into());
    }
    Ok(v)
}

fn gen(r: &mut Rng, size: u32, flags: u32) -> Case {
    let mut w = W;
    if flags & FL_FOREIGN != 0 {
        for i in 19..24 {
            w[i] = 3
        }
    }
    let cfg = vec![r.u(5), r.u(3), r.u(1 << 20)];
    let mut ops = OpGen { weights: &w }.gen(r, if size > 1 { 140 } else { 60 });
    if flags & FL_FAULT != 0 {
        sprinkle_faults(r, &mut ops, FAULT, flags);
    }
    Case { subject: String::new(), cfg, ops }
}

fn check<T: Elem, A: HAlloc>(d: &mut D<T, A>, m: &VecDeque<u32>, tag: u32, cx: &mut Ctx, deep: bool) -> R {
    let n = m.len();
    must!(cx, Class::Model, d.len() == n, "length {} where {n} elements are expected", d.len());
    chk!(cx, Class::Model, d.is_empty() == (n == 0), "is_empty() is wrong at length {n}");
    must!(cx, Class::Model, d.front().map(|x| x.v()) == m.front().copied(), "front() is {:?}, expected {:?}", d.front().map(|x| x.v()), m.front());
    must!(cx, Class::Model, d.back().map(|x| x.v()) == m.back().copied(), "back() is {:?}, expected {:?}", d.back().map(|x| x.v()), m.back());
    let mut i = 0;
    for x in d.iter() {
        must!(cx, Class::Model, i < n, "iteration yields more than {n} elements");
        let g = x.v();
        must!(cx, Class::Model, g == m[i], "element {i} is {g}, expected {}", m[i]);
        i += 1;
    }
    must!(cx, Class::Model, i == n, "iteration yields {i} of {n} elements");
    if deep {
        let mut i = n;
        for x in d.iter().rev() {
            must!(cx, Class::Model, i > 0, "reverse iteration yields more than {n} elements");
            i -= 1;
            must!(cx, Class::Model, x.v() == m[i], "reverse iteration: element {i} is {}, expected {}", x.v(), m[i]);
        }
        must!(cx, Class::Model, i == 0, "reverse iteration stops {i} elements early");
    }
    if cx.on(Class::Layout) || cx.on(Class::Alloc) {
        layout(d, m, tag, cx)?;
    }
    cx.poll()
}
fn layout<T: Elem, A: HAlloc>(d: &mut D<T, A>, m: &VecDeque<u32>, tag: u32, cx: &mut Ctx) -> R {
    let at = d as *const _ as *const u8;
    if A::NAME == "ta" {
        chk!(cx, Class::Layout, size_of::<D<T, A>>() == 88 && unsafe { *at.add(80) } as u32 == tag, "the allocator byte is not at offset 80");
    }
    let r = raw(d);
    let (t, k) = (r.table as usize, r.size as usize);
    let Some(tb) = heap(|h| h.at(t)) else {
        fail!(cx, if cx.on(Class::Layout) { Class::Layout } else { Class::Alloc }, "the block table pointer does not name a live block")
    };
    chk!(cx, Class::Alloc, tb.tag == tag, "the block table came from allocator #{}, expected #{tag}", tb.tag);
    must!(cx, Class::Layout, tb.size == k * 8, "the block table records {k} entries in {} bytes", tb.size);
    let (bi, ei) = ((r.b.arr as usize).wrapping_sub(t) / 8, (r.e.arr as usize).wrapping_sub(t) / 8);
    must!(cx, Class::Layout, bi <= ei && ei < k && (r.b.arr as usize) % 8 == 0, "cursors are in table slots {bi} and {ei} of {k}");
    for (nm, it) in [("begin", &r.b), ("end", &r.e)] {
        let s = unsafe { *it.arr };
        chk!(cx, Class::Layout, it.begin == s && it.end == s.wrapping_add(sub::<T>()), "{nm} cursor: block bounds do not match the table slot");
        chk!(cx, Class::Layout, it.cur >= it.begin && it.cur < it.end, "{nm} cursor is outside its block");
    }
    for s in bi..=ei {
        let p = unsafe { *r.table.add(s) } as usize;
        match heap(|h| h.at(p)) {
            None => chk!(cx, Class::Layout, false, "table slot {s} does not name a live block"),
            Some(b) => {
                chk!(cx, Class::Alloc, b.tag == tag, "a block came from allocator #{}, expected #{tag}", b.tag);
                chk!(cx, Class::Layout, b.size == sub::<T>() * size_of::<T>() && b.align == align_of::<T>(), "table slot {s}: block of {} bytes, expected {} elements of {} bytes", b.size, sub::<T>(), size_of::<T>());
            }
        }
    }
    if ei > bi {
        cx.mark("contents span several blocks")
    }
    match cpp_walk(r.b, r.e, m.len()) {
        Err(e) => chk!(cx, Class::Layout, false, "C++ iteration: {e}"),
        Ok(v) => chk!(cx, Class::Layout, v.iter().eq(m.iter()), "C++ iteration visits {}, expected {}", show(&v), show(&m.iter().copied().collect::<Vec<_>>())),
    }
    Ok(())
}

fn reads<T: Elem, A: HAlloc>(d: &D<T, A>, m: &VecDeque<u32>, seed: u32, cx: &mut Ctx) -> R {
    let n = m.len();
    let w: Vec<u32> = m.iter().copied().collect();
    must!(cx, Class::Model, d.len() == n && d.is_empty() == (n == 0), "length {} where {n} elements are expected", d.len());
    must!(cx, Class::Model, d.front().map(|x| x.v()) == m.front().copied() && d.back().map(|x| x.v()) == m.back().copied(), "front() or back() is wrong");
    must!(cx, Class::Model, d.iter().map(|x| x.v()).eq(w.iter().copied()), "iteration is wrong");
    let _ = format!("{:?}", d);
    let k = seed as usize % (n + 1);
    let mut i = d.iter();
    for _ in 0..k {
        i.next();
    }
    let (x, y) = i.into_compat();
    let back = unsafe { Iter::from_compat(x, y) };
    must!(cx, Class::Model, back.map(|x| x.v()).eq(w[k..].iter().copied()), "the converted iterator is wrong");
    proto::dbl(d.iter(), &w, seed, false, cx, Class::Model, |x| x.v())?;
    cx.poll()
}

struct St<T: Elem, A: HAlloc> {
    d: D<T, A>,
    m: VecDeque<u32>,
    tag: u32,
}

/// converts an iterator over `m[lo..hi]` to its C++ form and back
fn compat_pair<T: Elem>(b: RawIt<T>, e: RawIt<T>, want: &[u32], cx: &mut Ctx) -> R {
    match cpp_walk(b, e, want.len()) {
        Err(x) => fail!(cx, Class::Compat, "C++ loop over the converted iterator: {x}"),
        Ok(v) => must!(cx, Class::Compat, v == want, "C++ loop over the converted iterator visits {}, expected {}", show(&v), show(want)),
    }
    Ok(())
}
fn mixed<'x, T: Elem>(mut it: impl DoubleEndedIterator<Item = T2<'x, T>>, want: &[u32], mut bits: u32, cx: &Ctx, cl: Class, mut f: impl FnMut(usize, T2<'x, T>)) -> R {
    let (mut lo, mut hi) = (0, want.len());
    for _ in 0..want.len() + 1 {
        let back = bits & 1 == 1;
        bits = bits.rotate_right(1);
        let g = if back { it.next_back() } else { it.next() };
        if lo == hi {
            must!(cx, cl, g.is_none(), "iterator yields more than {} elements", want.len());
            let g2 = if back { it.next() } else { it.next_back() };
            must!(cx, cl, g2.is_none(), "exhausted iterator yields an element again");
            break;
        }
        let i = if back {
            hi -= 1;
            hi
        } else {
            lo += 1;
            lo - 1
        };
        match g {
            None => fail!(cx, cl, "iterator ends {} elements early", hi - lo + 1),
            Some(x) => {
                let v = x.val();
                must!(cx, cl, v == want[i], "iterator yields {v} from the {}, expected {}", if back { "back" } else { "front" }, want[i]);
                f(i, x)
            }
        }
    }
    Ok(())
}
/// shared or mutable reference
pub enum T2<'x, T> {
    R(&'x T),
    M(&'x mut T),
}
impl<'x, T: Elem> T2<'x, T> {
    fn val(&self) -> u32 {
        match self {
            T2::R(x) => x.v(),
            T2::M(x) => x.v(),
        }
    }
}

fn al<T, A: HAlloc>(tag: u32, n: usize) -> *mut T {
    A::mk(tag).allocate::<T>(n)
}
fn de<T, A: HAlloc>(tag: u32, p: *mut T, n: usize) {
    unsafe { A::mk(tag).deallocate::<T>(p, n) }
}

fn op<T: Elem, A: HAlloc>(s: &mut St<T, A>, o: &[u32; 4], fr: &mut super::vector::Fresh, added: &mut Vec<u32>, cx: &mut Ctx, q: Option<()>) -> R {
    let _ = q;
    let [code, a, b, c] = *o;
    let n = s.m.len();
    let mv: Vec<u32> = s.m.iter().copied().collect();
    match code {
        0 | 1 | 6 | 7 => {
            let k = if code >= 6 { 1 + (a as usize % if b % 8 == 0 { 700 } else { 90 }) } else { 1 };
            if n > 1500 {
                return Ok(());
            }
            let back = code % 2 == 0;
            let slots = raw(&mut s.d).size;
            for _ in 0..k {
                let x = fr.next::<T>(c);
                added.push(x);
                if back {
                    s.d.push_back(T::mk(x));
                    s.m.push_back(x)
                } else {
                    s.d.push_front(T::mk(x));
                    s.m.push_front(x)
                }
            }
            cx.note(|| format!("push {k} at the {}", if back { "back" } else { "front" }));
            if raw(&mut s.d).size != slots {
                cx.mark("block table regrown")
            }
        }
        2 | 3 | 8 | 9 => {
            let k = if code >= 8 { 1 + (a as usize % if b % 4 == 0 { n + 3 } else { 90 }) } else { 1 };
            let back = code % 2 == 0;
            cx.note(|| format!("pop {k} at the {}", if back { "back" } else { "front" }));
            for _ in 0..k {
                let (g, w) = if back { (s.d.pop_back().map(|x| x.v()), s.m.pop_back()) } else { (s.d.pop_front().map(|x| x.v()), s.m.pop_front()) };
                must!(cx, Class::Model, g == w, "pop at the {} gave {g:?}, expected {w:?}", if back { "back" } else { "front" });
                if w.is_none() {
                    cx.mark("pop on empty");
                    break;
                }
            }
        }
        4 => {
            let i = if n == 0 {
                0
            } else {
                match b % 4 {
                    0 => n / 2,
                    1 => (n / 2).saturating_sub(1),
                    _ => a as usize % n,
                }
            };
            cx.note(|| format!("remove {i} of {n}"));
            let (g, w) = (s.d.remove(i).map(|x| x.v()), s.m.remove(i));
            must!(cx, Class::Model, g == w, "remove({i}) gave {g:?}, expected {w:?}");
            if n > 2 {
                cx.mark("remove inside")
            }
        }
        5 => {
            let i = match b % 3 {
                0 => n,
                1 => n + 1 + a as usize,
                _ => usize::MAX - a as usize % 3,
            };
            cx.note(|| format!("remove past the end {i}"));
            let g = s.d.remove(i).map(|x| x.v());
            must!(cx, Class::Model, g.is_none(), "remove({i}) at length {n} gave {g:?}");
        }
        10 => {
            let x = fr.next::<T>(c);
            let r = if b % 2 == 0 { s.d.front_mut() } else { s.d.back_mut() };
            must!(cx, Class::Model, r.is_some() == (n > 0), "front_mut/back_mut at length {n} is wrong");
            if let Some(r) = r {
                cx.note(|| format!("set the {} to {x}", if b % 2 == 0 { "front" } else { "back" }));
                if a % 2 == 0 {
                    refit(r, T::mk(x))
                } else {
                    r.set(x)
                }
                *(if b % 2 == 0 { s.m.front_mut() } else { s.m.back_mut() }).unwrap() = x;
            }
        }
        11 => {
            cx.note(|| "mutate through the iterator".into());
            let mut news = mv.clone();
            mixed(s.d.iter_mut().map(T2::M), &mv, c, cx, Class::Model, |i, x| {
                if (i + a as usize) % 3 == 0 {
                    if let T2::M(x) = x {
                        let y = fr.next::<T>(c);
                        x.set(y);
                        news[i] = y;
                    }
                }
            })?;
            s.m = news.into();
        }
        12 => {
            cx.note(|| "iterate from both ends".into());
            match b % 4 {
                0 => proto::dbl(s.d.iter(), &mv, c, false, cx, Class::Model, |x| x.v())?,
                1 => proto::dbl(s.d.iter_mut(), &mv, c, false, cx, Class::Model, |x| x.v())?,
                _ => mixed(s.d.iter().map(T2::R), &mv, c, cx, Class::Model, |_, _| ())?,
            }
        }
        13 => {
            if T::NAME != "u32x3" {
                let g = format!("{:?}", s.d);
                let w = format!("[ {} ]", mv.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
                must!(cx, Class::Model, g == w, "rendered as {g}, expected {w}");
            }
        }
        16 | 17 => {
            let (lo, hi) = (a as usize % (n + 1), b as usize % (n + 1));
            let (lo, hi) = (lo.min(hi), lo.max(hi));
            cx.note(|| format!("convert an iterator over {lo}..{hi}"));
            if lo > 0 || hi < n {
                cx.mark("converted a partly consumed iterator")
            }
            if code == 16 {
                let mut it = s.d.iter();
                for _ in 0..lo {
                    it.next();
                }
                for _ in hi..n {
                    it.next_back();
                }
                let (x, y) = it.into_compat();
                compat_pair::<T>(it_bits(&x), it_bits(&y), &mv[lo..hi], cx)?;
                if b % 3 == 0 {
                    proto::dbl(unsafe { Iter::from_compat(x, y) }, &mv[lo..hi], c, false, cx, Class::Compat, |x| x.v())?
                } else {
                    mixed(unsafe { Iter::from_compat(x, y) }.map(T2::R), &mv[lo..hi], c, cx, Class::Compat, |_, _| ())?;
                }
            } else {
                let mut it = s.d.iter_mut();
                for _ in 0..lo {
                    it.next();
                }
                for _ in hi..n {
                    it.next_back();
                }
                if c % 3 == 0 {
                    let (x, y) = it.into_compat();
                    compat_pair::<T>(it_bits(&x), it_bits(&y), &mv[lo..hi], cx)?;
                } else {
                    let (x, y) = it.into_compat_mut();
                    compat_pair::<T>(it_bits(&x), it_bits(&y), &mv[lo..hi], cx)?;
                    let (x2, y2): (CompatIter<T>, CompatIter<T>) = ((&x).into(), (&y).into());
                    compat_pair::<T>(it_bits(&x2), it_bits(&y2), &mv[lo..hi], cx)?;
                    if c % 5 == 1 {
                        // given up for the shared kind
                        let (x, y): (CompatIter<T>, CompatIter<T>) = (x.into(), y.into());
                        compat_pair::<T>(it_bits(&x), it_bits(&y), &mv[lo..hi], cx)?;
                        return mixed(unsafe { Iter::from_compat(x, y) }.map(T2::R), &mv[lo..hi], c >> 3, cx, Class::Compat, |_, _| ());
                    }
                    let mut news = mv.clone();
                    mixed(unsafe { IterMut::from_compat(x, y) }.map(T2::M), &mv[lo..hi], c, cx, Class::Compat, |i, x| {
                        if let T2::M(x) = x {
                            let y = fr.next::<T>(c);
                            x.set(y);
                            news[lo + i] = y;
                        }
                    })?;
                    s.m = news.into();
                    cx.mark("mutated through a reconverted iterator");
                    for (i, x) in s.d.iter().enumerate() {
                        must!(cx, Class::Compat, x.v() == s.m[i], "a change through the reconverted iterator is not visible at {i}");
                    }
                }
            }
        }
        18 => {
            // C++ makes the pair
            let (lo, hi) = (a as usize % (n + 1), b as usize % (n + 1));
            let (lo, hi) = (lo.min(hi), lo.max(hi));
            cx.note(|| format!("C++ iterators over {lo}..{hi}"));
            let mut x = raw(&mut s.d).b;
            for _ in 0..lo {
                cpp_next(&mut x);
            }
            let mut y = x;
            for _ in lo..hi {
                cpp_next(&mut y);
            }
            cx.mark("iterator made by foreign code");
            if c % 8 == 2 {
                proto::dbl(unsafe { IterMut::from_compat(to_it_mut::<T>(x), to_it_mut::<T>(y)) }, &mv[lo..hi], c, false, cx, Class::Compat, |x| x.v())?
            } else if c % 2 == 0 {
                mixed(unsafe { Iter::from_compat(to_it(x), to_it(y)) }.map(T2::R), &mv[lo..hi], c >> 1, cx, Class::Compat, |_, _| ())?;
            } else {
                mixed(unsafe { IterMut::from_compat(to_it_mut(x), to_it_mut(y)) }.map(T2::M), &mv[lo..hi], c >> 1, cx, Class::Compat, |i, x| {
                    if let T2::M(x) = x {
                        let y = fr.next::<T>(c);
                        x.set(y);
                        s.m[lo + i] = y;
                    }
                })?;
            }
        }
        19..=23 => cpp(s, o, fr, cx)?,
        _ => {}
    }
    Ok(())
}

fn cpp<T: Elem, A: HAlloc>(s: &mut St<T, A>, o: &[u32; 4], fr: &mut super::vector::Fresh, cx: &mut Ctx) -> R {
    let [code, a, b, c] = *o;
    let tag = s.tag;
    let r = raw(&mut s.d);
    unsafe {
        match code {
            19 => {
                let x = fr.next::<T>(c);
                if r.e.cur.add(1) != r.e.end {
                    r.e.cur.write(T::mk(x));
                    r.e.cur = r.e.cur.add(1);
                } else if r.e.arr.add(1) < r.table.add(r.size as usize) {
                    r.e.cur.write(T::mk(x));
                    *r.e.arr.add(1) = al::<T, A>(tag, sub::<T>());
                    r.e.arr = r.e.arr.add(1);
                    r.e.begin = *r.e.arr;
                    r.e.end = r.e.begin.add(sub::<T>());
                    r.e.cur = r.e.begin;
                    cx.mark("foreign code added a block");
                } else {
                    return Ok(());
                }
                cx.foreign = true;
                cx.note(|| format!("C++ push_back {x}"));
                s.m.push_back(x);
            }
            20 => {
                let x = fr.next::<T>(c);
                if r.b.cur == r.b.begin {
                    if r.b.arr == r.table {
                        return Ok(());
                    }
                    *r.b.arr.sub(1) = al::<T, A>(tag, sub::<T>());
                    r.b.arr = r.b.arr.sub(1);
                    r.b.begin = *r.b.arr;
                    r.b.end = r.b.begin.add(sub::<T>());
                    r.b.cur = r.b.end;
                    cx.mark("foreign code added a block");
                }
                cx.foreign = true;
                cx.note(|| format!("C++ push_front {x}"));
                r.b.cur = r.b.cur.sub(1);
                r.b.cur.write(T::mk(x));
                s.m.push_front(x);
            }
            21 => {
                let Some(w) = s.m.pop_back() else { return Ok(()) };
                cx.foreign = true;
                cx.note(|| "C++ pop_back".into());
                if r.e.cur == r.e.begin {
                    let old = r.e.begin;
                    r.e.arr = r.e.arr.sub(1);
                    r.e.begin = *r.e.arr;
                    r.e.end = r.e.begin.add(sub::<T>());
                    r.e.cur = r.e.end;
                    de::<T, A>(tag, old, sub::<T>());
                }
                r.e.cur = r.e.cur.sub(1);
                let g = r.e.cur.read().v();
                must!(cx, Class::Layout, g == w, "C++ pop_back sees {g}, expected {w}");
            }
            22 => {
                let Some(w) = s.m.pop_front() else { return Ok(()) };
                cx.foreign = true;
                cx.note(|| "C++ pop_front".into());
                let g = r.b.cur.read().v();
                if r.b.cur.add(1) != r.b.end {
                    r.b.cur = r.b.cur.add(1);
                } else {
                    let old = r.b.begin;
                    r.b.arr = r.b.arr.add(1);
                    r.b.begin = *r.b.arr;
                    r.b.end = r.b.begin.add(sub::<T>());
                    r.b.cur = r.b.begin;
                    de::<T, A>(tag, old, sub::<T>());
                }
                must!(cx, Class::Layout, g == w, "C++ pop_front sees {g}, expected {w}");
            }
            _ => {
                // C++ moved its block table: any size, the used part anywhere in it
                let used = r.e.arr.offset_from(r.b.arr) as usize + 1;
                let size = used.max(8) + a as usize % 5;
                let start = match c % 4 {
                    0 => 0,
                    1 => size - used,
                    _ => b as usize % (size - used + 1),
                };
                cx.foreign = true;
                cx.note(|| format!("C++ moves the table: {used} blocks at slot {start} of {size}"));
                cx.mark("foreign code moved the block table");
                let t = al::<*mut T, A>(tag, size);
                std::ptr::copy_nonoverlapping(r.b.arr, t.add(start), used);
                de::<*mut T, A>(tag, r.table, r.size as usize);
                r.table = t;
                r.size = size as u32;
                r.b.arr = t.add(start);
                r.e.arr = t.add(start + used - 1);
            }
        }
    }
    Ok(())
}

fn construct<T: Elem, A: HAlloc>(o: &[u32; 4], fr: &mut super::vector::Fresh, added: &mut Vec<u32>, cx: &mut Ctx) -> R<St<T, A>> {
    let [_, a, b, c] = *o;
    let k = a as usize % 200;
    let tag = 2 + c % 6;
    cx.note(|| format!("construct kind {}", b % 4));
    Ok(match b % 4 {
        0 => St { d: Deque::new(), m: VecDeque::new(), tag: A::DEFTAG },
        1 => St { d: unsafe { Deque::new_in(A::mk(tag)) }, m: VecDeque::new(), tag: A::mk(tag).tag() },
        2 => St { d: Deque::default(), m: VecDeque::new(), tag: A::DEFTAG },
        _ => {
            let xs: Vec<u32> = (0..k).map(|_| fr.next::<T>(c)).collect();
            added.extend(&xs);
            let buf: Vec<T> = xs.iter().map(|&x| T::mk(x)).collect();
            St { d: Src { it: buf.into_iter(), lower: c as usize % 5 }.collect(), m: xs.into(), tag: A::DEFTAG }
        }
    })
}
fn drain<T: Elem>(it: &mut (impl Iterator<Item = T> + DoubleEndedIterator), m: &mut VecDeque<u32>, o: &[u32; 4], cx: &mut Ctx) -> R {
    let [_, a, b, c] = *o;
    let n = m.len();
    let take = match b % 4 {
        0 => n + 2,
        1 => 0,
        _ => a as usize % (n + 1),
    };
    cx.note(|| format!("into_iter, {take} of {n} steps"));
    let mut bits = c;
    for _ in 0..take {
        let back = bits & 1 == 1;
        bits = bits.rotate_right(1);
        let (g, w) = if back { (it.next_back().map(|x| x.v()), m.pop_back()) } else { (it.next().map(|x| x.v()), m.pop_front()) };
        must!(cx, Class::Model, g == w, "consuming iterator gave {g:?} from the {}, expected {w:?}", if back { "back" } else { "front" });
    }
    if !m.is_empty() {
        cx.mark("dropped a partly consumed iterator")
    }
    Ok(())
}

fn run<T: Elem, A: HAlloc>(case: &Case, cx: &mut Ctx) -> R {
    let mut fr = super::vector::Fresh(case.c(2));
    let mut s: Box<St<T, A>> = sealable_box(St { d: Deque::new(), m: VecDeque::new(), tag: A::DEFTAG });
    let mut arm = None;
    let mut stay = still::Stay::default();
    for (step, o) in case.ops.iter().enumerate() {
        cx.step = step;
        cx.ops_done += 1;
        budget(2_000_000);
        let [code, a, b, c] = *o;
        let code = code % 25;
        if code == FAULT {
            arm = Some((a, b));
            continue;
        }
        let o = &[code, a, b, c];
        let mut added = Vec::new();
        let before: Vec<u32> = s.m.iter().copied().collect();
        let hit = {
            let (s, fr, added) = (&mut *s, &mut fr, &mut added);
            guarded(&mut arm, cx, move |cx| {
                match code {
                    14 => {
                        *s = construct::<T, A>(o, fr, added, cx)?;
                    }
                    15 => {
                        let old = std::mem::replace(s, St { d: Deque::new(), m: VecDeque::new(), tag: A::DEFTAG });
                        let St { d, mut m, .. } = old;
                        let mut it = d.into_iter();
                        drain(&mut it, &mut m, o, cx)?;
                        if o[2] % 4 > 1 {
                            proto::dbl(it, m.make_contiguous(), o[3] ^ o[2], false, cx, Class::Model, |x| x.v())?
                        }
                    }
                    _ => op(s, o, fr, added, cx, None)?,
                }
                Ok(())
            })?
        };
        if hit {
            let got: Vec<u32> = s.d.iter().take(before.len() + added.len() + 1).map(|x| x.v()).collect();
            let all: Vec<u32> = before.iter().chain(&added).copied().collect();
            must!(cx, Class::Fault, sub_multiset(&got, &all), "after a panic the deque holds {}, which was neither in it nor being added", show(&got));
            refused(cx, OPS[code as usize], got == before, || show(&got))?;
            s.m = got.into();
        }
        let tag = s.tag;
        check(&mut s.d, &s.m, tag, cx, step % 4 == 1)?;
        let s: &St<T, A> = &s;
        if cx.on(Class::Addr) {
            // removal inside closes the gap, everything else leaves the other elements alone
            let now = s.d.iter().map(|x| (x.ident(), x as *const T as usize)).collect();
            stay.see(now, matches!(code, 4 | 14 | 15), OPS[code as usize], cx)?;
        }
        still::shared(cx, &[still::span(&s.d)], a ^ c, |cx| reads(&s.d, &s.m, a ^ c, cx))?;
    }
    cx.step = case.ops.len();
    cx.note(|| "drop".into());
    drop(s);
    cx.poll()
}

// ---------------------------------------------------------------------------------------------
// Queue

pub const QOPS: &[&str] = &[
    "push", "pop", "push_many", "pop_many", "top", "iterate", "iter_mut", "into_inner", "collect", "into_iter", "debug", "construct", "default_allocator_deque", "fault",
];
const QW: [u32; 14] = [12, 10, 2, 2, 3, 2, 2, 1, 1, 1, 1, 1, 0, 0];
fn qgen(r: &mut Rng, size: u32, flags: u32) -> Case {
    let cfg = vec![r.u(5), r.u(3), r.u(1 << 20)];
    let mut ops = OpGen { weights: &QW }.gen(r, if size > 1 { 160 } else { 70 });
    if flags & FL_FAULT != 0 {
        sprinkle_faults(r, &mut ops, 13, flags);
    }
    Case { subject: String::new(), cfg, ops }
}
fn inner<'x, T, A: HAlloc>(q: &'x mut Queue<'static, T, A>) -> &'x mut D<T, A> {
    unsafe { &mut *(q as *mut _ as *mut D<T, A>) }
}
fn qrun<T: Elem, A: HAlloc>(case: &Case, cx: &mut Ctx) -> R {
    let mut fr = super::vector::Fresh(case.c(2));
    let mut q: Box<Queue<'static, T, A>> = sealable_box(Queue::default());
    let mut stay = still::Stay::default();
    let mut m: VecDeque<u32> = VecDeque::new();
    let mut tag = A::DEFTAG;
    let mut arm = None;
    let (mut pushes, mut pops) = (0usize, 0usize);
    chk!(cx, Class::Layout, size_of::<Queue<T, A>>() == size_of::<D<T, A>>(), "a queue is not laid out as its deque");
    for (step, o) in case.ops.iter().enumerate() {
        cx.step = step;
        cx.ops_done += 1;
        budget(2_000_000);
        let [code, a, b, c] = *o;
        let code = code % 14;
        if code == 13 {
            arm = Some((a, b));
            continue;
        }
        let o = &[code, a, b, c];
        let before: Vec<u32> = m.iter().copied().collect();
        let mut added = vec![];
        let hit = {
            let (q, m, tag, fr, added, pushes, pops) = (&mut *q, &mut m, &mut tag, &mut fr, &mut added, &mut pushes, &mut pops);
            guarded(&mut arm, cx, move |cx| {
                match code {
                    0 | 2 => {
                        let k = if code == 2 { a % 300 } else { 1 };
                        if m.len() > 1500 {
                            return Ok(());
                        }
                        cx.note(|| format!("push {k}"));
                        for _ in 0..k {
                            let x = fr.next::<T>(c);
                            added.push(x);
                            q.push(T::mk(x));
                            m.push_back(x);
                            *pushes += 1;
                        }
                    }
                    1 | 3 => {
                        let k = if code == 3 { a % 300 } else { 1 };
                        cx.note(|| format!("pop {k}"));
                        for _ in 0..k {
                            let top = q.top().map(|x| x.v());
                            let (g, w) = (q.pop().map(|x| x.v()), m.pop_front());
                            must!(cx, Class::Model, g == w, "pop() gave {g:?}, expected {w:?}");
                            must!(cx, Class::Model, top == g, "top() was {top:?} but pop() gave {g:?}");
                            match w {
                                Some(_) => *pops += 1,
                                None => {
                                    cx.mark("pop on empty");
                                    break;
                                }
                            }
                        }
                        if *pops > 64 {
                            cx.mark("more than 64 pops")
                        }
                    }
                    4 => must!(cx, Class::Model, q.top().map(|x| x.v()) == m.front().copied(), "top() is {:?}, expected {:?}", q.top().map(|x| x.v()), m.front()),
                    5 if b % 4 == 3 => {
                        let w: Vec<u32> = m.iter().copied().collect();
                        if c % 2 == 0 {
                            proto::dbl(q.iter(), &w, c, false, cx, Class::Model, |x| x.v())?
                        } else {
                            proto::dbl(q.iter_mut(), &w, c, false, cx, Class::Model, |x| x.v())?
                        }
                    }
                    5 => mixed(q.iter().map(T2::R), &m.iter().copied().collect::<Vec<_>>(), if b % 2 == 0 { 0 } else { c }, cx, Class::Model, |_, _| ())?,
                    6 => {
                        cx.note(|| "iter_mut".into());
                        for (i, x) in q.iter_mut().enumerate() {
                            must!(cx, Class::Model, i < m.len(), "iter_mut yields more than {} elements", m.len());
                            if (i as u32 + a) % 2 == 0 {
                                let y = fr.next::<T>(c);
                                x.set(y);
                                m[i] = y;
                            }
                        }
                    }
                    7 => {
                        cx.note(|| "into_inner, back through collect".into());
                        let d = std::mem::replace(q, Queue::default()).into_inner();
                        *tag = A::DEFTAG;
                        let m0 = std::mem::take(m);
                        must!(cx, Class::Model, d.iter().map(|x| x.v()).eq(m0.iter().copied()), "into_inner() changed the contents");
                        *q = d.into_iter().collect();
                        *m = m0;
                        cx.mark("converted to a deque");
                    }
                    8 => {
                        let k = a as usize % 150;
                        let xs: Vec<u32> = (0..k).map(|_| fr.next::<T>(c)).collect();
                        cx.note(|| format!("collect {k}"));
                        added.extend(&xs);
                        let buf: Vec<T> = xs.iter().map(|&x| T::mk(x)).collect();
                        let n: Queue<T, A> = Src { it: buf.into_iter(), lower: 0 }.collect();
                        *m = xs.into();
                        (*pushes, *pops) = (k, 0);
                        *tag = A::DEFTAG;
                        *q = n;
                    }
                    9 => {
                        let old = std::mem::replace(q, Queue::default());
                        *tag = A::DEFTAG;
                        let mut m0 = std::mem::take(m);
                        (*pushes, *pops) = (0, 0);
                        let mut it = old.into_iter();
                        drain(&mut it, &mut m0, o, cx)?;
                        if o[2] % 4 > 1 {
                            proto::dbl(it, m0.make_contiguous(), o[3] ^ o[2], false, cx, Class::Model, |x| x.v())?
                        }
                    }
                    10 => {
                        if T::NAME != "u32x3" {
                            let g = format!("{:?}", q);
                            let w = format!("[ {} ]", m.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "));
                            must!(cx, Class::Model, g == w, "rendered as {g}, expected {w}");
                        }
                    }
                    _ => {
                        let t = 2 + c % 6;
                        let new = unsafe { Queue::new_in(A::mk(t)) };
                        m.clear();
                        (*pushes, *pops) = (0, 0);
                        *tag = A::mk(t).tag();
                        *q = new;
                    }
                }
                Ok(())
            })?
        };
        if hit {
            let got: Vec<u32> = q.iter().take(before.len() + added.len() + 1).map(|x| x.v()).collect();
            let all: Vec<u32> = before.iter().chain(&added).copied().collect();
            must!(cx, Class::Fault, sub_multiset(&got, &all), "after a panic the queue holds {}, which was neither in it nor being added", show(&got));
            refused(cx, QOPS[code as usize], got == before, || show(&got))?;
            (pushes, pops) = (got.len(), 0);
            m = got.into();
        }
        must!(cx, Class::Model, q.len() == m.len() && pushes - pops == m.len(), "length {} after {pushes} pushes and {pops} pops", q.len());
        chk!(cx, Class::Model, q.is_empty() == m.is_empty(), "is_empty() is wrong");
        must!(cx, Class::Model, q.top().map(|x| x.v()) == m.front().copied(), "top() is wrong");
        check(inner(&mut q), &m, tag, cx, step % 4 == 1)?;
        let q: &Queue<'static, T, A> = &q;
        if cx.on(Class::Addr) {
            let now = q.iter().map(|x| (x.ident(), x as *const T as usize)).collect();
            stay.see(now, matches!(code, 7 | 8 | 9 | 11 | 12), QOPS[code as usize], cx)?;
        }
        still::shared(cx, &[still::span(q)], a ^ c, |cx| {
            let w: Vec<u32> = m.iter().copied().collect();
            must!(cx, Class::Model, q.len() == w.len() && q.is_empty() == w.is_empty() && q.top().map(|x| x.v()) == w.first().copied(), "length or top is wrong");
            let _ = format!("{:?}", q);
            proto::dbl(q.iter(), &w, a ^ c, false, cx, Class::Model, |x| x.v())
        })?;
    }
    cx.step = case.ops.len();
    drop(q);
    cx.poll()
}

pub fn subjects(out: &mut Vec<Subject>) {
    macro_rules! s {
        ($($t:ty, $a:ty);* $(;)?) => {$(
            out.push(Subject { name: format!("deque/{}/{}", <$t as Elem>::NAME, <$a as HAlloc>::NAME), gen, run: run::<$t, $a>, ops: OPS });
        )*};
    }
    s! { u32, TA; u16, TA; u64, DA; T4, TA; T<0>, TA; T<8>, TA; T<16>, FA; T<24>, DA; T<32>, TA; A64, TA; A16, DA; B7, TA; By<5>, TA; By<9>, TA; By<17>, DA; By<33>, TA; }
    macro_rules! q {
        ($($t:ty, $a:ty);* $(;)?) => {$(
            out.push(Subject { name: format!("queue/{}/{}", <$t as Elem>::NAME, <$a as HAlloc>::NAME), gen: qgen, run: qrun::<$t, $a>, ops: QOPS });
        )*};
    }
    q! { u32, TA; T4, TA; T<0>, DA; T<16>, FA; T<32>, TA; }
}
