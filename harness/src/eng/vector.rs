//! Vector against Vec<u32>; also used by the FixedVector engine.
use super::*;
use crate::env::*;
use crate::{chk, must};
use eastl_rs::{Allocator, Vector};
use std::mem::{align_of, size_of};

pub const OPS: &[&str] = &[
    "push", "pop", "insert", "remove", "append", "assign", "reserve", "set", "permute", "remove_past_end",
    "insert_past_end", "iter", "debug", "cpp_push", "cpp_pop", "cpp_regrow", "cpp_truncate", "clear", "clone",
    "construct", "into_iter", "swap", "eq", "fault",
];
const W: [u32; 24] = [14, 6, 8, 8, 5, 3, 4, 3, 2, 2, 2, 2, 1, 0, 0, 0, 0, 2, 3, 4, 4, 2, 2, 0];
pub const FAULT: u32 = 23;

#[repr(C)]
pub struct RawVec<T> {
    pub begin: *mut T,
    pub end: *mut T,
    pub cap: *mut T,
}
pub fn raw<'a, T, A: Allocator>(v: &'a mut Vector<T, A>) -> &'a mut RawVec<T> {
    unsafe { &mut *(v as *mut Vector<T, A> as *mut RawVec<T>) }
}
#[derive(Default, Clone)]
pub struct VM {
    pub m: Vec<u32>,
    /// lowest capacity promised so far to the current storage
    pub promised: usize,
    pub tag: u32,
}
pub struct Fresh(pub u32);
impl Fresh {
    pub fn next<T: Elem>(&mut self, c: u32) -> u32 {
        self.0 += 1;
        T::norm(if c % 8 == 0 { c >> 8 & 7 } else { self.0.wrapping_mul(0x01000193) ^ (c << 3) })
    }
}

fn push_bias(r: &mut Rng) -> (u32, u32) {
    (r.u(5), r.u(3))
}

pub fn gen_ops(r: &mut Rng, size: u32, flags: u32, w: &[u32; 24]) -> Vec<[u32; 4]> {
    let mut w = *w;
    if flags & FL_FOREIGN != 0 {
        for i in 13..17 {
            w[i] = 3
        }
    }
    let mut ops = OpGen { weights: &w }.gen(r, if size > 1 { 120 } else { 50 });
    if r.chance(1, 5) {
        // get past the small sizes at once
        let n = *r.pick(&[5u32, 9, 17, 40, 130, 600]);
        ops.insert(0, [4, n, 1, 0]);
    }
    if flags & FL_FAULT != 0 {
        sprinkle_faults(r, &mut ops, FAULT, flags);
    }
    ops
}
fn gen(r: &mut Rng, size: u32, flags: u32) -> Case {
    let (f, q) = push_bias(r);
    let ops = gen_ops(r, size, flags, &W);
    Case { subject: String::new(), cfg: vec![f, q, r.u(4)], ops }
}

/// expectations on the visible state
pub fn check<T: Elem, A: Allocator>(v: &mut Vector<T, A>, m: &VM, cx: &mut Ctx, deep: bool) -> R {
    let n = m.m.len();
    must!(cx, Class::Model, v.len() == n, "length {} where {} elements are expected", v.len(), n);
    chk!(cx, Class::Model, v.is_empty() == (n == 0), "is_empty() is wrong at length {n}");
    let cap = v.capacity();
    must!(cx, Class::Model, cap >= n && cap < 1 << 40, "capacity {cap} below length {n}");
    chk!(cx, Class::Model, v.is_full() == (n == cap), "is_full() is {} with length {n} and capacity {cap}", v.is_full());
    chk!(cx, Class::Model, cap >= m.promised, "capacity {cap}, but {} was requested earlier", m.promised);
    let rw = raw(v);
    let (b, e, c) = (rw.begin as usize, rw.end as usize, rw.cap as usize);
    let sz = size_of::<T>();
    chk!(
        cx, Class::Layout,
        e.wrapping_sub(b) == n * sz && c.wrapping_sub(b) == cap * sz,
        "begin/end/capacity pointers {b:#x} {e:#x} {c:#x} do not describe {n} elements of {sz} bytes, capacity {cap}"
    );
    chk!(cx, Class::Layout, b != 0 || cap == 0, "null begin pointer with capacity {cap}");
    let s = v.as_slice();
    for (i, x) in s.iter().enumerate() {
        let g = x.v();
        must!(cx, Class::Model, g == m.m[i], "element {i} is {g}, expected {} (expected contents {})", m.m[i], show(&m.m));
    }
    if deep {
        let got: Vec<u32> = v.iter().rev().map(|x| x.v()).collect();
        must!(cx, Class::Model, got.iter().rev().eq(m.m.iter()), "reverse iteration yields {}", show(&got));
        let got: Vec<u32> = v.as_ref().iter().map(|x| x.v()).collect();
        must!(cx, Class::Model, got == m.m, "as_ref() yields {}", show(&got));
        let got: Vec<u32> = v.as_slice_mut().iter_mut().map(|x| x.v()).collect();
        must!(cx, Class::Model, got == m.m, "as_slice_mut() yields {}", show(&got));
        must!(cx, Class::Model, v.first().map(|x| x.v()) == m.m.first().copied(), "first() is wrong");
        must!(cx, Class::Model, v.last().map(|x| x.v()) == m.m.last().copied(), "last() is wrong");
    }
    cx.poll()
}
/// the buffer belongs to the allocator and has exactly the recorded capacity
pub fn check_block<T: Elem, A: Allocator>(v: &mut Vector<T, A>, tag: u32, cx: &Ctx) -> R {
    let cap = v.capacity();
    let b = raw(v).begin as usize;
    if b != 0 && cap * size_of::<T>() > 0 {
        match heap(|h| h.at(b)) {
            None => chk!(cx, Class::Alloc, false, "the buffer is not a block obtained from the allocator"),
            Some(k) => {
                chk!(cx, Class::Alloc, k.tag == tag, "the buffer came from allocator #{}, expected #{tag}", k.tag);
                chk!(
                    cx, Class::Alloc,
                    k.size >= cap * size_of::<T>(),
                    "capacity {cap} of {} bytes each is reported over a block of {} bytes", size_of::<T>(), k.size
                );
                chk!(
                    cx, Class::Layout,
                    k.size == cap * size_of::<T>() && k.align == align_of::<T>(),
                    "capacity {cap} of {} bytes each is recorded over a block of {} bytes", size_of::<T>(), k.size
                );
            }
        }
    }
    Ok(())
}

/// everything that can be asked of a shared reference
pub fn reads<T: Elem, A: Allocator>(v: &Vector<T, A>, m: &[u32], seed: u32, cx: &mut Ctx) -> R {
    let n = m.len();
    let k = seed as usize % (n + 1);
    must!(cx, Class::Model, v.len() == n && v.is_empty() == (n == 0) && v.capacity() >= n, "length {} where {n} elements are expected", v.len());
    must!(cx, Class::Model, v.is_full() == (v.capacity() == n), "is_full() is wrong");
    must!(cx, Class::Model, v.as_slice().iter().map(|x| x.v()).eq(m.iter().copied()), "as_slice() is wrong");
    must!(cx, Class::Model, v.as_ref().iter().rev().map(|x| x.v()).eq(m.iter().rev().copied()), "as_ref() is wrong");
    must!(cx, Class::Model, v.get(k).map(|x| x.v()) == m.get(k).copied(), "get({k}) is wrong");
    must!(cx, Class::Model, v.first().map(|x| x.v()) == m.first().copied() && v.last().map(|x| x.v()) == m.last().copied(), "first() or last() is wrong");
    must!(cx, Class::Model, v.as_slice() == v.as_ref() && v[..k] == v.as_slice()[..k], "differs from itself");
    if n > 0 {
        must!(cx, Class::Model, v.contains(&v[k % n]) && v.iter().position(|x| x.v() == m[k % n]).is_some_and(|i| i <= k % n), "contains() misses an element");
    }
    let d = format!("{:?}", v);
    must!(cx, Class::Model, T::NAME == "u32x3" || d == format!("{m:?}"), "rendered as {d}");
    super::proto::dbl(v.iter(), m, seed, true, cx, Class::Model, |x| x.v())?;
    cx.poll()
}

/// operations shared by Vector and FixedVector; opcodes 0..=16 and 22
pub fn op<T: Elem, A: Allocator>(
    v: &mut Vector<T, A>,
    m: &mut VM,
    o: &[u32; 4],
    fr: &mut Fresh,
    added: &mut Vec<u32>,
    cx: &mut Ctx,
    foreign: &mut dyn FnMut(&mut Vector<T, A>, usize),
) -> R {
    let n = m.m.len();
    let [code, a, b, c] = *o;
    let cap0 = v.capacity();
    let at0 = raw(v).begin as usize;
    match code {
        0 => {
            let x = fr.next::<T>(c);
            added.push(x);
            cx.note(|| format!("push {x}"));
            if n == cap0 {
                cx.mark("grew at full capacity")
            }
            v.push(T::mk(x));
            m.m.push(x);
            if n < cap0 {
                chk!(cx, Class::Model, raw(v).begin as usize == at0, "push moved the storage although it still fitted");
            }
        }
        1 => {
            cx.note(|| "pop".into());
            let g = v.pop().map(|x| x.v());
            let w = m.m.pop();
            must!(cx, Class::Model, g == w, "pop() gave {g:?}, expected {w:?}");
            if w.is_none() {
                cx.mark("pop on empty")
            }
        }
        2 => {
            let i = a as usize % (n + 1);
            let x = fr.next::<T>(c);
            added.push(x);
            cx.note(|| format!("insert {x} at {i}"));
            if i < n {
                cx.mark("insert before the end")
            }
            v.insert(i, T::mk(x));
            m.m.insert(i, x);
            if n < cap0 {
                chk!(cx, Class::Model, raw(v).begin as usize == at0, "insert moved the storage although it still fitted");
            }
        }
        3 => {
            let i = if n == 0 { 0 } else { a as usize % n };
            cx.note(|| format!("remove {i}"));
            let g = v.remove(i).map(|x| x.v());
            let w = if n == 0 { None } else { Some(m.m.remove(i)) };
            must!(cx, Class::Model, g == w, "remove({i}) gave {g:?}, expected {w:?}");
            if i + 1 < n {
                cx.mark("remove before the end")
            }
        }
        4 | 5 => {
            let k = if b == 1 { a as usize % 700 } else { a as usize % 12 };
            let xs: Vec<u32> = (0..k).map(|j| fr.next::<T>(c.wrapping_add(j as u32 * 3))).collect();
            added.extend(&xs);
            let buf: Vec<T> = xs.iter().map(|&x| T::mk(x)).collect();
            if code == 4 {
                cx.note(|| format!("append {}", show(&xs)));
                v.append(&buf);
                m.m.extend(&xs);
                if n + k > cap0 {
                    cx.mark("append beyond capacity")
                } else if k > 0 {
                    cx.mark("append within capacity")
                }
            } else {
                cx.note(|| format!("assign {}", show(&xs)));
                v.assign(&buf);
                if k < n {
                    cx.mark("assign shorter")
                } else if k > n {
                    cx.mark("assign longer")
                }
                m.m = xs.clone();
            }
            // the source stays what it was and independent
            for (x, w) in buf.iter().zip(&xs) {
                must!(cx, Class::Model, x.v() == *w, "the source buffer of append/assign changed");
            }
        }
        6 => {
            let k = match b % 4 {
                0 => 0,
                1 => 1,
                _ => a as usize % 40,
            };
            cx.note(|| format!("reserve {k}"));
            v.reserve(k);
            cx.label("reserve");
            chk!(cx, Class::Model, v.capacity() >= n + k, "reserve({k}) at length {n} left capacity {}", v.capacity());
            if k > 0 {
                m.promised = m.promised.max(n + k);
            }
        }
        7 => {
            if n > 0 {
                let i = a as usize % n;
                let x = fr.next::<T>(c);
                cx.note(|| format!("v[{i}] = {x}"));
                match b % 4 {
                    0 => refit(&mut v[i], T::mk(x)),
                    1 => v[i].set(x),
                    2 => v.iter_mut().nth(i).unwrap().set(x),
                    _ => refit(v.get_mut(i).unwrap(), T::mk(x)),
                }
                m.m[i] = x;
            }
            let i = n + a as usize % 3;
            must!(cx, Class::Model, v.get(i).is_none(), "get({i}) finds something at length {n}");
        }
        8 => {
            cx.note(|| "permute through the slice".into());
            match a % 4 {
                0 => {
                    v.reverse();
                    m.m.reverse()
                }
                1 => {
                    let k = if n == 0 { 0 } else { b as usize % n };
                    v.rotate_left(k);
                    m.m.rotate_left(k)
                }
                2 => {
                    v.sort_by(|x, y| x.v().cmp(&y.v()));
                    m.m.sort()
                }
                _ => {
                    if n > 1 {
                        let (i, j) = (b as usize % n, c as usize % n);
                        v.swap(i, j);
                        m.m.swap(i, j)
                    }
                }
            }
        }
        9 => {
            let i = match b % 3 {
                0 => n,
                1 => n + 1 + a as usize % 50,
                _ => usize::MAX - a as usize % 3,
            };
            cx.note(|| format!("remove past the end {i}"));
            cx.mark("remove out of range");
            let g = v.remove(i).map(|x| x.v());
            must!(cx, Class::Model, g.is_none(), "remove({i}) at length {n} gave {g:?}");
        }
        10 => {
            let i = match b % 3 {
                0 => n + 1,
                1 => n + 2 + a as usize % 50,
                _ => usize::MAX - a as usize % 3,
            };
            cx.note(|| format!("insert past the end {i}"));
            cx.mark("insert out of range");
            let x = T::mk(fr.next::<T>(c));
            let r = catch(|| v.insert(i, x));
            must!(cx, Class::Model, r.is_err(), "insert({i}) at length {n} was accepted");
            if r.as_ref().err().map(|s| s.as_str()) == Some(INJECTED) {
                panic!("{}", INJECTED)
            }
        }
        11 => {
            cx.note(|| "iterate and mutate".into());
            for (i, x) in v.iter_mut().enumerate() {
                if (a as usize + i) % 3 == 0 {
                    let y = fr.next::<T>(c);
                    x.set(y);
                    m.m[i] = y;
                }
            }
            if n > 0 {
                let (i, j) = (a as usize % (n + 1), b as usize % (n + 1));
                let (i, j) = (i.min(j), i.max(j));
                let g: Vec<u32> = v[i..j].iter().map(|x| x.v()).collect();
                must!(cx, Class::Model, g == m.m[i..j], "slice {i}..{j} is {}", show(&g));
            }
        }
        12 => {
            let g = format!("{:?}", v);
            let w = format!("{:?}", m.m);
            if T::NAME != "u32x3" {
                must!(cx, Class::Model, g == w, "rendered as {g}, expected {w}");
            }
        }
        13 => {
            // C++ push_back without reallocation
            if n < cap0 {
                let x = fr.next::<T>(c);
                cx.foreign = true;
                cx.note(|| format!("C++ push_back {x}"));
                cx.mark("foreign code appended in place");
                let r = raw(v);
                unsafe {
                    r.end.write(T::mk(x));
                    r.end = r.end.add(1);
                }
                m.m.push(x);
            }
        }
        14 => {
            if n > 0 {
                cx.foreign = true;
                cx.note(|| "C++ pop_back".into());
                cx.mark("foreign code removed the last element");
                let r = raw(v);
                unsafe {
                    r.end = r.end.sub(1);
                    let x = r.end.read();
                    must!(cx, Class::Layout, x.v() == m.m[n - 1], "C++ sees {} as the last element, expected {}", x.v(), m.m[n - 1]);
                }
                m.m.pop();
            }
        }
        15 => {
            let newcap = n + 1 + a as usize % 9;
            cx.foreign = true;
            cx.note(|| format!("C++ reallocates to {newcap}"));
            cx.mark("foreign code reallocated the buffer");
            foreign(v, newcap);
            m.promised = 0;
        }
        16 => {
            let k = if n == 0 { 0 } else { a as usize % n };
            if at0 != 0 {
                cx.foreign = true;
                cx.note(|| format!("C++ resize({k})"));
                let r = raw(v);
                unsafe {
                    let tail = std::ptr::slice_from_raw_parts_mut(r.begin.add(k), n - k);
                    r.end = r.begin.add(k);
                    std::ptr::drop_in_place(tail);
                }
                m.m.truncate(k);
            }
        }
        22 => {
            let other: Vec<T> = m.m.iter().map(|&x| T::mk(x)).collect();
            must!(cx, Class::Model, v.as_slice() == other.as_slice(), "differs from an equal slice");
            must!(cx, Class::Model, n == 0 || v.contains(&other[a as usize % n]), "contains() misses an element");
        }
        _ => {}
    }
    Ok(())
}

/// what C++ does to move the contents into a buffer of `newcap` elements
pub fn cpp_regrow<T: Elem, A: Allocator>(v: &mut Vector<T, A>, newcap: usize, al: &mut dyn FnMut(Option<(*mut T, usize)>, usize) -> *mut T) {
    let (n, cap) = (v.len(), v.capacity());
    let r = raw(v);
    unsafe {
        let p = al(None, newcap);
        if !r.begin.is_null() {
            std::ptr::copy_nonoverlapping(r.begin, p, n);
            al(Some((r.begin, cap)), 0);
        }
        r.begin = p;
        r.end = p.add(n);
        r.cap = p.add(newcap);
    }
}

struct Slot<T: Elem, A: HAlloc> {
    v: Vector<T, A>,
    m: VM,
}

fn construct<T: Elem, A: HAlloc>(o: &[u32; 4], fr: &mut Fresh, added: &mut Vec<u32>, cx: &mut Ctx) -> R<Slot<T, A>> {
    let [_, a, b, c] = *o;
    let k = a as usize % 9;
    let xs: Vec<u32> = (0..k).map(|j| fr.next::<T>(c.wrapping_add(j as u32 * 5))).collect();
    added.extend(&xs);
    let mk = || -> Vec<T> { xs.iter().map(|&x| T::mk(x)).collect() };
    let mut promised = 0;
    let tag = 2 + (c >> 5) % 6;
    let mut t = A::DEFTAG;
    cx.note(|| format!("construct kind {} from {}", b % 12, show(&xs)));
    let (v, m): (Vector<T, A>, Vec<u32>) = match b % 12 {
        0 => (Vector::new(), vec![]),
        1 => (Vector::default(), vec![]),
        2 => {
            t = A::mk(tag).tag();
            (Vector::new_in(A::mk(tag)), vec![])
        }
        3 => {
            promised = c as usize % 30;
            (Vector::with_capacity(promised), vec![])
        }
        4 => {
            let buf = mk();
            t = A::mk(tag).tag();
            (unsafe { Vector::from_in(&buf, A::mk(tag)) }, xs.clone())
        }
        5 => {
            let buf = mk();
            (Vector::from(buf.as_slice()), xs.clone())
        }
        6 => {
            let mut buf = mk();
            let v = Vector::from(buf.as_mut_slice());
            for x in buf.iter_mut() {
                x.set(T::norm(77));
            }
            (v, xs.clone())
        }
        7 => {
            if k >= 3 {
                let arr: [T; 3] = [T::mk(xs[0]), T::mk(xs[1]), T::mk(xs[2])];
                (Vector::from(arr), xs[..3].to_vec())
            } else {
                (Vector::from([] as [T; 0]), vec![])
            }
        }
        8 => {
            if k >= 5 {
                let arr: [T; 5] = std::array::from_fn(|i| T::mk(xs[i]));
                (Vector::from(&arr), xs[..5].to_vec())
            } else if k >= 1 {
                let arr = [T::mk(xs[0])];
                (Vector::from(&arr), xs[..1].to_vec())
            } else {
                let arr: [T; 0] = [];
                (Vector::from(&arr), vec![])
            }
        }
        _ => {
            let lower = match c % 4 {
                0 => 0,
                1 => k,
                2 => k / 2,
                _ => k + 3,
            };
            let buf = mk();
            (Src { it: buf.into_iter(), lower }.collect::<Vector<T, A>>(), xs.clone())
        }
    };
    chk!(cx, Class::Model, v.capacity() >= promised, "with_capacity({promised}) gave capacity {}", v.capacity());
    Ok(Slot { v, m: VM { m, promised, tag: t } })
}

fn foreign_al<T: Elem, A: HAlloc>(tag: u32) -> impl FnMut(Option<(*mut T, usize)>, usize) -> *mut T {
    let mut al = A::mk(tag);
    move |free, n| match free {
        Some((p, k)) => {
            unsafe { al.deallocate(p, k) };
            std::ptr::null_mut()
        }
        None => al.allocate::<T>(n),
    }
}

fn run<T: Elem, A: HAlloc>(case: &Case, cx: &mut Ctx) -> R {
    let mut fr = Fresh(case.c(2).wrapping_mul(1000));
    let mut slots: Vec<Slot<T, A>> = sealable_vec(2);
    slots.push(Slot { v: Vector::new(), m: VM { m: vec![], promised: 0, tag: A::DEFTAG } });
    slots.push(Slot { v: Vector::new_in(A::mk(9)), m: VM { m: vec![], promised: 0, tag: A::mk(9).tag() } });
    let two = case.c(2) & 1 == 1;
    let mut arm = None;
    for (step, o) in case.ops.iter().enumerate() {
        cx.step = step;
        cx.ops_done += 1;
        budget(2_000_000);
        let [code, a, b, c] = *o;
        let code = code % 24;
        let o = &[code, a, b, c];
        let si = if two { (c >> 1 & 1) as usize } else { 0 };
        if code == FAULT {
            arm = Some((a, b));
            continue;
        }
        let mut added = Vec::new();
        let before: Vec<Vec<u32>> = slots.iter().map(|s| s.m.m.clone()).collect();
        let hit = {
            let (slots, fr, added) = (&mut slots, &mut fr, &mut added);
            guarded(&mut arm, cx, move |cx| {
                match code {
                    17 => {
                        cx.note(|| "clear".into());
                        slots[si].v.clear();
                        slots[si].m.m.clear();
                        slots[si].m.promised = 0;
                    }
                    18 => {
                        cx.note(|| format!("clone slot {si} over slot {}", si ^ 1));
                        cx.mark("clone");
                        if b % 3 == 0 {
                            // over existing contents: storage and allocator of either side
                            let (x, y) = slots.split_at_mut(1);
                            let (from, to) = if si == 0 { (&x[0], &mut y[0]) } else { (&y[0], &mut x[0]) };
                            added.extend(&from.m.m);
                            to.v.clone_from(&from.v);
                            to.m.m = from.m.m.clone();
                            to.m.promised = 0;
                            to.m.tag = kept_tag::<A>(&to.v as *const _ as *const u8, to.m.tag, from.m.tag, cx)?;
                            return Ok(());
                        }
                        let k = slots[si].v.clone();
                        let m = VM { promised: 0, ..slots[si].m.clone() };
                        slots[si ^ 1] = Slot { v: k, m };
                    }
                    19 => {
                        let s = construct::<T, A>(o, fr, added, cx)?;
                        slots[si] = s;
                    }
                    20 => into_iter(&mut slots[si], o, fr, added, cx)?,
                    21 => {
                        let (x, y) = slots.split_at_mut(1);
                        std::mem::swap(&mut x[0], &mut y[0]);
                    }
                    _ => {
                        let s = &mut slots[si];
                        let tag = s.m.tag;
                        op(&mut s.v, &mut s.m, o, fr, added, cx, &mut |v, n| cpp_regrow(v, n, &mut foreign_al::<T, A>(tag)))?;
                    }
                }
                Ok(())
            })?
        };
        if hit {
            if code == 18 && b % 3 == 0 {
                let to = &slots[si ^ 1];
                slots[si ^ 1].m.tag = kept_tag::<A>(&to.v as *const _ as *const u8, to.m.tag, slots[si].m.tag, cx)?;
            }
            for (k, s) in slots.iter_mut().enumerate() {
                let got: Vec<u32> = s.v.iter().map(|x| x.v()).collect();
                let all: Vec<u32> = before.iter().flatten().copied().chain(added.iter().copied()).collect();
                must!(
                    cx, Class::Fault, sub_multiset(&got, &all),
                    "after a panic slot {k} holds {}, which was neither in it nor being added (before: {})", show(&got), show(&before[k])
                );
                refused(cx, OPS[code as usize], got == before[k], || show(&got))?;
                s.m.m = got;
                s.m.promised = 0;
            }
        }
        for k in 0..2 {
            if k == si || k == 1 - si && (code >= 17 || step % 8 == 7) {
                let s = &mut slots[k];
                check(&mut s.v, &s.m, cx, (step + a as usize) % 5 == 0)?;
                let tag = s.m.tag;
                check_block(&mut s.v, tag, cx)?;
                let at = &s.v as *const _ as *const u8;
                if A::NAME == "ta" {
                    chk!(cx, Class::Layout, size_of::<Vector<T, A>>() == 32 && unsafe { *at.add(24) } as u32 == tag, "the allocator byte is not at offset 24");
                }
                let s = &slots[k];
                still::shared(cx, &[still::span(&s.v)], a ^ c, |cx| {
                    reads(&s.v, &s.m.m, a ^ c, cx)?;
                    let w = s.v.clone();
                    must!(cx, Class::Model, w.iter().map(|x| x.v()).eq(s.m.m.iter().copied()), "the clone differs");
                    must!(cx, Class::Model, w.as_slice() == s.v.as_slice(), "the clone differs");
                    Ok(())
                })?;
            }
        }
        cx.poll()?;
    }
    cx.step = case.ops.len();
    cx.note(|| "drop".into());
    drop(slots);
    cx.poll()
}

fn into_iter<T: Elem, A: HAlloc>(s: &mut Slot<T, A>, o: &[u32; 4], fr: &mut Fresh, added: &mut Vec<u32>, cx: &mut Ctx) -> R {
    let [_, a, b, c] = *o;
    let old = std::mem::replace(&mut s.v, Vector::new());
    let tag = s.m.tag;
    let m = std::mem::replace(&mut s.m, VM { m: vec![], promised: 0, tag: A::DEFTAG }).m;
    let cap = old.capacity();
    let mut it = old.into_iter();
    let n = m.len();
    let take = match b % 4 {
        0 => n + 2,
        1 => 0,
        _ => a as usize % (n + 1),
    };
    cx.note(|| format!("into_iter, {take} of {n} steps"));
    let (mut lo, mut hi) = (0, n);
    let mut bits = c;
    for _ in 0..take {
        let back = bits & 1 == 1;
        bits = bits.rotate_right(1);
        let (g, w) = if back {
            (it.next_back().map(|x| x.v()), if lo < hi { hi -= 1; Some(m[hi]) } else { None })
        } else {
            (it.next().map(|x| x.v()), if lo < hi { lo += 1; Some(m[lo - 1]) } else { None })
        };
        must!(cx, Class::Model, g == w, "consuming iterator gave {g:?} from the {}, expected {w:?}", if back { "back" } else { "front" });
        must!(cx, Class::Model, it.len() == hi - lo && it.is_empty() == (hi == lo), "consuming iterator reports {} left, expected {}", it.len(), hi - lo);
        if back {
            cx.mark("consumed from the back")
        }
    }
    let g: Vec<u32> = it.as_slice().iter().map(|x| x.v()).collect();
    must!(cx, Class::Model, g == m[lo..hi], "remaining slice of the consuming iterator is {}", show(&g));
    must!(cx, Class::Model, it.capacity() == cap, "consuming iterator reports capacity {}, expected {cap}", it.capacity());
    let mut left = m[lo..hi].to_vec();
    if let Some(x) = it.as_slice_mut().first_mut() {
        let y = fr.next::<T>(c);
        x.set(y);
        added.push(y);
        left[0] = y;
    }
    match c >> 8 & 3 {
        0 => {
            if lo < hi {
                cx.mark("dropped a partly consumed iterator")
            }
            drop(it)
        }
        1 => {
            // collect the rest into a fresh vector
            let v: Vector<T, A> = it.collect();
            s.v = v;
            s.m.m = left;
        }
        _ => super::proto::dbl(it, &left, c >> 3, false, cx, Class::Model, |x| x.v())?,
    }
    let _ = tag;
    Ok(())
}

/// which allocator a vector or string holds after `clone_from`: its own or that of the source
pub fn kept_tag<A: HAlloc>(at: *const u8, own: u32, source: u32, cx: &Ctx) -> R<u32> {
    let t = unsafe { (*(at.add(24) as *const A)).tag() };
    must!(cx, Class::Alloc, t == own || t == source, "after clone_from the allocator is #{t}, neither #{own} nor #{source}");
    Ok(t)
}
pub fn subjects(out: &mut Vec<Subject>) {
    macro_rules! s {
        ($($t:ty, $a:ty);* $(;)?) => {$(
            out.push(Subject {
                name: format!("vec/{}/{}", <$t as Elem>::NAME, <$a as HAlloc>::NAME),
                gen,
                run: run::<$t, $a>,
                ops: OPS,
            });
        )*};
    }
    s! { u8, TA; u32, TA; u64, DA; [u32; 3], TA; T4, TA; T<0>, TA; T<16>, FA; T<0>, DA; A64, TA; A16, DA; B7, TA; }
}
