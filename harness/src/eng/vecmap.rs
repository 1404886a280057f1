//! VectorMap against an ideal ordered map, under many orderings.
use super::vector::{Fresh, RawVec};
use super::*;
use crate::env::*;
use crate::{chk, fail, must};
use eastl_rs::vector_map::Entry;
use eastl_rs::{Compare, Greater, Less, VectorMap};
use std::cell::Cell;
use std::mem::{align_of, size_of};

pub const OPS: &[&str] = &[
    "insert", "reinsert", "get", "get_mut", "remove", "remove_entry", "entry", "clear", "iterate", "debug", "construct",
    "fill", "swap", "cpp_insert", "cpp_erase", "cpp_regrow", "cpp_write", "fault",
];
const FAULT: u32 = 17;
const W: [u32; 18] = [14, 4, 6, 3, 6, 4, 8, 1, 3, 1, 2, 2, 1, 0, 0, 0, 0, 0];

thread_local! {
    static ORDER: Cell<u32> = const { Cell::new(0) };
}
fn order_rank(v: u32) -> u64 {
    match ORDER.with(|o| o.get()) {
        0 => v as u64,
        1 => !v as u64,
        2 => (v >> 1) as u64,
        3 => (v >> 3) as u64,
        4 => (v % 7) as u64,
        5 => v.reverse_bits() as u64,
        6 => 0,
        7 => (!(v >> 2)) as u64,
        8 => ((v & 1) as u64) << 40 | (v >> 2) as u64,
        _ => (v ^ 0x5555) as u64,
    }
}
/// a stateless ordering of one byte, like a C++ functor
pub struct DynC {
    _pad: u8,
}
impl Default for DynC {
    fn default() -> Self {
        DynC { _pad: 0x7E }
    }
}
impl<K: Elem> Compare<K> for DynC {
    fn compare(a: &K, b: &K) -> bool {
        tick(F_CMP);
        order_rank(a.v()) < order_rank(b.v())
    }
}
pub trait Ord2<K: Elem>: Compare<K> + Default + 'static {
    const NAME: &'static str;
    const DYN: bool;
    fn rank(v: u32) -> u64;
}
impl<K: Elem> Ord2<K> for DynC {
    const NAME: &'static str = "dyn";
    const DYN: bool = true;
    fn rank(v: u32) -> u64 {
        order_rank(v)
    }
}
impl<K: Elem> Ord2<K> for Less<K> {
    const NAME: &'static str = "less";
    const DYN: bool = false;
    fn rank(v: u32) -> u64 {
        v as u64
    }
}
impl<K: Elem> Ord2<K> for Greater<K> {
    const NAME: &'static str = "greater";
    const DYN: bool = false;
    fn rank(v: u32) -> u64 {
        u32::MAX as u64 - v as u64
    }
}
pub fn set_order(o: u32) {
    ORDER.with(|x| x.set(o % 10))
}

type VMap<K, V, A, C> = VectorMap<K, V, A, C>;
type Pairs = Vec<(u32, u32)>;

/// constructors that exist for some orderings only
pub trait Build<K: Elem, V: Elem, A: HAlloc>: Sized {
    /// None: this kind does not exist for the ordering
    fn build(kind: u32, items: &Pairs, lower: usize) -> Option<Self>;
}
fn mkv<K: Elem, V: Elem>(items: &Pairs) -> Vec<(K, V)> {
    items.iter().map(|&(k, v)| (K::mk(k), V::mk(v))).collect()
}
impl<K: Elem, V: Elem, A: HAlloc> Build<K, V, A> for VMap<K, V, A, Less<K>> {
    fn build(kind: u32, items: &Pairs, lower: usize) -> Option<Self> {
        Some(match kind {
            0 => VectorMap::from(mkv::<K, V>(items).as_slice()),
            1 => VectorMap::from(mkv::<K, V>(items).as_mut_slice()),
            2 if items.len() == 4 => {
                let mut it = mkv::<K, V>(items).into_iter();
                let a: [(K, V); 4] = std::array::from_fn(|_| it.next().unwrap());
                VectorMap::from(a)
            }
            3 if items.len() == 4 => {
                let mut it = mkv::<K, V>(items).into_iter();
                let a: [(K, V); 4] = std::array::from_fn(|_| it.next().unwrap());
                VectorMap::from(&a)
            }
            4 => VectorMap::default(),
            _ => Src { it: mkv::<K, V>(items).into_iter(), lower }.collect(),
        })
    }
}
impl<K: Elem, V: Elem, A: HAlloc> Build<K, V, A> for VMap<K, V, A, Greater<K>> {
    fn build(_: u32, _: &Pairs, _: usize) -> Option<Self> {
        None
    }
}
impl<K: Elem, V: Elem, A: HAlloc> Build<K, V, A> for VMap<K, V, A, DynC> {
    fn build(_: u32, _: &Pairs, _: usize) -> Option<Self> {
        None
    }
}

struct St<K: Elem, V: Elem, A: HAlloc, C: Ord2<K>> {
    t: VMap<K, V, A, C>,
    tag: u32,
    m: Pairs, // ascending by rank
    promised: usize,
}
impl<K: Elem, V: Elem, A: HAlloc, C: Ord2<K>> St<K, V, A, C> {
    fn pos(&self, k: u32) -> Result<usize, usize> {
        self.m.binary_search_by(|e| C::rank(e.0).cmp(&C::rank(k)))
    }
    fn put(&mut self, k: u32, v: u32) -> Option<u32> {
        match self.pos(k) {
            Ok(i) => Some(std::mem::replace(&mut self.m[i].1, v)),
            Err(i) => {
                self.m.insert(i, (k, v));
                None
            }
        }
    }
    fn raw(&mut self) -> &mut RawVec<(K, V)> {
        unsafe { &mut *(&mut self.t as *mut VMap<K, V, A, C> as *mut RawVec<(K, V)>) }
    }
}
fn show2(v: &Pairs) -> String {
    if v.len() <= 16 {
        format!("{v:?}")
    } else {
        format!("{:?}...({} pairs)", &v[..16], v.len())
    }
}
fn vals<K: Elem, V: Elem>(s: &[(K, V)]) -> Pairs {
    s.iter().map(|(k, v)| (k.v(), v.v())).collect()
}

fn check<K: Elem, V: Elem, A: HAlloc, C: Ord2<K>>(s: &mut St<K, V, A, C>, cx: &mut Ctx, deep: bool) -> R {
    let n = s.m.len();
    must!(cx, Class::Model, s.t.len() == n, "length {} where {n} pairs are expected", s.t.len());
    chk!(cx, Class::Model, s.t.is_empty() == (n == 0), "is_empty() is wrong at length {n}");
    let cap = s.t.capacity();
    must!(cx, Class::Model, cap >= n, "capacity {cap} below length {n}");
    chk!(cx, Class::Model, cap >= s.promised, "capacity {cap}, but {} was requested", s.promised);
    let g = vals(s.t.as_ref());
    must!(cx, Class::Model, g == s.m, "contents {}, expected {}", show2(&g), show2(&s.m));
    if deep {
        let g = vals(&s.t[..]);
        must!(cx, Class::Model, g == s.m, "the slice is {}, expected {}", show2(&g), show2(&s.m));
    }
    let (sz, tag) = (size_of::<(K, V)>(), s.tag);
    let r = s.raw();
    let (rb, b, e, c) = (r.begin as *const u8, r.begin as usize, r.end as usize, r.cap as usize);
    chk!(cx, Class::Layout, e.wrapping_sub(b) == n * sz && c.wrapping_sub(b) == cap * sz, "begin/end/capacity pointers {b:#x} {e:#x} {c:#x} do not describe {n} pairs of {sz} bytes, capacity {cap}");
    if b != 0 && cap > 0 {
        match heap(|h| h.at(b)) {
            None => chk!(cx, Class::Alloc, false, "the buffer is not a block obtained from the allocator"),
            Some(k) => {
                chk!(cx, Class::Alloc, k.tag == tag && k.size >= cap * sz, "capacity {cap} over a block of {} bytes of allocator #{}", k.size, k.tag);
                chk!(cx, Class::Layout, k.size == cap * sz && k.align == align_of::<(K, V)>(), "capacity {cap} of {sz} bytes is recorded over a block of {} bytes", k.size);
            }
        }
    }
    if A::NAME == "ta" {
        let at = &s.t as *const _ as *const u8;
        chk!(cx, Class::Layout, size_of::<VMap<K, V, A, C>>() == 40 && unsafe { *at.add(24) } as u32 == tag, "the allocator byte is not at offset 24");
        if C::DYN {
            chk!(cx, Class::Layout, unsafe { *at.add(32) } == 0x7E, "the ordering's byte is not at offset 32");
        }
    }
    if cx.on(Class::Layout) && n > 0 {
        // pair<K, V>: the key first, the value at its own alignment
        let off = size_of::<K>().next_multiple_of(align_of::<V>());
        let i = n / 2;
        unsafe {
            let p = rb.add(i * sz);
            let (k, v) = ((*(p as *const K)).v(), (*(p.add(off) as *const V)).v());
            let w = s.m[i];
            must!(cx, Class::Layout, (k, v) == w, "C++ sees {:?} at position {i}, expected {w:?}", (k, v));
        }
    }
    cx.poll()
}

fn gen(r: &mut Rng, size: u32, flags: u32) -> Case {
    let mut w = W;
    if flags & FL_FOREIGN != 0 {
        for i in 13..17 {
            w[i] = 3
        }
    }
    let mut ops = OpGen { weights: &w }.gen(r, if size > 1 { 120 } else { 50 });
    if r.chance(1, 6) {
        ops.insert(0, [11, r.u(300), 0, r.r32()]);
    }
    if flags & FL_FAULT != 0 {
        sprinkle_faults(r, &mut ops, FAULT, flags);
    }
    Case { subject: String::new(), cfg: vec![r.u(5), r.u(4), r.u(10), r.u(3), r.u(5), r.u(4)], ops }
}
fn key<K: Elem>(a: u32, universe: u32) -> u32 {
    let u = [6u32, 20, 60, 400, u32::MAX][universe as usize % 5];
    K::norm(a % u)
}

fn op<K: Elem, V: Elem, A: HAlloc, C: Ord2<K>>(s: &mut St<K, V, A, C>, o: &[u32; 4], univ: u32, fr: &mut Fresh, added: &mut Pairs, cx: &mut Ctx) -> R {
    let [code, a, b, c] = *o;
    let n = s.m.len();
    let mut k = key::<K>(a, univ);
    if (1..=6).contains(&code) && n > 0 && b % 3 > 0 {
        k = s.m[a as usize % n].0;
        let near = K::norm([k, k ^ 1, k ^ (c & 7), k.wrapping_add(7), k.wrapping_sub(1)][(c >> 4) as usize % 5]);
        if b % 3 == 2 || C::rank(near) == C::rank(k) {
            k = near;
        }
    }
    let mut fv = |c: u32| fr.next::<V>(c);
    let (cmp, most) = (kind(F_CMP), if code > 6 { u64::MAX } else { super::cost::lookups(n + 1) * if code == 2 { 2 } else { 1 } });
    match code {
        0 | 1 => {
            let v = fv(c);
            added.push((k, v));
            cx.note(|| format!("insert {k} -> {v}"));
            let old = s.t.insert(K::mk(k), V::mk(v)).map(|v| v.v());
            let stored = s.pos(k).ok().map(|i| s.m[i].0);
            if let Some(x) = stored {
                added.push((x, v));
                cx.mark("insert of an existing key");
                if x != k {
                    cx.mark("insert of an equivalent key")
                }
            } else if s.pos(k) != Err(n) {
                cx.mark("insert before the end")
            }
            let w = s.put(k, v);
            must!(cx, Class::Model, old == w, "insert({k}) returned {old:?}, expected {w:?}");
        }
        2 => {
            cx.note(|| format!("get {k}"));
            let kk = K::mk(k);
            let g = s.t.get(&kk).map(|v| v.v());
            let w = s.pos(k).ok().map(|i| s.m[i].1);
            must!(cx, Class::Model, g == w, "get({k}) gave {g:?}, expected {w:?}");
            must!(cx, Class::Model, s.t.contains_key(&kk) == w.is_some(), "contains_key({k}) is {}", w.is_none());
            if w.is_some_and(|_| s.m[s.pos(k).unwrap()].0 != k) {
                cx.mark("found by an equivalent key")
            }
        }
        3 => {
            cx.note(|| format!("get_mut {k}"));
            let kk = K::mk(k);
            let v = fv(c);
            let p = s.pos(k);
            match (s.t.get_mut(&kk), p) {
                (Some(r), Ok(i)) => {
                    must!(cx, Class::Model, r.v() == s.m[i].1, "get_mut({k}) gave {}, expected {}", r.v(), s.m[i].1);
                    added.push((s.m[i].0, v));
                    refit(r, V::mk(v));
                    s.m[i].1 = v;
                }
                (None, Err(_)) => {}
                (g, _) => fail!(cx, Class::Model, "get_mut({k}) found: {}, expected {}", g.is_some(), p.is_ok()),
            }
        }
        4 | 5 => {
            cx.note(|| format!("remove {k}"));
            let kk = K::mk(k);
            let w = s.pos(k).ok().map(|i| s.m.remove(i));
            if w.is_some() {
                cx.mark("removed a key")
            }
            if code == 4 {
                let g = s.t.remove(&kk).map(|v| v.v());
                must!(cx, Class::Model, g == w.map(|w| w.1), "remove({k}) gave {g:?}, expected {w:?}");
            } else {
                let g = s.t.remove_entry(&kk).map(|(k, v)| (k.v(), v.v()));
                must!(cx, Class::Model, g == w, "remove_entry({k}) gave {g:?}, expected {w:?}");
            }
        }
        6 => {
            let v = fv(c);
            let p = s.pos(k);
            let nv = fv(c ^ 0x99);
            cx.note(|| format!("entry {k}"));
            match s.t.entry(K::mk(k)) {
                Entry::Occupied(mut e) => {
                    let Ok(i) = p else { fail!(cx, Class::Model, "entry({k}) is occupied by {}, expected vacant", e.key().v()) };
                    cx.mark("entry of an existing key");
                    must!(cx, Class::Model, e.key().v() == s.m[i].0 && e.get().v() == s.m[i].1, "entry({k}) shows ({}, {}), expected {:?}", e.key().v(), e.get().v(), s.m[i]);
                    if b & 4 == 0 {
                        added.push((s.m[i].0, v));
                        refit(e.get_mut(), V::mk(v));
                        s.m[i].1 = v;
                    }
                }
                Entry::Vacant(e) => {
                    let Err(i) = p else { fail!(cx, Class::Model, "entry({k}) is vacant, expected {:?}", s.m[p.unwrap()]) };
                    must!(cx, Class::Model, e.key().v() == k, "the vacant entry's key is {}", e.key().v());
                    match c % 4 {
                        0 => drop(e),
                        1 => {
                            let g = e.into_key().v();
                            must!(cx, Class::Model, g == k, "into_key() gave {g}, expected {k}");
                        }
                        _ => {
                            added.push((k, v));
                            added.push((k, nv));
                            let r = e.insert(V::mk(v));
                            must!(cx, Class::Model, r.v() == v, "the inserted entry refers to {}, expected {v}", r.v());
                            refit(r, V::mk(nv));
                            s.m.insert(i, (k, nv));
                            cx.mark("inserted through a vacant entry");
                        }
                    }
                }
            }
        }
        7 => {
            cx.note(|| "clear".into());
            s.t.clear();
            s.m.clear();
            s.promised = 0;
        }
        8 => {
            must!(cx, Class::Model, s.t.first().map(|x| x.0.v()) == s.m.first().map(|x| x.0), "first() is wrong");
            must!(cx, Class::Model, s.t.last().map(|x| x.0.v()) == s.m.last().map(|x| x.0), "last() is wrong");
            let g: Pairs = s.t.iter().rev().map(|(k, v)| (k.v(), v.v())).collect();
            must!(cx, Class::Model, g.iter().rev().eq(s.m.iter()), "reverse iteration yields {}", show2(&g));
            for i in 0..n.min(10) {
                let (k, v) = s.m[i];
                let g = s.t.get(&K::mk(k)).map(|v| v.v());
                must!(cx, Class::Model, g == Some(v), "get({k}) gave {g:?}, expected {v}");
            }
        }
        9 => {
            let g = format!("{:?}", s.t);
            if K::NAME != "u32x3" && V::NAME != "u32x3" {
                let w: Vec<String> = s.m.iter().map(|(k, v)| format!("{k}: {v}")).collect();
                must!(cx, Class::Model, g == format!("{{{}}}", w.join(",")), "rendered as {g}");
            }
        }
        11 => {
            let k = a as usize % 300;
            cx.note(|| format!("insert {k} keys"));
            for j in 0..k as u32 {
                let kv = key::<K>(c.wrapping_add(j.wrapping_mul(c | 1)), univ);
                let v = fv(c.wrapping_add(j));
                added.push((kv, v));
                if let Ok(i) = s.pos(kv) {
                    added.push((s.m[i].0, v));
                }
                let g = s.t.insert(K::mk(kv), V::mk(v)).map(|v| v.v());
                let w = s.put(kv, v);
                must!(cx, Class::Model, g == w, "insert({kv}) returned {g:?}, expected {w:?}");
            }
        }
        13 => {
            let Err(i) = s.pos(k) else { return Ok(()) };
            if n == s.t.capacity() {
                return Ok(());
            }
            let v = fv(c);
            cx.foreign = true;
            cx.note(|| format!("C++ insert {k} -> {v}"));
            cx.mark("foreign insertion");
            let r = s.raw();
            unsafe {
                let p = r.begin.add(i);
                std::ptr::copy(p, p.add(1), n - i);
                p.write((K::mk(k), V::mk(v)));
                r.end = r.end.add(1);
            }
            s.m.insert(i, (k, v));
        }
        14 => {
            if n > 0 {
                let i = a as usize % n;
                cx.foreign = true;
                cx.note(|| format!("C++ erase at {i}"));
                cx.mark("foreign removal");
                let r = s.raw();
                unsafe {
                    let p = r.begin.add(i);
                    drop(std::ptr::read(p));
                    std::ptr::copy(p.add(1), p, n - i - 1);
                    r.end = r.end.sub(1);
                }
                s.m.remove(i);
            }
        }
        15 => {
            let cap = s.t.capacity();
            let new = n + 1 + a as usize % 9;
            cx.foreign = true;
            cx.note(|| format!("C++ reallocates to {new}"));
            cx.mark("foreign code reallocated the buffer");
            let mut al = A::mk(s.tag);
            let r = s.raw();
            unsafe {
                let p: *mut (K, V) = al.allocate(new);
                if !r.begin.is_null() {
                    std::ptr::copy_nonoverlapping(r.begin, p, n);
                    al.deallocate(r.begin, cap);
                }
                r.begin = p;
                r.end = p.add(n);
                r.cap = p.add(new);
            }
            s.promised = 0;
        }
        16 => {
            if n > 0 {
                let i = a as usize % n;
                let v = fv(c);
                refit(unsafe { &mut (*s.raw().begin.add(i)).1 }, V::mk(v));
                s.m[i].1 = v;
            }
        }
        _ => {}
    }
    let cmp = kind(F_CMP) - cmp;
    chk!(cx, Class::Cost, cmp <= most, "{} among {n} keys made {cmp} comparisons, {most} are allowed", OPS[code as usize]);
    Ok(())
}

fn construct<K: Elem, V: Elem, A: HAlloc, C: Ord2<K>>(o: &[u32; 4], univ: u32, fr: &mut Fresh, added: &mut Pairs, cx: &mut Ctx) -> R<St<K, V, A, C>>
where
    VMap<K, V, A, C>: Build<K, V, A>,
{
    let [_, a, b, c] = *o;
    let n = if b & 16 == 0 { 4 } else { a as usize % 30 };
    let items: Pairs = (0..n as u32).map(|j| (key::<K>(c.wrapping_add(j.wrapping_mul(c >> 3 | 1)), univ), fr.next::<V>(c ^ j))).collect();
    added.extend(&items);
    let tag = 2 + c % 6;
    let mut s = St { t: VectorMap::new_in(A::mk(tag), C::default()), tag: A::mk(tag).tag(), m: vec![], promised: 0 };
    let kind = b % 9;
    cx.note(|| format!("construct kind {kind} from {}", show2(&items)));
    match kind {
        0 => {}
        1 => {
            s.t = VectorMap::new();
            s.tag = A::DEFTAG
        }
        2 => {
            s.promised = a as usize % 30;
            s.t = VectorMap::with_capacity(s.promised);
            s.tag = A::DEFTAG
        }
        _ => {
            if let Some(t) = VMap::<K, V, A, C>::build(kind - 3, &items, c as usize % 40) {
                s.t = t;
                s.tag = A::DEFTAG;
                if kind != 7 {
                    for (k, v) in items {
                        if let Ok(i) = s.pos(k) {
                            added.push((s.m[i].0, v));
                        }
                        s.put(k, v);
                    }
                }
            }
        }
    }
    Ok(s)
}

fn run<K: Elem, V: Elem, A: HAlloc, C: Ord2<K>>(case: &Case, cx: &mut Ctx) -> R
where
    VMap<K, V, A, C>: Build<K, V, A>,
{
    let mut fr = Fresh(case.c(5).wrapping_mul(1000));
    set_order(case.c(2));
    // == may be coarser than a custom ordering
    set_eq_shift(if C::DYN { case.c(3) } else { 0 });
    let univ = case.c(4);
    let mut slots: Vec<St<K, V, A, C>> = sealable_vec(2);
    for kind in [0, 1] {
        slots.push(construct(&[10, 0, kind, 5], univ, &mut fr, &mut vec![], cx)?);
    }
    let two = case.c(5) & 1 == 1;
    let mut arm = None;
    for (step, o) in case.ops.iter().enumerate() {
        cx.step = step;
        cx.ops_done += 1;
        let [code, a, b, c] = *o;
        let code = code % 18;
        let o = &[code, a, b, c];
        let si = if two { (c >> 1 & 1) as usize } else { 0 };
        if code == FAULT {
            arm = Some((a, b));
            continue;
        }
        budget(2_000_000);
        let mut added = Pairs::new();
        let before: Vec<Pairs> = slots.iter().map(|s| if arm.is_some() { s.m.clone() } else { vec![] }).collect();
        let hit = {
            let (slots, fr, added) = (&mut slots, &mut fr, &mut added);
            guarded(&mut arm, cx, move |cx| match code {
                10 => {
                    slots[si] = construct(o, univ, fr, added, cx)?;
                    Ok(())
                }
                12 => {
                    let (x, y) = slots.split_at_mut(1);
                    std::mem::swap(&mut x[0], &mut y[0]);
                    Ok(())
                }
                _ => op(&mut slots[si], o, univ, fr, added, cx),
            })?
        };
        if hit {
            for (k, s) in slots.iter_mut().enumerate() {
                let got = vals(s.t.as_ref());
                for e in &got {
                    // (the value may have replaced that of an equivalent key)
                    let known = || before[k].iter().chain(&added);
                    let ok = known().any(|x| x.0 == e.0) && known().any(|x| C::rank(x.0) == C::rank(e.0) && x.1 == e.1);
                    must!(cx, Class::Fault, ok, "after a panic slot {k} holds {e:?}, which was neither in it nor being added (before: {})", show2(&before[k]));
                }
                must!(cx, Class::Fault, got.windows(2).all(|w| C::rank(w[0].0) < C::rank(w[1].0)), "after a panic slot {k} is not sorted: {}", show2(&got));
                refused(cx, OPS[code as usize], got == before[k], || show2(&got))?;
                s.m = got;
                s.promised = 0;
            }
        }
        for k in 0..2 {
            if k == si || code == 12 || step % 8 == 7 {
                check(&mut slots[k], cx, (step + a as usize) % 5 == 0)?;
                let s = &slots[k];
                still::shared(cx, &[still::span(&s.t)], a ^ c, |cx| {
                    let n = s.m.len();
                    must!(cx, Class::Model, s.t.len() == n && s.t.is_empty() == (n == 0) && s.t.capacity() >= n, "length {} where {n} pairs are expected", s.t.len());
                    must!(cx, Class::Model, vals(s.t.as_ref()) == s.m && vals(&s.t[..]) == s.m, "contents are wrong");
                    for i in 0..4.min(n + 1) {
                        let k = if i < n && i != 3 { s.m[(a as usize + i * 7) % n].0 } else { key::<K>(c, univ) };
                        let kk = K::mk(k);
                        let w = s.pos(k).ok().map(|i| s.m[i].1);
                        must!(cx, Class::Model, s.t.get(&kk).map(|v| v.v()) == w && s.t.contains_key(&kk) == w.is_some(), "get({k}) is wrong");
                    }
                    let _ = format!("{:?}", s.t);
                    proto::dbl(s.t.iter(), &s.m, a ^ c, true, cx, Class::Model, |(k, v)| (k.v(), v.v()))
                })?;
            }
        }
        cx.poll()?;
    }
    cx.step = case.ops.len();
    cx.note(|| "drop".into());
    drop(slots);
    cx.poll()
}

pub fn subjects(out: &mut Vec<Subject>) {
    macro_rules! s {
        ($($k:ty, $v:ty, $a:ty, $c:ty;)*) => {$(
            out.push(Subject {
                name: format!("vmap/{}-{}/{}/{}", <$k as Elem>::NAME, <$v as Elem>::NAME, <$a as HAlloc>::NAME, <$c as Ord2<$k>>::NAME),
                gen,
                run: run::<$k, $v, $a, $c>,
                ops: OPS,
            });
        )*};
    }
    s! {
        u32, u32, TA, Less<u32>;
        u8, T<0>, TA, Less<u8>;
        T<0>, T4, FA, Less<T<0>>;
        u64, u8, DA, Less<u64>;
        u32, T<0>, TA, Greater<u32>;
        T4, u16, TA, Greater<T4>;
        T<0>, T<0>, TA, DynC;
        T<8>, u8, DA, DynC;
        T4, B7, FA, DynC;
        u32, u64, TA, DynC;
        B7, A16, TA, DynC;
        u16, [u32; 3], TA, DynC;
    }
}
