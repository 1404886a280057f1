//! String against std's String; the terminator and the raw bytes as C++ sees them.
use super::vector::RawVec;
use super::*;
use crate::env::*;
use crate::{chk, must};
use eastl_rs::{hash::DefaultHash, Hash, String as EString};
use std::mem::size_of;

pub const OPS: &[&str] = &[
    "push", "pop", "insert", "insert_bad", "remove", "remove_past_end", "remove_inside", "assign", "reserve", "clone",
    "construct", "edit", "compare", "render", "hash", "swap", "cpp_append", "cpp_regrow", "cpp_erase", "fault",
];
const FAULT: u32 = 19;
const W: [u32; 20] = [14, 8, 10, 2, 8, 2, 2, 5, 4, 3, 5, 2, 2, 1, 2, 2, 0, 0, 0, 0];

const EDGE: [char; 24] = [
    '\0', 'a', 'Z', '~', '\u{7f}', '\u{80}', 'é', 'ß', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '€', '\u{d7ff}', '\u{e000}',
    '\u{fffd}', '\u{ffff}', '\u{10000}', '😀', '\u{10ffff}', '\u{e9}', 'n', '\u{301}', ' ',
];
fn ch(a: u32) -> char {
    match a % 8 {
        0..=2 => EDGE[(a / 8) as usize % EDGE.len()],
        3..=5 => (b'a' + (a / 8 % 26) as u8) as char,
        6 => char::from_u32(a / 8 % 0x3000).unwrap_or('x'),
        _ => char::from_u32(a / 8 % 0x110000).unwrap_or('\u{10348}'),
    }
}
pub fn text(seed: u32, n: usize) -> String {
    let mut r = Rng(seed as u64 ^ 0x7E57);
    let ascii = seed % 3 == 0;
    (0..n).map(|_| if ascii { ch(3 + 8 * r.u(1000)) } else { ch(r.r32()) }).collect()
}
/// user text whose conversion calls back
struct Txt<'a>(&'a str);
impl AsRef<str> for Txt<'_> {
    fn as_ref(&self) -> &str {
        tick(F_CLOSURE);
        self.0
    }
}
fn gen(r: &mut Rng, size: u32, flags: u32) -> Case {
    let mut w = W;
    if flags & FL_FOREIGN != 0 {
        for i in 16..19 {
            w[i] = 3
        }
    }
    let mut ops = OpGen { weights: &w }.gen(r, if size > 1 { 120 } else { 50 });
    for o in ops.iter_mut() {
        if r.chance(1, 2) {
            o[1] = r.r32()
        }
    }
    if flags & FL_FAULT != 0 {
        sprinkle_faults(r, &mut ops, FAULT, flags);
    }
    Case { subject: String::new(), cfg: vec![r.u(5), r.u(3), r.u(4)], ops }
}

struct St<A: HAlloc> {
    s: EString<A>,
    m: String,
    promised: usize,
    tag: u32,
}
impl<A: HAlloc> St<A> {
    fn raw(&mut self) -> &mut RawVec<u8> {
        unsafe { &mut *(&mut self.s as *mut EString<A> as *mut RawVec<u8>) }
    }
}
fn sh(s: &str) -> String {
    let mut o: String = s.chars().take(40).flat_map(|c| c.escape_debug()).collect();
    if s.chars().count() > 40 {
        o += &format!("...({} bytes)", s.len());
    }
    o
}
/// index inside the text, on a character boundary
fn boundary(m: &str, a: u32) -> usize {
    let mut i = if m.is_empty() { 0 } else { a as usize % (m.len() + 1) };
    while !m.is_char_boundary(i) {
        i -= 1
    }
    i
}

fn check<A: HAlloc>(s: &mut St<A>, cx: &mut Ctx) -> R {
    let n = s.m.len();
    let t = Class::Text;
    must!(cx, t, s.s.len() == n, "length {}, expected {n} (text {:?})", s.s.len(), sh(&s.m));
    // bytes first: a wrong &str must not be looked at
    let bytes: &[u8] = s.s.as_bytes();
    must!(cx, t, bytes == s.m.as_bytes(), "the bytes are {:?}, expected those of {:?}", bytes.iter().take(60).collect::<Vec<_>>(), sh(&s.m));
    must!(cx, t, s.s.is_empty() == (n == 0), "is_empty() is wrong at length {n}");
    let cap = s.s.capacity();
    must!(cx, t, cap >= n && cap < 1 << 40, "capacity {cap} below length {n}");
    chk!(cx, t, s.s.is_full() == (n == cap), "is_full() is {} with length {n} and capacity {cap}", s.s.is_full());
    chk!(cx, t, cap >= s.promised, "capacity {cap}, but {} was requested", s.promised);
    must!(cx, t, s.s.as_str() == s.m, "as_str() is wrong");
    let tag = s.tag;
    let r = s.raw();
    let (b, e, c) = (r.begin as usize, r.end as usize, r.cap as usize);
    let (ep, bp) = (r.end, r.begin);
    chk!(cx, Class::Layout, e.wrapping_sub(b) == n && c.wrapping_sub(b) == cap, "begin/end/capacity pointers {b:#x} {e:#x} {c:#x} do not describe {n} bytes, capacity {cap}");
    if b == 0 {
        must!(cx, t, n == 0 && cap == 0, "no buffer at length {n}, capacity {cap}");
    } else {
        match heap(|h| h.at(b)) {
            None => must!(cx, Class::Alloc, false, "the buffer is not a block obtained from the allocator"),
            Some(k) => {
                chk!(cx, Class::Alloc, k.tag == tag, "the buffer came from allocator #{}, expected #{tag}", k.tag);
                // room for the terminator
                chk!(cx, Class::Nul, k.size >= cap + 1, "capacity {cap} over a block of {} bytes leaves no room for the terminator", k.size);
                must!(cx, Class::Alloc, k.size >= cap, "capacity {cap} over a block of {} bytes", k.size);
                chk!(cx, Class::Layout, k.size == cap + 1 && k.align == 1, "capacity {cap} over a block of {} bytes, alignment {}", k.size, k.align);
                if cx.on(Class::Nul) || cx.on(Class::Layout) {
                    let nul = if cx.on(Class::Nul) { Class::Nul } else { Class::Layout };
                    if n < k.size {
                        let x = unsafe { *ep };
                        must!(cx, nul, x == 0, "the byte after the content (length {n}, capacity {cap}) is {x:#04x}");
                    }
                    // what strlen would say
                    if !s.m.contains('\0') {
                        let l = unsafe { std::slice::from_raw_parts(bp as *const u8, k.size) }.iter().position(|&x| x == 0);
                        must!(cx, nul, l == Some(n), "C code sees {l:?} bytes, the string has {n}");
                    }
                }
            }
        }
    }
    if A::NAME == "ta" {
        let at = &s.s as *const _ as *const u8;
        chk!(cx, Class::Layout, size_of::<EString<A>>() == 32 && unsafe { *at.add(24) } as u32 == tag, "the allocator byte is not at offset 24");
    }
    cx.poll()
}

fn construct<A: HAlloc>(o: &[u32; 4], cx: &mut Ctx) -> St<A> {
    let [_, a, b, c] = *o;
    let w = text(c, a as usize % 14);
    let tag = 2 + (c >> 5) % 6;
    let mut t = A::DEFTAG;
    let mut promised = 0;
    cx.note(|| format!("construct kind {} {:?}", b % 7, sh(&w)));
    let (s, m) = match b % 7 {
        0 => (EString::<A>::new(), String::new()),
        1 => (EString::default(), String::new()),
        2 => {
            promised = c as usize % 30;
            cx.mark("built with an initial capacity");
            (EString::with_capacity(promised), String::new())
        }
        3 => {
            t = A::mk(tag).tag();
            (EString::from_in(Txt(&w), A::mk(tag)), w)
        }
        4 => {
            t = A::mk(tag).tag();
            (EString::new_in(A::mk(tag)), String::new())
        }
        5 => (EString::from(w.as_str()), w),
        _ => (w.parse::<EString<A>>().unwrap(), w),
    };
    St { s, m, promised, tag: t }
}

fn one<A: HAlloc>(s: &mut St<A>, o: &[u32; 4], cx: &mut Ctx) -> R {
    let [code, a, b, c] = *o;
    let n = s.m.len();
    let t = Class::Text;
    match code {
        0 => {
            let k = ch(a);
            cx.note(|| format!("push {k:?}"));
            if k.len_utf8() > 1 {
                cx.mark("pushed a multi-byte character")
            }
            if n == s.s.capacity() {
                cx.label("grew at full capacity")
            }
            s.s.push(k);
            s.m.push(k);
        }
        1 => {
            cx.note(|| "pop".into());
            let w = s.m.pop();
            let g = s.s.pop();
            must!(cx, t, g.map(|c| c as u32) == w.map(|c| c as u32), "pop() gave {:?}, expected {w:?}", g.map(|c| c as u32));
            match w {
                None => cx.label("pop on empty"),
                Some(_) if s.m.is_empty() => cx.mark("popped to empty"),
                Some(c) if c.len_utf8() > 1 => cx.mark("popped a multi-byte character"),
                _ => {}
            }
        }
        2 => {
            let k = ch(a);
            let i = boundary(&s.m, b);
            cx.note(|| format!("insert {k:?} at {i}"));
            if i < n {
                cx.mark("insert before the end")
            }
            s.s.insert(i, k);
            s.m.insert(i, k);
        }
        3 => {
            // out of range or inside a character
            let k = ch(a);
            let i = match b % 4 {
                0 => n + 1,
                1 => n + 2 + c as usize % 40,
                2 => usize::MAX - c as usize % 5,
                _ => inside(&s.m, c).unwrap_or(n + 1),
            };
            cx.note(|| format!("insert {k:?} at bad index {i}"));
            cx.mark("insert at a bad index");
            let r = catch(|| s.s.insert(i, k));
            must!(cx, t, r.is_err(), "insert at {i} was accepted in {:?}", sh(&s.m));
        }
        4 => {
            if n > 0 {
                let mut i = boundary(&s.m, a);
                if i == n {
                    i = boundary(&s.m, a.wrapping_add(1) % n as u32);
                }
                cx.note(|| format!("remove {i}"));
                if i == n {
                    return Ok(());
                }
                let w = s.m.remove(i);
                if i < s.m.len() {
                    cx.mark("remove before the end")
                } else {
                    cx.mark("remove of the last character")
                }
                let g = s.s.remove(i);
                must!(cx, t, g.map(|c| c as u32) == Some(w as u32), "remove({i}) gave {:?}, expected {w:?}", g.map(|c| c as u32));
            }
        }
        5 => {
            let i = match b % 3 {
                0 => n,
                1 => n + 1 + a as usize % 50,
                _ => usize::MAX - a as usize % 3,
            };
            cx.note(|| format!("remove past the end {i}"));
            cx.mark("remove out of range");
            let g = s.s.remove(i);
            must!(cx, t, g.is_none(), "remove({i}) at length {n} gave {:?}", g.map(|c| c as u32));
        }
        6 => {
            if let Some(i) = inside(&s.m, a) {
                cx.note(|| format!("remove inside a character {i}"));
                cx.mark("remove inside a character");
                let r = catch(|| s.s.remove(i).is_none());
                must!(cx, t, r != Ok(false), "remove({i}) inside a character was accepted in {:?}", sh(&s.m));
            }
        }
        7 => {
            let w = match b % 6 {
                0 => String::new(),
                1 => text(c, a as usize % 300),
                2 => s.m.clone(),
                3 => s.m.chars().rev().collect(),
                _ => text(c, a as usize % 12),
            };
            cx.note(|| format!("assign {:?}", sh(&w)));
            if n > 0 && !w.is_empty() {
                cx.mark(if w.len() < n { "assigned a shorter text over a longer one" } else { "assigned over a text" });
            } else if n > 0 {
                cx.mark("assigned the empty text")
            }
            match c % 3 {
                0 => s.s.assign(w.as_str()),
                1 => s.s.assign(&w),
                _ => s.s.assign(Txt(&w)),
            }
            s.m = w;
        }
        8 => {
            let k = match b % 4 {
                0 => 0,
                1 => 1,
                _ => a as usize % 60,
            };
            cx.note(|| format!("reserve {k}"));
            cx.mark("reserve");
            s.s.reserve(k);
            s.promised = s.promised.max(k);
        }
        11 => {
            cx.note(|| "edit in place".into());
            match b % 3 {
                0 => {
                    s.s.make_ascii_uppercase();
                    s.m.make_ascii_uppercase()
                }
                1 => {
                    s.s.make_ascii_lowercase();
                    s.m.make_ascii_lowercase()
                }
                _ => {
                    let i = boundary(&s.m, a);
                    let (x, y) = s.s.split_at_mut(i);
                    let (p, q) = s.m.split_at_mut(i);
                    must!(cx, t, x == p && y == q, "split at {i} differs");
                    y.make_ascii_uppercase();
                    q.make_ascii_uppercase();
                }
            }
        }
        12 => {
            let mut other = s.m.clone();
            match b % 4 {
                0 => {}
                1 => other.push(ch(a)),
                2 => {
                    other.pop();
                }
                _ => other = other.chars().rev().collect(),
            }
            let e = EString::<A>::from(other.as_str());
            must!(cx, t, (s.s == e) == (s.m == other), "{:?} == {:?} is {}", sh(&s.m), sh(&other), s.s == e);
            must!(cx, t, (s.s != e) == (s.m != other), "{:?} != {:?} is wrong", sh(&s.m), sh(&other));
        }
        13 => {
            let (d, g) = (format!("{}", s.s), format!("{:?}", s.s));
            must!(cx, t, d == s.m, "displayed as {:?}, expected {:?}", sh(&d), sh(&s.m));
            must!(cx, t, g == format!("\"{}\"", s.m), "rendered as {:?}, expected {:?}", sh(&g), sh(&s.m));
            let b: &[u8] = s.s.as_ref();
            let st: &str = s.s.as_ref();
            must!(cx, t, b == s.m.as_bytes() && st == s.m, "as_ref() differs");
            must!(cx, t, s.s.chars().eq(s.m.chars()), "chars() differ");
        }
        14 => {
            let w = fnv(s.m.as_bytes());
            let g = DefaultHash::<EString<A>>::hash(&s.s);
            let h = DefaultHash::<str>::hash(s.s.as_str());
            chk!(cx, Class::HashFn, g == w && h == w, "{:?} hashes to {g:#x} as a string and {h:#x} as text, expected {w:#x}", sh(&s.m));
        }
        16 => {
            let room = s.s.capacity() - n;
            let k = ch(a);
            let mut buf = [0u8; 4];
            let e = k.encode_utf8(&mut buf).as_bytes();
            if s.raw().begin as usize != 0 && e.len() <= room {
                cx.foreign = true;
                cx.note(|| format!("C++ appends {k:?}"));
                cx.mark("foreign code appended in place");
                let r = s.raw();
                unsafe {
                    for x in e {
                        r.end.write(*x);
                        r.end = r.end.add(1);
                    }
                    r.end.write(0);
                }
                s.m.push(k);
            }
        }
        17 => {
            let newcap = n + a as usize % 9;
            if newcap > 0 {
                cx.foreign = true;
                cx.note(|| format!("C++ reallocates to {newcap}"));
                cx.mark("foreign code reallocated the buffer");
                let cap = s.s.capacity();
                let mut al = A::mk(s.tag);
                let r = s.raw();
                unsafe {
                    let p = al.allocate::<u8>(newcap + 1);
                    if !r.begin.is_null() {
                        std::ptr::copy_nonoverlapping(r.begin, p, n);
                        al.deallocate(r.begin, cap + 1);
                    }
                    r.begin = p;
                    r.end = p.add(n);
                    r.cap = p.add(newcap);
                    r.end.write(0);
                }
                s.promised = 0;
            }
        }
        18 => {
            let i = boundary(&s.m, a);
            if n > 0 {
                cx.foreign = true;
                cx.note(|| format!("C++ erases from {i}"));
                cx.mark("foreign code shortened the string");
                let r = s.raw();
                unsafe {
                    r.end = r.begin.add(i);
                    r.end.write(0);
                }
                s.m.truncate(i);
            }
        }
        _ => {}
    }
    Ok(())
}
fn inside(m: &str, a: u32) -> Option<usize> {
    let v: Vec<usize> = (0..m.len()).filter(|&i| !m.is_char_boundary(i)).collect();
    if v.is_empty() {
        None
    } else {
        Some(v[a as usize % v.len()])
    }
}
pub fn fnv(b: &[u8]) -> usize {
    b.iter().fold(2166136261u32, |h, &c| h.wrapping_mul(16777619) ^ c as u32) as usize
}

fn run<A: HAlloc>(case: &Case, cx: &mut Ctx) -> R {
    let mut slots: Vec<St<A>> = sealable_vec(2);
    slots.push(St { s: EString::new(), m: String::new(), promised: 0, tag: A::DEFTAG });
    slots.push(St { s: EString::new_in(A::mk(9)), m: String::new(), promised: 0, tag: A::mk(9).tag() });
    let two = case.c(2) & 1 == 1;
    let mut arm = None;
    for (step, o) in case.ops.iter().enumerate() {
        cx.step = step;
        cx.ops_done += 1;
        budget(2_000_000);
        let [code, a, b, c] = *o;
        let code = code % 20;
        let o = &[code, a, b, c];
        let si = if two { (c >> 1 & 1) as usize } else { 0 };
        if code == FAULT {
            arm = Some((a, b));
            continue;
        }
        let before: Vec<String> = slots.iter().map(|s| s.m.clone()).collect();
        let hit = {
            let slots = &mut slots;
            guarded(&mut arm, cx, move |cx| {
                match code {
                    9 => {
                        cx.note(|| format!("clone slot {si} over slot {}", si ^ 1));
                        cx.mark("clone");
                        if b % 3 == 0 {
                            let (x, y) = slots.split_at_mut(1);
                            let (from, to) = if si == 0 { (&x[0], &mut y[0]) } else { (&y[0], &mut x[0]) };
                            to.s.clone_from(&from.s);
                            to.m = from.m.clone();
                            to.promised = 0;
                            to.tag = super::vector::kept_tag::<A>(&to.s as *const _ as *const u8, to.tag, from.tag, cx)?;
                            return Ok(());
                        }
                        let k = slots[si].s.clone();
                        slots[si ^ 1] = St { s: k, m: slots[si].m.clone(), promised: 0, tag: slots[si].tag };
                    }
                    10 => {
                        let s = construct::<A>(o, cx);
                        slots[si] = s
                    }
                    15 => slots.swap(0, 1),
                    _ => one(&mut slots[si], o, cx)?,
                }
                Ok(())
            })?
        };
        if hit {
            // the only call-back is the conversion of user text: nothing may have changed, or a valid text be there
            for k in 0..2 {
                let g = std::str::from_utf8(slots[k].s.as_bytes()).map(|s| s.to_string());
                must!(cx, Class::Fault, matches!(&g, Ok(x) if x.is_empty() || *x == before[k] || before[k ^ 1] == *x), "after a panic slot {k} holds {g:?}, before {:?}", sh(&before[k]));
                let g = g.unwrap();
                refused(cx, OPS[code as usize], g == before[k], || sh(&g))?;
                slots[k].m = g;
                slots[k].promised = 0;
            }
        }
        for k in 0..2 {
            check(&mut slots[k], cx)?;
        }
        let (s, t) = (&slots[si], &slots[si ^ 1]);
        still::shared(cx, &[still::span(&s.s), still::span(&t.s)], a ^ c, |cx| {
            let (x, m) = (&s.s, &s.m);
            let n = m.len();
            must!(cx, Class::Text, x.len() == n && x.is_empty() == (n == 0) && x.capacity() >= n && x.is_full() == (x.capacity() == n), "length {} instead of {n}", x.len());
            must!(cx, Class::Text, x.as_str() == m && x.as_bytes() == m.as_bytes() && &**x == m.as_str(), "the text differs");
            must!(cx, Class::Text, AsRef::<str>::as_ref(x) == m && AsRef::<[u8]>::as_ref(x) == m.as_bytes(), "the text differs");
            must!(cx, Class::Text, format!("{x}") == *m && format!("{x:?}") == format!("\"{m}\""), "rendered wrongly");
            must!(cx, Class::Text, (*x == t.s) == (*m == t.m), "equality is wrong");
            let h = <DefaultHash<EString<A>> as Hash<EString<A>>>::hash(x);
            must!(cx, Class::Text, h == super::hash::fnv(m.as_bytes()), "hash is wrong");
            let y = x.clone();
            must!(cx, Class::Text, y == *x && y.as_str() == m, "the clone differs");
            Ok(())
        })?;
    }
    let _ = cx.poll()?;
    cx.step = case.ops.len();
    drop(slots);
    Ok(())
}

pub fn subjects(v: &mut Vec<Subject>) {
    v.push(Subject { name: "string/ta".into(), gen, run: run::<TA>, ops: OPS });
    v.push(Subject { name: "string/fa".into(), gen, run: run::<FA>, ops: OPS });
    v.push(Subject { name: "string/def".into(), gen, run: run::<DA>, ops: OPS });
}
