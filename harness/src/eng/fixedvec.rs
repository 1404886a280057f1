//! FixedVector: sequence operations (shared with the vector engine) across overflow, clears and moves.
use super::list::Place;
use super::vector::{check as vcheck, check_block, cpp_regrow, gen_ops, op, raw, Fresh, VM};
use super::*;
use crate::env::*;
use crate::{chk, must};
use eastl_rs::{fixed_vector::FixedVector, Allocator};
use moveit::{MoveNew, MoveRef, New};
use std::mem::{align_of, size_of, MaybeUninit};
use std::pin::Pin;

// opcodes 17.. differ from the vector engine
pub const OPS: &[&str] = &[
    "push", "pop", "insert", "remove", "append", "assign", "reserve", "set", "permute", "remove_past_end",
    "insert_past_end", "iter", "debug", "cpp_push", "cpp_pop", "cpp_regrow", "cpp_truncate", "clear", "clone_base",
    "move", "move_twice", "destroy", "eq", "fault",
];
const W: [u32; 24] = [14, 7, 6, 6, 4, 3, 1, 3, 1, 1, 1, 1, 1, 0, 0, 0, 0, 3, 1, 6, 1, 1, 1, 0];
const FAULT: u32 = 23;

fn gen(r: &mut Rng, size: u32, flags: u32) -> Case {
    let ops = gen_ops(r, size, flags, &W);
    // small capacities: keep most bulk operations small
    let ops = ops
        .into_iter()
        .map(|mut o| {
            if (o[0] == 4 || o[0] == 5) && r.chance(3, 4) {
                o[1] = r.u(5);
                o[2] = 0;
            }
            o
        })
        .collect();
    Case { subject: String::new(), cfg: vec![r.u(5), r.u(3), r.u(4), 2 + r.u(8), r.u(2)], ops }
}

struct St<T: Elem, const N: usize, A: HAlloc> {
    place: Option<Place<FixedVector<T, N, A>>>,
    alive: bool,
    dead: Vec<Place<FixedVector<T, N, A>>>,
    m: VM,
    over: bool,
    fill: u8,
}
impl<T: Elem, const N: usize, A: HAlloc> St<T, N, A> {
    fn at(&self) -> *mut FixedVector<T, N, A> {
        self.place.as_ref().unwrap().ptr()
    }
    fn l(&mut self) -> &mut FixedVector<T, N, A> {
        unsafe { &mut *self.at() }
    }
    fn buffer(&self) -> usize {
        let off = (24 + size_of::<A>()).next_multiple_of(8) + 8;
        self.at() as usize + off.next_multiple_of(align_of::<T>())
    }
    fn begin(&mut self) -> usize {
        raw(&mut **self.l()).begin as usize
    }
    fn inside(&mut self) -> bool {
        let b = self.begin();
        self.place.as_ref().unwrap().contains(b)
    }
    fn build(&mut self, own: bool, tag: u32) {
        let p = Place::new(self.fill);
        unsafe {
            let t = Pin::new_unchecked(&mut *(p.ptr() as *mut MaybeUninit<FixedVector<T, N, A>>));
            self.m = VM { m: vec![], promised: N, tag: A::DEFTAG };
            if own {
                FixedVector::<T, N, A>::new_in(A::mk(tag)).new(t);
                self.m.tag = A::mk(tag).tag();
            } else {
                FixedVector::<T, N, A>::new().new(t);
            }
        }
        self.place = Some(p);
        self.alive = true;
        self.over = false;
    }
    fn destroy(&mut self) {
        if self.alive {
            self.alive = false;
            unsafe { std::ptr::drop_in_place(self.at()) };
            let p = self.place.take().unwrap();
            p.fill(0xEE);
            self.dead.push(p);
        }
    }
    fn relocate(&mut self, cx: &mut Ctx) -> R {
        cx.mark(if self.over { "moved after overflowing" } else { "moved while in place" });
        let q = Place::<FixedVector<T, N, A>>::new(self.fill);
        let flag = moveit::drop_flag::QuietFlag::new();
        flag.flag().inc();
        unsafe {
            let src = MoveRef::into_pin(MoveRef::new_unchecked(&mut *self.at(), flag.flag()));
            let t = Pin::new_unchecked(&mut *(q.ptr() as *mut MaybeUninit<FixedVector<T, N, A>>));
            MoveNew::move_new(src, t);
        }
        must!(cx, Class::Model, flag.flag().is_dead(), "the moved-from object still counts as alive");
        let old = self.place.replace(q).unwrap();
        // the old storage is dead memory from now on, and may become anything else
        old.fill(0xEE);
        let from = {
            let off = (24 + size_of::<A>()).next_multiple_of(8) + 8;
            off.next_multiple_of(align_of::<T>())
        };
        heap(|h| h.plant = Some((old.ptr() as usize + from, N * size_of::<T>())));
        self.dead.push(old);
        Ok(())
    }
}
impl<T: Elem, const N: usize, A: HAlloc> Drop for St<T, N, A> {
    fn drop(&mut self) {
        self.destroy()
    }
}

fn check<T: Elem, const N: usize, A: HAlloc>(s: &mut St<T, N, A>, cx: &mut Ctx, deep: bool) -> R {
    let md = Class::Model;
    let n = s.m.m.len();
    let inside = s.inside();
    let (over, begin, buf) = (s.over, s.begin(), s.buffer());
    let told = s.l().has_overflowed();
chk!(cx, Class::Fixed, inside == !over, "the elements live {} the object, expected {}", if inside { "inside" } else { "outside" }, if over { "outside" } else { "inside" });
    must!(cx, md, inside == !over, "the elements live {} the object, expected {}", if inside { "inside" } else { "outside" }, if over { "outside" } else { "inside" });
    must!(cx, md, told == over, "has_overflowed() is {told}, but the elements live {} the object", if inside { "inside" } else { "outside" });
    must!(cx, md, s.l().max_size() == N, "max_size() is {}, expected {N}", s.l().max_size());
    let cap = s.l().capacity();
    if inside {
        must!(cx, md, cap == N, "capacity {cap} in place, expected {N}");
        chk!(cx, Class::Fixed, begin % align_of::<T>() == 0 && begin >= buf && begin + N * size_of::<T>() <= s.at() as usize + size_of::<FixedVector<T, N, A>>(), "in-place elements at {begin:#x} do not fit the object");
    } else {
        chk!(cx, md, cap >= N.min(n), "capacity {cap} after overflowing");
    }
    let m = s.m.clone();
    {
        let v = &mut **s.l();
        vcheck(v, &m, cx, deep)?;
        if !inside {
            check_block(v, m.tag, cx)?;
        }
    }
    let g: Vec<u32> = s.l().as_ref().iter().map(|x| x.v()).collect();
    must!(cx, md, g == m.m, "as_ref() yields {}, expected {}", show(&g), show(&m.m));
    if !over {
        let k = heap(|h| h.blocks.values().filter(|b| b.tag == m.tag).count());
        chk!(cx, Class::Fixed, k == 0 || cx.lost, "{k} overflow block(s) are held while the elements live inside the object");
    } else {
        let k = heap(|h| h.blocks.values().filter(|b| b.tag == m.tag).count());
        chk!(cx, Class::Alloc, k == 1 || cx.lost, "{k} overflow blocks are held, expected 1");
    }
    // what C++ relies on
    let y = Class::Layout;
    chk!(cx, y, size_of::<FixedVector<T, N, A>>() == (buf - s.at() as usize + N * size_of::<T>()).next_multiple_of(align_of::<T>().max(8)), "object size {}", size_of::<FixedVector<T, N, A>>());
    if inside {
        chk!(cx, y, begin == buf, "in-place elements start at offset {}", begin - s.at() as usize);
    }
    let po = s.at() as usize + (24 + size_of::<A>()).next_multiple_of(8);
    chk!(cx, y, unsafe { *(po as *const usize) } == buf, "the pool pointer is {:#x}, the in-place storage is at {buf:#x}", unsafe { *(po as *const usize) });
    if A::NAME == "ta" {
        chk!(cx, y, unsafe { *(s.at() as *const u8).add(24) } as u32 == m.tag, "the allocator byte is not at offset 24");
    }
    if s.place.as_ref().unwrap().overrun(s.fill) {
        must!(cx, Class::Fixed, false, "memory outside of the object was written");
    }
    cx.poll()
}

fn run<T: Elem, const N: usize, A: HAlloc>(case: &Case, cx: &mut Ctx) -> R {
    let fill = [0xCD, 0xFF, 0x00, 0x5A, 0x01][case.c(0) as usize % 5];
    let mut s = St::<T, N, A> { place: None, alive: false, dead: vec![], m: VM::default(), over: false, fill };
    s.build(case.c(4) == 1, case.c(3));
    let mut fr = Fresh(case.c(2).wrapping_mul(1000));
    let mut arm = None;
    check(&mut s, cx, true)?;
    for (step, o) in case.ops.iter().enumerate() {
        cx.step = step;
        cx.ops_done += 1;
        budget(2_000_000);
        let [code, a, b, c] = *o;
        let code = code % 24;
        let o = &[code, a, b, c];
        if code == FAULT {
            arm = Some((a, b));
            continue;
        }
        let mut added = Vec::new();
        let before = s.m.m.clone();
        let over0 = s.over;
        let tag0 = s.m.tag;
        let hit = {
            let (s, fr, added) = (&mut s, &mut fr, &mut added);
            guarded(&mut arm, cx, move |cx| {
                match code {
                    17 => {
                        cx.note(|| "clear".into());
                        if s.over {
                            cx.mark("cleared after overflowing")
                        }
                        s.l().clear();
                        s.m.m.clear();
                        s.m.promised = N;
                        s.over = false;
                    }
                    18 => {
                        cx.note(|| "clone the base vector".into());
                        let mut k = (**s.l()).clone();
                        let g: Vec<u32> = k.iter().map(|x| x.v()).collect();
                        must!(cx, Class::Model, g == s.m.m, "the clone holds {}", show(&g));
                        k.push(T::mk(T::norm(1)));
                        k.pop();
                    }
                    19 => {
                        cx.note(|| "move".into());
                        s.relocate(cx)?
                    }
                    20 => {
                        cx.note(|| "move twice".into());
                        s.relocate(cx)?;
                        s.relocate(cx)?
                    }
                    21 => {
                        cx.note(|| "destroy and build again".into());
                        s.destroy();
                        cx.poll()?;
                        let old = s.dead.pop();
                        s.build(a % 2 == 1, 2 + b % 8);
                        s.dead.extend(old);
                    }
                    _ => {
                        let tag = s.m.tag;
                        let mut m = std::mem::take(&mut s.m);
                        let inside = s.inside();
                        let cap0 = s.l().capacity();
                        let r = {
                            let v = &mut **s.l();
                            op::<T, _>(v, &mut m, o, fr, added, cx, &mut |v, n| {
                                let mut al = A::mk(tag);
                                cpp_regrow(v, n, &mut |free, k| match free {
                                    Some((p, k)) => {
                                        if !inside {
                                            unsafe { al.deallocate(p, k) }
                                        }
                                        std::ptr::null_mut()
                                    }
                                    None => al.allocate::<T>(k),
                                })
                            })
                        };
                        if !s.over {
                            if m.m.len() > cap0 || code == 15 {
                                s.over = true;
                                cx.mark("outgrew the in-place capacity");
                            } else if code == 6 && b % 4 != 0 {
                                // a reservation may move out at once
                                s.over = !s.inside();
                                if m.promised <= N {
                                    m.promised = N
                                }
                            }
                        }
                        s.m = m;
                        r?
                    }
                }
                Ok(())
            })?
        };
        if hit {
            s.m.tag = tag0;
            let gone = !s.alive;
            if gone {
                let p = s.place.take().unwrap();
                p.fill(0xEE);
                s.dead.push(p);
                s.build(a % 2 == 1, 2 + b % 8);
            }
            let got: Vec<u32> = s.l().as_ref().iter().map(|x| x.v()).collect();
            let all: Vec<u32> = before.iter().copied().chain(added.iter().copied()).collect();
            must!(cx, Class::Fault, sub_multiset(&got, &all), "after a panic it holds {}, before {}", show(&got), show(&before));
            refused(cx, OPS[code as usize], got == before, || show(&got))?;
            s.m.m = got;
            s.m.promised = 0;
            s.over = !s.inside();
            must!(cx, Class::Fixed, s.over || !over0 || gone, "a panic moved the elements back inside");
        }
        check(&mut s, cx, (step + a as usize) % 5 == 0)?;
        let over = s.over;
        let l: &FixedVector<T, N, A> = unsafe { &*s.at() };
        still::shared(cx, &[still::span(l)], a ^ c, |cx| {
            super::vector::reads(l, &s.m.m, a ^ c, cx)?;
            must!(cx, Class::Model, l.has_overflowed() == over && l.max_size() == N, "has_overflowed() is wrong");
            must!(cx, Class::Model, l.as_ref().len() == s.m.m.len(), "as_ref() is wrong");
            let d = format!("{:?}", l);
            must!(cx, Class::Model, T::NAME == "u32x3" || d == format!("{:?}", s.m.m), "rendered as {d}");
            Ok(())
        })?;
    }
    cx.step = case.ops.len();
    s.destroy();
    Ok(())
}

pub fn subjects(v: &mut Vec<Subject>) {
    macro_rules! sub {
        ($t:ty, $n:literal, $a:ty) => {
            v.push(Subject { name: format!("fvec/{}/{}/{}", <$t>::NAME, $n, <$a>::NAME), gen, run: run::<$t, $n, $a>, ops: OPS })
        };
    }
    sub!(u32, 4, TA);
    sub!(T4, 1, TA);
    sub!(T<0>, 3, FA);
    sub!(T<0>, 17, TA);
    sub!(B7, 5, FA);
    sub!(A16, 2, TA);
    sub!(A64, 3, FA);
    sub!(T<16>, 8, DA);
    sub!(u8, 12, TA);
}
