//! One iterator driven through the whole standard protocol (provided methods included), against
//! the elements it has to yield.
use crate::core::*;
use crate::must;
use std::fmt::Debug;

struct Bits(u64);
impl Bits {
    fn below(&mut self, n: usize) -> usize {
        self.0 = mix(self.0, 0x9e37);
        (self.0 >> 11) as usize % n.max(1)
    }
    /// how far to skip: mostly near, sometimes to the end or past it
    fn skip(&mut self, left: usize) -> usize {
        match self.below(6) {
            0 => 0,
            1 => left,
            2 => left + 1 + self.below(3),
            3 => left.saturating_sub(1),
            4 => self.below(4),
            _ => self.below(left + 1),
        }
    }
}
fn hint<I: Iterator>(it: &I, left: usize, exact: bool, cx: &Ctx, cl: Class) -> R {
    let (lo, hi) = it.size_hint();
    must!(cx, cl, lo <= left && hi.unwrap_or(usize::MAX) >= left, "size hint {:?} with {left} elements left", (lo, hi));
    must!(cx, cl, !exact || (lo == left && hi == Some(left)), "size hint {:?} with {left} elements left", (lo, hi));
    Ok(())
}
fn front<I: Iterator, W: PartialEq + Debug>(it: &mut I, want: &[W], lo: &mut usize, hi: usize, b: &mut Bits, exact: bool, cx: &Ctx, cl: Class, val: &dyn Fn(I::Item) -> W) -> R {
    let left = hi - *lo;
    let (what, g, used): (_, Option<W>, usize) = match b.below(7) {
        0 | 1 => ("next", it.next().map(val), 1),
        2 | 3 => {
            let k = b.skip(left);
            ("nth", it.nth(k).map(val), k + 1)
        }
        4 => {
            let k = b.skip(left);
            // stops by itself after k + 1 elements
            let mut i = 0;
            ("find", it.find(|_| { i += 1; i > k }).map(val), k + 1)
        }
        5 => {
            let k = b.skip(left);
            let mut g = None;
            let mut i = 0;
            let r = it.try_for_each(|x| {
                if i == k {
                    g = Some(val(x));
                    return Err(());
                }
                i += 1;
                Ok(())
            });
            must!(cx, cl, r.is_err() == (k < left), "try_for_each over {left} elements runs to the end: {}", r.is_ok());
            ("try_for_each", g, k + 1)
        }
        _ => return hint(it, left, exact, cx, cl),
    };
    let w = if used <= left { Some(&want[*lo + used - 1]) } else { None };
    must!(cx, cl, g.as_ref() == w, "{what} taking element {used} of {left} gave {g:?}, expected {w:?}");
    *lo = (*lo + used).min(hi);
    hint(it, hi - *lo, exact, cx, cl)
}
fn front_end<I: Iterator, W: PartialEq + Debug>(mut it: I, want: &[W], b: &mut Bits, cx: &Ctx, cl: Class, val: &dyn Fn(I::Item) -> W) -> R {
    let n = want.len();
    match b.below(9) {
        0 => {
            let g = it.count();
            must!(cx, cl, g == n, "count() with {n} elements left is {g}");
        }
        1 => {
            let g = it.last().map(val);
            must!(cx, cl, g.as_ref() == want.last(), "last() with {n} elements left is {g:?}, expected {:?}", want.last());
        }
        2 => {
            let g = it.fold(vec![], |mut v, x| {
                v.push(val(x));
                v
            });
            must!(cx, cl, g == want, "fold() visits {} elements, expected {n} (or others)", g.len());
        }
        3 => {
            let mut g = vec![];
            it.for_each(|x| g.push(val(x)));
            must!(cx, cl, g == want, "for_each() visits {} elements, expected {n} (or others)", g.len());
        }
        4 => {
            let g: Vec<W> = it.map(val).collect();
            must!(cx, cl, g == want, "collecting gives {} elements, expected {n} (or others)", g.len());
        }
        5 => {
            let (s, k) = (b.below(n + 2), 1 + b.below(3));
            let g: Vec<W> = it.skip(s).step_by(k).map(val).collect();
            must!(cx, cl, g.iter().eq(want.iter().skip(s).step_by(k)), "skip({s}).step_by({k}) over {n} elements gives {} elements", g.len());
        }
        6 => {
            let k = b.below(n + 2);
            let mut i = 0;
            let g = it.all(|_| {
                i += 1;
                i <= k
            });
            must!(cx, cl, g == (n <= k), "all() over {n} elements stopped wrongly");
            for w in &want[(k + 1).min(n)..] {
                let g = it.next().map(val);
                must!(cx, cl, g.as_ref() == Some(w), "after a stopped all() the next element is {g:?}, expected {w:?}");
            }
            must!(cx, cl, it.next().is_none(), "exhausted iterator yields an element");
        }
        7 => {
            let k = b.below(n + 2);
            let g: Vec<W> = it.by_ref().take(k).map(val).collect();
            must!(cx, cl, g.iter().eq(want.iter().take(k)), "take({k}) over {n} elements gives {} elements", g.len());
            let g: Vec<W> = it.map(val).collect();
            must!(cx, cl, g.iter().eq(want.iter().skip(k)), "the rest after take({k}) of {n} has {} elements", g.len());
        }
        _ => {
            for w in want {
                let g = it.next().map(val);
                must!(cx, cl, g.as_ref() == Some(w), "the next element is {g:?}, expected {w:?}");
            }
            for _ in 0..2 {
                must!(cx, cl, it.next().is_none(), "exhausted iterator yields an element");
                must!(cx, cl, it.nth(0).is_none(), "exhausted iterator yields an element");
            }
        }
    }
    Ok(())
}
fn back<I: DoubleEndedIterator, W: PartialEq + Debug>(it: &mut I, want: &[W], lo: usize, hi: &mut usize, b: &mut Bits, exact: bool, cx: &Ctx, cl: Class, val: &dyn Fn(I::Item) -> W) -> R {
    let left = *hi - lo;
    let (what, g, used): (_, Option<W>, usize) = match b.below(4) {
        0 | 1 => ("next_back", it.next_back().map(val), 1),
        2 => {
            let k = b.skip(left);
            ("nth_back", it.nth_back(k).map(val), k + 1)
        }
        _ => {
            let k = b.skip(left);
            let mut i = 0;
            ("rfind", it.rfind(|_| { i += 1; i > k }).map(val), k + 1)
        }
    };
    let w = if used <= left { Some(&want[*hi - used]) } else { None };
    must!(cx, cl, g.as_ref() == w, "{what} taking element {used} from the back of {left} gave {g:?}, expected {w:?}");
    *hi = hi.saturating_sub(used).max(lo);
    hint(it, *hi - lo, exact, cx, cl)
}
/// a forward iterator
pub fn fwd<I: Iterator, W: PartialEq + Debug>(mut it: I, want: &[W], seed: u32, exact: bool, cx: &mut Ctx, cl: Class, val: impl Fn(I::Item) -> W) -> R {
    let mut b = Bits(mix(seed as u64, 77));
    let (mut lo, hi) = (0, want.len());
    hint(&it, hi, exact, cx, cl)?;
    for _ in 0..b.below(4) {
        front(&mut it, want, &mut lo, hi, &mut b, exact, cx, cl, &val)?;
    }
    if b.below(8) == 0 {
        return Ok(());
    }
    front_end(it, &want[lo..hi], &mut b, cx, cl, &val)
}
/// a double-ended iterator
pub fn dbl<I: DoubleEndedIterator, W: PartialEq + Debug>(mut it: I, want: &[W], seed: u32, exact: bool, cx: &mut Ctx, cl: Class, val: impl Fn(I::Item) -> W) -> R {
    let mut b = Bits(mix(seed as u64, 78));
    let (mut lo, mut hi) = (0, want.len());
    hint(&it, hi, exact, cx, cl)?;
    for _ in 0..b.below(5) {
        if b.below(2) == 0 {
            front(&mut it, want, &mut lo, hi, &mut b, exact, cx, cl, &val)?;
        } else {
            back(&mut it, want, lo, &mut hi, &mut b, exact, cx, cl, &val)?;
        }
    }
    let want = &want[lo..hi];
    match b.below(6) {
        0 => Ok(()),
        1 => {
            let g = it.rfold(vec![], |mut v, x| {
                v.push(val(x));
                v
            });
            must!(cx, cl, g.iter().eq(want.iter().rev()), "rfold() visits {} elements, expected {} (or others)", g.len(), want.len());
            Ok(())
        }
        2 => {
            let g: Vec<W> = it.rev().map(&val).collect();
            must!(cx, cl, g.iter().eq(want.iter().rev()), "reversed, {} elements are collected, expected {} (or others)", g.len(), want.len());
            Ok(())
        }
        _ => front_end(it, want, &mut b, cx, cl, &val),
    }
}
