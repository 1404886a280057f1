//! The built-in hash functions against bit-level definitions.
use super::string::{fnv, text};
use super::*;
use crate::env::*;
use crate::must;
use eastl_rs::hash::{DefaultHash, Hash};
use eastl_rs::string::String as EString;
use std::ffi::c_char;

pub const OPS: &[&str] = &["integer", "boolean", "float32", "float64", "text", "c_string", "string_history"];

fn gen(r: &mut Rng, _size: u32, _flags: u32) -> Case {
    let n = r.range(1, 16);
    let ops = (0..n).map(|_| [r.u(7), r.u(64), r.r32(), r.r32()]).collect();
    Case { subject: String::new(), cfg: vec![0, 0], ops }
}
fn word(a: u32, b: u32, c: u32) -> u64 {
    let w = (b as u64) << 32 | c as u64;
    match a / 16 {
        0 => w,
        // close to a power of two, from either side, with either sign
        1 => (1u64 << (b % 64)).wrapping_add(c as u64 % 5).wrapping_sub(2),
        2 => (1u64 << (b % 64)).wrapping_add(c as u64 % 5).wrapping_sub(2).wrapping_neg(),
        _ => w >> (b % 64),
    }
}
/// the value of a float truncated towards zero and saturated to an unsigned machine word, from its bits
fn trunc(neg: bool, exp: i32, mant: u64, mbits: i32, nan: bool) -> usize {
    if nan || neg {
        return 0;
    }
    // value = mant * 2^(exp - mbits)
    let sh = exp - mbits;
    if sh <= -64 {
        0
    } else if sh < 0 {
        (mant >> -sh) as usize
    } else if (mant as u128) << sh.min(64) > u64::MAX as u128 || sh > 64 {
        if mant == 0 {
            0
        } else {
            usize::MAX
        }
    } else {
        (mant << sh) as usize
    }
}
fn f32_word(bits: u32) -> usize {
    let (e, m) = ((bits >> 23 & 0xff) as i32, (bits & 0x7f_ffff) as u64);
    if e == 255 {
        return trunc(bits >> 31 != 0, 200, 1 << 23, 23, m != 0);
    }
    trunc(bits >> 31 != 0, e.max(1) - 127, if e == 0 { m } else { m | 1 << 23 }, 23, false)
}
fn f64_word(bits: u64) -> usize {
    let (e, m) = ((bits >> 52 & 0x7ff) as i32, bits & 0xf_ffff_ffff_ffff);
    if e == 2047 {
        return trunc(bits >> 63 != 0, 2000, 1 << 52, 52, m != 0);
    }
    trunc(bits >> 63 != 0, e.max(1) - 1023, if e == 0 { m } else { m | 1 << 52 }, 52, false)
}

fn all_texts(t: &str, a: u32, c: u32, cx: &mut Ctx) -> R {
    let y = Class::HashFn;
    let w = fnv(t.as_bytes());
    let sh = |s: &str| s.chars().take(24).collect::<String>();
    must!(cx, y, <DefaultHash<str> as Hash<str>>::hash(t) == w, "hash of text {:?} is {}, expected {w}", sh(t), <DefaultHash<str> as Hash<str>>::hash(t));
    must!(cx, y, <DefaultHash<&str> as Hash<&str>>::hash(&t) == w, "hash of borrowed text {:?} differs", sh(t));
    fn own<A: HAlloc>(t: &str, a: u32, w: usize, cx: &mut Ctx) -> R {
        let mut s = match a % 3 {
            0 => EString::<A>::from_in(t, A::mk(4)),
            1 => EString::<A>::with_capacity(t.len() + a as usize),
            _ => EString::<A>::new_in(A::mk(5)),
        };
        if a % 3 != 0 {
            s.assign(t);
        }
        if a % 4 == 3 {
            s.reserve(a as usize);
        }
        let h = <DefaultHash<EString<A>> as Hash<EString<A>>>::hash(&s);
        must!(cx, Class::HashFn, h == w, "hash of a string holding {t:?} is {h}, expected {w}");
        let k = s.clone();
        let h = <DefaultHash<EString<A>> as Hash<EString<A>>>::hash(&k);
        must!(cx, Class::HashFn, h == w, "hash of the clone of a string holding {t:?} is {h}, expected {w}");
        Ok(())
    }
    own::<TA>(t, a, w, cx)?;
    own::<FA>(t, a + 1, w, cx)?;
    own::<DA>(t, a + 2, w, cx)?;
    if !t.as_bytes().contains(&0) {
        cstr(t.as_bytes(), c, cx)?;
    }
    Ok(())
}
fn cstr(b: &[u8], c: u32, cx: &mut Ctx) -> R {
    // anywhere in memory, whatever follows it
    let off = c as usize % 9;
    let mut buf = vec![0xA5u8; off];
    buf.extend_from_slice(b);
    buf.push(0);
    buf.extend_from_slice(&[b'x', 0xFF, 7]);
    let p = unsafe { buf.as_ptr().add(off) } as *const c_char;
    let (h, w) = (<DefaultHash<*const c_char> as Hash<*const c_char>>::hash(&p), fnv(b));
    must!(cx, Class::HashFn, h == w, "hash of the C string {:?} is {h}, expected {w}", &b[..b.len().min(24)]);
    Ok(())
}

fn run(case: &Case, cx: &mut Ctx) -> R {
    let y = Class::HashFn;
    for (step, &[code, a, b, c]) in case.ops.iter().enumerate() {
        cx.step = step;
        cx.ops_done += 1;
        match code % 7 {
            0 => {
                let v = word(a, b, c);
                macro_rules! int {
                    ($($i:literal => $t:ty as $u:ty),*) => {
                        match a % 16 { $($i => {
                            let x = v as $t;
                            cx.note(|| format!("{} {x}", stringify!($t)));
                            let neg = (x as i128) < 0;
                            let w = ((x as i128) & (u64::MAX as i128)) as u64 as usize;
                            let h = <DefaultHash<$t> as Hash<$t>>::hash(&x);
                            must!(cx, y, h == w, "hash of {x} ({}) is {h}, expected {w}", stringify!($t));
                            cx.mark(if neg { "negative integer" } else { "non-negative integer" });
                        })* _ => {} }
                    };
                }
                int!(0 => u8 as u8, 1 => i8 as u8, 2 => u16 as u16, 3 => i16 as u16, 4 => u32 as u32, 5 => i32 as u32, 6 => u64 as u64, 7 => i64 as u64, 8 => usize as u64, 9 => isize as u64,
                     10 => i8 as u8, 11 => i16 as u8, 12 => i32 as u32, 13 => i64 as u64, 14 => u64 as u64, 15 => u32 as u32);
            }
            1 => {
                let x = b & 1 == 1;
                must!(cx, y, <DefaultHash<bool> as Hash<bool>>::hash(&x) == x as usize, "hash of {x} is wrong");
            }
            2 => {
                // mostly moderate exponents
                let bits = match a % 4 {
                    0 => c,
                    1 => (c & 0x807f_ffff) | ((120 + b % 24) << 23),
                    2 => (c & 0x807f_ffff) | ((140 + b % 60) << 23),
                    _ => (word(a, b, c) as i64 as f32).to_bits(),
                };
                let (h, w) = (<DefaultHash<f32> as Hash<f32>>::hash(&f32::from_bits(bits)), f32_word(bits));
                must!(cx, y, h == w, "hash of the float {} ({bits:#x}) is {h}, expected {w}", f32::from_bits(bits));
                cx.mark("float");
            }
            3 => {
                let raw = (b as u64) << 32 | c as u64;
                let bits = match a % 4 {
                    0 => raw,
                    1 => (raw & 0x800f_ffff_ffff_ffff) | ((1020 + b as u64 % 24) << 52),
                    2 => (raw & 0x800f_ffff_ffff_ffff) | ((1040 + b as u64 % 60) << 52),
                    _ => (word(a, b, c) as i64 as f64).to_bits(),
                };
                let (h, w) = (<DefaultHash<f64> as Hash<f64>>::hash(&f64::from_bits(bits)), f64_word(bits));
                must!(cx, y, h == w, "hash of the float {} ({bits:#x}) is {h}, expected {w}", f64::from_bits(bits));
                cx.mark("float");
            }
            4 => {
                let n = if a % 8 == 0 { b % 400 } else { a % 20 } as usize;
                let t = text(c, n);
                cx.mark(if t.is_ascii() { "text in every representation" } else { "non-ASCII text in every representation" });
                all_texts(&t, a, b, cx)?;
            }
            5 => {
                let mut r = Rng(c as u64);
                let n = if a % 8 == 0 { b % 300 } else { a % 24 } as usize;
                let s: Vec<u8> = (0..n).map(|_| if a & 1 == 0 { 1 + r.u(255) as u8 } else { *r.pick(&[1, 0x7f, 0x80, 0xc3, 0xe2, 0xff, b'a', 0xbf]) }).collect();
                if std::str::from_utf8(&s).is_err() {
                    cx.mark("C string that is not UTF-8");
                }
                cstr(&s, b, cx)?;
            }
            _ => {
                // the hash depends on the text only, not on how it came about
                let mut r = Rng(c as u64 ^ 99);
                let mut s = EString::<TA>::new();
                let mut m = String::new();
                for _ in 0..a % 24 {
                    match r.u(6) {
                        0 | 1 => {
                            let ch = super::string::text(r.r32(), 1).chars().next().unwrap_or('q');
                            s.push(ch);
                            m.push(ch);
                        }
                        2 => {
                            s.pop();
                            m.pop();
                        }
                        3 => {
                            let t = text(r.r32(), r.clone().u(9) as usize);
                            s.assign(&t);
                            m = t;
                        }
                        4 => s.reserve(r.u(40) as usize),
                        _ => {
                            if !m.is_empty() {
                                m.remove(0);
                                s.remove(0);
                            }
                        }
                    }
                    if s.as_str() != m {
                        // another property's business
                        return Ok(());
                    }
                    let (h, w) = (<DefaultHash<EString<TA>> as Hash<EString<TA>>>::hash(&s), fnv(m.as_bytes()));
                    must!(cx, y, h == w, "hash of a string holding {m:?} after edits is {h}, expected {w}");
                }
                cx.mark("string edited, then hashed");
            }
        }
    }
    cx.poll()
}

pub fn subjects(v: &mut Vec<Subject>) {
    v.push(Subject { name: "hashfn".into(), gen, run, ops: OPS });
}
