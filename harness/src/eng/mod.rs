//! One engine per container family: interprets a generated history against a reference model.
use crate::core::*;

pub mod cap;
pub mod cost;
pub mod deque;
pub mod hash;
pub mod hashfn;
pub mod fixedvec;
#[cfg(feature = "fused")]
pub mod fused;
pub mod list;
pub mod proto;
pub mod rbtree;
pub mod still;
pub mod string;
pub mod vecmap;
pub mod vector;

pub type GenFn = fn(&mut Rng, u32, u32) -> Case;
pub type RunFn = fn(&Case, &mut Ctx) -> R;

pub struct Subject {
    pub name: String,
    pub gen: GenFn,
    pub run: RunFn,
    pub ops: &'static [&'static str],
}
/// generator flag: histories with injected panics
pub const FL_FAULT: u32 = 1;
/// generator flag: foreign (C++) edits of the raw memory
pub const FL_FOREIGN: u32 = 2;
/// with FL_FAULT: the injected panics come from the allocator, which refuses a request
pub const FL_ALLOC: u32 = 4;
/// hash tables: C++ rehashes and sets growth parameters now and then
pub const FL_REHASH: u32 = 8;

pub fn all() -> Vec<Subject> {
    let mut v = Vec::new();
    vector::subjects(&mut v);
    deque::subjects(&mut v);
    list::subjects(&mut v);
    hash::subjects(&mut v);
    vecmap::subjects(&mut v);
    string::subjects(&mut v);
    rbtree::subjects(&mut v);
    fixedvec::subjects(&mut v);
    cap::subjects(&mut v);
    hashfn::subjects(&mut v);
    cost::subjects(&mut v);
    #[cfg(feature = "fused")]
    fused::subjects(&mut v);
    v
}

/// lays a fault operation (code `fault`) before some operations
pub fn sprinkle_faults(r: &mut Rng, ops: &mut Vec<[u32; 4]>, fault: u32, flags: u32) {
    let n = r.range(1, 4.max(ops.len() as u32 / 5));
    for _ in 0..n {
        let at = r.u(ops.len() as u32 + 1) as usize;
        let after = match r.u(4) {
            0 => 0,
            1 => r.u(3),
            2 => r.u(8),
            _ => r.u(30),
        };
        if flags & FL_ALLOC != 0 {
            ops.insert(at, [fault, 8, after / 2, 0]);
        } else {
            ops.insert(at, [fault, r.u(8), after, 0]);
        }
    }
}

/// Is `sub` a multiset contained in `sup`?
pub fn sub_multiset(sub: &[u32], sup: &[u32]) -> bool {
    let mut a = sub.to_vec();
    let mut b = sup.to_vec();
    a.sort_unstable();
    b.sort_unstable();
    let mut i = 0;
    for x in a {
        while i < b.len() && b[i] < x {
            i += 1
        }
        if i == b.len() || b[i] != x {
            return false;
        }
        i += 1
    }
    true
}
pub fn show(v: &[u32]) -> String {
    if v.len() <= 24 {
        format!("{v:?}")
    } else {
        format!("{:?}...({} elements)", &v[..24], v.len())
    }
}
/// an iterator with a chosen lower size bound
pub struct Src<I> {
    pub it: I,
    pub lower: usize,
}
impl<I: Iterator> Iterator for Src<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        crate::env::tick(crate::env::F_ITER);
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.lower, None)
    }
}
pub const MASKS: [u32; 10] = [
    !crate::env::F_ALLOC,
    crate::env::F_CLONE,
    crate::env::F_EQ | crate::env::F_CMP,
    crate::env::F_HASH,
    crate::env::F_ITER,
    crate::env::F_CLOSURE,
    !crate::env::F_ALLOC,
    crate::env::F_CLONE | crate::env::F_ITER,
    crate::env::F_ALLOC,
    crate::env::F_DROP,
];
/// runs one operation, possibly with an injected panic armed. Ok(true) = the injected panic hit.
pub fn guarded(arm: &mut Option<(u32, u32)>, cx: &mut Ctx, f: impl FnOnce(&mut Ctx) -> R) -> R<bool> {
    if let Some((m, a)) = arm.take() {
        crate::env::arm_fault(MASKS[m as usize % MASKS.len()], a);
    }
    let r = {
        let c = &mut *cx;
        catch(move || f(c))
    };
    let hit = crate::env::disarm_fault();
    match r {
        Ok(r) => {
            // an operation may swallow nothing: the injected panic must have reached us
            if hit {
                return Err(Viol { class: Class::Fault, msg: format!("step {}: an injected panic was swallowed", cx.step) });
            }
            r.map(|_| false)
        }
        Err(p) if hit && p == crate::env::INJECTED => {
            cx.leak_ok = true;
            cx.mark("injected panic unwound through an operation");
            if crate::env::fault_kind() == crate::env::F_DROP {
                cx.lost = true;
                cx.mark("a destructor panicked in an operation");
            }
            Ok(true)
        }
        Err(p) => Err(Viol { class: Class::Panic, msg: format!("step {}: unexpected panic: {p}", cx.step) }),
    }
}

/// after an operation was refused memory: a request for a single element or for capacity changes nothing
pub fn refused(cx: &Ctx, op: &str, same: bool, got: impl FnOnce() -> String) -> R {
    // (not so if the panic came from the destructor of what the operation replaced)
    if crate::env::fault_kind() == crate::env::F_DROP {
        return Ok(());
    }
    let single = matches!(op, "push" | "push_back" | "push_front" | "insert" | "reinsert" | "reserve" | "or_insert" | "or_insert_with" | "entry");
    crate::chk!(cx, Class::Cap, !single || same, "{op} was refused memory, but changed the container to {}", got());
    Ok(())
}
