//! What must not move or change: memory under shared references, and elements under operations on others.
use super::*;
use crate::env::*;
use std::collections::HashMap;

/// memory of the objects and of every block held from the instrumented allocators
struct Shot {
    objs: Vec<(usize, Vec<u8>)>,
    blocks: Vec<(usize, usize, u64)>,
}
fn sum(p: usize, n: usize) -> u64 {
    let mut h = n as u64 ^ 0x9E37_79B9;
    let mut i = 0;
    unsafe {
        while i + 8 <= n {
            h = (h ^ std::ptr::read_unaligned((p + i) as *const u64)).wrapping_mul(0x100_0000_01b3).rotate_left(29);
            i += 8;
        }
        while i < n {
            h = (h ^ *((p + i) as *const u8) as u64).wrapping_mul(0x100_0000_01b3).rotate_left(29);
            i += 1;
        }
    }
    h
}
impl Shot {
    fn new(objs: &[(usize, usize)]) -> Self {
        Shot {
            objs: objs.iter().map(|&(p, n)| (p, unsafe { std::slice::from_raw_parts(p as *const u8, n) }.to_vec())).collect(),
            blocks: heap(|h| h.blocks.values().map(|b| (b.addr, b.size, sum(b.addr, b.size))).collect()),
        }
    }
    fn same(&self, cx: &Ctx) -> R {
        for (p, b) in &self.objs {
            let now = unsafe { std::slice::from_raw_parts(*p as *const u8, b.len()) };
            if let Some(i) = (0..b.len()).find(|&i| now[i] != b[i]) {
                crate::fail!(cx, Class::Read, "reading through a shared reference changed the object at offset {i} (from {:#x} to {:#x})", b[i], now[i]);
            }
        }
        for &(p, n, h) in &self.blocks {
            if heap(|h| h.at(p)).is_none_or(|b| b.size != n) {
                crate::fail!(cx, Class::Read, "reading through a shared reference returned a block of {n} bytes to the allocator");
            }
            if sum(p, n) != h {
                crate::fail!(cx, Class::Read, "reading through a shared reference changed a block of {n} bytes the container holds");
            }
        }
        crate::must!(
            cx,
            Class::Read,
            heap(|h| h.blocks.len()) == self.blocks.len() || cx.leak_ok,
            "reading through a shared reference left the container with {} blocks instead of {}",
            heap(|h| h.blocks.len()),
            self.blocks.len()
        );
        Ok(())
    }
}
/// runs `f`, which only reads through shared references, while the memory of the container cannot be written
pub fn shared(cx: &mut Ctx, objs: &[(usize, usize)], seed: u32, f: impl FnOnce(&mut Ctx) -> R) -> R {
    if !cx.on(Class::Read) {
        return Ok(());
    }
    let held = heap(|h| h.live_bytes());
    if held > 100_000 && seed % 8 != 0 {
        return Ok(());
    }
    let shot = Shot::new(objs);
    if held > 0 {
        cx.mark("read under write protection while holding memory");
    }
    let fault = seed >> 4 & 7 == 0;
    if fault {
        arm_fault([F_EQ | F_CMP | F_HASH, F_FMT, F_CLONE, !F_ALLOC][(seed >> 7) as usize & 3], seed >> 9 & 15);
    }
    let r = {
        let c = &mut *cx;
        seal();
        catch(move || f(c))
    };
    let hit = unseal();
    let injected = disarm_fault();
    if let Some(a) = hit {
        let obj = objs.iter().find(|o| a >= o.0 && a < o.0 + o.1).map(|o| format!("offset {} of the object", a - o.0));
        let what = obj
            .or_else(|| heap(|h| h.find(a)).map(|b| format!("offset {} of a block of {} bytes the container holds", a - b.addr, b.size)))
            .unwrap_or_else(|| "memory beside the container".into());
        crate::fail!(cx, Class::Read, "reading through a shared reference wrote to {what}");
    }
    match r {
        Ok(r) => r?,
        Err(p) if injected && p == INJECTED => {
            cx.leak_ok = true;
            cx.mark("a reader panicked under write protection");
        }
        Err(p) => return Err(Viol { class: Class::Panic, msg: format!("step {}: unexpected panic while reading: {p}", cx.step) }),
    }
    shot.same(cx)
}
pub fn span<T>(x: &T) -> (usize, usize) {
    (x as *const T as usize, std::mem::size_of::<T>())
}

/// where each element was seen last
#[derive(Default)]
pub struct Stay {
    at: HashMap<u32, usize>,
}
impl Stay {
    /// `now` lists (identity, address); those seen before are where they were unless they may have moved
    pub fn see(&mut self, now: Vec<(u32, usize)>, may_move: bool, op: &str, cx: &mut Ctx) -> R {
        if !cx.on(Class::Addr) {
            return Ok(());
        }
        let now: Vec<_> = now.into_iter().filter(|x| x.0 != 0).collect();
        if !may_move && !now.is_empty() {
            let mut kept = 0;
            for (id, a) in &now {
                if let Some(b) = self.at.get(id) {
                    crate::must!(cx, Class::Addr, a == b, "{op} moved an element that stays in the container, from {b:#x} to {a:#x}");
                    kept += 1;
                }
            }
            if kept > 0 && now.len() != self.at.len() {
                cx.mark("elements stayed where they were while others came or went");
            }
        }
        self.at = now.into_iter().collect();
        Ok(())
    }
}
