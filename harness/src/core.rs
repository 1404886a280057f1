//! Cases, deterministic random numbers, violations and bookkeeping shared by all engines.
use std::cell::RefCell;
use std::collections::BTreeMap;

/// What kind of oracle noticed a failure. A property enables the classes that belong to its statement.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u32)]
pub enum Class {
    /// disagreement with the ideal reference model through the public API
    Model = 1,
    /// element life cycle (double / missing / bogus destruction, dead reads)
    Own = 2,
    /// allocator discipline
    Alloc = 4,
    /// raw memory as seen by a C++ view
    Layout = 8,
    /// in-place storage of fixed containers
    Fixed = 16,
    /// hash table bucket structure and growth schedule
    Struct = 32,
    /// NUL terminator of strings
    Nul = 64,
    /// compatibility iterators
    Compat = 128,
    /// built-in hash values
    HashFn = 256,
    /// validity after an injected panic
    Fault = 512,
    /// oversized requests
    Cap = 1024,
    /// UTF-8 validity / text content
    Text = 2048,
    /// panic that the API contract does not allow
    Panic = 4096,
    /// comparisons, hashes, requests for memory and memory held
    Cost = 8192,
    /// memory under shared references
    Read = 16384,
    /// addresses of elements that stay
    Addr = 32768,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: Class,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Viol>;

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Case {
    pub subject: String,
    pub cfg: Vec<u32>,
    pub ops: Vec<[u32; 4]>,
}

impl Case {
    pub fn to_text(&self) -> String {
        let mut s = format!("subject {}\ncfg", self.subject);
        for c in &self.cfg {
            s += &format!(" {c}");
        }
        s.push('\n');
        for o in &self.ops {
            s += &format!("op {} {} {} {}\n", o[0], o[1], o[2], o[3]);
        }
        s
    }
    pub fn from_text(t: &str) -> Option<Case> {
        let mut c = Case::default();
        for l in t.lines() {
            let mut it = l.split_whitespace();
            match it.next() {
                Some("subject") => c.subject = it.next()?.to_string(),
                Some("cfg") => c.cfg = it.map(|x| x.parse().unwrap_or(0)).collect(),
                Some("op") => {
                    let mut o = [0u32; 4];
                    for (i, x) in it.take(4).enumerate() {
                        o[i] = x.parse().ok()?;
                    }
                    c.ops.push(o)
                }
                _ => {}
            }
        }
        if c.subject.is_empty() {
            None
        } else {
            Some(c)
        }
    }
    pub fn c(&self, i: usize) -> u32 {
        self.cfg.get(i).copied().unwrap_or(0)
    }
    pub fn fingerprint(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut put = |x: u64| {
            h = (h ^ x).wrapping_mul(0x100000001b3).rotate_left(23) ^ (x << 7);
        };
        for b in self.subject.bytes() {
            put(b as u64)
        }
        for c in &self.cfg {
            put(*c as u64)
        }
        for o in &self.ops {
            for x in o {
                put(*x as u64)
            }
        }
        h
    }
}

/// SplitMix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn u(&mut self, n: u32) -> u32 {
        self.below(n as u64) as u32
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.u(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.u(den) < num
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.below(s.len() as u64) as usize]
    }
    pub fn r32(&mut self) -> u32 {
        self.next() as u32
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a ^ b.wrapping_mul(0xD6E8FEB86659FD93));
    r.next() ^ r.next().rotate_left(17)
}
pub fn mixs(a: u64, s: &str) -> u64 {
    s.bytes().fold(a, |h, b| mix(h, b as u64 + 1))
}

/// Operation history generator: a random subset of operations, random weights, phases and bursts (swarm testing).
pub struct OpGen<'w> {
    /// default weight of every opcode
    pub weights: &'w [u32],
}
impl<'w> OpGen<'w> {
    pub fn gen(&self, r: &mut Rng, max_ops: u32) -> Vec<[u32; 4]> {
        let n = match r.u(8) {
            0 => r.range(1, 8),
            1..=3 => r.range(4, 30.min(max_ops).max(5)),
            4..=6 => r.range(10, max_ops.max(11)),
            _ => r.range(max_ops / 2 + 1, max_ops * 2 + 2),
        };
        let mut ops = Vec::new();
        let mut w: Vec<u32> = Vec::new();
        let mut total = 0u32;
        let mut phase_left = 0;
        while (ops.len() as u32) < n {
            if phase_left == 0 {
                phase_left = if r.chance(1, 3) { n } else { r.range(3, 40) };
                w = self
                    .weights
                    .iter()
                    .map(|&x| {
                        if x == 0 {
                            0
                        } else {
                            match r.u(6) {
                                0 => 0,
                                1 => x * 6,
                                2 => (x + 2) / 3,
                                _ => x,
                            }
                        }
                    })
                    .collect();
                total = w.iter().sum();
                if total == 0 {
                    w = self.weights.to_vec();
                    total = w.iter().sum();
                }
            }
            phase_left -= 1;
            let mut x = r.u(total);
            let mut code = 0;
            for (i, &wi) in w.iter().enumerate() {
                if x < wi {
                    code = i as u32;
                    break;
                }
                x -= wi;
            }
            let a = arg(r);
            let b = arg(r);
            let c = r.r32();
            if r.chance(1, 12) {
                let k = r.range(2, 12);
                for j in 0..k {
                    ops.push([code, a.wrapping_add(j), b, c.wrapping_add(j * 0x9E37)]);
                }
            } else {
                ops.push([code, a, b, c]);
            }
        }
        ops
    }
}
/// arguments: mostly small, sometimes large
pub fn arg(r: &mut Rng) -> u32 {
    match r.u(10) {
        0..=4 => r.u(16),
        5..=7 => r.u(300),
        8 => r.u(70000),
        _ => r.r32(),
    }
}

// ---------------------------------------------------------------------------------------------
// per-case context

pub struct Ctx {
    pub verbose: bool,
    pub labels: BTreeMap<&'static str, u64>,
    pub case_labels: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    pub step: usize,
    pub ops_done: u64,
    /// violation of a class that is not enabled for the running property was seen (case abandoned)
    pub enabled: u32,
    pub tier_thorough: bool,
    /// set once an injected panic hit: elements may legitimately leak
    pub leak_ok: bool,
    /// a destructor panicked: blocks may be lost from here on
    pub lost: bool,
    /// C++ changed the memory of a container in this case
    pub foreign: bool,
}
impl Ctx {
    pub fn new(enabled: u32) -> Self {
        Ctx {
            verbose: false,
            labels: BTreeMap::new(),
            case_labels: BTreeMap::new(),
            nontrivial: false,
            step: 0,
            ops_done: 0,
            enabled,
            tier_thorough: false,
            leak_ok: false,
            lost: false,
            foreign: false,
        }
    }
    pub fn on(&self, c: Class) -> bool {
        self.enabled & c as u32 != 0
    }
    /// an interesting situation was reached; makes the case non-trivial
    pub fn mark(&mut self, l: &'static str) {
        *self.case_labels.entry(l).or_insert(0) += 1;
        self.nontrivial = true;
    }
    /// plain classification
    pub fn label(&mut self, l: &'static str) {
        *self.case_labels.entry(l).or_insert(0) += 1;
    }
    pub fn note(&self, f: impl FnOnce() -> String) {
        if self.verbose {
            println!("  #{:<3} {}", self.step, f());
        }
    }
    /// report anything recorded by call-backs (element destructors, the allocator)
    pub fn poll(&self) -> R {
        let mut out = Ok(());
        PENDING.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_empty() {
                return;
            }
            // prefer a failure of an enabled class
            let i = p
                .iter()
                .position(|v| self.enabled & v.class as u32 != 0)
                .unwrap_or(usize::MAX);
            if i != usize::MAX {
                out = Err(p[i].clone());
            }
            p.clear();
        });
        out
    }
}

#[macro_export]
macro_rules! fail {
    ($cx:expr, $class:expr, $($t:tt)*) => {
        return Err($crate::core::Viol { class: $class, msg: format!("step {}: {}", $cx.step, format!($($t)*)) })
    };
}
/// fails only when the class belongs to the running property; otherwise the check is skipped
#[macro_export]
macro_rules! chk {
    ($cx:expr, $class:expr, $cond:expr, $($t:tt)*) => {
        if $cx.on($class) && !$cond { $crate::fail!($cx, $class, $($t)*) }
    };
}
/// model checks: on failure the case ends (reported if enabled, abandoned otherwise)
#[macro_export]
macro_rules! must {
    ($cx:expr, $class:expr, $cond:expr, $($t:tt)*) => {
        if !$cond { $crate::fail!($cx, $class, $($t)*) }
    };
}

thread_local! {
    pub static PENDING: RefCell<Vec<Viol>> = const { RefCell::new(Vec::new()) };
}
pub fn pend(class: Class, msg: String) {
    PENDING.with(|p| {
        if let Ok(mut p) = p.try_borrow_mut() {
            if p.len() < 64 {
                p.push(Viol { class, msg })
            }
        }
    })
}

/// runs `f`, returning Err(message) if it panicked
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(e) => Err(if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        }),
    }
}
