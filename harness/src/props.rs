//! Which engines and oracle classes decide each property.
use crate::core::Class;
use crate::eng::{FL_ALLOC, FL_FAULT, FL_FOREIGN, FL_REHASH};

pub struct Prop {
    pub id: &'static str,
    pub subjects: Vec<(String, u32)>,
    pub classes: u32,
    pub flags: u32,
    pub quick: u64,
    pub thorough: u64,
}
fn cls(c: &[Class]) -> u32 {
    c.iter().fold(Class::Panic as u32, |a, b| a | *b as u32)
}
fn fam(prefixes: &[(&str, u32)]) -> Vec<(String, u32)> {
    let mut v = Vec::new();
    for (p, w) in prefixes {
        let n = v.len();
        for s in crate::eng::all().iter() {
            if s.name.starts_with(p) {
                v.push((s.name.clone(), *w));
            }
        }
        assert!(v.len() > n, "no subject {p}");
    }
    v
}
/// how cases are made and what makes one non-trivial, for the evidence
pub fn rule(p: &Prop) -> String {
    let what = match p.id {
        "C17" => "A case is a batch of 1 to 16 hash evaluations: integers of every width drawn around powers of two with both signs, booleans, floats built from bit patterns, texts (every UTF-8 width) and C strings of arbitrary non-zero bytes at varying addresses, and strings hashed after random edits. Non-trivial: it evaluates at least one number, text or edited string against the bit-level definition",
        "C20" => "A case is a history of 1 to 10 constructions, reservations, growths, hinted collections and allocator requests whose sizes are drawn around the places where size arithmetic wraps (2^64/size, 2^63/size, 2^64 minus the capacity or length, powers of two, the allocator's limit), or a random history of any container in which the allocator refuses a request. Non-trivial: at least one request was refused (by a panic or the allocation-failure abort) or a refused allocation unwound through an operation",
        "C16" => "A case is a random operation history after which iterators at random positions are converted to their C++ form, read and advanced by C++ rules, and converted back. Non-trivial: it reached at least one of the situations listed in cases_reaching that the engine marks (iterator split at a position, block boundary, empty container, end position)",
        "C15" => "A case is a red-black tree built by a C++ style builder (insertions, erasures, relinking and rebuilds in random shapes within the red-black depth bound) with random read, mutate, iterate and clear operations. Non-trivial: the engine marked at least one listed situation (iteration over at least a few pairs, lookups hit, clear or drop of a built tree)",
        "C22" => "A case is a history of bulk steps (append, insert, look up, remove, drift, churn, up to tens of thousands of elements per step) over one container with counted call-backs and memory requests, a large container lived through on a thread with little stack, or a random history of a keyed container in which the comparisons of every lookup are counted. Non-trivial: the engine marked at least one listed situation",
        "C23" => "A case is a random operation history; after every step the container's memory is write protected, everything that works through a shared reference is run over it (with injected panics in some), the answers are compared with the reference and the memory with what it was. Non-trivial: the engine marked at least one listed situation",
        "C24" => "A case is a random operation history of a node or block container; after every step the address of every element is compared with where that element was seen before. Non-trivial: the engine marked at least one listed situation",
        "C25" => "A case is a random operation history of any container in an optimised build and in a debug build, or a random sequence of pairs, loops and drains of operations compiled into one function over one container, compared with a reference after every step. Non-trivial: the engine marked at least one listed situation",
        "C19" => "A case is a random operation history with panics injected at random call-back positions (clone, comparison, hash, source iterator, closure, element destructor). Non-trivial: at least one injected panic unwound through an operation, or another listed situation was reached",
        "C13" => "A case is a random operation history interleaved with C++ style edits of the raw memory; after every step the raw memory is walked by C++ rules. Non-trivial: at least one listed situation (growth, foreign edit, removal, block boundary, ...) was reached",
        _ => "A case is a random operation history (random subset and weights of operations per phase, bursts, arguments mostly small and sometimes large) over a random container type, element type and allocator, compared with a reference after every step. Non-trivial: the history reached at least one situation the engine marks as interesting (listed with the number of cases reaching it under cases_reaching: growth, exactly full, removal from the middle, block hand-over, collision chain, overflow, ...)",
    };
    format!("{what}. Distinct: by a 64-bit fingerprint of the whole case.")
}
const ALL: &[(&str, u32)] = &[
    ("vec/", 10), ("deque/", 10), ("queue/", 6), ("list/", 8), ("flist/", 8), ("hmap", 9), ("hset", 9), ("vmap", 8), ("string/", 24), ("map/", 8), ("set/", 8),
    ("fmap", 8), ("fvec/", 8), ("alloc/", 8),
    #[cfg(feature = "nightly")]
    ("cflist/", 8),
];
const FIXED: &[(&str, u32)] = &[
    ("flist/", 1), ("fmap", 1), ("fvec/", 1),
    #[cfg(feature = "nightly")]
    ("cflist/", 1),
];
const ALL_C: &[(&str, u32)] = &[
    ("vec/", 8), ("deque/", 9), ("queue/", 6), ("list/", 8), ("flist/", 6), ("hmap", 9), ("hset", 9), ("vmap", 8), ("string/", 24), ("map/", 8), ("set/", 8),
    ("fmap", 6), ("fvec/", 6),
    #[cfg(feature = "nightly")]
    ("cflist/", 6),
];
/// containers whose elements stay where they are
const NODES: &[(&str, u32)] = &[
    ("deque/", 3), ("queue/", 3), ("list/", 3), ("flist/", 2), ("hmap", 2), ("hset", 2),
    #[cfg(feature = "nightly")]
    ("cflist/", 2),
];
const LISTS: &[(&str, u32)] = &[
    ("list/", 1), ("flist/", 1),
    #[cfg(feature = "nightly")]
    ("cflist/", 1),
];
pub fn all() -> Vec<Prop> {
    use Class::*;
    let mk = |id, f: &[(&str, u32)], c: &[Class], flags, quick, thorough| Prop { id, subjects: fam(f), classes: cls(c), flags, quick, thorough };
    let mut refuse = vec![("cap/", 150)];
    refuse.extend(ALL.iter().filter(|x| x.0 != "alloc/").map(|x| (x.0, x.1 * 60)));
    let mut v = vec![
        mk("C01", &[("vec/", 1)], &[Model], 0, 3_000_000, 60_000_000),
        mk("C02", &[("deque/", 1)], &[Model], 0, 2_000_000, 40_000_000),
        mk("C03", &[("queue/", 1)], &[Model], 0, 1_300_000, 40_000_000),
        mk("C04", LISTS, &[Model], 0, 2_500_000, 50_000_000),
        mk("C05", &[("hmap", 1)], &[Model], 0, 600_000, 10_000_000),
        mk("C06", &[("hset", 1)], &[Model], 0, 300_000, 10_000_000),
        mk("C07", &[("vmap", 1)], &[Model], 0, 2_500_000, 40_000_000),
        mk("C08", &[("string/", 1)], &[Text], 0, 4_000_000, 30_000_000),
        mk("C09", &[("string/", 1)], &[Nul, Alloc], 0, 4_000_000, 30_000_000),
        mk("C10", ALL, &[Own], 0, 220_000, 10_000_000),
        mk("C11", ALL, &[Alloc], 0, 1_200_000, 8_000_000),
        mk("C12", FIXED, &[Fixed], 0, 2_000_000, 40_000_000),
        mk("C13", ALL, &[Layout], FL_FOREIGN, 500_000, 5_000_000),
        mk("C14", &[("hmap", 1), ("hset", 1)], &[Struct], FL_REHASH, 260_000, 6_000_000),
        mk("C15", &[("map/", 1), ("set/", 1), ("fmap", 1)], &[Model], 0, 1_500_000, 30_000_000),
        mk("C16", &[("deque/", 1), ("hmap", 1), ("hset", 1)], &[Compat], 0, 700_000, 12_000_000),
        mk("C17", &[("hashfn", 1)], &[HashFn], 0, 9_000_000, 60_000_000),
        mk("C18", &[("fvec/", 1)], &[Model], 0, 3_500_000, 50_000_000),
        mk("C19", ALL, &[Fault, Own, Alloc], FL_FAULT, 600_000, 6_000_000),
        mk("C22", &[("cost/", 6), ("vmap", 8), ("hmap", 3), ("hset", 3), ("map/", 5), ("set/", 5), ("fmap", 5)], &[Cost], 0, 300_000, 6_000_000),
        mk("C23", ALL_C, &[Read], 0, 300_000, 8_000_000),
        mk("C24", NODES, &[Addr], 0, 1_000_000, 20_000_000),
        mk("C20", &refuse, &[Cap, Fault, Own, Alloc], FL_FAULT | FL_ALLOC, 220_000, 1_500_000),
    ];
    let mut whole = vec![("hashfn", 2)];
    #[cfg(feature = "fused")]
    whole.push(("fused/", 40));
    whole.extend(ALL);
    v.push(mk("C25", &whole, &[Model, Own, Alloc, Layout, Fixed, Struct, Nul, Compat, HashFn, Text], 0, 2_000_000, 20_000_000));
    v.sort_by_key(|p| p.id);
    v
}
