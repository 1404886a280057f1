//! Running cases: worker processes, shrinking, replay files, evidence.
use crate::core::*;
use crate::env;
use crate::eng::{self, Subject};
use crate::props::{self, Prop};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

fn quiet_panics(verbose: bool) {
    if !verbose {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

pub fn subjects() -> HashMap<String, Subject> {
    let mut m = HashMap::new();
    for s in eng::all() {
        let old = m.insert(s.name.clone(), s);
        assert!(old.is_none());
    }
    m
}

/// runs one case completely; Some = violation of an enabled class
pub fn run_case(s: &Subject, c: &Case, cx: &mut Ctx) -> Option<Viol> {
    if cx.on(Class::Read) {
        env::arena_on();
    }
    env::world_begin(c.c(0), c.c(1));
    cx.step = 0;
    cx.case_labels.clear();
    cx.nontrivial = false;
    cx.leak_ok = false;
    cx.foreign = false;
    let r = catch(|| (s.run)(c, cx));
    env::disarm_fault();
    let mut res = match r {
        Ok(r) => r,
        Err(p) if p == env::INJECTED => Err(Viol {
            class: Class::Fault,
            msg: format!("step {}: injected panic escaped from an operation that should not call back", cx.step),
        }),
        Err(p) => Err(Viol { class: Class::Panic, msg: format!("step {}: unexpected panic: {p}", cx.step) }),
    };
    if let Err(v) = &mut res {
        // whatever the interface gets wrong on a container changed by C++ breaks the layout
        // property as well
        if cx.foreign && cx.on(Class::Layout) && !cx.on(v.class) {
            v.msg = format!("{} (in a history where C++ changed the memory)", v.msg);
            v.class = Class::Layout;
        }
        if !cx.on(v.class) {
            cx.label("abandoned: failure outside this property");
            if cx.verbose {
                println!("  (outside this property: {:?} {})", v.class, v.msg);
            }
            res = Ok(());
        }
    }
    // element and allocator audit
    let end = env::world_end(cx);
    if res.is_ok() {
        res = end;
    }
    res.err()
}

fn gen_case(p: &Prop, subs: &HashMap<String, Subject>, seed: u64, i: u64, thorough: bool) -> Case {
    let mut r = Rng(mix(mixs(seed, p.id), i));
    let total: u64 = p.subjects.iter().map(|s| s.1 as u64).sum();
    let mut x = r.below(total);
    let mut name = &p.subjects[0].0;
    for (n, w) in &p.subjects {
        if x < *w as u64 {
            name = n;
            break;
        }
        x -= *w as u64;
    }
    let s = subs.get(name).unwrap_or_else(|| panic!("no subject {name}"));
    let long = r.chance(1, if thorough { 2 } else { 5 });
    let mut c = (s.gen)(&mut r, if long { 2 } else { 1 }, p.flags);
    c.subject = name.clone();
    c
}

fn describe(s: &Subject, c: &Case) -> String {
    let mut o = format!("{} cfg={:?} ops=[", c.subject, c.cfg);
    for (i, op) in c.ops.iter().enumerate() {
        if i > 0 {
            o.push_str(", ")
        }
        if i == 24 {
            o += &format!("... {} more", c.ops.len() - i);
            break;
        }
        o += &format!("{}({},{})", s.ops.get(op[0] as usize % s.ops.len().max(1)).unwrap_or(&"?"), op[1], op[2]);
    }
    o.push(']');
    o
}

struct Args(Vec<String>);
impl Args {
    fn get(&self, k: &str) -> Option<&str> {
        self.0.iter().position(|a| a == k).and_then(|i| self.0.get(i + 1)).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

pub fn main() {
    let a = Args(std::env::args().collect());
    let cmd = a.0.get(1).map(|s| s.as_str()).unwrap_or("");
    // cases run on a thread with the default stack size of Rust threads
    match cmd {
        "check" => std::process::exit(check(&a)),
        "worker" => run_big(move || worker(&a)),
        "exec" => run_big(move || exec(&a)),
        "list" => {
            for p in props::all() {
                println!("{} {}", p.id, p.subjects.iter().map(|s| s.0.clone()).collect::<Vec<_>>().join(" "));
            }
        }
        _ => {
            eprintln!("usage: check|exec|list");
            std::process::exit(2)
        }
    }
}
fn run_big(f: impl FnOnce() -> i32 + Send + 'static) {
    // small: no operation may need stack in proportion to the contents
    let h = std::thread::Builder::new().stack_size(if cfg!(feature = "nightly") { 2 << 20 } else { 512 << 10 }).spawn(f).unwrap();
    let rc = h.join().unwrap_or(3);
    std::process::exit(rc)
}

/// bounds on one process, so that runaway recursion, allocation or looping ends in a verdict
fn limits(cpu: u64) {
    unsafe {
        if !cfg!(feature = "asan") {
            let l = libc::rlimit { rlim_cur: 3 << 30, rlim_max: 3 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
        }
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
        if cpu > 0 {
            let l = libc::rlimit { rlim_cur: cpu, rlim_max: cpu + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
        }
    }
}
/// processor seconds after which one case counts as never ending; the slowest ordinary case takes a second or two
const CPU_LIMIT: u64 = 40;
/// processor seconds a process has used
fn cpu_seconds(pid: u32) -> u64 {
    let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default();
    let f: Vec<i64> = s.rsplit(')').next().unwrap_or("").split_whitespace().filter_map(|x| x.parse().ok()).collect();
    // behind the name: state (not a number), ppid, pgrp, session, tty, tpgid, flags, 4 fault counts, utime, stime
    f.get(10..12).map_or(0, |x| (x[0] + x[1]) as u64 / unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as u64)
}

fn find_prop(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no property {id}");
        std::process::exit(2)
    })
}

fn worker(a: &Args) -> i32 {
    limits(0);
    quiet_panics(false);
    let p = find_prop(a.get("--prop").unwrap());
    let seed = a.num("--seed", 1);
    let (w, nw, n) = (a.num("--w", 0), a.num("--nw", 1), a.num("--n", 100));
    let thorough = a.num("--thorough", 0) != 0;
    let out = a.get("--out").unwrap().to_string();
    let subs = subjects();
    let mut cx = Ctx::new(p.classes);
    cx.tier_thorough = thorough;
    let prog = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(format!("{out}.prog")).unwrap();
    let mut fps: HashSet<u64> = HashSet::new();
    let slow = a.num("--slow", 0);
    let mut samples: Vec<String> = Vec::new();
    let mut evals = 0u64;
    let mut per_subject: BTreeMap<String, u64> = BTreeMap::new();
    let mut rc = 0;
    let mut viol = String::new();
    let mut i = w;
    while i < n {
        use std::os::unix::fs::FileExt;
        let _ = prog.write_at(&i.to_le_bytes(), 0);
        let c = gen_case(&p, &subs, seed, i, thorough);
        let s = &subs[&c.subject];
        let t1 = Instant::now();
        let v = run_case(s, &c, &mut cx);
        if slow > 0 && t1.elapsed() > Duration::from_millis(slow) {
            eprintln!("slow {:.2}s case {i} {}", t1.elapsed().as_secs_f64(), describe(s, &c));
        }
        evals += 1;
        *per_subject.entry(c.subject.split('/').next().unwrap_or("").to_string()).or_insert(0) += 1;
        for (k, n) in std::mem::take(&mut cx.case_labels) {
            let _ = n;
            *cx.labels.entry(k).or_insert(0) += 1;
        }
        if cx.nontrivial && fps.insert(c.fingerprint()) && samples.len() < 3 && (fps.len() == 1 || i % 97 == 5) {
            samples.push(describe(s, &c));
        }
        if let Some(v) = v {
            viol = format!("viol {i} {:?} {}\n", v.class, v.msg.replace('\n', " "));
            rc = 10;
            break;
        }
        i += nw;
    }
    let mut o = format!("evals {evals}\nops {}\n", cx.ops_done);
    for (k, v) in &cx.labels {
        o += &format!("label {v} {k}\n");
    }
    for (k, v) in &per_subject {
        o += &format!("subj {v} {k}\n");
    }
    for s in &samples {
        o += &format!("sample {s}\n");
    }
    o += &viol;
    std::fs::write(&out, o).unwrap();
    let mut f = std::fs::File::create(format!("{out}.fp")).unwrap();
    let mut buf = Vec::with_capacity(fps.len() * 8);
    for x in &fps {
        buf.extend_from_slice(&x.to_le_bytes());
    }
    f.write_all(&buf).unwrap();
    rc
}

/// run one case from a file: 0 = held, 10 = violation (message on stdout), signal = crash
fn exec(a: &Args) -> i32 {
    let verbose = a.num("--verbose", 0) != 0;
    limits(CPU_LIMIT);
    quiet_panics(verbose);
    let text = std::fs::read_to_string(a.get("--case").unwrap()).unwrap();
    let id = a
        .get("--prop")
        .map(|s| s.to_string())
        .or_else(|| text.lines().find_map(|l| l.strip_prefix("property ").map(|s| s.trim().to_string())))
        .unwrap();
    let p = find_prop(&id);
    let c = Case::from_text(&text).expect("bad case file");
    let subs = subjects();
    let Some(s) = subs.get(&c.subject) else {
        println!("this build has no subject {}", c.subject);
        return 3;
    };
    let mut cx = Ctx::new(p.classes);
    cx.verbose = verbose;
    if verbose {
        println!("{}", describe(s, &c));
    }
    match run_case(s, &c, &mut cx) {
        Some(v) => {
            println!("viol 0 {:?} {}", v.class, v.msg.replace('\n', " "));
            10
        }
        None => 0,
    }
}

#[derive(Clone, PartialEq, Debug)]
enum Outcome {
    Ok,
    Viol(String, String), // class, msg
    Crash(i32),
    /// used up the processor time of one case, alone in its process
    Endless,
    /// no progress in wall-clock time: no verdict
    Hang,
    Other(i32),
}
impl Outcome {
    fn same(&self, o: &Outcome) -> bool {
        match (self, o) {
            (Outcome::Viol(a, _), Outcome::Viol(b, _)) => a == b,
            (Outcome::Crash(_), Outcome::Crash(_)) => true,
            _ => false,
        }
    }
    fn msg(&self) -> String {
        match self {
            Outcome::Viol(c, m) => format!("[{c}] {m}"),
            Outcome::Crash(s) => format!("process killed by signal {s} (memory corruption, stack overflow or abort)"),
            Outcome::Endless => format!("does not end: {CPU_LIMIT} s of processor time used by this case alone, twice"),
            o => format!("{o:?}"),
        }
    }
}
fn wait_limit(mut ch: std::process::Child, limit: Duration) -> (Option<std::process::ExitStatus>, String) {
    let t = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                let mut o = String::new();
                if let Some(mut so) = ch.stdout.take() {
                    let mut b = Vec::new();
                    let _ = so.read_to_end(&mut b);
                    o = String::from_utf8_lossy(&b).into_owned();
                }
                return (Some(st), o);
            }
            _ => {
                if t.elapsed() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return (None, String::new());
                }
                let e = t.elapsed().as_millis();
                std::thread::sleep(Duration::from_micros(if e < 20 { 300 } else { 5000 }));
            }
        }
    }
}
fn classify(st: Option<std::process::ExitStatus>, out: &str) -> Outcome {
    let Some(st) = st else { return Outcome::Hang };
    if let Some(sig) = st.signal() {
        if sig == libc::SIGXCPU {
            return Outcome::Endless;
        }
        return Outcome::Crash(sig);
    }
    match st.code() {
        Some(0) => Outcome::Ok,
        Some(10) => {
            let l = out.lines().find(|l| l.starts_with("viol ")).unwrap_or("viol 0 ? ?");
            let mut it = l.splitn(4, ' ');
            it.next();
            it.next();
            let c = it.next().unwrap_or("?").to_string();
            Outcome::Viol(c, it.next().unwrap_or("").to_string())
        }
        // address sanitizer
        Some(86) => Outcome::Crash(86),
        Some(c) => Outcome::Other(c),
        None => Outcome::Other(-1),
    }
}
fn try_case(exe: &std::path::Path, prop: &str, c: &Case, tmp: &str, wall: u64) -> Outcome {
    std::fs::write(tmp, c.to_text()).unwrap();
    let ch = Command::new(exe)
        .args(["exec", "--prop", prop, "--case", tmp])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let (st, out) = wait_limit(ch, Duration::from_secs(wall));
    classify(st, &out)
}

fn shrink(exe: &std::path::Path, prop: &str, c0: Case, want: &Outcome, tmp: &str) -> (Case, Outcome) {
    let mut best = c0;
    let mut bo = want.clone();
    let t0 = Instant::now();
    let mut tries = 0;
    let limit = |tries: u32| tries > 1500 || t0.elapsed() > Duration::from_secs(40);
    let mut test = |c: &Case, tries: &mut u32| -> Option<Outcome> {
        *tries += 1;
        let o = try_case(exe, prop, c, tmp, 8);
        if o.same(want) {
            Some(o)
        } else {
            None
        }
    };
    loop {
        let before = best.clone();
        // remove chunks of operations
        let mut k = (best.ops.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.ops.len() && !limit(tries) {
                let mut c = best.clone();
                let e = (i + k).min(c.ops.len());
                c.ops.drain(i..e);
                if let Some(o) = test(&c, &mut tries) {
                    best = c;
                    bo = o;
                } else {
                    i += k;
                }
            }
            if k == 1 || limit(tries) {
                break;
            }
            k /= 2;
        }
        // shrink numbers
        let nops = best.ops.len();
        for i in 0..nops {
            for j in 1..4 {
                let v = best.ops[i][j];
                for nv in [0, 1, v / 16, v / 2, v.saturating_sub(1)] {
                    if nv >= best.ops[i][j] || limit(tries) {
                        continue;
                    }
                    let mut c = best.clone();
                    c.ops[i][j] = nv;
                    if let Some(o) = test(&c, &mut tries) {
                        best = c;
                        bo = o;
                    }
                }
            }
        }
        for i in 0..best.cfg.len() {
            let v = best.cfg[i];
            for nv in [0, 1, v / 2, v.saturating_sub(1)] {
                if nv >= best.cfg[i] || limit(tries) {
                    continue;
                }
                let mut c = best.clone();
                c.cfg[i] = nv;
                if let Some(o) = test(&c, &mut tries) {
                    best = c;
                    bo = o;
                }
            }
        }
        if best == before || limit(tries) {
            return (best, bo);
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn check(a: &Args) -> i32 {
    let t0 = Instant::now();
    let id = a.get("--prop").unwrap().to_string();
    let p = find_prop(&id);
    let seed = a.num("--seed", 1);
    let thorough = a.get("--tier") == Some("thorough");
    let mut n = if thorough { p.thorough } else { p.quick };
    let per = a.num("--percent", 100);
    n = (n * per / 100).max(1);
    if let Some(v) = a.get("--cases") {
        n = v.parse().unwrap();
    }
    let part = a.get("--part").unwrap_or("main").to_string();
    let nw = a.num("--workers", 8);
    let dir = a.get("--dir").unwrap_or("/verif/evidence").to_string();
    let tmp = format!("{dir}/tmp-{id}-{part}-{}", std::process::id());
    std::fs::create_dir_all(&tmp).unwrap();
    let exe = std::env::current_exe().unwrap();
    // worker `w` of `nw`, beginning with case `from`
    let spawn = |w: u64, from: u64| {
        Command::new(&exe)
            .args(["worker", "--prop", &id, "--seed", &seed.to_string(), "--w", &from.to_string(), "--nw", &nw.to_string()])
            .args(["--n", &n.to_string(), "--thorough", if thorough { "1" } else { "0" }, "--out", &format!("{tmp}/w{w}")])
            .stdout(Stdio::null())
            .stderr(std::fs::File::create(format!("{tmp}/w{w}.err")).unwrap())
            .spawn()
            .unwrap()
    };
    let mut ch: Vec<_> = (0..nw).map(|w| Some(spawn(w, w))).collect();
    let mut status: Vec<Option<Outcome>> = vec![None; nw as usize];
    let mut last: Vec<(Vec<u8>, Instant, u64)> = vec![(Vec::new(), Instant::now(), 0); nw as usize];
    let mut bad = None;
    let mut respawns = 0;
    while status.iter().any(|s| s.is_none()) && bad.is_none() {
        std::thread::sleep(Duration::from_millis(15));
        for w in 0..nw as usize {
            let Some(c) = ch[w].as_mut() else { continue };
            let mut o = None;
            if let Ok(Some(st)) = c.try_wait() {
                let out = std::fs::read_to_string(format!("{tmp}/w{w}")).unwrap_or_default();
                o = Some(classify(Some(st), &out));
            } else {
                let pr = std::fs::read(format!("{tmp}/w{w}.prog")).unwrap_or_default();
                if pr != last[w].0 {
                    last[w] = (pr, Instant::now(), cpu_seconds(c.id()));
                } else if last[w].1.elapsed() > Duration::from_secs(CPU_LIMIT)
                    && (cpu_seconds(c.id()) > last[w].2 + CPU_LIMIT || last[w].1.elapsed() > Duration::from_secs(300))
                {
                    let _ = c.kill();
                    let _ = c.wait();
                    o = Some(Outcome::Hang);
                }
            }
            let Some(o) = o else { continue };
            ch[w] = None;
            // a worker that ran out of time or memory goes on behind the case if the case alone does not
            let at = last[w].0.get(..8).map(|b| u64::from_le_bytes(b.try_into().unwrap()));
            if let (Outcome::Hang | Outcome::Crash(9), Some(i), true) = (&o, at, respawns < 4) {
                let c = gen_case(&p, &subjects(), seed, i, thorough);
                if try_case(&exe, &id, &c, &format!("{tmp}/case"), 300) == Outcome::Ok {
                    respawns += 1;
                    println!("{id}: worker {w} was restarted behind case {i} ({o:?}), which passes alone");
                    last[w] = (Vec::new(), Instant::now(), 0);
                    ch[w] = Some(spawn(w as u64, i + nw));
                    continue;
                }
            }
            if o != Outcome::Ok {
                bad = Some((w, o.clone()));
            }
            status[w] = Some(o);
        }
    }
    for c in ch.iter_mut().flatten() {
        let _ = c.kill();
        let _ = c.wait();
    }
    // aggregate
    let mut evals = 0u64;
    let mut ops = 0u64;
    let mut labels: BTreeMap<String, u64> = BTreeMap::new();
    let mut subj: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    let mut fps: HashSet<u64> = HashSet::new();
    for w in 0..nw {
        let t = std::fs::read_to_string(format!("{tmp}/w{w}")).unwrap_or_default();
        for l in t.lines() {
            let mut it = l.splitn(3, ' ');
            match it.next() {
                Some("evals") => evals += it.next().unwrap_or("0").parse::<u64>().unwrap_or(0),
                Some("ops") => ops += it.next().unwrap_or("0").parse::<u64>().unwrap_or(0),
                Some("label") => {
                    let k: u64 = it.next().unwrap_or("0").parse().unwrap_or(0);
                    *labels.entry(it.next().unwrap_or("").into()).or_insert(0) += k;
                }
                Some("subj") => {
                    let k: u64 = it.next().unwrap_or("0").parse().unwrap_or(0);
                    *subj.entry(it.next().unwrap_or("").into()).or_insert(0) += k;
                }
                Some("sample") if samples.len() < 12 => samples.push(l[7..].to_string()),
                _ => {}
            }
        }
        if let Ok(b) = std::fs::read(format!("{tmp}/w{w}.fp")) {
            for c in b.chunks_exact(8) {
                fps.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let mut rc = 0;
    let mut viols = 0;
    if let Some((w, o)) = bad {
        let subs = subjects();
        let idx = std::fs::read(format!("{tmp}/w{w}.prog"))
            .ok()
            .filter(|b| b.len() >= 8)
            .map(|b| u64::from_le_bytes(b[..8].try_into().unwrap()));
        match (&o, idx) {
            (Outcome::Viol(..) | Outcome::Crash(_) | Outcome::Hang, Some(i)) => {
                let c = gen_case(&p, &subs, seed, i, thorough);
                let ctmp = format!("{tmp}/case");
                let mut again = try_case(&exe, &id, &c, &ctmp, 300);
                if again == Outcome::Endless {
                    again = try_case(&exe, &id, &c, &ctmp, 300);
                }
                let (c, again) = match &again {
                    Outcome::Viol(..) | Outcome::Crash(_) => {
                        let (c, o2) = shrink(&exe, &id, c, &again, &ctmp);
                        (c, Some(o2))
                    }
                    Outcome::Endless => (c, Some(again)),
                    _ => (c, None),
                };
                if again.is_none() && matches!(o, Outcome::Crash(9) | Outcome::Hang) {
                    println!("ERROR property={id}: worker {w}: {o:?} at case {i} (out of memory, or no progress)");
                    rc = 2;
                } else {
                    let msg = again.clone().unwrap_or(o.clone()).msg();
                    let rdir = format!("{dir}/replays");
                    std::fs::create_dir_all(&rdir).unwrap();
                    let path = format!("{rdir}/{id}-{part}-{:016x}.txt", c.fingerprint());
                    let s = &subs[&c.subject];
                    let text = format!(
                        "property {id}\nbuild {part}\n{}# {}\n# {msg}\n# seed {seed} case {i}{}\n# replay: bash /verif/run.sh replay {path}\n",
                        c.to_text(),
                        describe(s, &c),
                        if again.is_none() { " (did not reproduce alone)" } else { "" }
                    );
                    std::fs::write(&path, text).unwrap();
                    println!("{id}: {msg}");
                    println!("{id}: {}", describe(s, &c));
                    println!("VIOLATION property={id} replay={path}");
                    viols = 1;
                    rc = 1;
                }
            }
            _ => {
                println!("ERROR property={id}: worker {w}: {o:?} at case {idx:?}");
                if let Ok(e) = std::fs::read_to_string(format!("{tmp}/w{w}.err")) {
                    println!("{}", e.chars().take(2000).collect::<String>());
                }
                rc = 2;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    // evidence of this part
    let wall = t0.elapsed().as_secs_f64();
    let lab: Vec<String> = labels.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
    let sb: Vec<String> = subj.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect();
    let sm: Vec<String> = samples.iter().map(|s| js(s)).collect();
    let ev = format!(
        "{{\"part\": {}, \"property\": {}, \"tier\": {}, \"seed\": {seed}, \"evaluations\": {evals}, \"distinct_nontrivial\": {}, \"operations\": {ops}, \"rule\": {}, \"samples\": [{}], \"cases_reaching\": {{{}}}, \"cases_per_container\": {{{}}}, \"wall_s\": {wall:.2}, \"violations\": {viols}}}\n",
        js(&part), js(&id), js(if thorough { "thorough" } else { "quick" }), fps.len(), js(&props::rule(&p)), sm.join(", "), lab.join(", "), sb.join(", ")
    );
    if let Some(f) = a.get("--evidence") {
        std::fs::write(f, ev).unwrap();
    }
    println!("{id} [{part}]: {evals} cases, {} distinct non-trivial, {ops} operations, {wall:.1} s, rc {rc}", fps.len());
    rc
}
