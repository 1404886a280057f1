#!/usr/bin/env python3
"""C21: generated safe client programs, decided by the compiler, against a model of the borrowing rules; and generated
types, whose thread-safety as the compiler sees it is compared with what their parts allow.

  c21.py check TIER SEED      c21.py replay FILE
"""
import glob, hashlib, json, os, random, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import programs, threads

BUILD = "/verif/.build/clients"
EVID = "/verif/evidence"
BORROW = {"E0381", "E0382", "E0499", "E0502", "E0503", "E0505", "E0506", "E0507", "E0515", "E0521", "E0594", "E0596", "E0597", "E0621",
          "E0700", "E0712", "E0713", "E0716"}
RULE = ("Programs: functions of up to 14 statements over one to three containers, with locals, plain, conditional and repeated blocks, loans of "
        "every kind the API hands out, items, conversions, elements that are references themselves, moves. Non-trivial: it lends something of a "
        "container and uses a container again afterwards. Types: containers nested up to three deep over element, key, value, allocator and comparator types with "
        "every combination of the two markers. Non-trivial: some part lacks a marker. Distinct: by text.")


class Broken(Exception):
    pass


def sources():
    h = hashlib.sha256()
    for f in sorted(glob.glob("/repo/src/**/*.rs", recursive=True)) + ["/repo/Cargo.toml", HERE + "/src/lib.rs"]:
        h.update(f.encode() + b"\0" + open(f, "rb").read())
    return h.hexdigest()


def build(tc):
    """the library and the client crate; returns the arguments that make a program see them"""
    target = f"{BUILD}/{tc}"
    os.makedirs(target, exist_ok=True)
    stamp, now = f"{target}/stamp", sources()
    if not os.path.exists(stamp) or open(stamp).read() != now:
        for d in glob.glob(f"{target}/debug/.fingerprint/eastl-*") + glob.glob(f"{target}/debug/build/eastl-*"):
            shutil.rmtree(d)
    cmd = ["cargo", f"+{tc}", "build", "--offline", "--locked", "--message-format=json", "--manifest-path", f"{HERE}/Cargo.toml"]
    if tc == "nightly":
        cmd += ["--features", "nightly"]
    env = dict(os.environ, CARGO_TARGET_DIR=target)
    r = subprocess.run(cmd, env=env, capture_output=True, text=True)
    if r.returncode:
        raise Broken("build failed:\n" + r.stderr[-3000:])
    open(stamp, "w").write(now)
    libs, dirs = {}, set()
    for line in r.stdout.splitlines():
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact":
            for f in m["filenames"]:
                dirs.add(os.path.dirname(f))
                if f.endswith((".rlib", ".rmeta")) and not libs.get(m["target"]["name"], "").endswith(".rmeta"):
                    libs[m["target"]["name"]] = f
    args = ["rustc", f"+{tc}", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "--error-format", "json", "--cap-lints", "allow"]
    for d in sorted(dirs | {f"{target}/debug/deps"}):
        args += ["-L", f"dependency={d}"]
    for n in ("eastl_clients", "eastl_rs", "moveit"):
        args += ["--extern", f"{n}={libs[n]}"]
    return args


HEAD = "use eastl_clients::*;\nuse std::pin::Pin;"
NIGHTLY_HEAD = "#![allow(incomplete_features)]\n#![feature(generic_const_exprs)]\n"


def source(progs, containers):
    """the text, and the first line of each function"""
    lines, starts = ((NIGHTLY_HEAD if containers is programs.NIGHTLY else "") + HEAD).split("\n"), []
    for i, p in enumerate(progs):
        starts.append(len(lines) + 1)
        lines.append(f"pub fn p{i}() {{")
        lines += programs.text(p, containers, "ClientAlloc")
        lines.append("}")
    return "\n".join(lines) + "\n", starts


def compile_(args, src, starts):
    """the errors of each function"""
    d = tempfile.mkdtemp(prefix="c21-")
    try:
        f = f"{d}/programs.rs"
        open(f, "w").write(src)
        r = subprocess.run(args + ["--out-dir", d, f], capture_output=True, text=True, timeout=600)
    finally:
        shutil.rmtree(d)
    errs = {}
    for line in r.stderr.splitlines():
        try:
            m = json.loads(line)
        except ValueError:
            raise Broken("the compiler said: " + r.stderr[-2000:])
        if m.get("level") not in ("error", "error: internal compiler error"):
            continue
        code = (m.get("code") or {}).get("code")
        spans = [s for s in m["spans"] if s["is_primary"]]
        if not spans:
            if m["message"].startswith("aborting due to"):
                continue
            raise Broken("the compiler said: " + m["message"])
        at = spans[0]["line_start"]
        if at < starts[0]:
            raise Broken("the compiler said: " + m["message"])
        i = max(k for k, s in enumerate(starts) if s <= at)
        errs.setdefault(i, []).append((code, m["message"]))
    if r.returncode and not errs:
        raise Broken("the compiler said: " + r.stderr[-2000:])
    return errs


def judge(errors):
    """accepted, rejected, or neither: an error that is not about borrowing"""
    if not errors:
        return "accepted"
    if all(c in BORROW or (c is None and "lifetime" in m) for c, m in errors):
        return "rejected"
    return "broken"


def run_batch(args, containers, progs):
    src, starts = source(progs, containers)
    errs = compile_(args, src, starts)
    return [(judge(errs.get(i)), errs.get(i, [])) for i in range(len(progs))]


def nontrivial(p, containers):
    kinds = programs.kinds_of(p, containers)
    lent, again = set(), False

    def walk(body):
        nonlocal again
        for s in body:
            if s[0] == "op":
                if s[1] in lent:
                    again = True
                if s[3] and programs.CLASSES[kinds[s[3]][1]].kind != "N":
                    lent.add(s[1])
            elif s[0] == "take" and s[1] in lent:
                again = True
            elif s[0] in ("block", "loop"):
                walk(s[1])
            elif s[0] == "if":
                walk(s[1])
                walk(s[2])
    walk(p["body"])
    return again


def size(p):
    def n(body):
        return sum(1 + (n(s[1]) if s[0] in ("block", "loop") else n(s[1]) + n(s[2]) if s[0] == "if" else 0) for s in body)
    return n(p["body"])


def smaller(p):
    """every program with one statement less, or with a block dissolved into nothing"""
    def variants(body):
        for i, s in enumerate(body):
            yield body[:i] + body[i + 1:]
            if s[0] in ("block", "loop"):
                for b in variants(s[1]):
                    yield body[:i] + [[s[0], b]] + body[i + 1:]
            elif s[0] == "if":
                for b in variants(s[1]):
                    yield body[:i] + [["if", b, s[2]]] + body[i + 1:]
                for b in variants(s[2]):
                    yield body[:i] + [["if", s[1], b]] + body[i + 1:]
    for b in variants(p["body"]):
        q = {"ref": p["ref"], "body": b}
        if well_formed(q):
            yield q


def well_formed(p):
    """everything mentioned is declared"""
    def walk(body, names, stack):
        mine = set()
        stack = stack + [mine]

        def known(n):
            return any(n in m for m in stack)
        for s in body:
            e = {"op": 5, "der": 5, "store": 2}.get(s[0])
            if e and s[e] and s[e][0] != "lit" and not known(s[e][1]):
                return False
            if s[0] in ("op", "der", "use", "store", "copy", "take") and not known(s[1]):
                return False
            if s[0] in ("new", "x"):
                mine.add(s[1])
            for k, b, d in (("op", 3, 4), ("der", 3, 4), ("copy", 2, 3)):
                if s[0] == k and s[b]:
                    if s[d] >= len(stack):
                        return False
                    stack[-1 - s[d]].add(s[b])
            if s[0] in ("block", "loop"):
                if not walk(s[1], names, stack):
                    return False
            elif s[0] == "if":
                if not (walk(s[1], names, stack) and walk(s[2], names, stack)):
                    return False
        return True
    return walk(p["body"], set(), [])


def mismatch(args, containers, p):
    got, errs = run_batch(args, containers, [p])[0]
    ok, why = programs.verdict(p, containers)
    want = wanted(ok)
    return (got != "broken" and want is not None and got != want), got, want, errs, why


def wanted(ok):
    return None if ok is None else "accepted" if ok else "rejected"


def shrink(args, containers, p):
    got0 = mismatch(args, containers, p)[1]
    better = True
    while better:
        better = False
        cands = list(smaller(p))
        for i in range(0, len(cands), 64):
            part = cands[i:i + 64]
            try:
                res = run_batch(args, containers, part)
            except Broken:
                continue
            for q, (got, _) in zip(part, res):
                want = wanted(programs.verdict(q, containers)[0])
                # same direction of disagreement
                if got == got0 and want and got != want:
                    p, better = q, True
                    break
            if better:
                break
    return p


def replay_file(kind, tc, payload, note):
    os.makedirs(f"{EVID}/replays", exist_ok=True)
    text = json.dumps(payload)
    h = hashlib.sha256(text.encode()).hexdigest()[:16]
    f = f"{EVID}/replays/C21-{kind}-{h}.txt"
    with open(f, "w") as o:
        o.write(f"property C21\nbuild clients\nkind {kind}\ntoolchain {tc}\npayload {text}\n\n{note}\n")
    return f


def describe(p, containers, got, want, errs, why):
    src = "\n".join(programs.text(p, containers, "ClientAlloc"))
    return (f"the compiler: {got} {[f'{c}: {m}' for c, m in errs][:3]}\nthe rules: {want} {why[:3]}\n\nfn program() {{\n{src}\n}}")


def check(tier, seed):
    t0 = time.time()
    n_prog, n_type = (50000, 16000) if tier == "quick" else (1200000, 200000)
    violation = None
    stats = {"accepted": 0, "rejected": 0, "undecided": 0}
    per, samples, seen, reasons = {}, [], set(), {}
    evals = nontriv = 0
    parts = [("stable", programs.CONTAINERS, n_prog), ("nightly", programs.NIGHTLY, n_prog // 13)]
    for tc, containers, n in parts:
        args = build(tc)
        batch = 400
        jobs = []

        def job(k, containers=containers, args=args, tc=tc, n=n):
            rng = random.Random(f"{seed}/{tc}/{k}")
            ps = [programs.Gen(rng, containers, rng.randint(2, 14)).program() for _ in range(min(batch, n - k * batch))]
            return ps, run_batch(args, containers, ps)
        with ThreadPoolExecutor(8) as pool:
            for ps, res in pool.map(job, range((n + batch - 1) // batch)):
                for p, (got, errs) in zip(ps, res):
                    evals += 1
                    text = "\n".join(programs.text(p, containers, "ClientAlloc"))
                    ok, why = programs.verdict(p, containers)
                    want = wanted(ok)
                    if got == "broken":
                        raise Broken(f"a program does not compile for a reason other than borrowing: {errs[:2]}\n{text}")
                    if want is None:
                        stats["undecided"] += 1
                        continue
                    if nontrivial(p, containers) and hash(text) not in seen:
                        seen.add(hash(text))
                        nontriv += 1
                        if len(samples) < 14 and nontriv % 37 == 1 and size(p) < 12:
                            samples.append(f"{want}: " + " ".join(text.split()))
                    stats[got] += 1
                    for w in why:
                        w = " ".join(w.split()[1:])
                        reasons[w] = reasons.get(w, 0) + 1
                    for c in {s[2] for s in p["body"] if s[0] == "new"}:
                        per[c] = per.get(c, 0) + 1
                    if want and got != want and violation is None:
                        violation = (tc, containers, args, p)
        if violation:
            break
    rc = 0
    if violation:
        tc, containers, args, p = violation
        p = shrink(args, containers, p)
        _, got, want, errs, why = mismatch(args, containers, p)
        note = describe(p, containers, got, want, errs, why)
        f = replay_file("program", tc, p, note)
        print("C21: " + note)
        print(f"VIOLATION property=C21 replay={f}")
        rc = 1
    types = {"types": 0, "nontrivial": 0, "samples": [], "per": {}}
    if rc == 0:
        types = threads.check(build("stable"), n_type, seed, compile_, Broken)
        for b in types["violations"][:1]:
            f = replay_file("type", "stable", b["payload"], b["note"])
            print("C21: " + b["note"])
            print(f"VIOLATION property=C21 replay={f}")
            rc = 1
    ev = {
        "property": "C21", "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals + types["types"],
            "distinct_nontrivial": nontriv + types["nontrivial"],
            "rule": RULE,
            "samples": samples + types["samples"],
            "programs_accepted": stats["accepted"], "programs_rejected": stats["rejected"], "programs_left_open": stats["undecided"], "generated_types": types["types"],
            "rejection_reasons": reasons, "programs_per_container": per, "types_per_container": types["per"],
        },
        "wall_s": round(time.time() - t0, 2), "violations": rc,
    }
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(f"{EVID}/C21.json", "w"), indent=1, ensure_ascii=False)
    print(f"C21: {evals} programs ({stats['accepted']} accepted, {stats['rejected']} rejected), {types['types']} types, {ev['wall_s']} s")
    return rc


def replay(path):
    d = dict(l.split(" ", 1) for l in open(path).read().split("\n\n")[0].splitlines())
    args = build(d["toolchain"])
    payload = json.loads(d["payload"])
    if d["kind"] == "type":
        bad = threads.replay(args, payload, compile_)
        print(bad or "the recorded case passes")
    else:
        containers = programs.NIGHTLY if d["toolchain"] == "nightly" else programs.CONTAINERS
        bad, got, want, errs, why = mismatch(args, containers, payload)
        print(describe(payload, containers, got, want, errs, why))
    if bad:
        print(f"VIOLATION property=C21 replay={path}")
        return 1
    return 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "check":
            sys.exit(check(sys.argv[2], int(sys.argv[3])))
        elif sys.argv[1] == "setup":
            build("stable")
            build("nightly")
        else:
            sys.exit(replay(sys.argv[2]))
    except Broken as e:
        print(f"ERROR: {e}", file=sys.stderr)
        sys.exit(2)
