"""Generated container types: which of them the compiler lets cross threads, against what their parts allow; and what the
API hands out: which results cross threads, and which exclusive ones can be duplicated.

A type is a tree. Whether it may be sent or shared follows from what it owns: elements, keys, allocator, a comparator held by value
(hash functions are never instantiated). A shared loan of a container may be sent or shared only if its elements may be shared; an
exclusive one as far as its elements may themselves.
"""
import json, random
import programs

R = "eastl_rs::"
# name: (text, owned parts, others, always so when the parts are)
#   parts: T an element, K a key or set element, V a value, A allocator, C comparator, H E hash functions
OWNERS = {
    "vector": (R + "Vector<{T}, {A}>", "TA", True),
    "deque": (R + "Deque<'static, {T}, {A}>", "TA", True),
    "queue": (R + "Queue<'static, {T}, {A}>", "TA", True),
    "string": (R + "String<{A}>", "A", True),
    "hmap": (R + "HashMap<{K}, {V}, {A}, {H}, {G}>", "KVA", True),
    "hset": (R + "HashSet<{K}, {A}, {H}, {G}>", "KA", True),
    "vmap": (R + "VectorMap<{K}, {V}, {A}, {C}>", "KVAC", True),
    "map": (R + "Map<{K}, {V}, {A}, {C}>", "KVAC", True),
    "set": (R + "Set<{K}, {A}, {C}>", "KAC", False),
    "list": (R + "List<{T}, {A}>", "TA", False),
    "flist": (R + "FixedList<{T}, 2, {A}>", "TA", False),
    "fvec": (R + "fixed_vector::FixedVector<{T}, 2, {A}>", "TA", True),
    "fmap": (R + "FixedMapWithOverflow<{K}, {V}, 2, {A}, {C}>", "KVAC", False),
    "fmap0": (R + "FixedMap<{K}, {V}, 2, {C}>", "KVC", False),
    "vinto": ("<" + R + "Vector<{T}, {A}> as IntoIterator>::IntoIter", "TA", False),
    "dinto": ("<" + R + "Deque<'static, {T}, {A}> as IntoIterator>::IntoIter", "TA", False),
    "qinto": ("<" + R + "Queue<'static, {T}, {A}> as IntoIterator>::IntoIter", "TA", False),
}
# loans: (text, parts, exclusive, may be duplicated)
LOANS = {
    "diter": (R + "deque::iter::Iter<'static, {T}>", "T", False),
    "dcompat": (R + "deque::iter::CompatIter<'static, {T}>", "T", False),
    "hiter": (R + "hash_map::iter::Iter<'static, {K}, {V}>", "KV", False),
    "kiter": (R + "hash_set::iter::Iter<'static, {K}>", "K", False),
    "diterm": (R + "deque::iter::IterMut<'static, {T}>", "T", True),
    "hiterm": (R + "hash_map::iter::IterMut<'static, {K}, {V}>", "KV", True),
    "hentry": (R + "hash_map::entry::Entry<'static, {K}, {V}, {A}, {H}, {G}>", "KVA", True),
    "ventry": (R + "vector_map::Entry<'static, {K}, {V}, {A}, {C}>", "KVAC", True),
    "vvac": (R + "vector_map::VacantEntry<'static, {K}, {V}, {A}, {C}>", "KVAC", True),
    "vocc": (R + "vector_map::OccupiedEntry<'static, {K}, {V}>", "KV", True),
}
# compatibility iterators are C++'s: what is unsafe about them is using them, not holding two
B = ("false", "true")


def marks(r):
    # mostly both, or a deep type would never have a marker
    return (r.random() < 0.8, r.random() < 0.8)


def leaf(r, kind):
    s, y = marks(r)
    return (f"{kind}<{B[s]}, {B[y]}>", s, y, None, False)


def gen(r, depth, key=False):
    """(text, may be sent, may be shared, name, always)"""
    if key:
        # a key is compared: strings are the only containers that are
        return leaf(r, "El") if r.random() < 0.8 else owner(r, 0, "string")
    if depth == 0 or r.random() < 0.3:
        return leaf(r, "El")
    return owner(r, depth)


def parts(r, depth, text):
    p = {}
    for k in "TKVACHG":
        if "{" + k + "}" in text:
            if k in "TV":
                p[k] = gen(r, depth - 1)
            elif k == "K":
                p[k] = gen(r, depth - 1, True)
            elif k == "A":
                p[k] = leaf(r, "Al")
            else:
                p[k] = leaf(r, "Fun")
    return p


def owner(r, depth, name=None):
    # inside another: only what says of itself when it may cross threads
    names = [n for n in OWNERS if depth == 3 or OWNERS[n][2]]
    name = name or r.choice(names)
    text, owned, always = OWNERS[name]
    p = parts(r, depth, text)
    if name == "fvec" and "Entry" in p["T"][0]:
        p["T"] = leaf(r, "El")
    return (text.format(**{k: v[0] for k, v in p.items()}), all(p[k][1] for k in owned), all(p[k][2] for k in owned), name,
            always and all(v[4] or v[3] is None for v in p.values()) and all(p[k][1] and p[k][2] for k in "HG" if k in p))


def loan(r):
    name = r.choice(list(LOANS))
    text, owned, excl = LOANS[name]
    p = parts(r, 2, text)
    share = all(p[k][2] for k in owned)
    send = all(p[k][1] for k in owned) if excl else share
    return (text.format(**{k: v[0] for k, v in p.items()}), send, share, name, False, excl)


def one_type(r):
    """a line, whether something is at stake, what is said, the name"""
    if r.random() < 0.75:
        text, send, share, name, always = owner(r, 3)
        excl = False
    else:
        text, send, share, name, always, excl = loan(r)
    conds, said = [], []
    for word, may in (("SEND", send), ("SYNC", share)):
        if not may:
            conds.append(f"!Probe::<{text}>::{word}")
            said.append(f"not {word}")
        elif always:
            conds.append(f"Probe::<{text}>::{word}")
            said.append(word)
    if excl:
        conds.append(f"!Probe::<{text}>::CLONE")
        said.append("not CLONE")
    if not conds:
        return None
    return {"kind": "type", "line": f"const _: () = assert!({' && '.join(conds)});", "name": name,
            "stake": not (send and share) or excl, "said": f"{text}: {', '.join(said)}"}


# classes whose results hold on to the container's allocator as well
WITH_ALLOC = {"into", "vinto", "entry", "ventry", "vac"}


def one_value(r):
    """a function that must not compile: it hands out something, follows it a little, and asks too much of it"""
    names = [n for n, c in programs.CONTAINERS.items() if "r" in c[2]]
    name = r.choice(names)
    ty, ops, _ = programs.CONTAINERS[name]
    ops = [o for o in ops if o[2] and o[2] not in ("elem",)]
    text, access, cls, _ = r.choice(ops)
    es, ey = r.random() < 0.5, r.random() < 0.5
    al = marks(r)
    lines = [f"let mut c: {ty.format(E=f'El<{B[es]}, {B[ey]}>').replace('A>', f'Al<{B[al[0]]}, {B[al[1]]}>>')} = mk();"]
    lines.append("let mut b0 = " + text.format(c="c", e="mk()", E=f"El<{B[es]}, {B[ey]}>") + ";")
    n = 0
    while r.random() < 0.55:
        ds = [d for d in programs.CLASSES[cls].derive if d[2] != "elem"]
        if not ds:
            break
        d = r.choice(ds)
        lines.append(f"let mut b{n + 1} = " + d[0].format(b=f"b{n}", e="mk()") + ";")
        n, cls = n + 1, d[2]
    kind = programs.CLASSES[cls].kind
    if cls == "keyS":
        return None
    send, share = (es, ey) if kind != "S" else (ey, ey)
    if cls in WITH_ALLOC:
        send, share = send and al[0], share and al[1]
    # the pair of a compatibility iterator's may be duplicated
    dup = kind == "M" and "comp" not in cls
    asks = [w for w, bad in (("send", not send), ("sync", not share), ("clone", dup)) if bad]
    if not asks:
        return None
    ask = r.choice(asks)
    lines.append(f"need_{ask}(b{n});")
    return {"kind": "value", "line": "fn f%d() { " + " ".join(lines) + " }", "name": "value:" + cls, "stake": True,
            "said": " ".join(lines) + " -- the last line must be refused"}


def run(args, items, compile_):
    """the items the compiler sees otherwise"""
    lines = ["use eastl_clients::*;", "use std::pin::Pin;"]
    starts = []
    for i, it in enumerate(items):
        starts.append(len(lines) + 1)
        lines.append(it["line"] % i if it["kind"] == "value" else it["line"])
    errs = compile_(args, "\n".join(lines) + "\n", starts)
    bad, broken = [], []
    for i, it in enumerate(items):
        e = errs.get(i, [])
        want = {"E0277"} if it["kind"] == "value" else {"E0080"}
        if any(c not in want for c, _ in e):
            broken.append((it, e))
        elif bool(e) != (it["kind"] == "value"):
            bad.append(it)
    return bad, broken


def check(args, n, seed, compile_, Broken):
    from concurrent.futures import ThreadPoolExecutor
    batch = 500

    def job(k):
        r = random.Random(f"types/{seed}/{k}")
        ts, vs = [], []
        while len(ts) < batch * 3 // 4:
            t = one_type(r)
            if t:
                ts.append(t)
        while len(vs) < batch // 4:
            v = one_value(r)
            if v:
                vs.append(v)
        # constants are evaluated only where everything type-checks
        a, b = run(args, ts, compile_)
        c, d = run(args, vs, compile_)
        return ts + vs, a + c, b + d
    out = {"types": 0, "nontrivial": 0, "samples": [], "per": {}, "violations": []}
    seen, bads = set(), []
    with ThreadPoolExecutor(8) as pool:
        for items, bad, broken in pool.map(job, range((n + batch - 1) // batch)):
            if broken:
                raise Broken(f"{broken[0][0]['said']}: {broken[0][1][:2]}")
            for it in items:
                out["types"] += 1
                out["per"][it["name"]] = out["per"].get(it["name"], 0) + 1
                if it["stake"] and it["line"] not in seen:
                    seen.add(it["line"])
                    out["nontrivial"] += 1
                    if len(out["samples"]) < 10 and out["nontrivial"] % 41 == 1:
                        out["samples"].append(it["said"])
            bads += bad
    # the smallest of what was found: types shrink to their simplest failing kind
    for it in sorted(bads, key=lambda it: (len(it["line"]), it["line"])):
        out["violations"].append({"payload": it, "note": "the compiler sees otherwise: " + it["said"]})
    return out


def replay(args, it, compile_):
    bad, _ = run(args, [it], compile_)
    return "the compiler sees otherwise: " + it["said"] if bad else None
