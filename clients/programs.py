"""Generated safe client programs, and the verdict the borrowing rules give for each.

A program is one function over a few containers, plain locals, loans and blocks. The verdict is computed on the
program's control-flow graph with the textbook rules (a loan is live while anything that may hold it is live, an access
may not conflict with a live loan, nothing moved may be used) from what each public operation is *meant* to
borrow. It never looks at the library's signatures: the compiler does.
"""

# ---------------------------------------------------------------- the API as it is meant to borrow
# an operation: (expression, access to the container, class of the result, takes an element)
#   access: S reads, M changes, V consumes
# a class: what can be done with a result
class Cls:
    def __init__(self, kind, derive=(), store=None, copy=None, drops=False):
        self.kind = kind  # S: a shared loan, M: an exclusive loan, N: holds no loan of the container
        self.derive = derive  # (expression, consumes, class name, takes an element[, how the result lends this one])
        self.store = store  # statement putting {e} through it
        self.copy = copy  # expression copying an element out
        self.drops = drops  # has a destructor (None: nobody says)


CLASSES = {
    "itemS": Cls("S", copy="*{b}"),
    "itemM": Cls("M", copy="*{b}", store="*{b} = {e};"),
    "pairS": Cls("S", copy="*{b}.1"),
    "pairM": Cls("M", copy="*{b}.1", store="*{b}.1 = {e};"),
    "keyS": Cls("S"),
    "optS": Cls("S", derive=[("{b}.unwrap()", False, "itemS", False)]),
    "optM": Cls("M", derive=[("{b}.unwrap()", True, "itemM", False)]),
    "sliceS": Cls("S", derive=[("&{b}[0]", False, "itemS", False), ("{b}.iter()", False, "siterS", False)], copy="{b}[0]"),
    "sliceM": Cls("M", store="{b}[0] = {e};", copy="{b}[0]"),
    "tupsS": Cls("S", derive=[("&{b}[0].1", False, "itemS", False)], copy="{b}[0].1"),
    "siterS": Cls("S", derive=[("{b}.next().unwrap()", False, "itemS", False), ("{b}.clone()", False, "siterS", False)]),
    "siterM": Cls("M", derive=[("{b}.next().unwrap()", False, "itemM", False)]),
    "citerS": Cls("S", derive=[("{b}.next().unwrap()", False, "itemS", False)]),
    "citerM": Cls("M", derive=[("{b}.next().unwrap()", False, "itemM", False)]),
    "diterS": Cls("S", derive=[("{b}.next().unwrap()", False, "itemS", False), ("{b}.next_back().unwrap()", False, "itemS", False),
                               ("{b}.into_compat()", True, "dcompS", False)]),
    "diterM": Cls("M", derive=[("{b}.next().unwrap()", False, "itemM", False), ("{b}.next_back().unwrap()", False, "itemM", False),
                               ("{b}.into_compat_mut()", True, "dcompM", False), ("{b}.into_compat()", True, "dcompS2", False)]),
    "dcompS": Cls("S", derive=[("unsafe {{ eastl_rs::deque::iter::Iter::from_compat({b}.0, {b}.1) }}", True, "diterS", False)]),
    "dcompM": Cls("M", derive=[("unsafe {{ eastl_rs::deque::iter::IterMut::from_compat({b}.0, {b}.1) }}", True, "diterM", False)]),
    "dcompS2": Cls("M"),  # read access made from an exclusive iterator
    "hiterS": Cls("S", derive=[("{b}.next().unwrap()", False, "pairS", False), ("{b}.clone()", False, "hiterS", False),
                               ("{b}.into_compat()", True, "hcompS", False)]),
    "hiterM": Cls("M", derive=[("{b}.next().unwrap()", False, "pairM", False), ("{b}.into_compat_mut()", True, "hcompM", False),
                               ("{b}.into_compat()", True, "dcompS2", False)]),
    "hcompS": Cls("S", derive=[("unsafe {{ eastl_rs::hash_map::iter::Iter::from_compat({b}.0, {b}.1) }}", True, "hiterS", False)]),
    "hcompM": Cls("M"),
    "siterK": Cls("S", derive=[("{b}.next().unwrap()", False, "keyS", False), ("{b}.into_compat()", True, "kcompS", False)]),
    "kcompS": Cls("S", derive=[("unsafe {{ eastl_rs::hash_set::iter::Iter::from_compat({b}.0, {b}.1) }}", True, "siterK", False)]),
    "titerS": Cls("S", derive=[("{b}.next().unwrap()", False, "pairS", False)]),
    "titerM": Cls("M", derive=[("{b}.next().unwrap()", False, "pairM", False)]),
    # an opaque type, which might have a destructor
    "titerK": Cls("S", derive=[("{b}.next().unwrap()", False, "keyS", False)], drops=None),
    "entry": Cls("M", derive=[("{b}.or_insert({e})", True, "itemM", True), ("{b}.and_modify(|_| ())", True, "entry", False),
                              ("{b}.or_insert_with(|| mk())", True, "itemM", False)]),
    "ventry": Cls("M", derive=[("match {b} {{ eastl_rs::vector_map::Entry::Vacant(v) => v.insert({e}), _ => mk() }}", True, "itemM", True),
                               ("match {b} {{ eastl_rs::vector_map::Entry::Occupied(o) => o, _ => mk() }}", True, "occ", False),
                               ("match {b} {{ eastl_rs::vector_map::Entry::Vacant(v) => v, _ => mk() }}", True, "vac", False)]),
    "occ": Cls("M", store="*{b}.get_mut() = {e};", copy="*{b}.get()", derive=[
        ("{b}.get()", False, "itemS", False, "S"), ("{b}.get_mut()", False, "itemM", False, "M"), ("{b}.key()", False, "keyS", False, "S")]),
    "vac": Cls("M", derive=[("{b}.insert({e})", True, "itemM", True), ("{b}.key()", False, "keyS", False, "S")]),
    "strS": Cls("S"),
    "strM": Cls("M"),
    "elem": Cls("N", copy="{b}"),
    "vinto": Cls("N", derive=[("{b}.next().unwrap()", False, "elem", False), ("{b}.next_back().unwrap()", False, "elem", False),
                              ("{b}.as_slice()", False, "sliceS", False, "S"), ("{b}.as_slice_mut()", False, "sliceM", False, "M")], drops=True),
    "into": Cls("N", derive=[("{b}.next().unwrap()", False, "elem", False), ("{b}.next_back().unwrap()", False, "elem", False)], drops=True),
}

SEQ_VEC = [
    ("{c}.as_slice()", "S", "sliceS", False), ("{c}.as_slice_mut()", "M", "sliceM", False), ("{c}.as_ref()", "S", "sliceS", False),
    ("{c}.iter()", "S", "siterS", False), ("{c}.iter_mut()", "M", "siterM", False), ("{c}.first()", "S", "optS", False),
    ("{c}.last_mut()", "M", "optM", False), ("&{c}[0]", "S", "itemS", False), ("&mut {c}[0]", "M", "itemM", False),
    ("{c}.push({e});", "M", None, True), ("{c}.insert(0, {e});", "M", None, True), ("{c}.pop().unwrap()", "M", "elem", False),
    ("{c}.remove(0).unwrap()", "M", "elem", False), ("{c}.append(&[{e}]);", "M", None, True), ("{c}.reserve(1);", "M", None, False),
    ("{c}.clear();", "M", None, False), ("used(&{c}.len());", "S", None, False), ("used(&{c}.capacity());", "S", None, False),
    ("used(&{c}.is_full());", "S", None, False),
]
SEQ_LIST = [
    ("{c}.front()", "S", "optS", False), ("{c}.back()", "S", "optS", False), ("{c}.front_mut()", "M", "optM", False),
    ("{c}.back_mut()", "M", "optM", False), ("{c}.iter()", "S", "citerS", False), ("{c}.iter_mut()", "M", "citerM", False),
    ("{c}.push_back({e});", "M", None, True), ("{c}.push_front({e});", "M", None, True), ("{c}.pop_back().unwrap()", "M", "elem", False),
    ("{c}.pop_front().unwrap()", "M", "elem", False), ("{c}.clear();", "M", None, False), ("used(&{c}.len());", "S", None, False),
    ("used(&{c}.is_empty());", "S", None, False),
]
EXTEND = [("Extend::<{E}>::extend(&mut *{c}, [{e}]);", "M", None, True), ("Extend::<&{E}>::extend(&mut *{c}, &[{e}]);", "M", None, True)]
TREE = [
    ("{c}.get(&1)", "S", "optS", False), ("{c}.get_mut(&1)", "M", "optM", False), ("unsafe {{ {c}.iter() }}", "S", "titerS", False),
    ("unsafe {{ {c}.iter_mut() }}", "M", "titerM", False), ("used(&{c}.contains_key(&1));", "S", None, False),
    ("used(&{c}.len());", "S", None, False), ("{c}.clear();", "M", None, False), ("{c}.remove_entry(&1).unwrap().1", "M", "elem", False),
    ("used(&{c}.is_empty());", "S", None, False),
]
D = "eastl_rs::allocator::DefaultAllocator"
R = "eastl_rs::"
# name: (type, operations, element kinds)
CONTAINERS = {
    "vector": (R + "vector::Vector<{E}, A>", SEQ_VEC + [
        ("{c}.clone().into_iter()", "S", "vinto", False), ("{c}.into_iter()", "V", "vinto", False), ("{c}.assign(&[{e}]);", "M", None, True)], "ur"),
    "deque": (R + "deque::Deque<'_, {E}, A>", [
        ("{c}.front()", "S", "optS", False), ("{c}.back()", "S", "optS", False), ("{c}.front_mut()", "M", "optM", False),
        ("{c}.back_mut()", "M", "optM", False), ("{c}.iter()", "S", "diterS", False), ("{c}.iter_mut()", "M", "diterM", False),
        ("{c}.push_back({e});", "M", None, True), ("{c}.push_front({e});", "M", None, True), ("{c}.pop_back().unwrap()", "M", "elem", False),
        ("{c}.pop_front().unwrap()", "M", "elem", False), ("{c}.remove(0).unwrap()", "M", "elem", False), ("used(&{c}.len());", "S", None, False),
        ("used(&{c}.is_empty());", "S", None, False), ("{c}.into_iter()", "V", "into", False)], "ur"),
    "queue": (R + "queue::Queue<'_, {E}, A>", [
        ("{c}.top()", "S", "optS", False), ("{c}.iter()", "S", "diterS", False), ("{c}.iter_mut()", "M", "diterM", False),
        ("{c}.push({e});", "M", None, True), ("{c}.pop().unwrap()", "M", "elem", False), ("used(&{c}.len());", "S", None, False),
        ("{c}.into_iter()", "V", "into", False), ("{c}.into_inner().into_iter()", "V", "into", False)], "ur"),
    "list": ("Pin<Box<" + R + "list::List<{E}, A>>>", SEQ_LIST + EXTEND, "ur"),
    "flist": ("Pin<Box<" + R + "fixed_list::FixedList<{E}, 3, A>>>", SEQ_LIST + [(o[0].replace("&mut *", "&mut **"),) + o[1:] for o in EXTEND], "ur"),
    "fvec": ("Pin<Box<" + R + "fixed_vector::FixedVector<{E}, 3, A>>>", [o for o in SEQ_VEC if "as_ref" not in o[0]] + [
        ("AsRef::<[_]>::as_ref(&*{c})", "S", "sliceS", False), ("used(&{c}.has_overflowed());", "S", None, False),
        ("used(&{c}.max_size());", "S", None, False)], "ur"),
    "hmap": (R + "hash_map::HashMap<u32, {E}, A>", [
        ("{c}.get(&1)", "S", "optS", False), ("{c}.get_mut(&1)", "M", "optM", False), ("{c}.iter()", "S", "hiterS", False),
        ("{c}.iter_mut()", "M", "hiterM", False), ("{c}.entry(1)", "M", "entry", False), ("{c}.entry(1).or_insert({e})", "M", "itemM", True),
        ("{c}.insert(1, {e});", "M", None, True), ("{c}.insert(1, {e}).unwrap()", "M", "elem", True), ("{c}.remove(&1).unwrap()", "M", "elem", False),
        ("{c}.remove_entry(&1).unwrap().1", "M", "elem", False), ("used(&{c}.len());", "S", None, False),
        ("used(&{c}.contains_key(&1));", "S", None, False), ("{c}.clear();", "M", None, False)], "ur"),
    "hset": (R + "hash_set::HashSet<u32, A>", [
        ("{c}.get(&1)", "S", "keyS", False), ("{c}.iter()", "S", "siterK", False), ("{c}.insert(1);", "M", None, False),
        ("{c}.remove(&1);", "M", None, False), ("used(&{c}.len());", "S", None, False), ("used(&{c}.contains_key(&1));", "S", None, False),
        ("{c}.clear();", "M", None, False)], "u"),
    "vmap": (R + "vector_map::VectorMap<u32, {E}, A>", [
        ("{c}.get(&1)", "S", "optS", False), ("{c}.get_mut(&1)", "M", "optM", False), ("{c}.as_ref()", "S", "tupsS", False),
        ("&{c}[..]", "S", "tupsS", False), ("{c}.entry(1)", "M", "ventry", False), ("{c}.insert(1, {e});", "M", None, True),
        ("{c}.insert(1, {e}).unwrap()", "M", "elem", True), ("{c}.remove(&1).unwrap()", "M", "elem", False),
        ("{c}.remove_entry(&1).unwrap().1", "M", "elem", False), ("used(&{c}.len());", "S", None, False),
        ("used(&{c}.contains_key(&1));", "S", None, False), ("{c}.clear();", "M", None, False)], "ur"),
    "map": (R + "map::Map<u32, {E}, A>", TREE, "ur"),
    "fmap": ("Pin<Box<" + R + "fixed_map::FixedMapWithOverflow<u32, {E}, 3, A>>>", TREE, "ur"),
    "set": (R + "set::Set<u32, A>", [
        ("unsafe {{ {c}.iter() }}", "S", "titerK", False), ("used(&{c}.contains_key(&1));", "S", None, False),
        ("used(&{c}.len());", "S", None, False), ("{c}.clear();", "M", None, False)], "u"),
    "string": (R + "string::String<A>", [
        ("{c}.as_str()", "S", "strS", False), ("{c}.as_bytes()", "S", "strS", False), ("&{c}[..]", "S", "strS", False),
        ("AsRef::<str>::as_ref(&{c})", "S", "strS", False), ("AsRef::<[u8]>::as_ref(&{c})", "S", "strS", False), ("{c}.char_indices()", "S", "strS", False), ("{c}.chars()", "S", "strS", False),
        ("{c}.make_ascii_uppercase();", "M", None, False), ("&mut {c}[..]", "M", "strM", False), ("{c}.push('a');", "M", None, False),
        ("{c}.insert(0, 'a');", "M", None, False), ("{c}.pop();", "M", None, False), ("{c}.remove(0);", "M", None, False),
        ("{c}.assign(\"x\");", "M", None, False), ("{c}.reserve(1);", "M", None, False), ("used(&{c}.len());", "S", None, False),
        ("used(&{c}.clone());", "S", None, False)], "u"),
}
NIGHTLY = {
    "cflist": ("Pin<Box<" + R + "fixed_list::conformant::FixedList<{E}, 3, A>>>", SEQ_LIST, "ur"),
}


# ---------------------------------------------------------------- generation
# a statement is a tuple; a body is a list of statements
#   ("new", c, container)  ("x", x)  ("op", c, index, b|None, depth, element)  ("der", b, index, b2, depth, element)
#   ("use", b)  ("store", b, element)  ("copy", b, b2, depth)  ("take", name)  ("block"|"loop"|"if"|"else"..., body)
# depth: how many enclosing plain blocks further out the result is declared; element: None or the name of what is put in
class Gen:
    def __init__(self, rng, containers, size):
        self.rng, self.containers, self.n = rng, containers, 0
        self.ref = None
        self.left = size
        self.moved = set()
        self.kind = {}  # name -> ("c", container) | ("x",) | ("b", class)
        self.scopes = []  # (kind, names)

    def fresh(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def visible(self, pred):
        avoid = self.moved if self.rng.random() < 0.95 else ()
        return [n for _, ns in self.scopes for n in ns if pred(self.kind[n]) and n not in avoid]

    def recent(self, ns):
        return ns[-1 - min(int(self.rng.expovariate(0.9)), len(ns) - 1)]

    def program(self):
        ref = self.rng.random() < 0.55
        names = [c for c, (_, _, k) in self.containers.items() if not ref or "r" in k]
        self.main = self.rng.choice(names)
        self.ref, self.names = ref, names
        self.chain = self.rng.random() < 0.5
        return {"ref": ref, "body": self.body("fn")}

    def lead(self, out):
        """what the API hands out, followed some way, and what was asked of it last asked again"""
        r = self.rng
        if self.ref and r.random() < 0.5:
            out.append(["x", self.fresh("x")])
            self.declare(out[-1][1], ("x",))
        c = self.fresh("c")
        out.append(["new", c, self.main])
        self.declare(c, ("c", self.main))
        ops = self.containers[self.main][1]
        i = r.choice([k for k, o in enumerate(ops) if o[2] and o[2] != "elem"])
        b = self.fresh("b")
        out.append(["op", c, i, b, 0, self.elem() if ops[i][3] else None])
        self.declare(b, ("b", ops[i][2]))
        if ops[i][1] == "V":
            self.moved.add(c)
        last = (c, b)
        for _ in range(r.choice([0, 0, 1, 1, 1, 2, 2, 3])):
            b = last[1]
            ds = CLASSES[self.kind[b][1]].derive
            ks = [k for k, d in enumerate(ds) if d[2] != "elem"]
            if not ks:
                break
            last = (b, self.follow(out, b, r.choice(ks)))
        if r.random() < 0.7:
            again = list(out[-1])
            if again[1] not in self.moved:
                again[3] = self.fresh("b")
                out.append(again)
                self.declare(again[3], self.kind[last[1]])
                for b in r.sample([last[1], again[3]], r.randint(0, 2)):
                    out.append(["use", b])

    def follow(self, out, b, i, d=0):
        der = CLASSES[self.kind[b][1]].derive[i]
        b2 = self.fresh("b")
        out.append(["der", b, i, b2, d, self.elem() if der[3] else None])
        if der[1]:
            self.moved.add(b)
        self.declare(b2, ("b", der[2]), d)
        return b2

    def declare(self, name, kind, depth=0):
        self.kind[name] = kind
        self.scopes[-1 - depth][1].append(name)

    def depth(self):
        # how far out a result may be declared: only through plain blocks
        d = 0
        while d + 1 < len(self.scopes) and self.scopes[-1 - d][0] == "block":
            d += 1
        return d if d and self.rng.random() < 0.6 else 0

    def elem(self):
        """something to put into a container: a local's address, an element had from elsewhere, or a fresh value"""
        r = self.rng
        if not self.ref:
            return ["lit"]
        xs = self.visible(lambda k: k[0] == "x")
        bs = self.visible(lambda k: k[0] == "b" and CLASSES[k[1]].copy)
        if xs and r.random() < 0.7:
            return ["x", self.recent(xs)]
        if bs and r.random() < 0.7:
            return ["b", self.recent(bs)]
        return ["lit"]

    def body(self, kind):
        self.scopes.append((kind, []))
        out = []
        r = self.rng
        if kind == "fn" and self.chain:
            self.lead(out)
            self.left = min(self.left, r.randint(0, 5))
        for _ in range(r.randint(1, 4) if kind != "fn" else 99):
            if self.left <= 0:
                break
            self.left -= 1
            cs = self.visible(lambda k: k[0] == "c")
            bs = self.visible(lambda k: k[0] == "b")
            if not cs or (len(cs) < 3 and r.random() < 0.06):
                n = self.fresh("c")
                name = self.main if r.random() < 0.8 else r.choice(self.names)
                out.append(["new", n, name])
                self.declare(n, ("c", name))
                continue
            p = r.random()
            if p < 0.38:
                c = self.recent(cs)
                ops = self.containers[self.kind[c][1]][1]
                i = r.randrange(len(ops))
                _, how, cls, el = ops[i]
                if how == "V":
                    self.moved.add(c)
                e = self.elem() if el else None
                b = None
                d = 0
                if cls:
                    b, d = self.fresh("b"), self.depth()
                out.append(["op", c, i, b, d, e])
                if b:
                    self.declare(b, ("b", cls), d)
            elif p < 0.62 and bs:
                b = self.recent(bs)
                cl = CLASSES[self.kind[b][1]]
                opts = [("use",)]
                opts += [("der", i) for i in range(len(cl.derive))] * 2
                if cl.store:
                    opts += [("store",)] * 3
                if cl.copy:
                    opts += [("copy",)]
                o = r.choice(opts)
                if o[0] == "use":
                    out.append(["use", b])
                elif o[0] == "store":
                    out.append(["store", b, self.elem()])
                elif o[0] == "copy":
                    b2, d = self.fresh("b"), self.depth()
                    out.append(["copy", b, b2, d])
                    self.declare(b2, ("b", "elem"), d)
                else:
                    self.follow(out, b, o[1], self.depth())
            elif p < 0.72 and bs:
                out.append(["use", self.recent(bs)])
            elif p < 0.77:
                c = self.recent(cs)
                out.append(["take", c])
                self.moved.add(c)
            elif p < 0.83 and self.ref:
                x = self.fresh("x")
                out.append(["x", x])
                self.declare(x, ("x",))
            elif len(self.scopes) < 4:
                k = r.choice(["block", "block", "block", "loop", "if"])
                if k == "if":
                    out.append(["if", self.body("arm"), self.body("arm") if r.random() < 0.5 else []])
                else:
                    out.append([k, self.body(k)])
        if kind == "fn":
            # something is used at the end, or there would be no live loans there
            bs = self.visible(lambda k: k[0] == "b")
            if bs and r.random() < 0.5:
                out.append(["use", self.recent(bs)])
        self.scopes.pop()
        return out


# ---------------------------------------------------------------- text
def expr_elem(e, kinds, ref):
    if e is None:
        return ""
    if e[0] == "lit":
        return "mk()" if ref else "7"
    if e[0] == "x":
        return "&" + e[1]
    return CLASSES[kinds[e[1]][1]].copy.format(b=e[1])


def kinds_of(prog, containers):
    kinds = {}

    def walk(body):
        for s in body:
            if s[0] == "new":
                kinds[s[1]] = ("c", s[2])
            elif s[0] == "x":
                kinds[s[1]] = ("x",)
            elif s[0] == "op":
                if s[3]:
                    kinds[s[3]] = ("b", containers[kinds[s[1]][1]][1][s[2]][2])
            elif s[0] == "der":
                kinds[s[3]] = ("b", CLASSES[kinds[s[1]][1]].derive[s[2]][2])
            elif s[0] == "copy":
                kinds[s[2]] = ("b", "elem")
            elif s[0] in ("block", "loop"):
                walk(s[1])
            elif s[0] == "if":
                walk(s[1])
                walk(s[2])
    walk(prog["body"])
    return kinds


def placed(prog):
    """scope of declaration of every result: list of bodies' ids to the names declared ahead in them"""
    ahead = {}

    def walk(body, stack):
        stack = stack + [body]
        for s in body:
            b = d = None
            if s[0] == "op":
                b, d = s[3], s[4]
            elif s[0] == "der":
                b, d = s[3], s[4]
            elif s[0] == "copy":
                b, d = s[2], s[3]
            if b and d:
                ahead.setdefault(id(stack[-1 - d]), []).append(b)
            if s[0] in ("block", "loop"):
                walk(s[1], stack)
            elif s[0] == "if":
                walk(s[1], stack)
                walk(s[2], stack)
    walk(prog["body"], [])
    return ahead


def text(prog, containers, alloc=D):
    kinds, ahead, ref = kinds_of(prog, containers), placed(prog), prog["ref"]
    out = []

    def let(b, d):
        return f"{b} = " if d else f"let mut {b} = "

    def elem(e, p):
        # copied out in a statement of its own, so that the order of evaluation does not matter
        t = expr_elem(e, kinds, ref)
        if ref and e and e[0] == "b":
            out.append(f"{p}let e = {t};")
            return "e"
        return t

    def walk(body, ind):
        p = "    " * ind
        for b in ahead.get(id(body), []):
            out.append(f"{p}let mut {b};")
        for s in body:
            if s[0] == "new":
                ty = containers[s[2]][0].format(E="&u32" if ref else "u32").replace("A>", alloc + ">")
                out.append(f"{p}let mut {s[1]}: {ty} = mk();")
            elif s[0] == "x":
                out.append(f"{p}let {s[1]}: u32 = mk();")
            elif s[0] == "op":
                t = containers[kinds[s[1]][1]][1][s[2]][0].format(c=s[1], e=elem(s[5], p), E="&u32" if ref else "u32")
                out.append(p + (let(s[3], s[4]) + t + ";" if s[3] else t))
            elif s[0] == "der":
                t = CLASSES[kinds[s[1]][1]].derive[s[2]][0].format(b=s[1], e=elem(s[5], p))
                out.append(p + let(s[3], s[4]) + t + ";")
            elif s[0] == "copy":
                out.append(p + let(s[2], s[3]) + CLASSES[kinds[s[1]][1]].copy.format(b=s[1]) + ";")
            elif s[0] == "use":
                out.append(f"{p}used(&{s[1]});")
            elif s[0] == "store":
                out.append(p + CLASSES[kinds[s[1]][1]].store.format(b=s[1], e=elem(s[2], p)))
            elif s[0] == "take":
                out.append(f"{p}taken({s[1]});")
            elif s[0] == "block":
                out.append(p + "{")
                walk(s[1], ind + 1)
                out.append(p + "}")
            elif s[0] == "loop":
                out.append(p + "while coin() {")
                walk(s[1], ind + 1)
                out.append(p + "}")
            elif s[0] == "if":
                out.append(p + "if coin() {")
                walk(s[1], ind + 1)
                out.append(p + "} else {")
                walk(s[2], ind + 1)
                out.append(p + "}")
    walk(prog["body"], 1)
    return out


# ---------------------------------------------------------------- verdict
class Node:
    __slots__ = ("acc", "use", "dropuse", "defs", "loans", "move", "dead", "succ", "init")

    def __init__(self):
        self.acc, self.use, self.dropuse, self.defs, self.loans = [], set(), set(), set(), []
        self.move, self.dead, self.succ, self.init = set(), set(), [], set()


def verdict(prog, containers):
    """(accepted, reasons); accepted is None where the verdict hangs on what nobody promises: whether an opaque type has a
    destructor, whether a type is covariant"""
    kinds = [CLASSES[k[1]] for k in kinds_of(prog, containers).values() if k[0] == "b"]
    opaque = (False, True) if any(c.drops is None for c in kinds) else (False,)
    rigid = (False, True) if any(c.kind == "N" and c.derive for c in kinds) else (False,)
    vs = [verdict_with(prog, containers, o, r) for o in opaque for r in rigid]
    return vs[0] if all(v[0] == vs[0][0] for v in vs) else (None, vs[-1][1])


def verdict_with(prog, containers, opaque, rigid):
    kinds, ahead, ref = kinds_of(prog, containers), placed(prog), prog["ref"]
    nodes, edges = [], []  # edges between regions: loans flow from the first to the second
    # regions: (name, "l") the loan a result holds, (name, "e") what its elements may point to

    def add(node, preds):
        nodes.append(node)
        i = len(nodes) - 1
        for p in preds:
            nodes[p].succ.append(i)
        return [i]

    def element(node, e, into, cur):
        if not ref or e is None or e[0] == "lit":
            return cur
        if e[0] == "x":
            node.acc.append((e[1], "S"))
            node.loans.append((e[1], "S", into))
        else:
            copied = f"e{len(nodes)}"
            first = Node()
            use(first, e[1], "S")
            first.defs.add(copied)
            edges.append(((e[1], "e"), (copied, "e")))
            cur = add(first, cur)
            node.use.add(copied)
            edges.append(((copied, "e"), into))
        return cur

    def use(node, b, how):
        node.use.add(b)
        node.acc.append((b, how))

    def result(node, b, c, cls):
        node.defs.add(b)
        node.init.add(b)
        k = CLASSES[cls].kind
        if k != "N":
            node.loans.append((c, k, (b, "l")))
        edges.append(((c, "e"), (b, "e")))
        if k == "M" or (rigid and CLASSES[cls].derive):
            edges.append(((b, "e"), (c, "e")))

    def walk(body, cur):
        order = list(ahead.get(id(body), []))
        for s in body:
            n = Node()
            if s[0] == "new":
                n.defs.add(s[1])
                n.init.add(s[1])
                order.append(s[1])
                cur = add(n, cur)
            elif s[0] == "x":
                order.append(s[1])
                cur = add(n, cur)
            elif s[0] == "op":
                _, c, i, b, d, e = s
                _, how, cls, _ = containers[kinds[c][1]][1][i]
                cur = element(n, e, (c, "e"), cur)
                use(n, c, how)
                if how == "V":
                    n.move.add(c)
                if b:
                    result(n, b, c, cls)
                    if not d:
                        order.append(b)
                cur = add(n, cur)
            elif s[0] == "der":
                _, b, i, b2, d, e = s
                der = CLASSES[kinds[b][1]].derive[i]
                consumes, cls, lend = der[1], der[2], der[4] if len(der) > 4 else None
                cur = element(n, e, (b, "e"), cur)
                use(n, b, "V" if consumes else lend or "M")
                if lend:
                    n.loans.append((b, lend, (b2, "l")))
                if consumes:
                    n.move.add(b)
                n.defs.add(b2)
                n.init.add(b2)
                edges.append(((b, "l"), (b2, "l")))
                edges.append(((b, "e"), (b2, "e")))
                if CLASSES[cls].kind == "M":
                    edges.append(((b2, "e"), (b, "e")))
                if not d:
                    order.append(b2)
                cur = add(n, cur)
            elif s[0] == "copy":
                _, b, b2, d = s
                use(n, b, "S")
                n.defs.add(b2)
                n.init.add(b2)
                edges.append(((b, "e"), (b2, "e")))
                if not d:
                    order.append(b2)
                cur = add(n, cur)
            elif s[0] == "use":
                use(n, s[1], "S")
                cur = add(n, cur)
            elif s[0] == "store":
                cur = element(n, s[2], (s[1], "e"), cur)
                use(n, s[1], "M")
                cur = add(n, cur)
            elif s[0] == "take":
                use(n, s[1], "V")
                n.move.add(s[1])
                cur = add(n, cur)
            elif s[0] == "block":
                cur = walk(s[1], cur)
            elif s[0] == "loop":
                head = add(n, cur)
                back = add(Node(), walk(s[1], head))
                for p in back:
                    nodes[p].succ.append(head[0])
                cur = head
            elif s[0] == "if":
                head = add(n, cur)
                cur = add(Node(), walk(s[1], head)) + add(Node(), walk(s[2], head))
        for name in reversed(order):
            n = Node()
            k = kinds[name]
            if k[0] == "c" or (k[0] == "b" and (opaque if CLASSES[k[1]].drops is None else CLASSES[k[1]].drops)):
                n.dropuse.add(name)
            n.acc.append((name, "D"))
            n.dead.add(name)
            cur = add(n, cur)
        return cur

    start = add(Node(), [])
    walk(prog["body"], start)

    # regions reached from every region
    out = {}
    for a, b in edges:
        out.setdefault(a, set()).add(b)

    def reach(a):
        seen, todo = {a}, [a]
        while todo:
            for b in out.get(todo.pop(), ()):
                if b not in seen:
                    seen.add(b)
                    todo.append(b)
        return seen

    n = len(nodes)
    pred = [[] for _ in nodes]
    for i, nd in enumerate(nodes):
        for s in nd.succ:
            pred[s].append(i)
    # may be initialised, may be moved (at entry)
    minit, mmoved = [set() for _ in nodes], [set() for _ in nodes]
    changed = True
    while changed:
        changed = False
        for i in range(n):
            a, m = set(), set()
            for p in pred[i]:
                q = nodes[p]
                a |= (minit[p] - q.move - q.dead) | q.init
                m |= (mmoved[p] - q.init - q.dead) | q.move
            if a != minit[i] or m != mmoved[i]:
                minit[i], mmoved[i], changed = a, m, True
    # liveness at entry
    live, dlive = [set() for _ in nodes], [set() for _ in nodes]
    changed = True
    while changed:
        changed = False
        for i in range(n - 1, -1, -1):
            q = nodes[i]
            lo, do = set(), set()
            for s in q.succ:
                lo |= live[s]
                do |= dlive[s]
            a = (lo - q.defs) | q.use
            d = (do - q.defs - q.move) | q.dropuse
            if a != live[i] or d != dlive[i]:
                live[i], dlive[i], changed = a, d, True

    def alive(i, b):
        return b in live[i] or (b in dlive[i] and b in minit[i])

    reasons = []
    # moved values
    for i, q in enumerate(nodes):
        for place, how in q.acc:
            if how != "D" and place in mmoved[i] and kinds[place][0] != "x":
                reasons.append(f"{place} used after it was moved")
    # loans
    loans = [(i, l) for i, q in enumerate(nodes) for l in q.loans]
    for at, (place, kind, region) in loans:
        holders = {r[0] for r in reach(region)}
        seen, todo = set(), list(nodes[at].succ)
        while todo:
            i = todo.pop()
            if i in seen:
                continue
            seen.add(i)
            if not any(alive(i, b) for b in holders):
                continue  # the loan is over on this way
            q = nodes[i]
            over = False
            for p2, how in q.acc:
                if p2 != place:
                    continue
                if how == "D":
                    # a value moved away already leaves nothing to destroy, but its place ends
                    over = True
                    others = holders - {p2} if kinds[p2][0] == "c" else holders
                    if any(alive(s, b) for s in q.succ for b in holders if b != p2):
                        reasons.append(f"{place} ends while lent")
                elif kind == "M" or how != "S":
                    reasons.append(f"{place} accessed ({how}) while lent ({kind})")
            if not over:
                todo.extend(q.succ)
    return not reasons, reasons
