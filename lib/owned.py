"""Typestate of the C objects that functions initialise and release by hand.

For every object of a C library (FLINT, Arb, GMP, e-antic, Antic) that a function
of the tree initialises, releases or views, the object's states along all paths
of the function, exceptional ones included, are computed with a dataflow analysis
in the style of ESP: one state of the program per state of the object, with the
constants known there (conditions of branches taken, flags, null pointers), so
that a release which is guarded by what guarded the initialisation is understood.
"""
import re
import common

PREFIX = r"(_*gmp[zqf]|_?fmpz|_?fmpq|_?arf|_?arb|_?mag|_?acb|_?acf|mpfr|_?nf|_?renf|flint_rand|__gmp_rand|_?nmod|fexpr|flint)"
LIB = re.compile("^" + PREFIX + r"(_|init|clear|[a-z])")
SIZES = {"fmpz": 8, "fmpq": 16, "arf": 32, "mag": 16, "arb": 48, "__gmpz": 16, "__gmpq": 32, "__gmpf": 24, "__gmp_rand": 32, "flint_rand": 56, "fmpz_poly": 24, "fmpq_poly": 32, "nf": 256, "nf_elem": 64, "renf": 512, "renf_elem": 112, "acb": 96}
# functions whose result is a buffer, and what releases it
BUFFERS = {
    r"(arb|arf|mag|acb|fmpq_poly|fmpz_poly|nf_elem|renf_elem|renf)_(get_str(_pretty|_d|_extra)?|dump_str|get_strd?)$": "flint_free",
    r"flint_(malloc|calloc)$": "flint_free",
}
DIGITS = {r"fmpz_get_str$": ("flint_free", 0), r"fmpq_get_str$": ("flint_free", 0), r"__gmp[zq]_get_str$": ("free", 0)}
VECTORS = re.compile(r"^(_\w+_vec)_init$")
FREES = re.compile(r"^(flint_free|free|_?_?Zda?Pv(m|St11align_val_t|mSt11align_val_t)?)$")
READS = re.compile(r"(^|_)(get|cmp|cmpabs|sgn|fits|size|sizeinbase|out|divisible|congruent|perfect|probab|tst|tstbit|scan0|scan1|popcount|equal|hamdist|export|is|print|dump|fprint|limbs|bits|allocated|mpz_get|hash)(_|$)|_(is|get|cmp|equal|bits)")


def split(name):
    """(what is done, kind of object) for a function of the C libraries"""
    if not LIB.match(name):
        return None
    if re.match(r"^__gmp_randinit|^flint_rand_?init", name):
        return "init", re.match(r"^(__gmp_rand|flint_rand)", name).group(1)
    if re.match(r"^__gmp_randclear$|^flint_rand_?clear$", name):
        return "clear", re.match(r"^(__gmp_rand|flint_rand)", name).group(1)
    m = re.match(r"^(\w+?)_init_set_readonly$", name)
    if m:
        return "view", m.group(1)
    m = re.match(r"^(\w+?)_clear_readonly$", name)
    if m:
        return "unview", m.group(1)
    m = re.match(r"^(\w+?)_init(_\w+)?_shallow$", name)
    if m:
        return "shallow", m.group(1)
    m = re.match(r"^(\w+?)_init(s|2)?(_\w+)?$", name)
    if m and not m.group(1).endswith("_vec"):
        return "init", m.group(1)
    m = re.match(r"^(\w+?)_clear(s)?$", name)
    if m and not m.group(1).endswith("_vec"):
        return "clear", m.group(1)
    return "use", re.match("^" + PREFIX, name).group(1)


class Function:
    def __init__(self, fn):
        self.fn = fn
        self.blocks = {b["id"]: b["ins"] for b in fn["blocks"]}
        self.defs = {i["id"]: i for b in fn["blocks"] for i in b["ins"] if "id" in i}
        self.entry = fn["blocks"][0]["id"]
        self.memo = {}
        self.succ = {}
        self.raii = set()
        for b, ins in self.blocks.items():
            t = ins[-1]
            if t["op"] == "br":
                self.succ[b] = list(t["succ"])
            elif t["op"] == "switch":
                self.succ[b] = [t["default"]] + [c[1] for c in t["cases"]]
            elif t["op"] == "invoke":
                self.succ[b] = [t["normal"], t["unwind"]]
            else:
                self.succ[b] = []

    def join(self, b):
        """where the paths from b meet again: the nearest block that all of them pass"""
        if not hasattr(self, "post"):
            ends = [x for x in self.blocks if not self.succ[x]]
            preds = {}
            for x, ys in self.succ.items():
                for y in ys:
                    preds.setdefault(y, []).append(x)
            order, seen = [], set()
            for e in ends:
                stack = [(e, iter(preds.get(e, ())))]
                if e in seen:
                    continue
                seen.add(e)
                while stack:
                    x, it = stack[-1]
                    for y in it:
                        if y not in seen:
                            seen.add(y)
                            stack.append((y, iter(preds.get(y, ()))))
                            break
                    else:
                        order.append(x)
                        stack.pop()
            rank = {x: n for n, x in enumerate(order)}
            rank[None] = len(order)
            dom = {None: None}
            for e in ends:
                dom[e] = None

            def meet(x, y):
                while x != y:
                    while rank[x] < rank[y]:
                        x = dom[x]
                    while rank[y] < rank[x]:
                        y = dom[y]
                return x
            changed = True
            while changed:
                changed = False
                for x in reversed(order):
                    if x in ends:
                        continue
                    new = None
                    first = True
                    for y in self.succ[x]:
                        if y in dom:
                            new = y if first else meet(new, y)
                            first = False
                    if not first and dom.get(x, -1) != new:
                        dom[x] = new
                        changed = True
            self.post = dom
        return self.post.get(b)

    def pointer(self, v):
        """(root, offset or None)"""
        if not isinstance(v, dict):
            return None
        k = v.get("k")
        if k == "arg":
            return ("arg", v["id"]), 0
        if k == "global":
            return ("global", v["name"]), 0
        if k == "gep":
            b = self.pointer(v["base"])
            if b is None:
                return None
            return b[0], None if v.get("unknown") or v.get("var") or b[1] is None else b[1] + v["off"]
        if k == "v":
            if v["id"] in self.memo:
                return self.memo[v["id"]]
            i = self.defs.get(v["id"])
            r = (("v", v["id"]), 0)
            if i is None:
                pass
            elif i["op"] == "gep":
                self.memo[v["id"]] = r
                r = self.pointer(i["gep"])
            elif i["op"] in ("bitcast", "addrspacecast", "freeze"):
                r = self.pointer(i["ops"][0])
            elif i["op"] == "alloca":
                r = (("alloca", v["id"]), 0)
            self.memo[v["id"]] = r
            return r
        return None

    def calls(self):
        for b in self.fn["blocks"]:
            for i in b["ins"]:
                if i["op"] in ("call", "invoke"):
                    yield b["id"], i


def callee(i):
    c = i.get("callee") or {}
    return (c.get("name") or "", c.get("dem") or "") if c.get("k") == "fn" else ("", "")


def managed(i):
    """is this part of a class of the C++ interface of GMP or e-antic?"""
    f = (i.get("loc") or [[""]])[0][0]
    return bool(re.search(r"gmpxx\.h|/e-antic/|renfxx", f))


TERMINAL = ("__clang_call_terminate", "_ZSt9terminatev", "abort", "exit", "__assert_fail")
QUIET = re.compile(r"^(llvm\.|__cxa_begin_catch|__cxa_end_catch|__cxa_allocate_exception|__cxa_free_exception|__cxa_get_exception_ptr|free$|malloc$|strlen$|mem(cpy|move|set|cmp)$)")


def throws(i):
    n, _ = callee(i)
    return not i.get("nounwind") and not QUIET.match(n) and not LIB.match(n)


class Cell:
    """One object: where it lives, in which state it comes, what is demanded of it in the end."""

    def __init__(self, F, root, off, kind, entry, leave, unwind, value=None, release=None):
        self.F, self.root, self.off, self.kind = F, root, off, kind
        self.entry, self.leave, self.unwind = entry, leave, unwind
        self.value, self.release = value, release
        self.size = SIZES.get(kind, 8)
        self.found = []
        self.notes = set()

    def __repr__(self):
        return "%s+%s (%s)" % (self.root, self.off, self.kind)

    def here(self, v, inside=True):
        p = self.F.pointer(v)
        if p is None or self.value is not None:
            return None
        if p[0] != self.root:
            return None
        if p[1] is None:
            return "unknown"
        if p[1] == self.off:
            return "exact"
        return "inside" if inside and self.off < p[1] < self.off + self.size else None


def key(p):
    return ("slot",) + p


class Run:
    """states of one cell along all paths"""

    def __init__(self, F, cell):
        self.F, self.c = F, cell
        self.src = {}
        self.copies = {}
        self.kept = set()
        self.at = {}
        self.cur = None
        self.problems = {}
        self.steps = 0

    # values known along a path: SSA values and slots of local variables
    def value(self, v, env):
        if not isinstance(v, dict):
            return None
        k = v.get("k")
        if k == "int":
            return int(v["v"])
        if k == "null":
            return 0
        if k == "fn":
            return ("fn", v["name"])
        if k == "v":
            if self.c.value is not None and v["id"] == self.c.value:
                return "R"
            return env.get(v["id"])
        if k == "arg":
            return env.get(("arg", v["id"]))
        return None

    def is_res(self, v, env):
        if self.c.value is None:
            return False
        p = self.F.pointer(v)
        if self.value(v, env) == "R":
            return True
        return p is not None and p[1] == 0 and (p[0] == ("v", self.c.value) or p[0][0] == "v" and env.get(p[0][1]) == "R")

    def problem(self, ins, what, st, b):
        k = (ins["id"] if "id" in ins else id(ins), what)
        self.problems.setdefault(k, []).append((ins, what, self.cur))

    def solve(self, limit=400000):
        F, c = self.F, self.c
        self.at = {F.entry: {c.entry: {}}}
        self.next = {}
        self.ends = {}
        todo = [F.entry]
        while todo:
            b = todo.pop()
            for st, env in list(self.at[b].items()):
                self.steps += len(F.blocks[b])
                if self.steps > limit:
                    c.notes.add("too many paths")
                    return self
                self.cur = (b, st)
                for b2, st2, env2, guess in self.block(b, st, dict(env)):
                    self.ends.setdefault(b, set()).add(st2)
                    self.next.setdefault((b, st), set()).add((b2, st2, guess))
                    old = self.at.setdefault(b2, {})
                    if st2 not in old:
                        old[st2] = env2
                        todo.append(b2)
                    else:
                        both = {k: v for k, v in old[st2].items() if env2.get(k, self) == v}
                        if both != old[st2]:
                            old[st2] = both
                            todo.append(b2)
        self.sure = self.certain() if self.problems else set()
        return self

    def certain(self):
        """(block, state on entry) that are reached without a guess at a branch which may
        be taken together with an earlier one: where the object is held on some paths and
        not on others, and released or initialised on one side only"""
        c, F = self.c, self.F
        odd = {}

        def seed(b):
            if b not in odd:
                live = {s[0] for s in self.ends.get(b, ())}
                odd[b] = bool(live & set("IVSK") and live & set("UC")) and self.decides(b)
            return odd[b]
        seen = {(F.entry, c.entry)}
        todo = list(seen)
        while todo:
            n = todo.pop()
            for b2, st2, guess in self.next.get(n, ()):
                if not (guess and seed(n[0])) and (b2, st2) not in seen:
                    seen.add((b2, st2))
                    todo.append((b2, st2))
        return seen

    def decides(self, b):
        """does what happens to the object depend on the branch at the end of b?"""
        F = self.F
        join = F.join(b)
        for s in set(F.succ[b]):
            todo, seen = [s], {s}
            while todo:
                x = todo.pop()
                if x == join:
                    continue
                for i in F.blocks[x]:
                    if i["op"] in ("call", "invoke") and (split(callee(i)[0]) or ("use",))[0] != "use" and any(self.c.here(a) == "exact" for a in i["args"]):
                        return True
                    if self.c.value is not None and i["op"] in ("call", "invoke") and (i["id"] == self.c.value or re.match(self.c.release, callee(i)[0])):
                        return True
                for y in F.succ[x]:
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
        return False

    def edges(self, b, t, env):
        F = self.F
        if t["op"] == "br":
            if "cond" not in t:
                return [(t["succ"][0], env, False)]
            v = self.value(t["cond"], env)
            out = []
            for n, want in ((0, 1), (1, 0)):
                if v is None or v in (0, 1, -1) and bool(v) == bool(want):
                    e = dict(env)
                    self.assume(t["cond"], want, e)
                    out.append((t["succ"][n], e, v is None))
            return out
        if t["op"] == "switch":
            v = self.value(t["cond"], env)
            out = []
            cases = [(int(c[0]["v"]), c[1]) for c in t["cases"]]
            if isinstance(v, int):
                hit = [x for k, x in cases if k == v]
                return [(hit[0] if hit else t["default"], env, False)]
            for k, x in cases:
                e = dict(env)
                if t["cond"].get("k") == "v":
                    e[t["cond"]["id"]] = k
                out.append((x, e, True))
            out.append((t["default"], dict(env), True))
            return out
        return []

    def assume(self, cond, want, env):
        if cond.get("k") == "arg":
            env[("arg", cond["id"])] = want
        if cond.get("k") != "v":
            return
        env[cond["id"]] = want
        i = self.F.defs.get(cond["id"])
        if i is None:
            return
        if i["op"] == "icmp":
            x, y = i["ops"]
            yv = self.value(y, env)
            if isinstance(yv, int) and x.get("k") in ("v", "arg") and (i["pred"] == "eq") == bool(want) and i["pred"] in ("eq", "ne"):
                env[x["id"] if x["k"] == "v" else ("arg", x["id"])] = yv
            elif isinstance(yv, int) and yv in (0,) and i["pred"] in ("eq", "ne") and x.get("k") == "v":
                d = self.F.defs.get(x["id"])
                if d is not None and d["op"] in ("zext", "sext"):
                    self.assume(d["ops"][0], 1, env)
        elif i["op"] == "xor" and self.value(i["ops"][1], env) in (1, -1):
            self.assume(i["ops"][0], 1 - want, env)
        elif i["op"] in ("freeze", "trunc", "zext"):
            self.assume(i["ops"][0], want, env)
        elif i["op"] == "load":
            p = self.F.pointer(i["ops"][0])
            if p and p[0][0] == "alloca" and p[1] is not None:
                env[key(p)] = want

    def block(self, b, st, env):
        F, c = self.F, self.c
        out = []
        for i in F.blocks[b]:
            op = i["op"]
            if op == "phi":
                continue
            if op in ("call", "invoke"):
                n, d = callee(i)
                if not n and (i.get("callee") or {}).get("k") == "v":
                    f = self.value(i["callee"], env)
                    if isinstance(f, tuple):
                        n = d = f[1]
                env.pop(i["id"], None)
                if n in TERMINAL:
                    return out
                before = st
                st = self.call(i, n, d, st, env, b)
                if st is None:
                    return out
                if not n.startswith("llvm.") and not LIB.match(n):
                    # what is passed may be written by the callee
                    roots = {p[0] for a in i["args"] for p in [F.pointer(a)] if p and p[0][0] == "alloca"}
                    for k in [k for k in env if isinstance(k, tuple) and k[0] == "slot" and (k[1] in roots or k[1] in self.escaped())]:
                        del env[k]
                if op == "invoke":
                    out += self.go(b, i["normal"], st, dict(env))
                    if not i.get("nounwind"):
                        out += self.go(b, i["unwind"], self.unwound(i, n, d, before, st), dict(env))
                    return out
                if throws(i):
                    self.leaves(i, self.unwound(i, n, d, before, st), b, True)
                continue
            if op == "alloca":
                for k in [k for k in env if isinstance(k, tuple) and k[0] == "slot" and k[1] == ("alloca", i["id"])]:
                    del env[k]
                continue
            if op == "store":
                v, p = i["ops"][0], F.pointer(i["ops"][1])
                if p is None or p[0][0] != "alloca":
                    if self.is_res(v, env) and st[0] == "I":
                        st = "?"
                elif p[1] is None:
                    for k in [k for k in env if isinstance(k, tuple) and k[0] == "slot" and k[1] == p[0]]:
                        del env[k]
                    if self.is_res(v, env):
                        st = "?"
                else:
                    x = self.value(v, env)
                    if self.is_res(v, env):
                        x = "R"
                    for k in [k for k in env if isinstance(k, tuple) and k[0] == "slot" and k[1] == p[0] and p[1] - 8 < k[2] < p[1] + i.get("size", 8)]:
                        del env[k]
                    if x is not None:
                        env[key(p)] = x
                if c.value is None and p is not None and c.here(i["ops"][1]) and st[0] in "UIVSC":
                    if st[0] in "IV":
                        c.notes.add("written to directly at " + common.where(i))
                    st = "?"
                continue
            if op == "ret":
                if i["ops"] and self.is_res(i["ops"][0], env):
                    st = "?"
                self.leaves(i, st, b, False)
                return out
            if op == "resume":
                self.leaves(i, st, b, True)
                return out
            if op == "unreachable":
                return out
            if op in ("br", "switch"):
                for x, e, guess in self.edges(b, i, env):
                    out += self.go(b, x, st, e, guess)
                return out
            # other instructions: constants
            r = None
            if op == "load":
                p = F.pointer(i["ops"][0])
                if p and p[0][0] == "alloca" and p[1] is not None:
                    r = env.get(key(p))
            elif op == "icmp":
                x, y = (self.value(o, env) for o in i["ops"])
                if x == "R" and y == 0 or y == "R" and x == 0:
                    r = {"eq": 0, "ne": 1}.get(i["pred"])
                elif isinstance(x, int) and isinstance(y, int):
                    r = {"eq": int(x == y), "ne": int(x != y), "slt": int(x < y), "sgt": int(x > y), "sle": int(x <= y), "sge": int(x >= y)}.get(i["pred"])
                elif isinstance(x, tuple) and y == 0:
                    r = {"eq": 0, "ne": 1}.get(i["pred"])
                if r is None:
                    # the same question was answered before
                    r = env.get(("q", i["pred"], repr(i["ops"])))
            elif op in ("zext", "sext", "trunc", "freeze", "bitcast"):
                r = self.value(i["ops"][0], env)
                if isinstance(r, int) and op != "freeze":
                    r = abs(r) if op == "zext" and r in (0, -1, 1) else r & 1 if op == "trunc" and i["ty"] == "i1" else r
            elif op == "xor":
                x, y = (self.value(o, env) for o in i["ops"])
                if x in (0, 1) and y in (1, -1):
                    r = 1 - x
            elif op in ("add", "sub"):
                x, y = (self.value(o, env) for o in i["ops"])
                if isinstance(x, int) and isinstance(y, int) and abs(x) < 1000 and abs(y) < 1000:
                    r = x + y if op == "add" else x - y
            elif op == "and":
                vs = [self.value(o, env) for o in i["ops"]]
                r = 0 if 0 in vs else (vs[0] if vs[0] == vs[1] else None)
            elif op == "select":
                x = self.value(i["ops"][0], env)
                if x is not None:
                    r = self.value(i["ops"][1 if x else 2], env)
                elif self.value(i["ops"][1], env) == self.value(i["ops"][2], env):
                    r = self.value(i["ops"][1], env)
            if "id" in i:
                if r is None:
                    env.pop(i["id"], None)
                else:
                    env[i["id"]] = r
        return out

    def escaped(self):
        if not hasattr(self.F, "esc"):
            e = set()
            for _, i in self.F.calls():
                pass
            for b in self.F.blocks.values():
                for i in b:
                    if i["op"] == "store":
                        p = self.F.pointer(i["ops"][0])
                        if p and p[0][0] == "alloca":
                            e.add(p[0])
            self.F.esc = e
        return self.F.esc

    def go(self, b, x, st, env, guess=False):
        new = {}
        for i in self.F.blocks[x]:
            if i["op"] != "phi":
                break
            r = None
            for src, v in i["in"]:
                if src == b:
                    r = self.value(v, env)
                    if self.is_res(v, env):
                        r = "R"
            new[i["id"]] = r
        for k, v in new.items():
            if v is None:
                env.pop(k, None)
            else:
                env[k] = v
        return [(x, st, env, guess)]

    def unwound(self, i, n, d, before, after):
        """the state after a call that throws"""
        return before if after != before and before[0] in "U" else after

    def leaves(self, i, st, b, exceptional):
        c = self.c
        ok = c.unwind if exceptional else c.leave
        if st[0] == "K":
            if "I" in ok and "U" not in ok and self.copies[int(st[1:])] in self.kept:
                self.problem(i, "what it owns is also owned by the object it has been copied to", st, b)
            return
        if st[0] not in ok:
            verb = "when an exception leaves the function here" if exceptional else "when the function returns"
            if st[0] == "S" and "U" not in ok and "C" not in ok:
                self.problem(i, "shows what another object owns " + verb, st, b)
            elif st[0] in "IV":
                self.problem(i, ("a view is not released " if st[0] == "V" else "not released ") + verb, st, b)
            elif st[0] == "U":
                self.problem(i, "not initialised " + verb, st, b)
            elif st[0] == "C":
                self.problem(i, "already released " + verb, st, b)

    def call(self, i, n, d, st, env, b):
        c = self.c
        if c.value is not None:
            if i["id"] == c.value:
                if st[0] == "I":
                    self.problem(i, "not released before the next one is made", st, b)
                return "I"
            mine = [a for a in i["args"] if self.is_res(a, env)]
            if not mine:
                return st
            if re.match(c.release, n):
                if st[0] == "C":
                    self.problem(i, "released twice", st, b)
                return "C"
            if FREES.match(n) or split(n) and split(n)[0] == "clear" or re.match(r"^_\w+_vec_clear$", n):
                self.problem(i, "made for %s but released with %s" % (c.release.strip("^$"), d or n), st, b)
                return "C"
            if st[0] == "C" and not n.startswith("llvm."):
                self.problem(i, "used after it was released", st, b)
            if n == "realloc" or n == "flint_realloc":
                return "?"
            return st
        what = split(n)
        if what is None:
            if n.startswith(("llvm.memcpy", "llvm.memmove")):
                to, of = self.F.pointer(i["args"][0]), self.F.pointer(i["args"][1])
                whole = i["args"][2].get("k") == "int" and int(i["args"][2]["v"]) >= c.size
                if c.here(i["args"][0]) == "exact" and st[0] in "UCK" and whole:
                    # takes over what the other object owns
                    return "I"
                if c.here(i["args"][1]) == "exact" and st[0] == "I" and whole and to is not None:
                    self.copies[i["id"]] = to
                    return "K%d" % i["id"]
                if c.here(i["args"][1]) and not c.here(i["args"][0]):
                    return st
            if n.startswith("llvm.mem"):
                if c.here(i["args"][0]) and st[0] in "UIVC":
                    if st[0] in "IV":
                        c.notes.add("written to directly at " + common.where(i))
                    return "?"
                return st
            if n.startswith("llvm.") or n in ("__cxa_begin_catch",):
                return st
            if re.match(r"^_Zd[la]Pv", n):
                p = self.F.pointer(i["args"][0])
                if p and p[0] == c.root and c.root[0] == "v":
                    if st[0] in "IV":
                        self.problem(i, "its storage is freed before it is released", st, b)
                    return "?"
                return st
            touched = [a for a in i["args"] if self.touch(a)]
            if touched:
                if st[0] == "U" or st[0] == "C":
                    return "?"
                if re.search(r"::~\w+\(", d) and c.root[0] != "alloca":
                    return "?"
                if st[0] == "I" and re.search(r"::~\w+\(", d):
                    return "?"
            if st[0] == "V" and self.view_source(i, n, d):
                self.problem(i, "the view's source may be gone or changed", st, b)
            return st
        act, kind = what
        args = i["args"]
        many = bool(re.search(r"_(init|clear)s$", n))
        dest = args if many else args[:1]
        hit = [self.c.here(a) for a in dest]
        rest = [self.c.here(a) for a in args[len(dest):]]
        if any(h == "unknown" for h in hit + rest):
            c.notes.add("addressed with an offset that is not constant at " + common.where(i))
        if act in ("init", "view", "shallow"):
            if "exact" in hit:
                if st[0] in "IV":
                    self.problem(i, "initialised again while it holds something", st, b)
                if act == "view":
                    self.src[i["id"]] = self.F.pointer(args[1])
                    return "V%d" % i["id"]
                st = "I" if act == "init" else "S"
            elif st[0] == "U" and any(h in ("exact", "inside") for h in rest):
                self.problem(i, "used before it is initialised", st, b)
            return st
        if act in ("clear", "unview"):
            if "exact" in hit:
                if kind != c.kind and SIZES.get(kind) != c.size:
                    c.notes.add("released as %s at %s" % (kind, common.where(i)))
                    return "?"
                if st[0] == "U":
                    self.problem(i, "released but never initialised", st, b)
                elif st[0] == "C":
                    self.problem(i, "released twice", st, b)
                elif act == "clear" and st[0] in "VS":
                    self.problem(i, "a view is released as if it owned what it shows", st, b)
                elif act == "unview" and st[0] == "I":
                    self.problem(i, "released as a view though it owns what it holds", st, b)
                return "C"
            if st[0] == "V" and self.view_source(i, n, d):
                self.problem(i, "the view's source is released before the view", st, b)
            return st
        used = [h for h in hit + rest if h in ("exact", "inside")]
        if used:
            if st[0] == "U":
                self.problem(i, "used before it is initialised", st, b)
                return "?"
            if st[0] == "C":
                self.problem(i, "used after it was released", st, b)
                return "?"
            if st[0] == "V" and hit and hit[0] in ("exact", "inside") and not READS.search(n):
                self.problem(i, "a view is written to", st, b)
        if st[0] == "V" and self.view_source(i, n, d):
            self.problem(i, "the view's source is changed while the view is in use", st, b)
        return st

    def touch(self, a):
        p = self.F.pointer(a)
        return p is not None and p[0] == self.c.root

    def view_source(self, i, n, d):
        """does this call change or release what the view shows?"""
        for s in self.src.values():
            if s is None or not i["args"]:
                continue
            for k, a in enumerate(i["args"]):
                p = self.F.pointer(a)
                if p is None or p[0] != s[0] or s[0][0] == "global":
                    continue
                if s[1] is not None and p[1] is not None and not (p[1] <= s[1] < p[1] + 32 or s[1] <= p[1] < s[1] + 32):
                    continue
                if LIB.match(n):
                    if k == 0 and not READS.search(n):
                        return True
                elif re.search(r"::~\w+\(\)", d) and k == 0:
                    return True
        return False


def signature(dem):
    """(scope, name, types of the parameters) of a demangled name"""
    dem = re.sub(r"( const)?( &|&)?( \[.*\])*$", "", dem)
    dem = re.sub(r"( \[clone[^\]]*\]| \(\.[\w.]+\))*$", "", dem)
    dem = re.sub(r"( const)?( &{1,2})?$", "", dem).replace("(anonymous namespace)", "{anonymous}")
    if not dem.endswith(")"):
        return "", dem, []
    for a, b in (("operator()", "operator{call}"), ("operator<=>", "operator{cmp}"), ("operator<<=", "operator{shl=}"), ("operator>>=", "operator{shr=}"), ("operator<<", "operator{shl}"), ("operator>>", "operator{shr}"),
                 ("operator->", "operator{arrow}"), ("operator<=", "operator{le}"), ("operator>=", "operator{ge}")):
        dem = dem.replace(a, b)
    dem = re.sub(r"operator<(?=[<(])", "operator{lt}", dem)
    dem = re.sub(r"operator>(?=[<(])", "operator{gt}", dem)

    def back(k):
        """the start of the group that ends at k"""
        depth = 0
        while k >= 0:
            depth += dem[k] in ")>]"
            depth -= dem[k] in "(<["
            if depth == 0:
                return k
            k -= 1
        return -1
    n = len(dem) - 1
    k = back(n)
    out, cur, depth = [], "", 0
    for ch in dem[k + 1:n]:
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
            continue
        depth += ch in "(<["
        depth -= ch in ")>]"
        cur += ch
    if cur.strip():
        out.append(cur.strip())
    head = re.sub(r"\[abi:\w+\]$", "", dem[:k])
    if head.endswith(">"):
        head = re.sub(r"\[abi:\w+\]$", "", head[:back(len(head) - 1)])
    # scope and name, without the type that is returned
    depth, cut, start = 0, -1, 0
    for m, ch in enumerate(head):
        depth += ch in "(<["
        depth -= ch in ")>]"
        if depth == 0 and ch == " " and "operator" not in head[start:m]:
            start = m + 1
        if depth == 0 and head.startswith("::", m):
            cut = m
    if cut < start:
        return "", head[start:], out
    return head[start:cut], head[cut + 2:], out


def params(dem):
    return signature(dem)[2]


def special(dem):
    """(class, ctor|dtor) of a function"""
    scope, name, _ = signature(dem)
    bare = re.sub(r"<.*>$", "", re.sub(r"^.*::(?![^<]*>)", "", scope)) if scope else ""
    if bare and name == bare:
        return scope, "ctor"
    if bare and name == "~" + bare:
        return scope, "dtor"
    return None


def roles(fn):
    """argument -> (state on entry, states on return, states when an exception leaves)"""
    out = {}
    ps = params(fn["dem"])
    names = [a.get("name", "") for a in fn["args"]]
    sp = special(fn["dem"])
    k = 0
    for n, a in enumerate(fn["args"]):
        if a.get("sret"):
            out[n] = ("U", "I?", "UC?")
        elif a.get("name") == "this":
            if sp and sp[1] == "ctor":
                out[n] = ("U", "I?", "UC?")
            elif sp and sp[1] == "dtor":
                out[n] = ("I", "C?", "C?")
            else:
                out[n] = ("I", "I?", "I?")
        else:
            t = ps[k] if k < len(ps) else ""
            k += 1
            if t.endswith("&") and not t.rstrip("&").strip().endswith("*"):
                out[n] = ("I", "I?", "I?")
            else:
                out[n] = ("?", "UIVSC?", "UIVSC?")
    return out
