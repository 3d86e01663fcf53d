"""Models of the environment of the real numbers, and questions about summaries."""
import re

import catalog
import common
import vf
from vf import T, Int, And, Or, Not, FALSE, TRUE, leaves, lift

ENTROPY = re.compile(r"\b(rand|srand|random|rand_r|drand48|lrand48|getrandom|arc4random|time|clock|clock_gettime|gettimeofday|getpid|gettid|getenv|pthread_self|times|rdtsc|__rdtsc)\(|^(rand|random|srand|drand48|lrand48|getrandom|arc4random|time|clock|clock_gettime|gettimeofday|getpid|gettid|getenv|pthread_self|times)$|random_device|chrono::|this_thread|flint_rand|_flint_rand|n_randtest|hash<std::thread")


def factory(A, name, dem, i, args, mem):
    """on_call hook: the unique factory's two entry points"""
    if name == "verif_factory_lookup":
        A.event(i, "lookup", args, extra=snapshot(A, mem, args[1]))
        found = vf.atom(T("found", i["id"]))
        before = A.read(mem, "raw8", args[2])
        A.write(mem, "raw8", args[2], vf.ite(found, T("ptr", T("pooled", i["id"]), 0), before))
        return found
    if name == "verif_factory_register":
        A.event(i, "register", args, extra=(snapshot(A, mem, args[1]), A.read(mem, "raw8", args[2]), mem.clone()))
        return None
    if name == "verif_factory_keys":
        A.event(i, "keys", args)
        return None
    if name and "reserve" in (dem or "") and re.search(r"::reserve\(", dem):
        return None
    return NotImplemented


def snapshot(A, mem, p):
    """the cells of the object at p: {(kind, offset): value}"""
    out = {}
    for q in leaves(p):
        if q.op != "ptr":
            q = T("ptr", q, 0)
        root, off = q.args
        for (k, r, o), v in mem.cells.items():
            if r is root and o >= off and not k.startswith("life:") and v.op not in ("gone", "undef"):
                out[(k, o - off)] = v
    return out


def relevant(t, pc):
    """guarded leaves of t that occur under pc"""
    out = []
    for g, l in vf.guarded_leaves(t):
        h = And(g, pc)
        if h is not FALSE:
            out.append((h, l))
    return out


def exists(dd, pred):
    """quantify the atoms satisfying pred existentially"""
    memo = {}

    def go(t):
        if t.op != "ite":
            return t
        r = memo.get(t.id)
        if r is None:
            hi, lo = go(t.args[1]), go(t.args[2])
            r = Or(hi, lo) if pred(t.args[0]) else vf.ite(vf.atom(t.args[0]), hi, lo)
            memo[t.id] = r
        return r
    return go(dd)


def mentions(t, what):
    return any(x is what for x in vf.walk(t))


def influence(t, pc, what):
    """Does the term `what` influence the value t (given pc), beyond pc itself?
    Returns a description of the influence, or None."""
    rel = relevant(t, pc)
    for g, l in rel:
        if mentions(l, what):
            return "%r is computed from it" % l
    pred = lambda a: mentions(a, what)
    proj = [(exists(g, pred), l) for g, l in rel]
    for k, (g, l) in enumerate(proj):
        for h, m in proj[k + 1:]:
            if And(g, h) is not FALSE:
                return "it decides between %r and %r" % (l, m)
    return None


class Lab:
    """Lower some functions of the tree (and drivers) and summarise them."""

    def __init__(self, facts, rep, units, roots, code="", includes=(), opaque=common.OPAQUE, on_call=None, extra=()):
        self.rep = rep
        srcs = list(units)
        if code:
            srcs.append(("drivers", "\n".join("#include <%s>" % i if not i.startswith('"') else "#include %s" % i for i in includes) + "\nusing namespace exactreal;\nnamespace verif_driver {\n" + code + "\n}\n"))
        bcs = facts.compile(srcs, extra=extra)
        data = facts.lower(bcs, roots=roots, opaque=opaque)
        self.cat = catalog.Catalog(common.BUILD)
        self.globals = {g["name"]: g for g in data["globals"]}
        self.fns = data["functions"]
        self.invokers = {f["name"]: f for f in data.get("invokers", ())}
        self.on_call = on_call or factory
        self.Analysis = vf.Analysis
        rep.count("library units", len(units))
        self.memo = {}

    def find(self, pat, least=1):
        out = [f for f in self.fns if re.search(pat, f["dem"])]
        if len(out) < least:
            raise common.Unfamiliar("no function matches " + pat)
        return out

    def driver(self, name):
        return self.find(r"^verif_driver::%s\(" % name)[0]

    def run(self, fn, on_call=None, **kw):
        A = self.Analysis(fn, self.cat, self.globals, on_call=on_call or self.on_call)
        for k, v in kw.items():
            setattr(A, k, v)
        try:
            s = A.run()
        except (vf.TooBig, RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
            s = vf.Summary()
            s.events, s.calls, s.backs, s.loops = [], A.calls, [], {}
            s.ret = s.mem = None
            s.retpc = FALSE
            s.undecided = ["%s cannot be summarised: %s %s" % (fn["dem"][:60], type(e).__name__, e)]
        self.rep.count("functions summarised")
        self.rep.count("instructions analysed", sum(len(b["ins"]) for b in fn["blocks"]))
        return A, s


def fresh(t, seen=None):
    """subterms that matter: what a generator was like before it was seeded does not"""
    seen = set() if seen is None else seen
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            todo += x
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        todo += [a for k, a in enumerate(x.args) if k or "gmp_randseed" not in x.op]


def entropy(A, s, allowed_reads, what=None):
    """Sources the facts of a summary depend on other than the allowed ones.
    allowed_reads: term -> bool for inputs read from memory."""
    bad = []
    seen = set()
    terms = []
    for e in s.events:
        if ENTROPY.search(e["name"]) and "exactreal::" not in e["name"]:
            bad.append(("calls " + e["name"].split("(")[0], common.where(e["ins"])))
        for a in e["args"]:
            terms.append((a, e))
        x = e["extra"]
        if re.search("gmp_rand(init|seed|clear)", e["name"]):
            # the previous state of the generator is dropped
            x = [y for y in x or [] if isinstance(y, T) and not any(z.op == "in" and z.args[0] == "gmprand" for z in vf.walk(y))]
        for a in (x.values() if isinstance(x, dict) else x if isinstance(x, (list, tuple)) else [x]):
            if isinstance(a, T):
                terms.append((a, e))
    for t, e in terms:
        for x in fresh(t, seen):
            if x.op == "in" and not allowed_reads(x):
                bad.append(("reads %r" % x, common.where(e["ins"])))
            if x.op in ("ptrtoint",):
                bad.append(("uses an address as a number", common.where(e["ins"])))
    for n, i in s.calls:
        if n and ENTROPY.search(n) and not n.startswith("_ZN") or n and re.search("random_device|chrono", n):
            bad.append(("calls " + n, common.where(i)))
    return bad


def maps(value, offset):
    """on_call hook: maps whose values are of the given kind, as arrays of
    slots.  offset(dem) -> offset of the value in a node."""
    def hook(A, name, dem, i, args, mem):
        m = re.search(r"std::(unordered_map|map)<", dem or "")
        op = re.search(r"::(find|end|begin|operator\[\]|at|clear|size|count|contains|empty|reserve|erase|emplace|try_emplace|insert|insert_or_assign)(<.*>)?\([^()]*(\([^()]*\)[^()]*)*\)( const)?$", dem or "")
        if not m or not op:
            return NotImplemented
        op = op.group(1)
        cachedoff = 32 if m.group(1) == "map" else 8
        this = args[0]
        where_ = this.args[0] if this.op == "ptr" else this
        off = this.args[1] if this.op == "ptr" else 0
        if this.op == "ite" or not isinstance(off, int):
            A.undecided.append("a map chosen at run time")
            return T("callret", dem, this)
        slot_ = slot = lambda k: T("slot", where_, off, k)
        if op in ("find", "operator[]", "at", "count", "contains"):
            key = A.read(mem, "raw8", args[1])
            A.event(i, "map " + op, [this, key])
            if op == "find":
                return lift(lambda k: T("ptr", slot(k), 0), key)
            if op in ("count", "contains"):
                return lift(lambda k: vf.ite(vf.atom(T("absent", slot(k))), Int(0), Int(1)), key)
            return lift(lambda k: T("ptr", slot(k), cachedoff + 8), key)
        if op == "end":
            return T("ptr", T("end", where_, off), 0)
        if op in ("emplace", "try_emplace", "insert_or_assign") and len(args) == 3 and value:
            key, v = A.read(mem, "raw8", args[1]), A.read(mem, value, args[2])
            A.event(i, "map " + op, [this, key])
            at = lift(lambda k: T("ptr", slot_(k), cachedoff + 8), key)
            absent = lift(lambda k: vf.icmp("eq", T("ptr", slot_(k), 0), T("ptr", T("end", where_, off), 0)), key)
            old = A.read(mem, value, at)
            A.write(mem, value, at, v if op == "insert_or_assign" else vf.ite(absent, v, old))
            return lift(lambda k: T("agg", (T("ptr", slot_(k), 0), absent)), key)
        if op in ("clear", "erase"):
            A.event(i, "map " + op, [this])
            for k in [k for k in mem.cells if k[1].op == "slot" and k[1].args[:2] == (where_, off)]:
                mem.cells[k] = T("undef")
            return None
        if op in ("size", "empty"):
            return T("callret", op, T("in", "map", where_, off), i["id"])
        if op == "reserve":
            return None
        A.undecided.append("map operation " + dem[:60])
        return T("callret", dem, this)
    return hook


def chain(*hooks):
    def on_call(A, name, dem, i, args, mem):
        for h in hooks:
            r = h(A, name, dem, i, args, mem)
            if r is not NotImplemented:
                return r
        return NotImplemented
    return on_call


def virtual_arf(slotname="digits"):
    """on_call hook: a virtual call f(result, this, prec) through a vtable whose result is an Arf"""
    def hook(A, name, dem, i, args, mem):
        if name is not None and not re.search(r"::arf_?\(long\) const$", dem or ""):
            return NotImplemented
        if len(args) != 3 or i.get("argtys") != ["ptr", "ptr", "i64"]:
            return NotImplemented
        v = lift(lambda t, q: T(slotname, t, q), args[1], args[2])
        A.event(i, slotname, [args[1], args[2]])
        A.write(mem, "arf", args[0], v)
        A.catalog.alive(A, mem, "arf", args[0], "live")
        return None
    return hook
