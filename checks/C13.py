"""Real numbers and modules have one identity."""
import functools
import itertools
import zlib
from fractions import Fraction as F

from world import *
import interp
from interp import Unknown
import seq
import unroll
import C18
from C18 import Free, Threw, Outside, Lost, PROBLEMS, bare, REF

OPQ = common.OPAQUE + r"|^.*ostream.* exactreal::operator<<|^(void |bool )?" + unroll.REFCOUNT + r"|^std::type_info::operator==|^exactreal::RealNumber::(operator==|rational)\(|^exactreal::RealNumberBase::id\(" + C18.ALG
MASK = (1 << 64) - 1


class Rec:
    """a key"""

    def __init__(self, cells):
        self.cells = cells


class Num:
    """a real number: its meaning (a rational factor and exponents of the symbols), its id, its cells"""

    def __init__(self, meaning, id, cells=None, type=None):
        self.meaning, self.id, self.cells = meaning, id, dict(cells or {})
        if type:
            self.cells["raw8", 0] = ("vtable", type)
        # std::enable_shared_from_this
        self.cells.setdefault(("raw8", 8), self)
        self.cells["raw8", 16] = ("&", T("owner", id), 0)

    def __repr__(self):
        q, e = self.meaning
        s = "*".join("abcd"[k] + ("^%d" % n if n > 1 else "") for k, n in enumerate(e) if n)
        return s if s and q == 1 else "%s%s" % (q, "*" + s if s else "")


def times(x, y):
    return (x[0] * y[0], tuple(a + b for a, b in zip(x[1], y[1])))


def over(x, y):
    e = tuple(a - b for a, b in zip(x[1], y[1]))
    return (x[0] / y[0], e) if min(e) >= 0 else None


def rational(m):
    return not any(m[1])


def hook(A, name, dem, i, args, mem):
    d = dem or ""
    if re.match(r"^std::type_info::operator==\(", d):
        return lift(lambda a, b: vf.atom(T("sametype", a, b)), args[0], args[1])
    if re.match(r"^exactreal::RealNumberBase::RealNumberBase\(\)", d):
        return None
    m = re.match(r"^(?:bool )?std::operator(==|!=)<(.*)>\(std::vector<(.*)> const&, std::vector<.*> const&\)$", d)
    if m:
        r = lift(lambda a, b: vf.atom(T("samevec", a, b)), *[A.read(mem, "vec", x) for x in args[:2]])
        return r if m.group(1) == "==" else Not(r)
    return NotImplemented


class Objects(Free):
    """addresses of real numbers, and what is stored there"""

    def __init__(self, env, lab, pool, flip=False):
        super().__init__(env, lab, "RationalField", flip)
        self.pool = pool

    def target(self, t):
        while t.op == "ptr" and t.args[1] == 0:
            t = t.args[0]
        v = self(t)
        if isinstance(v, tuple) and len(v) == 2 and v[0] is REF:
            v = v[1]
        return v

    def number(self, t):
        v = self.target(t)
        if not isinstance(v, Num):
            raise Unknown("not a real number: %r" % (t,))
        return v

    def op_ptr(self, b, o):
        if b.op == "global" and b.args[0].startswith("_ZTV"):
            return ("vtable", b.args[0][4:])
        if b.op in ("arg", "at", "in", "loop", "constant", "gmul", "gdiv", "pooled", "callret", "entry", "elem", "new"):
            try:
                v = self(b)
            except Unknown:
                v = None
            if isinstance(v, (Num, Rec)):
                return v if o == 0 else ("part", v, o)
            if isinstance(v, tuple) and v[:1] == ("part",):
                return (v[0], v[1], v[2] + o)
        return super().op_ptr(b, o)

    def op_global(self, name):
        if name.startswith("_ZTI"):
            return ("typeinfo", name[4:])
        raise Unknown("global")

    def op_in(self, kind, root, off):
        try:
            v = self(root)
        except Unknown:
            v = None
        if isinstance(v, tuple) and v[:1] == ("part",):
            v, off = v[1], off + v[2]
        if isinstance(v, tuple) and v[:1] == ("vtable",) and (kind, off) == ("raw8", -8):
            return ("typeinfo", v[1])
        if isinstance(v, (Num, Rec)):
            if (kind, off) in v.cells:
                return v.cells[kind, off]
            raise Unknown("%s+%s of %r" % (kind, off, v))
        return super().op_in(kind, root, off)

    def op_sametype(self, a, b):
        a, b = self.typeof(a), self.typeof(b)
        return int(a == b)

    def typeof(self, t):
        v = self(t.args[0] if t.op == "ptr" and t.args[1] == 0 else t)
        if not isinstance(v, tuple) or v[0] != "typeinfo":
            raise Unknown("not a type")
        return v

    def op_mul(self, x, y):
        v = super().op_mul(x, y)
        return interp.wrap(v, 64) if isinstance(v, int) and abs(v) >> 63 else v

    def op_invoked(self, name, *args):
        memo = self.lab.memo
        if name not in memo:
            A, s = summary(self.lab, self.lab.invokers[name])
            memo[name] = s, None if s.undecided or s.ret is None else C18.Follow(s, 80, [s.ret, s.retpc])
        s, fl = memo[name]
        if fl is None:
            raise Unknown("a function object")
        m = type(self)({T("in", w, T("arg", k + 1), 0): self(a) for k, (w, a) in enumerate(zip(widths(name, len(args)), args))}, self.lab, self.pool, self.flip)
        fl.run(m)
        if not m.holds(s.retpc):
            raise Threw("an exception")
        return m(s.ret)

    def op_samevec(self, a, b):
        a, b = self.vec(a), self.vec(b)
        for x, y in zip(a, b):
            if set(x) != set(y):
                raise Unknown("vectors of different things")
        return int(len(a) == len(b) and all(x[k] == y[k] for x, y in zip(a, b) for k in x if k != ("raw8", 8)))

    def op_sorted(self, how, c):
        v = self.vec(c)
        m = re.search(r"(\w+)\([^()]*\)(?: const)?::(\$_\d+)$", how)
        fs = [f for f in self.lab.fns if f["dem"].startswith(("auto %s::operator()" % how, "%s::operator()" % how)) or m and f["dem"].startswith("_ZZ") and re.search(r"%d%sE.*%scl" % (len(m.group(1)), m.group(1), re.escape(m.group(2))), f["name"])]
        if how == "<" or len(fs) != 1:
            raise Unknown("the order of a sort: %d functions" % len(fs))
        if fs[0]["name"] not in self.lab.memo:
            self.lab.memo[fs[0]["name"]] = summary(self.lab, fs[0])[1]
        s = self.lab.memo[fs[0]["name"]]
        if s.undecided or s.ret is None:
            raise Unknown("the order of a sort")

        def less(x, y):
            m = type(self)({T("in", k, T("arg", j), o): val for j, r in ((1, x), (2, y)) for (k, o), val in r.items()}, self.lab, self.pool, self.flip)
            return m.holds(s.ret)
        return tuple(sorted(v, key=functools.cmp_to_key(lambda x, y: -1 if less(x, y) else 1 if less(y, x) else 0)))

    def op_memcmp(self, a, b, n):
        n = self(n)
        out = []
        for x in (a, b):
            if x.op != "at" or x.args[3] != 0:
                raise Unknown("memcmp")
            v, k = self.vec(x.args[1]), int(self(x.args[2]))
            width = {int(kind[3:]) for r in v for kind, o in r if kind.startswith("raw")}
            if len(width) > 1 or v and not width:
                raise Unknown("memcmp")
            m = n // width.pop() if width else n and 1
            if k + m > len(v):
                raise Outside("reading behind the end of a vector")
            out.append([tuple(r.values()) for r in v[k:k + m]])
        return int(out[0] != out[1])

    def op_entries(self, c):
        # the nodes of std::map start with 32 bytes of their own
        return tuple({**r, **{(k, o + 32): v for (k, o), v in r.items()}} for r in super().op_entries(c))

    def op_found(self, *a):
        return 0

    def of(self, meaning):
        if meaning not in self.pool:
            raise Unknown("a number that has not been made")
        return self.pool[meaning]

    def op_gmul(self, a, b):
        return self.of(times(self.number(a).meaning, self.number(b).meaning))

    def op_gdiv(self, a, b):
        m = over(self.number(a).meaning, self.number(b).meaning)
        if m is None:
            raise Outside("a quotient that does not exist is used")
        return self.of(m)

    def op_divides(self, a, b):
        return int(over(self.number(b).meaning, self.number(a).meaning) is not None)

    def op_idof(self, g):
        return self.number(g).id

    def op_isrational(self, g):
        return int(rational(self.number(g).meaning))

    def op_rationalof(self, g):
        g = self.number(g)
        if not rational(g.meaning):
            raise Outside("the rational value of an irrational number")
        return g.meaning[0]

    def op_constant(self, q):
        return self.of((F(self(q)), (0,) * 3))

    def op_less(self, a, b):
        raise Unknown("order")


def lab(facts, rep, units, roots, extra=("-DNDEBUG",)):
    l = Lab(facts, rep, units, C18.NOALG + roots + r"|^verif_driver::", C18.CODE, ["exact-real/real_number.hpp"], opaque=OPQ, extra=list(extra) + ["-DVERIF_KEYS"])
    l.Analysis = seq.Seq
    l.slots = {}
    for what in ("product", "quotient", "rational"):
        def note(A, name, dem, i, args, mem):
            if name is None and len(args) == (2 if what == "rational" else 3):
                l.slots[what] = C18.slotof(A)
            return NotImplemented
        l.run(l.driver(what), on_call=note)
    if len(set(l.slots.values())) != 3:
        raise common.Unfamiliar("products and quotients of real numbers are not virtual")
    return l


SIZES = dict.fromkeys("ahcb", 1) | dict.fromkeys("st", 2) | dict.fromkeys("ij", 4)


def widths(name, n):
    """how the arguments of a function object are read (they are passed by reference)"""
    m = re.match(r"_ZNSt17_Function_handlerIF[a-z](\w{%d})E" % n, name)
    return ["raw%d" % SIZES.get(c, 8) for c in m.group(1)] if m else ["raw8"] * n


def invoked(l):
    """calls of std::function objects"""
    def h(A, name, dem, i, args, mem):
        if name in l.invokers:
            return lift(lambda *v: T("invoked", name, *v), *[A.read(mem, k, x) for k, x in zip(widths(name, len(args) - 1), args[1:])])
        return NotImplemented
    return h


def summary(l, f):
    # archives have virtual functions of their own
    slots = {k: None for k in l.slots} if "cerealizer&" in f["dem"] else l.slots
    return l.run(f, slots=slots, on_call=chain(invoked(l), hook, C18.hook, unroll.refcounts, *seq.HOOKS, factory))


def pick(m, t):
    """the leaf of t that the model chooses"""
    while t.op == "ite":
        t = t.args[1] if m.holds(t.args[0]) else t.args[2]
    return t


def settle(m, cells):
    """the values of cells (those that have one)"""
    out = {}
    for k, v in cells.items():
        try:
            out[k] = m(pick(m, v))
        except (Threw, Outside):
            raise
        except PROBLEMS:
            pass
    return out


class Maker:
    """a function that hands out pooled objects"""

    def __init__(self, l, f, Model=Objects, out=0):
        self.l, self.f, self.Model = l, f, Model
        self.A, self.s = summary(l, f)
        s = self.s
        self.problem = "; ".join(map(str, s.undecided))[:200] or (s.mem is None and "never returns") or None
        self.place = common.where(f["blocks"][0]["ins"][-1]) if f["blocks"][0]["ins"] else None
        self.lookups = [e for e in s.events if e["name"] == "lookup"]
        self.registers = [e for e in s.events if e["name"] == "register"]
        self.keys = [e for e in s.events if e["name"] == "keys"]
        if self.problem:
            return
        terms = [s.retpc] + [e["pc"] for e in s.events if e["name"] in ("lookup", "register")]
        self.ret = self.A.read(s.mem, "raw8", T("ptr", T("arg", out), 0))
        terms.append(self.ret)
        self.made = []
        for e in self.lookups:
            terms += e["extra"].values()
        for e in self.registers:
            key, obj, mem = e["extra"]
            self.made.append((key, obj, {leaf: snapshot(self.A, mem, leaf) for leaf in leaves(obj)}))
            terms += list(key.values()) + [obj]
            for c in self.made[-1][2].values():
                terms += c.values()
        self.follow = C18.Follow(s, 60, [t for t in terms if isinstance(t, T)])

    def functions(self):
        """how the keys of the factory are hashed and compared"""
        out = set()
        for e in self.keys:
            out.add(tuple(bare(x).args[0] for x in e["args"][1:3]))
        return out

    def run(self, env, pool, flip=False):
        """-> dict: looked up key, registered key, cells of the new object, the object returned"""
        m = self.Model(env, self.l, pool, flip)
        self.follow.run(m)
        out = {"model": m, "lookup": None, "register": None, "cells": None, "ret": None, "returns": None}
        for e in self.lookups:
            if m.holds(e["pc"]):
                if out["lookup"] is not None:
                    raise Unknown("two lookups")
                out["lookup"] = settle(m, e["extra"])
        for e, (key, obj, cells) in zip(self.registers, self.made):
            if m.holds(e["pc"]):
                if out["register"] is not None:
                    raise Unknown("two registrations")
                out["register"] = settle(m, key)
                out["object"] = pick(m, obj)
                out["cells"] = settle(m, cells[out["object"]])
        if not m.holds(self.s.retpc):
            raise Threw("an exception")
        out["returns"] = pick(m, self.ret)
        return out


class Keys:
    """how the keys of one factory are compared and hashed"""

    def __init__(self, l, names, Model, pool):
        self.l, self.Model, self.pool = l, Model, pool
        self.problem = None
        self.parts = []
        for n in names:
            fs = [f for f in l.fns if f["name"] == n]
            if len(fs) != 1:
                self.problem = "the comparison of keys is not lowered"
                return
            A, s = summary(l, fs[0])
            if s.undecided or s.ret is None:
                self.problem = "; ".join(map(str, s.undecided))[:200] or "comparing keys never returns"
                return
            self.parts.append((s, C18.Follow(s, 60, [s.ret, s.retpc])))
        self.memo = {}

    def ask(self, which, *recs):
        at = (which,) + tuple(id(r) for r in recs)
        if at not in self.memo:
            s, fl = self.parts[which]
            m = self.Model({T("arg", k): r for k, r in enumerate(recs)}, self.l, self.pool)
            fl.run(m)
            if not m.holds(s.retpc):
                raise Threw("an exception")
            v = m(s.ret)
            self.memo[at] = (int(bool(v)) if which else v), recs
        return self.memo[at][0]

    def hash(self, a):
        return self.ask(0, a)

    def equal(self, a, b):
        return self.ask(1, a, b)


def symbols():
    ids = (2147483700, 2147483659, 2147483673)
    pool = {}
    for k in range(3):
        m = (F(1), tuple(int(j == k) for j in range(3)))
        pool[m] = Num(m, ids[k], type="a symbol")
    for q, i in ((F(1), 2147483661), (F(2), 2147483667)):
        pool[q, (0, 0, 0)] = Num((q, (0, 0, 0)), i, type="a rational")
    return pool


ONE = (F(1), (0, 0, 0))


def decode(cells):
    """what a product says that it is; None if it does not say so in the usual way"""
    nums = [v for (k, o), v in cells.items() if k == "vec" and v and all(isinstance(r.get(("raw8", 0)), Num) for r in v)]
    exps = [v for (k, o), v in cells.items() if k == "vec" and v and all(isinstance(r.get(("raw4", 0)), int) for r in v)]
    if len(nums) == 1 and not exps and any(k == "vec" and not v for (k, o), v in cells.items()):
        return "a number with %d factors and no exponents" % len(nums[0])
    if len(nums) != 1 or len(exps) != 1:
        return None
    m = ONE
    if len(nums[0]) != len(exps[0]):
        return "a number with %d factors and %d exponents" % (len(nums[0]), len(exps[0]))
    for x, e in zip(nums[0], exps[0]):
        e = e["raw4", 0]
        if e <= 0:
            return "a product with an exponent %d" % e
        q, es = x["raw8", 0].meaning
        m = times(m, (q ** e, tuple(a * e for a in es)))
    return m


def products(l, rep):
    ops = {}
    for key, pat in (("times", r"^exactreal::RealNumber::operator\*\("), ("over", r"RealNumberProduct::operator/\(")):
        fs = [f for f in l.find(pat, 0) if "'lambda" not in f["dem"] and "$_" not in f["dem"]]
        if len(fs) != 1:
            rep.ob("product:" + key, None, "%d functions" % len(fs))
            return
        ops[key] = Maker(l, fs[0])
        if ops[key].problem:
            rep.ob("product:" + key, None, ops[key].problem, ops[key].place)
            return
    mul, div = ops["times"], ops["over"]
    names = mul.functions() | div.functions()
    if len(names) != 1:
        rep.ob("product:keys", None, "%d kinds of keys" % len(names), mul.place)
        return
    pool = symbols()
    keys = Keys(l, sorted(names)[0], Objects, pool)
    if keys.problem:
        rep.ob("product:keys", None, keys.problem, mul.place)
        return
    syms = [n for n in pool.values() if not rational(n.meaning)]
    meanings = [(F(1), e) for d in (2, 3) for e in itertools.product(range(d + 1), repeat=3) if sum(e) == d]
    meanings += [(F(1), e) for e in ((2, 2, 0), (4, 0, 0), (1, 2, 1), (0, 1, 3), (2, 1, 2), (6, 0, 0), (2, 4, 0), (3, 3, 3))]
    stored, asked = {}, {}

    def act(mk, x, y, what):
        """run one operation; complaint or (lookup, result)"""
        rep.count("products and quotients")
        return mk.run({T("arg", 1): x, T("arg", 2): y}, pool)

    def one(key, what, f):
        """f() -> complaint or None"""
        try:
            return f()
        except Threw as e:
            return "%s: %s" % (what, e)
        except Outside as e:
            return "%s: %s" % (what, e)
        except unroll.Endless:
            return "%s never ends" % what

    bad = {"product:value": None, "product:registered": None, "product:shared": None, "product:hash": None, "quotient": None}
    n = {k: 0 for k in bad}

    def note(key, text):
        n[key] += 1
        if text and not bad[key]:
            bad[key] = text

    def outcome(mk, x, y, what, want, o=None):
        try:
            r = mk.run({T("arg", 1): x, T("arg", 2): y}, pool)
        except (Threw, Outside) as e:
            note("product:value" if mk is mul else "quotient", "%s: %s" % (what, e))
            return
        except unroll.Endless:
            note("product:value" if mk is mul else "quotient", "%s never ends" % what)
            return
        rep.count("products and quotients")
        vkey = "product:value" if mk is mul else "quotient"
        if mk is div:
            there = r["model"](pick(r["model"], mk.A.read(mk.s.mem, "raw1", T("ptr", T("arg", 0), 16))))
            if not int(there) & 1:
                note(vkey, "%s is said not to exist" % what if want is not None else None)
                return
            if want is None:
                note(vkey, "%s is said to exist" % what)
                return
        if r["lookup"] is None:
            v = r["model"](r["returns"])
            if not isinstance(v, Num):
                raise Unknown("%s is %r" % (what, v))
            note(vkey, None if v.meaning == want else "%s is %r" % (what, v))
            if r["register"] is not None:
                note("product:registered", "%s is registered without looking for it" % what)
            return
        if r["register"] is None:
            note("product:registered", "%s is created without being registered" % what)
            return
        got = decode(r["cells"])
        if got is None:
            raise Unknown("the factors of %s" % what)
        note(vkey, None if got == want else "%s is %s" % (what, got if isinstance(got, str) else Num(got, 0)))
        note("product:registered", None if r["returns"] is r["object"] else "%s: the object returned is not the one that is registered" % what)
        look, key = Rec(r["lookup"]), Rec(r["register"])
        if want not in stored:
            z = Num(want, 2147483800 + 11 * len(stored), r["cells"])
            pool[want] = z
            z.key = key
            stored[want] = key
        asked.setdefault(want, []).append((what, look))
        again = Rec(r["register"])
        note("product:shared", None if keys.equal(stored[want], again) and keys.equal(again, stored[want]) else "%s is registered under another key than before" % what)
        note("product:hash", None if keys.hash(stored[want]) == keys.hash(again) == keys.hash(look) else "%s: keys of the same number have different hashes" % what)

    try:
        for want in meanings:
            for x, y in [(x, y) for x in list(pool.values()) for y in list(pool.values())]:
                if times(x.meaning, y.meaning) == want and not rational(x.meaning) and not rational(y.meaning):
                    outcome(mul, x, y, "%r * %r" % (x, y), want)
            if want not in pool and sum(want[1]) > 3:
                continue
        nums = list(pool.values())
        for x in nums:
            if rational(x.meaning):
                continue
            outcome(mul, x, pool[ONE], "%r * 1" % x, x.meaning)
            for y in nums:
                if x.meaning not in stored or rational(y.meaning) and y.meaning != ONE:
                    continue
                if sum(x.meaning[1]) > 4 and sum(y.meaning[1]) > 2:
                    continue
                q = over(x.meaning, y.meaning)
                if q is not None and q not in pool:
                    continue
                outcome(div, x, y, "%r / %r" % (x, y), q)
        # powers with exponents that do not fit in a byte or two
        for x in (syms[0], pool[(F(1), (1, 1, 0))]):
            at = x
            for k in range(1, 18):
                want = times(at.meaning, at.meaning)
                outcome(mul, at, at, "%r * %r" % (at, at), want)
                if want not in pool:
                    break
                outcome(mul, pool[want], syms[0], "%r * %r" % (pool[want], syms[0]), times(want, syms[0].meaning))
                outcome(div, pool[want], at, "%r / %r" % (pool[want], at), at.meaning)
                up = times(want, syms[0].meaning)
                if up in pool:
                    outcome(div, pool[up], syms[0], "%r / %r" % (pool[up], syms[0]), want)
                at = pool[want]
        for w, ls in asked.items():
            for what, look in ls:
                for z, key in stored.items():
                    if sum(z[1]) > sum(w[1]) + 1 or sum(w[1]) > sum(z[1]) + 1:
                        continue
                    e = keys.equal(look, key), keys.equal(key, look)
                    rep.count("comparisons of keys", 2)
                    if z == w:
                        note("product:shared", None if all(e) else "%s is not found although it has been made" % what)
                    else:
                        note("product:shared", "%s is taken for %r" % (what, Num(z, 0)) if any(e) else None)
        pooled = 0
        for mk, x, y in ((mul, syms[0], syms[1]), (mul, syms[0], syms[0])):
            class Found(Objects):
                def op_found(self, *a):
                    return 1
            mk.Model, was = Found, mk.Model
            r = mk.run({T("arg", 1): x, T("arg", 2): y}, pool)
            mk.Model = was
            note("product:registered", None if r["register"] is None and bare(r["returns"]).op == "pooled" else "%r * %r is not the number that was found" % (x, y))
    except PROBLEMS as e:
        for k in bad:
            rep.ob(k, False if bad[k] else None, bad[k] or "%s: %s" % (type(e).__name__, e), mul.place if k != "quotient" else div.place)
        return
    for k in bad:
        rep.ob(k, False if bad[k] else True if n[k] else None, bad[k] or "right in all %d cases" % n[k], mul.place if k != "quotient" else div.place)
    loads(l, rep, pool, sorted(names)[0])
    return pool


def algebra(facts, rep):
    """products and quotients of rationals and of numbers that are no products"""
    l = lab(facts, rep, ["real_number", "rational_real_number"], r"^exactreal::RealNumber::operator/\(|RationalRealNumber::operator\*\(")
    for key, pat, fits in (("quotient:generic", r"^exactreal::RealNumber::operator/\(", lambda x: True), ("product:rational", r"RationalRealNumber::operator\*\(", lambda x: rational(x.meaning))):
        fs = [f for f in l.find(pat, 0) if "'lambda" not in f["dem"] and "$_" not in f["dem"]]
        if len(fs) != 1:
            rep.ob(key, None, "%d functions" % len(fs))
            continue
        mk = Maker(l, fs[0])
        if mk.problem:
            rep.ob(key, None, mk.problem, mk.place)
            continue
        place = mk.place
        terms = [mk.ret, mk.s.retpc]
        values = {t.args[2] for x in terms for t in vf.walk(x) if t.op == "in" and t.args[0] == "mpq" and t.args[1] in (T("arg", 1), T("arg", 2))}
        if len(values) > 1:
            rep.ob(key, None, "the values at %s" % sorted(values), place)
            continue
        pool = symbols()
        for q in (F(0), F(-1), F(1, 2), F(-3, 2), F(2, 3), F(-2)):
            pool[q, (0, 0, 0)] = Num((q, (0, 0, 0)), 2147483800 + len(pool), type="a rational")
        for z in pool.values():
            if rational(z.meaning):
                for o in values:
                    z.cells["mpq", o] = z.meaning[0]
                    for k, v in ((0, z.meaning[0].numerator), (16, z.meaning[0].denominator)):
                        z.cells["mpz", o + k] = v
                        z.cells["raw4", o + k + 4] = interp.sgn(v)
        nums = list(pool.values())
        for q in {over(x.meaning, y.meaning) if key.startswith("quotient") else times(x.meaning, y.meaning) for x in nums for y in nums if rational(x.meaning) and rational(y.meaning) and y.meaning[0]}:
            pool.setdefault(q, Num(q, 2147483900 + len(pool), type="a rational"))
        there = mk.A.read(mk.s.mem, "raw1", T("ptr", T("arg", 0), 16))
        bad = und = None
        n = 0
        for x, y in [(x, y) for x in nums for y in nums if fits(x)]:
            div = key.startswith("quotient")
            zero = y.meaning[0] == 0
            what = "%r %s %r" % (x, "/" if div else "*", y)
            want = None if div and zero else over(x.meaning, y.meaning) if div else times(x.meaning, y.meaning)
            # what is not supported is reported
            may = rational(x.meaning) != rational(y.meaning) or div and rational(x.meaning)
            n += 1
            try:
                r = mk.run({T("arg", 1): x, T("arg", 2): y}, pool)
                m = r["model"]
                if div and zero:
                    bad = "%s has a value" % what
                    break
                if div and not int(m(pick(m, there))) & 1:
                    if want is not None and want in pool and not rational(x.meaning):
                        bad = "%s is said not to exist" % what
                        break
                    continue
                v = m(r["returns"])
                got = v.meaning if isinstance(v, Num) else None
                if got is None:
                    raise Unknown("%s is %r" % (what, v))
                if got != want:
                    bad = "%s is %r" % (what, v)
                    break
            except Threw as e:
                if not may and not (div and zero):
                    bad = "%s: %s" % (what, e)
                    break
            except (Outside, unroll.Endless) as e:
                bad = "%s: %s" % (what, str(e) or "it never ends")
                break
            except PROBLEMS as e:
                und = "%s: %s %s" % (what, type(e).__name__, e)
        rep.count("products and quotients", n)
        rep.ob(key, False if bad else None if und else True, bad or und or "right in all %d cases" % n, place)


def loads(l, rep, pool, names):
    """a product that is read from an archive is the one with these factors"""
    fs = l.find(r"^exactreal::load_product\(", 0)
    if len(fs) != 1 or pool is None:
        rep.ob("product:load", None, "reading products is not lowered" if pool else "products are not understood")
        return
    mk = Maker(l, fs[0], out=1)
    if mk.problem or len(mk.registers) != 1:
        rep.ob("product:load", None if mk.problem or mk.registers or mk.lookups else False, mk.problem or "%d registrations" % len(mk.registers), mk.place)
        return
    keys = Keys(l, names, Objects, pool)
    maps = {x for e in mk.registers for c in list(e["extra"][0].values()) + [v for d in mk.made for o in d[2].values() for v in o.values()] for x in vf.walk(c) if x.op == "mixed" and x.args[0] == "map"}
    if len(maps) != 1:
        rep.ob("product:load", None, "%d maps are read" % len(maps), mk.place)
        return
    bad = None
    n = 0
    syms = [x for x in pool.values() if not rational(x.meaning) and degree(x) == 1]
    try:
        for want, z in list(pool.items()):
            if degree(z) < 2:
                continue
            d = {(x,): {("raw4", 0): sum(a * b for a, b in zip(x.meaning[1], want[1]))} for x in syms}
            d = {k: v for k, v in d.items() if v["raw4", 0]}
            rep.count("products read")
            for flip in (False, True):
                try:
                    r = mk.run({next(iter(maps)): d}, pool, flip)
                except (Threw, Outside, unroll.Endless) as e:
                    bad = bad or "%r: %s" % (z, str(e) or "never ends")
                    continue
                n += 1
                got = decode(r["cells"] or {})
                if r["register"] is None or r["lookup"] is None:
                    bad = bad or "%r is not registered" % z
                    continue
                if got is None:
                    raise Unknown("the factors of %r" % z)
                if got != want:
                    bad = bad or "%r becomes %s" % (z, got if isinstance(got, str) else Num(got, 0))
                if r["returns"] is not r["object"]:
                    bad = bad or "%r: the object returned is not the one that is registered" % z
                look, key = Rec(r["lookup"]), Rec(r["register"])
                if not keys.equal(look, key) or not keys.equal(z.key, key) or keys.hash(z.key) != keys.hash(key) or keys.hash(look) != keys.hash(key):
                    bad = bad or "%r is registered under another key than when it is computed" % z
                for y in pool.values():
                    if y is not z and hasattr(y, "key") and keys.equal(y.key, key):
                        bad = bad or "%r is taken for %r" % (z, y)
    except PROBLEMS as e:
        rep.ob("product:load", False if bad else None, bad or "%s: %s" % (type(e).__name__, e), mk.place)
        return
    rep.ob("product:load", not bad if n else None, bad or "right for %d products" % n, mk.place)


def degree(x):
    return sum(x.meaning[1])


def ordered(l, rep, pool):
    """the order of real numbers"""
    fs = l.find(r"^exactreal::RealNumber::deglex\(", 0)
    if len(fs) != 1 or pool is None:
        rep.ob("order", None, "deglex is not lowered" if pool else "products are not understood")
        return
    A, s = summary(l, fs[0])
    place = common.where(s.events[0]["ins"]) if s.events else common.where(fs[0]["blocks"][0]["ins"][-1])
    if s.undecided or s.ret is None:
        rep.ob("order", None, "; ".join(map(str, s.undecided))[:200] or "never returns", place)
        return
    fl = C18.Follow(s, 60, [s.ret, s.retpc])
    nums = [x for x in pool.values() if not rational(x.meaning)] + [pool[ONE]]

    def less(x, y):
        m = Objects({T("arg", 0): x, T("arg", 1): y}, l, pool)
        fl.run(m)
        if not m.holds(s.retpc):
            raise Threw("an exception")
        return bool(m(s.ret))
    bad = None
    below = {}
    try:
        for x in nums:
            for y in nums:
                try:
                    r = below[x, y] = less(x, y)
                except (Threw, Outside, unroll.Endless) as e:
                    bad = bad or "comparing %r with %r: %s" % (x, y, str(e) or "never ends")
                    continue
                if x is y and r:
                    bad = bad or "%r < %r" % (x, y)
                if degree(x) != degree(y) and r != (degree(x) < degree(y)):
                    bad = bad or "%r < %r is %s although the degrees are %d and %d" % (x, y, r, degree(x), degree(y))
        for x, y in itertools.combinations(nums, 2):
            if (x, y) in below and (y, x) in below and below[x, y] == below[y, x]:
                bad = bad or "%r < %r and %r < %r are both %s" % (x, y, y, x, below[x, y])
        for x, y, z in itertools.permutations(nums, 3):
            if below.get((x, y)) and below.get((y, z)) and not below.get((x, z), True):
                bad = bad or "%r < %r < %r but not %r < %r" % (x, y, z, x, z)
    except PROBLEMS as e:
        rep.ob("order", False if bad else None, bad or "%s: %s" % (type(e).__name__, e), place)
        return
    rep.count("comparisons of numbers", len(below))
    rep.ob("order", not bad, bad or "a strict total order by degree on %d numbers" % len(nums), place)


class Values(Objects):
    """numbers, and opaque functions of them"""

    def op_callret(self, name, *args):
        vals = []
        for a in args:
            if isinstance(a, T):
                a = self(a)
            vals.append(a)
        if "Arf::operator==" in name and len(vals) >= 2:
            return int(vals[0] == vals[1])
        if re.match(r"bool std::operator==<", name) and len(vals) == 2 and all(isinstance(v, Rec) for v in vals):
            # std::tuple and std::pair compare their parts; std::shared_ptr compares addresses
            a, b = [{k: v for k, v in r.cells.items() if not (isinstance(v, tuple) and v[:1] == ("&",))} for r in vals]
            return int(a == b)
        vals = [sorted(v.cells.items(), key=repr) if isinstance(v, Rec) else v for v in vals]
        return zlib.crc32(repr((name, vals)).encode()) << 20

    op_call = op_callret

    def op_in(self, kind, root, off):
        if kind == "cxx":
            try:
                v = self(root)
            except Unknown:
                return ("some", repr(root), off)
            if isinstance(v, (Rec, Num)) and off == 0 and (kind, off) not in v.cells:
                return v
            if isinstance(v, int) and off == 0:
                return v
            if not isinstance(v, (Rec, Num)):
                return ("some", repr(root), off)
        return super().op_in(kind, root, off)

    def op_arg(self, k):
        return ("argument", k)

    def op___gmpq_get_d(self, q):
        return interp.to_double(self(q), 0)

    def op_fcmp(self, pred, a, b):
        a, b = self(a), self(b)
        if not all(isinstance(x, (int, F, float)) for x in (a, b)):
            raise Unknown("comparison of doubles")
        return int({"oeq": a == b, "ueq": a == b, "one": a != b, "une": a != b, "olt": a < b, "ogt": a > b, "ole": a <= b, "oge": a >= b}[pred])

    def op_struct(self, entries):
        return tuple((e[0], e[1], self(e[2]) if isinstance(e[2], T) else e[2]) for e in entries)

    def op_found(self, *a):
        return 0


class Paths(Values):
    """decides conditions that are not understood by a seed"""
    seed = 0

    def holds(self, t):
        try:
            return super().holds(t)
        except (Threw, Outside, unroll.Endless):
            raise
        except PROBLEMS:
            return bool(zlib.crc32(repr((self.seed, t.id)).encode()) & 1)


INNER = ("arg", "in", "callret", "call", "loop", "undef", "entry", "elem", "mixed", "repr", "pooled")


def parts(a):
    """the terms directly inside"""
    for x in a.args if isinstance(a, T) else a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from parts(x)


def undetermined(t, known, roots, seen=None):
    """what t depends on besides the known terms"""
    seen = {} if seen is None else seen
    if t.id in seen:
        return []
    seen[t.id] = 1
    if t in known:
        return []
    if t.op in ("in", "mixed") and t.args[1] in roots:
        return []
    if t.op in INNER:
        if t.op in ("callret", "call", "repr"):
            sub = list(parts(t))
            if sub and not any(undetermined(a, known, roots, seen) for a in sub):
                return []
        return [t]
    out = []
    for a in parts(t):
        out += undetermined(a, known, roots, seen)
    return out


def touches(x, y):
    """two views of the same object"""
    return x.op == y.op == "in" and x.args[1] is y.args[1]


def base_cells(groups):
    """what all the classes of real numbers have: not what tells their numbers apart"""
    out = None
    for objs in groups.values():
        for o in objs:
            out = set(o) if out is None else out & set(o)
    return out or set()


def classof(cells):
    v = cells.get(("raw8", 0))
    if v is not None and v.op == "ptr" and v.args[0].op == "global" and v.args[0].args[0].startswith("_ZTV"):
        return v.args[0].args[0][4:]
    return None


def place(e):
    return common.where(e["ins"])


def returned(A, s, f):
    """the real number that f hands out"""
    k = 1 if re.search(r"::load\(|::load_\w+\(", f["dem"]) else 0
    if k == 0 and not re.search(r"^exactreal::RealNumber::(rational|random|operator\*)\(|::operator\*\(", f["dem"]):
        return None
    return A.read(s.mem, "raw8", T("ptr", T("arg", k), 0))


def pooled(l, rep):
    """numbers are looked up and registered under what tells them apart"""
    found = {}
    counters = set()
    for f in l.fns:
        if re.search(r"UniqueFactory<.*::(hash|equal)\(|^__cxx_global|^_GLOBAL_", f["dem"]):
            continue
        A, s = summary(l, f)
        reg = [e for e in s.events if e["name"] == "register"]
        look = [e for e in s.events if e["name"] == "lookup"]
        keys = [e for e in s.events if e["name"] == "keys"]
        r = returned(A, s, f) if s.mem is not None else None
        made = [(e,) + e["extra"] for e in reg]
        for leaf in leaves(r) if r is not None else ():
            root = bare(leaf)
            if root.op == "heap" and not any(root in [bare(x) for x in leaves(obj)] for _, _, obj, _ in made):
                rep.ob("pooled:%s" % f["dem"][:70], False, "a real number is handed out that is not registered", common.where(f["blocks"][0]["ins"][-1]))
        if not reg:
            continue
        if s.undecided or len(look) != len(reg):
            rep.ob("pooled:%s" % f["dem"][:70], None, "; ".join(map(str, s.undecided))[:200] or "%d lookups, %d registrations" % (len(look), len(reg)), place(reg[0]))
            continue
        if r is not None:
            rep.ob("pooled:%s" % f["dem"][:70], True, "what it hands out is registered or was found", place(reg[0]))
        for e, key, obj, mem in made:
            for leaf in leaves(obj):
                cells = snapshot(A, mem, leaf)
                cls = classof(cells)
                if bare(leaf).op != "heap" or cls is None:
                    rep.ob("pooled:%s" % f["dem"][:70], None, "the object created is not understood", place(e))
                    continue
                fac = bare(e["args"][0])
                mine = [x for x in look if bare(x["args"][0]) is fac and x["extra"] == key and bare(x["args"][1]) is bare(e["args"][1])]
                names = {tuple(bare(a).args[0] for a in x["args"][1:3]) for x in keys if bare(x["args"][0]) is fac}
                found.setdefault(cls, []).append(dict(f=f, A=A, s=s, e=e, key=key, cells=cells, factory=fac, looked=bool(mine), names=names, root=bare(e["args"][1]), found=[x for x in look if bare(x["args"][0]) is fac]))
    base = base_cells({c: [r["cells"] for r in rs] for c, rs in found.items()})
    for cls, rs in sorted(found.items()):
        cls = re.sub(r"^_GLOBAL__N_1|^\d+|^N12_GLOBAL__N_1\d+|E$", "", cls)
        facs = {r["factory"] for r in rs}
        one = len(facs) == 1 and all(x.op == "global" for x in facs)
        rep.ob("%s:factory" % cls, one, "one factory in %d places" % len(rs) if one else "the same kind of real number is registered in %d factories: %s" % (len(facs), ", ".join(sorted(map(repr, facs)))[:200]), place(rs[0]["e"]))
        bad = und = None
        for r in rs:
            if not r["looked"]:
                others = r["found"]
                bad = bad or (None if not others else "%s: looked up by %r, registered by %r" % (r["f"]["dem"][:60], {k: repr(v)[:40] for k, v in others[0]["extra"].items()}, {k: repr(v)[:40] for k, v in r["key"].items()}), place(r["e"]))
        rep.ob("%s:registered" % cls, not bad, bad and bad[0] or "registered under the key that was looked up", bad[1] if bad else place(rs[0]["e"]))
        bad = und = None
        for r in rs:
            known = set(r["key"].values())
            roots = {r["root"]} if r["root"].op in ("arg", "alloca") else set()
            n = 0
            for c, v in sorted(r["cells"].items()):
                if c in base:
                    continue
                n += 1
                rest = undetermined(v, known, roots)
                if not rest:
                    continue
                used = set()
                for k in known:
                    used |= {x for x in vf.walk(k)}
                if any(x in used or x.op == "mixed" or any(touches(x, y) for y in used) for x in rest):
                    und = und or ("%s at %d of %s is another function of %r than the key" % (c[0], c[1], cls, rest[0]), place(r["e"]))
                else:
                    bad = bad or ("%s depends on %r, which is not part of the key: different numbers share an object" % (cls, rest[0]), place(r["e"]))
            rep.count("parts of numbers", n)
        rep.ob("%s:key" % cls, False if bad else None if und else True, (bad or und or ("the key determines the number in %d places" % len(rs),))[0], (bad or und or (None, place(rs[0]["e"])))[1])
        same(l, rep, cls, rs, base)
        compared(l, rep, cls, rs)
        numbered(l, rep, cls, rs)
    return found


INTS = {"raw1": 8, "raw2": 16, "raw4": 32, "raw8": 64}
QS = [F(0), F(1), F(-1), F(2), F(1, 2), F(-1, 2), F(2, 3), F(-2, 3), F(1, 3), F(1, 3) + F(1, 2 ** 70), F(2 ** 64 + 1, 3), F(2 ** 53), F(2 ** 53 + 1), F(2 ** 32 + 1, 5), F(1, 5)]
NS = [0, 1, 2, 47, 1337, 1338, 255, 256, 65535, 65536, 65537, 2 ** 31 - 1, -2 ** 31, -1]


def inputs(r, base):
    """the one thing that a new number is made from: (key terms, [(environment, value)])"""
    terms = list(r["key"].values()) + [t for c, t in r["cells"].items() if c not in base]
    atoms = {}

    def visible(t, seen):
        if t.id not in seen:
            seen.add(t.id)
            yield t
            if t.op != "repr":
                for a in parts(t):
                    yield from visible(a, seen)
    whole = [t for (k, _), t in r["key"].items() if k == "cxx"]
    for t in terms:
        if t in whole:
            continue
        for x in visible(t, set()):
            if x.op == "in" and x.args[1].op == "arg":
                atoms.setdefault((x.args[1], "mpq" if x.args[0] in ("mpq", "mpz") else x.args[0]), []).append(x)
            elif x.op == "arg" and not any(x is y.args[1] for t in terms for y in vf.walk(t) if y.op in ("in", "ptr")):
                atoms.setdefault((x, "raw4"), []).append(x)
            elif x.op == "repr" and x.args[0] == "cxx" and x.args[2] in INTS:
                atoms.setdefault((x, x.args[2]), []).append(x)
            elif x.op in ("heap", "pooled", "loop"):
                return None
    if len(atoms) != 1:
        return None
    (root, kind), xs = next(iter(atoms.items()))
    if kind == "mpq":
        low = min(x.args[2] for x in xs)
        return [({**{T("in", "mpq", root, low): q}, T("in", "mpz", root, low): q.numerator, T("in", "mpz", root, low + 16): q.denominator}, q) for q in QS]
    if kind in INTS:
        return [({xs[0]: n}, n) for n in NS if -1 << INTS[kind] - 1 <= n < 1 << INTS[kind] - 1]


def same(l, rep, cls, rs, base):
    """everywhere, a key stands for the same number, and different keys for different ones"""
    meaning = {}
    bad = None
    n = 0
    for r in rs:
        ins = inputs(r, base)
        if ins is None:
            continue
        made, direct = {}, not r["key"]
        try:
            for env, v in ins:
                m = Values(env, l, {})
                made[v] = v if direct else tuple(m(t) if k[0] != "cxx" else v for k, t in sorted(r["key"].items())), tuple(sorted((c, m(t)) for c, t in r["cells"].items() if c not in base))
        except (Threw, Outside, unroll.Endless) + PROBLEMS:
            continue
        n += 1
        for key, obj in made.values():
            key = key[0] if isinstance(key, tuple) and len(key) == 1 else key
            if meaning.setdefault(key, obj) != obj:
                bad = bad or ("the same key %s stands for different numbers" % (key,), place(r["e"]))
        for (v, a), (w, b) in itertools.combinations(made.items(), 2):
            if a[0] != b[0] and a[1] == b[1]:
                bad = bad or ("different keys, made from %s and %s, stand for the same number" % (v, w), place(r["e"]))
    rep.ob("%s:same" % cls, False if bad else True, bad[0] if bad else "the same in %d places" % n if n else "by the names of its parts", bad[1] if bad else place(rs[0]["e"]))


def samples(dem, rs):
    """keys of some factory: (key, what it stands for)"""
    m = re.match(r"^(?:[\w: ]* )?unique_factory::UniqueFactory<(.*)>::(hash|equal)\(", dem)
    t = m.group(1) if m else ""
    if t.startswith("__gmp_expr<__mpq_struct"):
        qs = [F(0), F(1), F(-1), F(2), F(1, 2), F(-1, 2), F(2, 3), F(1, 3), F(1, 3) + F(1, 2 ** 70), F(2 ** 53), F(2 ** 53 + 1), F(2 ** 64), F(2 ** 64 + 1), F(2 ** 64, 3), F(2 ** 64 + 1, 3), F(1, 2 ** 64), F(1, 2 ** 64 + 1), F(2 ** 32, 7), F(0) + F(1, 10 ** 30), -F(1, 10 ** 30)]
        return [(lambda q=q: Rec({("mpq", 0): q, ("mpz", 0): q.numerator, ("mpz", 16): q.denominator}), q) for q in qs]
    m = re.match(r"^(unsigned )?(int|long|short|char)\b", t)
    if m:
        w = {"int": 4, "long": 8, "short": 2, "char": 1}[m.group(2)]
        ns = [0, 1, 2, 3, 47, 1337, 1338, 2 ** 8, 2 ** 16, 2 ** 16 + 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1] + ([2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1] if w == 8 else [])
        return [(lambda n=n: Rec({("raw%d" % w, 0): n if n < 1 << (8 * w - 1) else n - (1 << 8 * w)}), n) for n in ns if n < 1 << 8 * w]
    if re.match(r"^std::tuple<exactreal::Arf, long, std::shared_ptr<exactreal::RealNumber const>", t):
        out = []
        pool = list(symbols().values())[:2]
        key = rs[0]["key"]
        at = sorted(o for k, o in key if k == "raw8")
        arf = [o for k, o in key if k == "cxx"]
        if at != [0, 8, 16] or arf != [24]:
            return None
        for a in ("an Arf", "another Arf"):
            for e in (0, 1, -1, 2 ** 40):
                for x in pool:
                    out.append((lambda a=a, e=e, x=x: Rec({("raw8", 0): x, ("raw8", 8): ("&", T("owner", x.id), 0), ("raw8", 16): e, ("cxx", 24): a}), (a, e, repr(x))))
        return out
    return None


def compared(l, rep, cls, rs):
    """keys are equal exactly when they stand for the same number"""
    names = set().union(*[r["names"] for r in rs])
    where = place(rs[0]["e"])
    if len(names) != 1:
        rep.ob("%s:equal" % cls, None, "%d ways to compare keys" % len(names), where)
        return
    n = sorted(names)[0]
    dem = [f["dem"] for f in l.fns if f["name"] == n[0]]
    keys = Keys(l, n, Values, symbols())
    ks = samples(dem[0], rs) if dem else None
    if keys.problem or not ks:
        rep.ob("%s:equal" % cls, None, keys.problem or "the type of the keys is not understood", where)
        return
    bad = None
    try:
        made = [(k(), k(), v) for k, v in ks]
        for a, b, v in made:
            if not keys.equal(a, b):
                bad = bad or "%s: keys of %s differ" % (cls, v)
            if keys.hash(a) != keys.hash(b):
                bad = bad or "%s: keys of %s have different hashes" % (cls, v)
        for (a, _, v), (b, _, w) in itertools.permutations(made, 2):
            rep.count("comparisons of keys")
            if keys.equal(a, b):
                bad = bad or "%s: %s and %s share an object" % (cls, v, w)
    except (Threw, Outside, unroll.Endless) as e:
        bad = "comparing keys of %s: %s" % (cls, str(e) or "never ends")
    except PROBLEMS as e:
        rep.ob("%s:equal" % cls, False if bad else None, bad or "%s: %s" % (type(e).__name__, e), where)
        return
    rep.ob("%s:equal" % cls, not bad, bad or "equal and hashed by value for %d keys" % len(ks), where)


NEXT = re.compile(r"next", re.I)


def numbered(l, rep, cls, rs):
    """a new number gets an identifier that no other number has had"""
    bad = und = None
    total = 0
    for r in rs:
        c = r["cells"]
        A, s = r["A"], r["s"]
        mem = r["e"]["extra"][2]
        at = l.idcell
        v = c.get(at)
        if v is None:
            und = und or "the identifier is not set"
            continue
        gs = [x for x in vf.walk(v) if x.op == "in" and x.args[1].op == "global" and "factory" not in x.args[1].args[0]]
        if len(set(gs)) != 1:
            und = und or "the identifier is %r" % v
            continue
        g = gs[0]
        after = A.read(mem, g.args[0], T("ptr", g.args[1], g.args[2]))
        width = int(g.args[0][3:]) * 8
        for n in (2147483659, 2 ** 32 - 2, 2 ** 32 - 1, 2 ** 32, 2 ** 40):
            if n >> width:
                n &= (1 << width) - 1
            done = 0
            for seed in range(12):
                m = Paths({g: n}, l, {})
                m.seed = seed
                try:
                    if not m.holds(r["e"]["pc"]):
                        continue
                    i, a = m(pick(m, v)) & MASK, m(pick(m, after)) & MASK
                except (Outside, Threw, unroll.Endless) + PROBLEMS as e:
                    und = und or "%s: %s" % (type(e).__name__, e)
                    continue
                done += 1
                if not n <= i < a:
                    bad = bad or "%s: after %d numbers the next one is number %d, and then the count is %d" % (cls, n, i, a)
            total += done
            rep.count("identifiers", done)
    if not total:
        und = und or "no path to a new number"
    rep.ob("%s:id" % cls, False if bad else None if und else True, bad or und or "increasing in %d places" % len(rs), place(rs[0]["e"]))


class KeysOfModules(Values):
    def op_callret(self, name, *args):
        if re.search(r"(RationalField|IntegerRing|NumberField)::operator[!=]=", name) and len(args) == 2:
            a, b = [self(x) for x in args]
            return int((a == b) == ("operator==" in name))
        return super().op_callret(name, *args)

    op_call = op_callret


def modules(facts, rep):
    """keys of modules are equal exactly when they have the same generators and the same ring"""
    opq = C18.OPQ.replace(r"|^(?!.*'lambda')([^(]*[ &])?" + C18.MO, r"|^exactreal::RealNumberBase::|^exactreal::NumberField::")
    l = Lab(facts, rep, ["module"], r"UniqueFactory<.*::(hash|equal)\(", opaque=opq, extra=["-DNDEBUG", "-DVERIF_KEYS"])
    l.Analysis = seq.Seq
    l.slots = {}
    ids = (2147483659, 2147483660, 2147483661, 2147483659 + (1 << 32), 2147483659 - (1 << 31))
    lists = [b for n in range(4) for b in itertools.permutations(ids, n) if n < 3 or b[:2] == ids[:2]]
    for ring, rings in C18.RINGS.items():
        pat = r"UniqueFactory<exactreal::Module<exactreal::%s>::Implementation::Key\b.*::%%s\(" % ring
        hs, es = l.find(pat % "hash", 0), l.find(pat % "equal", 0)
        key = "Module<%s>:key" % ring
        if len(hs) != 1 or len(es) != 1:
            rep.ob(key, None, "the comparison of keys is not lowered")
            continue
        keys = Keys(l, (hs[0]["name"], es[0]["name"]), KeysOfModules, {})
        where = common.where(es[0]["blocks"][0]["ins"][-1])
        if keys.problem:
            rep.ob(key, None, keys.problem, where)
            continue
        at = {(x.args[0], x.args[2]) for s, _ in keys.parts for t in [s.ret] + [v for h in s.loops.values() for c in h.values() for v in c] for x in vf.walk(t) if x.op == "in" and x.args[1] in (T("arg", 0), T("arg", 1))}
        vec, cxx = [a for a in at if a[0] == "vec"], [a for a in at if a[0] == "cxx"]
        made = []
        for b in lists:
            for r in rings:
                def rec():
                    out = {a: r for a in cxx}
                    for a in vec:
                        out[a] = tuple({("raw8", 0): i} for i in b)
                    return Rec(out)
                made.append((rec(), rec(), (b, r)))
        bad = None
        try:
            for a, b, v in made:
                if not keys.equal(a, b):
                    bad = bad or "keys of the module %s differ" % (v,)
                if keys.hash(a) != keys.hash(b):
                    bad = bad or "keys of the module %s have different hashes" % (v,)
            for (a, _, v), (b, _, w) in itertools.permutations(made, 2):
                rep.count("comparisons of keys")
                if keys.equal(a, b):
                    bad = bad or "the modules over %s with generators %s and over %s with %s share an object" % (v[1], v[0], w[1], w[0])
        except (Threw, Outside, unroll.Endless) as e:
            bad = "comparing keys: %s" % (str(e) or "never ends")
        except PROBLEMS as e:
            rep.ob(key, False if bad else None, bad or "%s: %s" % (type(e).__name__, e), where)
            continue
        rep.ob(key, not bad, bad or "equal by generators and ring for %d keys" % len(made), where)


STORES = ("store", "memset", "memcpy")


def counters(facts, rep):
    """identifiers and seeds come from counters that only ever increase, atomically"""
    l = Lab(facts, rep, ["real_number_base", "seed"], r"^exactreal::(RealNumberBase::(RealNumberBase|id)|Seed::Seed)\(", opaque=common.OPAQUE, extra=["-DNDEBUG"])
    l.Analysis = seq.Seq
    l.slots = {}
    fs = l.find(r"^exactreal::RealNumberBase::id\(", 0)
    at = None
    if len(fs) == 1:
        s = summary(l, fs[0])[1]
        r = s.ret
        if r is not None and r.op == "in" and r.args[1] is T("arg", 0) and not s.undecided:
            at = r.args[0], r.args[2]
        rep.ob("id", True if at else None, "%s at %d" % at if at else "the identifier is %r" % (r,), common.where(fs[0]["blocks"][0]["ins"][-1]))
    for key, pat, cell in (("number", r"^exactreal::RealNumberBase::RealNumberBase\(\)", at), ("seed", r"^exactreal::Seed::Seed\(\)", ("raw4", 0))):
        fs = l.find(pat, 0)
        if not fs or cell is None:
            rep.ob("counter:" + key, None, "not understood")
            continue
        f = fs[0]
        A = seq.Seq(f, l.cat, l.globals, on_call=chain(unroll.refcounts, *seq.HOOKS, factory))
        try:
            s = A.run()
        except vf.TooBig as e:
            rep.ob("counter:" + key, None, str(e))
            continue
        where = common.where(f["blocks"][0]["ins"][-1])
        if s.undecided or s.mem is None:
            rep.ob("counter:" + key, None, "; ".join(map(str, s.undecided))[:200] or "never returns", where)
            continue
        v = A.read(s.mem, cell[0], T("ptr", T("arg", 0), cell[1]))
        gs = {x for x in vf.walk(v) if x.op == "in" and x.args[1].op == "global"}
        if len(gs) != 1:
            fixed = not gs and not [x for x in vf.walk(v) if x.op in INNER]
            rep.ob("counter:" + key, False if fixed else None, "every %s is %r" % (key, v), where)
            continue
        g = gs.pop()
        after = A.read(s.mem, g.args[0], T("ptr", g.args[1], g.args[2]))
        width = 8 * int(g.args[0][3:])
        bad = und = None
        for n in (1, 1337, 2147483659, 2 ** 32 - 2) + ((2 ** 32 - 1, 2 ** 32, 2 ** 40) if key == "number" else ()):
            m = Values({g: n & ((1 << width) - 1)}, l, {})
            n &= (1 << width) - 1
            mask = (1 << 64) - 1 if cell[0] == "raw8" else (1 << 32) - 1
            try:
                i, a = m(v) & mask, m(after) & mask
            except (Outside, Threw, unroll.Endless) + PROBLEMS as e:
                und = und or "%s: %s" % (type(e).__name__, e)
                continue
            rep.count("identifiers")
            if not n <= i < a:
                bad = bad or "after %d, the next %s is %d, and then the counter is %d" % (n, key, i, a)
        rep.ob("counter:" + key, False if bad else None if und else True, bad or und or "increasing", where)
        locked = any(re.search(r"mutex|lock", repr(c.get("callee"))) for h in l.fns for b in h["blocks"] for c in b["ins"] if c["op"] in ("call", "invoke"))
        plain = [i for h in l.fns for b in h["blocks"] for i in b["ins"] if i["op"] == "store" and g.args[1].args[0] in repr(i)]
        rep.ob("atomic:" + key, True if not plain else None if locked else False, "updated by atomic operations" if not plain else "the counter is written by a plain store: two threads can get the same %s" % key, common.where(plain[0]) if plain else where)
    return at


def unseeded(l, rep):
    """random numbers that are made without a seed use a fresh one"""
    n = 0
    for f in l.fns:
        if not re.search(r"^exactreal::RealNumber::random\((?!.*exactreal::Seed\)$)[^()]*\)$", f["dem"]):
            continue
        key = "fresh:" + f["dem"][23:80]
        A, s = summary(l, f)
        where = common.where(f["blocks"][0]["ins"][-1])
        look = [e for e in s.events if e["name"] == "lookup"]
        if s.undecided or not look:
            rep.ob(key, None, "; ".join(map(str, s.undecided))[:200] or "nothing is looked up", where)
            continue
        fresh = lambda t: any(x.op in ("call", "callret") and str(x.args[0]).startswith("exactreal::Seed::Seed") and len(x.args) == 3 for x in vf.walk(t))
        bad = None
        for e in look:
            if not any(all(fresh(x) for x in leaves(v)) for v in e["extra"].values()):
                # a number on top of another one that is fresh
                if not any(fresh(v) or any(x.op in ("heap", "pooled") for x in vf.walk(v)) for v in e["extra"].values()):
                    bad = bad or e
        n += 1
        rep.ob(key, not bad, "two numbers that are made without a seed can be the same" if bad else "uses a fresh seed", place(bad) if bad else where)
    rep.count("unseeded", n)


def run(facts, rep):
    rep.explanation = "the functions that make real numbers and modules are summarised, and the keys under which they are registered compared in models"
    global OPQ
    full = OPQ

    def first():
        l = lab(facts, rep, ["real_number_product"], r"|RealNumber::operator\*\(|RealNumberProduct::operator/|load_product|RealNumberProduct::load|^_ZZ.*RealNumberProduct|UniqueFactory.*::(hash|equal)\(|RealNumber::deglex")
        ordered(l, rep, products(l, rep))

    def second():
        global OPQ
        at = counters(facts, rep)
        OPQ = full.replace("(operator==|rational)", "(operator==)")
        l = lab(facts, rep, ["rational_real_number", "random_real_number", "constrained_random_real_number", "real_number_base"], r"|.")
        l.idcell = at
        pooled(l, rep)
        unseeded(l, rep)
    common.parallel(facts, rep, [first, second, lambda: modules(facts, rep), lambda: algebra(facts, rep)])
    rep.floor("products and quotients", rep.counts.get("products and quotients", 0), 500)
    rep.floor("comparisons of keys", rep.counts.get("comparisons of keys", 0), 5000)
    rep.floor("comparisons of numbers", rep.counts.get("comparisons of numbers", 0), 500)
    rep.floor("parts of numbers", rep.counts.get("parts of numbers", 0), 20)
    rep.floor("identifiers", rep.counts.get("identifiers", 0), 30)
    rep.floor("unseeded", rep.counts.get("unseeded", 0), 3)
