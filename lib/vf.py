"""Value-flow summaries of functions in SSA form.

A forward dataflow analysis in the Herbrand domain: every SSA value and every
memory cell is mapped to a hash-consed term over the function's inputs and the
library operations applied to them; control-flow joins merge the two facts
under the branch condition (gated joins, kept canonical as multi-terminal
decision diagrams).  Every block is visited once per round; a loop header
forgets everything the loop may change.  No input is ever chosen, no path is
enumerated and no solver is asked.
"""
import json
import sys

sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "args", "id")
    table = {}

    def __new__(cls, op, *args):
        key = (op,) + tuple(("t", a.id) if isinstance(a, T) else a for a in args)
        t = T.table.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            t.id = len(T.table)
            T.table[key] = t
        return t

    def __repr__(self):
        return show(self)


def show(t, depth=12):
    if not isinstance(t, T):
        return str(t)
    if depth == 0:
        return "…"
    if t.op == "int":
        return str(t.args[0])
    if t.op == "ite":
        return "(if %s then %s else %s)" % tuple(show(a, depth - 1) for a in t.args)
    if t.op == "in":
        return "%s[%s%s]" % (t.args[0], show(t.args[1], depth - 1), "+%d" % t.args[2] if t.args[2] else "")
    if t.op == "arg":
        return "arg%s" % t.args[0]
    if t.op == "ptr":
        return "&%s%s" % (show(t.args[0], depth - 1), "+%d" % t.args[1] if t.args[1] else "")
    if t.op == "lin":
        c, parts = t.args[0], t.args[1]
        s = " + ".join(("%s*%s" % (k, show(x, depth - 1)) if k != 1 else show(x, depth - 1)) for k, x in parts)
        return "(%s%s)" % (s, " + %d" % c if c else "")
    if not t.args:
        return t.op
    return "%s(%s)" % (t.op, ", ".join(show(a, depth - 1) for a in t.args))


def Int(v, bits=64):
    if bits == 1:
        v &= 1
    return T("int", v, bits)


TRUE = Int(1, 1)
FALSE = Int(0, 1)


def isint(t, v=None):
    return isinstance(t, T) and t.op == "int" and (v is None or t.args[0] == v)


# -- decision diagrams -------------------------------------------------------
_ite_memo = {}


def ite(c, a, b):
    """c: decision diagram with leaves 0/1."""
    if c is TRUE or isint(c, 1) or isint(c, -1):
        return a
    if isint(c, 0):
        return b
    if a is b:
        return a
    key = (c.id, a.id, b.id)
    r = _ite_memo.get(key)
    if r is not None:
        return r
    if c.op != "ite":
        # an opaque boolean
        c = T("ite", c, TRUE, FALSE)
        r = ite(c, a, b)
        _ite_memo[key] = r
        return r
    top = min((x.args[0] for x in (c, a, b) if x.op == "ite"), key=lambda x: x.id)

    def cof(x, pol):
        if x.op == "ite" and x.args[0] is top:
            return x.args[1 if pol else 2]
        return x

    hi = ite(cof(c, True), cof(a, True), cof(b, True))
    lo = ite(cof(c, False), cof(a, False), cof(b, False))
    r = hi if hi is lo else T("ite", top, hi, lo)
    _ite_memo[key] = r
    return r


def And(a, b):
    return ite(a, b, FALSE)


def Or(a, b):
    return ite(a, TRUE, b)


def Not(a):
    return ite(a, FALSE, TRUE)


def atom(t):
    return T("ite", t, TRUE, FALSE)


class TooBig(Exception):
    pass


def lift(f, *vals, budget=None):
    """Apply f to the leaves of decision diagrams."""
    if budget is None:
        budget = [4000]
    budget[0] -= 1
    if budget[0] < 0:
        raise TooBig()
    tops = [v.args[0] for v in vals if isinstance(v, T) and v.op == "ite"]
    if not tops:
        return f(*vals)
    top = min(tops, key=lambda x: x.id)

    def cof(x, pol):
        if isinstance(x, T) and x.op == "ite" and x.args[0] is top:
            return x.args[1 if pol else 2]
        return x

    hi = lift(f, *[cof(v, True) for v in vals], budget=budget)
    lo = lift(f, *[cof(v, False) for v in vals], budget=budget)
    return ite(atom(top), hi, lo)


def leaves(t, acc=None, seen=None):
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if t.id in seen:
        return acc
    seen.add(t.id)
    if t.op == "ite":
        leaves(t.args[1], acc, seen)
        leaves(t.args[2], acc, seen)
    else:
        acc.append(t)
    return acc


def guarded_leaves(t, pc=TRUE):
    """[(guard, leaf)] with one entry per leaf term."""
    out = {}

    def go(t, pc):
        if t.op == "ite":
            go(t.args[1], And(pc, atom(t.args[0])))
            go(t.args[2], And(pc, Not(atom(t.args[0]))))
        else:
            out[t.id] = (Or(out[t.id][0], pc) if t.id in out else pc, t)

    go(t, pc)
    return list(out.values())


def atoms(t, acc=None, seen=None):
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if t.id in seen:
        return acc
    seen.add(t.id)
    if t.op == "ite":
        if t.args[0] not in acc:
            acc.append(t.args[0])
        atoms(t.args[1], acc, seen)
        atoms(t.args[2], acc, seen)
    return acc


def walk(t, seen=None):
    """All subterms."""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)


def evaluate(t, interp):
    """Follow the decision diagram under an interpretation of its atoms.
    interp(atom) -> True/False/None; returns the set of leaves reachable when
    None means either."""
    out = set()

    def go(t):
        while t.op == "ite":
            v = interp(t.args[0])
            if v is None:
                go(t.args[1])
                t = t.args[2]
            else:
                t = t.args[1] if v else t.args[2]
        out.add(t)

    go(t)
    return out


# -- integer arithmetic as linear forms --------------------------------------
def lin_of(t):
    if t.op == "int":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], {x: k for k, x in t.args[1]}
    return 0, {t: 1}


def mklin(c, d):
    d = {x: k for x, k in d.items() if k}
    if not d:
        return Int(c)
    if c == 0 and len(d) == 1:
        (x, k), = d.items()
        if k == 1:
            return x
    return T("lin", c, tuple(sorted(((k, x) for x, k in d.items()), key=lambda p: p[1].id)))


def add(a, b, kb=1):
    ca, da = lin_of(a)
    cb, db = lin_of(b)
    d = dict(da)
    for x, k in db.items():
        d[x] = d.get(x, 0) + kb * k
    return mklin(ca + kb * cb, d)


def scale(a, k):
    c, d = lin_of(a)
    return mklin(c * k, {x: k * m for x, m in d.items()})


def sgn_wrap(v, bits):
    if bits and bits < 128:
        v &= (1 << bits) - 1
        if v >> (bits - 1) and bits > 1:
            v -= 1 << bits
    return v


def shared(a, b):
    """two linear forms with a term in common"""
    if a.op != "lin" and b.op != "lin":
        return False
    x, y = lin_of(a)[1], lin_of(b)[1]
    return any(t in y and y[t] == k for t, k in x.items())


def icmp(pred, a, b):
    if isint(a) and isint(b):
        x, y = a.args[0], b.args[0]
        w = max(a.args[1], b.args[1])
        if pred.startswith("u"):
            x &= (1 << w) - 1
            y &= (1 << w) - 1
        elif w == 1:
            x, y = x & 1, y & 1
        r = {"eq": x == y, "ne": x != y, "slt": x < y, "sgt": x > y, "sle": x <= y, "sge": x >= y,
             "ult": x < y, "ugt": x > y, "ule": x <= y, "uge": x >= y}[pred]
        return TRUE if r else FALSE
    if pred == "ne":
        return Not(icmp("eq", a, b))
    if pred == "eq":
        if a is b:
            return TRUE
        nonnull = lambda t: t.op == "ptr" and t.args[0].op in ("alloca", "heap", "global", "fn", "arg", "slot", "node")
        if a.op == "ptr" and b.op == "ptr" and a.args[0].op == b.args[0].op and a.args[0].op in ("slot", "node") and a.args[1] == b.args[1]:
            x, y = a.args[0].args, b.args[0].args
            if x[:2] == y[:2] and x[3:] == y[3:]:
                return lift(lambda i, j: icmp("eq", i, j), x[2], y[2])
            return atom(T("eq", *sorted((a, b), key=lambda t: t.id)))
        if (nonnull(a) and b.op == "null") or (nonnull(b) and a.op == "null"):
            return FALSE
        if nonnull(a) and nonnull(b) and a.args[0] is not b.args[0] and not (a.args[0].op == "arg" and b.args[0].op == "arg") \
                and not ({a.args[0].op, b.args[0].op} & {"arg"} and {a.args[0].op, b.args[0].op} & {"global", "heap"}):
            return FALSE
        if shared(a, b):
            d = add(a, b, -1)
            if isint(d):
                return TRUE if d.args[0] == 0 else FALSE
            if d.op == "lin" and d.args[0]:
                c = d.args[0]
                a, b = add(d, Int(c), -1), Int(-c)
            else:
                a, b = d, Int(0)
            if a.op == "lin" and len(a.args[1]) > 1 and a.args[1][0][0] < 0:
                a, b = scale(a, -1), Int(-b.args[0])
        if isint(a) or (not isint(b) and a.id > b.id):
            a, b = b, a
        if isint(b) and a.op == "lin" and len(a.args[1]) == 1 and a.args[1][0][0] in (1, -1):
            k, x = a.args[1][0]
            return icmp("eq", x, Int((b.args[0] - a.args[0]) * k))
        if isint(b, 0) and a.op in ("sub", "xor"):
            return icmp("eq", a.args[0], a.args[1])
        return atom(T("eq", a, b))
    s = pred[0]
    if a is b:
        return TRUE if pred.endswith("e") else FALSE
    if pred in ("sgt", "ugt"):
        if isint(b):
            return Not(icmp(s + "lt", a, Int(b.args[0] + 1, b.args[1])))
        if isint(a):
            return icmp(s + "lt", b, a)
        return atom(T(s + "lt", b, a))
    if pred in ("sge", "uge"):
        return Not(icmp(s + "lt", a, b))
    if pred in ("sle", "ule"):
        if isint(b):
            return icmp(s + "lt", a, Int(b.args[0] + 1, b.args[1]))
        return Not(icmp(s + "gt", a, b))
    # lt
    if s == "s" and shared(a, b):
        # signed arithmetic does not overflow
        d = add(a, b, -1)
        if isint(d):
            return TRUE if d.args[0] < 0 else FALSE
        c, parts = (d.args[0], d.args[1]) if d.op == "lin" else (0, ((1, d),))
        if len(parts) == 1 and parts[0][0] == 1:
            return icmp("slt", parts[0][1], Int(-c))
        if len(parts) == 1 and parts[0][0] == -1:
            return Not(icmp("slt", parts[0][1], Int(c + 1)))
    if isint(a):
        return Not(icmp(s + "lt", b, Int(a.args[0] + 1, a.args[1])))
    if s == "u" and isint(b, 0):
        return FALSE
    if s == "u" and isint(b, 1):
        return icmp("eq", a, Int(0))
    return atom(T(s + "lt", a, b))


# -- machine words assembled from fields -------------------------------------
def fields(t, bits):
    """t as disjoint fields (lo, width, source, source lo), or None"""
    if t.op == "int":
        v = t.args[0] & ((1 << bits) - 1)
        out, lo = [], 0
        while v:
            k = (v & -v).bit_length() - 1
            n = 0
            while (v >> (k + n)) & 1:
                n += 1
            out.append((k, n, "ones", 0))
            v &= ~(((1 << n) - 1) << k)
        return out
    if t.op == "bits":
        return list(t.args[1])
    if t.op == "zext":
        return fields(t.args[0], t.args[2]) if t.args[2] > 0 else None
    if t.op == "trunc":
        return [(0, t.args[1], t.args[0], 0)]
    if t.op in ("lin", "undef", "ptr", "null"):
        return None if t.op != "undef" else []
    return [(0, bits, t, 0)]


def mkbits(fs, bits):
    fs = [f for f in fs if f[1] > 0 and f[0] < bits]
    fs = sorted(((lo, min(w, bits - lo), s, sl) for lo, w, s, sl in fs), key=lambda f: f[0])
    if all(s == "ones" for _, _, s, _ in fs):
        v = 0
        for lo, w, _, _ in fs:
            v |= ((1 << w) - 1) << lo
        return Int(sgn_wrap(v, bits), bits)
    merged = []
    for f in fs:
        if merged:
            lo, w, s, sl = merged[-1]
            if s is f[2] and lo + w == f[0] and (s == "ones" or sl + w == f[3]):
                merged[-1] = (lo, w + f[1], s, sl)
                continue
        merged.append(f)
    if len(merged) == 1:
        lo, w, s, sl = merged[0]
        if lo == 0 and sl == 0 and isinstance(s, T):
            full = natural(s)
            if w == bits:
                return s if full == bits else T("trunc", s, w)
            return T("zext", s if full == w else T("trunc", s, w), bits, w)
    return T("bits", bits, tuple(merged))


WIDTHS = {}


def natural(t):
    """the width of a term whose width was seen"""
    if t.op in ("zext", "sext"):
        return t.args[1]
    if t.op == "trunc":
        return t.args[1]
    if t.op == "bits":
        return t.args[0]
    if t.op == "in" and t.args[0].startswith("raw"):
        return int(t.args[0][3:]) * 8
    return WIDTHS.get(t.id)


def isfield(t):
    return t.op in ("bits", "zext", "trunc")


def binop(op, a, b, bits):
    if op in ("shl", "lshr", "or", "and") and (isfield(a) or isfield(b)):
        r = bitop(op, a, b, bits)
        if r is not None:
            return r
    return binop_(op, a, b, bits)


def bitop(op, a, b, bits):
    if op in ("shl", "lshr"):
        if not isint(b):
            return None
        fa = fields(a, bits)
        if fa is None:
            return None
        k = b.args[0] if op == "shl" else -b.args[0]
        out = []
        for lo, w, s, sl in fa:
            lo2 = lo + k
            if lo2 < 0:
                cut = -lo2
                if cut >= w:
                    continue
                lo2, w, sl = 0, w - cut, sl + cut
            out.append((lo2, w, s, sl))
        return mkbits(out, bits)
    fa, fb = fields(a, bits), fields(b, bits)
    if fa is None or fb is None:
        return None
    if op == "or":
        for lo, w, _, _ in fa:
            for lo2, w2, _, _ in fb:
                if lo < lo2 + w2 and lo2 < lo + w:
                    return None
        return mkbits(fa + fb, bits)
    if isint(a):
        fa, fb, b = fb, fa, a
    if isint(b):
        out = []
        for lo, w, s, sl in fa:
            for l2, w2, _, _ in fb:
                x, y = max(lo, l2), min(lo + w, l2 + w2)
                if x < y:
                    out.append((x, y - x, s, sl + x - lo if s != "ones" else 0))
        return mkbits(out, bits)
    return None


def binop_(op, a, b, bits):
    if isint(a) and isint(b):
        x, y = a.args[0], b.args[0]
        m = (1 << bits) - 1
        try:
            v = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "and": lambda: x & y,
                 "or": lambda: x | y, "xor": lambda: x ^ y, "shl": lambda: x << y,
                 "lshr": lambda: (x & m) >> y, "ashr": lambda: x >> y,
                 "sdiv": lambda: int(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1),
                 "udiv": lambda: (x & m) // (y & m), "srem": lambda: x - y * (int(abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1)),
                 "urem": lambda: (x & m) % (y & m)}[op]()
            return Int(sgn_wrap(v, bits), bits)
        except (KeyError, ZeroDivisionError):
            pass
    if op == "add":
        return add(a, b)
    if op == "sub":
        if a.op == "ptr" or b.op == "ptr":
            return T("sub", a, b)
        return add(a, b, -1)
    if op == "mul":
        if isint(b):
            return scale(a, b.args[0])
        if isint(a):
            return scale(b, a.args[0])
        return T("mul", *sorted((a, b), key=lambda t: t.id))
    if op == "shl" and isint(b):
        return scale(a, 1 << b.args[0])
    if op == "xor":
        if isint(b, -1) or isint(a, -1):
            return T("not", a if isint(b) else b) if bits > 1 else Not(a)
        if isint(b, 0):
            return a
        if isint(a, 0):
            return b
    if op == "and":
        if isint(a, 0) or isint(b, 0):
            return Int(0, bits)
        if isint(b, -1):
            return a
        if isint(a, -1):
            return b
        if a is b:
            return a
    if op == "or":
        if isint(b, 0):
            return a
        if isint(a, 0):
            return b
        if a is b:
            return a
    if op in ("and", "or", "xor"):
        a, b = sorted((a, b), key=lambda t: t.id)
    return T(op, a, b)


# -- memory ------------------------------------------------------------------
class Mem:
    """Cells keyed (kind, root, offset); copies are block moves of objects the
    function never looked at."""
    __slots__ = ("cells", "copies", "fresh")

    def __init__(self, cells=None, copies=None, fresh=None):
        self.cells = cells if cells is not None else {}
        self.copies = copies if copies is not None else []
        self.fresh = fresh if fresh is not None else set()

    def clone(self):
        return Mem(dict(self.cells), list(self.copies), set(self.fresh))


# sizes of the objects the catalogue knows, and their parts
PARTS = {
    "arb": [("arf", 0, "mid"), ("mag", 32, "rad")],
    "arf": [("fmpz", 0, "exp")],
    "mpq": [("mpz", 0, "num"), ("mpz", 16, "den")],
    "renf_elem": [("arb", 32, "emb")],
    "fmpq": [("fmpz", 0, "num"), ("fmpz", 8, "den")],
}
SIZE = {"renf_elem": 80, "arb": 48, "arf": 32, "mag": 16, "mpz": 16, "mpq": 32, "fmpz": 8, "fmpq": 16}


class Summary:
    pass


class Analysis:
    def __init__(self, fn, catalog, globals_=None, alias=None, argterms=None, follow_throw=True, on_call=None):
        self.fn = fn
        self.catalog = catalog
        self.alias = alias or {}
        self.argterms = argterms or {}
        self.globals = globals_ or {}
        self.on_call = on_call
        self.init_cells = {}
        self.outroots = set()
        self.undecided = []
        self.calls = []
        self.blocks = {b["id"]: b for b in fn["blocks"]}
        self.havoc = {}
        self.loopvals = {}

    # ---- values
    def val(self, v, env):
        if v is None:
            return T("none")
        k = v["k"]
        if k == "int":
            return Int(int(v["v"]), v["bits"])
        if k == "arg":
            return self.argval(v["id"])
        if k == "v":
            return env.get(v["id"], T("undef"))
        if k == "gep":
            return self.gep(v, env)
        if k == "global":
            return T("ptr", T("global", v["name"]), 0)
        if k == "fn":
            return T("ptr", T("fn", v["name"]), 0)
        if k == "null":
            return T("null")
        if k == "undef":
            return T("undef")
        if k == "fp":
            return T("fp", v["v"])
        if k == "zero":
            return T("zero")
        if k == "agg":
            return T("agg", tuple(self.val(x, env) for x in v["v"]))
        if k == "cexpr":
            return T("cexpr", v["op"], tuple(self.val(x, env) for x in v["ops"]))
        return T("other", v.get("text", "?"))

    def argval(self, i):
        if i in self.argterms:
            return self.argterms[i]
        a = self.fn["args"][i]
        if a["ty"] == "ptr":
            return T("ptr", T("arg", self.alias.get(i, i)), 0)
        if a["ty"] == "i1":
            return atom(T("arg", i))
        return T("arg", i)

    def gep(self, g, env):
        if g.get("unknown"):
            return T("gep?", self.val(g["base"], env))
        base = self.val(g["base"], env)
        idx = [self.val(x, env) for x, s in g["var"]]
        scales = [s for x, s in g["var"]]

        def f(b, *ix):
            off = T("int", g["off"], 64)
            for x, s in zip(ix, scales):
                off = add(off, scale(x, s))
            return self.offset(b, off)

        return lift(f, base, *idx)

    @staticmethod
    def offset(b, off):
        if b.op != "ptr":
            b = T("ptr", b, 0)
        if isint(off):
            return T("ptr", b.args[0], b.args[1] + off.args[0])
        c, d = lin_of(off)
        if b.args[0].op == "elt":
            # combine indices
            base, o = b.args[0].args
            return T("ptr", T("elt", base, add(o, mklin(0, d))), b.args[1] + c)
        return T("ptr", T("elt", b.args[0], mklin(0, d)), b.args[1] + c)

    # ---- memory
    def read(self, mem, kind, ptr):
        return lift(lambda p: self._read(mem, kind, p), ptr)

    def _read(self, mem, kind, p):
        if p.op != "ptr":
            p = T("ptr", p, 0)
        root, off = p.args
        key = (kind, root, off)
        if key in mem.cells:
            return mem.cells[key]
        if kind.startswith("raw"):
            # a read of another width or of an object's representation
            for (k, r, o), v in mem.cells.items():
                if r is root and o == off and k != kind and v.op != "gone" and not k.startswith("life:"):
                    if k.startswith("raw"):
                        return lift(lambda x: self.width(x, int(k[3:]), int(kind[3:])), v)
                    return lift(lambda x: T("repr", k, 0, kind, x), v)
            if root.op == "global" and root.args[0].startswith("_ZGV"):
                return Int(1, int(kind[3:]) * 8)
            if kind == "raw4":
                # the sign field of an mpz_t
                for k, d, nm in (("mpz", 4, None), ("mpq", 4, "num"), ("mpq", 20, "den")):
                    pk = (k, root, off - d)
                    if pk in mem.cells and mem.cells[pk].op not in ("gone", "undef"):
                        return lift(lambda x: T("sizefield", mkpart(nm, x) if nm else x), mem.cells[pk])
            if root.op == "global":
                g = self.globals.get(root.args[0])
                if g and g.get("const") and g.get("init") is not None:
                    if g["init"]["k"] == "int" and off == 0:
                        return Int(int(g["init"]["v"]), g["init"]["bits"])
                    if g["init"]["k"] == "data" and kind == "raw%d" % (g["init"]["bits"] // 8) and off % int(kind[3:]) == 0 and 0 <= off // int(kind[3:]) < len(g["init"]["v"]):
                        return Int(int(g["init"]["v"][off // int(kind[3:])]), g["init"]["bits"])
                    if g["init"]["k"] == "str" and kind == "raw1" and off < len(g["init"]["v"]) and g["init"]["v"].isascii():
                        return Int(ord(g["init"]["v"][off]), 8)
                    if g["init"]["k"] == "agg" and kind == "raw8" and off % 8 == 0:
                        table = pointers(g["init"])
                        if table is not None and off // 8 < len(table):
                            return self.val(table[off // 8], {})
        else:
            for parent, parts in PARTS.items():
                for k, d, nm in parts:
                    if k == kind:
                        pk = (parent, root, off - d)
                        if pk in mem.cells:
                            return lift(lambda x: mkpart(nm, x), mem.cells[pk])
            if kind == "mpq" and key not in mem.cells and ("raw4", root, off + 4) in mem.cells and ("raw4", root, off + 20) in mem.cells:
                return lift(lambda *v: mkwhole(kind, *v), *[self._read(mem, "mpz", T("ptr", root, off + d)) for d in (0, 16)])
            if kind in PARTS:
                ps = [(k, root, off + d) for k, d, nm in PARTS[kind]]
                if any(q in mem.cells and mem.cells[q].op != "gone" for q in ps):
                    vals = [self._read(mem, q[0], T("ptr", root, q[2])) for q in ps]
                    return lift(lambda *v: mkwhole(kind, *v), *vals)
            for (k, r, o), v in mem.cells.items():
                if r is root and o == off and k.startswith("raw") and v.op not in ("gone", "undef"):
                    return lift(lambda x: T("obj", kind, x), v)
            if kind == "mpz":
                # an mpz_t written out in place: its size and a pointer to one limb
                n, d = mem.cells.get(("raw4", root, off + 4)), mem.cells.get(("raw8", root, off + 8))
                if n is not None and d is not None and all(x.op == "ptr" for x in leaves(d)):
                    return lift(lambda a, b: T("mpzlit", a, b), n, self.read(mem, "raw8", d))
        for (dr, do, n, sr, so) in reversed(mem.copies):
            if dr is root and do <= off < do + n:
                return self._read_initial(kind, sr, so + off - do)
        if root in mem.fresh or (root.op == "arg" and root in self.outroots):
            size = int(kind[3:]) if kind.startswith("raw") else SIZE.get(kind, 1)
            over = sorted(((k, o, v.id) for (k, r, o), v in mem.cells.items() if r is root and not k.startswith("life:") and v.op not in ("gone", "undef")
                           and o < off + size and off < o + (int(k[3:]) if k.startswith("raw") else SIZE.get(k, 1))))
            if over:
                return T("mixed", kind, root, off, tuple(over))
            # inside of an object that something opaque has written
            inside = max(((o, v.id, v) for (k, r, o), v in mem.cells.items() if r is root and k == "cxx" and o < off and v.op in ("call", "in")), default=None, key=lambda t: t[:2])
            if inside and kind.startswith("raw"):
                return T("repr", "cxx", off - inside[0], kind, inside[2])
            return T("undef")
        return self._read_initial(kind, root, off)

    def _read_initial(self, kind, root, off):
        t = T("in", kind, root, off)
        # parts of an input object are parts of its value
        if kind.startswith("raw"):
            return t
        return t

    @staticmethod
    def width(x, have, want):
        if x.op == "int":
            v = x.args[0]
            if want < have:
                return Int(sgn_wrap(v, want * 8), want * 8)
        if x.op in ("zero",):
            return Int(0, want * 8)
        return T("width", x, have, want)

    def write(self, mem, kind, ptr, value):
        gl = guarded_leaves(ptr)
        life = kind.startswith("life:")
        for g, p in gl:
            if p.op != "ptr":
                p = T("ptr", p, 0)
            root, off = p.args
            if kind == "raw4" and isint(value) and value.args[0] == 0 and len(gl) == 1:
                # the size of an initialised mpz is set to zero: its value is zero (gmpxx does this for literals)
                for whole, o in (("mpz", off - 4), ("mpq", off - 4), ("mpq", off - 20)):
                    if (whole, root, o) in mem.cells and mem.cells[(whole, root, o)].op not in ("undef", "gone"):
                        kind, off, value = "mpz", off - 4, Int(0)
                        break
            key = (kind, root, off)
            size = int(kind[3:]) if kind.startswith("raw") else SIZE.get(kind, 8)
            old = None if len(gl) == 1 else self._read(mem, kind, p)
            nv = value if len(gl) == 1 else ite(g, value, old)
            # strong update: drop what it overlaps
            for (k, r, o) in list(mem.cells):
                if r is root and (k, r, o) != key and not life and not k.startswith("life:"):
                    s = int(k[3:]) if k.startswith("raw") else SIZE.get(k, 8)
                    if o < off + size and off < o + s:
                        parts = {(pk, pd): nm for pk, pd, nm in PARTS.get(k, [])}
                        if (kind, off - o) in parts:
                            # a part of a known whole changes: split the whole
                            whole = mem.cells.pop((k, r, o))
                            for pk, pd, nm in PARTS[k]:
                                if len(PARTS[k]) > 1:
                                    mem.cells[(pk, r, o + pd)] = lift(lambda x: mkpart(nm, x), whole)
                                else:
                                    mem.cells[(k, r, o)] = lift(lambda x: T("with_" + nm, x, value), whole)
                        else:
                            del mem.cells[(k, r, o)]
            mem.cells[key] = nv

    def data(self, root, off, n):
        """the cells of a constant array of integers"""
        g = self.globals.get(root.args[0]) if root.op == "global" else None
        init = (g or {}).get("init") or {}
        if not g or not g.get("const") or init.get("k") != "data":
            return []
        w = init["bits"] // 8
        return [("raw%d" % w, w * j - off, Int(int(x), 8 * w)) for j, x in enumerate(init["v"]) if off <= w * j < off + n]

    def memcpy(self, mem, dst, src, n):
        def one(d, s):
            if d.op != "ptr":
                d = T("ptr", d, 0)
            if s.op != "ptr":
                s = T("ptr", s, 0)
            moved = []
            for (k, r, o), v in list(mem.cells.items()):
                if r is s.args[0] and s.args[1] <= o < s.args[1] + n:
                    moved.append((k, o - s.args[1], v))
            moved += self.data(s.args[0], s.args[1], n)
            srccopies = [(dr, do, m, sr, so) for (dr, do, m, sr, so) in mem.copies if dr is s.args[0] and do < s.args[1] + n and s.args[1] < do + m]
            for (k, r, o) in list(mem.cells):
                if r is d.args[0] and d.args[1] <= o < d.args[1] + n:
                    del mem.cells[(k, r, o)]
            if s.args[0] not in mem.fresh and not srccopies:
                mem.copies.append((d.args[0], d.args[1], n, s.args[0], s.args[1]))
            elif srccopies:
                for (dr, do, m, sr, so) in srccopies:
                    lo = max(do, s.args[1])
                    hi = min(do + m, s.args[1] + n)
                    mem.copies.append((d.args[0], d.args[1] + lo - s.args[1], hi - lo, sr, so + lo - do))
            for k, o, v in moved:
                mem.cells[(k, d.args[0], d.args[1] + o)] = v
                if k.startswith("life:"):
                    # the object now lives at its new place only
                    mem.cells[(k, s.args[0], s.args[1] + o)] = T("moved")

        ds, ss = leaves(dst), leaves(src)
        if len(ds) == 1 and len(ss) == 1:
            one(ds[0], ss[0])
        else:
            self.undecided.append("memcpy between undetermined places")

    # ---- the pass
    def run(self):
        # an argument's width depends on the function
        saved = dict(WIDTHS)
        WIDTHS.clear()
        try:
            return self.run_()
        finally:
            WIDTHS.clear()
            WIDTHS.update(saved)

    def run_(self):
        order, headers, back = self.order()
        self.headers = headers
        self.havoc = {h: set() for h in headers}
        for rnd in range(8):
            self.calls = []
            self.undecided = []
            self.loopvals = {}
            self.headpc = {}
            changed = self.round(order, headers, back)
            if not changed:
                break
        return self.summary

    def succs(self, b):
        t = b["ins"][-1]
        op = t["op"]
        if op == "br":
            return t["succ"]
        if op == "switch":
            return [t["default"]] + [c[1] for c in t["cases"]]
        if op == "invoke":
            return [t["normal"]]
        return []

    def order(self):
        seen, post, onstack = set(), [], set()
        back = set()

        def dfs(b):
            stack = [(b, iter(self.succs(self.blocks[b])))]
            seen.add(b)
            onstack.add(b)
            while stack:
                x, it = stack[-1]
                for s in it:
                    if s in onstack:
                        back.add((x, s))
                    elif s not in seen:
                        seen.add(s)
                        onstack.add(s)
                        stack.append((s, iter(self.succs(self.blocks[s]))))
                        break
                else:
                    post.append(x)
                    onstack.discard(x)
                    stack.pop()

        dfs(self.fn["blocks"][0]["id"])
        order = post[::-1]
        return order, {h for _, h in back}, back

    def round(self, order, headers, back):
        entry = self.fn["blocks"][0]["id"]
        incoming = {b: [] for b in order}
        m0 = Mem(dict(self.init_cells))
        incoming[entry].append((None, TRUE, m0, {}))
        rets, throws, events = [], [], []
        self.events = events
        self.headmem = {}
        changed = False
        backs = []
        envall = {}
        self.seq = 0
        for bid in order:
            inc = incoming[bid]
            if not inc:
                continue
            pc = FALSE
            for _, c, _, _ in inc:
                pc = Or(pc, c)
            mem = self.join([(c, m) for _, c, m, _ in inc])
            env = envall
            b = self.blocks[bid]
            isheader = bid in headers
            if isheader:
                for key in sorted(self.havoc[bid], key=repr):
                    self.loopvals.setdefault(bid, {})[key] = [self._cell(mem, key), None]
                    mem.cells[key] = self.generic(bid, key, T("loop", bid, key[0], key[1], key[2]))
                self.headmem[bid] = mem.clone()
            self.pc = pc
            self.cur = bid
            self.headpc[bid] = pc
            phis = {}
            for i in b["ins"]:
                if i["op"] != "phi":
                    continue
                if isheader:
                    init = None
                    for pb, v in i["in"]:
                        for p, c, m, e in inc:
                            if p == pb:
                                x = self.val(v, env)
                                init = x if init is None else ite(c, x, init)
                    t = T("loop", bid, "phi", i["id"], 0)
                    if i["ty"] == "i1":
                        t = atom(t)
                    self.loopvals.setdefault(bid, {})[("phi", i["id"])] = [init, None, i]
                    phis[i["id"]] = self.generic(bid, ("phi", i["id"]), t)
                else:
                    r = None
                    by = {}
                    for pb, v in i["in"]:
                        by[pb] = v
                    for p, c, m, e in inc:
                        if p in by:
                            x = self.val(by[p], env)
                            r = x if r is None else ite(c, x, r)
                    phis[i["id"]] = r if r is not None else T("undef")
            env.update(phis)
            out = None
            dead = False
            for i in b["ins"]:
                op = i["op"]
                if op == "phi":
                    continue
                if op in ("br", "switch", "ret", "unreachable", "resume"):
                    out = i
                    break
                r = self.instr(i, env, mem)
                if r == "dead":
                    dead = True
                    break
                if op == "invoke":
                    out = i
            if dead:
                throws.append((self.pc, i))
                continue
            if out is None:
                continue
            op = out["op"]
            nxt = []
            if op == "br":
                if "cond" in out:
                    c = self.boolean(self.val(out["cond"], env))
                    # LLVM prints successors (true, false) in getSuccessor order
                    nxt = [(out["succ"][0], And(pc, c)), (out["succ"][1], And(pc, Not(c)))]
                else:
                    nxt = [(out["succ"][0], pc)]
            elif op == "switch":
                v = self.val(out["cond"], env)
                rest = pc
                for cv, dst in out["cases"]:
                    c = lift(lambda a, k=self.val(cv, env): icmp("eq", a, k), v)
                    nxt.append((dst, And(rest, c)))
                    rest = And(rest, Not(c))
                nxt.append((out["default"], rest))
            elif op == "invoke":
                nxt = [(out["normal"], pc)]
            elif op == "ret":
                v = self.val(out["ops"][0], env) if out["ops"] else None
                rets.append((pc, v, mem, out))
            merged = {}
            for dst, c in nxt:
                merged[dst] = Or(merged[dst], c) if dst in merged else c
            for dst, c in merged.items():
                if c is FALSE:
                    continue
                if (bid, dst) in back:
                    backs.append((bid, dst, c, mem, env))
                    continue
                incoming[dst].append((bid, c, mem.clone(), None))
        for src, h, c, mem, env in backs:
            hin = self.loopvals.setdefault(h, {})
            for key, v in mem.cells.items():
                before = self._cell(self.headmem[h], key) if h in self.headmem else None
                if key in self.havoc[h]:
                    hin.setdefault(key, [None, None])
                    v = self.induct(h, key, v)
                    hin[key][1] = v if hin[key][1] is None else ite(c, v, hin[key][1])
                elif before is None or v is not before:
                    if key[1].op == "alloca" and key[1] not in self.headmem[h].fresh:
                        continue
                    self.havoc[h].add(key)
                    changed = True
            for k, ent in hin.items():
                if k[0] == "phi":
                    i = ent[2]
                    for pb, v in i["in"]:
                        if pb == src:
                            x = self.induct(h, k, self.val(v, env))
                            ent[1] = x if ent[1] is None else ite(c, x, ent[1])
        s = Summary()
        s.rets = rets
        s.throws = throws
        s.events = events
        s.calls = self.calls
        s.loops = self.loopvals
        s.undecided = self.undecided
        s.backs = [(h, c) for _, h, c, _, _ in backs]
        if rets:
            v = None
            for pc, x, m, _ in rets:
                if x is not None:
                    v = x if v is None else ite(pc, x, v)
            s.ret = v
            s.mem = self.join([(pc, m) for pc, _, m, _ in rets])
            s.retpc = FALSE
            for pc, _, _, _ in rets:
                s.retpc = Or(s.retpc, pc)
        else:
            s.ret, s.mem, s.retpc = None, None, FALSE
        s.analysis = self
        self.summary = s
        return changed

    def generic(self, h, key, t):
        """what an entity changed by a loop looks like in an arbitrary iteration"""
        return t

    def induct(self, h, key, v):
        """its value for the next iteration, in the same terms"""
        return v

    def _cell(self, mem, key):
        return self._read(mem, key[0], T("ptr", key[1], key[2]))

    def join(self, states):
        if len(states) == 1:
            m = states[0][1]
            return m
        keys = set()
        for _, m in states:
            keys |= set(m.cells)
        out = Mem()
        for _, m in states:
            out.fresh |= m.fresh
            for c in m.copies:
                if c not in out.copies:
                    out.copies.append(c)
        for key in keys:
            r = None
            for c, m in states:
                v = self._cell(m, key)
                r = v if r is None else ite(c, v, r)
            out.cells[key] = r
        return out

    def boolean(self, v):
        def f(t):
            if isint(t):
                return TRUE if t.args[0] & 1 else FALSE
            if t.op == "undef":
                return T("ite", T("undefcond", self.cur), TRUE, FALSE)
            return atom(t)
        return lift(f, v)

    def instr(self, i, env, mem):
        op = i["op"]
        r = None
        if op == "alloca":
            root = T("alloca", i["id"])
            mem.fresh.add(root)
            for k in [k for k in mem.cells if k[1] is root]:
                del mem.cells[k]
            r = T("ptr", root, 0)
        elif op == "gep":
            r = self.gep(i["gep"], env)
        elif op == "load":
            p = self.val(i["ops"][0], env)
            r = self.read(mem, "raw%d" % i["size"], p)
            if i["ty"] == "ptr":
                r = lift(self.asptr, r)
            elif i["ty"] == "i1":
                r = self.boolean(r)
            if i.get("atomic"):
                self.event(i, "atomic_load", [p])
        elif op == "store":
            v = self.val(i["ops"][0], env)
            p = self.val(i["ops"][1], env)
            self.write(mem, "raw%d" % i["size"], p, v)
            self.event(i, "store", [p, v])
        elif op == "icmp":
            a, b = (self.val(x, env) for x in i["ops"])
            r = lift(lambda x, y: icmp(i["pred"], x, y), a, b)
        elif op == "fcmp":
            a, b = (self.val(x, env) for x in i["ops"])
            r = lift(lambda x, y: atom(T("fcmp", i["pred"], x, y)), a, b)
        elif op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            a, b = (self.val(x, env) for x in i["ops"])
            bits = int(i["ty"][1:]) if i["ty"][0] == "i" else 64
            if bits == 1:
                a, b = self.boolean(a), self.boolean(b)
                r = And(a, b) if op == "and" else Or(a, b) if op == "or" else ite(a, Not(b), b)
            else:
                r = lift(lambda x, y: binop(op, x, y, bits), a, b)
        elif op in ("zext", "sext", "trunc"):
            a = self.val(i["ops"][0], env)
            bits = int(i["ty"][1:])

            def cast(x):
                if isint(x):
                    v, w = x.args
                    if op == "zext":
                        v &= (1 << w) - 1
                    return Int(sgn_wrap(v, bits), bits)
                have = self.bits_of(i["ops"][0])
                if x.op == "undef" and op == "trunc":
                    return x
                if x.op not in ("lin", "mul"):
                    WIDTHS.setdefault(x.id, have)
                if op == "trunc" and x.op in ("zext", "sext") and x.args[1] >= 0:
                    if x.args[2] == bits:
                        return x.args[0]
                if op == "trunc":
                    fs = fields(x, have)
                    if fs is not None:
                        return mkbits(fs, bits)
                    return T("trunc", x, bits)
                if op == "zext":
                    fs = fields(x, have)
                    if fs is not None:
                        return mkbits(fs, bits)
                return T(op, x, bits, have)
            r = lift(cast, a)
            if bits == 1:
                r = self.boolean(r)
        elif op in ("fneg", "fadd", "fsub", "fmul", "fdiv", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "ptrtoint", "inttoptr", "bitcast", "freeze", "frem"):
            a = [self.val(x, env) for x in i["ops"]]
            if op == "freeze":
                r = a[0]
            elif op in ("fneg",):
                r = lift(lambda x: T("fneg", x), *a)
            else:
                r = lift(lambda *x: T(op, *x), *a)
        elif op == "select":
            c, a, b = (self.val(x, env) for x in i["ops"])
            r = ite(self.boolean(c), a, b)
        elif op in ("call", "invoke"):
            r = self.call(i, env, mem)
            if r == "dead":
                return r
            if r is not None and i["ty"] == "i1":
                r = self.boolean(r)
        elif op == "extractvalue":
            a = self.val(i["ops"][0], env)
            r = lift(lambda x: self.extract(x, i["idx"]), a)
            if i["ty"] == "i1":
                r = self.boolean(r)
        elif op == "insertvalue":
            a, b = self.val(i["ops"][0], env), self.val(i["ops"][1], env)
            r = lift(lambda x, y: T("insert", x, y, tuple(i["idx"])), a, b)
        elif op == "landingpad":
            r = T("landingpad")
        elif op == "atomicrmw":
            p, v = self.val(i["ops"][0], env), self.val(i["ops"][1], env)
            kind = "raw%d" % max(1, (int(i["ty"][1:]) + 7) // 8) if i["ty"][0] == "i" else "raw8"
            old = self.read(mem, kind, p)
            self.event(i, "atomicrmw", [p, v, T(i["rmw"])])
            if i["rmw"] == "add":
                self.write(mem, kind, p, lift(lambda a, b: add(a, b), old, v))
            else:
                self.write(mem, kind, p, T("rmw", i["rmw"], old, v))
            r = old
        elif op == "fence":
            pass
        else:
            r = T("instr", op, i["id"])
            self.undecided.append("instruction %s at %s" % (op, [tuple(x) for x in (i.get("loc") or [])][:3]))
        if r is not None:
            env[i["id"]] = r
        return None

    def bits_of(self, v):
        if v["k"] == "int":
            return v["bits"]
        if v["k"] == "arg":
            t = self.fn["args"][v["id"]]["ty"]
        else:
            if not hasattr(self, "_tys"):
                self._tys = {i["id"]: i["ty"] for b in self.fn["blocks"] for i in b["ins"]}
            t = self._tys.get(v.get("id"), "i64")
        return int(t[1:]) if t[0] == "i" and t[1:].isdigit() else 64

    @staticmethod
    def extract(x, idx):
        y = x
        while y.op == "insert":
            if y.args[2] == tuple(idx):
                return y.args[1]
            y = y.args[0]
        if y.op == "agg" and len(idx) == 1:
            return y.args[0][idx[0]]
        return T("extract", y, tuple(idx))

    @staticmethod
    def asptr(t):
        if t.op in ("ptr", "null", "undef"):
            return t
        return T("ptr", t, 0)

    def event(self, i, name, args, extra=None):
        self.seq += 1
        self.events.append({"pc": self.pc, "name": name, "args": args, "ins": i, "block": self.cur, "extra": extra, "seq": self.seq})

    def call(self, i, env, mem):
        c = i["callee"]
        args = [self.val(a, env) for a in i["args"]]
        name = c.get("name") if c["k"] == "fn" else None
        if name is None:
            tgt = self.val(c, env)
            if tgt.op == "ptr" and tgt.args[0].op == "fn":
                name = tgt.args[0].args[0]
        if name and name.startswith("llvm."):
            base = name.split(".")[1]
            if base in ("memcpy", "memmove"):
                n = args[2]
                if isint(n):
                    self.memcpy(mem, args[0], args[1], n.args[0])
                    self.event(i, "memcpy", args)
                else:
                    self.undecided.append("memcpy of unknown size")
                return None
            if base == "memset":
                if isint(args[1], 0) and isint(args[2]):
                    for p in leaves(args[0]):
                        if p.op != "ptr":
                            p = T("ptr", p, 0)
                        n = args[2].args[0]
                        for k in [k for k in mem.cells if k[1] is p.args[0] and p.args[1] <= k[2] < p.args[1] + n]:
                            del mem.cells[k]
                        for o in range(0, n - n % 8, 8):
                            mem.cells[("raw8", p.args[0], p.args[1] + o)] = Int(0)
                        for o in range(n - n % 8, n):
                            mem.cells[("raw1", p.args[0], p.args[1] + o)] = Int(0, 8)
                return None
            if base in ("smax", "smin", "umax", "umin", "abs"):
                return lift(lambda *x: T(base, *x), *args[:2])
            if base in ("sadd", "uadd", "smul", "umul", "ssub", "usub"):
                opn = {"add": "add", "sub": "sub", "mul": "mul"}[base[1:]]
                v = lift(lambda x, y: binop(opn, x, y, 64), args[0], args[1])
                o = atom(T("overflow", base, *args)) if all(a.op != "ite" for a in args) else atom(T("overflow", i["id"]))
                return lift(lambda v_: T("agg", (v_, o)), v)
            if base in ("lifetime", "dbg", "assume", "experimental", "donothing", "invariant", "prefetch"):
                return None
            if base == "trap":
                return "dead"
            if base in ("fabs", "floor", "ceil", "copysign", "expect", "ctpop", "ctlz", "cttz", "bswap", "fma", "fmuladd", "sqrt"):
                if base == "expect":
                    return args[0]
                return lift(lambda *x: T(base, *x), *args)
            if base == "is":
                if name.startswith("llvm.is.constant"):
                    return FALSE
                return lift(lambda x, m: atom(T("fpclass", x, m)), *args)
            if base in ("eh",):
                return Int(0)
            self.undecided.append("intrinsic " + name)
            return T("intrinsic", name, *args)
        if name in ("__cxa_throw", "_ZSt9terminatev", "abort", "flint_abort", "__cxa_rethrow", "_Unwind_Resume", "__clang_call_terminate", "__assert_fail") or (name and name.startswith("_ZSt") and "__throw_" in name):
            self.event(i, "throw", args, extra=name)
            return "dead"
        self.calls.append((name or "indirect", i))
        self.target = None if name else self.val(c, env)
        if self.on_call:
            r = self.on_call(self, name, c.get("dem", name), i, args, mem)
            if r is not NotImplemented:
                return r
        return self.catalog(self, name, c.get("dem", name), i, args, mem)


def pointers(init):
    """the entries of a constant table of pointers"""
    if init["k"] == "agg":
        parts = [pointers(x) for x in init["v"]]
        return None if None in parts else [x for p in parts for x in p]
    return [init] if init["k"] in ("global", "fn", "null", "gep") else None


def mkpart(nm, x):
    if x.op == "whole":
        kind = x.args[0]
        for (k, d, n), v in zip(PARTS[kind], x.args[1:]):
            if n == nm:
                return v
    if x.op == "undef":
        return x
    return T(nm, x)


def mkwhole(kind, *v):
    if all(x.op == nm and x.args[0] is v[0].args[0] for x, (k, d, nm) in zip(v, PARTS[kind]) if x.args) and all(x.args for x in v) and all(x.op == nm for x, (k, d, nm) in zip(v, PARTS[kind])):
        return v[0].args[0]
    return T("whole", kind, *v)
