"""Following the loops of a summary over a finite model: vectors of model values, states of the loop variables"""
import re
from fractions import Fraction

import catalog
import vf
from vf import T, Int, lift, Or, FALSE
from interp import Unknown

VEC = re.compile(r"^std::vector<(.*)>::(size|empty|begin|end|cbegin|cend|rbegin|operator\[\]|at|front|back|data)\(([^()]*)\) ?(const)?$")
SIZES = [(r"^std::shared_ptr<", 16), (r"^__gmp_expr<__mpz_struct", 16), (r"^__gmp_expr<__mpq_struct", 32), (r"^eantic::renf_elem_class", 88), (r"^(long|unsigned long|int)\b", 8)]


def stride(ty):
    for r, n in SIZES:
        if re.match(r, ty):
            return n
    return None


def vectors(A, name, dem, i, args, mem):
    """reading the elements of a vector"""
    m = VEC.match(dem or "")
    if not m:
        return NotImplemented
    n = stride(m.group(1))
    if n is None:
        return NotImplemented
    what = m.group(2)
    if what == "size":
        return lift(lambda v: T("vsize", v), args[0])
    if what == "empty":
        return lift(lambda v: vf.icmp("eq", T("vsize", v), Int(0)), args[0])
    if what in ("operator[]", "at"):
        return lift(lambda v, k: T("ptr", T("elt", v, k, n), 0), *args[:2])
    if what in ("begin", "cbegin", "front", "data"):
        return lift(lambda v: T("ptr", T("elt", v, Int(0), n), 0), args[0])
    if what in ("end", "cend"):
        return lift(lambda v: T("ptr", T("elt", v, T("vsize", v), n), 0), args[0])
    if what == "back":
        return lift(lambda v: T("ptr", T("elt", v, vf.add(T("vsize", v), Int(1), -1), n), 0), args[0])
    return NotImplemented


class Endless(Unknown):
    """a loop that goes on"""


REFCOUNT = r"std::(_Sp_counted_base<.*>::(_M_release|_M_add_ref_copy|_M_add_ref_lock(_nothrow)?|_M_release_last_use(_cold)?)|__shared_count<.*>::~__shared_count)\("


def refcounts(A, name, dem, i, args, mem):
    """who owns what is of no interest here"""
    if re.match("^(void |bool )?" + REFCOUNT, dem or ""):
        return vf.TRUE if "nothrow" in dem else None
    return NotImplemented


NUMERIC = {"int", "cmp", "trunc", "ball_eq", "ball_lt", "ball_le", "ball_ne", "equal", "vsize", "sdiv", "atom", "mul", "add"}


class Vectors:
    """to be mixed into a Model: addresses are pairs (object, offset); vectors: address -> list, cells: address of a pointer -> object"""

    def __init__(self, *a, vectors=None, cells=None, alias=None, **k):
        super().__init__(*a, **k)
        self.vectors, self.cells, self.alias = dict(vectors or {}), dict(cells or {}), dict(alias or {})
        self.numbers = {}

    def addr(self, t):
        if t in self.alias:
            return (self.alias[t], 0)
        v = self.env.get(t)
        if isinstance(v, tuple):
            return v
        if t.op == "ptr":
            b, o = self.addr(t.args[0])
            return (b, o + t.args[1])
        if t.op == "elt":
            return (("elt", self.addr(t.args[0]), t.args[2]), int(self(t.args[1])) * t.args[2])
        if t.op == "in" and t.args[0] == "raw8":
            b, o = self.addr(t.args[1])
            o += t.args[2]
            if isinstance(b, tuple) and b[0] == "elt":
                v, r = self.item(b, o)
                if r == 0:
                    return (v, 0)
                raise Unknown("a part of an element")
            if (b, o) in self.cells:
                return (self.cells[b, o], 0)
            return (("deref", b, o), 0)
        if t.op in ("arg", "alloca", "global", "null"):
            return (t, 0)
        if t.op == "ite":
            return self.addr(t.args[1] if self.holds(t.args[0]) else t.args[2])
        if t.op == "lin":
            b, o = None, t.args[0]
            for c, x in t.args[1]:
                try:
                    o += c * int(self(x))
                except (Unknown, TypeError, ValueError):
                    if b is not None or c != 1:
                        raise Unknown("address of a " + t.op)
                    b = self.addr(x)
            if b is not None:
                return (b[0], b[1] + o)
        raise Unknown("address of a " + t.op)

    def item(self, b, o):
        """(element, offset into it) at an offset of the data of a vector"""
        if b[1] not in self.vectors:
            raise Unknown("the vector at %r" % (b[1],))
        k, r = divmod(o, b[2])
        v = self.vectors[b[1]]
        if not 0 <= k < len(v):
            raise Unknown("element %d of a vector of %d" % (k, len(v)))
        return v[k], r

    def element(self, root, off):
        b, o = self.addr(root)
        if isinstance(b, tuple) and b[0] == "elt":
            return self.item(b, o + off) + (b[2],)
        raise Unknown("not an element")

    def op_vsize(self, v):
        a = self.addr(v)
        if a not in self.vectors:
            raise Unknown("the vector at %r" % (a,))
        return len(self.vectors[a])

    def op_ptrtoint(self, x):
        b, o = self.addr(x)
        return (self.numbers.setdefault(b, len(self.numbers)) + 1) * (1 << 40) + o

    def op_eq(self, x, y):
        if x.op in NUMERIC or y.op in NUMERIC:
            return super().op_eq(x, y)
        try:
            a, b = self.addr(x), self.addr(y)
        except (Unknown, TypeError, AttributeError, IndexError):
            return super().op_eq(x, y)
        return int(a == b)

    def op_in(self, kind, root, off):
        if kind in ("mpz", "mpq", "renf_elem", "raw4") and root.op not in ("arg", "alloca"):
            v, r, n = self.element(root, off - (4 if kind == "raw4" else 0))
            if n == 32:
                v = Fraction(v)
                if r == 0 and kind == "mpq":
                    return v
                v = v.numerator if r == 0 else v.denominator if r == 16 else None
            elif r:
                v = None
            if v is not None:
                return (v > 0) - (v < 0) if kind == "raw4" else v
        return super().op_in(kind, root, off)


def parts(t):
    """the immediate subterms"""
    out, todo = [], [t.args]
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            todo += x
    return out


class Follow:
    """runs the loop variables of a summary through their steps on one model"""

    def __init__(self, s, limit=12, outs=None, free=None):
        """outs: the terms that will be asked for afterwards; free(t): t does not depend on the loop variables in the model"""
        self.s, self.limit = s, limit
        self.free = free or (lambda t: False)
        self.cont = {}
        for h, c in s.backs:
            self.cont[h] = Or(self.cont.get(h, FALSE), c)
        self.vars = {h: {} for h in s.loops}
        for h, d in s.loops.items():
            for key, v in d.items():
                self.vars[h][loopterm(h, key)] = v[:2]
        self.slice(outs)
        uses = {h: set() for h in s.loops}      # loops whose variables the step of h reads
        starts = {h: set() for h in s.loops}    # ... its initial values read
        for h in s.loops:
            for t in [self.cont.get(h, FALSE)] + [n for _, n in self.vars[h].values() if n is not None]:
                uses[h] |= self.loopsin(t)
            for i, _ in self.vars[h].values():
                if i is not None:
                    starts[h] |= self.loopsin(i)
        self.starts = starts
        heads = list(s.loops)
        rank = {h: k for k, h in enumerate(heads)}
        # g is inside h: its initial values come from h and h's step depends on it
        inside = {g: {h for h in heads if h != g and (h in starts[g] or h in uses[g] and g not in starts[h] and rank[h] < rank[g]) and g in uses[h]} for g in heads}
        self.parent = {}
        for g in heads:
            c = [h for h in inside[g] if not any(h in inside[k] for k in inside[g] if k != h)]
            self.parent[g] = c[0] if c else None
        self.order = sorted(heads, key=lambda h: (len(starts[h]), rank[h]))
        done, order = set(), []
        todo = list(heads)
        while todo:
            for h in todo:
                before = starts[h] | {g for g in uses[h] if self.parent.get(g) == self.parent.get(h) and h not in starts[g] | uses[g]}
                if all(k in done or k == h or k not in rank for k in before if self.parent.get(h) != k):
                    break
            else:
                h = todo[0]
            todo.remove(h)
            done.add(h)
            order.append(h)
        self.order = order
        self.kids = {}

    def slice(self, outs):
        """keeps the variables that the answer, or staying in a loop, depends on"""
        if outs is None:
            return
        need, todo, seen = set(), list(outs) + list(self.cont.values()), set()
        while todo:
            t = todo.pop()
            if not isinstance(t, T) or t.id in seen or self.free(t):
                continue
            seen.add(t.id)
            if t.op == "loop":
                if t not in need:
                    need.add(t)
                    todo += [x for x in self.vars.get(t.args[0], {}).get(t, ()) if x is not None]
                continue
            todo += parts(t)
        for h in self.vars:
            self.vars[h] = {t: v for t, v in self.vars[h].items() if t in need}

    @staticmethod
    def loopsin(t):
        return {x.args[0] for x in vf.walk(t) if x.op == "loop"}

    def children(self, h):
        if h not in self.kids:
            self.kids[h] = [g for g in self.order if self.parent[g] == h]
        return self.kids[h]

    def run(self, model, step=None):
        self.step = step
        for h in self.children(None):
            self.loop(model, h)

    def set(self, model, new):
        for t, v in new.items():
            model.env[t] = v
        model.memo.clear()

    def value(self, model, t):
        try:
            return model(t)
        except (Unknown, ZeroDivisionError, TypeError, AttributeError, KeyError, ValueError, OverflowError):
            pass
        try:
            return model.addr(t)
        except (Unknown, TypeError, AttributeError, KeyError, ValueError, ZeroDivisionError):
            return None

    def assign(self, model, vals):
        if not vals:
            return
        for t, v in vals.items():
            if v is None:
                model.env.pop(t, None)
            else:
                model.env[t] = v
        model.memo.clear()

    def loop(self, model, h):
        self.assign(model, {t: self.value(model, i) if i is not None else None for t, (i, n) in self.vars[h].items()})
        for k in range(self.limit):
            for g in self.children(h):
                self.loop(model, g)
            if self.step:
                self.step(model, h, k)
            c = self.cont.get(h, FALSE)
            if c is FALSE or not model.holds(c):
                return
            if not self.vars[h]:
                raise Endless("a loop that changes nothing")
            self.assign(model, {t: self.value(model, n) if n is not None else None for t, (i, n) in self.vars[h].items()})
        raise Endless("a loop of more than %d rounds" % self.limit)


def loopterm(h, key):
    return T("loop", h, "phi", key[1], 0) if key[0] == "phi" else T("loop", h, key[0], key[1], key[2])
