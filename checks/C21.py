"""Python operators keep their operand order.

The pythonizations are closures built in loops, with arguments bound by
default: what they do is decided by evaluating the syntax trees of the two
modules on symbolic operands (lib/pyeval.py), once for each way the C++ call
they end up in can turn out; the C++ stubs they call are decided from the IR
of instantiations with types that only have declarations."""
import ast
import itertools
import math
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from fractions import Fraction as F

from world import *
import re

from common import Broken, Unfamiliar, REPO, parallel, where
import pyeval
from pyeval import Sym, Inst, Cls, Func, Native, Exc, PyRaise, World, term, show, PLAIN

PY = os.path.join(REPO, "pyexactreal/src/pyexactreal")
OPS = ["add", "sub", "mul", "truediv"]
RELS = ["lt", "le", "eq", "ne", "gt", "ge"]
STUB = "cppyy.gbl.exactreal.cppyy."
TYPES = [("exactreal", "Arb"), ("exactreal", "Arf"), ("exactreal", "Element<exactreal::IntegerRing>"), ("exactreal", "Element<exactreal::RationalField>"), ("exactreal", "Element<exactreal::NumberField>"),
         ("exactreal::yap", "ArbExpr<boost::yap::expr_kind::plus,...>"), ("exactreal::yap", "ArfExpr<boost::yap::expr_kind::plus,...>")]


class Cppyy(World):
    """cppyy, and the C++ calls that end in one of four ways"""

    def __init__(self):
        self.kind = "plain"
        self.regs = []
        self.unsupported = None

    def imported(self, ev, path):
        if path == "pyexactreal.exactreal":
            return Sym(("path", "cppyy.gbl.exactreal"))
        if path == ".cppyy_exactreal.exactreal":
            return Sym(("path", "cppyy.gbl.exactreal"))

    def stub(self, f):
        """(operation, types) when f is one of the stubs"""
        t, types = f, None
        if t[0] == "sub":
            t, types = t[1], t[2]
        if t[0] == "attr" and t[2] == "__call__":
            t = t[1]
        if t[0] == "path" and t[1].startswith(STUB):
            return t[1][len(STUB):], types
        return None

    def call(self, ev, f, args, kw):
        t = term(f)
        if t == ("path", "cppyy.py.add_pythonization"):
            self.regs.append((args[0], args[1] if len(args) > 1 else "", ev.place))
            return None
        s = self.stub(t)
        if s is not None and not kw:
            if self.unsupported == "call" and len(args) > 1:
                ev.raise_("TypeError", "no instantiation")
            name, types = s
            if types is not None:
                types = types if isinstance(types, tuple) and (not types or isinstance(types[0], tuple)) else (types,)
                if types != tuple(term(ev.b_type(a)) for a in args[:len(types)]):
                    return Sym(("res", "%s, instantiated for other types than those of its operands," % name, tuple(term(a) for a in args)))
            return Sym(("res", name, tuple(term(a) for a in args)))
        if t[0] == "attr" and t[1][0] == "cpp" and not kw:
            if self.unsupported and len(args) > 1:
                ev.raise_("TypeError", "no overload")
            return Sym(("res", t[2].strip("_"), tuple(term(a) for a in args)))
        if t[0] == "attr" and t[1][0] == "res":
            if t[2] == "has_value" and self.kind in ("full", "empty") and not args:
                return self.kind == "full"
            if t[2] == "value" and not args:
                if self.kind == "full":
                    return Sym(("value", t[1]))
                if self.kind == "empty":
                    raise PyRaise(Exc("bad_optional_access"))
            if t[2] == "value_or" and len(args) == 1 and self.kind in ("full", "empty"):
                return Sym(("value", t[1])) if self.kind == "full" else args[0]
        if t == ("path", "cppyythonizations.util.filtered"):
            n = args
            return Native("filtered", lambda e2, a, k: Native("filtered", lambda e3, b, j: e3.call(a[0], b, {}) if b[1] in n else None))
        return World.call(self, ev, f, args, kw)

    def sub(self, ev, x, i):
        if self.unsupported == "sub" and self.stub(x.term) and isinstance(i, tuple):
            ev.raise_("TypeError", "no instantiation")
        return World.sub(self, ev, x, i)

    def attr(self, ev, x, name):
        if x.term[0] == "res":
            if self.kind == "plain" and name in ("has_value", "value", "value_or"):
                ev.raise_("AttributeError", name)
        if x.term[0] == "obj" and x.term[1] in self.objects:
            return Sym(("attr", ("cpp", self.objects[x.term[1]].cls.name), name)) if name in () else World.attr(self, ev, x, name)
        return World.attr(self, ev, x, name)

    objects = {}

    def hasattr(self, ev, x, name):
        if isinstance(x, Sym) and x.term[0] == "res" and name in ("has_value", "value"):
            return self.kind != "plain"
        if isinstance(x, Cls) or isinstance(x, Inst):
            raise Unfamiliar("hasattr(%s, %s)" % (x, name))
        return World.hasattr(self, ev, x, name)

    def compare(self, ev, op, a, b):
        if op == "is":
            return False
        return Sym(("res", op, (term(a), term(b))))

    def binop(self, ev, op, a, b):
        if self.unsupported:
            ev.raise_("TypeError", "no operator")
        return Sym(("res", op, (term(a), term(b))))

    def unop(self, ev, op, a):
        return Sym(("res", op, (term(a),)))

    def isinstance(self, ev, x, c):
        if isinstance(c, Cls) and isinstance(x, Sym) and x.term[0] in ("res", "value"):
            return False
        return World.isinstance(self, ev, x, c)

    def truth(self, ev, x):
        if isinstance(x, Sym) and (x.term[0] == "path" or x.term[0] == "call" and show(x.term[1]).startswith("os.")):
            return True
        return World.truth(self, ev, x)


def proxies(ev, w):
    """the proxy classes after everything registered for their namespace ran"""
    out = {}
    for ns, name in TYPES:
        c = Cls(name, [Sym(("cpp", name))], {})
        for f, n, place in w.regs:
            if n == ns:
                ev.call(f, [c, name], {})
        out[name] = c
    return out


def load(rep):
    path = os.path.join(PY, "cppyy_exactreal.py")
    if not os.path.exists(path):
        raise Unfamiliar("vanished: " + path)
    w = Cppyy()
    ev = pyeval.Evaluator(w)
    env = ev.module(open(path).read())
    rep.count("statements and expressions evaluated", ev.start - ev.fuel)
    return w, ev, env, proxies(ev, w)


COMM = ("add", "mul", "eq", "ne")


def matches(t, op, l, r):
    """does the term denote l op r"""
    if not (isinstance(t, tuple) and t and t[0] == "res"):
        return None
    a = t[2]
    if t[1] == op and a == (l, r):
        return True
    if t[1] in ("r" + op,) and a == (r, l):
        return True
    if op in COMM and t[1] == op and a == (r, l):
        return True
    if op in pyeval.FLIP and t[1] == pyeval.FLIP[op] and a == (r, l):
        return True
    return False


def unyap(v):
    """the term a wrapped expression carries"""
    if isinstance(v, Inst):
        held = [x for x in v.dict.values() if isinstance(x, Sym) and x.term[0] in ("res", "value")]
        if len(held) == 1:
            return held[0]
    return v


def judge(v, kind, op, l, r, wrapped):
    """True, or what is wrong; None: not decided"""
    want = "%s(%s, %s)" % (op, show(l), show(r))
    v = unyap(v)
    if isinstance(v, Sym):
        t = v.term
        if t[0] == "value":
            if kind != "full":
                return None
            m = matches(t[1], op, l, r)
            return True if m else None if m is None else "%s instead of the value of %s" % (show(t), want)
        if t[0] == "res":
            m = matches(t, op, l, r)
            if m is False:
                return "%s instead of %s" % (show(t), want)
            if kind == "plain":
                return True
            return "the optional result of %s is returned as it is" % want
        return None
    if v is pyeval.NOTIMPL:
        return "NotImplemented where %s is supported" % want
    if isinstance(v, PLAIN):
        return "%r instead of %s" % (v, want)
    if isinstance(v, Inst) and v.label:
        return "an operand instead of %s" % want
    return None


def outcome(ev, f):
    """('value', v) or ('raise', exc)"""
    ev.fuel = ev.start
    try:
        return "value", f()
    except PyRaise as e:
        return "raise", e.value


def name_of(exc):
    return exc.cls.name if isinstance(exc.cls, Cls) else str(exc.cls)


def derives(exc, n):
    return isinstance(exc.cls, Cls) and any(c.name == n for c in exc.cls.mro()) or exc.cls == n


def decide(rep, ev, w, key, op, expr, l, r, error, kinds, optional_ok=False):
    """one way of writing an operator, for each way the call can turn out"""
    bad, und, done = [], [], []
    for kind in kinds:
        w.kind, w.unsupported = kind, None
        for uns in (["sub", "call"] if kind == "unsupported" else [None]):
            w.unsupported = uns
            if uns:
                w.kind = "plain"
            try:
                what, v = outcome(ev, expr)
            except Unfamiliar as e:
                und.append("%s: %s" % (kind, e))
                continue
            finally:
                w.unsupported = None
            if kind == "unsupported":
                if what == "value" and v is not pyeval.NOTIMPL:
                    bad.append("operands the library has no operation for give %s" % (show(term(v)),))
                else:
                    done.append("unsupported operands: %s" % ("NotImplemented" if what == "value" else name_of(v)))
                continue
            if kind == "empty":
                if what == "raise" and derives(v, error):
                    done.append("no result: " + name_of(v))
                elif what == "raise":
                    bad.append("a result that does not exist is reported as %s, not as %s" % (name_of(v), error))
                else:
                    bad.append("a result that does not exist gives %s" % show(term(unyap(v))))
                continue
            if what == "raise":
                if optional_ok:
                    done.append("raises " + name_of(v))
                    continue
                bad.append("raises %s%s" % (name_of(v), v.args))
                continue
            j = judge(v, kind, op, l, r, None)
            if j is True:
                done.append("%s result: %s" % (kind, show(term(unyap(v)))))
            elif j is None:
                und.append("%s: %s" % (kind, show(term(v))[:200]))
            else:
                bad.append(j)
    rep.count("operator forms evaluated", len(kinds))
    place = "pyexactreal/src/pyexactreal/cppyy_exactreal.py:%s" % ev.place
    if bad:
        rep.ob(key, False, "; ".join(dict.fromkeys(bad)), place)
    elif und:
        rep.ob(key, None, "; ".join(und), place)
    else:
        rep.ob(key, True, "; ".join(done), place)


def wrappers(rep):
    w, ev, env, px = load(rep)
    yap = env.get("Yap")
    SYMBOL = {"add": "+", "sub": "-", "mul": "*", "truediv": "/"}
    objs = {}
    for ns, name in TYPES:
        for side in ("l", "r"):
            x = Inst(px[name], "%s:%s" % (side, name.split("<")[0]))
            objs[name, side] = x
            w.objects[x.label] = x
    registered = 0
    for ns, name in TYPES:
        L, R = objs[name, "l"], objs[name, "r"]
        short = name.split(",")[0]
        for op in OPS:
            k = ["plain", "full", "empty", "unsupported"]
            for key, a, b in (("both", L, R), ("left", L, 1), ("right", 1, R)):
                w.kind, w.unsupported = "plain", None
                decide(rep, ev, w, "%s:%s:%s" % (short, op, key), op, lambda: ev.binary(op, a, b), term(a), term(b), "NotRepresentableError", k)
        for op in ("neg",):
            und = None
            w.kind = "plain"
            try:
                what, v = outcome(ev, lambda: ev.unary("neg", L))
                v = unyap(v) if what == "value" else v
                good = what == "value" and isinstance(v, Sym) and v.term == ("res", "neg", (term(L),))
                known = what == "raise" or isinstance(v, PLAIN) or isinstance(v, Inst) or isinstance(v, Sym) and v.term[0] in ("res", "value")
            except Unfamiliar as e:
                good, known, v = False, False, str(e)
            rep.ob("%s:neg" % short, True if good else False if known else None, "-x is %s" % (show(term(v)) if not isinstance(v, (str, Exc)) else v), "cppyy_exactreal.py:%s" % ev.place)
    for name in [n for _, n in TYPES if n == "Arb" or n.startswith("ArbExpr<")]:
        L, R = objs[name, "l"], objs[name, "r"]
        for op in RELS:
            for key, a, b in (("both", L, R), ("left", L, 1), ("right", 1, R)):
                decide(rep, ev, w, "%s:%s:%s" % (name.split(",")[0], op, key), op, lambda: ev.compare(op, a, b), term(a), term(b), "PrecisionError", ["plain", "full", "empty"])
    if yap is None:
        rep.ob("Yap", None, "there is no class Yap")
        return
    expr = next(n for _, n in TYPES if n.startswith("ArbExpr<"))
    vl, vr = objs[expr, "l"], objs[expr, "r"]

    def wrap(v):
        return ev.call(yap, [v], {})
    for op in OPS:
        arb = objs["Arb", "r"]
        larb = objs["Arb", "l"]
        for key, a, b, l, r in (("both", wrap(vl), wrap(vr), vl, vr), ("left", wrap(vl), arb, vl, arb), ("right", larb, wrap(vr), larb, vr), ("int right", wrap(vl), 1, vl, 1)):
            decide(rep, ev, w, "Yap:%s:%s" % (op, key), op, lambda: ev.binary(op, a, b), term(l), term(r), "NotRepresentableError", ["plain", "unsupported"])
        decide(rep, ev, w, "Yap:%s:int left" % op, op, lambda: ev.binary(op, 1, wrap(vr)), 1, term(vr), "NotRepresentableError", ["plain"], optional_ok=True)
    for key, f, want in (("neg", lambda: ev.unary("neg", wrap(vl)), ("res", "neg", (term(vl),))), ("call", lambda: ev.call(wrap(vl), [64], {}), ("res", "eval", (term(vl), 64))),
                         ("call with a rounding", lambda: ev.call(wrap(vl), [64, Sym(("round",))], {}), ("res", "eval", (term(vl), 64, ("round",))))):
        w.kind = "plain"
        try:
            what, v = outcome(ev, f)
            v = unyap(v) if what == "value" else v
            good = isinstance(v, Sym) and v.term == want
            rep.ob("Yap:" + key, True if good else False if what == "raise" or isinstance(v, (Inst,) + PLAIN) or v.term[0] in ("res", "value") else None, "%s: %s" % (key, v if isinstance(v, Exc) else show(term(v))), "cppyy_exactreal.py:%s" % ev.place)
        except Unfamiliar as e:
            rep.ob("Yap:" + key, None, str(e))
    rep.counts["proxy types"] = len(TYPES)
    rep.floor("pythonizations registered", len(w.regs), 3)


# ---- the SageMath elements -------------------------------------------------
class Sage(World):
    """one world: the order of the two numbers, how the C++ calls turn out"""

    def __init__(self, **kw):
        self.__dict__.update(dict(order=0, sign=1, osign=1, kind="full", base="ZZ", coerces=True, divides=True), **kw)

    def imported(self, ev, path):
        if path in ("pyexactreal.exactreal",):
            return Sym(("path", "cppyy.gbl.exactreal"))
        if path.endswith("cppyy_exactreal.NotRepresentableError"):
            return NOTREP
        if path.startswith("sage."):
            return Sym(("path", "sage." + path.rsplit(".", 1)[-1]))

    def call(self, ev, f, args, kw):
        t = term(f)
        if t[0] == "path" and t[1].endswith(".has_coerce_map_from"):
            return self.coerces
        if t[0] == "attr" and not kw:
            x, n = t[1], t[2]
            if n == "parent" and not args:
                return Sym(("parent", x))
            if n == "simplify" and not args:
                return Sym(x)
            if n == "one" and x[0] == "parent" and not args:
                return Sym(("one",))
            if n == "zero" and x[0] == "parent" and not args:
                return Sym(("zero",))
            if n in ("base", "base_ring") and x[0] == "parent" and not args:
                return Sym(("path", "sage." + self.base)) if self.base != "K" else Sym(("path", "K"))
            if n in ("floordiv", "truediv") and len(args) == 1:
                if n == "truediv":
                    return self.binop(ev, n, Sym(x), args[0])
                return Sym(("op", n, x, term(args[0])))
            if n in ("floor", "ceil") and not args:
                return Sym(("op", n, x))
            if n == "has_value":
                return self.kind == "full"
            if n == "value":
                if self.kind != "full":
                    raise PyRaise(Exc("bad_optional_access"))
                return Sym(("value", x))
        if t[0] == "parent" and len(args) == 1:
            return Sym(("elem", term(args[0])))
        if t[0] == "path" and t[1] in ("sage.ZZ", "sage.QQ", "K") and len(args) == 1:
            return Sym(("in", t[1].split(".")[-1], term(args[0])))
        if t[0] == "path" and t[1] == "sage.coerce" and len(args) == 2:
            return Sym(("in", term(args[0])[1].split(".")[-1], term(args[1])))
        if t[0] == "path" and t[1].startswith(STUB) and len(args) == 1 and not kw:
            if t[1].endswith("optional_integer") or t[1].endswith("optional_rational"):
                return Sym(("optional", t[1].rsplit("_", 1)[1], term(args[0])))
        if t[0] == "path" and t[1] in ("cppyy.gbl.mpz_class", "cppyy.gbl.mpq_class") and len(args) == 1:
            return Sym(("cxx", t[1][-9:-6], term(args[0])))
        if t == ("path", "str") and len(args) == 1:
            return Sym(("str", term(args[0])))
        if t == ("path", "sage.rich_to_bool"):
            return Sym(("rich", term(args[0]), term(args[1])))
        if t[0] == "path" and t[1] in ("float",):
            return Sym(("float", term(args[0])))
        if t[0] == "path" and t[1] == "abs":
            return Sym(("abs", term(args[0])))
        return World.call(self, ev, f, args, kw)

    def attr(self, ev, x, name):
        if name == "parent" and x.term[0] != "path":
            return Sym(("attr", x.term, name))
        if name == "renf_elem":
            return Sym(("cxx", "renf", x.term))
        return World.attr(self, ev, x, name)

    def isinstance(self, ev, x, c):
        if isinstance(c, (Sym, Native)):
            return isinstance(x, Sym)
        return World.isinstance(self, ev, x, c)

    def binop(self, ev, op, a, b):
        if op == "truediv" and not self.divides:
            raise PyRaise(Exc(NOTREP))
        return Sym(("op", op, term(a), term(b)))

    def who(self, t):
        if t == ("obj", "self") or t == ("attr", ("obj", "self"), "_backend"):
            return "self"
        if t == ("obj", "rhs") or t == ("attr", ("obj", "rhs"), "_backend"):
            return "rhs"
        return None

    def compare(self, ev, op, a, b):
        if op == "is":
            if isinstance(a, Sym) and isinstance(b, Sym) and a.term[0] == b.term[0] == "path":
                return a == b
            raise Unfamiliar("is")
        ta, tb = term(a), term(b)
        x, y = self.who(ta), self.who(tb)
        c = None
        if x and y:
            c = 0 if x == y else self.order if x == "self" else -self.order
        elif x and tb in (0, ("zero",), ("in", "ZZ", 0)):
            c = self.sign if x == "self" else self.osign
        elif y and ta in (0, ("zero",)):
            c = -(self.sign if y == "self" else self.osign)
        if c is None:
            raise Unfamiliar("%s %s %s" % (show(ta), op, show(tb)))
        return {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0, "eq": c == 0, "ne": c != 0}[op]

    def truth(self, ev, x):
        if isinstance(x, Inst):
            return not self.compare(ev, "eq", x, 0)
        if isinstance(x, Sym) and x.term[0] == "path":
            return True
        if isinstance(x, Sym) and self.who(x.term):
            return not self.compare(ev, "eq", x, 0)
        return World.truth(self, ev, x)


NOTREP = Cls("NotRepresentableError", [pyeval.ExcCls("ArithmeticError")], {})


def value(t, pt):
    """the number a term denotes for given operands"""
    if isinstance(t, int):
        return F(t)
    if not isinstance(t, tuple):
        raise Unfamiliar(show(t))
    if t in (("obj", "self"), ("attr", ("obj", "self"), "_backend")):
        return pt["self"]
    if t in (("obj", "rhs"), ("attr", ("obj", "rhs"), "_backend")):
        return pt["rhs"]
    if t == ("obj", "c") or t == ("attr", ("obj", "c"), "_backend"):
        return pt["c"]
    if t == ("one",):
        return F(1)
    if t == ("zero",):
        return F(0)
    if t[0] in ("elem", "str", "value") and len(t) == 2:
        return value(t[1], pt)
    if t[0] == "in":
        v = value(t[2], pt)
        if t[1] == "ZZ" and v.denominator != 1:
            raise PyRaise(Exc("TypeError"))
        return v
    if t[0] == "cxx":
        v = value(t[2], pt)
        if t[1] == "mpz" and v.denominator != 1:
            return F(0)
        return v
    if t[0] == "abs":
        return abs(value(t[1], pt))
    if t[0] == "op":
        a = [value(x, pt) for x in t[2:]]
        if t[1] == "neg":
            return -a[0]
        if t[1] in ("floor", "ceil"):
            return F(math.floor(a[0]) if t[1] == "floor" else math.ceil(a[0]))
        if t[1] == "truediv" or t[1] == "div":
            if a[1] == 0:
                raise PyRaise(Exc("ZeroDivisionError"))
            return a[0] / a[1]
        if t[1] == "floordiv":
            return F(a[0] // a[1])
        if t[1] == "add":
            return a[0] + a[1]
        if t[1] == "sub":
            return a[0] - a[1]
        if t[1] == "mul":
            return a[0] * a[1]
        if t[1] == "invert":
            return 1 / a[0]
    raise Unfamiliar(show(t))


POINTS = [{"self": F(7, 3), "rhs": F(-5, 2), "c": F(11)}, {"self": F(-13, 4), "rhs": F(9, 5), "c": F(-6)}, {"self": F(17), "rhs": F(3), "c": F(19)}]


def kept(v):
    if isinstance(v, Inst) and v.label is None and isinstance(v.dict.get("_backend"), Sym):
        return ("elem", v.dict["_backend"].term)
    return term(v)


def elements(rep):
    path = os.path.join(PY, "exact_reals.py")
    if not os.path.exists(path):
        raise Unfamiliar("vanished: " + path)
    text = open(path).read()
    place = "pyexactreal/src/pyexactreal/exact_reals.py"

    def run(method, world, args=(), cls="ExactRealElement"):
        ev = pyeval.Evaluator(world)
        env = ev.module(text)
        c = env.get(cls)
        if not isinstance(c, Cls):
            raise Unfamiliar("there is no class " + cls)
        f = c.find(method)
        if f is None:
            raise Unfamiliar("%s has no method %s" % (cls, method))
        me, rhs = Inst(c, "self"), Inst(c, "rhs")
        for x in (me, rhs):
            x.dict["_backend"] = Sym(("attr", ("obj", x.label), "_backend"))
        obj = {"rhs": rhs, "c": Sym(("obj", "c"))}
        got = outcome(ev, lambda: ev.call(pyeval.Bound(f, me), [obj.get(a, a) if isinstance(a, str) else a for a in args], {}))
        rep.count("methods evaluated")
        return got, f

    def arith(method, args, want, worlds=(dict(),), inring=None, points=POINTS):
        bad, und, shown = [], [], ""
        line = ""
        for kw in worlds:
            try:
                (what, v), f = run(method, Sage(**kw), args)
                line = ":%d" % f.node.lineno if isinstance(f, Func) else ""
                if what == "raise":
                    bad.append("raises %s" % name_of(v))
                    continue
                t = kept(v)
                shown = show(t)
                if isinstance(v, (type(None), bool, str)):
                    bad.append("gives %r" % (v,))
                    continue
                if inring == "elem" and t[0] != "elem" and t not in (("obj", "self"), ("obj", "rhs")) and t[0] == "op" and any(y[-1:] == ("_backend",) for y in t[2:] if isinstance(y, tuple)):
                    bad.append("%s is not an element of the parent" % shown)
                for p in points:
                    if "sign" in kw:
                        p = dict(p, self=abs(p["self"]) * kw["sign"])
                    if kw.get("base") == "QQ":
                        p = dict(p, c=F(2, 3))
                    try:
                        g = value(t, p)
                    except PyRaise as e:
                        bad.append("for self = %s, other = %s: %s raises %s" % (p["self"], p["rhs"], shown, name_of(e.value)))
                        continue
                    if g != want(p):
                        bad.append("%s, which is %s rather than %s for self = %s, other = %s, c = %s" % (shown, g, want(p), p["self"], p["rhs"], p["c"]))
                        break
            except Unfamiliar as e:
                und.append(str(e))
        rep.ob("ExactReals:" + method, False if bad else None if und else True, "; ".join(bad or und) or shown, place + line)

    arith("_add_", ["rhs"], lambda p: p["self"] + p["rhs"], inring="elem")
    arith("_sub_", ["rhs"], lambda p: p["self"] - p["rhs"], inring="elem")
    arith("_mul_", ["rhs"], lambda p: p["self"] * p["rhs"], inring="elem")
    arith("_div_", ["rhs"], lambda p: p["self"] / p["rhs"], inring="elem")
    arith("_neg_", [], lambda p: -p["self"], inring="elem")
    arith("__invert__", [], lambda p: 1 / p["self"])
    arith("__abs__", [], lambda p: abs(p["self"]), [dict(sign=s) for s in (-1, 0, 1)])
    arith("_floordiv_", ["rhs"], lambda p: F(p["self"] // p["rhs"]))
    arith("floor", [], lambda p: F(math.floor(p["self"])))
    arith("ceil", [], lambda p: F(math.ceil(p["self"])))
    for m in ("_lmul_", "_rmul_"):
        arith(m, ["c"], lambda p: p["c"] * p["self"], [dict(base=b, coerces=k) for b in ("ZZ", "QQ", "K") for k in (True, False)], inring="elem")

    def cases(method, args, worlds, good):
        bad, und, n, line = [], [], 0, ""
        for kw in worlds:
            try:
                (what, v), f = run(method, Sage(**kw), args)
                line = ":%d" % f.node.lineno if isinstance(f, Func) else ""
                j = good(kw, what, v)
                n += 1
                if j is not True:
                    bad.append("%s: %s" % (", ".join("%s=%s" % x for x in kw.items()), j))
            except Unfamiliar as e:
                und.append(str(e))
        rep.ob("ExactReals:" + method, False if bad else None if und else True, "; ".join(bad or und) or "%d cases" % n, place + line)

    def rich(kw, what, v):
        if what == "raise":
            return "raises " + name_of(v)
        t = term(v)
        if not (isinstance(t, tuple) and t[0] == "rich"):
            if isinstance(v, PLAIN):
                return "the answer is %r for every relation" % (v,)
            raise Unfamiliar(show(t))
        if t[1] != ("theop",):
            return "the relation asked for is not the one that is answered"
        if not isinstance(t[2], int):
            raise Unfamiliar(show(t))
        return True if (t[2] > 0) - (t[2] < 0) == kw["order"] else "compares as %s" % t[2]
    cases("_richcmp_", ["rhs", Sym(("theop",))], [dict(order=o) for o in (-1, 0, 1)], rich)

    def divides(kw, what, v):
        want = kw["osign"] == 0 if kw["sign"] == 0 else kw["divides"]
        if what == "raise":
            return "raises " + name_of(v)
        if not isinstance(v, bool):
            raise Unfamiliar(show(term(v)))
        return True if v == want else "%s, expected %s" % (v, want)

    class Quotient(Sage):
        def binop(self, ev, op, a, b):
            if op == "truediv" and (self.who(term(a)), self.who(term(b))) != ("rhs", "self"):
                raise Wrong("divides %s by %s" % (show(term(a)), show(term(b))))
            return Sage.binop(self, ev, op, a, b)

    class Wrong(Exception):
        pass
    worlds = [dict(sign=s, osign=o, divides=d) for s, o, d in itertools.product((0, 1), (0, 1), (True, False)) if not (s == 1 and o == 0 and not d)]
    bad, und = [], []
    for kw in worlds:
        try:
            (what, v), f = run("divides", Quotient(**kw), ["rhs"])
            j = divides(kw, what, v)
            if j is not True:
                bad.append("%s: %s" % (kw, j))
        except Wrong as e:
            bad.append(str(e))
        except Unfamiliar as e:
            und.append(str(e))
    rep.ob("ExactReals:divides", False if bad else None if und else True, "; ".join(bad or und) or "%d cases" % len(worlds), place)
    for m, kind, args in (("_integer_", "integer", [Sym(("path", "sage.ZZ"))]), ("_rational_", "rational", [])):
        def good(kw, what, v, kind=kind):
            if kw["kind"] == "empty":
                return True if what == "raise" and derives(v, "TypeError") else "%s for a number that is no %s" % (name_of(v) if what == "raise" else show(term(v)), kind)
            if what == "raise":
                return "raises " + name_of(v)
            t = term(v)
            while isinstance(t, tuple) and t[0] in ("in", "value"):
                t = t[-1]
            if isinstance(t, tuple) and t[0] == "optional":
                return True if t[1] == kind and t[2] == ("attr", ("obj", "self"), "_backend") else "answers with %s" % show(term(v))
            if isinstance(t, int):
                return "answers with %s" % show(term(v))
            raise Unfamiliar(show(term(v)))
        cases(m, args, [dict(kind=k) for k in ("full", "empty")], good)


# ---- the C++ stubs -----------------------------------------------------------
TYPES_CXX = """
} struct A { long v; A(const A&); ~A(); }; struct B { long v; B(const B&); ~B(); };
struct D { long v; long truediv(const B&) const; }; struct E { long v; long truediv(const B&) const; long w; };
long operator+(const A&, const B&); long operator-(const A&, const B&); long operator*(const A&, const B&); long operator/(const A&, const B&);
long operator+(const B&, const A&); long operator-(const B&, const A&); long operator*(const B&, const A&); long operator/(const B&, const A&);
long operator+(const A&, const A&); long operator-(const A&, const A&); long operator*(const A&, const A&); long operator/(const A&, const A&);
long operator-(const A&); long operator+(const A&); long operator~(const A&); long operator!(const A&);
long operator/(const E&, const B&);
namespace verif_driver {
"""


def declared(A, name, dem, i, args, mem):
    """the operators of the recorder types: declared, not defined"""
    d = dem or ""
    if re.match(r"(operator[-+*/~!]|[ABDE]::truediv)", d):
        A.event(i, "op " + d, args)
        return T("opresult", d, *args)
    return NotImplemented


def stubs(facts, rep):
    drivers = []
    code = TYPES_CXX
    for op, sym in zip(OPS, "+-*/"):
        for l, r in (("A", "B"), ("B", "A"), ("A", "A")):
            n = "%s_%s%s" % (op, l, r)
            code += "long %s(const %s *l, const %s *r) { return exactreal::cppyy::%s(*l, *r); }\n" % (n, l, r, op)
            drivers.append((n, "operator%s(%s const&, %s const&)" % (sym, l, r), 2))
    code += "long neg_A(const A *l) { return exactreal::cppyy::neg(*l); }\n"
    drivers.append(("neg_A", "operator-(A const&)", 1))
    for t in ("D", "E"):
        code += "long truediv_%s(const %s *l, const B *r) { return exactreal::cppyy::truediv(*l, *r); }\n" % (t, t)
        drivers.append(("truediv_" + t, "%s::truediv(B const&) const" % t, 2))
    place = "libexactreal/exact-real/cppyy.hpp"
    head = '#include "exact-real/cppyy.hpp"\n#include <utility>\n'
    try:
        facts.compile([("drivers", head + "namespace verif_driver {" + code + "}")], ["-DNDEBUG"])
    except Broken as e:
        ok, err = facts.syntax("bare", head)
        if not ok:
            raise
        body = code[len(TYPES_CXX):].splitlines()
        good = []
        for line, (n, callee, k) in zip(body, list(drivers)):
            ok, err = facts.syntax("one", head + "namespace verif_driver {" + TYPES_CXX + line + "}", cxx="clang++")
            if ok:
                good.append(line)
            else:
                drivers.remove((n, callee, k))
                rep.ob("stub:" + n, False, "cannot be instantiated for operands with a %s: %s" % (callee, next((x for x in err.splitlines() if "error" in x), "")[-200:]), place)
        code = TYPES_CXX + "\n".join(good) + "\n"
    lab = Lab(facts, rep, [], r"^verif_driver::", code=code, includes=["exact-real/cppyy.hpp"], extra=["-DNDEBUG"], on_call=declared)
    place = "libexactreal/exact-real/cppyy.hpp"
    for n, callee, k in drivers:
        key = "stub:" + n
        A, s = lab.run(lab.driver(n))
        calls = [e for e in s.events if e["name"].startswith("op ")]
        want = [T("ptr", T("arg", i), 0) for i in range(k)]
        if s.undecided or len(calls) != len(s.events):
            rep.ob(key, None, "%s, calls %s" % (s.undecided[:2], [e["name"] for e in s.events][:5]), place)
        elif len(calls) != 1:
            rep.ob(key, False if not calls or all(e["name"][3:] != callee for e in calls) else None, "calls %s rather than %s" % ([e["name"] for e in calls], callee), place)
        elif calls[0]["name"][3:] != callee or list(calls[0]["args"][:k]) != want:
            rep.ob(key, False, "calls %s on %s" % (calls[0]["name"], list(calls[0]["args"])), where(calls[0]["ins"]))
        else:
            ok = s.ret is not None and s.ret.op == "opresult"
            rep.ob(key, True if ok else False if s.ret is not None and s.ret.op == "int" else None, "returns %s on the operands in this order: %r" % (callee, s.ret), place)
    rep.counts["stub instantiations"] = len(drivers)


def run(facts, rep):
    rep.rules = ["Every arithmetic operator and every relation of every wrapped type, with the wrapped object on the left, on the right or on both sides, ends in the C++ stub of that operation, instantiated for the types of the operands, on the operands in the order written (or swapped for sums, products, equality), whatever the stub answers: a value is returned, a full optional is unwrapped, an empty one raises the documented error, a missing instantiation raises or falls back",
                 "The operator methods of the SageMath elements denote the operation of their name on self and the other operand",
                 "The stubs in cppyy.hpp call the operator of their name on their parameters in order"]
    rep.trusted = ["the evaluation of Python syntax in /verif/lib/pyeval.py", "cppyy runs the pythonizations of a namespace in the order of their registration", "clang 18 front end"]
    rep.explanation = "abstract evaluation of the syntax trees of the two Python modules on symbolic operands; dataflow summaries of the C++ stubs"
    parallel(facts, rep, [lambda: stubs(facts, rep), lambda: wrappers(rep), lambda: elements(rep)])
    rep.floor("stub instantiations", rep.counts.get("stub instantiations", 0), 10)
    rep.floor("proxy types", rep.counts.get("proxy types", 0), 7)
