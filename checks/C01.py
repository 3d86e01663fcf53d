"""Arf values: every constructor, assignment, conversion and method."""
from spec import *
from catalog import neg, m2e, absv, floor_, ceil_, add
from interp import Unknown, finite, Fraction, INF, to_double, m2


def drivers():
    D = Driver
    P = "Arf *r"
    out = []

    def ctor(name, ps, expr, want):
        out.append(D("ctor_" + name, ps + (", " if ps else "") + P, "new (r) Arf(%s);" % expr, out={"r": want}, new=["r"]))

    def assign(name, ps, expr, want):
        out.append(D("assign_" + name, ps + ", Arf &a", "a = %s;" % expr, out={"a": want}))

    ctor("default", "", "", lambda v: Int(0))
    ctor("copy", "const Arf &a", "a", lambda v: v.a)
    ctor("int", "int n", "n", lambda v: v.n)
    ctor("long", "long n", "n", lambda v: v.n)
    ctor("double", "double x", "x", lambda v: v.x)
    ctor("mantissa", "const mpz_class &m, long e", "m, e", lambda v: m2e(v.m, v.e))
    ctor("string", "const std::string &s, int base, long e", "s, base, e", lambda v: m2e(T("parse", v.s, v.base), v.e))
    out.append(D("ctor_move", "Arf &a, Arf *r", "new (r) Arf(std::move(a));", out={"r": lambda v: v.a}, new=["r"], moved=["a"]))
    assign("copy", "const Arf &b", "b", lambda v: v.b)
    assign("int", "int n", "n", lambda v: v.n)
    assign("long", "long n", "n", lambda v: v.n)
    assign("double", "double x", "x", lambda v: v.x)
    out.append(D("assign_move", "Arf &b, Arf &a", "a = std::move(b);", out={"a": lambda v: v.b}, moved=["b"]))
    out.append(D("assign_self", "Arf &a", "a = *&a;", out={"a": lambda v: v.a}))
    out.append(D("destroy", "Arf &a", "a.~Arf();", dead=["a"]))
    ctor("negate", "const Arf &a", "-a", lambda v: neg(v.a))
    ctor("abs", "const Arf &a", "a.abs()", lambda v: absv(v.a))
    out.append(D("self_negate", "Arf &a", "a = -a;", out={"a": lambda v: neg(v.a)}))
    for op, s in (("<<", 1), (">>", -1)):
        sh = lambda v, s=s: m2e(v.a, vf.scale(v.e, s))
        n = "shl" if s == 1 else "shr"
        out.append(D(n + "_assign", "Arf &a, long e, Arf **r", "*r = &(a %s= e);" % op, out={"a": sh}, writes=["r"], domains={"e": DOM["long"] + [5, -300, (1 << 32) + 1]}))
        out.append(D(n, "const Arf &a, long e, Arf *r", "new (r) Arf(a %s e);" % op, out={"r": sh}, new=["r"], domains={"e": DOM["long"] + [5, -300, (1 << 32) + 1]}))
    fin = [x for x in DOM["arf"] if abs(x) != INF]
    for n, f in (("floor", floor_), ("ceil", ceil_)):
        out.append(D(n, "const Arf &a, mpz_class *r", "new (r) mpz_class(a.%s());" % n, out={"r": lambda v, f=f: f(v.a)}, new=["r"], domains={"a": fin}))
    out.append(D("mantissa", "const Arf &a, mpz_class *r", "new (r) mpz_class(a.mantissa());", out={"r": lambda v: T("arf_get_fmpz_2exp", 0, v.a)}, new=["r"]))
    out.append(D("exponent", "const Arf &a, mpz_class *r", "new (r) mpz_class(a.exponent());", out={"r": lambda v: T("arf_get_fmpz_2exp", 1, v.a)}, new=["r"]))
    out.append(D("logb", "const Arf &a, long *r", "*r = a.logb();", out={"r": lambda v: add(T("arf_frexp", 1, v.a), Int(-1))}))
    out.append(D("to_double", "const Arf &a, double *r", "*r = static_cast<double>(a);", out={"r": lambda v: T("get_d", v.a, Int(4))}))
    out.append(D("swap", "Arf &a, Arf &b", "swap(a, b);", out={"a": lambda v: v.b, "b": lambda v: v.a}))
    out.append(D("std_swap", "Arf &a, Arf &b", "std::swap(a, b);", out={"a": lambda v: v.b, "b": lambda v: v.a}))
    return out


def run(facts, rep):
    ds = drivers()
    b = Bench(facts, rep, ["arf"], ["exact-real/arf.hpp"], ds)
    b.run()
    rep.floor("drivers", rep.counts.get("drivers", 0), 25)
