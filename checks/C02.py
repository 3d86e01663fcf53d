"""Arf ordering: the twelve relational operators describe one total order on
numbers, with integers compared as the numbers they are."""
from spec import *

OPS = {"<": lambda x, y: x < y, "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y, "==": lambda x, y: x == y, "!=": lambda x, y: x != y}
NAMES = {"<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq", "!=": "ne"}


def drivers():
    out = []
    arf = [interp.Fraction(n) for n in (0, 1, -1, 2)] + [interp.Fraction(1, 2), interp.Fraction(-3, 2), interp.Fraction((1 << 63)), interp.Fraction((1 << 63) - 1), -interp.Fraction(1 << 63), -interp.Fraction((1 << 64) + 1), interp.Fraction((1 << 53) + 1), interp.Fraction((1 << 54) + 1, 2), interp.INF, -interp.INF]
    for op, f in OPS.items():
        out.append(Driver("arf_%s_arf" % NAMES[op], "const Arf &a, const Arf &b, unsigned char *r", "*r = (a %s b) ? 1 : 0;" % op,
                          oracle={"r": lambda a, b, f=f: int(f(a, b))}, domains={"a": arf, "b": arf}))
        out.append(Driver("arf_%s_self" % NAMES[op], "const Arf &a, unsigned char *r", "*r = (a %s a) ? 1 : 0;" % op,
                          oracle={"r": lambda a, f=f: int(f(a, a))}, domains={"a": arf}))
        for ty in ("long", "int"):
            dom = {"a": arf, "n": [0, 1, -1, 2, (1 << 31) - 1, -(1 << 31)] + ([(1 << 63) - 1, -(1 << 63), (1 << 53) + 1, (1 << 53)] if ty == "long" else [])}
            out.append(Driver("arf_%s_%s" % (NAMES[op], ty), "const Arf &a, %s n, unsigned char *r" % ty, "*r = (a %s n) ? 1 : 0;" % op,
                              oracle={"r": lambda a, n, f=f: int(f(a, n))}, domains=dom))
            out.append(Driver("%s_%s_arf" % (ty, NAMES[op]), "const Arf &a, %s n, unsigned char *r" % ty, "*r = (n %s a) ? 1 : 0;" % op,
                              oracle={"r": lambda a, n, f=f: int(f(n, a))}, domains=dom))
    return out


def run(facts, rep):
    rep.explanation = "relational operators of Arf"
    b = Bench(facts, rep, ["arf"], ["exact-real/arf.hpp"], drivers())
    b.run()
    rep.floor("drivers", rep.counts.get("drivers", 0), 36)
