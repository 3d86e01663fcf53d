"""Arb comparisons: true only if every pair of points satisfies the relation,
false only if none does, no answer otherwise, and an answer whenever the
ranges settle it."""
from spec import *
from interp import lo, hi, ball

NAMES = {"<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq", "!=": "ne"}
INTS = ["short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long"]


def decide(op, a, b):
    """0, 1 or 2 (no answer) for balls a, b"""
    la, ha, lb, hb = lo(a), hi(a), lo(b), hi(b)
    if op == "<":
        return 1 if ha < lb else 0 if la >= hb else 2
    if op == "<=":
        return 1 if ha <= lb else 0 if la > hb else 2
    if op in (">", ">="):
        return decide({">": "<", ">=": "<="}[op], b, a)
    same = ball(a).rad == 0 and ball(b).rad == 0 and ball(a).mid == ball(b).mid
    apart = ha < lb or hb < la
    if op == "==":
        return 1 if same else 0 if apart else 2
    return 0 if same else 1 if apart else 2


def drivers():
    B, F, INF = interp.Ball, interp.Fraction, interp.INF
    base = [F(0), F(1), F(-1), F(2), F(3, 2), B(F(0), F(1)), B(F(1), F(1)), B(F(2), F(1)), B(F(3, 2), F(1, 2)), B(F(-2), F(1, 4)), B(F(-1), F(1)),
            B(F(0), INF), B(F(1), F(4)), INF, -INF, B(F(1 << 70), F(1)), F(1 << 70), F(1, 3) + F(2, 3), B(F(0), F(1, 1 << 80))]
    out = []
    for op in NAMES:
        n = NAMES[op]
        R = "unsigned char *r"
        call = "*r = tri(%s);"
        out.append(Driver("arb_%s_arb" % n, "const Arb &a, const Arb &b, " + R, call % ("a %s b" % op), oracle={"r": lambda a, b, op=op: decide(op, a, b)}, domains={"a": base, "b": base}))
        out.append(Driver("arb_%s_self" % n, "const Arb &a, " + R, call % ("a %s a" % op), oracle={"r": lambda a, op=op: decide(op, a, a)}, domains={"a": base}))
        for ty in INTS:
            bits = {"short": 16, "unsigned short": 16, "int": 32, "unsigned": 32}.get(ty, 64)
            uns = ty.startswith("unsigned")
            mx, mn = ((1 << bits) - 1, 0) if uns else ((1 << bits - 1) - 1, -(1 << bits - 1))
            ints = [0, 1, 2, mx, mn] + ([(1 << bits - 1), (1 << bits - 1) + 5] if uns else [-1]) + ([(1 << 53) + 1, (1 << 32) + 2, 1 << 32] if bits == 64 else []) + ([65536 + 1, 65536] if bits == 32 else [])
            arbs = base + [F(mx), F(mn), B(F(mx), F(1)), F(-mx), F(mn - 1), F(mx + 1), B(F(1 << bits), F(1))]
            out.append(Driver("arb_%s_%s" % (n, ty.replace(" ", "_")), "const Arb &a, %s n, %s" % (ty, R), call % ("a %s n" % op),
                              oracle={"r": lambda a, n, op=op: decide(op, a, F(n))}, domains={"a": arbs, "n": ints}))
        rats = [F(0), F(1), F(-1), F(1, 2), F(-7, 4), F(5, 2), F(3, 2), F(1, 3), F(-5, 3), F((1 << 70) + 1, 3), F(2), F(-1, 1 << 80), F(1 << 70)]
        arbs = base + [F(1, 2), B(F(1), F(1, 2)), F(5, 2), B(F(5, 2), F(1, 8))]
        arbs = [x for x in arbs]
        out.append(Driver("arb_%s_mpq" % n, "const Arb &a, const mpq_class &q, " + R, call % ("a %s q" % op), oracle={"r": lambda a, q, op=op: decide(op, a, q)}, domains={"a": arbs, "q": rats}))
    return out


def run(facts, rep):
    rep.explanation = "each comparison operator of Arb, for every right operand type, summarised and compared with the three-valued relation on ranges"
    rep.rules = ["answer true => relation holds on all pairs; answer false => on none; ranges decide => answered"]
    b = Bench(facts, rep, ["arf", "arb"], ["exact-real/arb.hpp", "exact-real/yap/arb.hpp"], drivers())
    b.run()
    rep.floor("drivers", rep.counts.get("drivers", 0), 66)
