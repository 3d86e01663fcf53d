"""Random numbers lie in the interval that was asked for."""
import math
import re
import sys
from fractions import Fraction as F

import common
import interp
import vf
from vf import And, Not, T
from world import Lab, factory, relevant
import C12
import C14
import C15
import C17

ND = ["-DNDEBUG"]
CODE = """
using P = std::shared_ptr<const exactreal::RealNumber>;
P range_seed(const exactreal::Arf& a, const exactreal::Arf& b, unsigned int n) { return exactreal::RealNumber::random(a, b, exactreal::Seed(n)); }
P range_fresh(const exactreal::Arf& a, const exactreal::Arf& b) { return exactreal::RealNumber::random(a, b); }
P near_seed(double x, unsigned int n) { return exactreal::RealNumber::random(x, exactreal::Seed(n)); }
P near_fresh(double x) { return exactreal::RealNumber::random(x); }
"""
OWN = r"^exactreal::RealNumber::random\(exactreal::Seed\)"
PROBLEMS = (interp.Unknown, TypeError, ValueError, OverflowError, AttributeError, KeyError, ZeroDivisionError)
two = C12.two


class Model(C17.Doubles):
    """draw: which of the results of drawing an integer below n"""
    draw = 0
    empty = False

    def op___gmpz_urandomm(self, *a):
        n = abs(int(self(a[-1])))
        if n == 0:
            self.empty = True
            raise interp.Unknown("a number below 0 is drawn")
        return (0, n - 1, n // 2, n // 3)[self.draw]

    def op___gmpz_urandomb(self, *a):
        n = 1 << int(self(a[-1]))
        return (0, n - 1, n // 2, n // 3)[self.draw]

    def op_found(self, *a):
        return True


def pick(m, t):
    while t.op == "ite":
        t = t.args[1] if bool(m(t.args[0])) else t.args[2]
    return t


def approximation(facts, rep):
    """the value of a number in an interval from what it stores, or None"""
    r = C12.summary(facts, rep, ["constrained_random_real_number", "arf", "arb"], r"ConstrainedRandomRealNumber::arf_\(", "value")
    if not r:
        return None
    _, _, A, s, _ = r
    ret = A.read(s.mem, "arf", T("ptr", T("arg", 0), 0))
    this = T("arg", 1)
    within = {y for d in vf.walk(ret) if d.op == "digits" for y in vf.walk(d.args[0])}
    cells = [x for x in vf.walk(ret) if x.op == "in" and x.args[1] is this and x not in within]
    if s.undecided or any(x.op in ("loop", "mixed") for x in vf.walk(ret)):
        rep.ob("value", None, "how a number in an interval is approximated: %s" % (s.undecided or "a loop"))
        return None

    def value(stored, inner, p):
        """the approximation to p digits given cells (kind, offset) -> number and the number they refine"""
        env = {x: stored[x.args[0], x.args[2]] for x in cells}
        env[T("arg", 2)] = p
        return F(Model(env, lambda _, q: C12.truncated(inner, q))(ret))
    return value, {(x.args[0], x.args[2]) for x in cells}


INNER = [F(1, 1 << 300), F(1, 2), F((1 << 420) - 1, 1 << 420), F(1, 3), F(2, 3)]
PREC = 400


def judge(rep, key, lab, cases, value, cells, within):
    """cases: (environment, text, interval or double)"""
    A, s = lab.run(lab.driver(key), on_call=factory)
    reg = [e for e in s.events if e["name"] == "register"]
    place = common.where(reg[0]["ins"]) if reg else ""
    rand = [e for e in s.events if re.search(OWN, e["name"])]
    slot = A.read(s.mem, "raw8", T("ptr", T("arg", 0), 0))
    if s.undecided or len(reg) != 1 or not rand:
        rep.ob(key, None, "%s, %d objects" % ("; ".join(map(str, s.undecided))[:150], len(reg)), place)
        return
    _, obj, mem = reg[0]["extra"]
    snap = C15.snapshot(A, mem, obj)
    if not cells <= set(snap):
        rep.ob(key, None, "what the number stores: %s" % sorted(cells - set(snap)), place)
        return
    n, bad, und = 0, None, None
    for env, text, want in cases:
        for draw in range(4):
            m = Model(env)
            m.draw = draw
            try:
                if not bool(m(s.retpc)):
                    bad = bad or "no number for %s" % text
                    continue
                r = pick(m, slot)
                if any(y.op == "call" and re.search(r"RealNumber::random", str(y.args[0])) for y in vf.walk(r)):
                    got = [F(0), F(1)]
                elif any(y.op in ("pooled", "heap") for y in vf.walk(r)):
                    stored = {c: m(snap[c]) for c in cells}
                    got = [value(stored, x, PREC) for x in INNER]
                else:
                    und = und or "for %s, %r is returned" % (text, r)
                    continue
            except PROBLEMS as e:
                if m.empty:
                    bad = bad or "nothing can be drawn for %s" % text
                und = und or "%s: %s %s" % (text, type(e).__name__, e)
                continue
            n += 1
            for g in got:
                why = within(g, want)
                if why:
                    bad = bad or "for %s the number may be %s, %s" % (text, show(g), why)
    rep.count("cases", n)
    rep.ob(key, False if bad else None if und or not n else True, bad or und or "in all %d cases" % n, place)


def show(x):
    try:
        return "%.17g" % float(x)
    except OverflowError:
        return "huge"


def inside(x, want):
    lo, hi = want
    eps = two(-PREC + 2) * max(abs(x), 0)
    return None if lo - eps <= x <= hi + eps else "which is not in it"


def rounds(x, want):
    try:
        near = float(x)
    except OverflowError:
        near = math.inf if x > 0 else -math.inf
    # one must not be off by the last of 400 digits either
    return None if near == want else "whose nearest double is %r" % near


def interval_cases():
    ends = [F(0), F(1), F(-1), F(1, 2), F(-3, 4), F(3), F(-7), F(5, 8), F(1, 1 << 80), F(-1, 1 << 80), F(1 << 90), F(-(1 << 90)), F((1 << 70) + 1), F((1 << 70) + 1) / (1 << 70), F(-(1 << 64) - 1, 1 << 3), F(6), F(1, 1 << 1100), F(1 << 1100)]
    return [({T("in", "arf", T("arg", 1), 0): a, T("in", "arf", T("arg", 2), 0): b}, "the interval [%s, %s]" % (show(a), show(b)), (a, b)) for a in ends for b in ends if a < b]


def double_cases():
    m = sys.float_info.max
    xs = [0.0, 1.0, 0.1, 1 / 3, 2.0, 3.0, 1e10, 2.0 ** 52, 2.0 ** 53, 2.0 ** 53 - 1, 1e22, 1e300, 5e-324, 1.5e-323, 2.0 ** -1022, 2.0 ** -1022 - 5e-324, 2.0 ** -1021, 1 - 2.0 ** -53, 1 + 2.0 ** -52, m, math.nextafter(m, 0), 2.0 ** 1023, math.nextafter(2.0 ** 1023, 0), 123456789.123]
    return [({T("arg", 1): C17.F2(x)}, "the double %r" % x, x) for y in xs for x in (y, -y)]


def unit(facts, rep):
    """the digits of a number in [0, 1] come after the point"""
    lab = Lab(facts, rep, ["random_real_number", "real_number_base", "seed"], r"::RandomRealNumber::arf_\(", "", ["exact-real/real_number.hpp"])
    f = lab.find(r"::RandomRealNumber::arf_\(")
    if len(f) != 1:
        rep.ob("unit", None, "%d generators of digits" % len(f))
        return
    A, s = lab.run(f[0])
    place = common.where(f[0]["blocks"][0]["ins"][-1])
    ctor = [e for e in s.events if e["name"].startswith("exactreal::Arf::Arf(std::") and len(e["args"]) == 4]
    app = [e for e in s.events if re.search(r"operator<<|::(push_back|append|operator\+=|put)\(", e["name"])]
    if len(s.loops) != 1 or s.undecided or not s.backs or len(ctor) != 1 or len(app) != 1 or not vf.isint(ctor[0]["args"][2]):
        rep.ob("unit", None, "%d loops, %d conversions, %d places that append" % (len(s.loops), len(ctor), len(app)), place)
        return
    base = ctor[0]["args"][2].args[0]
    bits = max(1, (base - 1).bit_length())
    L = C14.Loop(s)
    E = L.term(ctor[0]["args"][3])
    place = common.where(ctor[0]["ins"])
    appended = And(L.term(app[0]["pc"]), L.cont)
    skipped = And(L.cont, Not(L.term(app[0]["pc"])))
    loops = {x for x in vf.walk(E) if x in L.vars}
    if len(loops) != 1 or any(x.op in ("arg", "in") for x in vf.walk(E)) or any(not vf.isint(L.vars[v][0]) for v in loops):
        rep.ob("unit", None, "the exponent is %r" % E, place)
        return
    V = loops.pop()
    init, nxt = L.vars[V]

    def at(v, term=E):
        return int(interp.Model({V: v})(term))
    try:
        start = at(init.args[0])
        worst = {}
        for what, pc in (("digit", appended), ("skipped", skipped)):
            for _, l in relevant(nxt, pc):
                for k in (0, 1, 2, 7, 100, 10 ** 6):
                    v = init.args[0] + k * (1 if at(init.args[0] + 1) <= at(init.args[0]) else -1)
                    d = at(at(v, l)) - at(v)
                    worst[what] = max(worst.get(what, d), d)
    except PROBLEMS as e:
        rep.ob("unit", None, "%s %s" % (type(e).__name__, e), place)
        return
    bad = None
    if start > 0:
        bad = "the exponent starts at %d" % start
    elif worst.get("digit", 0) > -bits:
        bad = "a digit in base %d lowers the exponent by %d only, so the number may exceed 1" % (base, -worst.get("digit", 0))
    elif worst.get("skipped", 0) > 0:
        bad = "a step that appends no digit raises the exponent by %d" % worst["skipped"]
    rep.ob("unit", not bad, bad or "n digits in base %d are followed by an exponent of at most %d n" % (base, -bits), place)


def run(facts, rep):
    rep.explanation = "the summaries of the constructors of random numbers in an interval, put into the summary of their approximations, evaluated for intervals, draws and digits at their extremes"
    rep.rules = ["for all lower < upper, draws and digits the number is in [lower, upper]", "for all doubles x, draws and digits, x is the double nearest to random(x)", "the digits of random() add up to at most one"]
    unit(facts, rep)
    lab = Lab(facts, rep, ["constrained_random_real_number", "real_number_base", "seed", "arf"], r"^verif_driver::", CODE, C15.HEADERS, opaque=common.OPAQUE + "|" + OWN, extra=ND)
    r = approximation(facts, rep)
    if not r:
        return
    value, cells = r
    jobs = [(k, interval_cases(), inside) for k in ("range_seed", "range_fresh")] + [(k, double_cases(), rounds) for k in ("near_seed", "near_fresh")]
    common.parallel(facts, rep, [lambda j=j: judge(rep, j[0], lab, j[1], value, cells, j[2]) for j in jobs])
    rep.floor("cases", rep.counts.get("cases", 0), 800)
