"""Approximations are as accurate as requested and balls contain their number."""
import math
import os
import sys
from fractions import Fraction as F

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from world import *
import interp
from interp import Unknown, Ball, INF, EXACT
import C14

HEADERS = ["exact-real/arf.hpp"]
ND = ["-DNDEBUG"]
PRECS = [0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 53, 54, 63, 64, 65, 100, 127, 128, 129, 257]


def two(e):
    return F(2) ** e


def expo(x):
    """x = m 2^e with 1/2 <= |m| < 1"""
    if x == 0:
        return 0
    x = abs(F(x))
    e = x.numerator.bit_length() - x.denominator.bit_length()
    while x >= two(e):
        e += 1
    while x < two(e - 1):
        e -= 1
    return e


def rounded(x, p, mode):
    """x rounded to p significant bits"""
    if x in (INF, -INF) or x == 0 or p == EXACT:
        return x
    if p < 2 and p != 1 or p > 100000:
        raise Unknown("precision %s" % p)
    u = two(expo(x) - p)
    return interp.rnd_int(F(x) / u, mode) * u


def mag_exp(r):
    """exponent of the magnitude that holds a radius: r < 2^e, rounded up"""
    e = expo(r)
    return e + 1 if F(r) == two(e) else e


class Real(interp.Model):
    """the operations with their documented roundings"""

    def __init__(self, env, digits=None):
        super().__init__(env)
        self.digits = digits

    def op_digits(self, x, q):
        if self.digits is None:
            raise Unknown("digits")
        return self.digits(x, max(0, int(self(q))))

    def arith(self, name, f, a, comm):
        x, y, rest = self(a[0]), self(a[1]), [self(z) for z in a[2:]]
        if not name.startswith("arf"):
            raise Unknown(name)
        interp.num(x), interp.num(y)
        v = interp.finite(F(x)) / F(y) if name == "arf_div" else f(x, y)
        if len(rest) == 2:
            return rounded(v, *rest)
        if not rest:
            return v
        raise Unknown(name)

    def op_arf_set_round(self, x, p, m):
        return rounded(self(x), self(p), self(m))

    def op_arf_set_round_fmpz_2exp(self, x, e, p, m):
        return rounded(interp.m2(self(x), int(self(e))), self(p), self(m))

    def op_arf_get_fmpz_2exp(self, i, x):
        v = F(interp.finite(interp.num(self(x))))
        if v == 0:
            return 0
        k = (v.numerator & -v.numerator).bit_length() - 1 if v.numerator % 2 == 0 else -(v.denominator.bit_length() - 1)
        return int(v / two(k)) if i == 0 else k

    def op_exp(self, x):
        return expo(interp.finite(interp.num(self(x))))

    def op___gmpz_sizeinbase(self, x, b):
        if self(b) != 2:
            raise Unknown("base")
        return max(1, abs(int(self(x))).bit_length())

    def op_mag_set_ui_2exp_si(self, x, e):
        return interp.m2(self(x), int(self(e)))

    def op_arb_add_error_2exp_si(self, x, e):
        b, e = interp.ball(self(x)), int(self(e))
        return Ball(b.mid, b.rad if b.rad == INF else F(b.rad) + two(e))

    def op_arb_add_error_arf(self, x, e):
        b = interp.ball(self(x))
        return Ball(b.mid, b.rad + abs(self(e)))

    def op_arb_rel_accuracy_bits(self, x):
        b = interp.ball(self(x))
        if b.rad == 0:
            return EXACT
        if b.rad == INF or b.mid == 0:
            return -EXACT
        return expo(b.mid) - mag_exp(b.rad) - 1

    def op_log2(self, x):
        return F(math.log2(self(x)))

    def op_fadd(self, x, y):
        return F(float(self(x)) + float(self(y)))

    def op_fsub(self, x, y):
        return F(float(self(x)) - float(self(y)))

    def op_fmul(self, x, y):
        return F(float(self(x)) * float(self(y)))


def summary(facts, rep, units, root, key):
    lab = Lab(facts, rep, units, root, "", HEADERS, extra=ND)
    f = lab.find(root)[0]
    A, s = lab.run(f, on_call=chain(maps("arf", None), virtual_arf()))
    place = common.where(f["blocks"][0]["ins"][-1])
    if s.undecided or s.mem is None:
        rep.ob(key, None, "; ".join(map(str, s.undecided)) or "never returns", place)
        return None
    return lab, f, A, s, place


def pure(rep, key, lab, s, place):
    """an approximation depends on nothing but the number and the precision, and changes neither"""
    bad = []
    for (k, root, off), v in s.mem.cells.items():
        if k.startswith("life") or root.op == "alloca" or root is T("arg", 0) or v.op in ("undef", "gone") or v is T("in", k, root, off):
            continue
        if root is T("arg", 1):
            bad.append("changes the number at +%d to %r" % (off, v))
        elif root.op == "global" and not lab.globals.get(root.args[0], {}).get("const") and "guard" not in root.args[0]:
            bad.append("changes %s" % root.args[0])
    for e in s.events:
        for a in e["args"]:
            if not isinstance(a, T):
                continue
            for x in vf.walk(a):
                if x.op == "in" and x.args[1].op == "global":
                    g = lab.globals.get(x.args[1].args[0], {})
                    if g and not g.get("const") and "guard" not in x.args[1].args[0] and not re.search(r"^_ZT|vtable|iostream|_ZSt", x.args[1].args[0]):
                        bad.append("depends on %s" % x.args[1].args[0])
    rep.ob(key, not bad, "; ".join(sorted(set(bad))[:3]) or "depends on the number and the precision only", place)


# -- one rational ----------------------------------------------------------

RATIONALS = [F(1), F(-1), F(1, 3), F(-1, 3), F(2, 3), F(5, 7), F(-22, 7), F(1, 10), F(2 ** 70 + 1, 2 ** 71 + 3), F(3 ** 90, 7 ** 60), F(-(3 ** 90), 5), F(1, 3 ** 90), F(2 ** 200 - 1), F(2 ** 200 + 1), F(2 ** 131 - 1, 2 ** 130), F(2 ** 131 + 1, 2 ** 130), F(0), F(12345)] + [F(2 ** (p + 2) + s, 2 ** (p + 1)) for p in (1, 2, 3, 8, 53, 54, 64, 128) for s in (-1, 1)] + [F(4 * 3 ** 5 + 1, 2 * 3 ** 5), F(2 ** 300 + 2 ** 171 + 1, 3)]


def rational(facts, rep):
    root = r"RationalRealNumber::arf_\("
    r = summary(facts, rep, ["rational_real_number", "arf", "arb"], root, "rational:accuracy")
    if not r:
        return
    lab, f, A, s, place = r
    pure(rep, "rational:pure", lab, s, place)
    ret = A.read(s.mem, "arf", T("ptr", T("arg", 0), 0))
    cells = {x for x in vf.walk(ret) if x.op == "in"}
    mpq = {x for x in cells if x.args[0] == "mpq"}
    mpz = sorted({x for x in cells if x.args[0] == "mpz"}, key=lambda x: x.args[2])
    roots = {x.args[1] for x in cells}
    if roots != {T("arg", 1)} or not (len(mpq) == 1 or len(mpz) == 2):
        rep.ob("rational:accuracy", None, "computed from %s" % cells, place)
        return
    base = T("in", "mpq", T("arg", 1), (list(mpq)[0] if mpq else mpz[0]).args[2])
    verdict(rep, "rational:accuracy", ret, ({base: x, T("arg", 2): p} for x in RATIONALS for p in PRECS), lambda env: env[base], place)


def verdict(rep, key, ret, envs, truth, place, digits=None, prec=T("arg", 2)):
    n, unknown, worst = 0, None, None
    for env in envs:
        x, p = truth(env), env[prec]
        try:
            got = Real(env, digits(env) if digits else None)(ret)
            interp.num(got)
        except (Unknown, ZeroDivisionError, OverflowError, TypeError, ValueError, AttributeError, KeyError) as e:
            unknown = "%s (%s)" % (type(e).__name__, e)
            continue
        n += 1
        if got in (INF, -INF) or abs(F(got) - x) > two(-p) * abs(x):
            err = INF if got in (INF, -INF) else abs(F(got) - x) / abs(x) * two(p) if x else INF
            if worst is None or err > worst[0]:
                worst = (err, p, x)
    if worst:
        e, p, x = worst
        rep.ob(key, False, "for %s the approximation to %d digits is off by %s times the permitted 2^-%d: the answer is %s" % (show(x), p, "%.4g" % float(e), p, common.short(ret) if hasattr(common, "short") else repr(ret)[:300]), place)
    else:
        rep.ob(key, None if unknown or not n else True, unknown or "relative error at most 2^-prec for all %d representative numbers and precisions" % n, place)


def show(x):
    x = F(x)
    return str(x) if x.denominator.bit_length() + x.numerator.bit_length() < 60 else "%.17g" % float(x)


# -- constrained random numbers --------------------------------------------

INITIAL = [0, 1, -1, 2, -2, 3, -3, 4, 5, -5, 7, -7, 8, -8, 9, 127, -127, 128, -128, 129, -129, 2 ** 54 - 1, -(2 ** 54), 2 ** 54, 2 ** 64 + 1, -(2 ** 64) - 1, 2 ** 200 + 1, -(2 ** 200) + 1]
BITS = 420


def inners():
    ones = (1 << BITS) - 1
    one = 1 << (BITS - 1)
    out = [ones, one | 1, int("01" * (BITS // 2), 2), int("10" * (BITS // 2), 2), ones >> 1, ones >> 2, ones >> 7, one >> 5 | 1, one >> 40 | ones >> 60, ones ^ (one >> 1), ones ^ (one >> 3)]
    for k in (2, 3, 4, 5, 8, 9, 10, 54, 55, 56, 65, 66):
        out += [one | (ones >> k), one >> 1 | ones >> (k + 1), one | (one >> k) | 1, one | (one >> k)]
    return [F(v, 1 << BITS) for v in out]


def truncated(x, q):
    """what asking a random number for q digits yields: q + 1 significant bits"""
    u = two(expo(x) - (q + 1))
    return (F(x) / u).__floor__() * u


def constrained(facts, rep):
    root = r"ConstrainedRandomRealNumber::arf_\("
    r = summary(facts, rep, ["constrained_random_real_number", "arf", "arb"], root, "constrained:accuracy")
    if not r:
        return
    lab, f, A, s, place = r
    pure(rep, "constrained:pure", lab, s, place)
    ret = A.read(s.mem, "arf", T("ptr", T("arg", 0), 0))
    this = T("arg", 1)
    cells = {x for x in vf.walk(ret) if x.op == "in"}
    ptrs = {d.args[0] for d in vf.walk(ret) if d.op == "digits"}
    pc = {c for p in ptrs for c in vf.walk(p) if c.op == "in"}
    arf = [c for c in cells if c.args[0] == "arf"]
    e = [c for c in cells - pc if c.args[0].startswith("raw") and c.args[1] is this]
    if len(arf) != 1 or len(e) != 1 or len(ptrs) != 1 or any(c.args[1] is not this for c in arf):
        rep.ob("constrained:accuracy", None, "computed from %s" % cells, place)
        return
    ini, e = arf[0], e[0]
    INNER = T("inner")
    envs = ({ini: F(m) * two(k), e: k, T("arg", 2): p, INNER: x} for m in INITIAL for k in (0, -7) for p in PRECS for x in inners())
    verdict(rep, "constrained:accuracy", ret, envs, lambda v: v[ini] + v[INNER] * two(v[e] - 1), place, digits=lambda v: lambda _, q: truncated(v[INNER], q))


# -- random numbers ---------------------------------------------------------

def random(facts, rep):
    root = r"::RandomRealNumber::arf_\("
    r = summary(facts, rep, ["random_real_number", "real_number_base", "seed"], root, "random:accuracy")
    if not r:
        return
    lab, f, A, s, place = r
    prec = T("arg", 2)
    ctor = [e for e in s.events if e["name"].startswith("exactreal::Arf::Arf(std::") and len(e["args"]) == 4]
    app = [e for e in s.events if re.search(r"operator<<|::(push_back|append|operator\+=|put)\(", e["name"])]
    if len(s.loops) != 1 or not s.backs or len(ctor) != 1 or len(app) != 1:
        rep.ob("random:accuracy", None, "%d loops, %d conversions, %d places that append" % (len(s.loops), len(ctor), len(app)), place)
        return
    L = C14.Loop(s)
    base = ctor[0]["args"][2]
    if not vf.isint(base, 2):
        rep.ob("random:accuracy", None, "base %r" % base, place)
        return
    appended = And(L.term(app[0]["pc"]), L.cont)
    skipped = And(L.cont, Not(L.term(app[0]["pc"])))
    count = []
    for t, (i, n) in L.vars.items():
        if not vf.isint(i):
            continue
        up = [l for _, l in relevant(n, appended)]
        stay = [l for _, l in relevant(n, skipped)]
        if up and all(l.op == "lin" and l.args[1] == ((1, t),) and l.args[0] == 1 or vf.isint(l, i.args[0] + 1) for l in up) and all(l is t or l is i for l in stay):
            count.append((t, i.args[0]))
    ok = bad = None
    for t, i in count:
        for p in PRECS + [-1, -5]:
            k = 0
            while k < max(p, 0) + 40 and C14.satisfiable(L.cont, {t: i + k, prec: p}):
                k += 1
            if k >= max(p, 0) + 40:
                ok = False
                break
            if k < max(p, 0) + 1:
                bad = bad or (p, k)
            ok = True if ok is None else ok
    place = common.where(app[0]["ins"])
    if bad and len(count) >= 1 and ok:
        rep.ob("random:accuracy", False, "when %d digits are asked for, it stops after %d significant digits; the digits not revealed may amount to 2^-%d of the number" % (bad[0], bad[1], bad[1] - 1), place)
    else:
        rep.ob("random:accuracy", True if ok else None, "it stops after prec + 1 significant digits at the earliest", place)


# -- products ----------------------------------------------------------------

class Shape(Exception):
    pass


def strip(t):
    """the roundings around a value: (precisions, inner)"""
    fs = []
    while True:
        if t.op == "arf_set_round":
            fs.append((t.args[1], t.args[2]))
            t = t.args[0]
        elif t.op == "arf_set_round_fmpz_2exp" and t.args[0].op == "arf_get_fmpz_2exp" and t.args[1].op == "arf_get_fmpz_2exp" and t.args[0].args[1] is t.args[1].args[1] and (t.args[0].args[0], t.args[1].args[0]) == (0, 1):
            fs.append((t.args[2], t.args[3]))
            t = t.args[0].args[1]
        else:
            return fs, t


def loopkey(s, t):
    h = t.args[0]
    if t.args[1] == "phi":
        return h, ("phi", t.args[2])
    return h, tuple(t.args[1:4])


def product(facts, rep):
    root = r"RealNumberProduct::arf_\("
    r = summary(facts, rep, ["real_number_product", "arf", "arb"], root, "product:accuracy")
    if not r:
        return
    lab, f, A, s, place = r
    pure(rep, "product:pure", lab, s, place)
    ret = A.read(s.mem, "arf", T("ptr", T("arg", 0), 0))
    prec, this = T("arg", 2), T("arg", 1)
    try:
        finals, acc = strip(ret)
        steps, seen, starts = [], set(), []

        def collect(t):
            fs, t = strip(t)
            if fs:
                raise Shape("rounded inside the loop")
            if t.op == "ite":
                for l in leaves(t):
                    collect(l)
                return
            if t.op == "arf_mul":
                x, y = t.args[0], t.args[1]
                if y.op != "digits":
                    x, y = y, x
                if y.op != "digits":
                    raise Shape("a product of %r and %r" % (x, y))
                steps.append((y, t.args[2], t.args[3]) if len(t.args) == 4 else (y, Int(EXACT), Int(4)))
                collect(x)
                return
            if t.op == "loop":
                if t in seen:
                    return
                seen.add(t)
                h, k = loopkey(s, t)
                v = s.loops[h].get(k)
                if v is None or v[1] is None:
                    raise Shape("the loop value %r" % t)
                collect(v[0])
                collect(v[1])
                return
            starts.append(t)
        collect(acc)
        if any(not vf.isint(t, 1) for t in starts) or not starts:
            if starts and all(vf.isint(t) or t.op in ("in",) for t in starts):
                raise Shape("the product starts from %s" % starts)
            raise Shape("the product starts from %s" % starts)
        if not steps:
            raise Shape("no factors are multiplied")
        qs = {(y.args[1], p, m) for y, p, m in steps}
        if len(qs) != 1:
            raise Shape("several kinds of steps")
        q, p, m = qs.pop()
        free = {x for t in [q, p] + [a for fp in finals for a in fp] for x in unknowns(t, prec)}
        if len(free) > 1:
            raise Shape("the precision depends on %s" % free)
        kind = None
        if free:
            N = free.pop()
            kind = degree(s, N, this)
            if kind is None:
                raise Shape("what %r counts" % N)
        else:
            N, kind = T("nothing"), "sum"
        mult = multiplicity(s, steps, this)
        rep.ob("product:factors", mult[0], mult[1], place)
        bad = und = None
        n = 0
        for S in (1, 2, 3, 5, 8, 40):
            for D in (S, S + 1, S + 2, 2 * S + 1, 3 * S + 4, 7 * S + 9, 100):
                if D < 2 or S > D:
                    continue
                for pr in PRECS[1:]:
                    m_ = Real({N: D if kind == "sum" else S, prec: pr})
                    try:
                        Q, P = max(0, m_(q)), m_(p)
                        fin = [(m_(a), m_(b)) for a, b in finals]
                    except (Unknown, ZeroDivisionError, OverflowError, TypeError, ValueError) as e:
                        und = "%s %s" % (type(e).__name__, e)
                        continue
                    half = lambda P, m: 0 if P == EXACT else two(-P if m == 4 else 1 - P)
                    mode = m_(m)
                    eq = two(-Q)
                    ep = half(P, mode)
                    ef = [half(*x) for x in fin]
                    hi_ = (1 + eq) ** D * (1 + ep) ** (D - 1)
                    lo_ = max(F(0), 1 - eq) ** D * (1 - ep) ** (D - 1)
                    for e in ef:
                        hi_ *= 1 + e
                        lo_ *= 1 - e
                    # the worst case of independent errors, each at its bound
                    n += 1
                    sure = max(hi_ - 1, 1 - lo_) <= two(-pr)
                    # every one of these errors is attained, or nearly so, for some factors
                    lower = D * eq + (D - 1) * ep + sum(ef)
                    if sure:
                        continue
                    if lower > two(-pr):
                        bad = bad or (D, S, pr, Q, P, float(lower * two(pr)))
                    else:
                        und = "the error of %d factors, asked for %d digits, is not decided" % (D, pr)
        if bad:
            rep.ob("product:accuracy", False, "a product of %d factors (%d distinct), asked for %d digits, multiplies factors of %d digits rounding to %d bits: the error can exceed %.3g times the permitted one" % bad, place)
        else:
            rep.ob("product:accuracy", None if und else True, und or "the accumulated relative error is at most 2^-prec in all %d cases of degrees and precisions" % n, place)
    except Shape as e:
        rep.ob("product:accuracy", None, str(e), place)


def unknowns(t, prec):
    """the terms a precision is computed from, other than arithmetic"""
    out = set()
    arith = C14.ARITH | {"log2", "fadd", "fsub", "fmul", "ceil", "floor", "sitofp", "uitofp", "fptosi", "fptrunc", "fpext", "fp"}

    def go(x):
        if x is prec:
            return
        if x.op not in arith:
            out.add(x)
            return
        for a in x.args:
            if isinstance(a, T):
                go(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, tuple):
                        for c in b:
                            if isinstance(c, T):
                                go(c)
    go(t)
    return out


def degree(s, N, this):
    """what a number counts: the sum of the exponents, or the number of distinct factors"""
    while N.op in ("sext", "zext", "trunc"):
        N = N.args[0]
    if N.op == "callret" and "::size" in str(N.args[0]):
        return "size"
    if N.op == "loop":
        h, k = loopkey(s, N)
        v = s.loops[h].get(k)
        if v and v[0] is not None and vf.isint(v[0], 0) and v[1] is not None:
            ls = [l for _, l in relevant(v[1], TRUE)]
            add = [l for l in ls if l is not N]
            if add and all(l.op == "lin" and l.args[0] == 0 and len(l.args[1]) == 2 and (1, N) in l.args[1] for l in add):
                rest = [x for l in add for k_, x in l.args[1] if x is not N and k_ == 1]
                while any(r.op in ("sext", "zext") for r in rest):
                    rest = [r.args[0] if r.op in ("sext", "zext") else r for r in rest]
                if len(rest) == len(add) and all(r.op == "in" and r.args[0] == "raw4" for r in rest):
                    return "sum"
            if add and all(l.op == "lin" and l.args[0] == 1 and l.args[1] == ((1, N),) for l in add):
                return "size"
    # 32 bit sums
    return None


def exponents(a):
    return {x for x in vf.walk(a) if x.op == "in" and x.args[0] == "raw4" and any(z.op == "callret" and "operator[]" in str(z.args[0]) for z in vf.walk(x))}


def multiplicity(s, steps, this):
    """each factor is multiplied as often as its exponent says"""
    for y, _, _ in steps:
        ptr = y.args[0]
        at = [x for x in vf.walk(ptr) if x.op == "callret" and "operator[]" in str(x.args[0])]
        if len(at) != 1:
            return None, "the factor is %r" % ptr
        index = at[0].args[-1]
        vec = at[0].args[1]
        exps = set()
        for h, c in s.backs:
            for a in vf.atoms(c):
                exps |= exponents(a)
        for h, vs in s.loops.items():
            for v in vs.values():
                if v[0] is not None:
                    exps |= exponents(v[0])
        if len(exps) != 1:
            return None, "the exponents are %s" % exps
        E = exps.pop()
        eat = [x for x in vf.walk(E) if x.op == "callret" and "operator[]" in str(x.args[0])][0]
        if eat.args[-1] is not index:
            return False, "the factor %r is repeated as often as the exponent of %r says" % (index, eat.args[-1])
        # the loop whose condition reads the exponent runs exactly E times
        for h, c in s.backs:
            ctrs = {T("loop", h, "phi", k[1], 0) for k, v in s.loops[h].items() if k[0] == "phi" and v[0] is not None}
            started = {x for x in ctrs if mentions(s.loops[h][("phi", x.args[2])][0], E)}
            inner = [a for a in vf.atoms(c) if any(mentions(a, x) for x in started)] if started else [a for a in vf.atoms(c) if mentions(a, E)]
            if not inner:
                continue
            if len(inner) != 1 or inner[0].op not in ("slt", "ult", "eq"):
                continue
            cond = vf.atom(inner[0])
            neg = And(c, cond) is FALSE
            within = set(vf.walk(E))
            ctr = [x for x in vf.walk(inner[0]) if x.op == "loop" and x.args[0] == h and x not in within]
            if not ctr:
                continue
            if len(ctr) != 1:
                return None, "the counter of the inner loop"
            hh, k = loopkey(s, ctr[0])
            init, nxt = s.loops[hh][k][:2]
            for e in (1, 2, 3, 5):
                env = {E: e}
                try:
                    v = Real(env)(init)
                    n = 0
                    while n < 20:
                        m = Real({E: e, ctr[0]: v})
                        go = bool(m(cond)) != neg
                        if not go:
                            break
                        n += 1
                        ls = {Real({E: e, ctr[0]: v})(l) for _, l in relevant(nxt, c)}
                        if len(ls) != 1:
                            raise Unknown("step")
                        v = ls.pop()
                except (Unknown, TypeError) as x:
                    return None, "the inner loop: %s" % x
                if n != e:
                    return False, "a factor with exponent %d is multiplied %s times" % (e, n if n < 20 else "too many")
            return True, "each factor is multiplied once per unit of its own exponent"
        return None, "no loop counts up to the exponent"
    return None, "no steps"


# -- the ball ------------------------------------------------------------------

NUMBERS = [F(1), F(-1), 2 - two(-300), 1 + two(-300), F(3, 2), F(-4, 3), two(90) * F(5, 3), two(-90) * F(5, 3), -(2 - two(-300)), F(7, 8), F(1, 3), F(2) ** 40 - F(1, 3)]


def balls(facts, rep):
    for key, root, ptr in (("refine", r"::RealNumber::refine\(", 1), ("arb", r"::RealNumber::arb\(", 0)):
        r = summary(facts, rep, ["real_number", "arf", "arb"], root, key + ":contains")
        if not r:
            continue
        lab, f, A, s, place = r
        this, prec = T("arg", 0 if key == "refine" else 1), T("arg", 2)
        out = A.read(s.mem, "arb", T("ptr", T("arg", ptr), 0))
        old = T("in", "arb", T("arg", 1), 0) if key == "refine" else None
        wrong = [d for d in vf.walk(out) if d.op == "digits" and d.args[0] is not T("ptr", this, 0)]
        if wrong:
            rep.ob(key + ":contains", None, "the ball is made from %r" % wrong[0], place)
            continue
        n, und, bad, coarse = 0, None, None, None
        for x in NUMBERS:
            for p in PRECS[1:]:
                before = [None]
                if old is not None:
                    before = [Ball(F(0), INF), Ball(x * (1 + two(-p + 3)), 2 * abs(x) * two(-p + 3)), Ball(x, two(expo(x) - p)), Ball(x, two(expo(x) - p - 1)), Ball(x, two(expo(x) - p - 2)), Ball(x, two(expo(x) - p - 5))]
                for b in before:
                    for sign in (-1, 1, 0):
                        env = {prec: p}
                        if old is not None:
                            env[old] = b
                        m = Real(env, lambda _, q: x * (1 + sign * two(-q)))
                        m.op_arb_zero_pm_inf = lambda *a: Ball(F(0), INF)
                        try:
                            got = interp.ball(m(out))
                        except (Unknown, ZeroDivisionError, OverflowError, TypeError, ValueError, AttributeError) as e:
                            und = "%s %s" % (type(e).__name__, e)
                            continue
                        n += 1
                        if got.rad != INF and not (interp.lo(got) <= x <= interp.hi(got)):
                            bad = bad or (p, show(x), show(got.mid), show(got.rad))
                        acc = m.op_acc(got)
                        if acc < p:
                            coarse = coarse or (p, acc, show(x))
        rep.ob(key + ":contains", False if bad else None if und or not n else True, "asked for %d digits, the ball around %s is [%s +/- %s], which does not contain it" % bad if bad else und or "the ball contains the number in all %d cases" % n, place)
        rep.ob(key + ":accuracy", False if coarse else None if und or not n else True, "asked for %d digits, the ball has only %s accurate digits (around %s)" % coarse if coarse else und or "the ball has at least prec accurate digits in all %d cases" % n, place)


def _acc(self, b):
    if b.rad == 0:
        return EXACT
    if b.rad == INF or b.mid == 0:
        return -EXACT
    return expo(b.mid) - mag_exp(b.rad) - 1


Real.op_acc = _acc


def elements(facts, rep):
    """the ball of an element is the sum of the balls of its terms, and has the accuracy asked for"""
    import C18
    import seq
    import unroll
    from C18 import bare, lift, F

    def ballhook(A, name, dem, i, args, mem):
        d = dem or ""
        if re.match(r"^exactreal::RealNumber::arb\(long\)", d):
            out, v = args[0], lift(lambda g, p: T("ballof", bare(g), p), args[1], args[2])
        elif re.match(r"^exactreal::RealNumber::refine\(", d):
            out, v = args[1], lift(lambda g, p: T("ballof", bare(g), p), args[0], args[2])
        else:
            m = re.match(r"^exactreal::(\w+)::arb\(", d)
            if not m or m.group(1) not in C18.KIND:
                return NotImplemented
            out, v = args[0], lift(lambda c, p: T("ballc", c, p), A.read(mem, C18.KIND[m.group(1)], args[1]), args[2])
        A.event(i, "ball", args)
        A.write(mem, "arb", out, v)
        A.catalog.alive(A, mem, "arb", out, "live")
        return None

    class B:
        """a ball around a sum of generators, with so many accurate bits but for what cancels"""

        def __init__(self, value, prec):
            self.value, self.prec = value, prec

    CONST = (F(1), (0, 0))
    EXACT_ = 1 << 60

    class Balls(C18.Free):
        lost = 0

        def prec_(self, p):
            p = int(self(p))
            if p < 2:
                raise Unknown("a ball of precision %d" % p)
            return p

        def ball(self, t):
            v = self(t)
            if isinstance(v, (int, F)):
                return B({CONST: F(v)} if v else {}, EXACT_)
            if not isinstance(v, B):
                raise Unknown("not a ball: %r" % (v,))
            return v

        def op_ballof(self, g, p):
            g = self(g)
            return B({g: F(1)}, EXACT_ if g == CONST else self.prec_(p))

        def op_ballc(self, c, p):
            c = F(self(c))
            return B({CONST: c} if c else {}, EXACT_ if c.denominator == 1 else self.prec_(p))

        def both(self, x, y, p, f):
            x, y = self.ball(x), self.ball(y)
            return B(f(x.value, y.value), min(x.prec, y.prec, self.prec_(p)))

        def op_arb_mul(self, x, y, p):
            return self.both(x, y, p, C18.convolve)

        def op_arb_add(self, x, y, p):
            return self.both(x, y, p, lambda a, b: C18.total((1, a), (1, b)))

        def op_arb_sub(self, x, y, p):
            return self.both(x, y, p, lambda a, b: C18.total((1, a), (-1, b)))

        def op_arb_addmul(self, z, x, y, p):
            z, x, y = self.ball(z), self.ball(x), self.ball(y)
            return B(C18.total((1, z.value), (1, C18.convolve(x.value, y.value))), min(z.prec, x.prec, y.prec, self.prec_(p)))

        def op_arb_neg(self, x):
            x = self.ball(x)
            return B(C18.total((-1, x.value)), x.prec)

        def op_arb_set_round(self, x, p):
            x = self.ball(x)
            return B(x.value, min(x.prec, self.prec_(p)))

        def op_arb_rel_accuracy_bits(self, x):
            x = self.ball(x)
            return x.prec - self.lost if x.prec < EXACT_ else EXACT_

        def op_ball_finite(self, x):
            return 1

        def op_ball_exact(self, x):
            return int(self.ball(x).prec >= EXACT_)

        def op_log2(self, x):
            x = self(x)
            return math.log2(x) if x > 0 else -INF

    rings = list(C18.KIND)

    def one(ring):
        key = "element:ball<%s>" % ring
        l = C18.lab(facts, rep, roots=r"([^(]*[ &])?exactreal::(Element<[^>]*>::arb|Arb::.*)\(", units=("element", "arb"))
        fs = [f for f in l.find(r"^exactreal::Element<exactreal::%s>::arb\(" % ring, 0) if "'lambda" not in f["dem"]]
        if len(fs) != 1:
            rep.ob(key, None, "%d functions" % len(fs))
            return
        f = fs[0]
        place = common.where(f["blocks"][0]["ins"][-1])
        A, s = l.run(f, slots=l.slots, on_call=chain(ballhook, C18.hook, unroll.refcounts, *seq.HOOKS, C18.factory), init_cells={("raw8", T("arg", 1), 0): T("ptr", T("elem", T("x")), 0)})
        if s.undecided or s.mem is None:
            rep.ob(key, None, "; ".join(map(str, s.undecided))[:200] or "never returns", place)
            return
        out = A.read(s.mem, "arb", T("arg", 0))
        fl = C18.Follow(s, 250, [out, s.retpc])
        x = T("x")
        bad = und = None
        n = 0
        cases = list(C18.elems(ring, C18.modules(ring, C18.G[:3]), (0, 1, -2)))
        if ring != "IntegerRing":
            cases += list(C18.elems(ring, C18.modules(ring, C18.G[1:3]), (F(1, 3), F(-5, 2))))
        for a in cases:
            for accuracy in (2, 53, 64, 100):
                for lost in (0, 1, 3, 40):
                    m = Balls({x: a, T("arg", 2): accuracy}, l, ring)
                    m.lost = lost
                    want = {g: getattr(c, "q", c) for g, c in a.value().items()}
                    n += 1
                    try:
                        fl.run(m)
                        if not m.holds(s.retpc):
                            bad = "an exception for %r" % a
                            break
                        got = m.ball(out)
                        if {g: F(c) for g, c in got.value.items()} != {g: F(c) for g, c in want.items()}:
                            bad = "the ball of %r is one of %s" % (a, C18.show(got.value))
                        elif got.value and got.prec < EXACT_ and got.prec - lost < accuracy:
                            bad = "the ball of %r has %d accurate bits instead of %d when %d bits cancel" % (a, got.prec - lost, accuracy, lost)
                    except unroll.Endless:
                        bad = "it never ends for %r when %d bits cancel" % (a, lost)
                    except C18.Threw as e:
                        bad = "%s for %r" % (e, a)
                    except C18.Outside as e:
                        bad = "%s for %r" % (e, a)
                    except C18.PROBLEMS as e:
                        und = "%s: %s for %r" % (type(e).__name__, e, a)
                    if bad:
                        break
                if bad:
                    break
            if bad:
                break
        rep.count("balls of elements", n)
        rep.ob(key, False if bad else None if und else True, bad or und or "encloses it and has the accuracy in all %d cases" % n, place)
    common.parallel(facts, rep, [lambda r=r: one(r) for r in rings])


def run(facts, rep):
    rep.explanation = "error analysis of the value-flow summaries: each approximation's term is bounded on representative numbers and precisions with the documented roundings of the library calls it contains; loops by the bound of their step"
    rep.rules = ["approximations: |answer - x| <= 2^-prec |x|", "refine: the resulting ball contains x and has prec accurate digits for any midpoint the contract of arf permits", "arf_: no writes to the number or to globals, no reads of mutable globals", "products: every factor appears as often as its exponent says"]
    rational(facts, rep)
    random(facts, rep)
    constrained(facts, rep)
    product(facts, rep)
    balls(facts, rep)
    elements(facts, rep)
    rep.floor("functions summarised", rep.counts.get("functions summarised", 0), 6)
