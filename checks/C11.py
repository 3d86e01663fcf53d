"""Comparisons, floor, ceiling, conversion to double: certified answers only."""
import itertools
import os
import sys
from fractions import Fraction as F

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from world import *
import catalog
import interp
import unroll
from interp import Unknown, Ball, Alg, INF, EXACT

UNITS = ["real_number", "arf", "arb", "element", "module", "integer_ring", "rational_field", "number_field"]
HEADERS = ["exact-real/real_number.hpp", "exact-real/arf.hpp", "exact-real/arb.hpp", "exact-real/yap/arf.hpp", "exact-real/element.hpp", "exact-real/module.hpp", "exact-real/integer_ring.hpp", "exact-real/rational_field.hpp", "exact-real/number_field.hpp"]
EL = r"exactreal::Element<exactreal::\w+>::"
OPQ = common.OPAQUE + r"|^.*boost::lexical_cast<std::|^exactreal::RealNumber::(refine|arb)\(|^" + EL + r"(arb\(|operator std::optional|operator==\(exactreal::(Element|RealNumber)|operator bool|promote\(|coefficients\()|^exactreal::Module<exactreal::\w+>::(span|make)\(|^" + EL + r"floordiv\(exactreal::Element<exactreal::\w+> const&\) const$"
REL = {"<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq", "!=": "ne"}
OPS = {"<": lambda a, b: a < b, "<=": lambda a, b: a <= b, ">": lambda a, b: a > b, ">=": lambda a, b: a >= b, "==": lambda a, b: a == b, "!=": lambda a, b: a != b}
RINGS = ["IntegerRing", "RationalField", "NumberField"]


def hook(A, name, dem, i, args, mem):
    d = dem or ""
    if re.match(r"exactreal::RealNumber::refine\(exactreal::Arb&, long\)", d):
        A.event(i, "approx", [args[0], args[2]])
        A.write(mem, "arb", args[1], lift(lambda x, q: T("approx", x, q), args[0], args[2]))
        return None
    if re.match(r"exactreal::RealNumber::arb\(long\)|" + EL + r"arb\(long\)", d):
        A.event(i, "approx", [args[1], args[2]])
        A.write(mem, "arb", args[0], lift(lambda x, q: T("approx", x, q), args[1], args[2]))
        A.catalog.alive(A, mem, "arb", args[0], "live")
        return None
    if name is None and i.get("argtys") == ["ptr", "ptr"] or re.match(EL + r"operator std::optional<__gmp_expr<__mpq", d):
        A.event(i, "rational", [args[1]])
        A.write(mem, "mpq", args[0], lift(lambda x: T("ratval", x), args[1]))
        A.write(mem, "raw1", padd(args[0], 32), lift(lambda x: vf.ite(vf.atom(T("isrational", x)), Int(1, 8), Int(0, 8)), args[1]))
        return None
    if re.match(EL + r"operator std::optional<__gmp_expr<__mpz", d):
        A.event(i, "integer", [args[1]])
        A.write(mem, "mpz", args[0], lift(lambda x: T("ratval", x), args[1]))
        A.write(mem, "raw1", padd(args[0], 16), lift(lambda x: vf.ite(vf.atom(T("isinteger", x)), Int(1, 8), Int(0, 8)), args[1]))
        return None
    if re.match(EL + r"operator==\(exactreal::(Element<exactreal::\w+>|RealNumber) const&\)", d):
        A.event(i, "equality", args)
        return lift(lambda x, y: vf.atom(T("symeq", x, y)), *args)
    if re.match(EL + r"operator bool|exactreal::RealNumber::operator bool", d):
        return lift(lambda x: vf.atom(T("nonzero", x)), args[0])
    if re.search(r"boost::lexical_cast<std::(__cxx11::)?(basic_)?string", d) and len(args) == 2:
        v = A.read(mem, "raw8", args[1])
        A.write(mem, "cxx", args[0], lift(lambda x: T("decimal", (catalog.U if "unsigned" in d else catalog.S)(x)), v))
        A.catalog.alive(A, mem, "cxx", args[0], "live")
        return None
    if re.match(EL + r"promote\(", d):
        return args[0]
    return NotImplemented


def padd(p, n):
    return lift(lambda q: T("ptr", q.args[0], q.args[1] + n) if q.op == "ptr" else T("ptr", q, n), p)


class Num(interp.Model):
    """values: operand pointer -> number (Alg: irrational); balls: operand -> ball"""

    def __init__(self, env, values, balls):
        super().__init__(env)
        self.values, self.balls = values, balls

    def who(self, x):
        if x.op == "ptr" and x.args[1] == 0:
            x = x.args[0]
        if x not in self.values:
            raise Unknown("the number at %r" % x)
        return x

    def op_approx(self, x, q):
        return interp.simp(self.balls[self.who(x)])

    def op_ratval(self, x):
        v = self.values[self.who(x)]
        if isinstance(v, Alg):
            raise Unknown("the value of an empty optional")
        return v

    def op_isrational(self, x):
        return int(not isinstance(self.values[self.who(x)], Alg))

    def op_isinteger(self, x):
        v = self.values[self.who(x)]
        return int(not isinstance(v, Alg) and v.denominator == 1)

    def op_symeq(self, x, y):
        return int(self.values[self.who(x)] == self.values[self.who(y)])

    def op_nonzero(self, x):
        return int(self.values[self.who(x)] != 0)

    def op_digits(self, x, q):
        v = self.values[self.who(x)]
        e = F(1)
        if v == 0:
            return F(0)
        return F(v) * (1 + F(self.env.get("off", 0)) * F(2) ** -max(0, int(self(q))))

    def op_eq(self, x, y):
        if x.op in ("ptr", "null") or y.op in ("ptr", "null"):
            a, b = self.values[self.who(x)], self.values[self.who(y)]
            return int(a == b)
        return super().op_eq(x, y)

    def op_decimal(self, v):
        return self(v)

    def op_parse(self, x, b):
        return self(x)

    def ev(self, t):
        if t.op.endswith("_set_str#ret"):
            return 0
        return super().ev(t)

    def op_arb_get_interval_arf(self, i, x, *prec):
        b = self(x)
        return interp.lo(b) if i == 0 else interp.hi(b)

    def op_arb_rel_accuracy_bits(self, x):
        b = interp.ball(self(x))
        return EXACT if b.rad == 0 else -EXACT if b.rad == INF or b.mid == 0 else max(-EXACT, int(F(b.mid / b.rad)).bit_length())

    def op_arf_set_fmpq(self, x, p, m):
        import C12
        return C12.rounded(self(x), self(p), self(m))

    def op_arb_div(self, x, y, *prec):
        a, b = self(x), self(y)
        if interp.lo(b) <= 0 <= interp.hi(b):
            return Ball(F(0), INF)
        if interp.ball(a).rad == INF:
            return Ball(F(0), INF)
        c = [p / q for p in (interp.lo(a), interp.hi(a)) for q in (interp.lo(b), interp.hi(b))] if interp.ball(b).rad != INF else None
        if c is None:
            return Ball(F(0), INF)
        l, h = min(c), max(c)
        return interp.simp(Ball((l + h) / 2, (h - l) / 2))

    def arith(self, name, f, a, comm):
        if name == "arf_mul" or name == "arf_add" or name == "arf_sub":
            v = f(interp.num(self(a[0])), interp.num(self(a[1])))
            rest = [self(z) for z in a[2:]]
            if not rest or rest[0] == EXACT:
                return v
        return super().arith(name, f, a, comm)


def ballsaround(x):
    x = F(x)
    out = [Ball(x, F(1, 1 << 60))]
    for r in (F(1, 4), F(1, 2), F(1), F(5, 2)):
        out += [Ball(x, r), Ball(x - r, r), Ball(x + r, r)]
    return out + [Ball(F(0), INF)]


EXACTLY = "exact"
VALUES = [F(0), F(1), F(-1), F(1, 2), F(3, 2), F(-5, 3), F(2), Alg(15007, 10007), Alg(-5003, 10009), Alg(20011, 10007), Alg(10009, 10007)]
INTS = {"signed char": (8, True), "unsigned char": (8, False), "short": (16, True), "unsigned short": (16, False), "int": (32, True), "unsigned": (32, False), "long": (64, True), "unsigned long": (64, False), "long long": (64, True), "unsigned long long": (64, False)}


def intdomain(ty):
    bits, signed = INTS[ty]
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    return sorted({lo, hi, 0, 1, 2} | ({(1 << 53) + 1} if bits == 64 else set()) | ({-1} if signed else {1 << bits - 1}))


class D:
    """one driver: operands in order, each (parameter, kind), and the truth"""

    def __init__(self, name, params, expr, truth, result="bool", tightonly=False):
        self.name, self.params, self.expr, self.truth, self.result = name, params, expr, truth, result

    def code(self):
        t = {"X": "const RealNumber& %s", "Arf": "const Arf& %s", "mpq": "const mpq_class& %s", "mpz": "const mpz_class& %s"}
        ps = ", ".join((t.get(k) or ("const Element<%s>& %%s" % k[2:] if k.startswith("E:") else k + " %s")) % n for n, k in self.params)
        ret = {"bool": "bool", "mpz": "mpz_class", "double": "double"}[self.result]
        return "%s %s(%s) { return %s; }" % (ret, self.name, ps, self.expr)


def drivers():
    out = []

    def both(tag, left, right, sides=True):
        for op, n in REL.items():
            f = OPS[op]
            out.append(D("%s_%s" % (tag, n), [("a", left), ("b", right)], "a %s b" % op, lambda a, b, f=f: f(a, b)))
            if sides:
                out.append(D("rev_%s_%s" % (tag, n), [("a", left), ("b", right)], "b %s a" % op, lambda a, b, f=f: f(b, a)))
    both("x_x", "X", "X", False)
    for ty in ["Arf", "mpq", "mpz"] + list(INTS):
        if ty in ("unsigned long", "long long", "unsigned long long"):
            continue
        both("x_" + ty.replace(" ", "_"), "X", ty)
    for op, n in REL.items():
        out.append(D("x_self_" + n, [("a", "X")], "a %s a" % op, lambda a, f=OPS[op]: f(a, a)))
    for r in RINGS:
        e = "E:" + r
        both("%s_e" % r, e, e, False)
        for op, n in REL.items():
            out.append(D("%s_self_%s" % (r, n), [("a", e)], "a %s a" % op, lambda a, f=OPS[op]: f(a, a)))
        for ty in ["X", "mpq", "mpz", "short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long"]:
            both("%s_%s" % (r, ty.replace(" ", "_")), e, ty)
        out.append(D("%s_floor" % r, [("a", e)], "a.floor()", lambda a: F(a).__floor__(), "mpz"))
        out.append(D("%s_ceil" % r, [("a", e)], "a.ceil()", lambda a: F(a).__ceil__(), "mpz"))
        out.append(D("%s_double" % r, [("a", e)], "static_cast<double>(a)", lambda a: F(float(F(a))), "double"))
    out.append(D("x_double", [("a", "X")], "static_cast<double>(a)", lambda a: F(float(F(a))), "double"))
    out.append(D("x_bool", [("a", "X")], "static_cast<bool>(a)", lambda a: a != 0))
    return out


def cases(d, thorough):
    doms = []
    half = [F(1) + F(1, 1 << 53), F(1) + F(3, 1 << 53), F(-1) - F(1, 1 << 53) - F(1, 1 << 60), F(3) + F(1, 1 << 53), F(1, 3), F((1 << 60) + (1 << 7) + 1)] if d.result == "double" else []
    more = half or sorted({F(v) + e for _, k in d.params if k in INTS for v in intdomain(k) + [1 << INTS[k][0], (1 << 53) + 1] for e in (0, 1, -1)} - set(VALUES))
    for n, k in d.params:
        if k == "X" or k.startswith("E:"):
            doms.append([(v, b) for v in VALUES for b in ballsaround(v)] + [(v, b) for v in more for b in (Ball(v, F(1, 1 << 60)), Ball(v, F(1, 2)))])
        elif k in INTS:
            doms.append([(F(v), None) for v in intdomain(k)])
        elif k == "mpz":
            doms.append([(F(v), None) for v in (0, 1, -1, 2, 1 << 70)])
        else:
            doms.append([(v, None) for v in (F(0), F(1), F(-1), F(1, 2), F(3, 2), F(2), F(-3, 4)) + ((F(-5, 3), F(1, 3)) if k == "mpq" else ())])
    total = 1
    for x in doms:
        total *= len(x)
    if total > 2500 and len(doms) == 2 and not thorough:
        # every pair of values, balls thinned out
        doms = [[c for j, c in enumerate(x) if c[1] is None or c[1].rad in (F(1, 1 << 60), F(1, 2), INF) or j % 5 == k] for k, x in enumerate(doms)]
        step = 3
        return [c for j, c in enumerate(itertools.product(*doms)) if j % step == 0 or all(b is None or b.rad == F(1, 1 << 60) for _, b in c)]
    return itertools.product(*doms)


def judge(rep, d, f, A, s, thorough):
    place = where_of(s, f)
    key = d.name
    if s.undecided:
        rep.ob(key, None, "; ".join(map(str, s.undecided))[:200], place)
        return
    off = 1 if d.result == "mpz" else 0
    if d.result == "mpz":
        out = A.read(s.mem, "mpz", T("ptr", T("arg", 0), 0)) if s.mem else None
    else:
        out = s.ret
    if out is None or s.retpc is FALSE:
        rep.ob(key, False, "never returns", place)
        return
    back = FALSE
    for h, c in s.backs:
        back = Or(back, c)
    n, und, bad = 0, None, None
    fl = follow(s, [out])
    for case in cases(d, thorough):
        env, values, balls, args = {}, {}, {}, []
        tight = True
        for k, ((name, kind), (v, b)) in enumerate(zip(d.params, case)):
            t = T("arg", k + off)
            args.append(v)
            if b is not None:
                values[t], balls[t] = v, b
                tight = tight and b.rad == F(1, 1 << 60)
            elif kind in INTS:
                bits, signed = INTS[kind]
                env[t] = interp.wrap(int(v), bits)
                values[t] = v
            else:
                env[T("in", {"Arf": "arf"}.get(kind, kind), t, 0)] = int(v) if kind == "mpz" else v
                values[t] = v
        m = Num(env, values, balls)
        try:
            try:
                fl.run(m)
                again = False
            except unroll.Endless:
                again = True
            if not again and m.holds(s.retpc):
                v = m(out)
                want = d.truth(*args)
                n += 1
                if (bool(v) if d.result == "bool" else v) != want:
                    bad = (case, v, want)
                    break
            else:
                n += 1
                if not again:
                    bad = (case, "an exception", d.truth(*args))
                    break
                if tight:
                    bad = (case, "no answer, however small the balls are,", d.truth(*args))
                    break
        except (Unknown, ZeroDivisionError, OverflowError, TypeError, ValueError, AttributeError, KeyError) as e:
            und = "%s %s" % (type(e).__name__, e)
    rep.count("cases", n)
    if bad:
        case, v, want = bad
        what = ", ".join("%s = %s%s%s" % (nm, F(x), " (irrational)" if isinstance(x, Alg) else "", " known to be in [%s, %s]" % (fmt(interp.lo(b)), fmt(interp.hi(b))) if b is not None else "") for (nm, _), (x, b) in zip(d.params, case))
        rep.ob(key, False, "`%s` for %s: the answer is %s instead of %s" % (d.expr, what, v if not isinstance(v, int) or d.result != "bool" else bool(v), want), place)
    else:
        rep.ob(key, None if und or not n else True, und or "agrees with the relation in all %d cases of values and balls, and asks again when the balls do not decide" % n, place)
    growth(rep, d, s, back, place)


def follow(s, outs):
    # the balls of the model do not get smaller
    return unroll.Follow(s, 40, outs + [s.retpc], lambda t: t.op in ("approx", "digits"))


def fmt(x):
    x = x if x in (INF, -INF) else F(x)
    return str(x) if x in (INF, -INF) or x.denominator < 1000 else "%.6g" % float(x)


def where_of(s, f):
    for e in s.events:
        w = common.where(e["ins"])
        if "drivers" not in w and w:
            return w
    return common.where(f["blocks"][0]["ins"][-1])


def growth(rep, d, s, back, place):
    """the precision strictly increases from one attempt to the next"""
    if back is FALSE:
        return
    qs = {}
    for e in s.events:
        if e["name"] == "approx" and And(e["pc"], TRUE) is not FALSE:
            q = e["args"][1]
            qs[q] = common.where(e["ins"])
    if not qs:
        rep.ob(d.name + ":retry", None, "retries without approximations", place)
        return
    for q, w in qs.items():
        loops = [x for x in vf.walk(q) if x.op == "loop"]
        if not loops:
            inloop = True
            rep.ob(d.name + ":retry", False, "an undecided comparison is retried with the same precision %r" % q, w)
            continue
        if len(loops) != 1 or loops[0].args[1] != "phi":
            rep.ob(d.name + ":retry", None, "the precision is %r" % q, w)
            continue
        t = loops[0]
        init, nxt = s.loops[t.args[0]][("phi", t.args[2])][:2]
        try:
            v = interp.Model({})(init)
            seq = []
            for _ in range(7):
                seq.append(interp.Model({t: v})(q))
                vs = {interp.Model({t: v})(l) for _, l in relevant(nxt, back)}
                if len(vs) != 1:
                    raise Unknown("step")
                v = vs.pop()
            up = all(a < b for a, b in zip(seq, seq[1:]))
            rep.ob(d.name + ":retry", up and seq[0] > -1000, "the precisions are %s ..." % seq, w)
        except (Unknown, TypeError) as e:
            rep.ob(d.name + ":retry", None, "%s" % e, w)


class Coefs(unroll.Vectors, Num):
    """two elements over generators that are linearly independent, as coefficient vectors"""
    def who(self, x):
        a = self.addr(x)
        if a[1] or a[0] not in self.values:
            raise Unknown("the number at %r" % (x,))
        return a[0]

    def op_floordiv(self, x, y):
        return (F(self.values[self.who(x)]) / F(self.values[self.who(y)])).__floor__()

    def op_callret(self, name, *a):
        if "nocheck" in str(name):
            return 0
        raise Unknown("callret")


def elements(env, values, balls, elems, modules):
    """a model in which the given pointers are elements with these coefficients in these modules"""
    m = Coefs(env, values, balls)
    for p, (v, parent) in elems.items():
        impl = T("in", "raw8", p, 0)
        m.vectors[m.addr(T("ptr", impl, 16))] = [x if isinstance(x, Alg) else F(x) for x in v]
        m.cells[m.addr(impl)] = parent
    for name, gens in modules.items():
        m.vectors[(("deref", name, 16), 0)] = gens
    return m


def divhook(A, name, dem, i, args, mem):
    d = dem or ""
    if re.match(EL + r"Element\(exactreal::Element<exactreal::\w+> const&\)", d):
        A.write(mem, "raw8", args[0], lift(lambda x: T("copyof", x), args[1]))
        return None
    if re.match(EL + r"~Element\(", d):
        return None
    if re.match(EL + r"floordiv\(", d):
        x, y = (lift(lambda p: p.args[0] if p.op == "copyof" else T("?", p), A.read(mem, "raw8", p)) for p in args[1:3])
        A.write(mem, "mpz", args[0], lift(lambda a, b: T("floordiv", a, b), x, y))
        A.catalog.alive(A, mem, "mpz", args[0], "live")
        return None
    return NotImplemented


def floordiv(facts, rep, *rings):
    """division with remainder: equal up to a factor, decided by the balls, or asked again"""
    lab = Lab(facts, rep, UNITS, EL + r"floordiv\(exactreal::Element<exactreal::\w+> const&\) const$", "", HEADERS, opaque=OPQ + r"|^(void )?" + unroll.REFCOUNT + r"|" + EL + r"~?Element\((exactreal::Element<exactreal::\w+> const&)?\)", extra=["-DNDEBUG"])
    for r in rings:
        fs = lab.find(r"^exactreal::Element<exactreal::%s>::floordiv\(" % r)
        if len(fs) != 1:
            rep.ob("floordiv<%s>" % r, None, "not lowered")
            continue
        A, s = lab.run(fs[0], on_call=chain(divhook, hook, unroll.vectors, unroll.refcounts, virtual_arf()))
        judgediv(rep, r, fs[0], A, s)


def symhook(A, name, dem, i, args, mem):
    if re.match(EL + r"operator==\(exactreal::Element<exactreal::\w+> const&\)", dem or ""):
        x, y = (lift(lambda p: p.args[0] if p.op == "copyof" else p, A.read(mem, "raw8", p)) for p in args[:2])
        return lift(lambda a, b: vf.atom(T("symeq", a, b)), x, y)
    return NotImplemented


class S:
    """a symbolic answer: what is asked, the truth, where the answer is left"""

    def __init__(self, pattern, params, truth, result):
        self.pattern, self.params, self.truth, self.result = pattern, params, truth, result


def integral(v):
    return isinstance(v, Alg) is False and F(v).denominator == 1


SYM = {"bool": S(r"operator bool\(", "e", lambda a: a != 0, "bool"),
       "==": S(r"operator==\(exactreal::Element<", "ee", lambda a, b: F(a) == F(b), "bool"),
       "== real": S(r"operator==\(exactreal::RealNumber const", "ex", lambda a, b: F(a) == F(b), "bool"),
       "rational": S(r"operator std::optional<__gmp_expr<__mpq", "e", lambda a: None if isinstance(a, Alg) else F(a), "mpq"),
       "integer": S(r"operator std::optional<__gmp_expr<__mpz", "e", lambda a: None if not integral(a) else F(a), "mpz")}


def combine(coefs, gens):
    v = F(0)
    irr = False
    for c, g in zip(coefs, gens):
        v += F(c) * F(g)
        irr = irr or c != 0 and (isinstance(g, Alg) or isinstance(c, Alg))
    return Alg(v.numerator, v.denominator) if irr else v


def symbolic(facts, rep, *rings):
    """the shortcuts that answer without balls: equality, being zero, being rational or an integer"""
    lab = Lab(facts, rep, UNITS, EL + r"operator( ?bool| ?==| std::optional)", "", HEADERS, opaque=OPQ + r"|^exactreal::RealNumber::operator bool|^.*ostream.* exactreal::operator<<|^(void )?" + unroll.REFCOUNT + r"|" + EL + r"~?Element\((exactreal::Element<exactreal::\w+> const&)?\)", extra=["-DNDEBUG"])
    t1, t2 = (Alg(x.numerator, x.denominator) for x in THETA[1:])
    for r in rings:
        sets = [[F(1)], [t1], [F(1), t1], [t1, F(1)], [F(1, 2), t1], [F(1), t1, t2], []]
        for name, q in SYM.items():
            key = "%s<%s>" % (name, r)
            fs = lab.find(r"^exactreal::Element<exactreal::%s>::%s" % (r, q.pattern))
            if len(fs) != 1:
                rep.ob(key, None, "not lowered")
                continue
            A, s = lab.run(fs[0], on_call=chain(symhook, divhook, hook, unroll.vectors, unroll.refcounts, virtual_arf()))
            place = where_of(s, fs[0])
            if s.undecided:
                rep.ob(key, None, "; ".join(map(str, s.undecided))[:200], place)
                continue
            off = 1 if q.result != "bool" else 0
            first = T("arg", off)
            fl = unroll.Follow(s, 12, [s.ret, s.retpc] if q.result == "bool" else [s.retpc] + [v for (k, root, o), v in s.mem.cells.items() if root is T("arg", 0)])
            bad = und = None
            n = 0
            cs = COEF[r][:4] + ([Alg(1393, 985)] if r == "NumberField" else [])
            for gens in sets:
                elems = list(itertools.product(cs, repeat=len(gens)))
                others = elems if q.params == "ee" else [None]
                if q.params == "ex":
                    others = list(range(len(gens))) + [-1]
                if len(elems) * len(others) > 700:
                    others = others[::9]
                for a, b in itertools.product(elems, others):
                    for same in ((True, False) if q.params == "ee" else (True,)):
                        values = {("gen", k): g for k, g in enumerate(gens)}
                        values[first] = combine(a, gens)
                        mods = {"M": [("gen", k) for k in range(len(gens))]}
                        es = {first: (a, "M")}
                        second = T("arg", 1)
                        if q.params == "ee":
                            values[second] = combine(b, gens)
                            es[second] = (b, "M" if same else "N")
                            mods["N"] = mods["M"]
                        m = elements({}, values, {}, es, mods)
                        if q.params == "ex":
                            # another real number: a generator, or zero, or a number that is none of them
                            if b < 0:
                                values[("other",)] = F(0)
                                if values[first] != 0:
                                    continue
                                m.alias[second] = ("other",)
                            else:
                                m.alias[second] = ("gen", b)
                        args = [values[first]] + ([values[m.addr(second)[0]]] if off == 0 and q.params != "e" else [])
                        want = q.truth(*args)
                        try:
                            fl.run(m)
                            n += 1
                            what = "the element with coefficients %s over the generators %s%s" % (list(map(str, a)), ["irrational" if isinstance(g, Alg) else str(g) for g in gens], "" if b is None else " and %s%s" % (list(map(str, b)) if q.params == "ee" else "generator %d" % b if b >= 0 else "zero", "" if same else " over another module"))
                            if not m.holds(s.retpc):
                                bad = "an exception for " + what
                                break
                            if q.result == "bool":
                                got = bool(m.holds(s.ret))
                            else:
                                p = T("ptr", T("arg", 0), 0)
                                flag = m(A.read(s.mem, "raw1", padd(p, 32 if q.result == "mpq" else 16)))
                                got = F(m(A.read(s.mem, q.result, p))) if flag else None
                            if got != want:
                                bad = "%s instead of %s for %s" % (got, want, what)
                                break
                        except (Unknown, ZeroDivisionError, OverflowError, TypeError, ValueError, AttributeError, KeyError) as e:
                            und = "%s %s" % (type(e).__name__, e)
                            break
                    if bad or und:
                        break
                if bad or und:
                    break
            rep.count("cases", n)
            rep.ob(key, False if bad else None if und else True, bad or und or "the truth about all %d elements" % n, place)


THETA = [F(1), F(14142135623730951, 10000000000000061), F(-1000003919, 1732050807001)]
COEF = {"IntegerRing": [F(0), F(1), F(-1), F(2), F(-3), F(6)], "RationalField": [F(0), F(1), F(-1), F(1, 2), F(-3), F(6), F(-5, 3)]}
COEF["NumberField"] = COEF["RationalField"]


def divcases(r):
    c = COEF[r]
    two = list(itertools.product(c, repeat=2))
    pairs = [(a, b) for a in two for b in two if sum(map(abs, a + b)) < 12 or a == tuple(2 * x for x in b) or a == tuple(-3 * x for x in b)]
    ones = [((a,), (b,)) for a in c for b in c]
    threes = [(tuple(f * x for x in b), b) for f in (1, -2, F(3, 2)) for b in ((1, 0, 2), (0, -1, 3), (2, 2, 2))] + [((2, 4, 5), (1, 2, 3)), ((2, 0, 0), (1, 0, 1)), ((3, 4, 6), (1, 2, 2)), ((0, 0, 3), (1, 0, 1)), ((2, 4, 4), (1, 2, 2))]
    for k, (a, b) in enumerate(ones + pairs + threes):
        if r == "IntegerRing" and any(F(x).denominator != 1 for x in a + b):
            continue
        va, vb = (sum(F(x) * t for x, t in zip(v, THETA)) for v in (a, b))
        yield a, b, va, vb, Ball(va, F(1, 1 << 60)), Ball(vb, F(1, 1 << 60)), True, True
        yield a, b, va, vb, Ball(va, F(1, 1 << 60)), Ball(vb, F(1, 1 << 60)), True, False
        if k % 3 == 0:
            for ra in (F(1, 4), F(5, 2), INF):
                for rb in (F(1, 4), F(1)):
                    e = F(1, 5)
                    yield a, b, va, vb, Ball(va + e if ra != INF else F(0), ra), Ball(vb - e, rb), False, True


def judgediv(rep, r, f, A, s):
    key, place = "floordiv<%s>" % r, where_of(s, f)
    if s.undecided or not s.backs or s.mem is None:
        rep.ob(key, None, "; ".join(map(str, s.undecided))[:200] or "no loops", place)
        return
    out = A.read(s.mem, "mpz", T("ptr", T("arg", 0), 0))
    this, rhs = T("arg", 1), T("arg", 2)
    fl = follow(s, [out])
    bad = und = None
    n = 0
    for a, b, va, vb, ba, bb, tight, same in divcases(r):
        m = elements({}, {this: va, rhs: vb}, {this: ba, rhs: bb}, {this: (a, "M"), rhs: (b, "M" if same else "N")}, {"M": [("gen", k) for k in range(len(a))], "N": [("gen", k) for k in range(len(b))]})
        what = "the coefficients %s and %s, values in [%s, %s] and [%s, %s]%s" % (list(map(str, a)), list(map(str, b)), fmt(interp.lo(ba)), fmt(interp.hi(ba)), fmt(interp.lo(bb)), fmt(interp.hi(bb)), "" if same else ", different modules")
        try:
            try:
                fl.run(m)
                endless = False
            except unroll.Endless:
                endless = True
            n += 1
            if vb == 0:
                if endless or m.holds(s.retpc):
                    bad = "a division by zero is computed for " + what
                    break
                continue
            want = (va / vb).__floor__()
            if endless:
                if tight:
                    bad = "there is no answer, however small the balls are, for " + what
                    break
                continue
            if not m.holds(s.retpc):
                bad = "an exception for " + what
                break
            v = m(out)
            if v != want:
                bad = "the quotient is %s instead of %s for %s" % (v, want, what)
                break
        except (Unknown, ZeroDivisionError, OverflowError, TypeError, ValueError, AttributeError, KeyError) as e:
            und = "%s %s" % (type(e).__name__, e)
            break
    rep.count("cases", n)
    rep.ob(key, False if bad else None if und or n < 100 else True, bad or und or "the floor of the quotient in all %d cases, from the coefficients or from balls that decide it" % n, place)
    growth(rep, D("floordiv<%s>" % r, [], "", None), s, s.backs[0][1], place)


def run(facts, rep):
    rep.explanation = "each comparison, floor, ceiling and conversion summarised; every path that returns is decided to return the truth whenever the balls contain the operands, all others retry with a larger precision"
    rep.rules = ["a returned answer equals the relation for every pair of numbers in the balls the path has seen", "undecided paths go back with a strictly larger precision", "tight balls are always decided"]
    ds = drivers()
    parts = [ds[k::4] for k in range(4)]
    facts.compile(UNITS, extra=["-DNDEBUG"])
    common.parallel(facts, rep, [lambda k=k, p=p: compared(facts, rep, p, k) for k, p in enumerate(parts)] + [lambda r=r: (floordiv(facts, rep, r), symbolic(facts, rep, r)) for r in RINGS])
    rep.counts["library units"] = len(UNITS)
    rep.floor("drivers", len(ds), 500)


def compared(facts, rep, ds, k):
    lab = Lab(facts, rep, UNITS, r"^verif_driver::", "\n".join(d.code() for d in ds), HEADERS, opaque=OPQ, extra=["-DNDEBUG"])
    by = {f["dem"].split("::")[1].split("(")[0]: f for f in lab.fns if f["dem"].startswith("verif_driver::")}
    for d in ds:
        if d.name not in by:
            rep.ob(d.name, None, "not lowered")
            continue
        A, s = lab.run(by[d.name], on_call=chain(hook, virtual_arf()))
        judge(rep, d, by[d.name], A, s, rep.tier == "thorough")
