"""Arb values: constructors, assignments, conversions and named balls."""
from spec import *
from catalog import neg, U

INTS = ["short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long"]
FAST = Int(64)
EXACT = Int(interp.EXACT)


def intdom(ty):
    bits = {"short": 16, "unsigned short": 16, "int": 32, "unsigned": 32}.get(ty, 64)
    if ty.startswith("unsigned"):
        return [0, 1, (1 << bits) - 1, 1 << bits - 1] + ([1 << 16, 65537] if bits > 16 else []) + ([(1 << 53) + 1, 1 << 32, (1 << 63) + 1025] if bits == 64 else [])
    return [0, 1, -1, (1 << bits - 1) - 1, -(1 << bits - 1)] + ([1 << 16, 65537, -65537] if bits > 16 else []) + ([(1 << 53) + 1, 1 << 32, -(1 << 33)] if bits == 64 else [])


def bound(t, v, k):
    """the range's lower (0) or upper (1) bound, rounded outwards to the
    ball's accuracy or better"""
    std = T("arb_get_interval_arf", k, v.a, T("arb_rel_accuracy_bits", v.a))
    if t is std:
        return True, "the ball's bound"
    decided = True
    for a in DOM["arb"] + [interp.Ball(interp.Fraction(1000, 1), interp.Fraction(1, 8)), interp.Ball(interp.Fraction(-77, 1), interp.Fraction(3, 64))]:
        m = interp.Model({v.a: a})
        try:
            x = m(t)
        except UNDECIDED_ERR:
            decided = False
            continue
        exact = (interp.hi if k else interp.lo)(a)
        if x < exact if k else x > exact:
            return False, "for the ball %r this is %r, inside of its range" % (a, x)
        try:
            y = m(std)
        except UNDECIDED_ERR:
            continue
        if x > y if k else x < y:
            return False, "for the ball %r this is %r, not %r" % (a, x, y)
    return (True, "a bound of the ball") if decided else (None, "not decided for every ball")


def algebraic(t, prec):
    """the embedding of the element evaluated in its field refined to prec"""
    if t.op == "renf_elem_get_arb":
        return None, ""
    if t.op != "emb":
        return None, "not an embedding"
    e = t.args[0]
    if e.op != "renf_elem_set_evaluation":
        return False, "the stored embedding is used without evaluating it to the requested precision"
    elem, field, p = e.args
    if field.op != "renf_refine_embedding":
        return False, "evaluated without refining the field's embedding to the requested precision"
    if p is not prec or field.args[1] is not prec:
        return False, "evaluated to precision %r in a field refined to %r" % (p, field.args[1])
    if vf.T("arg", 0) not in list(vf.walk(elem)) or vf.T("arg", 0) not in list(vf.walk(field)):
        return None, "of another object"
    return True, "is the evaluated embedding"


def drivers():
    D = Driver
    out = []

    def ctor(name, ps, expr, want=None, oracle=None, **kw):
        out.append(D("ctor_" + name, ps + (", " if ps else "") + "Arb *r", "new (r) Arb(%s);" % expr, out={"r": want} if want else None, oracle={"r": oracle} if oracle else None, new=["r"], **kw))

    def assign(name, ps, expr, want=None, oracle=None, **kw):
        out.append(D("assign_" + name, ps + ", Arb &a, Arb **r", "*r = &(a = %s);" % expr, out={"a": want} if want else None, oracle={"a": oracle} if oracle else None, writes=["r"], **kw))

    ctor("default", "", "", lambda v: Int(0))
    ctor("copy", "const Arb &a", "a", lambda v: v.a)
    out.append(D("ctor_move", "Arb &a, Arb *r", "new (r) Arb(std::move(a));", out={"r": lambda v: v.a}, new=["r"], moved=["a"]))
    assign("copy", "const Arb &b", "b", lambda v: v.b)
    out.append(D("assign_move", "Arb &b, Arb &a", "a = std::move(b);", out={"a": lambda v: v.b}, moved=["b"]))
    out.append(D("assign_self", "Arb &a", "a = *&a;", out={"a": lambda v: v.a}))
    out.append(D("assign_negated_self", "Arb &a", "a = -a;", out={"a": lambda v: neg(v.a)}))
    out.append(D("destroy", "Arb &a", "a.~Arb();", dead=["a"]))
    for ty in INTS:
        n = ty.replace(" ", "_")
        d = {"n": intdom(ty)}
        ctor(n, "%s n" % ty, "n", oracle=lambda n: F(n), domains=d)
        assign(n, "%s n" % ty, "n", oracle=lambda n, a: F(n), domains=d)
        out.append(D("ctor_assigned_" + n, "%s n, const Arb &b, Arb *r" % ty, "new (r) Arb(b); *r = n;", oracle={"r": lambda n, b: F(n)}, new=["r"], domains=d))
    assign("double", "double n", "n", lambda v: v.n)
    ctor("mpz", "const mpz_class &m", "m", lambda v: v.m)
    assign("mpz", "const mpz_class &m", "m", lambda v: v.m)
    ctor("arf", "const Arf &m", "m", lambda v: v.m)
    quot = lambda q, p: T("arb_div", T("num", q), T("den", q), p)
    ctor("mpq", "const mpq_class &q", "q", lambda v: quot(v.q, FAST))
    ctor("mpq_prec", "const mpq_class &q, prec p", "q, p", lambda v: quot(v.q, v.p))
    iv = lambda a, b, p: T("arb_set_interval_arf", a, b, p)
    fin = [x for x in DOM["arf"]]
    ctor("interval_prec", "const Arf &a, const Arf &b, prec p", "std::pair<Arf, Arf>(a, b), p", lambda v: iv(v.a, v.b, v.p), domains={"a": fin, "b": fin})
    ctor("interval", "const Arf &a, const Arf &b", "std::pair<Arf, Arf>(a, b)", lambda v: iv(v.a, v.b, EXACT), domains={"a": fin, "b": fin})
    ctor("string", "const std::string &s, prec p", "s, p", lambda v: T("arb_set_str", v.s, v.p))
    ctor("renf", "const eantic::renf_elem_class &x", "x", None, pattern={"r": lambda t, v: algebraic(t, FAST)})
    ctor("renf_prec", "const eantic::renf_elem_class &x, prec p", "x, p", None, pattern={"r": lambda t, v: algebraic(t, v.p)})
    ctor("negate", "const Arb &a", "-a", lambda v: neg(v.a))
    out.append(D("to_bounds", "const Arb &a, Arf *lo, Arf *hi", "auto p = static_cast<std::pair<Arf, Arf>>(a); new (lo) Arf(p.first); new (hi) Arf(p.second);", new=["lo", "hi"],
                 pattern={"lo": lambda t, v: bound(t, v, 0), "hi": lambda t, v: bound(t, v, 1)}))
    out.append(D("to_double", "const Arb &a, double *r", "*r = static_cast<double>(a);", out={"r": lambda v: T("get_d", T("mid", v.a), Int(4))}))
    out.append(D("to_midpoint", "const Arb &a, Arf *r", "new (r) Arf(static_cast<Arf>(a));", out={"r": lambda v: T("mid", v.a)}, new=["r"]))
    for n, o in (("is_exact", "ball_exact"), ("is_finite", "ball_finite")):
        out.append(D(n, "const Arb &a, unsigned char *r", "*r = a.%s() ? 1 : 0;" % n, oracle={"r": lambda a, o=o: int(interp.ball(a).rad == 0 if o == "ball_exact" else interp.ball(a).rad != interp.INF and abs(interp.ball(a).mid) != interp.INF)}, domains={"a": DOM["arb"] + [interp.INF, -interp.INF]}))
    out.append(D("same", "const Arb &a, const Arb &b, unsigned char *r", "*r = a.equal(b) ? 1 : 0;", oracle={"r": lambda a, b: int(interp.ball(a) == interp.ball(b))}))
    inf = lambda s: T("dbl", T("fp", s))
    for n, w in (("zero", Int(0)), ("one", Int(1)), ("pos_inf", inf("+Inf")), ("neg_inf", inf("-Inf")), ("zero_pm_one", T("arb_zero_pm_one")), ("zero_pm_inf", T("arb_zero_pm_inf")), ("indeterminate", T("arb_indeterminate")), ("unit_interval", T("arb_unit_interval"))):
        ctor(n, "", "Arb::%s()" % n, lambda v, w=w: w)
    out.append(D("swap", "Arb &a, Arb &b", "swap(a, b);", out={"a": lambda v: v.b, "b": lambda v: v.a}))
    out.append(D("std_swap", "Arb &a, Arb &b", "std::swap(a, b);", out={"a": lambda v: v.b, "b": lambda v: v.a}))
    return out


def run(facts, rep):
    rep.explanation = "every constructor, assignment, conversion and named ball of Arb summarised and compared with the value its name promises"
    b = Bench(facts, rep, ["arf", "arb"], ["exact-real/arb.hpp", "exact-real/yap/arb.hpp", "e-antic/renfxx.h"], drivers())
    b.run()
    rep.floor("drivers", rep.counts.get("drivers", 0), 50)
