"""The coefficient rings: every operation of IntegerRing, RationalField and
NumberField is the operation of that ring."""
import math
from spec import *
from catalog import mulx, floor_, S, U

INTS = ["short", "unsigned short", "int", "unsigned", "long", "unsigned long", "long long", "unsigned long long"]
HEADERS = ["exact-real/integer_ring.hpp", "exact-real/rational_field.hpp", "exact-real/number_field.hpp", "exact-real/arb.hpp", "e-antic/renfxx.h"]
PRE = """
typedef eantic::renf_elem_class elem;
"""
MPQ = DOM["mpq"] + [F(-5), F(-6, 4)]
SMALL = {"short": [1, -1, 2, 7, -3, -32768, 32767], "unsigned short": [1, 2, 65535, 32768], "int": [1, -1, 2, -3, 7, -2147483648, 2147483647], "unsigned": [1, 2, 3, 4294967295, 2147483648],
         "long": [1, -1, 2, -3, 7, 1 << 40, -(1 << 63), (1 << 63) - 1], "unsigned long": [1, 2, 3, (1 << 64) - 1, 1 << 63, 1 << 33]}
SMALL["long long"], SMALL["unsigned long long"] = SMALL["long"], SMALL["unsigned long"]


def emb(t, prec):
    import C06
    return C06.algebraic(t, prec)


def rational(x):
    if isinstance(x, interp.Alg):
        raise interp.Unknown("nothing is returned")
    return x


def field(k):
    return T("ptr", T("in", "raw8", T("arg", k), 0), 0)


def same(j, k):
    return lambda a: True if a.op == "same_field" and set(a.args) == {field(j), field(k)} else None


def degree_one(k):
    def f(a):
        if a.op == "eq" and vf.isint(a.args[1], 1) and a.args[0].op == "callret" and "degree" in a.args[0].args[0] and T("arg", k) in list(vf.walk(a.args[0])):
            return True
        return None
    return f


COMPOSITUM = {"same field": same(0, 1), "left is Q": degree_one(0), "right is Q": degree_one(1)}


DEGREES = {"Q": 1, "Q(sqrt 2)": 2, "Q(sqrt 3)": 2, "Q(cbrt 2)": 3, "Q(x^6-5)": 6, "Q(sqrt[4] 7)": 4}


class Fields(interp.Model):
    """two fields, the parameters of the driver"""

    def __init__(self, *names, pointer=False):
        interp.Model.__init__(self, {})
        self.names = names
        self.pointer = pointer  # are they the same object?

    def which(self, x):
        k = [n for n in (0, 1) if T("arg", n) in list(vf.walk(x))]
        if len(k) != 1:
            raise interp.Unknown("which field")
        return self.names[k[0]]

    def op_same_field(self, x, y):
        return int(self.which(x) == self.which(y))

    def op_eq(self, x, y):
        if {x, y} == {field(0), field(1)}:
            return int(self.pointer)
        return interp.Model.op_eq(self, x, y)

    def op_callret(self, name, *a):
        if isinstance(name, str) and "renf_class::degree" in name:
            return DEGREES[self.which(a[0])]
        raise interp.Unknown(name)

    def op_urem(self, x, y):
        return self(x) % self(y)

    def op_udiv(self, x, y):
        return self(x) // self(y)


def composita(raises):
    """none of these fields but Q is contained in another one"""
    def make(v):
        for a in DEGREES:
            for b in DEGREES:
                big = [field(0), field(1)] if a == b else [field(1)] if a == "Q" else [field(0)] if b == "Q" else None
                for p in (False, True)[:1 + (a == b)]:
                    label = "%s and %s%s" % (a, b, " (the same object)" if p else "")
                    if raises:
                        yield label, Fields(a, b, pointer=p), [vf.FALSE] if big else [vf.TRUE]
                    elif big:
                        yield label, Fields(a, b, pointer=p), big
    return make


def equality(yes):
    def make(v):
        for a in DEGREES:
            for b in DEGREES:
                for p in (False, True)[:1 + (a == b)]:
                    yield "%s and %s%s" % (a, b, " (the same object)" if p else ""), Fields(a, b, pointer=p), [Int(int((a == b) == yes), 8)]
    return make


def drivers():
    D = Driver
    out = [
        D("Z_arb", "const mpz_class &x, prec p, Arb *r", "new (r) Arb(IntegerRing::arb(x, p));", out={"r": lambda v: v.x}, new=["r"]),
        D("Z_unit", "const mpz_class &x, unsigned char *r", "*r = IntegerRing::unit(x);", oracle={"r": lambda x: int(abs(x) == 1)}),
        D("Z_rational", "const mpz_class &x, unsigned char *h, mpq_class *r", "auto q = IntegerRing::rational(x); *h = q.has_value(); new (r) mpq_class(*q);", oracle={"h": lambda x: 1}, out={"r": lambda v: v.x}, new=["r"]),
        D("Z_floor", "const mpz_class &x, mpz_class *r", "new (r) mpz_class(IntegerRing::floor(x));", out={"r": lambda v: v.x}, new=["r"]),
        D("Z_coerce", "const mpz_class &x, mpz_class *r", "new (r) mpz_class(IntegerRing().coerce(x));", out={"r": lambda v: v.x}, new=["r"]),
        D("Z_eq", "const mpz_class &x, unsigned char *e, unsigned char *n", "*e = IntegerRing() == IntegerRing(x); *n = IntegerRing::compositum(IntegerRing(), IntegerRing(x)) != IntegerRing();", oracle={"e": lambda x: 1, "n": lambda x: 0}),
        D("Q_arb", "const mpq_class &x, prec p, Arb *r", "new (r) Arb(RationalField::arb(x, p));", out={"r": lambda v: T("arb_div", T("num", v.x), T("den", v.x), v.p)}, new=["r"], domains={"x": MPQ}),
        D("Q_unit", "const mpq_class &x, unsigned char *r", "*r = RationalField::unit(x);", oracle={"r": lambda x: int(x != 0)}, domains={"x": MPQ}),
        D("Q_rational", "const mpq_class &x, unsigned char *h, mpq_class *r", "auto q = RationalField::rational(x); *h = q.has_value(); new (r) mpq_class(*q);", oracle={"h": lambda x: 1}, out={"r": lambda v: v.x}, new=["r"]),
        D("Q_floor", "const mpq_class &x, mpz_class *r", "new (r) mpz_class(RationalField::floor(x));", oracle={"r": lambda x: math.floor(x)}, new=["r"], domains={"x": MPQ}),
        D("Q_coerce", "const mpq_class &x, mpq_class *r", "new (r) mpq_class(RationalField().coerce(x));", out={"r": lambda v: v.x}, new=["r"]),
        D("Q_eq", "const mpq_class &x, unsigned char *e, unsigned char *n", "*e = RationalField() == RationalField(x); *n = RationalField::compositum(RationalField(), RationalField(x)) != RationalField();", oracle={"e": lambda x: 1, "n": lambda x: 0}),
        D("K_arb", "const eantic::renf_elem_class &x, prec p, Arb *r", "new (r) Arb(NumberField::arb(x, p));", pattern={"r": lambda t, v: emb(t, v.p)}, new=["r"]),
        D("K_unit", "const eantic::renf_elem_class &x, unsigned char *r", "*r = NumberField::unit(x);", oracle={"r": lambda x: int(x != 0)}),
        D("K_rational", "const eantic::renf_elem_class &x, unsigned char *h, mpq_class *r", "auto q = NumberField::rational(x); *h = q.has_value(); if (q) new (r) mpq_class(*q);", oracle={"h": lambda x: int(not isinstance(x, interp.Alg)), "r": lambda x: rational(x)}, new=["r"]),
        D("K_floor", "const eantic::renf_elem_class &x, mpz_class *r", "new (r) mpz_class(NumberField::floor(x));", oracle={"r": lambda x: math.floor(x)}, new=["r"]),
    ]
    K = "const NumberField &K, "
    out += [
        D("K_coerce", K + "const eantic::renf_elem_class &x, eantic::renf_elem_class *r", "new (r) eantic::renf_elem_class(K.coerce(x));", out={"r": lambda v: v.x}, new=["r"], may_throw=True,
          tables={"raises": ({"same field": same(0, 1), "rational": lambda a: True if a.op == "is_rational" else None}, lambda w, v: None if not w["same field"] and not w["rational"] else vf.FALSE),
                  ("r", "life:parent", 0): ({"same field": same(0, 1), "rational": lambda a: True if a.op == "is_rational" else None},
                                            lambda w, v: None if not w["rational"] and not w["same field"] else [field(0)] + ([T("in", "life:parent", T("arg", 1), 0)] if w["same field"] else []))}),
        D("K_eq", K + "const NumberField &L, unsigned char *e, unsigned char *n", "*e = K == L; *n = K != L;", writes=["e", "n"],
          tables={("e", "raw1", 0): ({"same field": same(0, 1)}, lambda w, v: Int(int(w["same field"]), 8), equality(True)), ("n", "raw1", 0): ({"same field": same(0, 1)}, lambda w, v: Int(int(not w["same field"]), 8), equality(False))}),
        D("K_compositum", K + "const NumberField &L, const eantic::renf_class **r", "NumberField M = NumberField::compositum(K, L); *r = M.parameters.get();", writes=["r"], may_throw=True,
          tables={"raises": (COMPOSITUM, lambda w, v: vf.FALSE if any(w.values()) else None, composita(True)),
                  ("r", "raw8", 0): (COMPOSITUM, lambda w, v: [field(0), field(1)] if w["same field"] or w["left is Q"] and w["right is Q"] else field(1) if w["left is Q"] else field(0) if w["right is Q"] else None, composita(False))}),
        D("K_of_element", "const eantic::renf_elem_class &x, const eantic::renf_class **r, const eantic::renf_class **s", "NumberField M(x); *r = M.parameters.get(); *s = &x.parent();", writes=["r", "s"],
          tables={("r", "raw8", 0): ({}, lambda w, v: field(0))}),
        D("K_of_field", "const eantic::renf_class &x, const eantic::renf_class **r", "NumberField M(x); *r = M.parameters.get();", writes=["r"], tables={("r", "raw8", 0): ({}, lambda w, v: T("ptr", T("arg", 0), 0))}),
        D("K_of_pointer", "const NumberField &L, const eantic::renf_class **r", "NumberField M(L.parameters); *r = M.parameters.get();", writes=["r"], tables={("r", "raw8", 0): ({}, lambda w, v: field(0))}),
    ]
    for R, el, dom in (("IntegerRing", "mpz_class", [0, 1, -1, 6, -14, (1 << 70) * 3]), ("RationalField", "mpq_class", MPQ), ("NumberField", "eantic::renf_elem_class", [F(0), F(3, 2), F(-7)])):
        c = {"IntegerRing": "Z", "RationalField": "Q", "NumberField": "K"}[R]
        for ty in INTS:
            n = ty.replace(" ", "_")
            out.append(D("%s_imul_%s" % (c, n), "%s &x, const %s &n" % (el, ty), "%s::imul(x, n);" % R, oracle={"x": lambda x, n: x * n}, domains={"x": dom, "n": [0] + SMALL[ty]}))
        for ty in ["mpz_class", "mpq_class"] + ([el] if c == "K" else []):
            n = ty.split("::")[-1]
            nd = [0, 1, -3, 1 << 66] if ty == "mpz_class" else MPQ + ([] if c != "Z" else [])
            exact = c == "Z" and ty == "mpq_class"
            out.append(D("%s_imul_%s" % (c, n), "%s &x, const %s &n" % (el, ty), "%s::imul(x, n);" % R, oracle={"x": lambda x, n: x * n}, domains={"x": dom, "n": nd},
                         throws=(lambda x, n: (x * n).denominator != 1) if exact else None))
        out.append(D("%s_imul_alias" % c, "%s &x" % el, "%s::imul(x, x);" % R, oracle={"x": lambda x: x * x}, domains={"x": dom}) if c == "K" or True else None)
        if True:
            out.append(D("%s_imul_returns" % c, "%s &x, const long &n, unsigned char *r" % el, "*r = &%s::imul(x, n) == &x;" % R, oracle={"r": lambda x, n: 1, "x": lambda x, n: x * n}, domains={"x": dom, "n": SMALL["long"]}))
    return out


def run(facts, rep):
    rep.explanation = "every static operation of the three coefficient rings summarised for all elements and compared with the mathematical operation"
    b = Bench(facts, rep, ["integer_ring", "rational_field", "number_field", "arb", "arf"], HEADERS, drivers(), extra_code=PRE)
    b.run()
    rep.floor("drivers", rep.counts.get("drivers", 0), 40)
