"""Division by zero and impossible divisions are reported, never computed."""
from spec import *
from C08 import INTS, HEADERS, PRE, MPQ, SMALL

ZERO_FIRST = {"IntegerRing": "Z", "RationalField": "Q", "NumberField": "K"}


def drivers():
    D = Driver
    out = []
    for R, el, dom in (("IntegerRing", "mpz_class", [0, 1, -1, 6, -14, (1 << 70) * 3]), ("RationalField", "mpq_class", MPQ), ("NumberField", "eantic::renf_elem_class", [F(0), F(3, 2), F(-7)])):
        c = ZERO_FIRST[R]
        for ty in INTS + ["mpz_class", "mpq_class"] + ([el] if c == "K" else []):
            n = ty.split("::")[-1].replace(" ", "_")
            nd = [0] + SMALL[ty] if ty in SMALL else [0, 1, -3, 2, 1 << 66] if ty == "mpz_class" else MPQ
            if c == "Z":
                bad = lambda x, n: n == 0 or (F(x) / n).denominator != 1
            else:
                bad = lambda x, n: n == 0
            out.append(D("%s_idiv_%s" % (c, n), "%s &x, const %s &n" % (el, ty), "%s::idiv(x, n);" % R, oracle={"x": lambda x, n: F(x) / F(n) if n else 0},
                         domains={"x": dom, "n": nd}, throws=bad, exception="invalid_argument"))
        out.append(D("%s_idiv_alias" % c, "%s &x" % el, "%s::idiv(x, x);" % R, oracle={"x": lambda x: F(1)}, domains={"x": dom}, throws=lambda x: x == 0, exception="invalid_argument"))
        out.append(D("%s_idiv_returns" % c, "%s &x, const long &n, unsigned char *r" % el, "*r = &%s::idiv(x, n) == &x;" % R, oracle={"r": lambda x, n: 1}, domains={"x": dom, "n": [1, -1]}, may_throw=True, writes=["x"]))
    return out


def run(facts, rep):
    rep.explanation = "the set of operands for which a division raises, as a condition over the operands, compared with 'zero, or not divisible'; the quotient elsewhere compared with the exact one"

    class Only:
        """what another check says about divisions"""

        def __init__(self, pat):
            self.pat = pat

        def ob(self, key, ok, detail="", place=""):
            if re.match(self.pat, key):
                rep.ob(key, ok, detail, place)

        def __getattr__(self, name):
            return getattr(rep, name)

    def rings():
        b = Bench(facts, rep, ["integer_ring", "rational_field", "number_field", "arb", "arf"], HEADERS, drivers(), extra_code=PRE)
        b.run()

    def products():
        import C13
        l = C13.lab(facts, rep, ["real_number_product"], r"|RealNumber::operator\*\(|RealNumberProduct::operator/|^_ZZ.*RealNumberProduct|UniqueFactory.*::(hash|equal)\(|RealNumber::deglex")
        C13.products(l, Only(r"quotient"))

    def generic():
        import C13
        C13.algebra(facts, Only(r"quotient"))

    def elements(ring):
        import C18
        l = C18.lab(facts, rep)
        for j in C18.jobs(ring, rep.tier == "thorough"):
            if j.name.startswith(("truediv", "x /")):
                C18.judge(l, rep, ring, j)

    def remainder():
        import C11
        C11.floordiv(facts, rep, *C11.RINGS)
    common.parallel(facts, rep, [rings, products, generic, remainder] + [lambda r=r: elements(r) for r in ("IntegerRing", "RationalField", "NumberField")])
    rep.floor("drivers", rep.counts.get("drivers", 0), 30)
