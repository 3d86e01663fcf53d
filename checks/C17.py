"""Argument errors are reported in every build configuration."""
import itertools
import math
import os
import re
import sys

import common
import interp
import seq
import spec
import unroll
import vf
from vf import T, FALSE, TRUE
from world import Lab, chain, factory
import C12
import C18
from C18 import Elem, Mod, G, KIND, RINGS, KINDS, MPQ, MPZ, Free, Follow, Threw, PROBLEMS, Outside, elems, modules, num, thin, summary, compositum
from fractions import Fraction as F


def thrown(s):
    """[(condition, type, place)] of the exceptions a function raises"""
    out = []
    for pc, i in s.throws:
        a = i["args"][1] if len(i.get("args", [])) > 1 else {}
        out.append((pc, a.get("name", "?") if isinstance(a, dict) else "?", common.where(i)))
    return out


def decide(rep, key, s, cases, kind, make, place, follow=True, unless=None):
    """cases: (environment, text, whether the arguments are wrong: True, False, or None if that is not said)
    kind: the exceptions that may report it; unless: what may be returned instead of an exception"""
    if s.retpc is None or s.undecided and not getattr(s, "throws", None):
        rep.ob(key, None, "; ".join(map(str, s.undecided))[:200] or "never returns", place)
        return
    th = thrown(s)
    fl = Follow(s, 40, [s.retpc] + [pc for pc, *_ in th] + ([s.ret] if unless and s.ret is not None else [])) if follow else None
    bad = und = None
    n = 0
    for env, text, wrong in cases:
        m = make(dict(env))
        try:
            try:
                if fl:
                    fl.run(m)
                returns = m.holds(s.retpc) if fl else bool(m(s.retpc))
                got = None if returns else [(t, w) for pc, t, w in th if (m.holds(pc) if fl else m(pc))] or [("?", place)]
            except Threw as e:
                got = [("?", place)]
            except unroll.Endless:
                bad = ("it never ends for " + text, place)
                break
            except Outside as e:
                bad = ("%s for %s" % (e, text), place)
                break
            n += 1
            if wrong and not got and not (unless and unless(m, s, env)):
                bad = ("no error for " + text, place)
            elif wrong is False and got:
                bad = ("an exception for " + text, got[0][1])
            elif wrong and got and got[0][0] != "?" and not re.search(kind, got[0][0]):
                bad = ("%s instead of %s for %s" % (got[0][0], kind, text), got[0][1])
            if bad:
                break
        except PROBLEMS as e:
            und = "%s %s for %s" % (type(e).__name__, e, text)
            break
    rep.count("cases", n)
    rep.ob(key, False if bad else None if und or not n else True, bad[0] if bad else und or "an error exactly where the arguments are wrong, %d cases" % n, bad[1] if bad else (th[0][2] if th else place))


def judge(lab, rep, ring, name, pat, es, cases, kind, unless=None):
    key = "%s<%s>" % (name, ring)
    fs = [f for f in lab.find(r"^([^(]*[ &])?exactreal::Element<exactreal::%s>::%s" % (ring, pat), 0) if "'lambda'" not in f["dem"]]
    if len(fs) != 1:
        rep.ob(key, None, "not lowered" if not fs else "ambiguous")
        return
    A, s = summary(lab, fs[0], es)
    place = common.where(s.events[0]["ins"]) if s.events else None
    decide(rep, key, s, cases, kind, lambda env: Free(env, lab, ring, False), place, unless=unless)


def truth(m, s, env):
    """the answer of a comparison is right anyway"""
    v = {}
    for (q, e), c in env[T("x")].value().items():
        v[e] = v.get(e, 0) + q * F(c)
    q, e = env[T("arg", 1)]
    return bool(m(s.ret)) == ({k: c for k, c in v.items() if c} == {e: q})


def element(lab, rep, ring, thorough):
    x, y = T("x"), T("y")
    rs = RINGS[ring]
    one = list(elems(ring, modules(ring, G[:3], rs[:1])))
    zeros = [Elem(Mod(rs[0], b), (num(ring, 0, rs[0]),) * len(b)) for b in [(), G[:1], G[1:2], G[:3]]]
    div = [(a, z) for a in thin(one, 20) + zeros for z in zeros]
    # of the proper divisions only those that are quickly done matter: there is no error
    units = [Elem(Mod(rs[0], (G[0],)), (num(ring, 1, rs[0]),))]
    div += [(a, u) for a in thin(one, 10) for u in units]
    case = lambda a, b, w: ({x: a, y: b}, "%r and %r" % (a, b), w)
    judge(lab, rep, ring, "truediv", r"truediv\(", {1: "x", 2: "y"}, [case(a, b, not b.value()) for a, b in div], "invalid_argument")
    judge(lab, rep, ring, "floordiv", r"floordiv\(", {1: "x", 2: "y"}, [case(a, b, not b.value()) for a, b in div if not b.value()], "invalid_argument")
    targets = list(modules(ring, G, rs))
    pro = thin([(a, m) for a in one for m in targets if compositum(a.mod.ring, m.ring) == m.ring], 3000 if thorough else 500)
    judge(lab, rep, ring, "promote", r"promote\(", {0: "x"}, [({x: a, T("in", "raw8", T("arg", 1), 0): m}, "%r and the module %r" % (a, m), not set(a.value()) <= set(m.basis)) for a, m in pro], "invalid_argument")
    some = thin(one, 60)
    g = T("arg", 1)
    judge(lab, rep, ring, "operator==(RealNumber)", r"operator==\(exactreal::RealNumber", {0: "x"}, [({x: a, g: r}, "%r and the number %s" % (a, C18.gname(r)), bool(a.value()) and r not in a.mod.basis) for a in some for r in G + [(F(2), (0, 0)), (F(-2), (0, 0))]], "invalid_argument", unless=truth)
    kind = KIND[ring]
    pc = []
    for a in thin(one, 40):
        for k in range(5):
            c = tuple({(kind, 0): num(ring, j + 1, rs[0])} for j in range(k))
            pc.append(({T("in", "raw8", T("arg", 1), 0): a.mod, T("in", "vec", T("arg", 2), 0): c}, "%d coefficients over %r" % (k, a.mod), k != len(a.mod.basis)))
    judge(lab, rep, ring, "Element(module, coefficients)", r"Element\(std::shared_ptr", {}, pc, "invalid_argument|logic_error")


def modules_(facts, rep, ND, ring, thorough):
    """generators that are not independent, a 1 that is not there"""
    C19 = __import__("C19")
    l = C18.lab(facts, rep, r"([^(]*[ &])?" + C18.MO + C19.MEMBERS + r"\(", ("module",), extra=ND)
    layout = C19.places(l, rep, ring)
    gens = G[:3] + [(F(2), (0, 0)), C19.SQ[0]]
    lists = [b for n in range(4) for b in itertools.product(gens, repeat=n)]
    dependent = lambda b: len(set(b)) != len(b) or sum(not any(g[1]) for g in b) > 1
    R, vec = T("in", "cxx", T("arg", 2), 0), T("in", "vec", T("arg", 1), 0)
    place = None

    def one(lab, name, pat, cases, kind):
        fs = [f for f in lab.find(r"^([^(]*[ &])?exactreal::Module<exactreal::%s>::%s" % (ring, pat), 0) if "'lambda'" not in f["dem"]]
        if len(fs) != 1:
            rep.ob("%s<%s>" % (name, ring), None, "not lowered" if not fs else "ambiguous")
            return
        A, s = C19.summary(lab, fs[0])
        decide(rep, "%s<%s>" % (name, ring), s, cases, kind, lambda env: C19.Mods(env, lab, ring, False, layout), common.where(s.events[0]["ins"]) if s.events else None)
    rationals = [G[0], C19.HALF, (F(2), (0, 0)), (F(-1, 3), (0, 0)), (F(0), (0, 0)), (F(3, 2), (0, 0))]
    ones = [Mod(RINGS[ring][0], b + c) for n in range(3) for b in itertools.combinations(G[1:], n) for c in [()] + [(r,) for r in rationals]]

    def unity(m):
        rat = [q for q, e in m.basis if not any(e)]
        return not (rat and rat[0] and (ring != "IntegerRing" or (1 / rat[0]).denominator == 1))
    one(l, "one", r"one\(", [({T("arg", 1): m}, "%r" % m, unity(m)) for m in ones], "logic_error|invalid_argument")
    opq = C18.OPQ.replace(r"|^(?!.*'lambda')([^(]*[ &])?" + C18.MO, r"|^exactreal::RealNumberBase::|^exactreal::NumberField::")
    k = Lab(facts, rep, ["module"], r"^([^(]*[ &])?" + C18.MO + r"make\(", opaque=opq, extra=ND)
    k.Analysis = seq.Seq
    k.slots, k.comparator = l.slots, l.comparator
    cases = [({vec: tuple({("raw8", 0): g} for g in b), R: RINGS[ring][-1]}, "(%s)" % ", ".join(map(C18.gname, b)), dependent(b)) for b in lists]
    one(k, "make", r"make\(.*, exactreal::%s const&\)" % ring, cases, "logic_error|invalid_argument")


def real(facts, rep, ND):
    C13 = __import__("C13")
    l = C13.lab(facts, rep, ["real_number", "real_number_product", "rational_real_number"], r"|.*\w+::operator/\(exactreal::RealNumber const", ND)
    pool = C13.symbols()
    pool[F(0), (0,) * 3] = C13.Num((F(0), (0,) * 3), 2147483668, type="a rational")
    pool[F(3, 2), (0,) * 3] = C13.Num((F(3, 2), (0,) * 3), 2147483669, type="a rational")
    fs = [f for f in l.find(r"\w+::operator/\(exactreal::RealNumber const&\) const$", 0) if "'lambda" not in f["dem"]]
    rep.floor("divisions of real numbers", len(fs), 2)
    for f in fs:
        cls = re.search(r"(\w+)::operator/", f["dem"]).group(1)
        if "Product" in cls:
            xs = [C13.Num((F(1), e), 2147483700 + k, type="a product") for k, e in enumerate([(1, 1, 0), (2, 0, 0), (0, 1, 2)])]
        else:
            xs = list(pool.values())
        # quotients that are not zero may not be implemented
        cases = [({T("arg", 1): x, T("arg", 2): y}, "%r divided by %r" % (x, y), True if y.meaning[0] == 0 else None) for x in xs for y in pool.values() if y.meaning[0] == 0 or "Product" not in cls]
        A, s = C13.summary(l, f)
        decide(rep, cls + "::operator/", s, cases, "invalid_argument|logic_error", lambda env: C13.Objects(env, l, pool, False), common.where(f["blocks"][0]["ins"][-1]))


def rings(facts, rep, ND):
    """divisions, and requests to bring fields together that have nothing in common"""
    C09, C08 = __import__("C09"), __import__("C08")
    D = spec.Driver
    K = "const NumberField &K, "
    out = C09.drivers() + [
        D("K_coerce_other", K + "const eantic::renf_elem_class &x, eantic::renf_elem_class *r", "new (r) eantic::renf_elem_class(K.coerce(x));", new=["r"], may_throw=True,
          tables={"raises": ({"same field": C08.same(0, 1), "rational": lambda a: True if a.op == "is_rational" else None}, lambda w, v: FALSE if w["same field"] or w["rational"] else TRUE)}),
        D("K_compositum_other", K + "const NumberField &L, const eantic::renf_class **r", "NumberField M = NumberField::compositum(K, L); *r = M.parameters.get();", writes=["r"], may_throw=True,
          tables={"raises": (C08.COMPOSITUM, lambda w, v: FALSE if any(w.values()) else TRUE, C08.composita(True))})]
    b = spec.Bench(facts, rep, ["integer_ring", "rational_field", "number_field", "arb", "arf"], C08.HEADERS, out, extra_code=C08.PRE, extra=ND)
    b.run()


class Doubles(C12.Real):
    def arith(self, name, f, a, comm):
        # beside an infinite operand only the sign of the other one counts
        x, y = self(a[0]), self(a[1])
        if name.startswith("arf") and (isinstance(x, float) or isinstance(y, float)):
            if name == "arf_div":
                if not isinstance(x, float):
                    return F(0)
                if y == 0 or isinstance(y, float):
                    raise interp.Unknown("infinite quotient")
                return x if y > 0 else -x
            sign = lambda z: z if isinstance(z, float) else float((z > 0) - (z < 0))
            v = f(sign(x), sign(y))
            if v != v:
                raise interp.Unknown("not a number")
            return v
        return super().arith(name, f, a, comm)

    def op_arf_get_fmpz_2exp(self, i, x):
        # undefined for infinities, 0 as it is implemented
        return 0 if isinstance(self(x), float) else super().op_arf_get_fmpz_2exp(i, x)

    def op_fabs(self, x):
        return abs(self(x))

    def op_arf_is_finite(self, x):
        v = self(x)
        return int(v == v and abs(v) != interp.INF)

    def op___gmpz_fits_slong_p(self, x):
        return int(-2 ** 63 <= self(x) < 2 ** 63)

    def op_fpclass(self, x, m):
        v = self(x)
        return int(bool(self(m) & 3)) if v != v else super().op_fpclass(x, m)

    def op_nextafter(self, x, y):
        return F2(math.nextafter(float(self(x)), float(self(y))))


def F2(x):
    return F(x) if math.isfinite(x) else x


def intervals(facts, rep, ND):
    """random numbers in an interval that is none, or close to no number"""
    l = Lab(facts, rep, ["constrained_random_real_number", "arf"], r"^exactreal::RealNumber::random\((exactreal::Arf|double)" + ("" if ND else r".*Seed\)"), extra=ND)
    vals = [F(-7, 4), F(-1), F(0), F(1, 1 << 80), F(1), F(2), F(1 << 90), interp.INF, -interp.INF]
    rep.floor("ways to ask for an interval", len(l.fns), 4 if ND else 2)
    m = sys.float_info.max
    xs = [0.0, -0.0, 1.0, -1.0, 0.1, 5e-324, -5e-324, 2.0 ** -1022, 2.0 ** 60, 1e308, m, -m, math.inf, -math.inf, math.nan]
    for f in l.fns:
        dem = f["dem"]
        if "$_" in dem or "'lambda" in dem:
            continue
        key = "random(%s)" % dem.split("random(")[1].replace("exactreal::", "").rstrip(")")
        A, s = l.run(f)
        place = common.where(f["blocks"][0]["ins"][-1])
        if "double" in dem:
            cases = [({T("arg", 1): F2(x)}, repr(x), not math.isfinite(x)) for x in xs]
        else:
            cases = [({T("in", "arf", T("arg", 1), 0): a, T("in", "arf", T("arg", 2), 0): b}, "%s and %s" % (a, b), not a < b or interp.INF in (abs(a), abs(b))) for a in vals for b in vals]
            # exponents that do not fit a machine word
            for k in (1, 2):
                x = T("in", "arf", T("arg", k), 0)
                a, b = (F(1, 1 << 80), F(1)) if k == 1 else (F(1), F(1 << 80))
                cases.append(({T("in", "arf", T("arg", 1), 0): a, T("in", "arf", T("arg", 2), 0): b, T("arf_get_fmpz_2exp", 1, x): (-1) ** k * 2 ** 65}, "a %s endpoint" % ("tiny" if k == 1 else "huge"), True))
        decide(rep, key, s, cases, "logic_error|invalid_argument", Doubles, place, follow=False)


class Sizes(interp.Model):
    def op_vsize(self, c):
        return self.env[c]


def archives(facts, rep, ND):
    """texts in an archive that are no number, coefficients that are no element's"""
    C16 = __import__("C16")
    l = Lab(facts, rep, [], r"verif_driver::load_", code=C16.CODE, includes=C16.INCLUDES, opaque=C16.OPQ + r"|exactreal::RealNumber::(save|load)\(", extra=ND)
    l.Analysis = seq.Seq
    tail = (C16.nulls, unroll.refcounts, C16.strings, C16.casts, *seq.HOOKS, factory)
    for k in ("Arf", "Arb"):
        A, s = l.run(l.driver("load_" + k), on_call=chain(C16.bridge(C16.Ledger(), "load"), *tail), ledger=C16.Ledger())
        ok = C16.settled(s.retpc)
        err = {x for a in vf.atoms(ok) for x in vf.walk(a) if x.op == "parse error"}
        th = thrown(s)
        bad = None
        for pc, t, w in th:
            if not re.search("logic_error|invalid_argument|runtime_error", t):
                bad = "it raises " + t
        asked = [i for n, i in s.calls if n and n.endswith("_load_str")]
        if len(err) == 1 and not bad:
            for v in (0, 1, -1):
                got = bool(interp.Model({next(iter(err)): v})(ok))
                if got != (v == 0):
                    bad = "a text that is no number is accepted" if got else "a number is rejected"
        elif not err and asked:
            bad = "whether the text is a number is never asked"
        rep.ob("archive of " + k, False if bad else None if s.undecided or len(err) != 1 else True, bad or "; ".join(s.undecided)[:200] or "an error iff the text cannot be parsed", th[0][2] if th else common.where(asked[0]) if asked else "")
    for R in KIND:
        A, s = l.run(l.driver("load_Element_" + R), on_call=chain(C16.bridge(C16.Ledger(), "load"), *tail), ledger=C16.Ledger())
        ok = C16.settled(s.retpc)
        vecs = {x.args[0] for a in vf.atoms(ok) for x in vf.walk(a) if x.op == "vsize"}
        th = thrown(s)
        bad, und = None, s.undecided or len(vecs) != 2
        if not vecs and not s.undecided:
            bad = "the number of coefficients does not matter"
        elif not und:
            a, b = sorted(vecs, key=repr)
            try:
                for i, j in itertools.product(range(5), repeat=2):
                    if bool(Sizes({a: i, b: j})(ok)) != (i == j):
                        bad = "%d and %d of generators and coefficients are %s" % (i, j, "accepted" if i != j else "rejected")
            except PROBLEMS as e:
                und = "%s %s" % (type(e).__name__, e)
        rep.ob("archive of Element<%s>" % R, False if bad else None if und else True, bad or str(und) if und else bad or "an error iff the numbers differ", th[0][2] if th else "")


class First(seq.Seq):
    """before the statics of functions are initialised"""

    def read(self, mem, kind, p, *a):
        if p.op == "ptr" and p.args[0].op == "global" and p.args[0].args[0].startswith("_ZGV"):
            return vf.Int(0, 8)
        return super().read(mem, kind, p, *a)


class Env(interp.Model):
    """which variables are set, to something that is not one of the words that mean no"""

    def __init__(self, isset, word):
        super().__init__({})
        self.isset, self.word = isset, word

    def op_eq(self, a, b):
        for x, y in ((a, b), (b, a)):
            if y.op == "null" and x.op == "env":
                n = x.args[0]
                if n.op != "text":
                    raise interp.Unknown("a variable without name")
                return n.args[0] not in self.isset
        raise interp.Unknown("eq of %s and %s" % (a.op, b.op))

    def op_same(self, a, b):
        return self.word

    def op_callret(self, name, *a):
        if "iequals" in str(name):
            return self.word
        raise interp.Unknown("result of %s" % name)


CHECKS, ASSERTS = "LIBEXACTREAL_NOCHECK", "LIBEXACTREAL_NOASSERT"


def switch(facts, rep, extra):
    """only the documented variables turn checks off, and NOASSERT does not turn checks off"""
    C16 = __import__("C16")
    l = Lab(facts, rep, [], r"^verif_driver::", code="bool checks() { return nocheck(); } bool asserts() { return noassert(); }", includes=['"src/util/assert.ipp"'], opaque=r"^([^(<]*[ :*&])?(std::|boost::)", extra=extra)
    l.Analysis = First

    def start(A, name, dem, i, args, mem):
        if name == "__cxa_guard_acquire":
            return vf.Int(1, 32)
        if name in ("getenv", "secure_getenv"):
            return vf.lift(lambda p: T("env", C16.text(A, mem, p)), args[0])
        return NotImplemented
    for n, off in (("checks", {CHECKS}), ("asserts", {CHECKS, ASSERTS})):
        A, s = l.run(l.driver(n), on_call=chain(start, C16.strings, *seq.HOOKS))
        bad = und = None
        for k in range(3):
            for isset in itertools.combinations((CHECKS, ASSERTS), k):
                for word in (False, True):
                    try:
                        got = bool(Env(set(isset), word)(s.ret))
                    except PROBLEMS as e:
                        und = und or "%s %s" % (type(e).__name__, e)
                        continue
                    if got and (word or not off & set(isset)):
                        bad = "they are off with %s set%s" % (" and ".join(isset) or "nothing", " to no" if word and isset else "")
        rep.ob("switch of " + n, False if bad else None if und or s.undecided else True, bad or "; ".join(map(str, s.undecided))[:200] or und or "on unless %s is set" % " or ".join(sorted(off)), "libexactreal/src/util/assert.ipp")


def effects(facts, rep, unit):
    import asserts
    n = 0
    for (place, kind), v in sorted(asserts.analyse(facts, unit).items()):
        if v is None:
            # only templates without instances here
            continue
        bad, und, k = v
        n += 1
        rep.ob("%s at %s in %s" % (kind, place, unit), False if bad else None if und else True, ("when it is evaluated, " + "; ".join(sorted(set(bad)))[:300]) if bad else "; ".join(sorted(set(map(str, und))))[:300] or "evaluating it changes nothing", place)
    return n


class Build:
    """the report of one build configuration"""

    def __init__(self, rep, name):
        self.rep, self.name = rep, name

    def ob(self, key, *a):
        self.rep.ob("%s: %s" % (self.name, key), *a)

    def floor(self, what, n, least):
        self.rep.floor("%s: %s" % (self.name, what), n, least)

    def __getattr__(self, k):
        return getattr(self.rep, k)


BUILDS = {"release": ["-DNDEBUG"], "debug": []}


def run(facts, rep):
    rep.explanation = "in both builds the conditions under which a function raises are compared with the arguments it must not accept"
    thorough = rep.tier == "thorough"
    jobs = []
    for n, x in BUILDS.items():
        facts.compile(["element", "module", "real_number", "real_number_product", "rational_real_number"], extra=x)

        def part(ring, n=n, x=x):
            b = Build(rep, n)
            element(C18.lab(facts, b, extra=x), b, ring, thorough)
            modules_(facts, b, x, ring, thorough)
        jobs += [lambda r=r, p=part: p(r) for r in KIND] + [lambda f=f, n=n, x=x: f(facts, Build(rep, n), x) for f in (real, rings, intervals, archives, switch)]
    units = sorted(f[:-3] for f in os.listdir(os.path.join(common.LIB, "src")) if f.endswith(".cc"))
    jobs += [lambda u=u: effects(facts, rep, u) for u in units]
    common.parallel(facts, rep, jobs)
