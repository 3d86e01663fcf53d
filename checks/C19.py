"""Module bases are canonical and spans contain both operands."""
import itertools
from fractions import Fraction as F

from world import *
from interp import Unknown
import seq
import unroll
import C18
from C18 import Mod, Elem, Free, Follow, Threw, Outside, Lost, G, RINGS, DEFAULT, PROBLEMS, REF, chain, order, compositum, thin, elems, modules

MEMBERS = r"(make|span|submodule|gen|zero|one|rank|basis|ring|operator==)"
HALF, TWO = (F(1, 2), (0, 0)), (F(2), (0, 0))
SQ = [(F(1), (2, 0)), (F(1), (0, 2))]


class Mods(Free):
    """also models what is inside a module"""

    def __init__(self, env, lab, ring, flip=False, layout=None):
        super().__init__(env, lab, ring, flip)
        self.layout = layout

    def op_in(self, kind, root, off):
        try:
            m = self.target(root)
        except Unknown:
            m = None
        if isinstance(m, Mod) and self.layout:
            if kind == "raw8" and off == self.layout["impl"]:
                return ("impl", m)
            if kind == "cxx" and off == 0:
                return m
            if kind == "raw8" and off == 0:
                return m
            if kind == "raw8" and off == 8:
                return ("&", T("owner"), 0)
        if isinstance(m, tuple) and len(m) == 2 and m[0] == "impl":
            if kind == "vec" and off == self.layout["basis"]:
                return tuple({("raw8", 0): g} for g in m[1].basis)
            if kind == "cxx" and off == self.layout["ring"]:
                return m[1].ring
        if kind == "cxx" and root.op == "global":
            return ("the ring in", root.args[0])
        return super().op_in(kind, root, off)

    def op_ptr(self, b, o):
        if o == 0 and b.op == "arg" and isinstance(self.env.get(b), Mod):
            return self.env[b]
        return super().op_ptr(b, o)

    def op_qdiv(self, x, y):
        if self(y) == 0:
            raise Outside("a division by zero")
        return super().op_qdiv(x, y)

    def op_found(self, *a):
        return 0

    def op_submodule(self, a, b):
        a, b = self.target(a), self.target(b)
        if not isinstance(a, Mod) or not isinstance(b, Mod):
            raise Unknown("not a module")
        return int(set(a.basis) <= set(b.basis))


def places(lab, rep, ring):
    """where a module keeps its parts, from its accessors"""
    out = {}
    for what in ("basis", "ring"):
        fs = lab.find(r"^([^(]*[ &])?exactreal::Module<exactreal::%s>::%s\(\) const" % (ring, what), 0)
        if len(fs) != 1:
            return None
        A, s = summary(lab, fs[0])
        r = s.ret
        if r is None or r.op != "ptr" or r.args[0].op != "in" or r.args[0].args[:2] != ("raw8", T("arg", 0)) or s.undecided:
            return None
        out[what] = r.args[1]
        if out.setdefault("impl", r.args[0].args[2]) != r.args[0].args[2]:
            return None
    return out


def summary(lab, f, cells=()):
    return lab.run(f, slots=lab.slots, on_call=chain(C18.hook, unroll.refcounts, *seq.HOOKS, factory), init_cells=dict(cells))


def judge(lab, rep, ring, name, pat, cases, outs, check, layout, pre=None):
    """cases: (environment, text, arguments); outs(A, s) -> terms; check(values, *arguments) -> complaint"""
    key = "%s<%s>" % (name, ring)
    fs = [f for f in lab.find(r"^([^(]*[ &])?exactreal::Module<exactreal::%s>::%s" % (ring, pat), 0) if "'lambda'" not in f["dem"]]
    if len(fs) != 1:
        rep.ob(key, None, "not lowered" if not fs else "ambiguous")
        return
    A, s = summary(lab, fs[0])
    place = common.where(s.events[0]["ins"]) if s.events else None
    if s.undecided or s.mem is None:
        rep.ob(key, None, "; ".join(map(str, s.undecided))[:200] or "never returns", place)
        return
    terms = outs(A, s)
    if terms is None:
        rep.ob(key, None, "its result is not understood", place)
        return
    fl = Follow(s, 60, [t for t in terms if isinstance(t, T)] + [s.retpc])
    bad = und = None
    n = 0
    for env, text, args in cases:
        m = Mods(env, lab, ring, False, layout)
        try:
            try:
                fl.run(m)
                if not m.holds(s.retpc):
                    raise Threw("an exception")
                got = [m(t) if isinstance(t, T) else t for t in terms]
                got = [g[1] if isinstance(g, tuple) and len(g) == 2 and g[0] is REF else g for g in got]
            except Threw as e:
                got = e
            except unroll.Endless:
                bad = "it never ends for " + text
                break
            except Outside as e:
                bad = "%s for %s" % (e, text)
                break
            n += 1
            w = check(got, *args)
            if w:
                bad = "%s for %s" % (w, text)
                break
        except PROBLEMS as e:
            und = "%s %s for %s" % (type(e).__name__, e, text)
            break
    rep.count("cases", n)
    rep.ob(key, False if bad else None if und or not n else True, bad or und or "right for all %d cases" % n, place)


def threw(g):
    return isinstance(g, Threw)


def span(got, a, b):
    if threw(got):
        return "an exception (%s)" % got
    m = got[0]
    if not isinstance(m, Mod):
        raise Unknown("not a module: %r" % (m,))
    if set(m.basis) != set(a.basis) | set(b.basis):
        return "the module %r" % m
    want = {compositum(a.ring, b.ring)} if a.basis and b.basis else {a.ring, b.ring}
    if m.ring not in want or any(x.basis and compositum(m.ring, x.ring) != m.ring for x in (a, b)):
        return "coefficients in %s instead of %s" % (m.ring, "/".join(sorted(want)))


def at(k):
    return T("in", "raw8", T("arg", k), 0)


def members(lab, rep, ring, thorough):
    layout = places(lab, rep, ring)
    rep.ob("accessors<%s>" % ring, True if layout else None, "basis and ring return references into the module" if layout else "basis() and ring() are not plain accessors")
    gens = G + ([] if not thorough else SQ)
    ms = list(modules(ring, gens, RINGS[ring]))
    pairs = [({at(1): a, at(2): b}, "%r and %r" % (a, b), (a, b)) for a, b in thin([(a, b) for a in ms for b in ms], 4000 if thorough else 700)]
    ret = lambda A, s: [A.read(s.mem, "raw8", T("arg", 0))]
    lists = [b for n in range(3) for b in itertools.permutations(G, n)]

    def made(g, b):
        if threw(g) or not isinstance(g[0], Mod):
            return "no module: %r" % (g,)
        return None if set(g[0].basis) == set(b) and g[0].ring == DEFAULT[ring] else "%r over %s" % (g[0], g[0].ring)
    judge(lab, rep, ring, "make(generators)", r"make\((?!.*exactreal::%s const&\)$)" % ring, [({T("in", "vec", T("arg", 1), 0): tuple({("raw8", 0): g} for g in b)}, "(%s)" % ", ".join(map(C18.gname, b)), (b,)) for b in lists], ret, made, layout)
    judge(lab, rep, ring, "span", r"span\(", pairs, ret, span, layout)
    one = [a for a in ms if a.ring == RINGS[ring][0]]
    sub = [({T("arg", 0): a, T("arg", 1): b}, "%r and %r" % (a, b), (a, b)) for a in one for b in one]
    judge(lab, rep, ring, "submodule", r"submodule\(", sub, lambda A, s: [s.ret], lambda g, a, b: "an exception" if threw(g) else None if bool(g[0]) == (set(a.basis) <= set(b.basis)) else "the answer %s" % bool(g[0]), layout)
    judge(lab, rep, ring, "operator==", r"operator==\(", sub, lambda A, s: [s.ret], lambda g, a, b: None if not threw(g) and bool(g[0]) == (a is b) else "a wrong answer", layout)
    el = lambda A, s: [C18.elem(A, s.mem, T("arg", 0))]

    def isgen(g, m, j):
        if threw(g):
            return "an exception"
        want = tuple(int(k == j) for k in range(len(m.basis)))
        return None if g[0].mod is m and g[0].coefs == want else "%r" % g[0]
    judge(lab, rep, ring, "gen", r"gen\(", [({T("arg", 1): m, T("arg", 2): j}, "%r and %d" % (m, j), (m, j)) for m in ms for j in range(len(m.basis))], el, isgen, layout)
    judge(lab, rep, ring, "zero", r"zero\(", [({T("arg", 1): m}, "%r" % m, (m,)) for m in ms], el, lambda g, m: None if not threw(g) and g[0].mod is m and len(g[0].coefs) == len(m.basis) and not any(g[0].coefs) else "%r" % (g,), layout)
    judge(lab, rep, ring, "rank", r"rank\(", [({T("arg", 0): m}, "%r" % m, (m,)) for m in ms], lambda A, s: [s.ret], lambda g, m: None if not threw(g) and g[0] == len(m.basis) else "%r" % (g,), layout)

    def isone(g, m):
        rat = [q for q, e in m.basis if not any(e)]
        can = rat and rat[0] and (ring != "IntegerRing" or (1 / rat[0]).denominator == 1)
        if threw(g):
            return "an exception although there is a 1" if can else None
        if not can:
            return "%r although there is no 1" % g[0]
        return None if g[0].mod is m and {k: F(c) for k, c in g[0].value().items()} == {(rat[0], (0, 0)): 1 / rat[0]} else "%r" % g[0]
    rationals = [G[0], HALF, TWO, (F(-1, 3), (0, 0)), (F(-1), (0, 0)), (F(0), (0, 0)), (F(3, 2), (0, 0))]
    ones = [Mod(RINGS[ring][0], b + c) for n in range(3) for b in itertools.combinations(G[1:], n) for c in [()] + [(r,) for r in rationals]]
    judge(lab, rep, ring, "one", r"one\(", [({T("arg", 1): m}, "%r" % m, (m,)) for m in ones], el, isone, layout)
    return layout


def makes(lab, rep, ring, layout, thorough):
    """make(basis, ring): what is looked up, what is created"""
    vec = T("in", "vec", T("arg", 1), 0)
    gens = G[:3] + [TWO, SQ[0]]
    lists = [b for n in range(5 if thorough else 4) for b in itertools.product(gens, repeat=n)]
    lists += [p for c in itertools.combinations(G + SQ, 4) for p in itertools.permutations(c)]
    R = T("in", "cxx", T("arg", 2), 0)
    known = {}

    def outs(A, s):
        reg = [e for e in s.events if e["name"] == "register"]
        look = [e for e in s.events if e["name"] == "lookup"]
        if len(reg) != 1 or len(look) != 1 or layout is None:
            return None
        key, obj, mem = reg[0]["extra"]
        impl = A.read(mem, "raw8", seq.shift(obj, layout["impl"]))
        k = look[0]["extra"]
        known["key"] = [v for (kind, _), v in sorted(k.items()) if kind == "vec"]
        rings = [v for (kind, _), v in sorted(k.items()) if kind == "cxx"]
        if len(known["key"]) != 1 or len(rings) > 1 or ring == "NumberField" and len(rings) != 1:
            return None
        return [A.read(s.mem, "raw8", T("arg", 0)), A.read(mem, "vec", seq.shift(impl, layout["basis"])), A.read(mem, "cxx", seq.shift(impl, layout["ring"])), known["key"][0], rings[0] if rings else None, reg[0]["pc"], obj]

    def check(got, b, r):
        dependent = len(set(b)) != len(b) or sum(not any(g[1]) for g in b) > 1
        if threw(got):
            return None if dependent else "an exception (%s)" % got
        if dependent:
            return "no error for dependent generators"
        ret, vec, rg, ids, kr, registered, obj = got
        want = sorted(b, key=order)
        have = [next(iter(x.values())) for x in vec]
        if have != want:
            return "the generators %s" % ", ".join(map(C18.gname, have))
        if ring == "NumberField" and rg != r:
            return "coefficients in %s instead of %s" % (rg, r)
        have = [next(iter(x.values())) for x in ids]
        if have != [C18.Free.op_idof(Plain(), g) for g in want]:
            return "looked up by something else than the ids of the sorted generators"
        if kr is not None and kr != r:
            return "looked up with the ring %s instead of %s" % (kr, r)
        if not registered:
            return "not registered"
        if ret != obj:
            return "another object is returned than the one registered"

    class Plain:
        def target(self, g):
            return g
    cases = []
    for b in lists:
        for r in RINGS[ring][1:2] or RINGS[ring]:
            cases.append(({vec: tuple({("raw8", 0): g} for g in b), R: r}, "(%s)" % ", ".join(map(C18.gname, b)), (b, r)))
    judge(lab, rep, ring, "make", r"make\(.*, exactreal::%s const&\)" % ring, cases, outs, check, layout)


def run(facts, rep):
    rep.explanation = "the members of Module are summarised and evaluated in models of modules over five generators"

    def part(ring):
        l = C18.lab(facts, rep, r"([^(]*[ &])?" + C18.MO + MEMBERS + r"\(", ("module",))
        layout = members(l, rep, ring, rep.tier == "thorough")
        opq = C18.OPQ.replace(r"|^(?!.*'lambda')([^(]*[ &])?" + C18.MO, r"|^exactreal::RealNumberBase::|^exactreal::NumberField::")
        k = Lab(facts, rep, ["module"], r"^([^(]*[ &])?" + C18.MO + r"make\(", opaque=opq, extra=["-DNDEBUG"])
        k.Analysis = seq.Seq
        k.slots, k.comparator = l.slots, l.comparator
        makes(k, rep, ring, layout, rep.tier == "thorough")
    facts.compile(["module"], extra=["-DNDEBUG"])
    common.parallel(facts, rep, [lambda r=r: part(r) for r in RINGS])
