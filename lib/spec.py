"""Obligations about small drivers: each driver is a function that does one
thing through the library's public interface and leaves the results in its
parameters.  Compiled together with the units of the tree and with everything
inlined, its summary is the summary of the code behind that interface."""
import concurrent.futures
import itertools
import multiprocessing
import re
import time

import catalog
import common
import interp
import vf
from vf import T, Int, leaves

DIVISION = re.compile(r"^__gmpz_([tfc]div|mod|divexact)|^__gmpq_(div|inv)$|operator/=|^fmpz_([tfc]div|mod|divexact)|^fmpq_(div|inv)")
KINDS = {"mpz_class *": "ptr", "Arf": "arf", "Arb": "arb", "mpz_class": "mpz", "mpq_class": "mpq", "eantic::renf_elem_class": "renf_elem",
         "bool": "raw1", "int": "raw4", "unsigned": "raw4", "long": "raw8", "unsigned long": "raw8", "long long": "raw8", "unsigned long long": "raw8",
         "double": "raw8", "unsigned char": "raw1", "size_t": "raw8", "short": "raw2", "unsigned short": "raw2"}

PRELUDE = """
#include <new>
#include <optional>
#include <string>
%s
using namespace exactreal;
namespace verif_driver {
static inline unsigned char tri(const std::optional<bool>& x) { return !x ? 2 : *x ? 1 : 0; }
"""


class Param:
    def __init__(self, decl):
        m = re.match(r"^(const )?(.*?)\s*(&&|&|\*)?\s*(\w+)$", decl.strip())
        self.const, self.type, self.ref, self.name = bool(m.group(1)), m.group(2), m.group(3), m.group(4)
        self.kind = KINDS.get(self.type)


class Driver:
    """new: parameters (T *x) in which the body constructs an object;
    out: name -> expected value, a term builder taking the input terms;
    oracle: name -> function of the input values giving the expected value;
    moved: parameters whose value may change (moved from), but must stay valid."""

    def __init__(self, name, params, body, out=None, oracle=None, new=(), moved=(), writes=(), dead=(), domains=None, may_throw=False, what="", pattern=None, throws=None, exception=None, tables=None):
        self.name, self.body = name, body
        self.params = [Param(p) for p in params.split(",") if p.strip()]
        self.decl = params
        self.out, self.oracle = out or {}, oracle or {}
        self.new, self.moved, self.writes, self.dead = set(new), set(moved), set(writes), set(dead)
        self.domains = domains or {}
        self.may_throw = may_throw or throws is not None
        # throws: values -> whether an exception must be raised for them
        self.throws, self.exception = throws, exception
        # (parameter, kind, offset) or "raises" -> (predicates, want): the fact
        # is compared with want(truth values of the predicates) in every row
        self.tables = tables or {}
        self.divisions = throws is not None
        self.what = what
        # name -> function of (leaf term, V): True, False or None with a reason
        self.pattern = pattern or {}

    def argument(self, name):
        return next(p for p in self.params if p.name == name)

    def code(self):
        return "void d_%s(%s) { %s }" % (self.name, self.decl, self.body)


class V:
    """the input terms of a driver's parameters"""

    def __init__(self, d, fn):
        self.terms = {}
        names = {a["name"]: k for k, a in enumerate(fn["args"])}
        self.index = {}
        for p in d.params:
            k = names[p.name]
            self.index[p.name] = k
            if p.ref:
                self.terms[p.name] = T("in", p.kind or "cxx", T("arg", k), 0)
            elif fn["args"][k]["ty"] == "i1":
                self.terms[p.name] = vf.atom(T("arg", k))
            elif fn["args"][k]["ty"] == "double":
                self.terms[p.name] = T("dbl", T("arg", k))
            else:
                self.terms[p.name] = T("arg", k)

    def __getattr__(self, n):
        return self.terms[n]


NUM = [interp.Fraction(n, d) for n, d in ((0, 1), (1, 1), (-1, 1), (3, 2), (-5, 2), (7, 4))] + [interp.Fraction(1 << 70), -interp.Fraction((1 << 70) + 1)]
DOM = {
    "arf": NUM + [interp.INF, -interp.INF],
    "mpz": [0, 1, -1, 2, 7, -7, (1 << 63), -(1 << 63) - 1, (1 << 70) + 3],
    "mpq": [interp.Fraction(n, d) for n, d in ((0, 1), (1, 2), (-1, 2), (3, 1), (-7, 3), ((1 << 70) + 1, 3))],
    "int": [0, 1, -1, 5, -8, 2147483647, -2147483648],
    "long": [0, 1, -1, 5, -8, (1 << 53) + 1, (1 << 31) + 7, (1 << 63) - 1, -(1 << 63)],
    "short": [0, 1, -1, 32767, -32768],
    "double": [interp.Fraction(n, d) for n, d in ((0, 1), (1, 2), (-3, 4), (5, 1))] + [interp.Fraction(float("0.1")), interp.INF],
    "bool": [0, 1],
}
DOM["long long"] = DOM["long"]
DOM["unsigned long"] = [0, 1, 5, (1 << 53) + 1, (1 << 63) + 9, (1 << 64) - 1]
DOM["unsigned long long"] = DOM["unsigned long"]
DOM["unsigned"] = [0, 1, 5, (1 << 31) + 3, (1 << 32) - 1]
DOM["unsigned short"] = [0, 1, 65535]
DOM["Arf::Round"] = [0, 1, 2, 3, 4]
DOM["prec"] = [64, 30, 2, (1 << 32) + 64, interp.EXACT]
B = interp.Ball
F = interp.Fraction
DOM["renf_elem"] = [F(0), F(1), F(-3, 2), F(7), interp.Alg(1393, 985), interp.Alg(-1393, 985)]
DOM["arb"] = [F(0), F(1), F(2), F(-3, 2), B(F(0), F(1)), B(F(1), F(1, 2)), B(F(3, 2), F(1, 2)), B(F(-2), F(1, 4)), B(F(0), interp.INF), B(F(1), F(4))]


def signed(ty, v):
    """machine representation as the term language has it"""
    bits = {"int": 32, "Arf::Round": 32, "unsigned": 32, "short": 16, "unsigned short": 16}.get(ty, 64)
    return interp.wrap(v, bits)


def models(d, fn, V_, limit=400, seed=1):
    doms = []
    for p in d.params:
        if p.name in d.new or p.name in d.writes and p.name not in d.domains and p.kind and p.kind.startswith("raw"):
            continue
        dom = d.domains.get(p.name) or DOM.get(p.kind if p.kind in DOM else p.type)
        if dom is None:
            continue
        doms.append((p, dom))
    total = 1
    for _, dm in doms:
        total *= len(dm)
    combos = itertools.product(*[dm for _, dm in doms])
    if total > limit:
        step = total // limit + 1
        # walk through all of them with a stride coprime to every domain size
        allc = []
        import random
        r = random.Random(seed)
        for _ in range(limit):
            allc.append(tuple(r.choice(dm) for _, dm in doms))
        combos = allc
    for c in combos:
        env, vals = {}, {}
        for (p, _), v in zip(doms, c):
            t = V_.terms[p.name]
            vals[p.name] = v
            k = V_.index[p.name]
            if p.ref:
                env[t] = signed(p.type, v) if p.kind and p.kind.startswith("raw") and isinstance(v, int) else v
            elif p.type == "double" or p.type == "float":
                env[T("arg", k)] = v
            elif p.type == "bool":
                env[T("arg", k)] = v
            else:
                env[T("arg", k)] = signed(p.type, v)
        for mag in (1, 2):
            m = interp.Model(env, mag)
            m.samefield = mag - 1
            yield m, vals


UNDECIDED_ERR = (interp.Unknown, ZeroDivisionError, OverflowError, TypeError, ValueError, KeyError, AttributeError)


CURRENT = None


def run_part(k):
    b, limit = CURRENT
    b.rep.obligations = []
    b.rep.counts = {}
    b.part(k, limit)
    return b.rep.obligations, b.rep.counts


class Bench:
    def __init__(self, facts, rep, units, includes, drivers, opaque=common.OPAQUE, extra_code="", chunk=48, extra=()):
        self.rep = rep
        self.cat = catalog.Catalog(common.BUILD)
        head = PRELUDE % "\n".join("#include <%s>" % i if not i.startswith('"') else "#include %s" % i for i in includes)
        head += extra_code + "\n"
        self.drivers = drivers
        n = max(1, min(8, (len(drivers) + chunk - 1) // chunk))
        parts = [drivers[k::n] for k in range(n)]
        text = lambda part: head + "\n".join(d.code() for d in part) + "\n}\n"
        try:
            bcs = facts.compile(list(units) + [("drivers%d" % k, text(part)) for k, part in enumerate(parts)], extra=extra)
        except common.Broken:
            facts.compile(list(units) + [("nodrivers", head + "}\n")], extra=extra)
            with concurrent.futures.ThreadPoolExecutor(8) as ex:
                bad = [k for k, r in enumerate(ex.map(lambda k: facts.syntax("part%d" % k, text(parts[k]), cxx="clang++"), range(n))) if not r[0]]
                single = [(k, d) for k in bad for d in parts[k]]
                for (k, d), (ok, err) in zip(single, ex.map(lambda kd: facts.syntax("one_" + kd[1].name, head + kd[1].code() + "\n}\n", cxx="clang++"), single)):
                    if not ok:
                        e = [l for l in err.splitlines() if "error" in l]
                        rep.ob(d.name + ":compiles", False, "%s does not compile: %s" % (d.what or d.body, (e or [err])[0]), (e or ["?"])[0].split(": ")[0])
                        parts[k] = [x for x in parts[k] if x is not d]
            bcs = facts.compile(list(units) + [("drivers%d" % k, text(part)) for k, part in enumerate(parts)], extra=extra)
        lib = bcs[:len(units)]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            datas = list(ex.map(lambda k: facts.lower(lib + [bcs[len(units) + k]], roots="^verif_driver::", name="drivers%d" % k, opaque=opaque), range(n)))
        self.globals, self.fns = {}, {}
        self.parts = parts
        self.partglobals = []
        for data in datas:
            g = {x["name"]: x for x in data["globals"]}
            self.partglobals.append(g)
            self.globals.update(g)
            for f in data["functions"]:
                self.fns[re.sub(r"^verif_driver::d_|\(.*$", "", f["dem"])] = f
        rep.count("library units", len(units))

    def summary(self, d):
        fn = self.fns.get(d.name)
        if fn is None:
            raise common.Unfamiliar("driver %s was not lowered" % d.name)
        v = V(d, fn)
        A = vf.Analysis(fn, self.cat, self.globals)
        self.cat.life = []
        for p in d.params:
            k = v.index[p.name]
            root = T("arg", k)
            if p.ref and p.kind in ("arf", "arb", "mpz", "mpq", "renf_elem") and p.name not in d.new:
                for kk, off in LIFE[p.kind]:
                    A.init_cells[("life:" + kk, root, off)] = T("live")
            if p.name in d.new:
                A.outroots.add(root)
        s = A.run()
        return fn, v, A, s

    def run(self, limit=500):
        if len(self.parts) == 1:
            self.part(0, limit)
            return
        global CURRENT
        CURRENT = (self, limit)
        with multiprocessing.get_context("fork").Pool(len(self.parts)) as pool:
            for obs, counts in pool.map(run_part, range(len(self.parts)), chunksize=1):
                self.rep.obligations += obs
                for k, v in counts.items():
                    self.rep.count(k, v)

    def part(self, k, limit):
        t0 = time.time()
        self.globals = self.partglobals[k]
        for d in self.parts[k]:
            if time.time() - t0 > limit:
                self.rep.ob(d.name, None, "out of time")
                continue
            try:
                self.one(d)
            except (vf.TooBig, RecursionError) as e:
                self.rep.ob(d.name, None, "summary too large: %r" % e)

    def place(self, s, fn):
        for e in s.events:
            w = common.where(e["ins"])
            if w.startswith("libexactreal"):
                return w
        return d_place(fn)

    def one(self, d):
        rep = self.rep
        fn, v, A, s = self.summary(d)
        place = self.place(s, fn)
        rep.count("instructions analysed", sum(len(b["ins"]) for b in fn["blocks"]))
        rep.count("drivers")
        rep.count("library calls seen", len(s.calls))
        what = d.what or d.body
        if s.mem is None:
            rep.ob(d.name + ":returns", False, "%s: never returns" % what, place)
            return
        if s.undecided:
            rep.ob(d.name, None, "; ".join(sorted(set(s.undecided))), place)
            return
        if not d.may_throw:
            ok = not s.throws
            if not ok:
                pcs = [common.where(t[1]) for t in s.throws]
                rep.ob(d.name + ":nothrow", False, "%s: can raise at %s" % (what, pcs), pcs[0])
        self.thrown = None
        if d.throws:
            self.raising(d, fn, v, s, place, what)
        for name, exp in d.out.items():
            got = self.final(A, s, d, v, name)
            want = exp(v) if callable(exp) else exp
            self.compare(d, fn, v, name, got, want, place, what)
        for name, f in d.oracle.items():
            got = self.final(A, s, d, v, name)
            self.against(d, fn, v, name, got, f, place, what)
        for name, f in d.pattern.items():
            got = self.final(A, s, d, v, name)
            verdicts = [f(x, v) for x in leaves(got)]
            bad = [r for r in verdicts if r[0] is False]
            und = [r for r in verdicts if r[0] is None]
            rep.ob(d.name + ":" + name, False if bad else None if und else True, "%s: %s = %r %s" % (what, name, got, (bad or und or verdicts)[0][1]), place)
        if d.divisions:
            self.divisions(d, fn, v, s, place, what)
        for name, (preds, want, *models) in d.tables.items():
            self.table(d, v, A, s, name, preds, want, place, what, models)
        self.frame(d, fn, v, A, s, place, what)
        self.life(d, fn, v, A, s, place, what)

    def raising(self, d, fn, v, s, place, what):
        """an exception is raised exactly when the specification says so"""
        got = vf.FALSE
        for pc, i in s.throws:
            got = vf.Or(got, pc)
        self.thrown = got
        key = d.name + ":raises"
        n = unknown = 0
        for m, vals in models(d, fn, v):
            want = bool(d.throws(**vals))
            try:
                x = bool(m(got))
            except UNDECIDED_ERR as e:
                unknown = repr(e)
                continue
            n += 1
            if x != want:
                w = [common.where(t[1]) for t in s.throws]
                self.rep.ob(key, False, "%s: %s for %s (raising under %r at %s)" % (what, "raises an exception" if x else "no exception is raised", vals, got, w), w[0] if w else place)
                return
        self.rep.ob(key, None if unknown or not n else True, "%s: raises iff %r; agrees on %d representatives %s" % (what, got, n, unknown or ""), place)
        if d.exception:
            names = set()
            for pc, i in s.throws:
                a = i["args"][1] if len(i.get("args", [])) > 1 else None
                names.add(a.get("name", "?") if a else "?")
            bad = [x for x in names if d.exception not in x]
            self.rep.ob(d.name + ":exception", not bad, "%s: raises %s, documented is %s" % (what, sorted(names), d.exception), place)

    def divisions(self, d, fn, v, s, place, what):
        """no division of the number libraries is reached with a zero divisor"""
        n = 0
        unknown = None
        for e in s.events:
            if not DIVISION.search(e["name"]) or not isinstance(e["extra"], list):
                continue
            div = e["extra"][-1]
            n += 1
            for m, vals in models(d, fn, v):
                try:
                    if m(e["pc"]) and interp.num(m(div)) == 0:
                        self.rep.ob(d.name + ":divisor", False, "%s: %s divides by %r, which is zero for %s, on the path %r" % (what, e["name"].split("(")[0], div, vals, e["pc"]), common.where(e["ins"]))
                        return
                except UNDECIDED_ERR as x:
                    unknown = repr(x)
        self.rep.ob(d.name + ":divisor", None if unknown else True, "%s: no zero divisor reaches its %d divisions %s" % (what, n, unknown or ""), place)
        self.rep.count("divisions of the number libraries", n)

    def table(self, d, v, A, s, name, preds, want, place, what, models=()):
        if name == "raises":
            got = vf.FALSE
            for pc, i in s.throws:
                got = vf.Or(got, pc)
            w = [common.where(t[1]) for t in s.throws]
            place = w[0] if w else place
        else:
            p, kind, off = name
            got = A.read(s.mem, kind, T("ptr", T("arg", v.index[p]), off))
        key = "%s:%s" % (d.name, name if isinstance(name, str) else name[0] + ":" + name[1])
        loose = False
        for row in itertools.product([False, True], repeat=len(preds)):
            row = dict(zip(preds, row))
            exp = want(row, v)
            if exp is None:
                continue
            exp = exp if isinstance(exp, (list, tuple, set)) else [exp]
            free = []

            def decide(a):
                for n, f in preds.items():
                    r = f(a)
                    if r is not None:
                        return row[n] if r else not row[n]
                free.append(a)
                return None
            for leaf in vf.evaluate(got, decide):
                if leaf in exp:
                    continue
                if free or not isinstance(leaf, T):
                    loose = True
                    continue
                self.rep.ob(key, False, "%s: %s is %r; in the case %s it is %r instead of %s" % (what, name, got, row, leaf, exp), place)
                return
        if loose and models:
            # the cases depend on something that the table does not know
            loose = False
            for label, m, exp in models[0](v):
                leaf = got
                try:
                    while isinstance(leaf, T) and leaf.op == "ite":
                        leaf = leaf.args[1] if m.holds(leaf.args[0]) else leaf.args[2]
                    if name == "raises":
                        leaf = vf.TRUE if m.holds(leaf) else vf.FALSE
                except UNDECIDED_ERR:
                    loose = True
                    continue
                if leaf not in exp:
                    if not isinstance(leaf, T):
                        loose = True
                        continue
                    self.rep.ob(key, False, "%s: %s is %r; for %s it is %r instead of %s" % (what, name, got, label, leaf, exp), place)
                    return
        self.rep.ob(key, None if loose else True, "%s: %s is %r: right in all %d cases" % (what, name, got, 1 << len(preds)), place)

    def skipped(self, m):
        """does this model end in an exception?"""
        if self.thrown is None:
            return False
        try:
            return bool(m(self.thrown))
        except UNDECIDED_ERR:
            return True

    def final(self, A, s, d, v, name):
        base, _, part = name.partition(".")
        p = next(p for p in d.params if p.name == base)
        root = T("arg", v.index[base])
        return A.read(s.mem, p.kind, T("ptr", root, int(part or 0)))

    def compare(self, d, fn, v, name, got, want, place, what):
        key = d.name + ":" + name
        if got is want:
            self.rep.ob(key, True, "%s: %s = %r" % (what, name, got), place)
            return
        decided = True
        n = 0
        for m, vals in models(d, fn, v):
            if self.skipped(m):
                continue
            try:
                x, y = m(got), m(want)
            except UNDECIDED_ERR as e:
                decided = False
                last = e
                continue
            n += 1
            if x != y:
                self.rep.ob(key, False, "%s: %s becomes %r where %r is required; they differ for %s: %r instead of %r" % (what, name, got, want, vals, x, y), place)
                return
        if decided and n:
            self.rep.ob(key, True, "%s: %s = %r, equal to %r on all %d representatives" % (what, name, got, want, n), place)
        else:
            self.rep.ob(key, None, "%s: %s = %r, not comparable with %r" % (what, name, got, want), place)

    def against(self, d, fn, v, name, got, f, place, what):
        key = d.name + ":" + name
        unknown, n = None, 0
        for m, vals in models(d, fn, v):
            if self.skipped(m):
                continue
            try:
                want = f(**vals)
            except interp.Unknown:
                continue
            try:
                x = m(got)
            except UNDECIDED_ERR as e:
                unknown = repr(e)
                continue
            n += 1
            if isinstance(want, interp.Ball):
                want = interp.simp(want)
            if x != want:
                self.rep.ob(key, False, "%s: %s = %r; for %s it is %r instead of %r" % (what, name, got, vals, x, want), place)
                return
        if unknown or not n:
            self.rep.ob(key, None, "%s: %s = %r not interpreted (%s)" % (what, name, got, unknown), place)
        else:
            self.rep.ob(key, True, "%s: %s = %r agrees on %d representatives" % (what, name, got, n), place)
            self.rep.count("representative cases", n)

    def frame(self, d, fn, v, A, s, place, what):
        """nothing but the declared outputs changes"""
        outs = {n.partition(".")[0] for n in list(d.out) + list(d.oracle) + list(d.pattern)} | d.new | d.moved | d.writes | d.dead
        roots = {T("arg", k): n for n, k in v.index.items()}
        bad = None
        for (kind, root, off), val in s.mem.cells.items():
            if kind.startswith("life:") or root not in roots or roots[root] in outs:
                continue
            init = T("in", kind, root, off)
            if val is init or val.op == "gone":
                continue
            # equal for all models?
            differs = None
            for m, vals in models(d, fn, v, limit=60):
                try:
                    x, y = m(val), m(init)
                except UNDECIDED_ERR:
                    continue
                if x != y:
                    differs = (vals, x, y)
                    break
            if differs:
                bad = (roots[root], kind, val, differs)
            else:
                self.rep.ob(d.name + ":frame", None, "%s: %s of %s becomes %r" % (what, kind, roots[root], val), place)
                return
        if bad:
            self.rep.ob(d.name + ":frame", False, "%s: the operand %s is changed to %r (%s)" % (what, bad[0], bad[2], bad[3]), place)
        else:
            self.rep.ob(d.name + ":frame", True, "%s: operands unchanged" % what, place)

    def life(self, d, fn, v, A, s, place, what):
        probs = [(common.where(i), msg, q) for (a, i, msg, q) in self.cat.life if a is A]
        # only problems of the last round of the analysis matter
        seen = []
        for w, msg, q in probs:
            if (w, msg) not in seen:
                seen.append((w, msg))
        leak = []
        dead = []
        for (kind, root, off), val in s.mem.cells.items():
            if not kind.startswith("life:"):
                continue
            ls = {l.op for l in leaves(val)}
            if root.op == "alloca" and "live" in ls:
                leak.append("%s in a local object" % kind[5:])
            if root.op == "arg":
                name = next((n for n, k in v.index.items() if k == root.args[0]), "?")
                if name in d.dead:
                    if "live" in ls:
                        leak.append("%s of %s" % (kind[5:], name))
                elif ls & {"dead", "moved"}:
                    dead.append("%s of %s is left %s" % (kind[5:], name, "/".join(sorted(ls))))
        for n in d.new:
            p = next(p for p in d.params if p.name == n)
            for kk, off in LIFE.get(p.kind, []):
                c = s.mem.cells.get(("life:" + kk, T("arg", v.index[n]), off))
                if c is None:
                    dead.append("%s %s is never initialised" % (kk, n))
        msgs = ["%s at %s" % (m, w) for w, m in seen] + ["never cleared: " + l for l in leak] + dead
        if msgs:
            self.rep.ob(d.name + ":life", False, "%s: %s" % (what, "; ".join(msgs[:4])), seen[0][0] if seen else place)
        else:
            self.rep.ob(d.name + ":life", True, "%s: every object initialised once and released once" % what, place)


LIFE = {"renf_elem": [("renf_elem_class", 0)], "arf": [("arf", 0)], "arb": [("arb", 0)], "mpz": [("mpz", 0)], "mpq": [("mpz", 0), ("mpz", 16)]}


def d_place(fn):
    return "%s:%s" % (fn.get("file", "?"), fn.get("line", "?"))
