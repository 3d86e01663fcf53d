"""Digits of random numbers never change, cached approximations answer only
requests they are good enough for."""
from world import *
from unroll import loopterm
import interp
import text
import unroll
from fractions import Fraction as F

HEADERS = ["exact-real/arf.hpp", "exact-real/real_number.hpp", "exact-real/seed.hpp"]
ARITH = {"slt", "ult", "eq", "lin", "int", "smax", "smin", "umax", "umin", "sext", "zext", "trunc", "udiv", "sdiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor", "mul", "add", "not", "ite", "u"}


def over(t, bases):
    """is t an arithmetic expression over the given terms alone?"""
    stack = [t]
    while stack:
        x = stack.pop()
        if x in bases:
            continue
        if x.op not in ARITH:
            return False
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)
            elif isinstance(a, tuple):
                stack += [b for b in vf.walk(T("tup", a)) if b.op not in ("tup",) and not b.args] + [y for p in a if isinstance(p, tuple) for y in p if isinstance(y, T)]
    return True


def constants(*ts):
    out = set()
    for t in ts:
        for x in vf.walk(t):
            if x.op == "int":
                out.add(x.args[0])
            if x.op == "lin":
                out.add(-x.args[0])
                out.add(x.args[0])
    return out


def grid(ts, extra=()):
    """representatives of every region a comparison with one of the constants in ts can single out"""
    cs = constants(*ts) | set(extra) | {0}
    out = set()
    for c in cs:
        if abs(c) < 1 << 40:
            out |= {c - 2, c - 1, c, c + 1, c + 2}
    return sorted(out | {-1000, 1000, 5000, 1 << 41})


def satisfiable(g, env):
    """can g be true when the terms in env have the given values and all else is free?"""
    m = interp.Model(env)
    bases = set(env)

    def decide(a):
        if over(a, bases):
            try:
                return bool(m(a))
            except Exception:
                return None
        return None
    return any(not vf.isint(l, 0) for l in vf.evaluate(g, decide))


def param(f, name=None):
    """the index of the precision parameter of f(result, this, prec)"""
    return len(f["args"]) - 1


def caching(facts, rep):
    lab = Lab(facts, rep, ["real_number", "real_number_base", "arf"], r"::RealNumberBase::arf\(|^exactreal::RealNumberBase::RealNumberBase\(", "", HEADERS)
    f = lab.find(r"::RealNumberBase::arf\(")[0]
    A, s = lab.run(f, on_call=chain(maps("arf", None), virtual_arf()))
    key = "cache"
    place = common.where(f["blocks"][0]["ins"][-1])
    if s.undecided or s.mem is None:
        rep.ob(key, None, "; ".join(map(str, s.undecided)) or "never returns", place)
        return
    this, prec = T("arg", 1), T("arg", 2)
    stored = {}
    for (k, root, off), v in s.mem.cells.items():
        if k != "arf" or root.op in ("alloca",) or root is T("arg", 0):
            continue
        init = T("in", k, root, off)
        for g, l in relevant(v, s.retpc):
            if l is not init and l.op not in ("undef", "gone"):
                stored.setdefault((root, off), []).append((g, l))
    for (root, off), ws in stored.items():
        name = describe(root, off)
        shared = any(x.op == "global" for x in vf.walk(root)) and not mentions(root, this)
        w = place_of(s, root)
        rep.ob("cell %s:owner" % name, not shared, "approximations are stored in %s%s" % (name, ", which all numbers share" if shared else ""), w or place)
        for g, l in ws:
            ok = l.op == "digits" and l.args[0] is T("ptr", this, 0)
            rep.ob("cell %s:value" % name, True if ok else None if not (l.op == "digits") else False, "%s is filled with %r" % (name, l), w or place)
    slots = {}
    for (root, off), ws in stored.items():
        if root.op == "slot":
            slots.setdefault((root.args[0], root.args[1], off), []).extend((g, root.args[2], l) for g, l in ws)
    ret = A.read(s.mem, "arf", T("ptr", T("arg", 0), 0))
    pts = grid([x for x in vf.walk(ret) if isinstance(x, T)], [54, 64, 128])
    for g, l in relevant(ret, s.retpc):
        if l.op == "digits":
            if l.args[0] is not T("ptr", this, 0):
                rep.ob("answer:number", None, "the answer is %r" % l, place)
                continue
            enough(rep, "answer:computed", g, l.args[1], prec, pts, "computes %r" % l, place)
            continue
        if l.op == "in" and l.args[0] == "arf":
            root, off = l.args[1:]
            name = describe(root, off)
            if root.op == "slot":
                absent = [a for a in vf.atoms(g) if (a.op == "eq" and T("ptr", root, 0) in a.args and any(b.op == "ptr" and b.args[0].op == "end" for b in a.args)) or (a.op == "absent" and a.args[0] is root)]
                unknown = not absent
                ok = any(And(g, atomtrue(a)) is FALSE for a in absent)
                rep.ob("answer %s:present" % name, True if ok else None if absent or any(mentions(a, root) for a in vf.atoms(g)) else False, "%s is returned %s" % (name, "only when the entry exists" if ok else "without checking that the entry exists"), place)
                fills = slots.get((root.args[0], root.args[1], off), [])
                if not fills:
                    rep.ob("answer %s:filled" % name, None, "nothing fills it", place)
                    continue
                # an entry for key k holds digits(q(k)) with q(k) >= k
                good = True
                for h, k, v in fills:
                    if v.op != "digits":
                        good = None
                        continue
                    bad = [(p) for p in pts if satisfiable(h, {prec: p}) and value(v.args[1], prec, p) is not None and value(k, prec, p) is not None and value(v.args[1], prec, p) < value(k, prec, p)]
                    if bad:
                        rep.ob("answer %s:filled" % name, False, "a request for %d digits stores only %s digits under the key %s" % (bad[0], value(v.args[1], prec, bad[0]), value(k, prec, bad[0])), place)
                        good = False
                    elif not over(v.args[1], {prec}) or not over(k, {prec}):
                        good = None
                if good is not False:
                    rep.ob("answer %s:filled" % name, good, "entries hold at least as many digits as their key", place)
                enough(rep, "answer %s:precise" % name, g, root.args[2], prec, pts, "is answered from the entry for %r digits" % root.args[2], place)
                continue
            fills = stored.get((root, off), [])
            if not fills:
                rep.ob("answer %s:filled" % name, None, "returned but never filled", place)
                continue
            flags = [a for a in vf.atoms(g) if any(x.op == "in" and x.args[0] == "raw1" and x.args[1] is root for x in vf.walk(a))]
            checked = any(And(g, Not(atomtrue(a))) is FALSE or And(g, atomtrue(a)) is FALSE for a in flags)
            rep.ob("answer %s:present" % name, True if checked else None if flags or any(mentions(a, root) for a in vf.atoms(g)) else False, "%s is returned %s" % (name, "only when it is set" if checked else "without checking that it is set"), place)
            for h, v in fills:
                if v.op != "digits":
                    continue
                q = v.args[1]
                if vf.isint(q):
                    enough(rep, "answer %s:precise" % name, g, q, prec, pts, "is answered from a cache of %r digits" % q, place)
                else:
                    # filled by a request of one precision, read by one of another
                    other = [p for p in pts if satisfiable(h, {prec: p})]
                    mine = [p for p in pts if satisfiable(g, {prec: p})]
                    related = any(x.op == "in" and x.args[0] == "raw8" and x.args[1] is root for a in vf.atoms(g) for x in vf.walk(a))
                    bad = [(p, o) for p in mine for o in other if value(q, prec, o) is not None and value(q, prec, o) < p]
                    rep.ob("answer %s:precise" % name, None if related else False if bad else True, "a request for %s digits is answered from what a request for %s digits stored" % (bad[0] if bad else ("?", "?")), place)
            continue
        rep.ob("answer:form", None, "the answer is %r" % l, place)
    construct(lab, rep, stored)


def construct(lab, rep, stored):
    """a fresh number has nothing cached"""
    for f in lab.find(r"RealNumberBase::RealNumberBase\("):
        A, s = lab.run(f)
        if len(f["args"]) != 1:
            continue
        for (root, off) in stored:
            if root is not T("arg", 1):
                continue
            flags = [v for (k, r, o), v in s.mem.cells.items() if r is T("arg", 0) and o == off + 32]
            if flags:
                rep.ob("cell %s:initially" % describe(root, off), all(vf.isint(v, 0) for v in flags), "a new number starts with the flag %s" % flags, common.where(f["blocks"][0]["ins"][-1]))


def atomtrue(a):
    return vf.atom(a)


def value(t, prec, p):
    try:
        return interp.Model({prec: p})(t) if over(t, {prec}) else None
    except Exception:
        return None


def describe(root, off):
    if root.op == "slot":
        r = root.args[0]
        return "the table at %s+%d" % ("this" if r is T("arg", 1) else repr(r), root.args[1])
    return "%s+%d" % ("this" if root is T("arg", 1) else repr(root), off)


def place_of(s, root):
    for e in s.events:
        for a in e["args"][:1]:
            if isinstance(a, T) and any(x.op == "ptr" and x.args[0] is root for x in leaves(a)):
                return common.where(e["ins"])
    return ""


def enough(rep, key, g, q, prec, pts, what, place):
    n = 0
    unknown = not over(q, {prec})
    for p in pts:
        if not satisfiable(g, {prec: p}):
            continue
        n += 1
        v = value(q, prec, p)
        if v is None:
            unknown = True
        elif v < p:
            rep.ob(key, False, "a request for %d digits %s, that is %d" % (p, what, v), place)
            return
    rep.ob(key, None if unknown or not n else True, "a request for prec digits %s; enough for each of the %d representative requests that get there" % (what, n), place)


# -- the digits themselves -------------------------------------------------

def subst(t, m, memo=None):
    """replace terms, renormalising what is built from them"""
    memo = {} if memo is None else memo

    def go(t):
        if t in m:
            return m[t]
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op == "ite":
            c = go(t.args[0])
            r = vf.ite(c if c.op in ("ite",) or vf.isint(c) else vf.atom(c), go(t.args[1]), go(t.args[2]))
        elif t.op == "lin":
            r = Int(t.args[0])
            for k, x in t.args[1]:
                r = lift(lambda u, v, k=k: vf.add(u, v, k), r, go(x))
        elif t.op in ("eq", "slt", "ult"):
            r = lift(lambda u, v: vf.icmp(t.op, u, v), go(t.args[0]), go(t.args[1]))
        elif any(isinstance(a, T) for a in t.args):
            args = [go(a) if isinstance(a, T) else a for a in t.args]
            r = t if all(x is y for x, y in zip(args, t.args)) else lift(lambda *x: T(t.op, *x), *[a if isinstance(a, T) else T("lit", a) for a in args]) if all(isinstance(a, T) for a in args) else T(t.op, *args)
        else:
            r = t
        memo[t.id] = r
        return r
    return go(t)


class Loop:
    """the one loop of a summary, with its counters rewritten relative to their initial values"""

    def __init__(self, s):
        self.head = next(iter(s.loops))
        self.cont = FALSE
        for h, c in s.backs:
            self.cont = Or(self.cont, c)
        self.vars = {}
        m = {}
        for key, v in s.loops[self.head].items():
            t = loopterm(self.head, key)
            init, nxt = v[0], v[1]
            if nxt is None:
                continue
            self.vars[t] = [init, nxt]
        # k' = k + const from an initial value that is not a constant
        for t, (init, nxt) in self.vars.items():
            if init is None or vf.isint(init) or init.op == "undef":
                continue
            rel = [l for _, l in relevant(nxt, self.cont)]
            if rel and all(l is t or (l.op == "lin" and len(l.args[1]) == 1 and l.args[1][0] == (1, t)) for l in rel) and all(x.op != "loop" for x in vf.walk(init)):
                m[t] = lift(lambda a: vf.add(a, T("rel", t)), init)
        self.rewrite = m
        memo = {}
        self.cont = subst(self.cont, m, memo)
        new = {}
        for t, (init, nxt) in self.vars.items():
            n = subst(nxt, m, memo)
            if t in m:
                n = lift(lambda a, b: vf.add(a, b, -1), n, subst(init, m, memo))
                new[T("rel", t)] = [Int(0), n]
            else:
                new[t] = [init, n]
        self.vars = new
        self.memo = memo

    def term(self, t):
        return subst(t, self.rewrite, self.memo)


def essential(t, pc):
    """terms that determine t once pc is known to hold: its leaves and the atoms that choose between them"""
    rel = relevant(t, pc)
    out = [l for _, l in rel]
    for a in {a for g, _ in rel for a in vf.atoms(g)}:
        pred = lambda x, a=a: x is a
        proj = [(exists(g, pred), l) for g, l in rel]
        if any(And(g, h) is not FALSE for k, (g, l) in enumerate(proj) for h, m in proj[k + 1:]):
            out.append(a)
    return out


def generator(e):
    return "boost::random" in e["name"] or re.search(r"rand48|uniform_int|mersenne|minstd|linear_congruential|gmp_(u|r)random|::operator\(\)\(", e["name"])


def digits(facts, rep):
    lab = Lab(facts, rep, ["random_real_number", "real_number_base", "seed"], r"::RandomRealNumber::arf_\(", "", HEADERS)
    f = lab.find(r"::RandomRealNumber::arf_\(")[0]
    A, s = lab.run(f)
    place = common.where(f["blocks"][0]["ins"][-1])
    prec, this = T("arg", 2), T("arg", 1)
    # nothing that survives the call is changed
    for (k, root, off), v in s.mem.cells.items():
        if k.startswith("life") or root.op == "alloca" or root is T("arg", 0) or v.op in ("undef", "gone") or v is T("in", k, root, off):
            continue
        g = lab.globals.get(root.args[0], {}) if root.op == "global" else {}
        if root.op == "global" and not g.get("const") and "guard" not in root.args[0]:
            rep.ob("digits:state", False, "producing digits changes %s, which other numbers read: %r" % (root.args[0], v), place)
            return
    if len(s.loops) != 1 or s.undecided or not s.backs:
        rep.ob("digits:loop", None, "%d loops %s" % (len(s.loops), s.undecided), place)
        return
    L = Loop(s)
    rep.count("loop variables", len(L.vars))
    # what the answer is made of
    after = [e for e in s.events if And(e["pc"], Not(in_loop(s))) is not FALSE and e["name"].startswith(("exactreal::Arf::", "arf_", "arb_"))]
    result = [x for e in s.events for x in e["args"] if isinstance(x, T) and e in after]
    need = {t for t in L.vars if t.op == "loop" and t.args[1] != "phi"}
    for x in result:
        need |= {t for t in vf.walk(L.term(x)) if t in L.vars}
    todo = list(need)
    while todo:
        t = todo.pop()
        init, nxt = L.vars[t]
        for x in essential(nxt, L.cont):
            for y in vf.walk(x):
                if y in L.vars and y not in need:
                    need.add(y)
                    todo.append(y)
    ok = True
    for t in sorted(need, key=lambda t: t.id):
        init, nxt = L.vars[t]
        gen = isgenerator(t, s)
        if init is not None and mentions(init, prec):
            ok = False
            rep.ob("digits:start", False if gen else None, "the digits start from %r, which depends on the precision asked for" % init, place)
        why = influence(nxt, L.cont, prec)
        if why:
            ok = False
            rep.ob("digits:step", False, "the precision asked for changes how the next digit is produced (%r): %s" % (t, why), place)
    if ok:
        rep.ob("digits:independent", True, "%d loop variables determine the digits; neither their initial values nor their steps depend on the precision asked for" % len(need), place)
    for e in s.events:
        if generator(e):
            bad = [a for a in e["args"][1:] if mentions(L.term(a), prec)]
            rep.ob("digits:draws", not bad, "random bits are drawn with %s" % ([repr(a)[:80] for a in bad] or "arguments that do not depend on the precision"), common.where(e["ins"]))
    positions(s, L, rep, place, prec)


def in_loop(s):
    return FALSE


def isgenerator(t, s):
    for e in s.events:
        if generator(e) and t.op == "loop" and any(isinstance(a, T) and a.op == "ptr" and a.args[0] is t.args[2] for a in e["args"][:1]):
            return True
    return False


def positions(s, L, rep, place, prec):
    """one digit per step: appended with its place value, or a leading zero that is skipped"""
    ctor = [e for e in s.events if e["name"].startswith("exactreal::Arf::Arf(std::") and len(e["args"]) == 4]
    app = [e for e in s.events if re.search(r"operator<<|::(push_back|append|operator\+=|put)\(", e["name"])]
    if len(ctor) != 1 or len(app) != 1 or not vf.isint(ctor[0]["args"][2]):
        rep.ob("digits:positions", None, "the digits are not collected in one string: %d conversions, %d places that append" % (len(ctor), len(app)), place)
        return
    base = ctor[0]["args"][2].args[0]
    E = L.term(ctor[0]["args"][3])
    where_ = common.where(app[0]["ins"])
    if mentions(E, prec):
        rep.ob("digits:positions", None, "the exponent of the answer is %r" % E, place)
        return
    if E not in L.vars:
        scale, e = (E.args[0], E.args[1]) if E.op == "lin" else (0, ())
        if E.op == "lin" and len(e) == 1 and e[0][0] in (1, -1) and e[0][1] in L.vars:
            V, sign = e[0][1], e[0][0]
        else:
            rep.ob("digits:positions", None, "the exponent of the answer is %r" % E, place)
            return
    else:
        V, sign = E, 1
    init, nxt = L.vars[V]
    appended = And(L.term(app[0]["pc"]), L.cont)
    skipped = And(L.cont, Not(L.term(app[0]["pc"])))
    step = lambda l: sign * l.args[0] if l.op == "lin" and l.args[1] == ((1, V),) else 0 if l is V else None
    bad = und = None
    for g, l in relevant(nxt, appended):
        if step(l) is None:
            und = l
        elif step(l) != -1:
            bad = l
    if bad is not None:
        rep.ob("digits:positions", False, "a digit is appended but the exponent %r becomes %r, so that the digits already revealed change their place" % (V, bad), where_)
        return
    counters = [t for t, (i, n) in L.vars.items() if vf.isint(i) and t.op in ("loop", "rel")]
    if skipped is not FALSE:
        start = False
        for t in counters:
            i, n = L.vars[t]
            first = vf.icmp("eq", t, i)
            if And(skipped, Not(first)) is not FALSE:
                continue
            up = [l for _, l in relevant(n, appended)]
            stay = [l for _, l in relevant(n, And(skipped, first))]
            if all(l.op == "lin" and l.args[1] == ((1, t),) and l.args[0] > 0 or vf.isint(l, 1) for l in up) and all(l is t or l is i for l in stay):
                start = True
        moved = [l for _, l in relevant(nxt, skipped) if step(l) != 0]
        if not start and moved:
            rep.ob("digits:positions", None, "a step without a digit moves the exponent to %r" % moved, where_)
            return
    rep.ob("digits:positions", None if und is not None else True, "each step appends one digit in base %d and lowers the exponent by one, or skips a zero while nothing has been appended" % base, where_)
    for e in s.events:
        if e["name"].startswith("arf_set_round") or "arf_" in e["name"] and "round" in e["name"]:
            mode = e["args"][-1]
            rep.ob("digits:rounding", vf.isint(mode) and mode.args[0] in (0, 2), "the digits are rounded with mode %r" % mode, common.where(e["ins"]))


# -- histories: the requests a number answers one after the other ------------

def drawing(A, name, dem, i, args, mem):
    """draws from a generator whose state is one word"""
    d = dem or ""
    if re.search(r"generate_uniform_int<", d) and len(args) >= 3:
        st = A.read(mem, "raw8", args[0])
        A.write(mem, "raw8", args[0], lift(lambda x: T("drawn", x), st))
        A.event(i, "draw", [args[0]], [st])
        return lift(lambda x, a, b: T("draw", x, a, b), st, args[1], args[2])
    return NotImplemented


def results(A, name, dem, i, args, mem):
    d = text.short(dem)
    m = re.match(r"^exactreal::Arf::Arf\((.*)\)$", d)
    if m:
        if m.group(1) == "string const&, int, long":
            v = lift(lambda s, b, e: T("parsed", s, b, e), A.read(mem, "str", args[1]), args[2], args[3])
        elif m.group(1).endswith("mpz_struct [1]> const&, long") or m.group(1) == "mpz_class const&, long":
            v = lift(lambda x, e: T("m2e", x, e), A.read(mem, "mpz", args[1]), args[2])
        elif m.group(1) in ("exactreal::Arf const&", "exactreal::Arf&&"):
            v = A.read(mem, "arf", args[1])
        elif m.group(1) == "":
            v = Int(0)
        else:
            return NotImplemented
        A.write(mem, "arf", args[0], v)
        A.catalog.alive(A, mem, "arf", args[0], "live")
        return None
    if re.match(r"^exactreal::Arf::operator=\(exactreal::Arf( const&|&&)\)$", d):
        A.write(mem, "arf", args[0], A.read(mem, "arf", args[1]))
        return args[0]
    if d == "exactreal::Arf::~Arf()":
        return None
    return NotImplemented


class Digits(text.Text, interp.Model):
    """random digits: the n-th draw from a generator has a fixed value"""

    def __init__(self, env, zeros, start):
        interp.Model.__init__(self, env)
        self.zeros, self.start = zeros, start

    def op_drawn(self, x):
        v = self(x)
        if isinstance(v, int):
            return ("gen", v, 1)
        return ("gen", v[1], v[2] + 1)

    def op_draw(self, x, lo, hi):
        v = self(x)
        base, n = (v, 0) if isinstance(v, int) else v[1:]
        lo, hi = int(self(lo)), int(self(hi))
        if n < self.zeros:
            return lo
        # any fixed sequence does
        k = (n * n * 2654435761 + (n >> 3) * 40503 + base * 97 + n * 7919) >> 7
        return hi if n == self.zeros else lo + k % (hi - lo + 1)

    def op_parsed(self, s, b, e):
        s, e = self(s), int(self(e))
        return F(int(s, int(self(b)))) * F(2) ** e

    def op_m2e(self, x, e):
        return F(self(x)) * F(2) ** int(self(e))


def histories(facts, rep):
    """what a number answers does not depend on what it has been asked before"""
    import C15
    hooks = chain(drawing, text.hook, results)
    lab = Lab(facts, rep, ["random_real_number", "real_number_base", "seed"], r"::RandomRealNumber::arf_\(|^verif_driver::random_seed", C15.NUMBERS, C15.HEADERS)
    A, s = lab.run(lab.driver("random_seed"), on_call=chain(factory, hooks))
    reg = [e for e in s.events if e["name"] == "register"]
    f = lab.find(r"::RandomRealNumber::arf_\(")[0]
    place = common.where(f["blocks"][0]["ins"][-1])
    key = "digits:histories"
    if len(reg) != 1:
        rep.ob(key, None, "%d registrations" % len(reg), place)
        return
    _, obj, mem = reg[0]["extra"]
    made = snapshot(A, mem, obj)
    B, t = lab.run(f, on_call=hooks)
    if t.undecided or t.mem is None:
        rep.ob(key, None, "; ".join(map(str, t.undecided)) or "never returns", place)
        return
    this, prec = T("arg", 1), T("arg", 2)
    ret = B.read(t.mem, "arf", T("ptr", T("arg", 0), 0))
    state = {(k, o): v for (k, r, o), v in t.mem.cells.items() if r is this and not k.startswith("life") and v is not T("in", k, r, o)}
    consts = {abs(c) for c in constants(*[x for x in vf.walk(ret)] + [v for v in state.values()]) if 0 < abs(c) <= 2200}
    precs = sorted({0, 1, 2, 5, 6, 40, 64, 70} | {c for x in consts if x > 70 for c in (x - 1, x + 2)})
    big = precs[-1] + 8
    follow = unroll.Follow(t, limit=big + 40, outs=[ret, t.retpc] + list(state.values()))

    def ask(fields, zeros, p):
        env = {T("in", k, this, o): v for (k, o), v in fields.items()}
        env[prec] = p
        m = Digits(env, zeros, 0)
        follow.run(m)
        out = dict(fields)
        for (k, o), v in state.items():
            try:
                out[k, o] = m(v)
            except (Unknown, TypeError, ValueError, KeyError, AttributeError, ZeroDivisionError, OverflowError):
                out.pop((k, o), None)
        return m(ret), out

    Unknown = interp.Unknown
    n = 0
    try:
        for zeros in (0, 1, 3):
            m0 = Digits({T("arg", 0): 5}, zeros, 0)
            fresh = {}
            for k, v in made.items():
                try:
                    fresh[k] = m0(v)
                except (Unknown, TypeError, ValueError, KeyError, AttributeError, ZeroDivisionError, OverflowError):
                    pass
            truth, _ = ask(fresh, zeros, big)
            if not truth > 0:
                raise Unknown("the model number is %r" % truth)
            top = truth.numerator.bit_length() - truth.denominator.bit_length()
            top = top if F(2) ** top <= truth else top - 1

            def wrong(v, p):
                return not 0 <= truth - v < F(2) ** (top - p)
            after = {}
            seqs = [()] + ([(p,) for p in precs] if state else []) + ([(p, q) for p in precs[-3:] + [5] for q in precs[1::3]] if state else [])
            for seq in seqs:
                fields = fresh
                for k in range(len(seq)):
                    if seq[:k + 1] not in after:
                        after[seq[:k + 1]] = ask(fields, zeros, seq[k])[1]
                    fields = after[seq[:k + 1]]
                for p in precs if len(seq) < 2 else precs[::3]:
                    if p > 100 and len(seq) == 2 and seq[1] > 100:
                        continue
                    v, _ = ask(fields, zeros, p)
                    n += 1
                    if wrong(v, p):
                        rep.ob(key, False, "a number whose binary digits start with %d zeros, asked for %s digits%s: the answer %s are not its first digits" % (
                            zeros, p, " after it was asked for %s" % " and then ".join(map(str, seq)) if seq else "", float(v) if v else v), place)
                        return
    except (Unknown, TypeError, ValueError, KeyError, AttributeError, ZeroDivisionError, OverflowError, vf.TooBig) as e:
        rep.ob(key, None, "%s: %s" % (type(e).__name__, e), place)
        return
    rep.count("histories followed", n)
    rep.ob(key, True, "in %d histories every answer consists of the first digits of the same number" % n, place)


def run(facts, rep):
    rep.explanation = "non-interference: the loop that reveals digits is independent of the precision asked for except for when it stops, and every step appends one digit at its own place; caches: each cell that can answer a request is filled with enough digits of the same number"
    rep.rules = ["digits: initial values and steps of every loop variable that reaches the answer are free of prec", "positions: exponent decreases by one exactly per appended digit", "caches: stored precision >= key >= requested precision on every path to an answer, only returned when set"]
    caching(facts, rep)
    digits(facts, rep)
    histories(facts, rep)
    rep.floor("functions summarised", rep.counts.get("functions summarised", 0), 3)
