"""Equal objects hash equal.

Every specialisation of std::hash is summarised and evaluated in models in
which objects that compare equal are represented differently: elements of
different modules and rings, fields at different addresses, numbers whose
storage differs.  The hash may depend on what equality determines only."""
import collections
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import C18
from C18 import *
from world import *
import interp
import pyeval

HASH = r"std::hash<exactreal::(%s)>::operator\(\)"
CONV = re.compile(r"^operator (double|std::optional<.*>|bool)|^(floor|ceil|simplify|arb)$")


class Ball(Unknown):
    pass


def conversions(A, name, dem, i, args, mem):
    """what is determined by the value of an element, decided elsewhere (C11, C12, C18)"""
    m = re.match(r"^([^(]*[ &])?" + EL + r"(operator double|simplify)\(", dem or "")
    if m and m.group(3) == "operator double":
        A.event(i, "element double", args)
        return lift(lambda x: T("doubleof", x), elem(A, mem, args[0]))
    if m and m.group(3) == "simplify":
        A.event(i, "element simplify", args)
        put(A, mem, args[0], lift(lambda x: T("simplified", x), elem(A, mem, args[0])))
        return args[0]
    return NotImplemented


class Hashing(Free):
    def op_doubleof(self, x):
        v = sorted(self.elemof(x).value().items())
        if not v:
            return F(0)
        return F(float(interp.free("double", tuple((repr(g), F(c)) for g, c in v))))

    def op_simplified(self, x):
        x = self.elemof(x)
        return place_(x.value(), Mod(x.mod.ring, tuple(x.value())))

    def addr(self, t):
        if t.op == "ptr" and t.args[0].op == "arg":
            return interp.free("object", self.serial) + t.args[1]
        return self.address(self.target(t) if t.op == "ptr" and t.args[1] == 0 and t.args[0].op != "elem" else self(t))

    def address(self, v):
        if isinstance(v, tuple) and len(v) == 2 and v[0] is REF:
            v = v[1]
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "&":
            return interp.free("address", repr(v[1])) + v[2]
        if isinstance(v, (Mod, Elem)):
            return interp.free("address", repr(v), repr(getattr(v, "ring", None)))
        if isinstance(v, (int, F)):
            return v
        raise Unknown("an address %r" % (v,))

    def op_ptrtoint(self, x, *a):
        return self.addr(x)

    def op_callret(self, name, *args):
        def flat(x):
            if isinstance(x, (Mod, Elem)) or isinstance(x, tuple) and x and (x[0] is REF or x[0] == "&"):
                return self.address(x)
            if isinstance(x, tuple):
                return tuple(flat(y) for y in x)
            if isinstance(x, (int, F, str, float)) or x is None:
                return F(x) if isinstance(x, int) else x
            raise Unknown("an argument of " + name)
        return interp.free(name, *[flat(a) for a in args]).numerator

    def op_struct(self, cells):
        return tuple((o, k, self(v) if isinstance(v, T) else v) for o, k, v in cells)

    def ev(self, t):
        if t.op == "callret":
            if re.match(r"std::", t.args[0]):
                return self.op_callret(t.args[0], *[self.part_(a) for a in t.args[1:]])
            raise Unknown("the result of " + t.args[0])
        return super().ev(t)

    def op_call(self, name, k, *args):
        """what a function of the standard library leaves behind: determined by its arguments"""
        short = re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", name)))
        if not re.match(r"^std::|^operator(<<|>>)$", short):
            raise Unknown("what %s does" % name)
        last = short.split("::")
        if "~" in last[-1]:
            return ("gone",)
        if len(last) > 1 and last[-1] == last[-2]:
            args = args[1:]
        return ("made by", short, k) + tuple(self.part_(a) for a in args)

    def op_undef(self):
        return ("undef",)

    def op_at(self, kind, c, k, off):
        if kind == "cxx":
            v, k = self.index(c, k)
            r = v[k]
            return ("coefficient",) + tuple(sorted((str(a), F(b)) for a, b in r.items())) if isinstance(r, dict) else ("coefficient", F(r))
        return super().op_at(kind, c, k, off)

    def part_(self, a):
        if isinstance(a, T) and a.op == "struct":
            return self.op_struct(a.args[0])
        if isinstance(a, T) and a.op == "ptr":
            raise Unknown("what is behind a pointer")
        return self(a) if isinstance(a, T) else a


def touched(A, s, arg, allow=()):
    """the cells of the object at this argument that the function leaves changed"""
    out = []
    for key, v in s.mem.cells.items():
        kind, root, off = key[:3]
        at = root
        while isinstance(at, T) and at.op in ("ptr", "in", "elem"):
            at = at.args[0] if at.op != "in" else at.args[1]
        if at is not T("arg", arg):
            continue
        if isinstance(v, T) and (v.op == "in" and v.args[-2:] == (root, off) or v.op in ("in", "elem") or v.op == "ptr" and v.args[0].op == "elem" and (kind, off) == ("raw8", 0) and root is T("arg", arg)):
            continue
        out.append("%s at %r+%s becomes %r" % (kind, root, off, v))
    return out


def last(s, f):
    return common.where(f["blocks"][0]["ins"][-1]) if f["blocks"][0]["ins"] else None


def element_hash(facts, rep, ring):
    l = C18.lab(facts, rep, HASH % ("Element<.*>"), ["element"], r"|^([^(]*[ &])?" + EL + r"(operator double|arb)\(")
    key = "hash:Element<%s>" % ring
    fs = [f for f in l.fns if re.match(r"^([^(]*[ ])?" + HASH % ("Element<exactreal::%s>" % ring), f["dem"])]
    if len(fs) != 1:
        rep.ob(key, None, "%d functions hash these elements" % len(fs))
        return
    f = fs[0]
    A, s = l.run(f, slots=l.slots, on_call=chain(conversions, hook, unroll.refcounts, *seq.HOOKS, factory), init_cells={("raw8", T("arg", 1), 0): T("ptr", T("elem", T("x")), 0)})
    place = last(s, f)
    if s.undecided or s.ret is None:
        rep.ob(key, None, "; ".join(map(str, s.undecided))[:300] or "never returns", place)
        return
    mods = list(modules(ring, rings=RINGS[ring]))
    fl = Follow(s, 60, [s.ret, s.retpc])
    seen = {}
    bad = und = None
    n = 0
    wrote = touched(A, s, 1)
    for x in elems(ring, mods):
        m = Hashing({T("x"): x}, l, ring)
        m.serial = n
        try:
            fl.run(m)
            if not m.holds(s.retpc):
                raise Threw("an exception")
            h = m(s.ret)
            if not isinstance(h, (int, F)):
                raise Unknown("the hash is %r" % (h,))
        except (Threw, Outside) as e:
            bad = "hashing %r: %s" % (x, e)
            break
        except unroll.Endless:
            bad = "hashing %r never ends" % x
            break
        except PROBLEMS as e:
            und = "%s: %s for %r" % (type(e).__name__, e, x)
            break
        v = tuple(sorted((g, F(c)) for g, c in x.value().items()))
        n += 1
        if v in seen and seen[v][0] != h:
            bad = "%r and %r are equal but their hashes differ" % (seen[v][1], x)
            break
        seen.setdefault(v, (h, x))
    rep.count("elements hashed", n)
    rep.ob(key, False if bad else None if und or wrote else True, bad or und or "; ".join(wrote) or "one hash for each of %d values of %d elements" % (len(seen), n), place)


class Fields(interp.Model):
    """number fields at addresses"""

    def __init__(self, where, content):
        super().__init__({})
        self.where, self.content = where, content

    def ev(self, t):
        if t.op == "ptr" and t.args[1] == 0 and t.args[0].op == "in":
            return self(t.args[0])
        if t.op == "in" and t.args[0] in ("raw8",) and t.args[1].op == "arg" and t.args[2] == 0:
            return ("at", self.where[t.args[1].args[0]])
        if t.op == "in" and t.args[0] == "cxx":
            b = self.base(t.args[1])
            if b is not None and t.args[2] == 0:
                return ("field", self.content[b])
        if t.op == "callret":
            if "renf_class" not in t.args[0] and "_Hash" not in t.args[0]:
                raise Unknown("the result of " + t.args[0])
            a = [self(x) if x.op not in ("undef", "ptr") else None if x.op == "undef" else self.pointer(x) for x in t.args[1:] if isinstance(x, T)]
            if "operator==" in t.args[0]:
                return int(a[0] == a[1])
            if "operator!=" in t.args[0]:
                return int(a[0] != a[1])
            if re.search(r"hash<.*renf_class", t.args[0]):
                return interp.free(t.args[0], *[x for x in a if isinstance(x, tuple)])
            return interp.free(t.args[0], *[x if isinstance(x, (int, F, tuple)) else self.bad(x) for x in a if x is not None])
        if t.op == "same_field":
            a = [self(x) for x in t.args]
            a = [("field", self.content[x[1]]) if x[0] == "at" else x for x in a]
            return int(a[0] == a[1])
        if t.op == "ptrtoint":
            return interp.free("address", self(t.args[0]) if isinstance(t.args[0], T) else t.args[0])
        if t.op == "eq" and all(isinstance(x, T) for x in t.args):
            return int(self(t.args[0]) == self(t.args[1]))
        return super().ev(t)

    def bad(self, x):
        raise Unknown(repr(x))

    def pointer(self, x):
        v = self(x.args[0]) if x.args[0].op == "in" else self.bad(x)
        return ("field", self.content[v[1]]) if isinstance(v, tuple) and v[0] == "at" else v

    def base(self, r):
        """which field a root is the contents of"""
        while r.op == "ptr":
            r = r.args[0]
        if r.op == "in" and r.args[0] == "raw8" and r.args[1].op == "arg" and r.args[2] == 0:
            return self.where[r.args[1].args[0]]
        return None


def rings(facts, rep):
    l = Lab(facts, rep, ["arf", "number_field", "integer_ring", "rational_field"], HASH % r"\w+" + r"|^([^(]* )?exactreal::(NumberField|IntegerRing|RationalField|Arf)::operator[=!]=\(", "", ["exact-real/arf.hpp", "exact-real/number_field.hpp", "exact-real/integer_ring.hpp", "exact-real/rational_field.hpp"], extra=["-DNDEBUG"])
    l.Analysis = seq.Seq

    def get(pat):
        fs = [f for f in l.fns if re.match(r"^([^(]* )?" + pat, f["dem"])]
        if len(fs) != 1:
            raise common.Unfamiliar("%d functions %s" % (len(fs), pat))
        A, s = l.run(fs[0])
        return fs[0], A, s
    for ring in ("IntegerRing", "RationalField"):
        key = "hash:" + ring
        try:
            f, A, s = get(HASH % ring)
            fe, Ae, se = get(r"exactreal::%s::operator==\(" % ring)
        except common.Unfamiliar as e:
            rep.ob(key, None, str(e))
            continue
        if s.undecided or s.ret is None or se.undecided or se.ret is None:
            rep.ob(key, None, str(s.undecided + se.undecided)[:200], last(s, f))
            continue
        inputs = [x for x in vf.walk(s.ret) if x.op in ("arg", "in", "ptrtoint", "callret", "undef") or x.op == "ptr"]
        eq = [x for x in vf.walk(se.ret) if x.op in ("arg", "in", "callret", "undef", "ptr")]
        if eq or not se.ret in (TRUE, Int(1, 1), Int(1, 8)) and se.ret is not TRUE:
            rep.ob(key, None, "two rings are equal when %r" % (se.ret,), last(se, fe))
            continue
        calls = any(x.op == "callret" for x in inputs)
        rep.ob(key, True if not inputs else None if calls else False, "all rings are equal and hash to %r" % (s.ret,), last(s, f))
    # a number
    try:
        f, A, s = get(HASH % "Arf")
        if s.undecided or s.ret is None:
            rep.ob("hash:Arf", None, str(s.undecided)[:200], last(s, f))
        else:
            reads = [x for x in vf.walk(s.ret) if x.op == "in"]
            addr = [x for x in vf.walk(s.ret) if x.op == "ptrtoint" or x.op == "ptr" and x.args[0].op == "arg"]
            struct = [x for x in vf.walk(s.ret) if x.op == "in" and x.args[0].startswith("raw")]
            other = [x for x in reads if not (x.args[0] == "arf" and x.args[1] is T("arg", 1) and x.args[2] == 0)]
            wrote = touched(A, s, 1)
            pointers = [x for x in struct if x.args[0] == "raw8" and x.args[2] != 0] if struct else []
            rep.ob("hash:Arf", None if other and not addr else False if addr else None if wrote else True, "%s is a function of the value%s" % (repr(s.ret)[:200], " and of %r" % (other + addr) if other or addr else ""), last(s, f))
    except common.Unfamiliar as e:
        rep.ob("hash:Arf", None, str(e))
    # fields
    key = "hash:NumberField"
    try:
        f, A, s = get(HASH % "NumberField")
        fe, Ae, se = get(r"exactreal::NumberField::operator==\(")
    except common.Unfamiliar as e:
        rep.ob(key, None, str(e))
        return
    if s.undecided or s.ret is None or se.undecided or se.ret is None:
        rep.ob(key, None, str(s.undecided + se.undecided)[:200], last(s, f))
        return
    content = {1: "K", 2: "K", 3: "L"}
    bad = None
    n = 0
    try:
        for a in content:
            for b in content:
                m = Fields({0: a, 1: b}, content)
                same = m.holds(se.ret) if se.ret.op not in ("callret",) else bool(m(se.ret))
                ha, hb = Fields({1: a}, content)(s.ret), Fields({1: b}, content)(s.ret)
                n += 1
                if same and ha != hb:
                    bad = "two fields%s that are equal have different hashes" % (" at different addresses" if a != b else "")
                if same != (content[a] == content[b]) and not bad and a == b:
                    bad = "a field is not equal to itself"
        wrote = touched(A, s, 1) + touched(Ae, se, 0) + touched(Ae, se, 1)
        rep.ob(key, False if bad else None if wrote else True, bad or "; ".join(wrote) or "equal fields hash equal in %d cases: %r" % (n, s.ret), last(s, f))
    except PROBLEMS as e:
        rep.ob(key, False if bad else None, bad or "%s: %s" % (type(e).__name__, e), last(s, f))


def python(facts, rep):
    import C21
    path = os.path.join(C21.PY, "exact_reals.py")
    w = C21.Sage()
    ev = pyeval.Evaluator(w)
    c = ev.module(open(path).read()).get("ExactRealElement")
    f = c.find("__hash__") if c is not None else None
    if f is None:
        rep.ob("hash:Python elements", None, "there is no __hash__")
        return
    me = pyeval.Inst(c, "self")
    me.dict["_backend"] = pyeval.Sym(("attr", ("obj", "self"), "_backend"))
    t = pyeval.term(ev.call(pyeval.Bound(f, me), [], {}))

    def value(t):
        """is this determined by the value of the element"""
        if t == ("attr", ("obj", "self"), "_backend") or t == ("obj", "self"):
            return True
        if isinstance(t, (int, str)):
            return True
        if isinstance(t, tuple) and t and t[0] == "call" and t[1] in (("path", "hash"), ("path", "float")):
            return value(t[2][0]) if t[2][0] != ("obj", "self") or t[1] == ("path", "float") else None
        if isinstance(t, tuple) and t and t[0] == "float":
            return value(t[1])
        if isinstance(t, tuple) and t and t[0] == "op":
            return all(value(x) for x in t[2:]) or None
        if isinstance(t, tuple) and t and t[0] == "call" and (t[1] in (("path", "id"), ("path", "repr"), ("path", "str")) or t[1][0] == "attr" and t[1][2] in ("module", "coefficients", "_repr_", "__repr__")):
            return False
        if isinstance(t, tuple) and t and t[0] == "str":
            return False
        if isinstance(t, tuple) and t and t[0] != "attr":
            r = [value(x) for x in t[1:] if isinstance(x, tuple)]
            return False if False in r else None
        return None
    r = value(t)
    if not (isinstance(t, int) or isinstance(t, tuple) and t[0] == "call" and t[1] == ("path", "hash") or r is not True):
        r = None
    rep.ob("hash:Python elements", r, "the hash of an element is %s" % pyeval.show(t), "pyexactreal/src/pyexactreal/exact_reals.py:%d" % f.node.lineno)


def declared(facts, rep):
    """every specialisation of std::hash in the headers is one of the above"""
    known = {"Arf", "NumberField", "IntegerRing", "RationalField", "Element"}
    found = set()
    d = os.path.join(common.LIB, "exact-real")
    for n in sorted(os.listdir(d)):
        if n.endswith((".hpp", ".ipp", ".in")):
            for m in re.finditer(r"struct\s+(?:\w+\s+)?hash\s*<\s*(?:::)?exactreal::(\w+)", open(os.path.join(d, n)).read()):
                found.add(m.group(1))
    new = sorted(found - known)
    rep.ob("specialisations", None if new else True, "hash of %s is not analysed" % new if new else "std::hash is specialised for %s" % ", ".join(sorted(found)))
    rep.floor("types with a hash", len(found), 5)


def run(facts, rep):
    rep.rules = ["for every pair of objects that compare equal, however they are represented, the hash is the same; a hash depends on nothing but what equality determines, and does not change the object"]
    rep.explanation = "each std::hash is summarised; the hash of an element is evaluated for every element of all modules over three generators (and three nested fields), grouped by value; fields are evaluated with equal contents at different addresses"
    rep.trusted.append("e-antic's hash of a field depends on what its operator== compares; operator double depends on the value only (decided by C11)")
    facts.compile(["element"], extra=["-DNDEBUG"])
    common.parallel(facts, rep, [lambda r=r: element_hash(facts, rep, r) for r in KIND] + [lambda: rings(facts, rep), lambda: python(facts, rep)])
    declared(facts, rep)
