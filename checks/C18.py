"""Arithmetic of elements is arithmetic in the free module."""
import itertools
import math
import random
from fractions import Fraction as F

from world import *
import interp
from interp import Unknown
import seq
import unroll

EL = r"exactreal::Element<exactreal::(\w+)>::"
MO = r"exactreal::Module<exactreal::(\w+)>::"
KIND = {"IntegerRing": "mpz", "RationalField": "mpq", "NumberField": "renf_elem"}
MEMBERS = r"(promote|simplify|coefficients|rationalCoefficients|module|truediv|floordiv|operator( bool|-|\+=|-=|\*=|/=|=|\[\]|==| std::optional<.*>)|~?Element)"
NOALG = r"^(?!(\w+ )?[^(]*\b(std|__gnu_cxx)::\w+<[^(]*exactreal::Element<.*'lambda')"
ALG = seq.OPAQUE.replace(seq.ALGORITHMS, r"^(?!.*::operator\(\))[^(]*\bstd::(sort|stable_sort)<")
OPQ = common.OPAQUE + r"|^.*ostream.* exactreal::operator<<|^(void |bool )?" + unroll.REFCOUNT + r"|^(bool )?std::operator(==|!=)<exactreal|^([^(]* )?exactreal::\w+::(imul|idiv|coerce|compositum)\b|^exactreal::NumberField::(NumberField|operator=|~NumberField)\(|^eantic::renf_elem_class::(den|num_vector)\(|^(?!.*'lambda')([^(]*[ &])?" + EL + MEMBERS + r"(<.*>)?\(|^(?!.*'lambda')([^(]*[ &])?" + MO + r"|^exactreal::RealNumber::" + ALG


CODE = """std::shared_ptr<const RealNumber> product(const RealNumber& x, const RealNumber& y) { return x * y; }
std::optional<std::shared_ptr<const RealNumber>> quotient(const RealNumber& x, const RealNumber& y) { return x / y; }
std::optional<mpq_class> rational(const RealNumber& x) { return static_cast<std::optional<mpq_class>>(x); }"""


NAMES = {"IntegerRing": "mpz_class", "RationalField": "mpq_class", "NumberField": "eantic::renf_elem_class"}


def drivers():
    """(name, parameters, expression, elements among the arguments, cases of scalars, meaning)"""
    out = [("add", "e e", "x + y"), ("sub", "e e", "x - y"), ("mul", "e e", "x * y"), ("minus", "e", "-x"), ("gmul1", "e g", "x * y"), ("gmul2", "g e", "x * y")]
    for k, ty in enumerate(["short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "const mpz_class&", "const mpq_class&", "const eantic::renf_elem_class&"]):
        out += [("mul%da" % k, "e " + ty, "x * y"), ("mul%db" % k, ty + "! e", "x * y"), ("div%d" % k, "e " + ty, "x / y")]
    return out


def drivercode():
    out = [CODE]
    for r in NAMES:
        E = "const Element<%s>& " % r
        for name, ps, ex in drivers():
            if "renf" in ps and r != "NumberField":
                continue
            a, b = (ps[:-2].rstrip("!"), "e") if ps.endswith(" e") else (ps.split(" ")[0], " ".join(ps.split(" ")[1:]))
            par = ", ".join({"e": E, "g": "const RealNumber& "}.get(t, t + " ") + v for t, v in ((a, "x"), (b, "y")) if t)
            out.append("Element<%s> %s_%s(%s) { return %s; }" % (r, name, r, par, ex))
    return "\n".join(out)


def lab(facts, rep, roots=r"([^(]*[ &])?" + EL + MEMBERS + r"(<.*>)?\(", units=("element",), also="", extra=("-DNDEBUG",)):
    l = Lab(facts, rep, list(units), NOALG + roots + r"|^verif_driver::", drivercode(), ["exact-real/real_number.hpp", "exact-real/element.hpp", "exact-real/module.hpp", "exact-real/integer_ring.hpp", "exact-real/rational_field.hpp", "exact-real/number_field.hpp"], opaque=OPQ + also, extra=list(extra))
    l.Analysis = seq.Seq
    slots = {}
    for what in ("product", "quotient", "rational"):
        def note(A, name, dem, i, args, mem):
            if name is None and len(args) == (2 if what == "rational" else 3):
                slots[what] = slotof(A)
            return NotImplemented
        l.run(l.driver(what), on_call=note)
    if len(set(slots.values())) != 3:
        raise common.Unfamiliar("products and quotients of real numbers are not virtual")
    l.slots = slots
    orders = {}

    def comparator(f):
        if f["dem"] not in orders:
            orders[f["dem"]] = l.run(f, slots=slots, on_call=chain(hook, unroll.refcounts, *seq.HOOKS, factory))[1]
        return orders[f["dem"]]
    l.comparator = comparator
    return l


def elem(A, mem, p):
    """the element at p"""
    def f(q):
        if q.op == "ptr" and q.args[0].op == "elem" and q.args[1] == 0:
            t = q.args[0].args[0]
            root = q.args[0]
        else:
            t, root = None, q.args[0] if q.op == "ptr" else q
        par, vec = A.read(mem, "raw8", T("ptr", root, 0)), A.read(mem, "vec", T("ptr", root, 16))
        if t is not None and bare(par) is parent(t) and vec is coefs(t):
            return t
        return T("made", bare(par), vec)
    return lift(f, A.read(mem, "raw8", p))


def bare(v):
    while v.op == "ptr" and v.args[1] == 0:
        v = v.args[0]
    return v


def parent(t):
    return T("in", "raw8", T("elem", t), 0)


def coefs(t):
    return T("in", "vec", T("elem", t), 16)


def put(A, mem, p, t):
    """an element"""
    A.write(mem, "raw8", p, lift(lambda x: T("ptr", T("elem", x), 0), t))


def shared(A, mem, p, v):
    A.write(mem, "raw8", p, lift(lambda x: x if x.op == "ptr" else T("ptr", x, 0), v))
    A.write(mem, "raw8", seq.shift(p, 8), lift(lambda x: T("ptr", T("owner", x), 0), v))


def pointee(A, mem, p):
    """what a shared pointer at p points to"""
    return lift(bare, A.read(mem, "raw8", p))


def hook(A, name, dem, i, args, mem):
    d = dem or ""
    m = re.match(r"^(?:bool )?std::operator(==|!=)<exactreal::\w+(?:<exactreal::\w+>)? const, exactreal::\w+(?:<exactreal::\w+>)? const>\(std::shared_ptr", d)
    if m:
        r = lift(lambda a, b: vf.icmp("eq", *sorted((a, b), key=repr)), pointee(A, mem, args[0]), pointee(A, mem, args[1]))
        return r if m.group(1) == "==" else Not(r)
    m = re.match(r"^bool std::operator(==|!=)<std::shared_ptr<exactreal::RealNumber const>, .*>\(std::vector<", d)
    if m:
        # of two lists of generators
        r = lift(lambda a, b: vf.atom(T("samelist", a, b)), A.read(mem, "vec", args[0]), A.read(mem, "vec", args[1]))
        return r if m.group(1) == "==" else Not(r)
    if re.match(r"^exactreal::RealNumberBase::id\(", d):
        return lift(lambda g: T("idof", bare(g)), args[0])
    m = re.match(r"^exactreal::RealNumber::(operator==\(exactreal::RealNumber const&\)|deglex\(|rational\()", d)
    if m:
        what = m.group(1)
        A.event(i, "number " + what, args)
        if what.startswith("operator=="):
            return lift(lambda a, b: vf.icmp("eq", *sorted((bare(a), bare(b)), key=repr)), *args[:2])
        if what.startswith("deglex"):
            return lift(lambda a, b: vf.atom(T("less", bare(a), bare(b))), *args[:2])
        k = "mpq" if "__mpq" in d else "mpz" if "__mpz" in d else None
        if k:
            shared(A, mem, args[0], lift(lambda v: T("constant", v), A.read(mem, k, args[1])))
            return None
        return NotImplemented
    m = re.match(r"^exactreal::\w+::(coerce|compositum)\(", d)
    if m:
        A.event(i, m.group(1), args)
        if m.group(1) == "compositum":
            A.write(mem, "cxx", args[0], lift(lambda a, b: T("compositum", a, b), ringof(A, mem, args[-2]), ringof(A, mem, args[-1])))
            return None
        k = next((KIND[r] for r in KIND if "exactreal::%s::" % r in d))
        A.write(mem, k, args[0], lift(lambda r, c: T("coerced", r, c), ringof(A, mem, args[1]), A.read(mem, k, args[2])))
        A.catalog.alive(A, mem, k, args[0], "live")
        return None
    if re.match(r"^exactreal::NumberField::(NumberField|operator=)\(exactreal::NumberField( const)?&&?\)", d):
        A.write(mem, "cxx", args[0], A.read(mem, "cxx", args[1]))
        return args[0] if "operator=" in d else None
    if re.match(r"^exactreal::NumberField::NumberField\(\)", d):
        A.write(mem, "cxx", args[0], T("defaultring"))
        return None
    if re.match(r"^exactreal::NumberField::NumberField\(eantic::renf_elem_class const&\)", d):
        A.write(mem, "cxx", args[0], lift(lambda c: T("fieldof", c), A.read(mem, "renf_elem", args[1])))
        return None
    m = re.match(r"^eantic::renf_elem_class::(den|num_vector)\(\) const", d)
    if m:
        c = A.read(mem, "renf_elem", args[1])
        if m.group(1) == "den":
            A.write(mem, "mpz", args[0], lift(lambda c: T("renfden", c), c))
            A.catalog.alive(A, mem, "mpz", args[0], "live")
        else:
            A.write(mem, "vec", args[0], lift(lambda c: T("renfnum", c), c))
        return None
    if name is None and i.get("argtys") == ["ptr", "ptr", "ptr"] and slotof(A) == A.slots["quotient"]:
        shared(A, mem, args[0], lift(lambda a, b: T("gdiv", bare(a), bare(b)), args[1], args[2]))
        A.write(mem, "raw1", seq.shift(args[0], 16), lift(lambda a, b: vf.ite(vf.atom(T("divides", bare(b), bare(a))), Int(1, 8), Int(0, 8)), args[1], args[2]))
        return None
    if name is None and i.get("argtys") == ["ptr", "ptr"] and slotof(A) == A.slots["rational"]:
        # whether a real number is rational, and which
        A.event(i, "number rational", args)
        A.write(mem, "mpq", args[0], lift(lambda g: T("rationalof", bare(g)), args[1]))
        A.catalog.alive(A, mem, "mpq", args[0], "live")
        A.write(mem, "raw1", seq.shift(args[0], 32), lift(lambda g: vf.ite(vf.atom(T("isrational", bare(g))), Int(1, 8), Int(0, 8)), args[1]))
        return None
    if name is None and i.get("argtys") == ["ptr", "ptr", "ptr"] and slotof(A) == A.slots["product"]:
        # multiplication of real numbers is virtual
        shared(A, mem, args[0], lift(lambda a, b: T("gmul", *sorted((bare(a), bare(b)), key=repr)), args[1], args[2]))
        return None
    if re.match(seq.ALGORITHMS, d) or "'lambda" in d:
        return NotImplemented
    m = re.match(r"^([^(]*[ &])?" + EL + r"([^(]*)(\(.*)", d)
    if m:
        ring, what, rest = m.group(2), m.group(3).replace("<true, void>", ""), m.group(4)
        A.event(i, "element " + what, args)
        if what == "promote":
            put(A, mem, args[0], lift(lambda x, p: T("promoted", x, p), elem(A, mem, args[0]), pointee(A, mem, args[1])))
            return args[0]
        if what == "~Element":
            return None
        if what == "Element" and re.match(r"\(exactreal::Element<[\w:]+>( const&|&&)\)", rest):
            put(A, mem, args[0], elem(A, mem, args[1]))
            return None
        if what == "Element" and rest.startswith("(std::shared_ptr") and len(args) == 3:
            put(A, mem, args[0], lift(lambda p, c: T("made", p, c), pointee(A, mem, args[1]), A.read(mem, "vec", args[2])))
            return None
        if what == "operator=":
            put(A, mem, args[0], elem(A, mem, args[1]))
            return args[0]
        if what in ("operator+=", "operator-=", "operator*=") and rest.startswith("(exactreal::Element<"):
            put(A, mem, args[0], lift(lambda x, y: T("arith", what[8], x, y), elem(A, mem, args[0]), elem(A, mem, args[1])))
            return args[0]
        if what == "operator-" and rest.startswith("()"):
            put(A, mem, args[0], lift(lambda x: T("neg", x), elem(A, mem, args[1])))
            return None
        if what == "operator bool":
            return lift(lambda x: vf.atom(T("nonzero", x)), elem(A, mem, args[0]))
        if what == "truediv":
            x, y = elem(A, mem, args[1]), elem(A, mem, args[2])
            put(A, mem, args[0], lift(lambda x, y: T("quotient", x, y), x, y))
            A.write(mem, "raw1", seq.shift(args[0], 32), lift(lambda x, y: vf.ite(vf.atom(T("divisible", x, y)), Int(1, 8), Int(0, 8)), x, y))
            return None
        if what == "coefficients":
            A.write(mem, "vec", args[0], lift(coefsof, elem(A, mem, args[1])))
            return None
        if what == "operator*=" and rest.startswith("(exactreal::RealNumber"):
            put(A, mem, args[0], lift(lambda x, g: T("times", x, bare(g)), elem(A, mem, args[0]), args[1]))
            return args[0]
        if what in ("operator*=", "operator/=") and KINDS.get(rest.split(")")[0][1:]):
            k, n = KINDS[rest.split(")")[0][1:]]
            v = lift(lambda x: T("as", n, x), args[1]) if k is None else A.read(mem, k, args[1])
            put(A, mem, args[0], lift(lambda x, c: T("scaled", what[8], x, c), elem(A, mem, args[0]), v))
            return args[0]
        m2 = re.match(r"\((\w[\w ]*|__gmp_expr<__mp[zq].*|exactreal::Element<.*) const&\)|\((\w[\w ]*)\)", rest)
        if what == "operator==" and m2:
            ty = (m2.group(1) or m2.group(2)).strip()
            if ty.startswith("exactreal::Element<"):
                return lift(lambda x, y: vf.atom(T("same", x, y)), elem(A, mem, args[0]), elem(A, mem, args[1]))
            if ty in KINDS:
                k, n = KINDS[ty]
                v = lift(lambda x: T("as", n, x), args[1]) if k is None else A.read(mem, k, args[1])
                return lift(lambda x, c: vf.atom(T("equals", x, c)), elem(A, mem, args[0]), v)
        if what == "module":
            shared(A, mem, args[0], lift(parentof, elem(A, mem, args[1])))
            return None
        return NotImplemented
    m = re.match(r"^([^(]*[ &])?" + MO + r"([^(]*)(\(.*)", d)
    if m:
        ring, what = m.group(2), m.group(3)
        A.event(i, "module " + what, args)
        if what == "make":
            r = lift(lambda b: T("make", b, ringof(A, mem, args[2]) if len(args) > 2 else T("default ring")), A.read(mem, "vec", args[1]))
            shared(A, mem, args[0], r)
            return None
        if what == "span":
            shared(A, mem, args[0], lift(lambda a, b: T("span", a, b), pointee(A, mem, args[1]), pointee(A, mem, args[2])))
            return None
        if what == "submodule":
            return lift(lambda a, b: vf.atom(T("submodule", bare(a), bare(b))), args[0], args[1])
        if what == "rank":
            return lift(lambda p: seq.vsize(basis(bare(p))), args[0])
        if what in ("basis", "ring"):
            return lift(lambda p: T("ptr", T(what, bare(p)), 0), args[0])
        if what == "gen":
            put(A, mem, args[0], lift(lambda p, k: T("gen", bare(p), seq.strip(k)), args[1], args[2]))
            return None
        if what == "zero":
            put(A, mem, args[0], lift(lambda p: T("zero", bare(p)), args[1]))
            return None
        return NotImplemented
    m = re.match(r"^([^(]*[ &])?exactreal::(\w+)::(imul|idiv)<(.*)>\(", d)
    if m:
        k = KIND[m.group(2)]
        ty = m.group(4)
        A.event(i, m.group(3), args)
        s = A.read(mem, {"mpz": "mpz", "mpq": "mpq", "renf": "renf_elem"}.get(next((x for x in ("mpz", "mpq", "renf") if x in ty), None), None) or {"short": "raw2", "int": "raw4", "long": "raw8"}[ty.split()[-1]], args[1])
        A.write(mem, k, args[0], lift(lambda c, s: T(m.group(3), ty, c, s), A.read(mem, k, args[0]), s))
        return args[0]
    return NotImplemented


MPZ, MPQ = "__gmp_expr<__mpz_struct [1], __mpz_struct [1]>", "__gmp_expr<__mpq_struct [1], __mpq_struct [1]>"
KINDS = {"%s%s" % (s, t): (None, ("u" if s else "s", n)) for s in ("", "unsigned ") for t, n in (("short", 16), ("int", 32), ("long", 64), ("long long", 64))}
KINDS.update({MPZ + " const&": ("mpz", 0), MPQ + " const&": ("mpq", 0), "eantic::renf_elem_class const&": ("renf_elem", 0), MPZ: ("mpz", 0), MPQ: ("mpq", 0)})


def slotof(A):
    """the offset in the vtable of the function called"""
    t = A.target
    while t is not None and t.op == "ite":
        t = t.args[1]
    while t is not None and t.op == "ptr":
        t = t.args[0]
    return t.args[2] if t is not None and t.op == "in" else None


def coefsof(t):
    return t.args[1] if t.op == "made" else coefs(t)


def ringof(A, mem, p):
    v = A.read(mem, "cxx", p)
    return v


def basis(m):
    return T("in", "vec", T("basis", m), 0)


def parentof(t):
    if t.op == "made":
        return t.args[0]
    return parent(t)


def summary(lab, f, elems):
    """the summary when the given arguments are these elements"""

    def again(A, name, dem, i, args, mem):
        # the function calls itself, which must be with something else
        if name == f["name"]:
            n = [k for k in range(len(args)) if k in elems]
            A.event(i, "itself", args, extra={k: elem(A, mem, args[k]) for k in n} if {k for k in elems} == set(n) else None)
        return NotImplemented

    return lab.run(f, slots=lab.slots, on_call=chain(again, hook, unroll.refcounts, *seq.HOOKS, factory), init_cells={("raw8", T("arg", n), 0): T("ptr", T("elem", T(t)), 0) for n, t in elems.items()})


class Outside(Unknown):
    """an element that does not exist is used"""


# ---- the model: free modules over polynomial rings ---------------------------
class Threw(Unknown):
    """the library reports an error here"""


class Mod:
    """a module: its ring and its sorted generators; the same module is the same object"""
    known = {}

    def __new__(cls, ring, basis):
        basis = tuple(sorted(basis, key=order))
        key = (ring, basis)
        if key not in cls.known:
            if len(set(basis)) != len(basis) or sum(not any(g[1]) for g in basis) > 1:
                raise Threw("a module with dependent generators")
            m = object.__new__(cls)
            m.ring, m.basis = key
            cls.known[key] = m
        return cls.known[key]

    def __repr__(self):
        return "<%s>" % ",".join(map(gname, self.basis))


class Elem:
    def __init__(self, mod, coefs):
        self.mod, self.coefs = mod, tuple(coefs)

    def value(self):
        return {g: c for g, c in zip(self.mod.basis, self.coefs) if c}

    def __eq__(self, o):
        return isinstance(o, Elem) and self.mod is o.mod and self.coefs == o.coefs

    def __hash__(self):
        return hash((self.mod, self.coefs))

    def __repr__(self):
        return "(%s over %r)" % (", ".join(map(str, self.coefs)) or "nothing", self.mod)


class Renf(F):
    """an element of the named field"""
    def __new__(cls, v, ring=None):
        x = F.__new__(cls, v)
        x.ring = ring
        return x


def gname(g):
    q, e = g
    s = "".join("%s%s" % (n, "^%d" % k if k > 1 else "") for n, k in zip("abc", e) if k)
    return s if s and q == 1 else "%s%s" % (q, "*" + s if s else "")


def order(g):
    """a degree-lexicographic order"""
    return (sum(g[1]), g[1], g[0])


RINGS = {"IntegerRing": ("Z",), "RationalField": ("Q",), "NumberField": ("K0", "K1", "K2")}
DEFAULT = {"IntegerRing": "Z", "RationalField": "Q", "NumberField": "K0"}


def compositum(a, b):
    return max(a, b)


def ratio(a, b):
    """a / b of generators if it is one"""
    e = tuple(x - y for x, y in zip(a[1], b[1]))
    return (F(a[0]) / b[0], e) if min(e) >= 0 else None


def total(*vs):
    out = {}
    for s, v in vs:
        for g, c in v.items():
            out[g] = out.get(g, 0) + s * c
    return {g: c for g, c in out.items() if c}


def convolve(v, w):
    out = {}
    for g, c in v.items():
        for h, d in w.items():
            k = (F(g[0]) * h[0], tuple(x + y for x, y in zip(g[1], h[1])))
            out[k] = out.get(k, 0) + c * d
    return {g: c for g, c in out.items() if c}


def place_(v, m):
    """the element of m with this value"""
    if any(g not in m.basis for g in v):
        raise Threw("a generator that is not in the module")
    return Elem(m, [v.get(g, 0) for g in m.basis])


def joined(a, b):
    return Mod(compositum(a.ring, b.ring), tuple(set(a.basis) | set(b.basis)))


def productof(x, y):
    m = Mod(compositum(x.mod.ring, y.mod.ring), tuple({(F(g[0]) * h[0], tuple(s + t for s, t in zip(g[1], h[1]))) for g in x.mod.basis for h in y.mod.basis}))
    return place_(convolve(x.value(), y.value()), m)


def quotientof(x, y, ring):
    """the element q with q * y = x, if there is one"""
    v, w, q = x.value(), y.value(), {}
    if not w:
        raise Threw("division by zero")
    h = max(w, key=order)
    while v:
        g = max(v, key=order)
        r, c = ratio(g, h), F(v[g]) / w[h]
        if r is None or ring == "IntegerRing" and c.denominator != 1:
            return None
        q[r] = q.get(r, 0) + c
        v = total((1, v), (-1, convolve({r: c}, w)))
    return place_({g: c for g, c in q.items() if c}, Mod(compositum(x.mod.ring, y.mod.ring), tuple(q)))


REF = object()


class Lost:
    """the value of something that does not exist because of an error"""

    def __init__(self, why):
        self.why = why


class Follow(unroll.Follow):
    def value(self, model, t):
        try:
            return model(t)
        except (Threw, Outside) as e:
            return Lost(e)
        except PROBLEMS:
            return None


class Free(interp.Model):
    """values: elements, modules, generators, vectors (tuples of records), maps"""

    def __init__(self, env, lab, ring, flip=False):
        super().__init__(env)
        self.lab, self.ring, self.flip = lab, ring, flip
        self.kind = KIND[ring]

    def __call__(self, t):
        r = super().__call__(t)
        if isinstance(r, Lost):
            raise r.why
        return r

    def addr(self, t):
        raise Unknown("address")

    def elemof(self, t):
        v = self(t)
        if isinstance(v, tuple) and len(v) == 2 and v[0] is REF:
            v = v[1]
        if not isinstance(v, Elem):
            raise Unknown("not an element: %r" % (t,))
        return v

    def target(self, t):
        """what a shared pointer in a model points to"""
        while t.op == "ptr" and t.args[1] == 0:
            t = t.args[0]
        return self(t)

    def op_ptr(self, b, o):
        if b.op == "elem" and o == 0:
            return (REF, self.elemof(b.args[0]))
        if b.op == "loop" and o == 0 or b.op in ("gmul", "constant", "make", "span", "in", "gdiv", "at") and o == 0:
            return self(b)
        if b.op == "loop":
            v = self(b)
            if isinstance(v, tuple) and len(v) == 3 and v[0] == "&":
                return ("&", v[1], v[2] + o)
        return ("&", b, o)

    def op_null(self, *a):
        return ("null",)

    def op_in(self, kind, root, off):
        if root.op == "elem":
            e = self.elemof(root.args[0])
        elif root.op == "basis" and kind == "vec":
            m = self.target(root.args[0])
            if not isinstance(m, Mod):
                raise Unknown("not a module")
            return tuple({("raw8", 0): g} for g in m.basis)
        elif root.op == "ring":
            m = self.target(root.args[0])
            if kind == "cxx" and off == 0 and isinstance(m, Mod):
                return m.ring
            raise Unknown("ring")
        else:
            try:
                e = self(root)
            except Unknown:
                e = None
            if isinstance(e, tuple) and len(e) == 2 and e[0] is REF:
                e = e[1]
            elif isinstance(e, tuple) and len(e) == 3 and e[0] == "&" and isinstance(e[2], int):
                return self(T("in", kind, e[1], e[2] + off))
            if not isinstance(e, Elem):
                return super().op_in(kind, root, off)
        if kind == "raw8" and off == 0:
            return e.mod
        if kind == "vec" and off == 16:
            return tuple({({"Z": "mpz", "Q": "mpq", "K": "renf_elem"}[e.mod.ring[0]], 0): c} for c in e.coefs)
        raise Unknown("a part of an element")

    # elements
    def vec(self, t):
        v = self(t)
        if not isinstance(v, tuple) or not all(isinstance(x, dict) for x in v):
            raise Unknown("not a vector: %r" % (t,))
        return v

    def column(self, t, kind):
        return [self.field(r, kind, 0) for r in self.vec(t)]

    def field(self, r, kind, off):
        if (kind, off) in r:
            return r[kind, off]
        if kind == "raw4" and ("mpz", off - 4) in r:
            return interp.sgn(r["mpz", off - 4])
        if kind == "mpz" and ("mpq", off) in r:
            return F(r["mpq", off]).numerator
        if kind == "mpz" and ("mpq", off - 16) in r:
            return F(r["mpq", off - 16]).denominator
        if kind == "raw4" and ("mpq", off - 4) in r:
            return interp.sgn(r["mpq", off - 4])
        if kind == "mpq" and ("mpz", off) in r:
            return F(r["mpz", off])
        if kind == "renf_elem":
            for k in ("mpz", "mpq"):
                if (k, off) in r:
                    return Renf(r[k, off])
        raise Unknown("field %s+%s" % (kind, off))

    def op_made(self, par, vec):
        m = self.target(par)
        if not isinstance(m, Mod):
            raise Unknown("not a module")
        return Elem(m, self.column(vec, self.kind))

    def op_promoted(self, x, m):
        x, m = self.elemof(x), self.target(m)
        if not isinstance(m, Mod):
            raise Unknown("not a module")
        if x.mod is m:
            return x
        e = place_(x.value(), m)
        if self.ring == "NumberField":
            if any(c and (getattr(c, "ring", None) or x.mod.ring) > m.ring for c in e.coefs):
                raise Threw("a coefficient outside of the ring of the module")
            return Elem(m, [Renf(c, m.ring) for c in e.coefs])
        return e

    def op_arith(self, o, x, y):
        x, y = self.elemof(x), self.elemof(y)
        if o == "*":
            return productof(x, y)
        return place_(total((1, x.value()), (1 if o == "+" else -1, y.value())), x.mod if x.mod is y.mod else joined(x.mod, y.mod))

    def op_times(self, x, g):
        x, g = self.elemof(x), self.target(g)
        return productof(x, Elem(Mod(x.mod.ring, (g,)), (1,)))

    def op_neg(self, x):
        v = self(x)
        if isinstance(v, Elem):
            return Elem(v.mod, [-c for c in v.coefs])
        return super().op_neg(x)

    def op_scaled(self, o, x, c):
        x, c = self.elemof(x), self(c)
        return Elem(x.mod, [F(k) * c if o == "*" else self.divided(k, c) for k in x.coefs])

    def divided(self, k, c):
        if c == 0:
            raise Threw("division by zero")
        v = F(k) / c
        if self.ring == "IntegerRing" and v.denominator != 1:
            raise Threw("inexact division")
        return v

    def op_as(self, ty, x):
        return self.natural(ty, self(x))

    def natural(self, ty, v):
        s, n = ty
        v = int(v) & ((1 << n) - 1)
        return v - (1 << n) if s == "s" and v >> (n - 1) else v

    def scalar(self, ty, s):
        k = KINDS.get(ty) or KINDS.get(ty + " const&")
        if k is None:
            raise Unknown("a scalar of type " + ty)
        return self.natural(k[1], s) if k[0] is None else s

    def op_imul(self, ty, c, s):
        v = F(self(c)) * self.scalar(ty, self(s))
        if self.ring == "IntegerRing" and F(v).denominator != 1:
            raise Threw("inexact")
        return v

    def op_idiv(self, ty, c, s):
        return self.divided(self(c), self.scalar(ty, self(s)))

    def op_nonzero(self, x):
        return int(any(c for c in self.elemof(x).coefs))

    def op_same(self, x, y):
        return int(self.elemof(x).value() == self.elemof(y).value())

    def op_equals(self, x, c):
        v, c = self.elemof(x).value(), self(c)
        if any(sum(g[1]) for g in v):
            return 0
        return int(sum(F(g[0]) * k for g, k in v.items()) == c)

    def op_gen(self, m, k):
        m, k = self.target(m), int(self(k))
        if not isinstance(m, Mod) or not 0 <= k < len(m.basis):
            raise Unknown("generator %s" % k)
        return Elem(m, [int(j == k) for j in range(len(m.basis))])

    def op_zero(self, m):
        m = self.target(m)
        return Elem(m, [0] * len(m.basis))

    def op_quotient(self, x, y):
        q = quotientof(self.elemof(x), self.elemof(y), self.ring)
        if q is None:
            raise Outside("a quotient that does not exist is used")
        return q

    def op_divisible(self, x, y):
        return int(quotientof(self.elemof(x), self.elemof(y), self.ring) is not None)

    # modules
    def op_samelist(self, a, b):
        return int(list(self.column(a, "raw8")) == list(self.column(b, "raw8")))

    def op_make(self, vec, ring):
        gens = self.column(vec, "raw8")
        if ring.op == "undef":
            r = DEFAULT[self.ring]
            if self.ring == "NumberField":
                raise Unknown("an uninitialised ring")
        elif ring.op == "default ring":
            r = DEFAULT[self.ring]
        else:
            r = self(ring)
        return Mod(r, tuple(gens))

    def op_span(self, a, b):
        return joined(self.target(a), self.target(b))

    def op_compositum(self, a, b):
        return compositum(self.known(a), self.known(b))

    def known(self, r):
        return DEFAULT[self.ring] if r.op == "undef" and self.ring != "NumberField" else self(r)

    def op_call(self, name, *a):
        if "compositum" in name and len(a) >= 2:
            return compositum(*[self.known(x) for x in a[-2:]])
        if re.search(r"(IntegerRing|RationalField)::(IntegerRing|RationalField)$", name.split("(")[0]):
            return DEFAULT[self.ring]
        raise Unknown("call " + name[:60])

    def op_callret(self, name, *a):
        if re.search(r"(RationalField|IntegerRing|NumberField)::operator== ?", name) and len(a) == 2:
            return int(self(a[0]) == self(a[1]))
        if re.search(r"(RationalField|IntegerRing|NumberField)::operator!= ?", name) and len(a) == 2:
            return int(self(a[0]) != self(a[1]))
        if "renf_class::degree" in name:
            return 2
        if "nocheck" in name or "noassert" in name:
            return 0
        raise Unknown("callret " + name[:60])

    def op_coerced(self, r, c):
        return Renf(self(c), self(r)) if self.ring == "NumberField" else self(c)

    def op_fieldof(self, c):
        return getattr(self(c), "ring", None) or DEFAULT["NumberField"]

    def op_renfden(self, c):
        return self.rep(self(c))[0]

    def op_renfnum(self, c):
        return tuple({("mpz", 0): x} for x in self.rep(self(c))[1])

    @staticmethod
    def rep(c):
        """a representation as (denominator, numerators), trailing zeros dropped"""
        v = list(getattr(c, "rep", (F(c),)))
        while v and v[-1] == 0:
            v.pop()
        d = 1
        for x in v:
            d = d * F(x).denominator // math.gcd(d, F(x).denominator)
        return d, [int(x * d) for x in v]

    def op_whole(self, kind, *xs):
        if kind == "mpq":
            n, d = self(xs[0]), self(xs[1])
            if n == 0 and d == 1:
                return F(0)
        return super().op_whole(kind, *xs)

    # generators
    def op_gmul(self, a, b):
        a, b = self.target(a), self.target(b)
        return (F(a[0]) * b[0], tuple(x + y for x, y in zip(a[1], b[1])))

    def op_gdiv(self, a, b):
        q = ratio(self.target(a), self.target(b))
        if q is None:
            raise Outside("a quotient that does not exist is used")
        return q

    def op_divides(self, a, b):
        return int(ratio(self.target(b), self.target(a)) is not None)

    def op_ult(self, x, y):
        if x.op == y.op == "ptrtoint":
            # the addresses of generators are in an arbitrary order
            a, b = self.target(x.args[0]), self.target(y.args[0])
            if a == b or not all(isinstance(g, tuple) and len(g) == 2 and isinstance(g[0], F) for g in (a, b)):
                return super().op_ult(x, y)
            return int((order(a) < order(b)) != self.flip)
        return super().op_ult(x, y)

    def low(self, x):
        v = F(self(x))
        if v.denominator != 1:
            raise Unknown("the low bits of a fraction")
        s = abs(int(v)) & ((1 << 63) - 1)
        return -s if v < 0 else s

    def op_less(self, a, b):
        return int(order(self.target(a)) < order(self.target(b)))

    def op_defaultring(self):
        return DEFAULT[self.ring]

    def op_idof(self, g):
        g = self.target(g)
        return 4294967400 + 7 * G.index(g) if g in G else hash(g) % (1 << 62)

    def op_isrational(self, g):
        return int(not any(self.target(g)[1]))

    def op_rationalof(self, g):
        g = self.target(g)
        if any(g[1]):
            raise Outside("the rational value of an irrational number")
        return F(g[0])

    def op_constant(self, q):
        return (F(self(q)), (0, 0))

    # sequences
    def op_nil(self):
        return ()

    def rec(self, fv):
        return {(k, d): self(v) if isinstance(v, T) else v for k, d, v in fv}

    def op_push(self, c, fv):
        return self.vec(c) + (self.rec(fv),)

    def op_fill(self, n, fv):
        return (self.rec(fv),) * int(self(n))

    def index(self, c, k):
        v, k = self.vec(c), int(self(k))
        if not 0 <= k < len(v):
            raise Outside("element %d of a vector of %d" % (k, len(v)))
        return v, k

    def op_setat(self, c, k, kind, off, x):
        v, k = self.index(c, k)
        r = dict(v[k])
        r[kind, off] = self(x)
        return v[:k] + (r,) + v[k + 1:]

    def op_at(self, kind, c, k, off):
        v, k = self.index(c, k)
        return self.field(v[k], kind, off)

    def op_vcapacity(self, c):
        return len(self.vec(c)) + 3

    def op_vsize(self, c):
        return len(self.vec(c))

    def op_sizefield(self, x):
        return interp.sgn(self(x))

    def op_conv(self, ty, c):
        k = seq.fields(ty)[0][0][0]
        v = self.vec(c)
        return tuple({(k, 0): Renf(*r.values()) if k == "renf_elem" else F(*r.values()) if k == "mpq" else list(r.values())[0]} for r in v)

    def op_mixed(self, kind, root, off, *a):
        raise Unknown("mixed")

    def op_sorted(self, how, c):
        v = self.vec(c)
        fs = self.lab.find(r"^auto " + re.escape(how) + r"::operator\(\)", 0) if how != "<" else []
        if len(fs) != 1:
            raise Unknown("the order of a sort")
        s = self.lab.comparator(fs[0])
        import functools

        def less(x, y):
            m = Free({}, self.lab, self.ring, self.flip)
            for j, r in ((1, x), (2, y)):
                for (k, o), val in r.items():
                    m.env[T("in", k, T("arg", j), o)] = val
            return m.holds(s.ret)
        return tuple(sorted(v, key=functools.cmp_to_key(lambda x, y: -1 if less(x, y) else 1 if less(y, x) else 0)))

    # maps: records by key, visited in an arbitrary order
    def op_mempty(self):
        return {}

    def op_key(self, *k):
        return tuple(self.target(x) for x in k)

    def op_mset(self, c, key, kind, off, v):
        d, key = dict(self(c)), self(key)
        d[key] = dict(d.get(key, {}))
        d[key][kind, off] = self(v)
        return d

    def op_mget(self, kind, c, key, off):
        r = self(c).get(self(key), {})
        return r.get((kind, off), 0) if r else 0

    def op_msize(self, c):
        return len(self(c))

    def op_entries(self, c):
        d = self(c)
        return tuple({("raw8", 0): k[0], **{(a, o + 16): v for (a, o), v in d[k].items()}} for k in self.keys(d))

    def keys(self, d):
        return sorted(d, key=lambda k: (hash(k) * 7919) % 1009, reverse=self.flip)

    def op_entry(self, kind, c, k, off):
        v, k = self.op_entries(c), int(self(k))
        if not 0 <= k < len(v):
            raise Outside("entry %d of a map of %d" % (k, len(v)))
        return self.field(v[k], kind, off)

    def op_ptrtoint(self, x):
        if x.op == "ptr" and x.args[0].op == "slot":
            r, o, k, n = x.args[0].args
            return int(self(k)) * n + x.args[1]
        raise Unknown("address")

    def op_eq(self, x, y):
        a, b = self(x), self(y)
        if ("null",) in (a, b) and a != b:
            return 0
        if isinstance(a, tuple) and a[:1] == ("&",) and isinstance(b, tuple) and b[:1] == ("&",) and a != b:
            if a[1].op in ("loop", "in") or b[1].op in ("loop", "in"):
                raise Unknown("pointers")
        return int(a is b or a == b)

    def op_sdiv(self, x, y):
        return interp.tdiv(int(self(x)), int(self(y)))



# ---- cases and judgement ------------------------------------------------------
G = [(F(1), (0, 0)), (F(1), (1, 0)), (F(1), (0, 1)), (F(1), (1, 1))]
BUILDS = {"release": ("-DNDEBUG",), "debug": ()}
PROBLEMS = (Unknown, ZeroDivisionError, OverflowError, TypeError, ValueError, AttributeError, KeyError, IndexError)


def num(ring, v, r=None):
    return Renf(v, r) if ring == "NumberField" else F(v)


def modules(ring, gens=G[:3], rings=None):
    for r in rings or RINGS[ring][:1]:
        for n in range(len(gens) + 1):
            for b in itertools.combinations(gens, n):
                yield Mod(r, b)


def elems(ring, mods, vals=(0, 1, -2)):
    for m in mods:
        for c in itertools.product(vals, repeat=len(m.basis)):
            yield Elem(m, [num(ring, v, m.ring) for v in c])


def thin(xs, n, seed=1):
    xs = list(xs)
    return xs if len(xs) <= n else random.Random(seed).sample(xs, n)


class Job:
    """a function, the abstract elements among its arguments, its cases and what it has to do"""

    def __init__(self, name, pat, elems, cases, want, out, env=None, module=None, kind=None):
        self.name, self.pat, self.elems, self.cases, self.want, self.out, self.env, self.module, self.kind = name, pat, elems, cases, want, out, env or {}, module, kind


def result(A, s, out):
    """the term that describes what the function leaves behind"""
    kind, n = out
    p = T("arg", n)
    if kind == "elem":
        return elem(A, s.mem, p)
    if kind == "vec":
        return A.read(s.mem, "vec", p)
    if kind == "bool":
        return s.ret
    if kind == "optional":
        return elem(A, s.mem, p), A.read(s.mem, "raw1", seq.shift(p, 32))
    return A.read(s.mem, kind, p)


def judge(lab, rep, ring, job, thorough=False):
    key = "%s<%s>" % (job.name, ring)
    fs = lab.find(r"^([^(]*[ &])?exactreal::Element<exactreal::%s>::%s" % (ring, job.pat) if not job.pat.startswith("verif") else "^%s_%s\\(" % (job.pat, ring), 0)
    fs = [f for f in fs if "'lambda'" not in f["dem"]]
    if len(fs) != 1:
        rep.ob(key, None, "not lowered" if not fs else "ambiguous")
        return
    f = fs[0]
    A, s = summary(lab, f, job.elems)
    place = [e["ins"] for e in s.events][:1]
    place = common.where(place[0]) if place else None
    if s.undecided or s.mem is None:
        rep.ob(key, None, "; ".join(map(str, s.undecided))[:200] or "never returns", place)
        return
    outs = result(A, s, job.out)
    outs = list(outs) if isinstance(outs, tuple) else [outs]
    ref = job.out[0] == "elem" and s.ret is not None
    rest = {n: elem(A, s.mem, T("arg", n)) for n in job.elems if (job.out[0], job.out[1]) != ("elem", n) and not (job.out[0] == "elem" and job.elems[n] == job.elems.get(job.out[1]))}
    fl = Follow(s, 40, outs + [s.retpc, FALSE if s.ret is None else s.ret] + list(rest.values()) + [t for e in s.events if e["name"] == "itself" and e["extra"] for t in (e["pc"], *e["extra"].values())])
    bad = und = None
    done = 0
    itself = [e for e in s.events if e["name"] == "itself" and e["extra"]]
    if ref and not all(x.op == "ptr" and x.args == (T("arg", job.out[1]), 0) or x is T("arg", job.out[1]) for x in leaves(s.ret)):
        bad = "returns something else than its own object"
    for case in job.cases if not bad else ():
        env, text, args = case
        base = dict(job.env)
        base.update(env)
        for flip in (False, True):
            m = Free(base, lab, ring, flip)
            try:
                want = job.want(*args)
            except Threw as e:
                want = e
            try:
                try:
                    fl.run(m)
                    if not m.holds(s.retpc):
                        raise Threw("an exception")
                    if any(m.holds(e["pc"]) and all(m(t) == m(T(job.elems[k])) for k, t in e["extra"].items()) for e in itself):
                        raise unroll.Endless("")
                    got = [None, m(outs[1])] if job.out[0] == "optional" else [m(outs[0])]
                    if job.out[0] == "optional" and got[1]:
                        got[0] = m(outs[0])
                    if job.out[0] == "elem" and isinstance(got[0], tuple) and got[0][0] is REF:
                        got[0] = got[0][1]
                    wrong = compare(job, ring, got, want, m, rest, args)
                except unroll.Endless:
                    wrong = "it never ends"
                except Outside as e:
                    wrong = str(e)
                except Threw as e:
                    wrong = None if isinstance(want, Threw) else "an exception (%s)" % e
                done += 1
                if wrong:
                    bad = "%s for %s" % (wrong, text)
                    break
            except PROBLEMS as e:
                und = "%s %s for %s" % (type(e).__name__, e, text)
                break
            if not any(k[0] == "map" for d in s.loops.values() for k in d):
                break
        if bad or und:
            break
    rep.count("cases", done)
    rep.ob(key, False if bad else None if und or not done else True, bad or und or "right for all %d cases" % done, place)


def show(v):
    return " + ".join("%s*%s" % (c, gname(g)) for g, c in v.items()) or "0"


def compare(job, ring, got, want, m, rest, args):
    if isinstance(want, Threw):
        return "no error where %s" % want
    if job.out[0] == "optional":
        if bool(got[1]) != (want is not None):
            return "no quotient although it is %s" % show(want.value()) if want else "a quotient although there is none"
        if want is None:
            return None
        if isinstance(got[0], tuple) and got[0] and got[0][0] is REF:
            got[0] = got[0][1]
        want = want.value()
    if job.out[0] in ("elem", "optional"):
        e = got[0]
        if not isinstance(e, Elem):
            raise Unknown("not an element")
        w = want if isinstance(want, dict) else want.value()
        if len(e.coefs) != len(e.mod.basis):
            return "%d coefficients over %d generators" % (len(e.coefs), len(e.mod.basis))
        if e.value() != w:
            return "%s instead of %s" % (show(e.value()), show(w))
        if isinstance(want, Elem) and want.mod is not e.mod:
            return "an element of %r instead of %r" % (e.mod, want.mod)
        if job.module:
            r = job.module(e, *args)
            if r:
                return r
        if ring == "NumberField":
            for c in e.coefs:
                if isinstance(c, Renf) and c and c.ring and e.mod.ring and c.ring != e.mod.ring:
                    return "a coefficient outside of the ring of the module"
    elif job.out[0] == "vec":
        v = [m.field(r, job.kind, 0) for r in got[0]]
        if v != list(want):
            return "%s instead of %s" % (list(map(str, v)), list(map(str, want)))
    else:
        if F(got[0]) != F(want):
            return "%s instead of %s" % (got[0], want)
    for n, t in rest.items():
        v = m(t)
        if isinstance(v, tuple) and v and v[0] is REF:
            v = v[1]
        if v != m.env[T(job.elems[n])]:
            return "an operand is changed"
    return None


def contains(e, *args):
    for x in args:
        if isinstance(x, Elem) and (not set(x.mod.basis) <= set(e.mod.basis) or compositum(e.mod.ring, x.mod.ring) != e.mod.ring):
            return "an element of %r, which does not contain %r" % (e.mod, x.mod)
    return None


def joint(e, x, y):
    if x.value() and y.value() and e.mod.ring != compositum(x.mod.ring, y.mod.ring):
        return "an element over another ring than the compositum of those of the factors"
    return None


def least(e, x):
    if set(e.mod.basis) != set(x.value()):
        return "an element of %r instead of the smallest module of %s" % (e.mod, show(x.value()))
    return None


def jobs(ring, thorough):
    big = 1200 if thorough else 250
    x, y = T("x"), T("y")
    X, Y = T("arg", 0), T("arg", 1)
    kind = KIND[ring]
    rs = RINGS[ring]
    one = list(elems(ring, modules(ring)))
    wide = thin(elems(ring, [Mod(rs[0], b) for b in itertools.combinations(G + [(F(1), (2, 0)), (F(1), (0, 2))], 5)], (0, 3)), 120)
    two = [(a, b) for a in one for b in one]
    pairs = thin(two, big) + [(a, b) for a in thin(one, 12) for b in thin(one, 12, 2) if a.mod is b.mod]
    mixed = [(a, b) for a in thin(elems(ring, modules(ring, G[:2], rs)), 40) for b in thin(elems(ring, modules(ring, G[:2], rs)), 40, 2)] if len(rs) > 1 else []
    text = lambda *a: " and ".join(map(repr, a))
    binary = [({x: a, y: b}, text(a, b), (a, b)) for a, b in pairs + thin(mixed, big)]
    alias = [({x: a}, text(a) + " and itself", (a, a)) for a in one]
    larger = thin(elems(ring, modules(ring, G[:3], rs[1:])), 60) if len(rs) > 1 else []
    unary = [({x: a}, text(a), (a,)) for a in one + wide + larger]
    out = []
    for o, pat, k in (("+", r"operator\+=", 1), ("-", r"operator-=", -1)):
        w = lambda a, b, k=k: total((1, a.value()), (k, b.value()))
        out.append(Job("x %s= y" % o, pat + r"\(", {0: "x", 1: "y"}, binary, w, ("elem", 0), module=contains))
        out.append(Job("x %s= x" % o, pat + r"\(", {0: "x", 1: "x"}, alias, w, ("elem", 0), module=contains))
    w = lambda a, b: convolve(a.value(), b.value())
    out.append(Job("x *= y", r"operator\*=\(exactreal::Element<", {0: "x", 1: "y"}, binary, w, ("elem", 0), module=joint))
    out.append(Job("x *= x", r"operator\*=\(exactreal::Element<", {0: "x", 1: "x"}, alias, w, ("elem", 0)))
    gen = [({x: a, T("in", "raw8", T("arg", 1), 8): g, T("in", "raw8", T("arg", 1), 16): ("&", T("owner"), 0), T("arg", 1): g}, "%r and the number %s" % (a, gname(g)), (a, g)) for a in one for g in G]
    out.append(Job("x *= real number", r"operator\*=\(exactreal::RealNumber", {0: "x"}, gen, lambda a, g: convolve(a.value(), {g: 1}), ("elem", 0)))
    out.append(Job("-x", r"operator-\(\)", {1: "x"}, unary, lambda a: {g: -c for g, c in a.value().items()}, ("elem", 0), module=contains))
    targets = list(modules(ring, G, rs))
    promote = [({x: a, T("in", "raw8", T("arg", 1), 0): m}, "%r and the module %r" % (a, m), (a, m)) for a, m in thin([(a, m) for a in one + thin(wide, 20) for m in targets if compositum(a.mod.ring, m.ring) == m.ring], 2 * big)]
    out.append(Job("promote", r"promote\(", {0: "x"}, promote, lambda a, m: a if a.mod is m else place_(a.value(), m), ("elem", 0)))
    out.append(Job("simplify", r"simplify\(", {0: "x"}, unary, lambda a: a.value(), ("elem", 0), module=least))
    for ty, (k, n) in KINDS.items():
        if ty.startswith("eantic") and ring != "NumberField" or ty in (MPZ, MPQ):
            continue
        pat = re.escape("(" + ty + ")")
        if k is None:
            vals = [2, 1, (-1 if n[0] == "s" else 3)] + [(1 << n[1] - 1) - 1, -(1 << n[1] - 1) if n[0] == "s" else (1 << n[1]) - 1, 0]
            t = T("arg", 1)
        else:
            vals = [F(2), F(-1), F(0), F((1 << 70) + 1)] + ([F(3, 2)] if k != "mpz" else [])
            t = T("in", k, T("arg", 1), 0)
        for o in "*/":
            def w(a, v, o=o):
                r = {}
                if o == "/" and v == 0:
                    raise Threw("division by zero")
                for g, c in a.value().items():
                    r[g] = F(c) * v if o == "*" else F(c) / v
                    if ring == "IntegerRing" and r[g].denominator != 1:
                        raise Threw("inexact")
                return {g: c for g, c in r.items() if c}
            def cell(v, k=k, n=n):
                if k is None and v < 0:
                    return v
                return v
            es = thin(one, 30) + thin(wide, 5)
            cases = []
            for a in es:
                for v in vals:
                    if o == "/" and v == 0 and not a.coefs:
                        continue
                    e = {x: a, t: v}
                    if k:
                        e[T("obj", k, T("ptr", T("arg", 1), 0))] = v
                    cases.append((e, "%r and %s" % (a, v), (a, v)))
            out.append(Job("x %s= %s" % (o, ty.split("<")[0] + (k or "")), r"operator\%s=(<true, void>)?%s" % (o, pat), {0: "x"}, cases, w, ("elem", 0), module=contains))
    out.append(Job("coefficients", r"coefficients\(", {1: "x"}, unary, lambda a: a.coefs, ("vec", 0), kind=kind))
    at = [({x: a, T("arg", 2): k}, "%r and %d" % (a, k), (a, k)) for a in thin(one, 60) + thin(wide, 20) for k in range(len(a.coefs))]
    out.append(Job("operator[]", r"operator\[\]", {1: "x"}, at, lambda a, k: a.coefs[k], (kind, 0)))
    if ring == "NumberField":
        reps = []
        for k, v in enumerate([(F(0), F(0)), (F(1), F(0)), (F(0), F(-2)), (F(1, 2), F(-5, 3))]):
            c = Renf(v[0] + 100 * v[1], "K1")
            c.rep = v
            reps.append(c)
        cs = [Elem(Mod("K1", b), c) for n in range(3) for b in itertools.combinations(G, n) for c in itertools.product(reps, repeat=n)]
        out.append(Job("rationalCoefficients", r"rationalCoefficients\(", {1: "x"}, [({x: a}, "%s" % [tuple(map(str, c.rep)) for c in a.coefs], (a,)) for a in cs], lambda a: [q for c in a.coefs for q in c.rep], ("vec", 0), kind="mpq"))
    else:
        out.append(Job("rationalCoefficients", r"rationalCoefficients\(", {1: "x"}, unary, lambda a: [F(c) for c in a.coefs], ("vec", 0), kind="mpq"))
    out.append(Job("operator bool", r"operator bool\(", {0: "x"}, [({x: a}, repr(a), (a,)) for a in one + wide], lambda a: int(bool(a.value())), ("bool", 0)))
    qs = thin([(a, b) for a in elems(ring, modules(ring, G[:3]), (0, 1, -2)) for b in elems(ring, modules(ring, G[:3]), (0, 1, 3)) if len(b.value()) <= 2], big)
    exact = [(productof(a, b), b) for a in thin(one, 20) for b in thin(one, 20, 3)]
    units = [Elem(Mod(rs[0], (G[0],)), (num(ring, v, rs[0]),)) for v in (1, -1, 2, -2)]
    div = [({x: a, y: b}, text(a, b), (a, b)) for a, b in qs + thin(exact, big) + [(a, u) for a in thin(one, 20) for u in units]]
    out.append(Job("truediv", r"truediv\(", {1: "x", 2: "y"}, div, lambda a, b: quotientof(a, b, ring), ("optional", 0)))
    # construction
    out.append(Job("Element()", r"Element\(\)", {}, [({}, "nothing", ())], lambda: Elem(Mod(DEFAULT[ring], ()), ()), ("elem", 0)))
    fld = {(kind, 0)}
    pc = [({T("in", "raw8", T("arg", 1), 0): a.mod, T("in", "vec", T("arg", 2), 0): tuple({(kind, 0): c} for c in a.coefs)}, repr(a), (a,)) for a in one]
    out.append(Job("Element(module, coefficients)", r"Element\(std::shared_ptr", {}, pc, lambda a: a, ("elem", 0)))
    vs = [num(ring, v, r) for v in (0, 1, -2, 7) for r in rs]
    out.append(Job("Element(value)", r"Element\((__gmp_expr|eantic)", {}, [({T("in", kind, T("arg", 1), 0): v}, str(v), (v,)) for v in vs], lambda v: Elem(Mod(getattr(v, "ring", None) or DEFAULT[ring], (G[0],)), (v,)), ("elem", 0)))
    for r in {"IntegerRing": (), "RationalField": ("IntegerRing",), "NumberField": ("IntegerRing", "RationalField")}[ring]:
        conv = [({y: a}, repr(a), (a,)) for a in elems(r, modules(r))]
        out.append(Job("Element(Element<%s>)" % r, r"Element<.*>\(exactreal::Element<exactreal::%s>" % r, {1: "y"}, conv, lambda a: Elem(Mod(DEFAULT[ring], a.mod.basis), a.coefs), ("elem", 0)))
    # operators that return a new element
    for name, ps, ex in drivers():
        if "renf" in ps and ring != "NumberField":
            continue
        es = thin(one, 40)
        e1, e2 = ("x", "y")
        key = "%s [%s]" % (ex, ps)
        if ps == "e":
            out.append(Job(key, "verif_driver::" + name, {1: "x"}, unary, lambda a: {g: -c for g, c in a.value().items()}, ("elem", 0), module=contains))
        elif ps == "e e":
            w = {"add": lambda a, b: total((1, a.value()), (1, b.value())), "sub": lambda a, b: total((1, a.value()), (-1, b.value())), "mul": lambda a, b: convolve(a.value(), b.value())}[name]
            out.append(Job(key, "verif_driver::" + name, {1: "x", 2: "y"}, thin(binary, 150), w, ("elem", 0), module=contains if name != "mul" else joint))
        elif "g" in ps.split(" "):
            k = 2 if ps == "e g" else 1
            P = T("arg", k)
            cs = [({x: a, T("in", "raw8", P, 8): g, T("in", "raw8", P, 16): ("&", T("owner"), 0), P: g}, "%r and the number %s" % (a, gname(g)), (a, g)) for a in es for g in G]
            out.append(Job(key, "verif_driver::" + name, {3 - k: "x"}, cs, lambda a, g: convolve(a.value(), {g: 1}), ("elem", 0)))
        else:
            k = 1 if ps.endswith(" e") else 2
            ty = ps[:-3] if k == 1 else ps[2:]
            kd = "mpz" if "mpz" in ty else "mpq" if "mpq" in ty else "renf_elem" if "renf" in ty else None
            n = None if kd else KINDS[ty][1]
            vals = [F(2), F(-1), F(-(1 << 70) - 3)] + ([F(3, 2)] if kd != "mpz" and ring != "IntegerRing" else []) if kd else [2, 1, (1 << n[1] - 1) - 1] + ([-3, -(1 << n[1] - 1)] if n[0] == "s" else [(1 << n[1]) - 1])
            P = T("arg", k)
            cs = []
            for a in es:
                for v in vals:
                    env = {x: a, P: v}
                    if kd:
                        env[T("in", kd, P, 0)] = env[T("obj", kd, T("ptr", P, 0))] = v
                    cs.append((env, "%r and %s" % (a, v), (a, v)))
            def w(a, v, o=ex[2]):
                r = {g: F(c) * v if o == "*" else F(c) / v for g, c in a.value().items()}
                if ring == "IntegerRing" and any(c.denominator != 1 for c in r.values()):
                    raise Threw("inexact")
                return {g: c for g, c in r.items() if c}
            out.append(Job(key, "verif_driver::" + name, {3 - k: "x"}, cs, w, ("elem", 0), module=contains))
    return out


def run(facts, rep):
    rep.explanation = "each function is summarised with abstract elements as operands; the summary (with its loops) is evaluated in finite free modules and compared with module algebra, generator by generator; so are the module, the ring, the number of coefficients and the operands afterwards"
    common.parallel(facts, rep, [lambda b=b: facts.compile(["element"], extra=b) for b in BUILDS.values()])

    def part(ring, build):
        # an assertion that does not hold is an exception in a debug build
        l = lab(facts, rep, extra=BUILDS[build])
        for j in jobs(ring, rep.tier == "thorough"):
            if build == "debug":
                j.name += " (debug)"
            judge(l, rep, ring, j)
    common.parallel(facts, rep, [lambda r=r, b=b: part(r, b) for r in KIND for b in BUILDS])
