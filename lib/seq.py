"""Sequences and maps as values: a domain for vectors, iterators and loops over them.

The content of a vector is a term: in(vec, ...) for what was there on entry,
nil, fill(n, fields), push(c, fields), setat(c, k, kind, off, v).  A pointer
to an element, and an iterator, is ptr(slot(owner root, owner offset, index,
stride), offset): reads go through the content the owner has at that time,
writes change it.  A pointer that walks over a vector in a loop is an index
that changes in the loop."""
import re

import vf
from vf import T, Int, lift, ite, isint, TRUE, FALSE, And, Or, Not, leaves

RP = "std::shared_ptr<exactreal::RealNumber const>"
MPZ = "__gmp_expr<__mpz_struct [1], __mpz_struct [1]>"
MPQ = "__gmp_expr<__mpq_struct [1], __mpq_struct [1]>"
RENF = "eantic::renf_elem_class"
STRING = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
FIELDS = {RP: ([("raw8", 0)], 16), MPZ: ([("mpz", 0)], 16), MPQ: ([("mpq", 0)], 32), RENF: ([("renf_elem", 0)], 88),
          "int": ([("raw4", 0)], 4), "unsigned int": ([("raw4", 0)], 4), "long": ([("raw8", 0)], 8), "unsigned long": ([("raw8", 0)], 8), STRING: ([("str", 0)], 32)}

ALGORITHMS = r"^(?!.*::operator\(\))[^(]*\bstd::(sort|stable_sort|find|find_if|find_if_not|any_of|all_of|none_of|count_if|transform|copy|copy_if|lower_bound|upper_bound|unique|remove_if|reverse|rotate|for_each|accumulate|is_sorted|adjacent_find|set_union|merge|includes|equal|mismatch|min_element|max_element|partition|search)<"
OPAQUE = r"|^([^(]*[ &*])?std::(vector|map)<.*>::(emplace_back|emplace|try_emplace|insert|insert_or_assign)\b|^bool std::operator(==|!=)<(char|std::|exactreal|int|unsigned|long)|" + ALGORITHMS


def split(args):
    """the arguments of a template or function, at top level"""
    out, depth, cur = [], 0, ""
    for ch in args:
        if ch in "<([":
            depth += 1
        elif ch in ">)]":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def bracket(s, i, op="<", cl=">"):
    depth = 0
    for j in range(i, len(s)):
        if s[j] == op:
            depth += 1
        elif s[j] == cl:
            depth -= 1
            if depth == 0:
                return j
    return -1


def fields(ty):
    """[(kind, offset)], size of an element type"""
    ty = ty.strip()
    if ty in FIELDS:
        return FIELDS[ty]
    if ty.endswith(" const") and ty[:-6].strip() in FIELDS:
        return FIELDS[ty[:-6].strip()]
    m = re.match(r"^std::pair<(.*)>$", ty)
    if m:
        a, b = split(m.group(1))
        fa, fb = fields(a), fields(b)
        if fa and fb:
            o = -(-fa[1] // 8) * 8 if fb[1] >= 8 else fa[1]
            n = -(-(o + fb[1]) // 8) * 8
            return fa[0] + [(k, o + d) for k, d in fb[0]], n
    m = re.match(r"^exactreal::CerealWrap<(.*)>$", ty)
    if m:
        return fields(m.group(1))
    return None


_method_memo = {}


def method(dem):
    """(container, element types, name, parameters, const) of a member of a vector or map"""
    if dem in _method_memo:
        return _method_memo[dem]
    r = None
    for c in ("vector", "map"):
        i = dem.find("std::%s<" % c)
        # the class named by the function, not one of its return or argument types
        while i >= 0:
            j = bracket(dem, i + len("std::" + c))
            if j < 0:
                break
            m = re.match(r"::(~?\w+|operator ?(?:=|==|\[\]))(<.*?>)?\(", dem[j + 1:])
            before = dem[:i]
            if m and "(" not in before and not re.search(r"std::(__\w+::)?\w+<", before.replace("std::shared_ptr<", "").replace("std::allocator<", "").replace("std::pair<", "")) or m and before == "":
                start = j + 1 + m.end() - 1
                k = bracket(dem, start, "(", ")")
                args = split(dem[j + 2:][:0] or dem[i + len("std::" + c) + 1:j])
                name = m.group(1).replace("operator ", "operator")
                r = (c, args, name, split(dem[start + 1:k]), dem[k + 1:].strip() == "const")
                break
            i = dem.find("std::%s<" % c, j + 1)
        if r:
            break
    _method_memo[dem] = r
    return r


def vsize(c):
    def f(v):
        if v.op == "nil":
            return Int(0)
        if v.op == "push":
            return vf.add(vsize(v.args[0]), Int(1))
        if v.op == "setat":
            return vsize(v.args[0])
        if v.op == "fill":
            return v.args[0]
        if v.op in ("conv", "sorted"):
            return vsize(v.args[1])
        return T("vsize", v)
    return lift(f, c)


def at(kind, content, k, off):
    def f(c, k):
        while True:
            if c.op == "setat":
                c2, k2, fk, fo, v = c.args
                d = vf.add(k, k2, -1)
                if isint(d, 0):
                    if fk == kind and fo == off:
                        return v
                    if kind == "raw4" and fk == "mpz" and off == fo + 4:
                        return T("sizefield", v)
                    w = {"raw4": 4, "raw8": 8, "mpz": 16, "mpq": 32}
                    if fo + w.get(fk, 8) <= off or off + w.get(kind, 8) <= fo:
                        c = c2
                        continue
                    return T("at", kind, c, k, off)
                if isint(d):
                    c = c2
                    continue
                return T("at", kind, c, k, off)
            if c.op == "push":
                d = vf.add(k, vsize(c.args[0]), -1)
                if isint(d, 0):
                    for fk, fo, v in c.args[1]:
                        if fk == kind and fo == off:
                            return v
                        if kind == "raw4" and fk == "mpz" and off == fo + 4:
                            return T("sizefield", v)
                    return T("at", kind, c, k, off)
                if isint(d) or (isint(k) and isint(vsize(c.args[0]))):
                    c = c.args[0]
                    continue
                return T("at", kind, c, k, off)
            if c.op == "fill":
                for fk, fo, v in c.args[1]:
                    if fk == kind and fo == off:
                        return v
            if kind == "raw4" and off % 16 == 4 and c.op in ("in", "loop", "fill", "conv"):
                return T("sizefield", T("at", "mpz", c, k, off - 4))
            return T("at", kind, c, k, off)
    return lift(f, content, k)


class Seq(vf.Analysis):
    """the analysis, with pointers into vectors and maps that know where they point"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.walks = {}

    @staticmethod
    def offset(b, off):
        if b.op == "ptr" and b.args[0].op == "slot":
            r, o, k, n = b.args[0].args
            c, d = vf.lin_of(off)
            if any(x.op in ("sdiv", "ashr") for x in d):
                off = Int(c)
                for x, y in d.items():
                    off = vf.add(off, vf.scale(distance(x), y))
                c, d = vf.lin_of(off)
            c += b.args[1]
            if all(x % n == 0 for x in d.values()):
                for x, y in d.items():
                    k = vf.add(k, vf.scale(x, y // n))
                q, c = divmod(c, n)
                if q:
                    k = vf.add(k, Int(q))
                return T("ptr", T("slot", r, o, k, n), c)
        return vf.Analysis.offset(b, off)

    def generic(self, h, key, t):
        ent = self.loopvals[h][key]
        init = ent[0]
        ls = leaves(init) if init is not None else []
        if ls and all(x.op == "ptr" and x.args[0].op in ("slot", "node") for x in ls):
            owners = {(x.args[0].op, x.args[0].args[:2], x.args[0].args[3:], x.args[1]) for x in ls}
            if len(owners) == 1:
                (op, who, rest, o), = owners
                if o == 0:
                    self.walks[(h, key)] = (op, who, rest)
                    ent[0] = lift(lambda x: x.args[0].args[2], init)
                    return T("ptr", T(op, who[0], who[1], t, *rest), 0)
        self.walks.pop((h, key), None)
        return t

    def induct(self, h, key, v):
        w = self.walks.get((h, key))
        if w is None or v is None:
            return v
        op, who, rest = w

        def f(x):
            if x.op == "ptr" and x.args[0].op == op and x.args[0].args[:2] == who and x.args[0].args[3:] == rest and x.args[1] == 0:
                return x.args[0].args[2]
            self.undecided.append("an iterator that leaves its vector: %r" % (x,))
            return T("stray", x)
        return lift(f, v)

    def _read(self, mem, kind, p):
        if p.op == "ptr" and not kind.startswith("life:"):
            root, off = p.args
            if root.op == "slot":
                r, o, k, n = root.args
                c = self.read(mem, "vec", T("ptr", r, o))
                if kind == "vec":
                    return T("at", kind, c, k, off)
                return at(kind, c, k, off)
            if root.op == "node":
                r, o, k = root.args
                c = self.read(mem, "map", T("ptr", r, o))
                return lift(lambda c, k: T("entry", kind, c, k, off), c, k)
            if root.op == "mslot":
                r, o, key = root.args
                return mget(kind, self.read(mem, "map", T("ptr", r, o)), key, off)
            if root.op == "elt" and len(root.args) == 2 and root.args[0].op == "alloca":
                return self.select(mem, kind, root, off)
        return super()._read(mem, kind, p)

    def select(self, mem, kind, root, off):
        """an entry of a local array"""
        base, at = root.args
        known = []
        for (k, r, o), v in mem.cells.items():
            if r.op == "elt" and r.args[0] is base and not k.startswith("life:"):
                return super()._read(mem, kind, T("ptr", root, off))
            if r is base and k == kind and v.op not in ("gone", "undef"):
                known.append((o, v))
        out = T("in", kind, root, off)
        for o, v in sorted(known, key=lambda x: -x[0]):
            out = vf.ite(vf.icmp("eq", at, Int(o - off)), v, out)
        return out

    def write(self, mem, kind, ptr, value):
        gl = vf.guarded_leaves(ptr)
        if any(p.op == "ptr" and p.args[0].op in ("slot", "node", "mslot") for g, p in gl):
            if kind.startswith("life:"):
                return
            for g, p in gl:
                v = value
                if p.op != "ptr" or p.args[0].op not in ("slot", "mslot"):
                    if p.op == "ptr" and p.args[0].op == "node":
                        self.undecided.append("a write through an iterator of a map")
                        continue
                    super().write(mem, kind, p, v if g is TRUE else ite(g, v, self._read(mem, kind, p)))
                    continue
                op, (r, o, k) = p.args[0].op, p.args[0].args[:3]
                if op == "slot" and kind == "raw8" and p.args[0].args[3] == 16 and p.args[1] == 8:
                    continue
                ck = "vec" if op == "slot" else "map"
                c = self.read(mem, ck, T("ptr", r, o))
                new = lift(lambda c, k, v: T("setat" if op == "slot" else "mset", c, k, kind, p.args[1], v), c, k, v) if op == "slot" else lift(lambda c: T("mset", c, k, kind, p.args[1], v), c)
                super().write(mem, ck, T("ptr", r, o), new if g is TRUE else ite(g, new, c))
            return
        super().write(mem, kind, ptr, value)


def mget(kind, c, key, off):
    def f(c):
        while c.op == "mset":
            if c.args[1] is key:
                if c.args[2] == kind and c.args[3] == off:
                    return c.args[4]
                if c.args[3] == off and kind != c.args[2]:
                    return T("mget", kind, c, key, off)
                c = c.args[0]
                continue
            return T("mget", kind, c, key, off)
        return T("mget", kind, c, key, off)
    return lift(f, c)


def iterators(content, n, r, o, k):
    return T("ptr", T("slot", r, o, k, n), 0)


def owners(p, f):
    """apply f to (root, offset) of every place a pointer may name"""
    return lift(lambda q: f(*(q.args if q.op == "ptr" else (q, 0))), p)


def record(A, mem, ty, p):
    """the fields of the value at p"""
    fs, n = fields(ty)
    return fs, [A.read(mem, k, A.offset_(p, d)) for k, d in fs]


def shift(p, d):
    return lift(lambda q: T("ptr", q.args[0], q.args[1] + d) if q.op == "ptr" else T("ptr", q, d), p)


def values(A, mem, ty, p):
    fs, n = fields(ty)
    return [(k, d, A.read(mem, k, shift(p, d))) for k, d in fs]


def zero(ty):
    out = []
    for k, d in fields(ty)[0]:
        out.append((k, d, Int(0, 32) if k == "raw4" else T("null") if ty == RP else Int(0)))
    return out


def lifted(f, vals):
    """f of a tuple of (kind, offset, value) with undivided values"""
    return lift(lambda *vs: f(tuple((k, d, v) for (k, d, _), v in zip(vals, vs))), *[v for _, _, v in vals])


def vectors(A, name, dem, i, args, mem):
    m = method(dem) if dem and "std::vector<" in dem else None
    if not m or m[0] != "vector":
        return NotImplemented
    _, targs, what, ps, const = m
    ty = targs[0]
    f = fields(ty)
    if f is None:
        return NotImplemented
    fs, n = f
    this = args[0]
    get = lambda p=None: A.read(mem, "vec", this if p is None else p)

    def put(c):
        A.write(mem, "vec", this, c)

    if what == "vector":
        if ps and ps[0].startswith("std::vector<"):
            put(get(args[1]))
            if ps[0].endswith("&&"):
                A.write(mem, "vec", args[1], T("nil"))
        elif not ps or ps[0].startswith("std::allocator"):
            put(T("nil"))
        elif ps[0].startswith("std::initializer_list"):
            if not isint(args[2]):
                A.undecided.append("an initializer list of unknown length")
                return None
            c = T("nil")
            for j in range(args[2].args[0]):
                c = lifted(lambda fv, c=c: T("push", c, fv), values(A, mem, ty, shift(args[1], j * n)))
            put(c)
        elif ps[0] == "unsigned long":
            if len(ps) > 1 and not ps[1].startswith("std::allocator"):
                put(lift(lambda k: lifted(lambda fv: T("fill", k, fv), values(A, mem, ty, args[2])), args[1]))
            else:
                put(lift(lambda k: T("fill", k, tuple(zero(ty))), args[1]))
        elif len(ps) >= 2 and ps[0] == ps[1]:
            put(span(A, mem, ty, args[1], args[2]))
        else:
            A.undecided.append("constructor of a vector: " + dem[:80])
        return None
    if what == "~vector":
        return None
    if what == "operator=":
        put(get(args[1]))
        return this
    if what == "size":
        return vsize(get())
    if what == "capacity":
        return lift(lambda c: T("vcapacity", c), get())
    if what == "empty":
        return lift(lambda v: vf.icmp("eq", v, Int(0)), vsize(get()))
    slot = lambda k: lift(lambda kk: owners(this, lambda r, o: T("ptr", T("slot", r, o, kk, n), 0)), k)
    if what in ("operator[]", "at"):
        if what == "at":
            A.event(i, "at", [get(), args[1]])
        return slot(args[1])
    if what in ("begin", "cbegin", "front", "data"):
        return slot(Int(0))
    if what in ("end", "cend"):
        return slot(vsize(get()))
    if what == "back":
        return slot(vf.add(vsize(get()), Int(1), -1))
    if what in ("push_back", "emplace_back") and len(ps) == 1:
        src = ps[0].rstrip("&").strip()
        src = src[:-6].strip() if src.endswith(" const") else src
        c = get()
        if src == ty:
            vals = values(A, mem, ty, args[1])
        else:
            A.undecided.append("an element made from " + src)
            vals = [(k, d, T("made", src, args[1])) for k, d in fs]
        put(lift(lambda c: lifted(lambda fv: T("push", c, fv), vals), c))
        return slot(vsize(c)) if what == "emplace_back" else None
    if what == "reserve" or what == "shrink_to_fit":
        return None
    if what == "clear":
        put(T("nil"))
        return None
    A.undecided.append("operation on a vector: " + dem[:100])
    if not const:
        put(T("unknown", i["id"]))
    return NotImplemented


def span(A, mem, ty, first, last):
    """the sequence between two iterators"""
    def f(a, b):
        if a.op == "ptr" and b.op == "ptr" and a.args[0].op == b.args[0].op:
            x, y = a.args[0], b.args[0]
            if x.op == "slot" and x.args[:2] == y.args[:2] and isint(x.args[2], 0) and a.args[1] == b.args[1] == 0:
                c = A.read(mem, "vec", T("ptr", *x.args[:2]))

                def g(c, e):
                    if e is vsize(c):
                        return c if x.args[3] == fields(ty)[1] else T("conv", ty, c)
                    return T("range", c, Int(0), e)
                return lift(g, c, y.args[2])
            if x.op == "node" and x.args[:2] == y.args[:2] and isint(x.args[2], 0):
                c = A.read(mem, "map", T("ptr", *x.args[:2]))
                return lift(lambda c, e: T("entries", c) if e is T("msize", c) else T("range", c, Int(0), e), c, y.args[2])
        return T("between", a, b)
    return lift(f, first, last)


def maps(A, name, dem, i, args, mem):
    if dem and re.match(r"^std::_Rb_tree_(increment|decrement)\(", dem):
        def f(p):
            if p.op == "ptr" and p.args[0].op == "node" and p.args[1] == 0:
                r, o, k = p.args[0].args
                return T("ptr", T("node", r, o, vf.add(k, Int(1), 1 if "increment" in dem else -1)), 0)
            A.undecided.append("an iterator of an unknown map")
            return T("callret", dem, p)
        return lift(f, args[0])
    m = re.match(r"^(?:bool )?std::_Rb_tree_(?:const_)?iterator<.*>::(operator(?:\*|->|\+\+|--|==|!=))\((int)?", dem or "") or re.match(r"^bool std::(operator(?:==|!=))\(std::_Rb_tree_(?:const_)?iterator<()", dem or "")
    if m:
        step = lambda p, d: lift(lambda q: T("ptr", T("node", q.args[0].args[0], q.args[0].args[1], vf.add(q.args[0].args[2], Int(1), d)), 0) if q.op == "ptr" and q.args[0].op == "node" else T("stray", q), p)
        it = A.read(mem, "raw8", args[0])
        if m.group(1) in ("operator*", "operator->"):
            return shift(it, 32)
        if m.group(1) in ("operator++", "operator--"):
            A.write(mem, "raw8", args[0], step(it, 1 if "+" in m.group(1) else -1))
            return it if m.group(2) else args[0]
        r = lift(lambda a, b: vf.icmp("eq", a, b), it, A.read(mem, "raw8", args[1]))
        return r if "==" in m.group(1) else Not(r)
    m = method(dem) if dem and "std::map<" in dem else None
    if not m or m[0] != "map":
        return NotImplemented
    _, targs, what, ps, const = m
    if fields(targs[0]) is None:
        return NotImplemented
    this = args[0]
    get = lambda p=None: A.read(mem, "map", this if p is None else p)
    put = lambda c: A.write(mem, "map", this, c)
    if what == "map":
        if ps and ps[0].startswith("std::map<"):
            put(get(args[1]))
        elif not ps:
            put(T("mempty"))
        else:
            A.undecided.append("constructor of a map")
        return None
    if what == "~map":
        return None
    if what == "operator=":
        put(get(args[1]))
        return this
    if what == "size":
        return lift(lambda c: T("msize", c), get())
    if what == "empty":
        return lift(lambda c: vf.icmp("eq", T("msize", c), Int(0)), get())
    if what in ("begin", "cbegin"):
        return owners(this, lambda r, o: T("ptr", T("node", r, o, Int(0)), 0))
    if what in ("end", "cend"):
        return lift(lambda c: owners(this, lambda r, o: T("ptr", T("node", r, o, T("msize", c)), 0)), get())
    if what == "operator[]" or what == "at":
        vals = values(A, mem, targs[0], args[1])
        key = lambda fv: T("key", *[v for _, _, v in fv])
        return lifted(lambda fv: owners(this, lambda r, o: T("ptr", T("mslot", r, o, key(fv)), 0)), vals)
    A.undecided.append("operation on a map: " + dem[:100])
    if not const:
        put(T("unknown", i["id"]))
    return NotImplemented


def algorithms(A, name, dem, i, args, mem):
    """sorting; searching as a question about the sequence"""
    m = re.search(r"\bstd::find<", dem or "")
    if m and re.match(ALGORITHMS, dem):
        targs = split(dem[m.end():bracket(dem, m.end() - 1)])
        if fields(targs[-1]) is None or len(args) != 3:
            return NotImplemented
        ls = leaves(lift(lambda a, b: T("pair", a, b), *args[:2]))
        if len(ls) != 1 or not all(p.op == "ptr" and p.args[0].op == "slot" for p in ls[0].args) or ls[0].args[0].args[0].args[:2] != ls[0].args[1].args[0].args[:2] or not isint(ls[0].args[0].args[0].args[2], 0):
            return NotImplemented
        r, o, _, st = ls[0].args[0].args[0].args
        c = A.read(mem, "vec", T("ptr", r, o))
        if ls[0].args[1].args[0].args[2] is not vsize(c):
            return NotImplemented
        vals = values(A, mem, targs[-1], args[2])
        return lifted(lambda fv: T("ptr", T("slot", r, o, T("position", c, T("key", *[v for _, _, v in fv])), st), 0), vals)
    m = re.search(r"\bstd::(sort|stable_sort)<", dem or "")
    if not m or not re.match(ALGORITHMS, dem):
        return NotImplemented
    head = dem[m.end() - 1:bracket(dem, m.end() - 1) + 1]
    order = split(head[1:-1])[1:]
    a, b = args[:2]

    def whole(a, b):
        return a.op == "ptr" and b.op == "ptr" and a.args[0].op == "slot" and b.args[0].op == "slot" and a.args[0].args[:2] == b.args[0].args[:2] and isint(a.args[0].args[2], 0)
    ls = leaves(lift(lambda a, b: T("pair", a, b), a, b))
    if len(ls) != 1 or not whole(*ls[0].args):
        A.undecided.append("sorting something else than a vector")
        return NotImplemented
    a, b = ls[0].args
    who = T("ptr", *a.args[0].args[:2])
    c = A.read(mem, "vec", who)
    new = lift(lambda c, e: T("sorted", order[0] if order else "<", c) if e is vsize(c) else T("partly", c), c, b.args[0].args[2])
    A.event(i, "sort", [c, T(order[0] if order else "<")])
    A.write(mem, "vec", who, new)
    return None


HOOKS = (vectors, maps, algorithms)


# ---- loops ------------------------------------------------------------------
def assume(t, atom, val):
    """t, a decision diagram, where atom is known"""
    memo = {}

    def go(x):
        if x.op != "ite":
            return x
        if x.id not in memo:
            if x.args[0] is atom:
                memo[x.id] = go(x.args[1 if val else 2])
            else:
                memo[x.id] = ite(T("ite", x.args[0], TRUE, FALSE), go(x.args[1]), go(x.args[2]))
        return memo[x.id]
    return go(t)


def subst(t, env, memo=None):
    """replace subterms; decision diagrams are rebuilt"""
    memo = {} if memo is None else memo

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x in env:
            return env[x]
        if x.id in memo:
            return memo[x.id]
        args = tuple(go(y) for y in x.args)
        if all(a is b or a == b and not isinstance(a, T) for a, b in zip(args, x.args)):
            r = x
        elif x.op == "ite":
            c = args[0]
            c = c if c.op == "ite" or c in (TRUE, FALSE) else T("ite", c, TRUE, FALSE)
            r = ite(c, args[1], args[2])
        elif x.op == "lin":
            r = Int(args[0])
            for k, y in args[1]:
                r = vf.add(r, vf.scale(y, k))
        elif x.op in ("eq", "slt", "ult"):
            r = lift(lambda a, b: vf.icmp(x.op, a, b), *args)
            if r.op == "ite" and r.args[1] is TRUE and r.args[2] is FALSE:
                r = r.args[0]
        elif x.op == "at":
            r = at(args[0], args[1], args[2], args[3])
        elif x.op == "vsize":
            r = vsize(args[0])
        else:
            r = T(x.op, *args)
        memo[x.id] = r
        return r
    return go(t)


class Loop:
    """a loop of a summary"""

    def __init__(self, s, h):
        self.s, self.h = s, h
        self.vars = {}
        for key, ent in s.loops.get(h, {}).items():
            t = T("loop", h, "phi", key[1], 0) if key[0] == "phi" else T("loop", h, key[0], key[1], key[2])
            self.vars[t] = (ent[0], ent[1])
        self.cond = FALSE
        for hh, c in s.backs:
            if hh == h:
                self.cond = Or(self.cond, c)
        self.pc = s.analysis.headpc.get(h, TRUE)
        # an entity the loop leaves alone
        same = {t: i for t, (i, n) in self.vars.items() if n is t and i is not None}
        self.same = same
        self.sizes = {}
        for t, (i, n) in self.vars.items():
            if t.args[1] == "vec" and i is not None and n is not None:
                if vsize(n) is vsize(t):
                    self.sizes[T("vsize", t)] = vsize(i)
        self.cond = self.settle(self.cond)

    def settle(self, t):
        """with what the loop does not change replaced by what it is"""
        env = dict(self.same)
        env.update(self.sizes)
        return subst(t, env) if env else t

    def index(self, step=1):
        """the variables that count: {variable: first value}"""
        return {t: i for t, (i, n) in self.vars.items() if t.args[1] in ("phi", "raw8", "raw4") and n is not None and vf.add(n, t, -1) is not None and isint(vf.add(n, t, -1), step)}

    def domain(self, pc=None):
        """(index, first, bound): the body runs exactly for first <= index < bound; None if it is more complicated"""
        pc = self.settle(pc or self.pc)
        for idx, first in self.index().items():
            for a in vf.atoms(self.cond):
                core = None
                if a.op in ("ult", "slt"):
                    x, y = strip(a.args[0]), strip(a.args[1])
                    if x is idx:
                        core, pos = y, True
                elif a.op == "eq":
                    x, y = a.args
                    if strip(x) is idx:
                        core, pos = strip(y), False
                    elif strip(y) is idx:
                        core, pos = strip(x), False
                    else:
                        d = vf.add(strip(x), strip(y), -1)
                        c, p = vf.lin_of(d)
                        if p.get(idx) in (1, -1):
                            rest = vf.add(d, vf.scale(idx, p[idx]), -1)
                            core, pos = vf.scale(rest, -p[idx]), False
                if core is None or mentions(core, idx):
                    continue
                if assume(self.cond, a, not pos) is FALSE and assume(self.cond, a, pos) is assume(pc, a, pos):
                    return idx, first, core
        return None

    def body(self, t):
        init, nxt = self.vars[t]
        return init, self.settle(nxt)


def mentions(t, what):
    return any(x is what for x in vf.walk(t))


def distance(t):
    """the number of elements between two iterators of the same vector, as a difference of indices"""
    if t.op in ("sdiv", "ashr") and isint(t.args[1]):
        c, p = vf.lin_of(t.args[0])
        ends = {k: x for x, k in p.items() if x.op == "ptrtoint" and x.args[0].op == "ptr" and x.args[0].args[0].op == "slot" and x.args[0].args[1] == 0}
        if c == 0 and len(p) == 2 and set(ends) == {1, -1}:
            a, b = ends[1].args[0].args[0].args, ends[-1].args[0].args[0].args
            n = t.args[1].args[0] if t.op == "sdiv" else 1 << t.args[1].args[0]
            if a[:2] == b[:2] and a[3] == b[3] == n:
                return vf.add(a[2], b[2], -1)
    return t


def strip(t):
    """without changes of width"""
    while t.op in ("sext", "zext", "trunc", "width", "conv_i"):
        t = t.args[0]
    return t


def inplace(loop, t, rest=None):
    """the loop changes a vector element by element: (idx, first, bound, {(kind, off): value at idx, in terms of the initial content}) or an explanation"""
    dom = loop.domain()
    if dom is None:
        return "the loop does not visit a range of indices exactly once"
    idx, first, bound = dom
    init, nxt = loop.body(t)
    if not isint(first, 0):
        return "the loop starts at %r" % (first,)
    got = {}
    for g, x in vf.guarded_leaves(nxt):
        pass
    # collect the writes of one iteration
    def go(x):
        if x is t:
            return {}
        if x.op == "setat":
            inner = go(x.args[0])
            if isinstance(inner, str):
                return inner
            if strip(x.args[1]) is not idx:
                return "an iteration writes element %r" % (x.args[1],)
            inner = dict(inner)
            inner[(x.args[2], x.args[3])] = x.args[4]
            return inner
        return "an iteration leaves %r" % (x,)
    kinds = {}
    parts = []
    for g, x in vf.guarded_leaves(nxt):
        w = go(x)
        if isinstance(w, str):
            return w
        parts.append((g, w))
        for k in w:
            kinds[k] = None
    for k in kinds:
        v = None
        for g, w in parts:
            x = w.get(k, at(k[0], t, idx, k[1]))
            v = x if v is None else ite(g, x, v)
        # only the element of this iteration is read
        for x in vf.walk(v):
            if x.op == "at" and x.args[1] is t and strip(x.args[2]) is not idx:
                return "an iteration reads element %r" % (x.args[2],)
        got[k] = subst(v, {T("at", k2[0], t, idx, k2[1]): at(k2[0], init, idx, k2[1]) for k2 in list(kinds) + [k]})
        if mentions(got[k], t):
            got[k] = subst(got[k], {x: at(x.args[0], init, x.args[2], x.args[3]) for x in vf.walk(got[k]) if x.op == "at" and x.args[1] is t})
        if mentions(got[k], t):
            return "an iteration depends on the whole vector"
    return idx, first, bound, got, init


def appended(loop, t):
    """the loop appends at most one element per iteration: (idx, first, bound, init, guard, fields)"""
    dom = loop.domain()
    if dom is None:
        return "the loop does not visit a range of indices exactly once"
    idx, first, bound = dom
    init, nxt = loop.body(t)
    guard, vals = FALSE, None
    for g, x in vf.guarded_leaves(nxt):
        if x is t:
            continue
        if x.op == "push" and x.args[0] is t:
            guard = Or(guard, g)
            v = x.args[1]
            vals = v if vals is None else tuple((k, d, ite(g, a, b)) for (k, d, a), (_, _, b) in zip(v, vals))
        else:
            return "an iteration leaves %r" % (x,)
    if vals is None:
        return "nothing is appended"
    return idx, first, bound, init, guard, vals
