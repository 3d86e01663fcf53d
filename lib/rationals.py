"""Which rationals of a function are in lowest terms, at every point of it.

A forward dataflow analysis over the objects of GMP: for every mpq_t the set of
  U  not initialised            W  denominator is one
  N  in lowest terms            R  numerator and denominator were set apart from each other
  M  they were, but with parts that may well have no common factor
  (n, x), (d, x)  only the numerator, the denominator has been set, to x
and for every mpz_t what it is known to be: a constant, the numerator or the
denominator of a rational, something computed from such.
"""
import math
import re
import common
import owned
from owned import Function, callee, LIB, READS, QUIET

ANY = ("any",)
PARTS = re.compile(r"^(__gmpq_(set_num|set_den)|fmpz_get_mpz)$")
PARTREADS = re.compile(r"^__gmpq_(get_num|get_den)$")
WHOLE = re.compile(r"^__gmpq_(set_z|init)$")
TEXT = re.compile(r"^__gmpq_(set_str|inp_str)$|^_ZrsRSiP12__mpq_struct$")
COMPUTED = re.compile(r"(divexact|[tfc]div_q|pow|mul_2exp|setbit|_rem|remove|fac|primorial)")


def const(v):
    return int(v["v"]) if isinstance(v, dict) and v.get("k") == "int" else None


def outer(i):
    return [tuple(x) for x in (i.get("loc") or [])]


def elsewhere(d):
    """does this library function of C++ build a rational from two integers?"""
    m = re.search(r"(emplace\w*|make_\w+|construct\w*|optional|in_place)<(.*)>\(", d)
    return bool(m and "__mpq_struct" in d and len(re.findall(r"__gmp_expr<__mpz_struct", m.group(2))) >= 2)


class Rationals:
    def __init__(self, F):
        self.F = F
        self.ends = {}
        self.uses = 0
        self.bad = {}  # instruction id -> [ins, sure, what, place]
        self.notes = set()
        self.elsewhere = {}
        self.steps = 0
        self.guessed = set()
        self.known = self.rationals()
        self.signs = self.tested()
        self.escaped = self.escapes()
        self.built = {}  # rational -> instructions that set its parts
        # containers whose elements are reduced in place
        self.later = any(callee(i)[0] == "__gmpq_canonicalize" and (F.pointer(i["args"][0]) or (("?",), 0))[0][0] != "alloca" for _, i in F.calls())

    # which places are rationals
    def rationals(self):
        F = self.F
        out = set()
        for n, i in F.defs.items():
            if i["op"] == "alloca" and i.get("size") == 32 and re.search(r"__gmp_expr|__mpq_struct", i.get("aty", "")):
                out.add((("alloca", n), 0))
        ps, k = owned.params(F.fn["dem"]), 0
        for n, a in enumerate(F.fn["args"]):
            if not a.get("sret") and a.get("name") != "this":
                if k < len(ps) and re.match(r"^__gmp_expr<__mpq_struct ?\[1\], ?__mpq_struct ?\[1\]>( const)?[&*]*$|^__mpq_struct ?( const)?\*$", ps[k].strip()):
                    out.add((("arg", n), 0))
                k += 1
        pairs = {}
        for b, i in F.calls():
            n, d = callee(i)
            if not i["args"]:
                continue
            k = 0
            if n in ("__gmpq_get_num", "__gmpq_get_den"):
                k = 1
            elif n == "__gmpq_get_str":
                k = 2
            if n.startswith("__gmpq_") or n == "fmpq_get_mpq":
                p = F.pointer(i["args"][k]) if len(i["args"]) > k else None
                if p and p[1] is not None:
                    out.add(p)
                if re.match(r"^__gmpq_(set|add|sub|mul|div|neg|abs|inv|cmp|equal|swap|mul_2exp|div_2exp)$", n):
                    for a in i["args"][1:]:
                        p = F.pointer(a)
                        if p and p[1] is not None:
                            out.add(p)
            elif n == "fmpq_set_mpq":
                p = F.pointer(i["args"][1])
                if p and p[1] is not None:
                    out.add(p)
            elif n.startswith("__gmpz_") and outer(i) and outer(i)[0][0].endswith("gmpxx.h"):
                p = F.pointer(i["args"][0])
                if p and p[1] is not None and p[0][0] != "alloca":
                    pairs.setdefault((b, tuple(outer(i)[1:])), {})[p] = n, outer(i)[0]
        direct = set(out)
        for ps in pairs.values():
            for r, o in ps:
                ty = F.fn["args"][r[1]].get("srty", "") if r[0] == "arg" else ""
                if (r, o + 16) in ps and (r, o - 16) not in ps and not re.search(r"std::(pair|tuple|array)", ty):
                    out.add((r, o))
                    # the constructor of mpq_class does it in two lines, two numbers do it in one each
                    x, y = ps[r, o], ps[r, o + 16]
                    if "__gmp_expr" not in ty and (r, o) not in direct and not (x[0] == y[0] == "__gmpz_init_set" and x[1] != y[1]):
                        self.guessed.add((r, o))
        # both parts are copied from one place
        moves = {}
        for b, i in F.calls():
            if re.match(r"^__gmpz_(init_)?set$", callee(i)[0]):
                p, q = map(F.pointer, i["args"][:2])
                if p and q and p[1] is not None and q[1] is not None:
                    moves.setdefault((b, p[0]), []).append((p[1], q))
        more = True
        while more:
            more = False
            for (b, r), ms in moves.items():
                for o, q in ms:
                    if (r, o) in out and q not in out and q[0][0] != "alloca" and (o + 16, (q[0], q[1] + 16)) in ms:
                        out.add(q)
                        more = True
        return {(r, o) for r, o in out if (r, o - 16) not in out}

    def at(self, v):
        """(rational, which part: 0 all or numerator, 16 denominator, None elsewhere)"""
        p = self.F.pointer(v)
        if p is None or p[1] is None:
            return None
        for k in (0, 16):
            if (p[0], p[1] - k) in self.known:
                return (p[0], p[1] - k), k
        for k in range(1, 32):
            if (p[0], p[1] - k) in self.known:
                return (p[0], p[1] - k), None
        return None

    def tested(self):
        """rationals whose sign, or size, decides something"""
        F, out = self.F, set()
        users = {}
        for ins in F.blocks.values():
            for i in ins:
                for v in list(i.get("ops", ())) + list(i.get("args", ())) + [x for _, x in i.get("in", ())] + [i.get("cond")]:
                    if isinstance(v, dict) and v.get("k") == "v":
                        users.setdefault(v["id"], []).append(i)

        def matters(n):
            """does what depends on n depend on more than whether it is zero?"""
            seen, todo = set(), [(n, False)]
            while todo:
                x, both = todo.pop()
                if (x, both) in seen:
                    continue
                seen.add((x, both))
                for u in users.get(x, ()):
                    if u["op"] == "icmp" and u.get("pred") in ("eq", "ne"):
                        if both or x == n:
                            continue
                        return True
                    if u["op"] in ("icmp", "zext", "sext", "trunc", "ashr", "lshr"):
                        todo.append((u["id"], both))
                    elif u["op"] in ("select", "or", "sub", "phi"):
                        todo.append((u["id"], True))
                    else:
                        return True
            return False
        for n, i in F.defs.items():
            if i["op"] == "load" and i.get("size") == 4 and matters(n):
                p = F.pointer(i["ops"][0])
                if p and p[1] is not None:
                    out.add((p[0], p[1] - 4))
                    out.add((p[0], p[1] - 20))
        for b, i in F.calls():
            n, d = callee(i)
            if re.match(r"^__gmp[qz]_(cmp|sgn)", n) and "id" in i and matters(i["id"]):
                for a in i["args"][:2]:
                    p = F.pointer(a)
                    if p:
                        out.add(p)
        return out

    def escapes(self):
        F, out = self.F, set()
        for n, i in [(None, i) for ins in F.blocks.values() for i in ins]:
            vs = []
            if i["op"] == "store":
                vs = i["ops"][:1]
            elif i["op"] == "phi":
                vs = [v for _, v in i["in"]]
            elif i["op"] == "select":
                vs = i["ops"][1:]
            for v in vs:
                p = F.pointer(v)
                if p:
                    out |= {q for q in self.known if q[0] == p[0]}
        return out

    # values of numbers
    def token(self, S, v):
        p = self.F.pointer(v)
        if p is None or p[1] is None:
            return ANY
        a = self.at(v)
        if a and a[1] is not None:
            q = self.get(S, a[0])
            if q <= {"N", "W"}:
                return ("num" if a[1] == 0 else "den", a[0], S.get(("age", a[0]), 0))
            x = [y[1] for y in q if isinstance(y, tuple) and y[0] == ("n" if a[1] == 0 else "d")]
            return x[0] if len(x) == 1 == len(q) else ANY
        return S.get(("z", p), ANY)

    def get(self, S, P):
        return S.get(("q", P), frozenset({"N"} if P[0][0] != "alloca" else {"U"}))

    def put(self, S, P, st, at):
        S[("q", P)] = frozenset(st)
        S[("age", P)] = at

    def build(self, n, d, P):
        if d == ("c", 1):
            return "W"
        if n[0] == d[0] == "c":
            return "N" if d[1] > 0 and math.gcd(n[1], d[1]) == 1 else "R"
        if n[0] == "num" and d[0] == "den" and n[1:] == d[1:]:
            return "N"
        if n[0] == "den" and d[0] == "num" and n[1:] == d[1:]:
            q = n[1]
            return "M" if isinstance(q, tuple) and q in self.signs else "R"
        if "rel" in (n[0], d[0]) or "computed" in (n[0], d[0]) or n[0] == "c" and abs(n[1]) <= 1:
            return "M"
        return "R"

    def part(self, S, P, k, tok, fresh, at):
        """the numerator (k = 0) or denominator of P becomes tok"""
        out = set()
        self.built.setdefault(P, {})[at] = self.now
        for st in self.get(S, P):
            if fresh and not isinstance(st, tuple):
                st = "U"
            if st == "U":
                out.add(("n" if k == 0 else "d", tok))
            elif isinstance(st, tuple):
                if (st[0] == "n") == (k == 0):
                    out.add((st[0], tok))
                else:
                    out.add(self.build(tok if k == 0 else st[1], st[1] if k == 0 else tok, P))
            elif k == 16 and tok == ("c", 1):
                out.add("W")
            elif st == "W":
                out.add("W" if k == 0 else "M" if tok[0] in ("rel", "computed") else self.build(ANY, tok, P))
            elif st == "N" and tok[0] in ("rel", "num") and k == 0 and P in tok:
                out.add("N")
            elif tok[0] in ("rel", "computed") or st == "M" or tok[0] in ("num", "den") and P in tok and P in self.signs:
                out.add("M")
            else:
                out.add("R")
        self.put(S, P, out, at)

    def use(self, S, P, i, how):
        q = self.get(S, P)
        self.uses += 1
        if "R" in q or "M" in q:
            sure = "R" in q and "M" not in q and P not in self.guessed and not (P in self.escaped and P[0][0] == "alloca") and not (self.later and (P[0][0] != "alloca" or how.startswith(("handed", "copied"))))
            sure = sure and (q == {"R"} or P[0][0] == "v" and how.startswith("left") or self.always(P, i))
            # a helper may leave it to its callers, which are looked at with its code in place
            sure = sure and not (how.startswith("left") and P[0][0] != "v" and (re.search(r"\(anonymous namespace\)|\$_\d|'lambda", self.F.fn["dem"]) or re.match(r"^_ZN?K?(\d+[a-z_]\w*?)*?L\d", self.F.fn["name"])))
            old = self.bad.get(i["id"] if "id" in i else id(i))
            if not old or old[1]:
                self.bad[i["id"] if "id" in i else id(i)] = [i, sure, how, P]

    def always(self, P, i):
        """is it built on every path to here, and reduced on some for a reason that has nothing to do with common factors?"""
        F = self.F
        for _, c in F.calls():
            n, _d = callee(c)
            if "gcd" in n or re.match(r"^__gmp[zq]_(cmp|divisible)", n) and any(const(a) in (1, -1) for a in c["args"]):
                return False
        blocks = {id(x): b for b, ins in F.blocks.items() for x in ins}
        at = {blocks[id(x)] for x in self.built.get(P, {}).values() if id(x) in blocks}
        here = blocks.get(id(i))
        if not at or here is None or here in at:
            return False
        seen, todo = set(at), [F.entry]
        while todo:
            b = todo.pop()
            if b in seen:
                continue
            if b == here:
                return False
            seen.add(b)
            todo += F.succ[b]
        return True

    def call(self, S, i):
        n, d = callee(i)
        F = self.F
        args = i["args"]
        at = i.get("id", id(i))
        self.now = i
        if n.startswith(("llvm.memcpy", "llvm.memmove")):
            to, of = self.at(args[0]), self.at(args[1])
            whole = const(args[2]) == 32
            if const(args[2]) == 16 and (to or of):
                tok = self.token(S, args[1])
                self.number(S, args[0], tok, False, at)
                return
            if whole and to and to[1] == 0:
                self.put(S, to[0], self.get(S, of[0]) if of and of[1] == 0 else {"N"}, at)
            elif whole and of and of[1] == 0:
                self.use(S, of[0], i, "copied")
            elif to:
                self.put(S, to[0], {"N"} if self.get(S, to[0]) <= {"N", "W", "U"} else {"M"}, at)
            return
        if n.startswith("llvm."):
            return
        if TEXT.match(n):
            k = 1 if n.startswith("_Z") else 0
            a = self.at(args[k])
            if a:
                self.put(S, a[0], {"N"}, at)
            return
        if n.startswith("__gmpq_"):
            return self.gmpq(S, n, args, i, at)
        if n == "fmpq_get_mpq":
            a = self.at(args[0])
            if a:
                self.put(S, a[0], {"N"}, at)
            return
        if n == "fmpq_get_mpz_frac":
            for k, a in ((0, args[0]), (16, args[1])):
                self.number(S, a, ("num" if k == 0 else "den", at, 0), False, at)
            return
        if n.startswith("__gmpz_") or n == "fmpz_get_mpz" or LIB.match(n):
            self.gmpz(S, n, args, i, at)
            return
        clean = d
        if elsewhere(d):
            self.elsewhere[at] = i
        for a in args:
            w = self.at(a)
            if not w:
                p = F.pointer(a)
                if p:
                    S.pop(("z", p), None)
                continue
            P, k = w
            rational = "__mpq_struct" in clean
            if k == 0 and (rational or "__mpz_struct" not in clean):
                if re.search(r"::~", d):
                    self.put(S, P, {"U"}, at)
                    continue
                q = self.get(S, P)
                if not (i.get("sret") and a is args[0]):
                    self.use(S, P, i, "handed to %s" % (d or n or "a function")[:120])
                self.put(S, P, {"W"} if q == {"W"} and "const&" in clean else {"N"}, at)
            elif "const" not in clean:
                self.put(S, P, {"M"} if self.get(S, P) != {"U"} else {"U"}, at)

    def gmpq(self, S, n, args, i, at):
        a0 = self.at(args[0]) if args else None
        if n == "__gmpq_canonicalize":
            if a0:
                self.put(S, a0[0], {"N"}, at)
        elif n == "__gmpq_clear":
            if a0:
                self.put(S, a0[0], {"U"}, at)
        elif WHOLE.match(n):
            if a0:
                self.put(S, a0[0], {"W"}, at)
        elif n in ("__gmpq_set_si", "__gmpq_set_ui"):
            if a0:
                x, y = const(args[1]), const(args[2])
                self.put(S, a0[0], {self.build(("c", x) if x is not None else ANY, ("c", y) if y is not None else ANY, a0[0])}, at)
        elif n in ("__gmpq_set_num", "__gmpq_set_den"):
            if a0:
                self.part(S, a0[0], 0 if n.endswith("num") else 16, self.token(S, args[1]), False, at)
        elif PARTREADS.match(n):
            a = self.at(args[1])
            tok = ANY
            if a and self.get(S, a[0]) <= {"N", "W"}:
                tok = ("num" if n.endswith("num") else "den", a[0], S.get(("age", a[0]), 0))
            self.number(S, args[0], tok, False, at)
        elif n == "__gmpq_swap":
            a1 = self.at(args[1])
            if a0 and a1:
                x, y = self.get(S, a0[0]), self.get(S, a1[0])
                self.put(S, a0[0], y, at)
                self.put(S, a1[0], x, (at, 1))
            else:
                for a in (a0, a1):
                    if a:
                        self.use(S, a[0], i, "swapped")
                        self.put(S, a[0], {"N"}, at)
        elif READS.search(n) or re.match(r"^__gmpq_(cmp|equal|out_str|get)", n):
            for a in args:
                w = self.at(a)
                if w:
                    self.use(S, w[0], i, "used by " + n)
        else:
            for a in args[1:]:
                w = self.at(a)
                if w and w[1] == 0:
                    if n == "__gmpq_set" and a0:
                        continue
                    self.use(S, w[0], i, "used by " + n)
            if a0:
                src = self.at(args[1]) if n == "__gmpq_set" else None
                self.put(S, a0[0], self.get(S, src[0]) if src and src[1] == 0 else {"N"}, at)

    def number(self, S, v, tok, fresh, at):
        a = self.at(v)
        if a and a[1] is not None:
            self.part(S, a[0], a[1], tok, fresh, at)
            return
        p = self.F.pointer(v)
        if p:
            S[("z", p)] = tok

    def gmpz(self, S, n, args, i, at):
        if not args or re.search(r"_clears?$", n):
            if args and self.F.pointer(args[0]):
                S.pop(("z", self.F.pointer(args[0])), None)
            return
        if n == "__gmpz_swap":
            w = [self.at(a) for a in args]
            for x, y in zip(args, reversed(args)):
                pass
            ps = [x for x in w if x and x[1] is not None]
            if len(ps) == 2 and ps[0][0] == ps[1][0]:
                P = ps[0][0]
                if ps[0][1] != ps[1][1]:
                    self.put(S, P, {"M" if P in self.signs else "R"}, at)
                return
            if len(ps) == 2:
                P, Q = ps[0][0], ps[1][0]
                S.setdefault("swaps", frozenset())
                key = (min(P, Q), max(P, Q), 16 - ps[0][1])
                if ps[0][1] == ps[1][1] and key in S["swaps"]:
                    S["swaps"] -= {key}
                    x, y = S.pop(("was", P)), S.pop(("was", Q))
                    self.put(S, P, y, at)
                    self.put(S, Q, x, (at, 1))
                    return
                S["swaps"] |= {(min(P, Q), max(P, Q), ps[0][1])}
                S[("was", P)], S[("was", Q)] = self.get(S, P), self.get(S, Q)
                self.put(S, P, {"M"}, at)
                self.put(S, Q, {"M"}, (at, 1))
                return
            toks = [self.token(S, a) for a in args]
            for a, t in zip(args, reversed(toks)):
                self.number(S, a, t, False, at)
            return
        writes = n in ("fmpz_get_mpz",) or re.search(r"_get_mpz$", n) or n.startswith("__gmpz_") and not READS.search(re.sub("^__gmpz", "", n))
        if not writes:
            if n.startswith("fmpq_set_mpq") or n.endswith("_set_mpq"):
                for a in args[1:]:
                    w = self.at(a)
                    if w and w[1] == 0:
                        self.use(S, w[0], i, "used by " + n)
            return
        m = re.match(r"^__gmpz_(init_)?set(_si|_ui)?$", n)
        if m and m.group(2):
            k = const(args[1])
            tok = ("c", k) if k is not None else ANY
        elif m:
            tok = self.token(S, args[1])
        elif n in ("__gmpz_init", "__gmpz_init2"):
            tok = ("c", 0)
        else:
            src = [self.token(S, a) for a in args[1:] if self.F.pointer(a)]
            owner = [t[1] for t in src if t[0] in ("num", "den")] + [x for t in src if t[0] == "rel" for x in t[1:]]
            if re.search(COMPUTED, n):
                tok = ("computed",)
            elif owner and (re.search(r"_(neg|abs|add|sub|addmul|submul)(_[us]i)?$", n) or re.search(r"_mul_[us]i$", n) and const(args[2]) in (1, -1)):
                tok = ("rel",) + tuple(sorted(set(owner), key=str))
            elif any(t[0] == "computed" for t in src):
                tok = ("computed",)
            else:
                tok = ANY
        fresh = "_init" in n
        self.number(S, args[0], tok, fresh, at)
        if re.search(r"_[ft]div_qr|gcdext", n) and len(args) > 1:
            self.number(S, args[1], ("computed",), False, at)

    def step(self, S, i):
        self.steps += 1
        if i["op"] in ("call", "invoke"):
            self.call(S, i)
        elif i["op"] == "store":
            p = self.F.pointer(i["ops"][1])
            if p and p[1] is not None:
                for (r, o) in self.known:
                    if r == p[0] and o < p[1] < o + 32 or r == p[0] and p[1] == o:
                        if i.get("size") != 4:
                            continue
                        self.now = i
                        here = outer(i) and outer(i)[0][0].endswith("gmpxx.h")
                        if p[1] - o == 4:
                            if here and any(x == "U" or isinstance(x, tuple) for x in self.get(S, (r, o))):
                                self.part(S, (r, o), 0, ANY, False, id(i))
                            continue
                        if p[1] - o == 20 and here and const(i["ops"][0]) == 1:
                            # a machine word, as in q * 2
                            self.part(S, (r, o), 16, ("c", 1), False, id(i))
                            continue
                        if p[1] - o == 20:
                            self.put(S, (r, o), {"M"}, i.get("id", id(i)))

    def leave(self, S, i):
        """the rationals that the caller sees"""
        for P in self.known:
            if P[0][0] == "alloca":
                continue
            q = self.get(S, P)
            if "R" in q or "M" in q:
                self.use(S, P, i, "left like this")

    def solve(self):
        F = self.F
        start = {F.entry: {}}
        work = [F.entry]
        rounds = 0
        while work:
            b = work.pop()
            rounds += 1
            if rounds > 40 * len(F.blocks) + 200:
                self.notes.add("too many rounds")
                return
            S = dict(start[b])
            for i in F.blocks[b]:
                self.step(S, i)
                if i["op"] in ("ret", "resume"):
                    if i["op"] == "ret":
                        self.leave(S, i)
            for s in F.succ[b]:
                old = start.get(s)
                new = dict(S) if old is None else self.join(old, S)
                if new != old:
                    start[s] = new
                    if s not in work:
                        work.append(s)

    def join(self, a, b):
        out = {}
        for k in set(a) | set(b):
            if k == "swaps":
                out[k] = a.get(k, frozenset()) | b.get(k, frozenset())
            elif k[0] == "q":
                out[k] = self.get(a, k[1]) | self.get(b, k[1])
            elif k[0] == "was":
                if k in a and k in b:
                    out[k] = a[k] | b[k]
                else:
                    out[k] = a.get(k) or b.get(k)
            elif k[0] == "age":
                x, y = a.get(k, 0), b.get(k, 0)
                out[k] = x if x == y else ("join",)
            elif a.get(k, ANY) == b.get(k, ANY):
                out[k] = a.get(k, ANY)
            else:
                out[k] = ANY
        return out
