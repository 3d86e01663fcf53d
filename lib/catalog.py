"""What the C libraries' functions do to the objects passed to them.

The prototypes come from the installed headers (parameter kinds, constness);
the tables below say which functions are exact embeddings, which read what
they write, and which create or destroy objects.
"""
import json
import os
import re
import subprocess

import vf
from vf import T, Int, lift, isint, add, scale

KIND = [
    (r"\barf_(t|ptr|srcptr|struct \*)", "arf"), (r"\barb_(t|ptr|srcptr|struct \*)", "arb"), (r"\bmag_(t|ptr|srcptr)", "mag"),
    (r"\bfmpz_t\b|\bfmpz \*|\bfmpz_preinv", "fmpz"), (r"\bfmpq_t\b|\bfmpq \*", "fmpq"),
    (r"\bmpz_(ptr|srcptr|t)\b|__mpz_struct", "mpz"), (r"\bmpq_(ptr|srcptr|t)\b|__mpq_struct", "mpq"),
    (r"\brenf_elem_(t|srcptr|ptr|struct)", "renf_elem"), (r"\brenf_(t|srcptr|ptr|struct)", "renf"),
    (r"\bfmpq_poly_t|fmpq_poly_struct", "fmpq_poly"), (r"\bfmpz_poly_t|fmpz_poly_struct", "fmpz_poly"),
    (r"\bflint_rand_", "rand"), (r"\bgmp_randstate_", "gmprand"),
    (r"\bchar \*", "str"), (r"\b(mp_limb_signed_t|slong|long|int) \*", "slong*"), (r"\*|\[|_t\b.*_struct", "ptr"),
]


def prototypes(build):
    path = os.path.join(build, "cproto.json")
    if os.path.exists(path):
        return json.load(open(path))
    src = os.path.join(build, "hdr.c")
    with open(src, "w") as f:
        for h in ("gmp.h", "flint/flint.h", "flint/fmpz.h", "flint/fmpq.h", "flint/fmpq_poly.h", "flint/fmpz_poly.h", "flint/arf.h",
                  "flint/arb.h", "flint/mag.h", "e-antic/renf.h", "e-antic/renf_elem.h", "stdlib.h", "string.h", "math.h"):
            f.write("#include <%s>\n" % h)
    txt = subprocess.run(["clang", "-fsyntax-only", "-Xclang", "-ast-print", src], capture_output=True, text=True).stdout
    out = {}
    for line in txt.splitlines():
        m = re.match(r"^(?:static |inline |__inline__ |extern |__inline |_Noreturn )*([A-Za-z_][\w ]*?[ \*]+)(\w+)\((.*)\)[^()]*[;{]?\s*(__attribute__.*)?$", line)
        if not m or line.startswith((" ", "typedef", "return")):
            continue
        ret, name, params = m.group(1).strip(), m.group(2), m.group(3)
        ps = [p.strip() for p in params.split(",")] if params not in ("", "void") else []
        kinds = []
        for p in ps:
            const = "const" in p or "srcptr" in p
            kind = "scalar"
            for pat, k in KIND:
                if re.search(pat, p):
                    kind = k
                    break
            if kind == "scalar" and re.search(r"\bunsigned\b|\bmp_limb_t\b|\bulong\b|\bmp_bitcnt_t|size_t", p):
                kind = "uscalar"
            kinds.append([kind, const])
        if name not in out:
            out[name] = {"ret": ret, "params": kinds}
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(out, f)
    os.replace(tmp, path)
    return out


PROTO = {}
OBJ = {"arf", "arb", "mag", "fmpz", "fmpq", "mpz", "mpq", "renf_elem", "renf", "fmpq_poly", "fmpz_poly", "rand", "gmprand", "slong*", "ptr", "str"}

# functions whose outputs are also read
INOUT = re.compile(r"(addmul|submul|_swap$|add_error|canonicalize|canonicalise|_randtest|urandom|refine_embedding|set_evaluation|_randbits|gmp_randseed|_realloc|mpz_rrandomb|_fmpz_promote|_fmpz_demote|randstate_set)")

ZERO = Int(0)
BITS = {"bool": 1, "unsigned char": 8, "unsigned short": 16, "unsigned int": 32}


def S(x):
    """signed value of a machine integer"""
    if x.op == "sext":
        return S(x.args[0])
    if x.op == "zext":
        return U(x.args[0], x.args[2])
    return x


def U(x, bits=64):
    if isint(x):
        return Int(x.args[0] & ((1 << max(x.args[1], bits)) - 1) if x.args[0] < 0 else x.args[0])
    if x.op == "zext":
        return U(x.args[0], x.args[2])
    if x.op == "sext":
        return T("u", x)
    return T("u", x, bits) if bits != 64 else T("u", x)


def neg(x):
    if isint(x):
        return Int(-x.args[0])
    if x.op == "neg":
        return x.args[0]
    if x.op == "m2e":
        return m2e(neg(x.args[0]), x.args[1])
    return T("neg", x)


def m2e(x, e):
    if isint(e, 0):
        return x
    if isint(x, 0):
        return x
    if x.op == "m2e":
        return m2e(x.args[0], add(x.args[1], e))
    if isint(x) and isint(e) and 0 <= e.args[0] < 64:
        return Int(x.args[0] << e.args[0])
    return T("m2e", x, e)


def absv(x):
    if isint(x):
        return Int(abs(x.args[0]))
    if x.op == "neg":
        return absv(x.args[0])
    if x.op == "abs":
        return x
    return T("abs", x)


def floor_(x):
    return x if x.op in ("floor", "ceil", "int", "lin") else T("floor", x)


def ceil_(x):
    if x.op in ("floor", "ceil", "int", "lin"):
        return x
    return T("ceil", x)


def isintegral(x):
    return x.op in ("floor", "ceil", "int", "lin", "num", "den") or (x.op == "in" and x.args[0] in ("mpz", "fmpz"))


RND = {0: "down", 1: "up", 2: "floor", 3: "ceil", 4: "near"}


def get_int(x, rnd):
    if isintegral(x):
        return x
    if isint(rnd):
        r = RND.get(rnd.args[0], "?")
        if r == "floor":
            return floor_(x)
        if r == "ceil":
            return ceil_(x)
        return T("round_" + r, x)
    return T("get_int", x, rnd)


def ident(x):
    return x


def mulx(a, b):
    if isint(a) and isint(b):
        return Int(a.args[0] * b.args[0])
    if isint(a, 1):
        return b
    if isint(b, 1):
        return a
    if isint(a, 0) or isint(b, 0):
        return ZERO
    if isint(a, -1):
        return neg(b)
    if isint(b, -1):
        return neg(a)
    return T("mul", *sorted((a, b), key=lambda t: t.id))


def mkarb(mid, rad=ZERO):
    if isint(rad, 0):
        return mid
    return T("ball", mid, rad)


# name -> value of the (single) output, given the inputs in parameter order
# (outputs skipped; in-outs contribute their old value)
VALUE = {
    "arf_init": lambda: ZERO, "arb_init": lambda: ZERO, "fmpz_init": lambda: ZERO, "fmpq_init": lambda: ZERO, "mag_init": lambda: ZERO,
    "__gmpz_init": lambda: ZERO, "__gmpq_init": lambda: ZERO, "__gmpz_init2": lambda n: ZERO, "fmpz_init2": lambda n: ZERO,
    "__gmpz_init_set": ident, "__gmpz_set": ident, "__gmpq_set": ident, "fmpz_set": ident, "fmpz_init_set": ident, "arf_set": ident, "arb_set": ident,
    "fmpz_set_mpz": ident, "fmpz_get_mpz": ident, "fmpz_init_set_readonly": ident, "fmpq_init_set_readonly": ident, "fmpq_set_mpq": ident, "fmpq_get_mpq": ident, "arf_set_fmpz": ident, "arf_set_mpz": ident, "arb_set_fmpz": ident, "arb_set_arf": ident, "fmpq_set": ident,
    "__gmpz_init_set_si": S, "__gmpz_set_si": S, "fmpz_set_si": S, "fmpz_init_set_si": S, "arf_set_si": S, "arf_init_set_si": S, "arb_set_si": S,
    "__gmpz_init_set_ui": U, "__gmpz_set_ui": U, "fmpz_set_ui": U, "fmpz_init_set_ui": U, "arf_set_ui": U, "arf_init_set_ui": U, "arb_set_ui": U, "mag_set_ui": lambda x: T("upper", U(x)),
    "verif_mpz_init_set_sll": S, "verif_mpz_init_set_ull": U,
    "__gmpq_set_si": lambda n, d: T("frac", S(n), U(d)), "__gmpq_set_ui": lambda n, d: T("frac", U(n), U(d)), "__gmpq_set_z": ident,
    "arf_set_d": lambda x: T("dbl", x), "arb_set_d": lambda x: T("dbl", x), "__gmpz_set_d": lambda x: T("trunc_d", x),
    "__gmpz_init_set_d": lambda x: T("trunc_d", x), "__gmpq_set_d": lambda x: T("dbl", x),
    "arf_set_fmpz_2exp": m2e, "arf_mul_2exp_si": lambda x, e: m2e(x, S(e)), "arf_mul_2exp_fmpz": m2e, "arb_set_fmpz_2exp": m2e,
    "arb_mul_2exp_si": lambda x, e: m2e(x, S(e)), "arb_mul_2exp_fmpz": m2e, "arf_set_si_2exp_si": lambda x, e: m2e(S(x), S(e)), "arf_set_ui_2exp_si": lambda x, e: m2e(U(x), S(e)),
    "__gmpz_mul_2exp": lambda x, e: m2e(x, U(e)), "fmpz_mul_2exp": lambda x, e: m2e(x, U(e)),
    "arf_neg": neg, "arb_neg": neg, "fmpz_neg": neg, "__gmpz_neg": neg, "__gmpq_neg": neg, "fmpq_neg": neg,
    "arf_abs": absv, "fmpz_abs": absv, "__gmpz_abs": absv, "arb_abs": absv, "__gmpq_abs": absv,
    "arf_floor": floor_, "arf_ceil": ceil_,
    "arf_get_fmpz": get_int, "arf_get_mpz": get_int,
    "fmpz_one": lambda: Int(1), "arf_one": lambda: Int(1), "arb_one": lambda: Int(1), "fmpz_zero": lambda: ZERO, "arf_zero": lambda: ZERO, "arb_zero": lambda: ZERO,
    "arf_pos_inf": lambda: T("dbl", T("fp", "+Inf")), "arf_neg_inf": lambda: T("dbl", T("fp", "-Inf")), "arb_pos_inf": lambda: T("dbl", T("fp", "+Inf")), "arb_neg_inf": lambda: T("dbl", T("fp", "-Inf")),
    "arf_nan": lambda: T("nan"),
    "__gmpz_mul": mulx, "fmpz_mul": mulx, "__gmpz_mul_si": lambda x, y: mulx(x, S(y)), "__gmpz_mul_ui": lambda x, y: mulx(x, U(y)), "fmpz_mul_si": lambda x, y: mulx(x, S(y)), "fmpz_mul_ui": lambda x, y: mulx(x, U(y)),
    "__gmpz_add": lambda x, y: add(x, y), "__gmpz_sub": lambda x, y: add(x, y, -1), "__gmpz_add_ui": lambda x, y: add(x, U(y)), "__gmpz_sub_ui": lambda x, y: add(x, U(y), -1), "__gmpz_ui_sub": lambda x, y: add(U(x), y, -1),
    "fmpz_add": lambda x, y: add(x, y), "fmpz_sub": lambda x, y: add(x, y, -1), "fmpz_add_si": lambda x, y: add(x, S(y)), "fmpz_sub_si": lambda x, y: add(x, S(y), -1), "fmpz_add_ui": lambda x, y: add(x, U(y)), "fmpz_sub_ui": lambda x, y: add(x, U(y), -1),
    "__gmpq_canonicalize": lambda q: T("canon", q) if q.op in ("frac", "whole") else q,
    "__gmpz_fdiv_q": lambda a, b: T("fdiv", a, b), "__gmpz_cdiv_q": lambda a, b: T("cdiv", a, b), "__gmpz_tdiv_q": lambda a, b: T("tdiv", a, b),
    "__gmpz_fdiv_q_ui": lambda a, b: T("fdiv", a, U(b)), "__gmpz_tdiv_q_ui": lambda a, b: T("tdiv", a, U(b)), "fmpz_fdiv_q": lambda a, b: T("fdiv", a, b), "fmpz_tdiv_q": lambda a, b: T("tdiv", a, b), "fmpz_cdiv_q": lambda a, b: T("cdiv", a, b),
    "__gmpz_tdiv_r": lambda a, b: T("trem", a, b), "__gmpz_tdiv_r_ui": lambda a, b: T("trem", a, U(b)), "__gmpz_fdiv_r": lambda a, b: T("frem", a, b), "__gmpz_mod": lambda a, b: T("mod", a, b),
    "__gmpz_divexact": lambda a, b: T("divexact", a, b), "__gmpz_divexact_ui": lambda a, b: T("divexact", a, U(b)),
    "__gmpq_mul": mulx, "__gmpq_div": lambda a, b: T("qdiv", a, b), "__gmpq_inv": lambda a: T("qdiv", Int(1), a), "fmpq_inv": lambda a: T("qdiv", Int(1), a),
    "fmpq_div": lambda a, b: T("qdiv", a, b), "fmpq_mul": mulx, "__gmpq_add": lambda a, b: add(a, b), "__gmpq_sub": lambda a, b: add(a, b, -1),
    "fmpz_set_str": lambda x, b: T("parse", x, b), "__gmpq_set_str": lambda x, b: T("parse", x, b), "__gmpz_set_str": lambda x, b: T("parse", x, b), "__gmpz_init_set_str": lambda x, b: T("parse", x, b),
    "renf_elem_set": lambda a, k: a,
    "__gmpz_set_q": lambda q: T("tdiv", vf.mkpart("num", q), vf.mkpart("den", q)),
}
VALUE["arb_set_fmpq"] = lambda q, p: T("arb_div", vf.mkpart("num", q), vf.mkpart("den", q), p)
VALUE["arb_fmpz_div_fmpz"] = lambda n, d, p: T("arb_div", n, d, p)
# name -> returned value
RET = {
    "fmpz_get_si": ident, "__gmpz_get_si": lambda x: T("low_s", x), "__gmpz_get_ui": lambda x: T("low_u", x),
    "arf_get_d": lambda x, r: T("get_d", x, r), "arf_get_si": get_int,
    "arf_equal": lambda a, b: eqterm(a, b), "arf_equal_si": lambda a, b: eqterm(a, S(b)), "arf_equal_ui": lambda a, b: eqterm(a, U(b)), "arf_equal_d": lambda a, b: eqterm(a, T("dbl", b)),
    "arf_cmp": lambda a, b: T("cmp", a, b), "arf_cmp_si": lambda a, b: T("cmp", a, S(b)), "arf_cmp_ui": lambda a, b: T("cmp", a, U(b)), "arf_cmp_d": lambda a, b: T("cmp", a, T("dbl", b)),
    "fmpz_cmp": lambda a, b: T("cmp", a, b), "fmpz_cmp_si": lambda a, b: T("cmp", a, S(b)), "fmpz_cmp_ui": lambda a, b: T("cmp", a, U(b)),
    "__gmpz_cmp": lambda a, b: T("cmp", a, b), "__gmpz_cmp_si": lambda a, b: T("cmp", a, S(b)), "__gmpz_cmp_ui": lambda a, b: T("cmp", a, U(b)), "__gmpz_cmp_d": lambda a, b: T("cmp", a, T("dbl", b)),
    "__gmpq_cmp": lambda a, b: T("cmp", a, b), "__gmpq_cmp_z": lambda a, b: T("cmp", a, b), "__gmpq_equal": lambda a, b: eqterm(a, b),
    "__gmpq_cmp_si": lambda a, n, d: T("cmp", a, S(n) if isint(d, 1) else T("frac", S(n), U(d))), "__gmpq_cmp_ui": lambda a, n, d: T("cmp", a, U(n) if isint(d, 1) else T("frac", U(n), U(d))),
    "fmpz_equal": lambda a, b: eqterm(a, b), "fmpz_equal_si": lambda a, b: eqterm(a, S(b)), "fmpz_is_zero": lambda a: eqterm(a, ZERO), "fmpz_is_one": lambda a: eqterm(a, Int(1)), "fmpz_sgn": lambda a: T("cmp", a, ZERO),
    "arf_is_zero": lambda a: eqterm(a, ZERO), "arf_is_one": lambda a: eqterm(a, Int(1)), "arf_sgn": lambda a: T("cmp", a, ZERO),
    "arb_lt": lambda a, b: T("ball_lt", a, b), "arb_gt": lambda a, b: T("ball_lt", b, a), "arb_le": lambda a, b: T("ball_le", a, b), "arb_ge": lambda a, b: T("ball_le", b, a),
    "arb_eq": lambda a, b: T("ball_eq", a, b), "arb_ne": lambda a, b: T("ball_ne", a, b), "arb_equal": lambda a, b: T("ball_same", a, b), "arb_overlaps": lambda a, b: T("ball_overlaps", a, b),
    "arb_is_positive": lambda a: T("ball_lt", ZERO, a), "arb_is_negative": lambda a: T("ball_lt", a, ZERO), "arb_is_nonnegative": lambda a: T("ball_le", ZERO, a), "arb_is_nonpositive": lambda a: T("ball_le", a, ZERO),
    "arb_is_nonzero": lambda a: T("ball_ne", a, ZERO), "arb_equal_si": lambda a, b: T("ball_same", a, S(b)), "arb_contains_zero": lambda a: T("ball_contains", a, ZERO), "arb_contains": lambda a, b: T("ball_contains", a, b), "arb_is_zero": lambda a: T("ball_same", a, ZERO),
    "arb_is_exact": lambda a: T("ball_exact", a), "arb_is_finite": lambda a: T("ball_finite", a),
}


for _t in ("arf", "arb"):
    for _o in ("add", "sub", "mul", "div"):
        for _s, _f in (("si", S), ("ui", U), ("fmpz", ident), ("mpz", ident), ("arf", ident)):
            VALUE["%s_%s_%s" % (_t, _o, _s)] = lambda x, y, *r, _n="%s_%s" % (_t, _o), _f=_f: T(_n, x, _f(y), *r)
    VALUE["%s_si_div" % _t] = lambda x, y, *r, _n="%s_div" % _t: T(_n, S(x), y, *r)
    VALUE["%s_ui_div" % _t] = lambda x, y, *r, _n="%s_div" % _t: T(_n, U(x), y, *r)


VALUE["arf_mul_rnd_any"] = lambda x, y, p, r: T("arf_mul", x, y, p, r)
VALUE["arf_mul_rnd_down"] = lambda x, y, p: T("arf_mul", x, y, p, ZERO)


def eqterm(a, b):
    a, b = sorted((a, b), key=lambda t: (isint(t), t.id))
    return T("equal", a, b)


def kind_of_life(name):
    m = re.match(r"^(?:_*g?)(arf|arb|mag|fmpq_poly|fmpz_poly|fmpz|fmpq|mpz|mpq|renf_elem|renf)_(init|clear)", name.replace("verif_", "").replace("__gmpz", "mpz").replace("__gmpq", "mpq"))
    if m:
        return m.group(1), m.group(2)
    return None, None


class Catalog:
    def __init__(self, build):
        global PROTO
        PROTO = prototypes(build)
        self.proto = PROTO
        self.proto.setdefault("verif_mpz_init_set_sll", {"ret": "void", "params": [["mpz", False], ["scalar", False]]})
        self.proto.setdefault("verif_mpz_init_set_ull", {"ret": "void", "params": [["mpz", False], ["uscalar", False]]})
        self.life = []
        self.nocheck = False
        self.noassert = False

    def __call__(self, A, name, dem, i, args, mem):
        if name in self.proto and not (name or "").startswith("_Z"):
            return self.capi(A, name, i, args, mem)
        return self.cxx(A, name, dem, i, args, mem)

    def capi(self, A, name, i, args, mem):
        p = self.proto[name]
        params = p["params"]
        lk, what = kind_of_life(name)
        readonly = "readonly" in name
        ins, outs = [], []
        inout = bool(INOUT.search(name))
        if what == "clear":
            A.event(i, "clear", [args[0]], extra=lk + ("_readonly" if readonly else ""))
            self.lifecheck(A, mem, "clear", lk, args[0], i)
            self.alive(A, mem, lk, args[0], "dead")
            A.write(mem, lk, args[0], T("gone"))
            return None
        for (kind, const), a in zip(params, args):
            if kind in OBJ and kind != "str":
                if kind == "ptr" or kind == "slong*":
                    kind_ = {"slong*": "raw8", "ptr": "cobj"}[kind]
                else:
                    kind_ = kind
                if const:
                    ins.append(A.read(mem, kind_, a))
                    self.usecheck(A, mem, kind_, a, name, i)
                else:
                    outs.append((kind_, a))
                    if what != "init":
                        self.usecheck(A, mem, kind_, a, name, i)
                    if inout:
                        ins.append(A.read(mem, kind_, a))
            elif kind == "str":
                ins.append(self.content(A, mem, a))
            else:
                ins.append(a)
        for a in args[len(params):]:
            ins.append(a)
        if name in ("arf_swap", "arb_swap", "fmpz_swap", "__gmpz_swap", "__gmpq_swap", "mag_swap"):
            k = outs[0][0]
            x, y = A.read(mem, k, args[0]), A.read(mem, k, args[1])
            A.event(i, name, args)
            A.write(mem, k, args[0], y)
            A.write(mem, k, args[1], x)
            return None
        if what == "init":
            self.lifecheck(A, mem, "init", lk, args[0], i)
            A.event(i, "init", [args[0]], extra=lk + ("_readonly" if readonly else ""))
        else:
            A.event(i, name, args, extra=ins)
        f = VALUE.get(name)
        if outs:
            if len(outs) == 1:
                v = lift(lambda *x: f(*x) if f else T(name, *x), *ins)
                if f is None and not inout and what == "init":
                    v = T(name)
                A.write(mem, outs[0][0], outs[0][1], v)
            else:
                vals = [lift(lambda *x, n=n: T(name, n, *x), *ins) for n in range(len(outs))]
                for (k, a), v in zip(outs, vals):
                    A.write(mem, k, a, v)
        if what == "init":
            self.alive(A, mem, lk, args[0], "live")
        if i["ty"] == "void":
            return None
        g = RET.get(name)
        if g:
            r = lift(lambda *x: g(*x), *ins)
        elif outs:
            r = lift(lambda *x: T(name + "#ret", *x), *ins)
        else:
            r = lift(lambda *x: T(name, *x), *ins)
        return r

    def usecheck(self, A, mem, kind, p, name, i):
        if kind == "mpq":
            for part in (0, 16):
                self.usecheck(A, mem, "mpz", self.shift(p, part), name, i)
            return
        if kind not in vf.SIZE:
            return
        for q in vf.leaves(p):
            if q.op != "ptr":
                continue
            k = ("life:" + kind, q.args[0], q.args[1])
            v = mem.cells.get(k)
            if v is not None and any(l.op == "dead" for l in vf.leaves(v)):
                self.life.append((A, i, "use of a cleared %s by %s" % (kind, name), q))

    @staticmethod
    def shift(p, off):
        return lift(lambda q: vf.Analysis.offset(q, Int(off)), p)

    def alive(self, A, mem, kind, p, state):
        """record that an object was initialised or cleared; an mpq is two mpz"""
        for k, off in ((("mpz", 0), ("mpz", 16)) if kind == "mpq" else ((kind, 0),)):
            A.write(mem, "life:" + k, self.shift(p, off), T(state))

    def lifecheck(self, A, mem, what, kind, p, i):
        if kind == "mpq":
            for part in (0, 16):
                self.lifecheck(A, mem, what, "mpz", self.shift(p, part), i)
            return
        for q in vf.leaves(p):
            if q.op != "ptr":
                continue
            k = ("life:" + kind, q.args[0], q.args[1])
            v = mem.cells.get(k)
            if v is None:
                if what == "clear" and q.args[0] in mem.fresh:
                    self.life.append((A, i, "%s cleared but never initialised here" % kind, q))
                continue
            for l in vf.leaves(v):
                if what == "init" and l.op == "live":
                    self.life.append((A, i, "%s initialised again while still live" % kind, q))
                if what == "clear" and l.op == "dead":
                    self.life.append((A, i, "%s cleared twice" % kind, q))

    # ---- C++ functions that were left opaque
    def content(self, A, mem, p):
        def f(q):
            if q.op == "null":
                return q
            if q.op != "ptr":
                q = T("ptr", q, 0)
            root, off = q.args
            if root.op == "callret" and off == 0 and re.search(r"basic_string<.*::(c_str|data)\b", root.args[0]):
                return root.args[1]
            if root.op == "global":
                g = A.globals.get(root.args[0])
                if g and g.get("init") and isinstance(g["init"], dict) and "text" in g["init"]:
                    return T("const", g["init"]["text"])
                return T("ptr", root, off)
            c = mem.cells.get(("cxx", root, off))
            if c is not None:
                return c
            parts = sorted(((o - off, k, v.id, v) for (k, r, o), v in mem.cells.items()
                            if r is root and o >= off and not k.startswith("life:") and v.op not in ("gone", "undef")), key=lambda t: t[:3])
            if parts:
                return T("struct", tuple((o, k, v) for o, k, _, v in parts))
            return A._read(mem, "cxx", q)
        return lift(f, p)

    def operand(self, A, mem, ty, a):
        """the number passed as a parameter of this C++ type"""
        for k, kind in (("__mpz_struct", "mpz"), ("__mpq_struct", "mpq"), ("renf_elem_class", "renf_elem")):
            if k in ty:
                return A.read(mem, kind, a)
        return lift(lambda x: U(x, BITS.get(ty, 64)) if ty.startswith("unsigned") or ty == "bool" else S(x), a)

    def eantic(self, A, dem, spec, i, args, mem):
        """the C++ interface of e-antic: an element is the real number it embeds to"""
        E = "eantic::renf_elem_class"
        b = spec["base"]
        read = lambda p: A.read(mem, "renf_elem", p)
        if b.startswith(E + "::renf_elem_class"):
            ps = spec["params"]
            if len(ps) == 2 and "renf_class const&" in ps[0] and len(args) == 3:
                v = self.operand(A, mem, ps[1], args[2])
            elif len(ps) == 1 and "renf_class const" in ps[0]:
                v = ZERO
            elif len(ps) == 1 and ("const&" in ps[0] or "&&" in ps[0] or "&" not in ps[0]) and "std::" not in ps[0]:
                v = self.operand(A, mem, ps[0], args[1])
            elif not ps:
                v = ZERO
            else:
                return NotImplemented
            self.lifecheck(A, mem, "init", "renf_elem_class", args[0], i)
            A.event(i, dem, args, extra=[v])
            A.write(mem, "renf_elem", args[0], v)
            if ps and "renf_class const&" in ps[0]:
                A.write(mem, "life:parent", args[0], args[1])
            elif ps and "renf_elem_class" in ps[0]:
                A.write(mem, "life:parent", args[0], A.read(mem, "life:parent", args[1]))
            self.alive(A, mem, "renf_elem_class", args[0], "live")
            return None
        if b == E + "::~renf_elem_class":
            A.event(i, dem, args)
            self.lifecheck(A, mem, "clear", "renf_elem_class", args[0], i)
            self.alive(A, mem, "renf_elem_class", args[0], "dead")
            A.write(mem, "renf_elem", args[0], T("gone"))
            return None
        m = re.match(re.escape(E) + r"::operator([-+*/]?=)$", b)
        if m:
            x, y = read(args[0]), self.operand(A, mem, spec["params"][0], args[1])
            f = {"*=": mulx, "/=": lambda p, q: T("qdiv", p, q), "+=": add, "-=": lambda p, q: add(p, q, -1), "=": lambda p, q: q}[m.group(1)]
            A.event(i, dem, args, extra=[x, y])
            A.write(mem, "renf_elem", args[0], lift(f, x, y))
            return args[0]
        if b.startswith("eantic::operator==") and "renf_class const&" in spec["params"][0]:
            return vf.atom(T("same_field", *sorted((args[0], args[1]), key=lambda t: t.id))) if all(a.op != "ite" for a in args) else lift(lambda p, q: vf.atom(T("same_field", *sorted((p, q), key=lambda t: t.id))), *args)
        if b.startswith("eantic::operator==") or b.startswith("eantic::operator<") and b.endswith("operator<"):
            x, y = [self.operand(A, mem, t, a) for t, a in zip(spec["params"], args)]
            return lift(lambda p, q: vf.atom(eqterm(p, q)) if "==" in b else vf.icmp("slt", T("cmp", p, q), ZERO), x, y)
        if b == E + "::operator bool const":
            return lift(lambda x: vf.Not(vf.atom(eqterm(x, ZERO))), read(args[0]))
        if b in (E + "::is_rational const", E + "::is_integer const"):
            return lift(lambda x: vf.atom(T(b.split("::")[-1].split()[0], x)), read(args[0]))
        if b == E + "::operator- const" and len(args) == 2:
            A.event(i, dem, args)
            A.write(mem, "renf_elem", args[0], lift(lambda x: T("neg", x), read(args[1])))
            self.alive(A, mem, "renf_elem_class", args[0], "live")
            return None
        if b == E + "::floor const" or b == E + "::ceil const":
            A.event(i, dem, args)
            A.write(mem, "mpz", args[0], lift(floor_ if "floor" in b else ceil_, read(args[1])))
            self.alive(A, mem, "mpz", args[0], "live")
            return None
        if b.startswith(E + "::operator __gmp_expr<__mpq_struct"):
            A.event(i, dem, args)
            A.write(mem, "mpq", args[0], read(args[1]))
            self.alive(A, mem, "mpq", args[0], "live")
            return None
        if b.startswith(E + "::operator __gmp_expr<__mpz_struct"):
            A.event(i, dem, args)
            A.write(mem, "mpz", args[0], read(args[1]))
            self.alive(A, mem, "mpz", args[0], "live")
            return None
        return NotImplemented

    def cxx(self, A, name, dem, i, args, mem):
        dem = dem or "indirect"
        if name in ("_Znwm", "_Znam", "_ZnwmSt11align_val_t"):
            root = T("heap", i["id"])
            mem.fresh.add(root)
            A.event(i, "new", args)
            return T("ptr", root, 0)
        if name and name.startswith("_Zd") and "operator delete" in dem:
            A.event(i, "delete", args)
            return None
        if name == "__cxa_guard_acquire":
            return Int(0, 32)
        if re.search(r"\bnocheck\(\)( \(\.\d+\))?$", dem):
            return vf.TRUE if self.nocheck else vf.FALSE
        if re.search(r"\bnoassert\(\)( \(\.\d+\))?$", dem):
            return vf.TRUE if self.noassert else vf.FALSE
        if re.search(r"std::__shared_count|std::_Sp_counted|std::__weak_count", dem.split("(")[0]):
            A.event(i, dem, args)
            return None if i["ty"] == "void" else T("refcount", i["id"]) if i["ty"] != "ptr" else T("ptr", T("refcount", i["id"]), 0)
        spec = signature(dem)
        if "eantic::" in dem:
            r = self.eantic(A, dem, spec, i, args, mem)
            if r is not NotImplemented:
                return r
        n = len(args)
        sret = 1 if i.get("sret") else 0
        ps = spec["params"]
        # empty classes passed by value have no argument
        while len(ps) > n - sret:
            ps = ps[:-1]
        this = n - sret - len(ps)
        outs, ins = [], []
        for k, a in enumerate(args):
            isptr = i["argtys"][k] == "ptr"
            if k < sret:
                outs.append(a)
                continue
            if k - sret < this:
                const = spec["const"]
                ins.append(self.content(A, mem, a))
                if not const:
                    outs.append(a)
                continue
            ty = ps[k - sret - this] if 0 <= k - sret - this < len(ps) else "?"
            if isptr:
                byvalue = not re.search(r"[&*]", ty) and "?" != ty
                ins.append(self.content(A, mem, a))
                if re.search(r"[&*]", ty) and not re.search(r"const\s*(&|\*)|^char const\*", ty):
                    outs.append(a)
            else:
                ins.append(a)
        A.event(i, dem if name else "indirect", args, extra=ins)
        base = spec["base"]
        for o in outs:
            for q in vf.leaves(o):
                if q.op != "ptr":
                    q = T("ptr", q, 0)
                root, off = q.args
                if root.op == "global" and (A.globals.get(root.args[0]) or {}).get("const"):
                    continue
                if root.op == "fn":
                    continue
                for key in list(mem.cells):
                    if key[1] is root and key[2] >= off and not key[0].startswith("life:"):
                        if root.op == "alloca" and key[2] >= off or key[2] == off:
                            del mem.cells[key]
                idx = next((j for j, x in enumerate(outs) if x is o), 0)
                t = T("call", base, idx if len(outs) > 1 else 0, *ins) if all(isinstance(x, T) for x in ins) else T("call", base)
                A.write(mem, "cxx", q, t)
        if i["ty"] == "void":
            return None
        r = T("callret", base, *ins)
        if i["ty"] == "ptr":
            r = T("ptr", r, 0)
        return r


def signature(dem):
    """name and parameter types of a demangled function"""
    # cut the parameter list: the last top level (...)
    const = dem.endswith(" const")
    d = dem
    depth = 0
    end = d.rfind(")")
    if end < 0:
        return {"base": d, "params": [], "const": const}
    j = end
    while j >= 0:
        if d[j] == ")":
            depth += 1
        elif d[j] == "(":
            depth -= 1
            if depth == 0:
                break
        j -= 1
    inner = d[j + 1:end]
    params, depth, cur = [], 0, ""
    for ch in inner:
        if ch in "<([{":
            depth += 1
        elif ch in ">)]}":
            depth -= 1
        if ch == "," and depth == 0:
            params.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip() and cur.strip() != "void":
        params.append(cur.strip())
    return {"base": d[:j] + (" const" if const else ""), "params": params, "const": const}
