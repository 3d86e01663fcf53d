"""Arithmetic expressions of Arf and Arb evaluate to the nested library
operations they spell, at the precision and rounding bound closest to them,
whatever variable receives the result."""
from spec import *
from catalog import neg

OPS = {"+": "add", "-": "sub", "*": "mul", "/": "div"}
PREC = [2, 64, (1 << 32) + 64, (1 << 62) + 1]


class E:
    """an expression: C++ text and the value it must have"""

    def __init__(self, text, value, leaves_, prim=False):
        self.text, self.value, self.leaves, self.prim = text, value, leaves_, prim


def leaf(n):
    return E(n, lambda v, ctx: getattr(v, n), [n], True)


def paren(e):
    return e.text if e.prim else "(%s)" % e.text


def binary(ty, op, a, b):
    return E("%s %s %s" % (paren(a), op, paren(b)), lambda v, ctx: T("%s_%s" % (ty, OPS[op]), a.value(v, ctx), b.value(v, ctx), *ctx(v)), a.leaves + b.leaves)


def minus(a):
    return E("-%s" % paren(a), lambda v, ctx: neg(a.value(v, ctx)), a.leaves)


def bound(a, text, inner):
    """a(precision...): the innermost binding wins"""
    return E("%s(%s)" % (paren(a), text), lambda v, ctx: a.value(v, inner), a.leaves, True)


def drivers(ty, tier):
    C = {"arf": "Arf", "arb": "Arb"}[ty]
    if ty == "arf":
        pdecl, call = "prec p, Arf::Round R", "p, R"
        ctx = lambda v: (v.p, v.R)
        pdecl2, call2 = ", prec q, Arf::Round S", "q, S"
        ctx2 = lambda v: (v.q, v.S)
    else:
        pdecl, call = "prec p", "p"
        ctx = lambda v: (v.p,)
        pdecl2, call2 = ", prec q", "q"
        ctx2 = lambda v: (v.q,)
    none = lambda v: ()
    out = []
    count = [0]

    def D(tag, ps, body, **kw):
        count[0] += 1
        dm = {"p": PREC, "q": [17, 53, (1 << 33) + 53]}
        dm.update(kw.pop("domains", {}))
        out.append(Driver("%s_%s_%d" % (ty, tag, count[0]), ps, body, domains=dm, **kw))

    a, b, c = leaf("a"), leaf("b"), leaf("c")

    def all_targets(tag, e, params, callargs, value, extra="", alias=True):
        """construction, assignment to a fresh variable and to each operand"""
        used = sorted(set(e.leaves))
        decl = lambda mut: ", ".join("%s%s &%s" % ("" if x == mut else "const ", C, x) for x in used)
        text = paren(e) + ("(%s)" % callargs if callargs else "")
        ps = (", " + params if params else "") + extra
        D(tag + "_new", decl(None) + ps + ", %s *r" % C, "new (r) %s(%s);" % (C, text), out={"r": lambda v: e.value(v, value)}, new=["r"])
        D(tag + "_set", decl(None) + ps + ", %s &r" % C, "r = %s;" % text, out={"r": lambda v: e.value(v, value)})
        if alias:
            for x in used:
                D(tag + "_into_" + x, decl(x) + ps, "%s = %s;" % (x, text), out={x: lambda v: e.value(v, value)})

    for op in OPS:
        e = binary(ty, op, a, b)
        all_targets(OPS[op], e, pdecl, call, ctx)
        all_targets(OPS[op] + "_same", binary(ty, op, a, a), pdecl, call, ctx)
        all_targets("neg_" + OPS[op], minus(e), pdecl, call, ctx)
        all_targets("l_neg_" + OPS[op], binary(ty, op, minus(a), b), pdecl, call, ctx)
        all_targets("r_neg_" + OPS[op], binary(ty, op, a, minus(b)), pdecl, call, ctx)
        # compound assignment
        D("compound_" + OPS[op], "%s &a, const %s &b, %s" % (C, C, pdecl), "a %s= b(%s);" % (op, call), out={"a": lambda v, o=op: T("%s_%s" % (ty, OPS[o]), v.a, v.b, *ctx(v))})
        D("compound_self_" + OPS[op], "%s &a, %s" % (C, pdecl), "a %s= a(%s);" % (op, call), out={"a": lambda v, o=op: T("%s_%s" % (ty, OPS[o]), v.a, v.a, *ctx(v))})
        D("compound_ref_" + OPS[op], "%s &a, const %s &b, %s, %s **r" % (C, C, pdecl, C), "*r = &(a %s= b(%s));" % (op, call), out={"a": lambda v, o=op: T("%s_%s" % (ty, OPS[o]), v.a, v.b, *ctx(v))}, writes=["r"])
        for op2 in OPS if tier == "thorough" else ("+" if op in "*/" else "*", op):
            e2 = binary(ty, op2, b, c)
            D("compound_nested", "%s &a, const %s &b, const %s &c, %s" % (C, C, C, pdecl), "a %s= (b %s c)(%s);" % (op, op2, call),
              out={"a": lambda v, o=op, e2=e2: T("%s_%s" % (ty, OPS[o]), v.a, e2.value(v, ctx), *ctx(v))})
            e3 = binary(ty, op2, b, a)
            D("compound_nested_self", "%s &a, const %s &b, %s" % (C, C, pdecl), "a %s= (b %s a)(%s);" % (op, op2, call),
              out={"a": lambda v, o=op, e3=e3: T("%s_%s" % (ty, OPS[o]), v.a, e3.value(v, ctx), *ctx(v))})
        for op2 in OPS:
            for shape in (0, 1):
                e = binary(ty, op2, binary(ty, op, a, b), c) if shape == 0 else binary(ty, op, a, binary(ty, op2, b, c))
                if tier == "thorough" or op != op2 or shape:
                    all_targets("n%d_%s_%s" % (shape, OPS[op], OPS[op2]), e, pdecl, call, ctx, alias=tier == "thorough" or op != op2)
        # the inner binding wins inside, the outer one outside
        inner = bound(binary(ty, op, a, b), call2, ctx2)
        for op2 in OPS if tier == "thorough" else ("-",):
            all_targets("inner_l_" + OPS[op], binary(ty, op2, inner, c), pdecl, call, ctx, extra=pdecl2)
            all_targets("inner_r_" + OPS[op], binary(ty, op2, c, inner), pdecl, call, ctx, extra=pdecl2)
    all_targets("neg", minus(a), "", "", none)
    all_targets("negneg", minus(minus(a)), "", "", none)
    all_targets("bal", binary(ty, "/", binary(ty, "-", a, b), binary(ty, "-", c, a)), pdecl, call, ctx)
    if ty == "arf":
        for op in OPS:
            e = binary(ty, op, a, b)
            all_targets("pr_" + OPS[op], bound(e, "p)(R", ctx), pdecl, "", ctx, alias=False)
            all_targets("rp_" + OPS[op], bound(e, "R)(p", ctx), pdecl, "", ctx, alias=False)
            all_targets("rp2_" + OPS[op], bound(e, "R, p", ctx), pdecl, "", ctx, alias=False)
            for k, nm in enumerate(("DOWN", "UP", "FLOOR", "CEIL", "NEAR")):
                D("mode_%s_%s" % (OPS[op], nm), "const Arf &a, const Arf &b, prec p, Arf &r", "r = (a %s b)(p, Arf::Round::%s);" % (op, nm),
                  out={"r": lambda v, o=op, k=k: T("arf_" + OPS[o], v.a, v.b, v.p, Int(k))})
                D("cmode_%s_%s" % (OPS[op], nm), "Arf &a, const Arf &b, prec p", "a %s= b(p, Arf::Round::%s);" % (op, nm),
                  out={"a": lambda v, o=op, k=k: T("arf_" + OPS[o], v.a, v.b, v.p, Int(k))})
            D("crp_%s" % OPS[op], "Arf &a, const Arf &b, prec p, Arf::Round R", "a %s= b(R)(p);" % op, out={"a": lambda v, o=op: T("arf_" + OPS[o], v.a, v.b, v.p, v.R)})
    # terminals that are promised to convert losslessly
    for op in OPS:
        kinds = ["int", "long", "double"] if ty == "arf" else ["int", "long", "unsigned long", "double"]
        for kd in kinds:
            conv = (lambda v: T("u", v.n)) if kd == "unsigned long" else (lambda v: v.n)
            D("right_%s_%s" % (OPS[op], kd.replace(" ", "_")), "const %s &a, const %s n, %s, %s &r" % (C, kd, pdecl, C), "r = (a %s n)(%s);" % (op, call),
              out={"r": lambda v, o=op, conv=conv: T("%s_%s" % (ty, OPS[o]), v.a, conv(v), *ctx(v))})
            D("left_%s_%s" % (OPS[op], kd.replace(" ", "_")), "const %s &a, const %s n, %s, %s &r" % (C, kd, pdecl, C), "r = (n %s a)(%s);" % (op, call),
              out={"r": lambda v, o=op, conv=conv: T("%s_%s" % (ty, OPS[o]), conv(v), v.a, *ctx(v))})
    # temporaries inside an expression
    for op in OPS:
        D("tmp_" + OPS[op], "const %s &a, const %s &b, %s, %s &r" % (C, C, pdecl, C), "r = (%s(a) %s %s(b))(%s);" % (C, op, C, call), out={"r": lambda v, o=op: T("%s_%s" % (ty, OPS[o]), v.a, v.b, *ctx(v))})
    return out


def run(facts, rep):
    rep.explanation = "evaluation of expression templates"
    ds = drivers("arf", rep.tier) + drivers("arb", rep.tier)
    b = Bench(facts, rep, ["arf", "arb"], ["exact-real/arf.hpp", "exact-real/arb.hpp", "exact-real/yap/arf.hpp", "exact-real/yap/arb.hpp"], ds)
    b.run()
    rep.floor("drivers", rep.counts.get("drivers", 0), 300)
