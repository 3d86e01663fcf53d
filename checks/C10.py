"""Rationals that are built from a numerator and a denominator are in lowest terms."""
import glob
import os
from concurrent.futures import ThreadPoolExecutor

import common
import C07
from rationals import Rationals, callee


def decide(F):
    """([(key, verdict, detail, place)], counts)"""
    counts = {"functions": 1}
    if not any("gmp" in callee(i)[0] or "gmp" in callee(i)[1] for _, i in F.calls()):
        return [], counts
    r = Rationals(F)
    r.solve()
    out = []
    counts.update({"functions that handle numbers of GMP": 1, "rationals": len(r.known), "uses of rationals": r.uses, "steps": r.steps})
    name = F.fn["dem"][:160]
    guilty = set()
    for i, sure, how, P in r.bad.values():
        guilty.add(P)
        src = r.built.get(P)
        at = common.where(min(src.values(), key=lambda x: common.where(x))) if src else common.where(i)
        out.append(("%s at %s" % (name, at), False if sure else None, "a rational whose numerator and denominator may have a common factor, or a negative denominator, is %s at %s" % (how, common.where(i)), at))
    for P, ins in r.built.items():
        if P not in guilty:
            at = common.where(min(ins.values(), key=lambda x: common.where(x)))
            out.append(("%s at %s" % (name, at), None if r.notes else True, "; ".join(r.notes), at))
    for i in r.elsewhere.values():
        out.append(("%s at %s" % (name, common.where(i)), None if r.later else False, "a rational is built from two numbers and never reduced", common.where(i)))
    return out, counts


def run(facts, rep):
    rep.explanation = "every function of the library and every function of its headers that is used here: which rationals are in lowest terms at each point, by a forward dataflow analysis over the calls of GMP that the function makes, inlined members of mpq_class included; a rational that is used, handed on, copied, returned or left behind when its numerator and denominator have been set apart from each other and it has not been reduced is reported"
    names = sorted(os.path.relpath(p, common.REPO + "/libexactreal/src")[:-3] for p in glob.glob(common.REPO + "/libexactreal/src/*.cc"))
    texts = [t for t in C07.templates() if t[0] == "own_cereal"]

    def lower(n):
        own = isinstance(n, str)
        try:
            return C07.Unit(n if own else n[0], facts.lower(facts.compile([n if own else tuple(n)]), roots="." if own else "^exactreal::|^verif_driver::|realizer<", name="rat_" + (n if own else n[0])))
        except common.Broken:
            if own:
                raise
            return n[0]
    with ThreadPoolExecutor(8) as ex:
        units = list(ex.map(lower, sorted(names, key=lambda n: n != "element") + texts))
    for u in [u for u in units if isinstance(u, str)]:
        rep.ob("uses of the headers: " + u, None, "they do not compile")
    verdicts = {}
    for u in units:
        if isinstance(u, str):
            continue
        rep.count("units")
        for F in u.fns:
            got, counts = decide(F)
            for k, v in counts.items():
                rep.count(k, v)
            for k, ok, detail, at in got:
                verdicts.setdefault(k, []).append((ok, detail, at))
    for k, vs in sorted(verdicts.items()):
        worst = next((v for v in vs if v[0] is False), next((v for v in vs if v[0] is None), vs[0]))
        rep.ob(k, *worst)
    rep.floor("rationals", rep.counts.get("rationals", 0), 20)
    rep.floor("functions that handle numbers of GMP", rep.counts.get("functions that handle numbers of GMP", 0), 20)
