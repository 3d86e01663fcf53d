"""What is initialised by hand is released exactly once, on every path."""
import glob
import os
import re
from concurrent.futures import ThreadPoolExecutor

import common
import owned
from owned import Cell, Function, Run, callee, managed, split

SMALL = 20000  # blocks of a function


def owners(F):
    """places of objects that are initialised, viewed or released here: {(root, offset): [(instruction, what, kind)]}"""
    out = {}
    unknown = []
    for b, i in F.calls():
        n, _ = callee(i)
        w = split(n) if n else None
        if not w or w[0] == "use" or not i["args"]:
            continue
        many = bool(re.search(r"_(init|clear)s$", n))
        for a in i["args"] if many else i["args"][:1]:
            p = F.pointer(a)
            if p is None:
                continue
            if p[1] is None:
                if not managed(i):
                    unknown.append(i)
                continue
            out.setdefault(p, []).append((i, w[0], w[1]))
    return out, unknown


def buffers(F):
    """(instruction, how it must be released)"""
    for b, i in F.calls():
        n, _ = callee(i)
        if managed(i):
            continue
        for r, f in owned.BUFFERS.items():
            if re.match(r, n):
                yield i, "^%s$" % f
        for r, (f, k) in owned.DIGITS.items():
            if re.match(r, n) and i["args"][k].get("k") == "null":
                yield i, "^%s$" % f
        m = owned.VECTORS.match(n)
        if m:
            yield i, "^%s_clear$" % m.group(1)


class Unit:
    def __init__(self, name, facts):
        self.name = name
        self.fns = [Function(f) for f in facts["functions"]]


def tear(units, rep):
    """{class: {offset: kind}} of what destructors always release; classes that have a destructor"""
    always, have = {}, set()
    for u in units:
        for F in u.fns:
            sp = owned.special(F.fn["dem"])
            if not sp or sp[1] != "dtor":
                continue
            have.add(sp[0])
            this = [n for n, a in enumerate(F.fn["args"]) if a.get("name") == "this"]
            for (root, off), ev in owners(F)[0].items():
                if this and root == ("arg", this[0]) and not all(managed(e[0]) for e in ev):
                    kind = ev[0][2]
                    r = Run(F, Cell(F, root, off, kind, "I", "IUVSC?", "IUVSC?"))
                    ends = set()
                    r.leaves = lambda i, st, b, ex, ends=ends: ends.add((st, ex))
                    r.solve()
                    if ends and {s for s, ex in ends if not ex} == {"C"} and not r.c.notes:
                        always.setdefault(sp[0], {})[off] = kind
                    else:
                        always.setdefault(sp[0], {}).setdefault(off, None)
    return always, have


STRICT = {'%"class.exactreal::Arf"', '%"class.exactreal::Arb"'}


def cells(F, always):
    """the objects to follow in a function: (Cell, why)"""
    fn = F.fn
    roles = owned.roles(fn)
    ps = owned.params(fn["dem"])
    sp = owned.special(fn["dem"])
    k = 0
    cls = {}
    for n, a in enumerate(fn["args"]):
        if a.get("sret"):
            cls[n] = re.sub(r'^%"?(class|struct)\.(.*?)"?$', r"\2", a.get("srty", ""))
        elif a.get("name") == "this":
            cls[n] = owned.signature(fn["dem"])[0]
        else:
            t = ps[k] if k < len(ps) else ""
            k += 1
            cls[n] = re.sub(r"( const)?&*$", "", t)
    out = []
    own, unknown = owners(F)
    done = set()
    for (root, off), ev in own.items():
        kind = next((e[2] for e in ev if e[1] in ("init", "view", "shallow")), ev[0][2])
        by_hand = [e for e in ev if not managed(e[0])]
        if root[0] == "alloca":
            if by_hand:
                out.append((Cell(F, root, off, kind, "U", "UCS?", "UCS?"), by_hand))
        elif root[0] == "arg":
            entry, leave, unwind = roles.get(root[1], ("?", "UIVSC?", "UIVSC?"))
            strict = off in always.get(cls.get(root[1]), {}) and always[cls[root[1]]][off]
            if not strict and not (sp and sp[1] == "dtor" and entry == "I"):
                entry, leave, unwind = ("U" if entry == "U" else "?"), "UIVSC?", "UIVSC?" if entry != "U" else "UCS?"
            if sp and sp[1] == "dtor" and not strict:
                continue
            if by_hand:
                out.append((Cell(F, root, off, kind, entry, leave, unwind), by_hand))
                done.add((root, off))
        elif root[0] == "v":
            d = F.defs.get(root[1])
            fresh = d is not None and d["op"] in ("call", "invoke") and re.match(r"^_Zn[wa]m|^malloc$", callee(d)[0])
            if by_hand:
                out.append((Cell(F, root, off, kind, "U" if fresh else "?", "UIVSC?", "UIVSC?"), by_hand))
        elif by_hand:
            out.append((Cell(F, root, off, kind, "?", "UIVSC?", "UIVSC?"), by_hand))
    # what constructors have to initialise and others have to keep
    for n, c in cls.items():
        for off, kind in always.get(c, {}).items():
            if kind and (("arg", n), off) not in done and touches(F, n):
                entry, leave, unwind = roles[n]
                out.append((Cell(F, ("arg", n), off, kind, entry, leave, unwind), []))
    for i, release in buffers(F):
        out.append((Cell(F, None, 0, "buffer", "U", "UC?", "UC?", value=i["id"], release=release), [(i, "made", "buffer")]))
    return out, unknown


def touches(F, n):
    sp = owned.special(F.fn["dem"])
    if F.fn["args"][n].get("sret") or sp and sp[1] in ("ctor", "dtor") and F.fn["args"][n].get("name") == "this":
        return True
    for b, i in F.calls():
        nm, _ = callee(i)
        if nm and (split(nm) or nm.startswith(("llvm.memcpy", "llvm.memmove"))):
            for a in i["args"]:
                p = F.pointer(a)
                if p and p[0] == ("arg", n):
                    return True
    return False


def place(ev, F):
    return common.where(ev[0][0]) if ev else "%s:%s" % (F.fn.get("file", "?").replace(common.REPO + "/", ""), F.fn.get("line"))


def decide(u, always, have):
    """[(key, verdict, detail, place)], counts"""
    out, counts = [], {"objects followed": 0, "steps": 0}
    for F in u.fns:
        cs, unknown = cells(F, always)
        for i in unknown:
            out.append(("objects at " + common.where(i), None, "an array of objects is initialised or released", common.where(i), F))
        for c, ev in cs:
            counts["objects followed"] += 1
            r = Run(F, c)
            r.kept = {(x.root, x.off) for x, _ in cs if x.leave == "I?"}
            r.solve()
            counts["steps"] += r.steps
            at = place(ev, F)
            k = "%s at %s" % (c.kind, at)
            if r.problems:
                for ps in r.problems.values():
                    ins, what, _ = ps[0]
                    sure = not c.notes and any(n in r.sure for _, _, n in ps)
                    out.append((k, False if sure else None, "%s: %s" % (F.fn["dem"][:160], what), common.where(ins), F))
            elif c.notes:
                out.append((k, None, "; ".join(sorted(c.notes)), at, F))
            else:
                out.append((k, True, "", at, F))
            # an object of a class whose constructor initialises it
            sp = owned.special(F.fn["dem"])
            if sp and sp[1] == "ctor" and c.root and c.root[0] == "arg" and F.fn["args"][c.root[1]].get("name") == "this" and ev and any(e[1] == "init" for e in ev):
                kept = always.get(sp[0], {})
                ok = True if kept.get(c.off) else None if c.off in kept or sp[0] not in have and not sp[0].startswith("exactreal::") else False
                out.append(("destructor of %s" % sp[0], ok, "" if ok else "what the constructor initialises is never released by a destructor", at, F))
    return out, counts


HEADERS = ["exact-real/arf.hpp", "exact-real/arb.hpp", "exact-real/yap/arf.hpp", "exact-real/yap/arb.hpp"]


def templates():
    """(name, text) of translation units that use what is only in headers"""
    import C03
    import C16
    import spec
    ds = C03.drivers("arf", "quick") + C03.drivers("arb", "quick")
    head = spec.PRELUDE % "\n".join("#include <%s>" % h for h in HEADERS)
    out = [("own_yap%d" % k, head + "\n".join(d.code() for d in ds[k::6]) + "\n}\n") for k in range(6)]
    head = "\n".join("#include %s" % i if i.startswith('"') else "#include <%s>" % i for i in C16.INCLUDES)
    return out + [("own_cereal", head + "\nusing namespace exactreal;\nnamespace verif_driver {\n" + C16.CODE + "\n}\n")]


def run(facts, rep):
    rep.explanation = "every object of FLINT, Arb, GMP and e-antic that a function handles by hand: a typestate analysis over all paths of the function, with those on which exceptions are thrown"
    names = sorted(os.path.relpath(p, common.REPO + "/libexactreal/src")[:-3] for p in glob.glob(common.REPO + "/libexactreal/src/*.cc"))
    texts = templates()

    def lower(n):
        src = n if isinstance(n, str) else tuple(n)
        try:
            return Unit(src if isinstance(n, str) else n[0], facts.lower(facts.compile([src]), roots="." if isinstance(n, str) else "^exactreal::|^verif_driver::|realizer<", name="own_" + (n if isinstance(n, str) else n[0])))
        except common.Broken:
            if isinstance(n, str):
                raise
            return n[0]
    with ThreadPoolExecutor(8) as ex:
        units = list(ex.map(lower, sorted(names, key=lambda n: n != "element") + texts))
    for u in [u for u in units if isinstance(u, str)]:
        rep.ob("uses of the headers: " + u, None, "they do not compile")
    units = [u for u in units if not isinstance(u, str)]
    always, have = tear(units, rep)
    rep.count("library units", len(names))
    rep.count("functions analysed", sum(len(u.fns) for u in units))
    rep.count("classes that release C objects", len([c for c in always if any(always[c].values())]))
    verdicts = {}
    for u in units:
        got, counts = decide(u, always, have)
        for k, v in counts.items():
            rep.count(k, v)
        for k, ok, detail, at, F in got:
            verdicts.setdefault(k, []).append((ok, detail, at))
    rep.floor("objects and buffers", len(verdicts), 1)
    for k, vs in sorted(verdicts.items()):
        bad = [v for v in vs if v[0] is False]
        und = [v for v in vs if v[0] is None]
        v = (bad or und or vs)[0]
        rep.ob(k, v[0], v[1], v[2])
