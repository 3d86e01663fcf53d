"""Seeds: distinct by default, exact when explicit, and the only entropy."""
from world import *

SEEDS = """
void fresh(unsigned *r) { *r = Seed().value; }
void fresh_new(unsigned *r) { Seed *s = new Seed(); *r = s->value; }
void given(unsigned n, unsigned *r) { Seed s(n); *r = s.value; }
void implicit(unsigned n, unsigned *r) { Seed s = n; *r = s.value; }
void copied(const Seed &s, unsigned *r) { Seed t(s); *r = t.value; }
void moved(Seed &s, unsigned *r) { Seed t(static_cast<Seed &&>(s)); *r = t.value; }
void assigned(const Seed &s, Seed &t, unsigned *r) { t = s; *r = t.value; }
void move_assigned(Seed &s, Seed &t, unsigned *r) { t = static_cast<Seed &&>(s); *r = t.value; }
"""
NUMBERS = """
typedef std::shared_ptr<const RealNumber> P;
void random_seed(unsigned n, P *r) { new (r) P(RealNumber::random(Seed(n))); }
void random_fresh(P *r) { new (r) P(RealNumber::random()); }
"""
RANGES = """
typedef std::shared_ptr<const RealNumber> P;
void range_seed(const Arf &a, const Arf &b, unsigned n, P *r) { new (r) P(RealNumber::random(a, b, Seed(n))); }
"""
WRAPPERS = """
typedef std::shared_ptr<const RealNumber> P;
void range_fresh(const Arf &a, const Arf &b, P *r) { new (r) P(RealNumber::random(a, b)); }
void near_seed(double x, unsigned n, P *r) { new (r) P(RealNumber::random(x, Seed(n))); }
void near_fresh(double x, P *r) { new (r) P(RealNumber::random(x)); }
"""
HEADERS = ["exact-real/seed.hpp", "exact-real/real_number.hpp", "exact-real/arf.hpp"]
RANGE = r"|^exactreal::RealNumber::random\(exactreal::Arf const&, exactreal::Arf const&, exactreal::Seed\)|^exactreal::RealNumber::random\(exactreal::Seed\)"


def threadlocal(t):
    return t.op == "intrinsic" and isinstance(t.args[0], str) and "threadlocal" in t.args[0]


def mutable(lab, t):
    if threadlocal(t):
        t = t.args[1]
        t = t.args[0] if t.op == "ptr" else t
    g = lab.globals.get(t.args[0]) if t.op == "global" else None
    return g is not None and not g.get("const")


def injective(t, old, bits=32):
    """is t an injective function of the counter's value?"""
    if t is old:
        return True
    if t.op == "lin":
        return len(t.args[1]) == 1 and t.args[1][0][0] % 2 == 1 and injective(t.args[1][0][1], old)
    if t.op in ("xor", "add"):
        x = [a for a in t.args if not vf.isint(a)]
        return len(x) == 1 and injective(x[0], old)
    if t.op == "not":
        return injective(t.args[0], old)
    if t.op == "trunc":
        return t.args[1] >= bits and injective(t.args[0], old)
    if t.op in ("zext", "sext"):
        return injective(t.args[0], old)
    if t.op == "width":
        return t.args[2] * 8 >= bits and injective(t.args[0], old)
    return False


def counter(lab, rep, key, fn, value, A, s):
    """value must come from an atomic step of a counter"""
    rmw = [e for e in s.events if e["name"] == "atomicrmw"]
    if len(rmw) > 1:
        rmw = [e for e in rmw if mentions(value, e["args"][0].args[0] if e["args"][0].op == "ptr" else e["args"][0])]
    place = common.where(rmw[0]["ins"]) if rmw else common.where(fn["blocks"][0]["ins"][0])
    locks = [e["seq"] for e in s.events if re.search(r"mutex_lock|mutex::lock", e["name"])]
    plain = sorted({x for v in leaves(value) for x in vf.walk(v) if x.op == "in" and mutable(lab, x.args[1])}, key=repr)
    if not rmw:
        if any(i["op"] == "cmpxchg" for b in fn["blocks"] for i in b["ins"]):
            rep.ob(key, None, "the counter advances by compare and exchange", place)
        elif plain:
            rep.ob(key, None if locks else False, "the default seed is %r: the counter %s is read and advanced in separate steps%s" % (value, plain[0].args[1].args[0], ", inside a lock" if locks else " that threads can interleave"), place)
        else:
            rep.ob(key, False, "the default seed is %r, not the next value of a process-wide counter" % (value,), place)
        return
    if len(rmw) > 1 or rmw[0]["pc"] is not TRUE:
        rep.ob(key, None, "several or conditional steps of the counter: %r" % (value,), place)
        return
    e = rmw[0]
    p, step, op = e["args"]
    root = p.args[0] if p.op == "ptr" else p
    g = lab.globals.get(root.args[0], {}) if root.op == "global" else {}
    width = max(1, int(e["ins"]["ty"][1:]) // 8)
    old = T("in", "raw%d" % width, root, p.args[1] if p.op == "ptr" else 0)
    why = None
    if root.op != "global" or g.get("const"):
        why = "the counter %r is not shared by the process" % (root,)
    elif g.get("tls"):
        why = "every thread has a counter %s of its own" % root.args[0]
    elif op.op not in ("add", "sub") or not vf.isint(step) or step.args[0] % 2 == 0:
        why = "the counter changes by %s %r, which revisits values early" % (op.op, step)
    elif width < 4:
        why = "the counter has only %d bits" % (8 * width)
    elif not all(injective(l, old) for l in leaves(value)):
        bad = next(l for l in leaves(value) if not injective(l, old))
        direct = vf.isint(bad) or any(x.op in ("and", "urem", "udiv", "lshr", "trunc", "width") for x in vf.walk(bad))
        rep.ob(key, False if direct else None, "the default seed %r is not a one-to-one function of the counter's value %r" % (bad, old), place)
        return
    rep.ob(key, why is None, why or "the default seed is %r, the value at which this thread's atomic step found the counter" % (value,), place)


def seeded_with(t, seed):
    """(used completely, used partly)"""
    full = part = False
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            if x is seed:
                full = True
                continue
            if x.op in ("and", "urem", "srem", "lshr", "ashr", "udiv", "trunc") and mentions(x, seed):
                part = True
                continue
            if x.op == "bits":
                for lo, w, src, sl in x.args[1]:
                    if src is seed:
                        if w >= 32 and sl == 0:
                            full = True
                        else:
                            part = True
                    elif isinstance(src, T):
                        stack.append(src)
                continue
            stack.extend(x.args)
        elif isinstance(x, tuple):
            stack.extend(x)
    return full, part


def run(facts, rep):
    rep.explanation = "the value stored by the default constructor is an injective image of an atomic step of one counter; explicit values and copies are stored unchanged; every construction of a random number passes its seed on whole, and no function that produces digits reads anything but the number's seed"
    rep.rules = ["counter: default seed = injective(atomic fetch-add of an odd step, at least 32 bits, not thread local)", "flow: seed parameter = factory key = stored seed = generator seed", "effects: digit producers read no mutable global, no clock, no address, no other field"]
    lab = Lab(facts, rep, ["seed"], "^verif_driver::", SEEDS, HEADERS)
    for f in lab.find("^verif_driver::"):
        name = re.sub(r"^verif_driver::|\(.*", "", f["dem"])
        A, s = lab.run(f)
        if s.mem is None or s.undecided:
            rep.ob(name, None, "; ".join(s.undecided) or "never returns")
            continue
        names = {a["name"]: k for k, a in enumerate(f["args"])}
        got = A.read(s.mem, "raw4", T("ptr", T("arg", names["r"]), 0))
        if name.startswith("fresh"):
            counter(lab, rep, name, f, got, A, s)
            continue
        want = T("arg", names["n"]) if "n" in names else T("in", "raw4", T("arg", names["s"]), 0)
        rep.ob(name, got is want, "a seed %s from %r has the value %r" % (name, want, got), common.where(f["blocks"][0]["ins"][0]))
        if "s" in names and name in ("copied", "assigned", "moved"):
            after = A.read(s.mem, "raw4", T("ptr", T("arg", names["s"]), 0))
            rep.ob(name + ":source", after is want, "the copied seed keeps its value: %r" % after)
    numbers(facts, rep)
    ranges(facts, rep)
    rep.floor("functions summarised", rep.counts.get("functions summarised", 0), 14)


def numbers(facts, rep):
    lab = Lab(facts, rep, ["random_real_number", "real_number_base", "seed"], r"^verif_driver::|::RandomRealNumber::arf_\(", NUMBERS, HEADERS)
    seeds = set()
    made = {}
    for name in ("random_seed", "random_fresh"):
        f = lab.driver(name)
        A, s = lab.run(f)
        lookup = [e for e in s.events if e["name"] == "lookup"]
        reg = [e for e in s.events if e["name"] == "register"]
        if len(lookup) != 1 or len(reg) != 1 or s.undecided:
            rep.ob(name, None, "%d lookups, %d registrations %s" % (len(lookup), len(reg), s.undecided))
            continue
        place = common.where(lookup[0]["ins"])
        key = lookup[0]["extra"]
        vals = list(key.values())
        if name == "random_seed":
            want = T("arg", 0)
            rep.ob(name + ":key", vals == [want], "the number for seed %r is looked up with the key %s" % (want, vals), place)
        else:
            if len(vals) == 1:
                counter(lab, rep, name + ":key", f, vals[0], A, s)
                want = vals[0]
            else:
                rep.ob(name + ":key", None, "key %s" % vals, place)
                continue
        _, obj, mem = reg[0]["extra"]
        cells = snapshot(A, mem, obj)
        fields = {k: lookup[0] and v for k, v in cells.items()}
        mine = {k for k, v in fields.items() if all(l is want for _, l in relevant(v, reg[0]["pc"]))}
        if not mine:
            rep.ob(name + ":stored", False, "the object created for seed %r does not store it: %s" % (want, {k: v for k, v in fields.items() if k[0] == "raw4"}), place)
            continue
        rep.ob(name + ":stored", True, "the object created stores the seed %r at offset %s" % (want, sorted(k[1] for k in mine)), place)
        seeds |= mine
        made.update(fields)
    if not seeds:
        return
    for f in lab.find(r"::RandomRealNumber::arf_\("):
        A, s = lab.run(f)
        this = next(k for k, a in enumerate(f["args"]) if a["name"] == "this")
        seedcells = {T("in", k, T("arg", this), o) for k, o in seeds}

        def allowed(x):
            kind, root, off = x.args[:3]
            if root is T("arg", this):
                v = made.get((kind, off))
                if x not in seedcells and (v is None or A.read(s.mem, kind, T("ptr", root, off)) is not x):
                    unknown.append(x)
                    return True
                return x in seedcells or not any(y.op == "in" and mutable(lab, y.args[1]) for l in leaves(v) for y in vf.walk(l))
            return not mutable(lab, root) if root.op == "global" or threadlocal(root) else True
        unknown = []
        bad = entropy(A, s, allowed)
        rep.ob("arf_:effects", False if bad else None if unknown else True, "digits of a random number are computed from its seed alone%s" % ("; but it " + ", ".join(sorted({b for b, _ in bad})[:5]) if bad else ""), bad[0][1] if bad else common.where(f["blocks"][0]["ins"][0]))
        ref = next(iter(seedcells))
        out = [t for e in s.events for t in list(e["args"]) + [x for x in (e["extra"] or []) if isinstance(x, T)]]
        use = [seeded_with(t, ref) for t in out]
        full, part = any(u[0] for u in use), any(u[1] for u in use)
        rep.ob("arf_:seeded", True if full else False if part or not s.undecided else None, "the generator is seeded with %s" % ("the whole seed" if full else "a part of the seed" if part else "something else"), common.where(f["blocks"][0]["ins"][0]))


def ranges(facts, rep):
    lab = Lab(facts, rep, ["constrained_random_real_number", "real_number_base", "seed"], "^verif_driver::", RANGES, HEADERS, opaque=common.OPAQUE + r"|^exactreal::RealNumber::random\(exactreal::Seed\)")
    f = lab.driver("range_seed")
    A, s = lab.run(f)
    n = T("arg", next(k for k, a in enumerate(f["args"]) if a["name"] == "n"))
    inner = [e for e in s.events if "RealNumber::random(exactreal::Seed)" in e["name"]]
    gen = [e for e in s.events if re.search(r"gmp_randseed", e["name"])]
    rep.ob("range:inner", bool(inner) and all(lift(catalog.U, e["args"][-1]) is n or e["args"][-1] is n or seedval(e["args"][-1], n, e) for e in inner), "the digits after the initial ones come from random(%s)" % [str(e["args"][-1])[:120] for e in inner], common.where(inner[0]["ins"]) if inner else "")
    ok = bool(gen) and all(seedval(e["args"][1], n, e) for e in gen)
    rep.ob("range:initial", ok if gen else None, "the initial digits are drawn from a generator seeded with %s" % [str(e["args"][1])[:100] for e in gen], common.where(gen[0]["ins"]) if gen else "")

    # every draw is from a generator that has just been seeded
    for k, e in enumerate(e for e in s.events if re.search(r"urandom|rrandom", e["name"]) and e["extra"]):
        state = [x for x in e["extra"] if isinstance(x, T) and any(y.op == "in" and y.args[0] == "gmprand" or "rand" in y.op for y in vf.walk(x))]
        for x in state[:1]:
            left = []
            for g, l in relevant(x, e["pc"]):
                left += [y for y in fresh(l) if y.op == "in" and (mutable(lab, y.args[1]) if y.args[1].op == "global" or threadlocal(y.args[1]) else False)]
            rep.ob("range:draw%d" % k, not left, "the generator's state is %s" % ("what an earlier number left behind: %r" % left[0] if left else "determined by the seed"), common.where(e["ins"]))

    def allowed(x):
        root = x.args[1]
        return not mutable(lab, root) if root.op == "global" or threadlocal(root) else True
    bad = [b for b in entropy(A, s, allowed) if not re.search(r"factory|_ZN9exactrealL4nextE", b[0])]
    rep.ob("range:effects", not bad, "a random number in a range is computed from the range and the seed%s" % ("; but it " + ", ".join(sorted({b for b, _ in bad})[:5]) if bad else ""), bad[0][1] if bad else "")
    lab = Lab(facts, rep, ["constrained_random_real_number", "seed", "arf"], "^verif_driver::", WRAPPERS, HEADERS, opaque=common.OPAQUE + RANGE)
    for name in ("range_fresh", "near_seed", "near_fresh"):
        f = lab.driver(name)
        A, s = lab.run(f)
        calls = [e for e in s.events if "RealNumber::random(" in e["name"]]
        if not calls:
            rep.ob(name, None, "does not construct a number through random(lower, upper, seed)")
            continue
        for e in calls:
            v = e["args"][-1]
            if name == "near_seed":
                n = T("arg", next(k for k, a in enumerate(f["args"]) if a["name"] == "n"))
                rep.ob(name, seedval(v, n, e), "the seed passed on is %r" % (v,), common.where(e["ins"]))
            else:
                counter(lab, rep, name, f, v, A, s)


def seedval(v, n, e):
    def strip(x):
        while x.op in ("zext", "sext", "u"):
            x = x.args[0]
        return x
    return all(strip(l) is n for _, l in relevant(v, e["pc"]))
