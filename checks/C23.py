"""State shared by the whole process is only touched atomically, under its lock, or while it is initialised once."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from world import *
import catalog

UNITS = ["arb", "arf", "constrained_random_real_number", "element", "integer_ring", "module", "number_field", "random_real_number", "rational_field", "rational_real_number", "real_number", "real_number_base", "real_number_product", "seed"]
LOCK = re.compile(r"^(pthread_mutex_lock|pthread_rwlock_wrlock|pthread_spin_lock|mtx_lock)$|^std::((recursive_|shared_|timed_|shared_timed_)?mutex|scoped_lock<.*>|lock_guard<.*>|unique_lock<.*>)::lock\(")
SHLOCK = re.compile(r"^pthread_rwlock_rdlock$|^std::shared_(timed_)?mutex::lock_shared\(")
UNLOCK = re.compile(r"^(pthread_mutex_unlock|pthread_rwlock_unlock|pthread_spin_unlock|mtx_unlock)$|^std::(recursive_|shared_|timed_)?(timed_)?mutex::unlock(_shared)?\(")
GUARD = re.compile(r"^__cxa_guard_(acquire|release|abort)$")
# these touch hidden state of the C library that other threads use too
HIDDEN = re.compile(r"^(rand|srand|random|srandom|initstate|setstate|drand48|lrand48|mrand48|srand48|seed48|lcong48|strtok|setlocale|setenv|putenv|unsetenv|asctime|ctime|gmtime|localtime|lgamma|ecvt|fcvt|tmpnam|mp_set_memory_functions|flint_set_num_threads|__gmp_set_memory_functions|__flint_set_memory_functions|flint_cleanup|flint_cleanup_master)$|^std::(rand|srand|strtok|setlocale)\(")
FACTORY = re.compile(r"^verif_factory_(lookup|register)$")
LIFE = re.compile(r"^(__cxa_atexit|__cxa_guard_\w+|llvm\..*|__dynamic_cast|std::type_info::.*)$|eantic::intrusive_ptr_(add_ref|release)\(")
READERS = re.compile(r"::(find|begin|end|cbegin|cend|rbegin|rend|size|empty|at|count|contains|front|back|data|c_str|length|lower_bound|upper_bound|equal_range|capacity|max_size|key_eq|hash_function)\([^()]*\)$")
WRITERS = re.compile(r"::(operator=|clear|insert|emplace|erase|push_back|emplace_back|pop_back|resize|reserve|swap|rehash|assign|append|try_emplace|insert_or_assign|push|pop|merge|extract|operator\+=|operator<<)[<(]")


def shared(g):
    """a variable of this library that outlives a call and that all threads see"""
    n = g["name"]
    if g.get("const") or g.get("tls") or "init" not in g and "size" not in g:
        return False
    if re.match(r"_ZT[VISTC]|_ZGV|llvm\.|__dso_handle|\.str|_ZSt|_ZNSt|_ZStL8__ioinit|_ZL?N5boost|_ZN4YAML", n):
        return False
    return not re.search(r"boost::|^guard variable|std::__ioinit|^std::|__gnu_cxx::", g.get("dem", ""))


def const_this(dem):
    return bool(re.search(r"\) const$", dem or ""))


class Access:
    def __init__(self, kind, region, ins, held, stage, detail, dep=False):
        self.kind, self.region, self.ins, self.held, self.stage, self.detail, self.dep = kind, region, ins, held, stage, detail, dep


class Flow:
    """regions (globals, and memory reached through them) that pointers of one function may refer to"""

    def __init__(self, fn, glob, protos):
        self.fn, self.glob, self.protos = fn, glob, protos
        self.ins = {i["id"]: i for b in fn["blocks"] for i in b["ins"]}
        self.val = {}        # id -> set of regions
        self.addr = {}       # id -> (alloca id, offset or None)
        self.cells = {}      # (alloca, offset) -> set of regions
        self.dep = {}        # id -> set of globals whose atomic load it is computed from
        self.solve()
        self.protection()
        self.collect()

    def of(self, v):
        k = v.get("k") if isinstance(v, dict) else None
        if k == "global":
            g = self.glob.get(v["name"])
            return {("g", v["name"])} if g is not None and shared(g) else set()
        if k == "v":
            return self.val.get(v["id"], set())
        if k == "gep":
            return self.of(v["base"])
        if k == "cexpr":
            return set().union(*[self.of(o) for o in v["ops"]]) if v["ops"] else set()
        return set()

    def deps(self, v):
        return self.dep.get(v["id"], set()) if isinstance(v, dict) and v.get("k") == "v" else set()

    def place(self, v):
        k = v.get("k") if isinstance(v, dict) else None
        if k == "v":
            return self.addr.get(v["id"])
        if k == "gep":
            return self.step(v)
        return None

    def step(self, g):
        p = self.place(g["base"])
        if p is None:
            return None
        if p[1] is None or g.get("var") or not isinstance(g.get("off"), int):
            return (p[0], None)
        return (p[0], p[1] + g["off"])

    def solve(self):
        change = True
        while change:
            change = False
            for b in self.fn["blocks"]:
                for i in b["ins"]:
                    change |= self.transfer(i)

    def put(self, d, k, s):
        if s and not s <= d.get(k, set()):
            d[k] = d.get(k, set()) | s
            return True
        return False

    def cellof(self, p):
        out = set()
        for (a, o), s in self.cells.items():
            if a == p[0] and (p[1] is None or o is None or o == p[1]):
                out |= s
        return out

    def transfer(self, i):
        op = i["op"]
        c = False
        if op == "alloca":
            if i["id"] not in self.addr:
                self.addr[i["id"]] = (i["id"], 0)
                return True
            return False
        if op == "gep":
            p = self.step(i["gep"])
            if p is not None and self.addr.get(i["id"]) != p:
                self.addr[i["id"]] = p
                c = True
            return self.put(self.val, i["id"], self.of(i["gep"])) | c
        if op == "phi":
            for _, v in i["in"]:
                c |= self.put(self.val, i["id"], self.of(v)) | self.put(self.dep, i["id"], self.deps(v))
                p = self.place(v)
                if p is not None and i["id"] not in self.addr:
                    self.addr[i["id"]] = p
                    c = True
                elif p is not None and self.addr[i["id"]] != p and self.addr[i["id"]] != (p[0], None):
                    self.addr[i["id"]] = (p[0], None)
                    c = True
            return c
        if op == "load":
            p = self.place(i["ops"][0])
            if p is not None:
                return self.put(self.val, i["id"], self.cellof(p)) if i["ty"] == "ptr" or i["ty"].startswith("{") else False
            r = self.of(i["ops"][0])
            if i.get("atomic"):
                c |= self.put(self.dep, i["id"], {n for k, n in r if k == "g"})
            if i["ty"] == "ptr":
                c |= self.put(self.val, i["id"], {("h", n) for k, n in r})
            return c
        if op == "store":
            p = self.place(i["ops"][1])
            if p is not None:
                return self.put(self.cells, p, self.of(i["ops"][0]))
            return False
        if op in ("call", "invoke"):
            d = self.name(i)
            out = set()
            for a in i["args"]:
                # a pointer handed out by a container refers into it
                out |= {("h", n) for k, n in self.of(a)}
            # results written through sret or other local memory
            if out and not FACTORY.search(d):
                for a in i["args"]:
                    p = self.place(a)
                    if p is not None and (i.get("sret") or READERS.search(re.sub(r" const$", "", d))):
                        c |= self.put(self.cells, (p[0], None), out)
            if i["ty"] in ("ptr", "{ptr, i8}", "{ ptr, i8 }", "{ptr, i1}") or i["ty"].startswith("{"):
                c |= self.put(self.val, i["id"], out)
            return c
        if op in ("atomicrmw", "cmpxchg"):
            return False
        for o in i.get("ops") or []:
            if isinstance(o, dict):
                if op in ("select", "bitcast", "insertvalue", "extractvalue", "freeze", "inttoptr", "ptrtoint", "addrspacecast"):
                    c |= self.put(self.val, i["id"], self.of(o))
                c |= self.put(self.dep, i["id"], self.deps(o))
        return c

    def name(self, i):
        k = i["callee"]
        return (k.get("dem") or k.get("name") or "") if isinstance(k, dict) and k.get("k") == "fn" else ""

    # locks held and initialisation guards passed, on every path
    def protection(self):
        blocks = {b["id"]: b for b in self.fn["blocks"]}
        state = {self.fn["blocks"][0]["id"]: frozenset()}
        self.at = {}
        todo = [self.fn["blocks"][0]["id"]]
        while todo:
            n = todo.pop()
            s = set(state[n])
            b = blocks[n]
            acquired = {}
            for i in b["ins"]:
                self.at[i["id"]] = frozenset(s)
                if i["op"] in ("call", "invoke"):
                    d = self.name(i)
                    if LOCK.search(d) and i["args"]:
                        s |= {("lock", r) for r in self.key(i["args"][0])}
                    elif SHLOCK.search(d) and i["args"]:
                        s |= {("shared", r) for r in self.key(i["args"][0])}
                    elif UNLOCK.search(d) and i["args"]:
                        ks = self.key(i["args"][0])
                        s = {x for x in s if x[0] not in ("lock", "shared") or x[1] not in ks}
                    elif d in ("__cxa_guard_release", "__cxa_guard_abort"):
                        s = {x for x in s if x != ("guard", self.text(i["args"][0]))}
            last = b["ins"][-1]
            for t, extra in self.edges(last):
                new = frozenset(s | extra)
                old = state.get(t)
                join = new if old is None else old & new
                if join != old:
                    state[t] = join
                    todo.append(t)

    def text(self, v):
        return v.get("name") or str(v)

    def key(self, v):
        """which mutex: a global one by name, others are private to their object"""
        if isinstance(v, dict) and v.get("k") == "global":
            return {v["name"]}
        if isinstance(v, dict) and v.get("k") == "gep":
            return {"%s+%s" % (x, v.get("off")) for x in self.key(v["base"])}
        if isinstance(v, dict) and v.get("k") == "v":
            i = self.ins.get(v["id"])
            if i is not None and i["op"] == "gep":
                return self.key(i["gep"])
            if i is not None and i["op"] == "load":
                return {x for _, x in self.of(v)} | {n for n in self.stored(i)}
        return set()

    def stored(self, i):
        p = self.place(i["ops"][0])
        out = set()
        if p is not None:
            for b in self.fn["blocks"]:
                for j in b["ins"]:
                    if j["op"] == "store" and self.place(j["ops"][1]) == p:
                        out |= self.key(j["ops"][0]) if j["ops"][0].get("k") in ("global", "gep") else set()
        return out

    def edges(self, i):
        op = i["op"]
        if op == "br":
            if "cond" not in i:
                return [(t, set()) for t in i["succ"]]
            g = self.acquired(i["cond"])
            if g:
                sense, name = g
                return [(i["succ"][0], {("guard", name)} if sense else set()), (i["succ"][1], set() if sense else {("guard", name)})]
            return [(t, set()) for t in i["succ"]]
        if op == "switch":
            return [(i["default"], set())] + [(t, set()) for _, t in i["cases"]]
        if op == "invoke":
            return [(i["normal"], set()), (i["unwind"], set())]
        return []

    def acquired(self, v):
        i = self.ins.get(v.get("id")) if v.get("k") == "v" else None
        if i is None:
            return None
        if i["op"] == "icmp" and i["pred"] in ("ne", "eq"):
            a, b = i["ops"]
            if a.get("k") == "int":
                a, b = b, a
            if b.get("k") == "int" and int(b["v"]) == 0:
                c = self.ins.get(a.get("id")) if a.get("k") == "v" else None
                if c is not None and c["op"] in ("call", "invoke") and self.name(c) == "__cxa_guard_acquire":
                    return (i["pred"] == "ne", self.text(c["args"][0]))
        return None

    def collect(self):
        self.accesses = []
        self.hidden = []

        def add(kind, regions, i, detail, dep=False):
            held = self.at.get(i["id"])
            if held is None:
                return          # unreachable
            if i.get("loc") and re.search(r"/(atomicity|shared_ptr_base)\.h$", i["loc"][0][0]):
                # reference counts are atomic as soon as there are threads
                regions = {r for r in regions if r[0] == "g"}
            for r in regions:
                self.accesses.append(Access(kind, r, i, {x for x in held if x[0] != "guard"}, {x[1] for x in held if x[0] == "guard"}, detail, dep))
        for b in self.fn["blocks"]:
            for i in b["ins"]:
                op = i["op"]
                if op == "load":
                    add("aload" if i.get("atomic") else "load", self.of(i["ops"][0]), i, "reads")
                elif op == "store":
                    r = self.of(i["ops"][1])
                    lost = self.deps(i["ops"][0]) & {n for k, n in r}
                    add("astore" if i.get("atomic") else "store", r, i, "writes", bool(lost))
                elif op in ("atomicrmw", "cmpxchg"):
                    add("rmw", self.of(i["ops"][0]), i, "updates")
                elif op in ("call", "invoke"):
                    d = self.name(i)
                    plain = d.split("(")[0] if not d.startswith("std::") else d
                    if HIDDEN.search(d):
                        self.hidden.append(i)
                        continue
                    if LIFE.search(d) or LOCK.search(d) or UNLOCK.search(d) or SHLOCK.search(d):
                        continue
                    for k, a in enumerate(i["args"]):
                        r = self.of(a)
                        p = self.place(a)
                        if not r:
                            continue
                        if FACTORY.search(d):
                            if k == 0:
                                add("factory", r, i, d)
                            else:
                                add("load", r, i, "passes to the factory")
                            continue
                        add(self.callkind(d, k, i), r, i, "calls " + (d[:100] or "a virtual function"))

    def callkind(self, d, k, i):
        if d in self.protos:
            ps = self.protos[d]["params"]
            return "load" if k < len(ps) and (ps[k][1] or ps[k][0] in ("scalar", "uscalar")) else "store"
        if k == 0 and const_this(d):
            return "load"
        if READERS.search(d):
            return "load"
        sret = 1 if i.get("sret") else 0
        if k == sret and WRITERS.search(d):
            return "store"
        if k == sret and re.search(r"std::(unordered_)?map<.*>::operator\[\]\(", d):
            return "store"
        if k == sret and re.search(r"std::vector<.*>::operator\[\]\(", d):
            return "load"
        m = re.search(r"\((.*)\)( const)?$", d)
        if k > sret or not re.search(r"::", d.split("(")[0]):
            # arguments taken by reference to const are only read
            try:
                ps = catalog.signature(d)["params"]
            except (IndexError, KeyError):
                ps = None
            off = sret + (1 if ps is not None and len(i["args"]) - sret == len(ps) + 1 else 0)
            if ps and 0 <= k - off < len(ps):
                return "load" if "const" in ps[k - off] or not re.search(r"[&*]", ps[k - off]) else "store"
        if re.search(r"::~", d):
            return "store"
        if re.search(r"([\w:]+)(<.*>)?::\1\(", d):
            return "store"
        return "unknown"


def unit(facts, rep, u, protos, out):
    bcs = facts.compile([u], extra=["-DNDEBUG"] if u == "element" else [])
    data = facts.lower(bcs, roots=r"^exactreal::|^\(anonymous namespace\)|^_GLOBAL__|^__cxx_global_var_init|^std::hash<exactreal|^cereal::", opaque=common.OPAQUE, name=u)
    glob = {g["name"]: g for g in data["globals"]}
    n = 0
    for fn in data["functions"]:
        if fn["dem"].startswith("__cxx_global_var_init") or fn["dem"].startswith("_GLOBAL__"):
            continue
        f = Flow(fn, glob, protos)
        n += 1
        out.append((u, fn, glob, f))
    rep.count("functions analysed", n)
    rep.count("instructions analysed", sum(len(b["ins"]) for x in data["functions"] for b in x["blocks"]))
    return glob


def title(fn):
    return re.sub(r"\(anonymous namespace\)::", "", fn["dem"]).split("(")[0]


def nicename(g, name):
    return (g.get(name, {}).get("dem") or name).replace("(anonymous namespace)::", "")


def judge(rep, u, out, glob):
    by = {}
    for _, fn, _, f in out:
        for i in f.hidden:
            rep.ob("%s:hidden:%s" % (u, f.name(i)[:30]), False, "%s calls %s, whose hidden state all threads share" % (title(fn), f.name(i)), common.where(i))
        for a in f.accesses:
            by.setdefault(a.region[1], []).append((fn, a))
    for n, g in glob.items():
        if g.get("tls") or not shared(g):
            continue
        by.setdefault(n, [])
    for n, acc in sorted(by.items()):
        name = nicename(glob, n)
        key = "%s:%s" % (u, re.sub(r"\(.*?\)", "", name))[:90]
        factory = any(a.kind == "factory" for _, a in acc)
        late = [(fn, a) for fn, a in acc if not a.stage]      # after the initialisation
        rep.count("accesses to shared state", len(acc))
        place = common.where(acc[0][1].ins) if acc else ""
        bad = None
        und = None
        writes = [(fn, a) for fn, a in late if a.kind in ("store",)]
        plainreads = [(fn, a) for fn, a in late if a.kind == "load"]
        atomics = [(fn, a) for fn, a in late if a.kind in ("aload", "astore", "rmw")]
        if factory and any(a.kind in ("store", "unknown") and a.region[0] == "g" for _, a in late):
            fn, a = next((fn, a) for fn, a in late if a.kind in ("store", "unknown") and a.region[0] == "g")
            bad = (fn, a, "the factory's state is changed other than by its own operations")
        for fn, a in atomics:
            if a.kind == "astore" and a.dep and not a.held:
                bad = (fn, a, "a value computed from an earlier atomic load is stored: an update by another thread in between is lost")
        if not bad and writes and not factory:
            locks = None
            for fn, a in writes + plainreads:
                mine = {x[1] for x in a.held if x[0] == "lock" or a.kind == "load"}
                locks = mine if locks is None else locks & mine
            if not locks:
                fn, a = next(((fn, a) for fn, a in writes if not any(x[0] == "lock" for x in a.held)), writes[0])
                bad = (fn, a, "it is written without a lock that all its users hold%s" % (" (and atomically elsewhere)" if atomics else ""))
        if not bad and atomics and plainreads and any(a.kind in ("astore", "rmw") for _, a in atomics):
            fn, a = plainreads[0]
            if a.region[0] == "g" and not a.held:
                bad = (fn, a, "it is read without synchronisation while other threads update it")
        unk = [(fn, a) for fn, a in late if a.kind == "unknown" and not a.held]
        if not bad and unk and not factory:
            und = unk[0]
        if bad:
            fn, a, why = bad
            rep.ob(key, False, "%s %s the process-wide %s: %s" % (title(fn), a.detail, name, why), common.where(a.ins))
        elif und:
            rep.ob(key, None, "%s %s the process-wide %s" % (title(und[0]), und[1].detail, name), common.where(und[1].ins))
        else:
            how = "through its factory's operations" if factory else "atomically" if atomics else "under a lock" if writes else "only while it is initialised, and read afterwards" if acc else "never"
            rep.ob(key, True, "%s is accessed %s (%d accesses in %d functions)" % (name, how, len(acc), len({fn["name"] for fn, _ in acc})), place)


def run(facts, rep):
    rep.explanation = "every load, store, atomic operation and call of every library function whose operand may refer to a variable shared by the process (or memory reached through one) is classified by a flow analysis of pointers and of the locks and initialisation guards held; conflicting accesses need an atomic operation, a common lock, the one-time initialisation, or the factory"
    rep.rules = ["written after initialisation => all accesses atomic, or all under one lock", "no update split into an atomic load and an atomic store", "factories are only used through their operations", "no call of library functions with hidden shared state"]
    rep.assumptions = ["unique-factory's get() synchronises itself (its sources are not in this checkout)", "FLINT and GMP are built thread safe"]
    protos = catalog.prototypes(common.BUILD)

    def job(us):
        for u in us:
            out = []
            glob = unit(facts, rep, u, protos, out)
            judge(rep, u, out, glob)
    parts = [["element"], ["real_number_product", "seed"], ["module", "real_number_base"], ["constrained_random_real_number", "rational_real_number", "real_number"], ["arb", "arf", "random_real_number"], ["integer_ring", "rational_field", "number_field"]]
    common.parallel(facts, rep, [lambda p=p: job(p) for p in parts])
    rep.floor("functions analysed", rep.counts.get("functions analysed", 0), 300)
    keys = " ".join(o["key"] for o in rep.obligations)
    for must in ("seed:", "real_number_base:", "module:", "random_real_number:", "real_number_product:"):
        if must not in keys:
            rep.ob(must + "state", None, "no shared state found")
