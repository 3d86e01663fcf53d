"""Every promised entry point exists, is defined by the library and is visible in it."""
import json
import os
import re
import subprocess
import sys
import concurrent.futures

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import common
from common import sh, LIB

RINGS = ["IntegerRing", "RationalField", "NumberField"]
SCALARS = ["short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "mpz_class", "mpq_class"]
RELS = ["==", "!=", "<", "<=", ">", ">="]


def lists(name):
    """a variable of the library's build description"""
    txt = open(os.path.join(LIB, "src", "Makefile.am")).read().replace("\\\n", " ")
    m = re.search(r"^%s\s*=(.*)$" % name, txt, re.M)
    if not m:
        raise common.Unfamiliar("no %s in src/Makefile.am" % name)
    return m.group(1).split()


def uses():
    """(name, parameters, body): what a user of the library can write"""
    out = []

    def u(name, params, body):
        out.append((name, params, body))
    for r in RINGS:
        E = "Element<%s>" % r
        M = "Module<%s>" % r
        C = "typename %s::ElementClass" % r
        P = "std::shared_ptr<const %s>" % M
        el = ["Element<%s>* z = new Element<%s>(); (void)z;" % (r, r), "%s z(m, c);" % E, "%s z(x);" % E, "%s z(std::move(x));" % E, "x = y;", "x = std::move(y);", "sink(x[0]);", "sink(x.coefficients());",
              "sink(x.rationalCoefficients());", "sink(x.arb(64));", "sink(x + y);", "sink(x - y);", "sink(x * y);", "x += y;", "x -= y;", "x *= y;", "sink(-x);", "sink(x.truediv(y));", "sink(x.floordiv(y));", "x *= a;", "sink(x * a);",
              "sink(x.floor());", "sink(x.ceil());", "sink(x.unit());", "sink(bool(x));", "sink(static_cast<double>(x));", "sink(static_cast<std::optional<mpz_class>>(x));", "sink(static_cast<std::optional<mpq_class>>(x));",
              "sink(x.module());", "x.promote(m);", "x.simplify();", "std::cout << x;", "sink(std::hash<%s>()(x));" % E, "%s z(c[0]);" % E, "using std::swap; swap(x, y);"]
        el += ["sink(x %s y);" % o for o in RELS] + ["sink(x %s a); sink(a %s x);" % (o, o) for o in RELS]
        for k, b in enumerate(el):
            u("%s_el%d" % (r, k), "%s x, %s y, const RealNumber& a, %s m, std::vector<%s> c" % (E, E, P, C), b)
        for t in SCALARS:
            for o in RELS:
                u("%s_%s_%s" % (r, t, o), "const %s& x, const %s& t" % (E, t), "sink(x %s t); sink(t %s x);" % (o, o))
            for b in ("x *= t;", "x /= t;", "sink(x * t);", "sink(t * x);", "sink(x / t);"):
                u("%s_%s_%s" % (r, t, b), "%s x, const %s& t" % (E, t), b)
        if r == "NumberField":
            for b in ("x *= t;", "x /= t;", "sink(x * t);", "sink(t * x);", "sink(x / t);"):
                u("%s_elem_%s" % (r, b), "%s x, const NumberField::ElementClass& t" % E, b)
        if r != "IntegerRing":
            u("%s_from_integer" % r, "const Element<IntegerRing>& x", "%s z(x);" % E)
        if r == "NumberField":
            u("%s_from_rational" % r, "const Element<RationalField>& x", "%s z(x);" % E)
        mo = ["sink(%s::make(b));" % M, "sink(%s::make(b, r));" % M, "sink(m->rank());", "sink(m->basis());", "sink(m->ring());", "sink(*m == *n);", "sink(*m != *n);", "sink(%s::span(m, n));" % M, "sink(m->submodule(*n));",
              "sink(m->gen(0));", "sink(m->zero());", "sink(m->one());", "std::cout << *m;"]
        for k, b in enumerate(mo):
            u("%s_mod%d" % (r, k), "%s m, %s n, %s::Basis b, %s r" % (P, P, M, r), b)
        ri = ["%s z; sink(z);" % r, "%s z(r); z = s; sink(z);" % r, "sink(r == s); sink(r != s);", "sink(%s::compositum(r, s));" % r, "sink(%s::unit(c));" % r, "sink(%s::arb(c, 64));" % r, "sink(%s::floor(c));" % r, "sink(%s::rational(c));" % r,
              "sink(r.coerce(c));", "sink(%s::isField);" % r, "sink(%s::contains_rationals);" % r, "sink(std::hash<%s>()(r));" % r]
        for k, b in enumerate(ri):
            u("%s_ring%d" % (r, k), "%s r, %s s, %s c" % (r, r, C), b)
        for t in ("int", "long", "unsigned long", "long long", "unsigned long long", "mpz_class", "mpq_class"):
            u("%s_imul_%s" % (r, t), "%s c, const %s& t" % (C, t), "%s::imul(c, t); %s::idiv(c, t);" % (r, r))
    u("NumberField_field", "const NumberField& r, const eantic::renf_elem_class& c", "NumberField z(r.parameters); NumberField y(c); sink(z == y);")
    re_ = ["sink(RealNumber::random());", "sink(RealNumber::random(Seed(1)));", "sink(RealNumber::random(l, u));", "sink(RealNumber::random(l, u, Seed(1)));", "sink(RealNumber::random(1.5));", "sink(RealNumber::random(1.5, Seed(1)));",
           "sink(RealNumber::rational(q));", "sink(static_cast<double>(a));", "sink(static_cast<bool>(a));", "sink(static_cast<std::optional<mpq_class>>(a));", "sink(a.arf(64));", "sink(a.arb(64));", "a.refine(z, 64);", "sink(a.cmp(z));", "sink(a.deglex(b));",
           "sink(a * b);", "sink(a / b);", "std::cout << a;", "Seed s; sink(s.value);", "Seed s(1); sink(s.value);", "a >> std::cout;"]
    for k, b in enumerate(re_):
        u("real%d" % k, "const RealNumber& a, const RealNumber& b, const Arf& l, const Arf& u, Arb z, const mpq_class& q", b)
    for o in RELS:
        u("real_real_" + o, "const RealNumber& a, const RealNumber& b", "sink(a %s b);" % o)
        for t in ("Arf", "mpq_class", "mpz_class", "short", "unsigned short", "int", "unsigned int", "long"):
            u("real_%s_%s" % (t, o), "const RealNumber& a, const %s& t" % t, "sink(a %s t); sink(t %s a);" % (o, o))
    ints = ["short", "unsigned short", "int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long"]
    arb = ["Arb z; sink(z);", "Arb z(x); sink(z);", "Arb z(std::move(x)); sink(z);", "x = y;", "x = std::move(y);", "Arb z(f); sink(z);", "Arb z(mz); sink(z);", "x = mz;", "Arb z(mq, 64); sink(z);", "Arb z(q, 64); sink(z);", "Arb z(std::string(\"1\"), 64); sink(z);",
           "Arb z(std::pair<Arf, Arf>(f, f), 64); sink(z);", "Arb z(std::pair<Arf, Arf>(f, f)); sink(z);", "sink(static_cast<double>(x));", "sink(static_cast<std::pair<Arf, Arf>>(x));", "sink(static_cast<Arf>(x));", "sink(x.equal(y));", "sink(x.is_exact());", "sink(x.is_finite());", "sink(x.arb_t());",
           "sink(std::as_const(x).arb_t());", "sink(Arb::zero());", "sink(Arb::one());", "sink(Arb::pos_inf());", "sink(Arb::neg_inf());", "sink(Arb::zero_pm_inf());", "sink(Arb::indeterminate());", "sink(Arb::zero_pm_one());", "sink(Arb::unit_interval());",
           "flint_rand_t s; sink(Arb::randtest(s, 64, 8)); sink(Arb::randtest_exact(s, 64, 8));", "std::cout << x;", "swap(x, y);", "sink(-x);", "x = (x + y)(64);", "x = (x - y)(64);", "x = (x * y)(64);", "x = (x / y)(64);", "x += y(64);", "x -= y(64);", "x *= y(64);", "x /= y(64);"]
    for k, b in enumerate(arb):
        u("arb%d" % k, "Arb x, Arb y, const Arf& f, const mpz_class& mz, const mpq_class& mq, const eantic::renf_elem_class& q", b)
    for t in ints:
        u("arb_" + t, "Arb x, %s t" % t, "Arb z(t); x = t; sink(z);")
    for o in RELS:
        u("arb_arb_" + o, "const Arb& x, const Arb& y", "sink(x %s y);" % o)
        for t in ints + ["mpq_class", "mpz_class"]:
            u("arb_%s_%s" % (t, o), "const Arb& x, const %s& t" % t, "sink(x %s t);" % o)
    arf = ["Arf z; sink(z);", "sink(std::hash<Arf>()(x));", "Arf z(x); sink(z);", "Arf z(std::move(x)); sink(z);", "x = y;", "x = std::move(y);", "Arf z(mz, 3); sink(z);", "Arf z(std::string(\"1\"), 2, 0); sink(z);", "Arf z(1); sink(z);", "Arf z(1l); sink(z);", "Arf z(1.5); sink(z);", "x = 1;", "x = 1l;", "x = 1.5;",
           "sink(x.abs());", "sink(x.arf_t());", "sink(std::as_const(x).arf_t());", "sink(x.ceil());", "sink(x.floor());", "sink(x.exponent());", "sink(x.mantissa());", "sink(x.logb());", "sink(static_cast<double>(x));", "sink(-x);", "x <<= 3l;", "x >>= 3l;", "sink(x << 3l);", "sink(x >> 3l);",
           "flint_rand_t s; sink(Arf::randtest(s, 64, 8));", "std::cout << x;", "swap(x, y);", "x = (x + y)(64, Arf::Round::NEAR);", "x = (x - y)(64, Arf::Round::UP);", "x = (x * y)(64, Arf::Round::DOWN);", "x = (x / y)(64, Arf::Round::FLOOR);", "x += y(64, Arf::Round::CEIL);", "x -= y(64, Arf::Round::NEAR);", "x *= y(64, Arf::Round::NEAR);", "x /= y(64, Arf::Round::NEAR);"]
    for k, b in enumerate(arf):
        u("arf%d" % k, "Arf x, Arf y, const mpz_class& mz", b)
    for o in RELS:
        u("arf_arf_" + o, "const Arf& x, const Arf& y", "sink(x %s y);" % o)
        for t in ("int", "long"):
            u("arf_%s_%s" % (t, o), "const Arf& x, %s t" % t, "sink(x %s t); sink(t %s x);" % (o, o))
    return out


def documents(text):
    d, i = json.JSONDecoder(), 0
    while i < len(text):
        while i < len(text) and text[i].isspace():
            i += 1
        if i >= len(text):
            return
        if text[i] != "{":
            i = text.find("\n", i) + 1 or len(text)
            continue
        o, i = d.raw_decode(text, i)
        yield o


FUNCTION = ("FunctionDecl", "CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "CXXConversionDecl")


class Declared:
    """functions that the headers declare and do not define"""

    def __init__(self, text):
        self.bodies, self.decl, self.defined = set(), {}, set()
        self.position = {}
        for o in documents(text):
            self.walk(o, "public")
        self.open = {m: o for m, o in self.decl.items() if m not in self.defined and self.position[m] not in self.bodies}

    def walk(self, o, access):
        if not isinstance(o, dict):
            return
        k = o.get("kind")
        if k in FUNCTION:
            loc = o.get("loc", {})
            loc = loc.get("expansionLoc", loc)
            at = (loc.get("offset"), loc.get("line"), loc.get("col"))
            if any(x.get("kind") in ("CompoundStmt", "CXXTryStmt") for x in o.get("inner", [])):
                self.bodies.add(at)
                self.defined.add(o.get("mangledName"))
            m = o.get("mangledName")
            if m and (o.get("isImplicit") or o.get("explicitlyDefaulted") or o.get("explicitlyDeleted") or o.get("pure")):
                self.defined.add(m)
            elif m and access == "public" and m not in self.decl:
                self.decl[m] = o
                self.position[m] = at
            return
        cur = "private" if k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl") and o.get("tagUsed") == "class" else "public"
        for x in o.get("inner", []):
            if x.get("kind") == "AccessSpecDecl":
                cur = x.get("access", cur)
            elif k in ("CXXRecordDecl", "ClassTemplateSpecializationDecl"):
                self.walk(x, cur)
            else:
                self.walk(x, access)


def flags(facts):
    return [f for f in facts.flags() if f != "-DBUILD_LIBEXACTREAL"]


def parallel(jobs):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda c: sh(c), jobs))


def library(facts):
    """the shared library as the linker sees it; what is undefined stays so"""
    srcs = [s for s in lists("libexactreal_la_SOURCES") if s.endswith(".cc")]
    d = os.path.join(facts.dir, "so")
    os.makedirs(d, exist_ok=True)
    jobs = [["g++"] + facts.flags() + ["-O2", "-w", "-fPIC", "-c", os.path.join(LIB, "src", s), "-o", os.path.join(d, s + ".o")] for s in srcs]
    for s, r in zip(srcs, parallel(jobs)):
        if r.returncode:
            raise common.Broken("%s does not compile: %s" % (s, r.stderr[-800:]))
    so = os.path.join(d, "libexactreal.so")
    script = os.path.join(LIB, "src", "libexactreal.map")
    r = sh(["g++", "-shared", "-o", so] + [os.path.join(d, s + ".o") for s in srcs] + (["-Wl,--version-script=" + script] if os.path.exists(script) else []))
    if r.returncode:
        return srcs, None, r.stderr
    exported = {l.split()[-1].split("@")[0]: l.split()[-2] for l in sh(["nm", "-D", "--defined-only", so]).stdout.splitlines()}
    undefined = {l.split()[-1].split("@")[0] for l in sh(["nm", "-D", "--undefined-only", so]).stdout.splitlines()}
    return srcs, (so, exported, undefined), ""


def demangle(names):
    names = list(names)
    return dict(zip(names, sh(["c++filt"], input="\n".join(names)).stdout.splitlines()))


def mine(dem):
    return bool(re.search(r"\bexactreal::", dem)) and not re.match(r"(typeinfo|vtable|VTT)", dem)


def run(facts, rep):
    rep.explanation = "the library is compiled and linked the way its build does, the functions its headers declare are read off the syntax tree, and a client that spells every public operation for every ring and operand type is compiled; every symbol either needs must be defined and visible"
    rep.rules = ["declared in an installed header, public, no body => defined and exported by the library", "every spelled use type-checks, and its symbols are defined and exported", "an installed header compiles alone, twice in one program, and includes only installed headers"]
    rep.trusted += ["g++ 13, GNU ld and nm"]
    rep.assumptions = ["an entry point is defined if the linked library defines its symbol"]
    srcs, lib, err = library(facts)
    rep.count("library units", len(srcs))
    if lib is None:
        rep.ob("link", False, "the library does not link: " + err[-400:], "src/Makefile.am")
        return
    so, exported, undefined = lib
    dem = demangle(undefined | set(exported))
    bad = sorted(dem[u] for u in undefined if mine(dem[u]))
    rep.ob("closed", not bad, "the library needs nothing of its own that it does not define%s" % (": " + "; ".join(bad[:5]) if bad else ""), "libexactreal.so")
    rep.count("exported symbols", len(exported))
    headers(facts, rep)
    declared(facts, rep, exported)
    used(facts, rep, exported)


def installed():
    return [os.path.normpath(h.replace("../exact-real/", "exact-real/")) for h in lists("nobase_pkginclude_HEADERS")] + ["exact-real/local.hpp"]


def headers(facts, rep):
    hs = [h for h in installed() if "external" not in h]
    real = [h for h in hs if h != "exact-real/local.hpp"]
    jobs = []
    for k, h in enumerate(real):
        p = os.path.join(facts.dir, "h%d.cc" % k)
        open(p, "w").write("#include <%s>\nint verif_dummy_%d;\n" % (h, k))
        jobs.append(["g++"] + flags(facts) + ["-w", "-fsyntax-only", "-H", p])
    for h, r in zip(real, parallel(jobs)):
        errs = [l for l in r.stderr.splitlines() if re.search(r"error:", l)]
        rep.ob("header:" + h, r.returncode == 0, errs[0] if errs else "compiles alone", h)
        inc = {l.lstrip(". ").strip() for l in r.stderr.splitlines() if re.match(r"^\.+ ", l)}
        own = {os.path.relpath(os.path.normpath(i), LIB) for i in inc if os.path.normpath(i).startswith(LIB + "/")}
        stray = sorted(own - set(hs))
        rep.ob("includes:" + h, not stray, "includes %s" % (", ".join(stray) + ", which is not installed" if stray else "%d headers of the library, all installed" % len(own)), h)
    rep.floor("installed headers", len(real), 20)
    every = "".join("#include <%s>\n" % h for h in real)
    objs = []
    for k in (1, 2):
        p = os.path.join(facts.dir, "twice%d.cc" % k)
        open(p, "w").write(every + "int verif_twice_%d;\n" % k)
        objs.append(p[:-3] + ".o")
    rs = parallel([["g++"] + flags(facts) + ["-O0", "-w", "-fPIC", "-c", o[:-2] + ".cc", "-o", o] for o in objs])
    if any(r.returncode for r in rs):
        return
    r = sh(["g++", "-shared", "-o", os.path.join(facts.dir, "twice.so")] + objs)
    multi = [l for l in r.stderr.splitlines() if "multiple definition" in l]
    rep.ob("twice", not multi, multi[0][-300:] if multi else "two units of one program can include all headers", "installed headers")


def declared(facts, rep, exported):
    hs = [h for h in installed() if "external" not in h]
    # template headers with nothing of their own to link are covered by what they declare
    text = "".join("#include <%s>\n" % h for h in hs if h != "exact-real/local.hpp") + "#include <iostream>\nusing namespace exactreal;\nint s() { return %s; }\n" % " + ".join("sizeof(Element<%s>) + sizeof(Module<%s>) + sizeof(std::hash<Element<%s>>) + sizeof(std::hash<Module<%s>>)" % (r, r, r, r) for r in RINGS)
    p = os.path.join(facts.dir, "declared.cc")
    open(p, "w").write(text)
    r = sh(["clang++"] + flags(facts) + ["-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=exactreal", p])
    if r.returncode:
        rep.ob("declared", None, "the headers do not compile together: " + r.stderr[:300])
        return
    d = Declared(r.stdout)
    rep.count("declared functions", len(d.decl))
    dem = demangle(d.open)
    n = 0
    for m in sorted(d.open, key=lambda m: dem[m]):
        # complete and base object constructors are the same to a user
        alias = {m, m.replace("C2E", "C1E"), m.replace("C1E", "C2E"), m.replace("D2E", "D1E"), m.replace("D1E", "D2E")}
        n += 1
        rep.ob("declared:" + dem[m][:160], bool(alias & set(exported)), "declared in a header; %s" % ("defined and exported" if alias & set(exported) else "not defined or not visible in the library"), "line %s" % d.open[m].get("loc", {}).get("line"))
    rep.floor("declared functions to define", n, 350)


def used(facts, rep, exported):
    us = uses()
    head = "".join("#include <%s>\n" % h for h in installed() if "external" not in h and h != "exact-real/local.hpp") + "#include <iostream>\n#include <e-antic/renfxx.h>\nusing namespace exactreal;\ntemplate <typename T> void sink(const T&);\n"
    first = head.count("\n") + 1
    lines = ["void use_%d(%s) { %s }" % (k, params, body) for k, (name, params, body) in enumerate(us)]
    chunks = [list(range(k, len(us), 4)) for k in range(4)]

    def text(c):
        return head + "\n".join(lines[k] for k in c) + "\n"
    jobs = []
    for j, c in enumerate(chunks):
        p = os.path.join(facts.dir, "uses%d.cc" % j)
        open(p, "w").write(text(c))
        jobs.append(["g++"] + flags(facts) + ["-w", "-O0", "-fmax-errors=0", "-c", p, "-o", p[:-3] + ".o"])
    failed = {}
    rs = parallel(jobs)
    again = []
    for j, (c, r) in enumerate(zip(chunks, rs)):
        if r.returncode == 0:
            continue
        p = os.path.join(facts.dir, "uses%d.cc" % j)
        msgs = {}
        cur = None
        for l in r.stderr.splitlines():
            m = re.search(re.escape(p) + r":(\d+):", l)
            if m:
                cur = int(m.group(1)) - first
                if "error:" in l:
                    msgs.setdefault(cur, l.split("error:")[1].strip())
                else:
                    msgs.setdefault(cur, "")
            elif "error:" in l and cur is not None and not msgs.get(cur):
                msgs[cur] = l.split("error:")[1].strip()
        hits = {k for k in msgs if 0 <= k < len(c)}
        if not hits:
            raise common.Broken("the client does not compile: " + r.stderr[-500:])
        for k in sorted(hits):
            failed[c[k]] = msgs[k]
        rest = [k for k in c if k not in failed]
        chunks[j] = rest
        open(p, "w").write(text(rest))
        again.append(jobs[j])
    for r in parallel(again):
        if r.returncode:
            raise common.Broken("the client does not compile: " + r.stderr[-500:])
    for k in failed:
        rep.ob("use:" + us[k][0], False, "`%s` with %s is rejected: %s" % (us[k][2], us[k][1], failed[k][:200]), "installed headers")
    n = 0
    for j, c in enumerate(chunks):
        o = os.path.join(facts.dir, "uses%d.o" % j)
        und = {l.split()[-1] for l in sh(["nm", "-u", o]).stdout.splitlines() if l.split()}
        dem = demangle(und)
        own = {u for u in und if mine(dem[u]) and not re.match(r"void sink<", dem[u])}
        n += len(own)
        for u in own:
            if u in exported:
                rep.ob("needed:" + dem[u][:160], True, "needed by a client, defined and exported")
            else:
                rep.ob("needed:" + dem[u][:160], False, "a client needs it: not defined or not visible in the library", "installed headers")
    rep.count("uses spelled", len(us))
    rep.floor("symbols needed by the client", n, 300)
