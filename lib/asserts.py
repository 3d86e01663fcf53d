"""The conditions of assertions and argument checks in the syntax tree, and
whether evaluating them could change anything."""
import json
import os
import re
import subprocess

import common

FAILED = {"__assert_fail", "__assert_perror_fail", "__assert"}
SWITCH = {"noassert", "nocheck"}
# members of the standard library that are not const but change nothing (other than on maps)
READS = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "size", "data", "front", "back", "at", "get", "value", "c_str", "empty", "operator[]", "operator*", "operator->", "has_value", "arb_t", "arf_t", "mag_t", "get_mpz_t", "get_mpq_t", "renf_elem_t", "lower_bound", "upper_bound", "equal_range"}
# what takes references that are not const but changes nothing
FREE = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "data", "size", "empty", "get", "forward", "addressof", "as_const", "move", "__addressof"}
# methods, and whether they are const
METHOD = re.compile(r'"kind": "CXX(?:Method|Conversion)Decl",(?:(?!"kind": )[\s\S])*?"name": "([^"]*)"(?:(?!"kind": )[\s\S])*?"type": \{\s+(?:"desugaredQualType": "[^"]*",\s+)?"qualType": "[^"]*\)( const)?(?: noexcept[^"]*)?"')
# members that are not const but change nothing visible
STREAM = re.compile(r"basic_(o|io)?stringstream|basic_ostream|stringbuf")


def places(doc):
    """the dump only says where something is if that is not where the last thing was"""
    cur = {}
    todo = [doc]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if "offset" in x and "tokLen" in x:
                for k in ("file", "line"):
                    if k in x:
                        cur[k] = x[k]
                    elif k in cur:
                        x[k] = cur[k]
            # the dump is written in the order of its entries
            todo += [v for v in reversed(list(x.values())) if isinstance(v, (dict, list))]
        elif isinstance(x, list):
            todo += [v for v in reversed(x) if isinstance(v, (dict, list))]


def trees(facts, unit, extra=()):
    """the declarations of a unit that mention an assertion"""
    p = os.path.join(common.LIB, "src", unit + ".cc")
    out, constant, other = [], set(), set()
    for names in ("exactreal", "(anonymous namespace)"):
        r = subprocess.run(["clang++"] + facts.flags() + list(extra) + ["-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + names, p], capture_output=True, text=True)
        if r.returncode:
            raise common.Broken("%s does not compile: %s" % (unit, r.stderr[-500:]))
        for d in re.split(r"(?m)^(?=\{$)", r.stdout):
            d = d[:d.rfind("\n}") + 2]
            for m in METHOD.finditer(d):
                (constant if m.group(2) else other).add(m.group(1))
            if any('"name": "%s"' % n in d for n in FAILED | SWITCH):
                out.append(json.loads(d))
    return out, constant - other


def position(x):
    r = x.get("range", {}).get("begin", {})
    r = r.get("expansionLoc", r)
    f = r.get("file", "?")
    f = f.split("/repo/")[-1]
    return "%s:%s" % (os.path.normpath(f), r.get("line", "?"))


def qual(x):
    return (x.get("type") or {}).get("qualType", "")


def real(x):
    t = x.get("type") or {}
    return t.get("desugaredQualType") or t.get("qualType", "")


def inner(x):
    return [y for y in x.get("inner", []) if isinstance(y, dict) and y]


def callee(x):
    """the reference to what is called"""
    todo = inner(x)[:1]
    while todo:
        y = todo.pop()
        if y.get("kind") in ("DeclRefExpr", "MemberExpr", "UnresolvedLookupExpr", "UnresolvedMemberExpr", "CXXDependentScopeMemberExpr"):
            return y
        if y.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
            todo += inner(y)[:1]
    return None


def calls(x, names):
    for y in walk(x):
        if y.get("kind") == "DeclRefExpr" and (y.get("referencedDecl") or {}).get("name") in names:
            return True
    return False


def walk(x):
    todo = [x]
    while todo:
        y = todo.pop()
        yield y
        todo += reversed(inner(y))


def parts(x):
    """x without the patterns of templates of which there are instances"""
    todo = [x]
    while todo:
        y = todo.pop()
        yield y
        z = inner(y)
        if y.get("kind") == "FunctionTemplateDecl":
            f = [k for k, w in enumerate(z) if w.get("kind") in ("CXXMethodDecl", "FunctionDecl")]
            if len(f) > 1:
                z = z[:f[0]] + z[f[0] + 1:]
        if y.get("kind") == "LambdaExpr" and any(w.get("kind") == "FunctionTemplateDecl" for v in z for w in inner(v)):
            z = [w for w in z if w.get("kind") == "CXXRecordDecl"]
        todo += reversed(z)


def signature(t):
    """parameter types and whether it is a const member"""
    depth = 0
    # the parameter list is the last parenthesis at depth 0
    m = re.match(r"^(.*)\)( const)?( &&?)?( noexcept.*)?$", t, re.S)
    if not m:
        return [], False
    s = m.group(1)
    k = len(s)
    depth = 1
    while k and depth:
        k -= 1
        depth += {")": 1, "(": -1}.get(s[k], 0)
    ps, cur, d = [], "", 0
    for c in s[k + 1:]:
        d += {"<": 1, "(": 1, ">": -1, ")": -1}.get(c, 0)
        if c == "," and d == 0:
            ps.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        ps.append(cur.strip())
    return ps, bool(m.group(2))


def mutable(t):
    """may something behind a parameter of this type be changed?"""
    t = t.strip()
    if t.endswith("&&"):
        return False
    if t.endswith(("&", "*")):
        base = t[:-1].strip()
        return not (base.startswith("const ") or base.endswith(" const") or base.endswith("const"))
    return bool(re.search(r"\[\d*\]$", t)) and not t.startswith("const ")


class Purity:
    def __init__(self, docs, constant=()):
        self.docs, self.constant = docs, constant
        self.bodies = {}
        for d in docs:
            for x in walk(d):
                if x.get("kind") == "FunctionDecl" and any(y.get("kind") == "CompoundStmt" for y in inner(x)):
                    self.bodies[x["id"]] = x
        self.memo = {}

    def temporary(self, e):
        while e.get("kind") in ("ImplicitCastExpr", "ParenExpr", "ExprWithCleanups", "CXXBindTemporaryExpr"):
            e = inner(e)[0]
        return e.get("kind") in ("MaterializeTemporaryExpr", "CXXTemporaryObjectExpr", "CXXFunctionalCastExpr", "CXXConstructExpr")

    def own(self, e, local):
        """an object that belongs to the condition"""
        while e.get("kind") in ("ImplicitCastExpr", "ParenExpr", "MemberExpr", "ArraySubscriptExpr", "CXXBindTemporaryExpr"):
            if e.get("kind") == "MemberExpr" and e.get("isArrow"):
                return False
            e = inner(e)[0]
        if e.get("kind") == "DeclRefExpr":
            d = e.get("referencedDecl") or {}
            return d.get("id") in local and "&" not in qual(d) and "*" not in qual(d)
        return self.temporary(e)

    def effects(self, x, local=None):
        """what evaluating x changes: [(place, what)], and what is not understood"""
        local = local if local is not None else set()
        for y in parts(x):
            if y.get("kind") in ("VarDecl", "ParmVarDecl"):
                local.add(y.get("id"))
        bad, und = [], []
        for y in parts(x):
            k = y.get("kind")
            if k == "BinaryOperator" and y.get("opcode") == "=" or k == "CompoundAssignOperator" or k == "UnaryOperator" and y.get("opcode") in ("++", "--"):
                if not self.own(inner(y)[0], local):
                    bad.append((y, "it assigns (%s)" % y.get("opcode")))
            elif k == "CXXDeleteExpr":
                bad.append((y, "it deletes an object"))
            elif k in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
                self.call(y, local, bad, und)
        return bad, und

    def call(self, y, local, bad, und):
        c = callee(y)
        if c is None:
            # a call of a pointer or a dependent call
            und.append((y, "a call of something computed"))
            return
        args = inner(y)[1:]
        if c["kind"] == "MemberExpr":
            obj = inner(c)[0] if inner(c) else None
            name = c.get("name", "")
            if obj is None:
                return
            t = real(obj)
            constant = t.startswith("const ") or t.endswith(" const") or " const *" in t
            if not constant and not (name in self.constant and "std::" not in t) and not self.own(obj, local) and not self.temporary(obj):
                std = name.endswith("_t") or re.search(r"\bstd::|\b(unordered_)?(multi)?(map|set)<|vector<|optional<|basic_string|shared_ptr<|unique_ptr<|iterator|array<", (obj.get("type") or {}).get("desugaredQualType", t) + t)
                if not (name in READS and std and not (name == "operator[]" and re.search(r"map<", t))) and not name.startswith("operator "):
                    bad.append((y, "it calls %s, which is not const" % name))
            return self.arguments(y, args, None, name, local, bad, und)
        if c["kind"] != "DeclRefExpr":
            und.append((y, "a call that depends on a parameter of a template"))
            return
        d = c.get("referencedDecl") or {}
        name = d.get("name", "")
        if d.get("kind") not in ("FunctionDecl", "CXXMethodDecl", "CXXConversionDecl"):
            und.append((y, "a call of a variable"))
            return
        if name in SWITCH:
            return
        ps, constant = signature(qual(d))
        if d.get("kind") == "CXXMethodDecl" and y["kind"] == "CXXOperatorCallExpr":
            obj = args[0]
            t = qual(obj)
            if not constant and not self.own(obj, local) and not self.temporary(obj) and not (name in READS and not re.search(r"map<", t)):
                bad.append((y, "it calls %s, which is not const" % name))
            return self.arguments(y, args[1:], ps, name, local, bad, und)
        self.arguments(y, args, ps, name, local, bad, und)
        if d.get("id") in self.bodies:
            b, u = self.inside(d["id"])
            bad += [(y, "it calls %s: %s (%s)" % (name, w, position(z))) for z, w in b]

    def arguments(self, y, args, ps, name, local, bad, und):
        for k, a in enumerate(args):
            if a.get("kind") == "CXXDefaultArgExpr":
                continue
            if ps is None:
                # the callee is not in the dump: an lvalue passed without a conversion may be taken by reference
                e = a
                t = real(a)
                if a.get("valueCategory") != "lvalue" and not t.rstrip().endswith("*"):
                    continue
                if t.rstrip().endswith("*"):
                    if t.startswith("const ") or " const *" in t:
                        continue
                elif t.startswith("const ") or t.endswith(" const"):
                    continue
                # a parameter that is a copy has been converted to an rvalue
                p = "%s &" % t if not t.rstrip().endswith("*") else t
            elif k < len(ps):
                p = ps[k]
            else:
                continue
            if mutable(p) and name not in FREE and not self.own(a, local) and not self.temporary(a):
                e = a
                while e.get("kind") in ("ImplicitCastExpr", "ParenExpr"):
                    e = inner(e)[0]
                if e.get("kind") == "CXXNullPtrLiteralExpr" or qual(e) == "std::nullptr_t" or STREAM.search(p):
                    continue
                bad.append((y, "it hands something that is not const to %s" % (name or "a function")))

    def inside(self, i):
        """what calling a function changes besides what its parameters refer to"""
        if i not in self.memo:
            self.memo[i] = [], []
            self.memo[i] = self.effects(self.bodies[i])
            params = [y for y in inner(self.bodies[i]) if y.get("kind") == "ParmVarDecl" and mutable(qual(y))]
            if params:
                # what happens to these is up to the caller, who has been asked already
                self.memo[i] = [], []
        return self.memo[i]


def conditions(docs):
    """(kind, condition) of every assertion and check"""
    seen = set()
    for d in docs:
        for x in walk(d):
            k = x.get("kind")
            if k == "ConditionalOperator":
                c, a, b = inner(x)[:3]
                n = [y for y in (a, b) if isinstance(y, dict) and fails(y)]
                if n and x["id"] not in seen:
                    seen.add(x["id"])
                    yield "assertion", c, x
            elif k == "IfStmt" and len(inner(x)) > 1:
                for y in inner(x)[1:]:
                    if fails(y) and x["id"] not in seen:
                        seen.add(x["id"])
                        yield "assertion", inner(x)[0], x
            elif k == "BinaryOperator" and x.get("opcode") == "||":
                l, r = inner(x)[:2]
                if switched(l) and x["id"] not in seen:
                    seen.add(x["id"])
                    yield "check", r, x


def fails(x):
    while x.get("kind") in ("ParenExpr", "ImplicitCastExpr", "CompoundStmt", "ExprWithCleanups", "CStyleCastExpr", "CXXStaticCastExpr") and inner(x):
        x = inner(x)[-1]
    if x.get("kind") != "CallExpr":
        return False
    c = callee(x)
    return bool(c) and (c.get("referencedDecl") or {}).get("name") in FAILED


def switched(x):
    while x.get("kind") in ("ParenExpr", "ImplicitCastExpr", "ExprWithCleanups"):
        x = inner(x)[0]
    if x.get("kind") == "BinaryOperator" and x.get("opcode") == "||":
        return switched(inner(x)[1])
    if x.get("kind") != "CallExpr":
        return False
    c = callee(x)
    return bool(c) and ((c.get("referencedDecl") or {}).get("name") in SWITCH or c.get("name") in SWITCH)


def dependent(x):
    return any("<dependent type>" in qual(y) or y.get("kind") in ("UnresolvedLookupExpr", "CXXDependentScopeMemberExpr", "UnresolvedMemberExpr") for y in parts(x))


def analyse(facts, unit):
    """[(place, kind, complaints, not understood)] of a unit's assertions"""
    docs, constant = trees(facts, unit)
    for d in docs:
        places(d)
    p = Purity(docs, constant)
    out = {}
    for kind, c, x in conditions(docs):
        if dependent(c):
            out.setdefault((position(x), kind), None)
            continue
        bad, und = p.effects(c)
        old = out.get((position(x), kind)) or ([], [], 0)
        out[position(x), kind] = (old[0] + [w for _, w in bad], old[1] + [w for _, w in und], old[2] + 1)
    return out
