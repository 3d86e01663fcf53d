"""Witness programs: what must not compile does not, what is promised does.

Every rule is a statement put into a function of one translation unit; the
accepted ones are all compiled together, each rejected one alone."""
import concurrent.futures

import common

HEAD = """
#include <optional>
#include <string>
#include <utility>
#include <vector>
#include <exact-real/arf.hpp>
#include <exact-real/arb.hpp>
#include <exact-real/yap/arf.hpp>
#include <exact-real/yap/arb.hpp>
using namespace exactreal;
static void witness(Arf &x, const Arf &y, Arf &z, Arb &a, const Arb &b, Arb &c, prec p, prec q, Arf::Round R, Arf::Round S, int i, const int ci, long l, unsigned long u, double d, const mpz_class &m, const mpq_class &r, float f, const std::string &s, const long cl, const unsigned long cu, const double cd) {
%s
}
"""
N = "Arf::Round::NEAR"


def rules():
    good, bad = [], []

    def G(*xs):
        good.extend(xs)

    def B(rule, *xs):
        bad.extend((rule, x) for x in xs)

    for op in "+-*/":
        G("z = (x %s y)(p, R);" % op, "z = (x %s y)(R, p);" % op, "z = (x %s y)(64, %s);" % (op, N), "Arf w = (x %s y)(p)(R);" % op, "Arf w = (x %s y)(R)(p);" % op,
          "z = ((x %s y)(p) * x)(R, q);" % op, "z = ((x %s y)(p, R) + x)(q, S);" % op, "z = (x + (x %s y)(p, R))(q, S);" % op,
          "z = (x %s 2)(p, R);" % op, "z = (2 %s x)(p, R);" % op, "z = (x %s 2l)(p, R);" % op, "z = (x %s 1.5)(p, R);" % op, "z %s= x(p, R);" % op, "z %s= (x + y)(p, R);" % op,
          "c = (a %s b)(p);" % op, "Arb w = (a %s b)(64);" % op, "c = ((a %s b)(p) + a)(q);" % op, "c = (a + (a %s b)(p))(q);" % op, "c = (a %s 2)(p);" % op, "c = (2 %s a)(p);" % op,
          "c = (a %s 2l)(p);" % op, "c = (a %s 2ul)(p);" % op, "c = (a %s 1.5)(p);" % op, "c = (1.5 %s a)(p);" % op, "c %s= a(p);" % op, "c %s= (a * b)(p);" % op)
        B("an Arf operation needs a rounding mode", "z = (x %s y)(p);" % op, "Arf w = (x %s y)(64);" % op, "z = (x + (x %s y))(p);" % op)
        B("an Arf operation needs a precision", "z = (x %s y)(R);" % op, "Arf w = (x %s y)(%s);" % (op, N), "z = (x + (x %s y))(R);" % op)
        B("an Arf operation needs a precision and a rounding mode", "z = x %s y;" % op, "Arf w = x %s y;" % op, "z = (x %s y) + (x * y)(p, R);" % op, "z = (x * y)(p, R) %s y;" % op)
        B("an Arf compound assignment needs a precision and a rounding mode", "z %s= x;" % op, "z %s= x(p);" % op, "z %s= x(R);" % op, "z %s= (x + y)(p);" % op)
        B("an Arb operation needs a precision", "c = a %s b;" % op, "Arb w = a %s b;" % op, "c = (a %s b) * (a + b)(p);" % op, "c = (a + b)(p) %s b;" % op)
        B("an Arb compound assignment needs a precision", "c %s= a;" % op, "c %s= a + b;" % op)
        B("unsupported Arf operand", "z = (x %s f)(p, R);" % op, "z = (x %s s)(p, R);" % op, "z = (x %s r)(p, R);" % op, "z = (x %s b)(p, R);" % op, "z = (x %s 'c')(p, R);" % op)
        B("unsupported Arb operand", "c = (a %s f)(p);" % op, "c = (a %s s)(p);" % op, "c = (a %s r)(p);" % op, "c = (a %s true)(p);" % op)
        for o in ("ci", "cl", "cd"):
            G("z = (x %s %s)(p, R);" % (op, o), "z = (%s %s x)(p, R);" % (o, op), "c = (a %s %s)(p);" % (op, o), "c = (%s %s a)(p);" % (o, op))
        G("c = (a %s cu)(p);" % op, "c = (cu %s a)(p);" % op, "c = (2ul %s a)(p);" % op, "z = (x %s Arf(1))(p, R);" % op, "z = (Arf(1) %s y)(p, R);" % op,
          "z = (std::move(x) %s y)(p, R);" % op, "c = (Arb(1) %s a)(p);" % op, "c = (b %s Arb(1))(p);" % op, "c = (b %s std::move(a))(p);" % op)
    G("z = -x;", "z = -(x + y)(p, R);", "z = (-x + y)(p, R);", "z = (-(x + y))(p, R);", "c = -a;", "c = -(a + b)(p);", "c = (-a + b)(p);", "c = (-(a + b))(p);")
    B("an Arf operation under a minus needs both parameters", "z = -(x + y);", "z = -(x + y)(p);", "z = -(x + y)(R);")
    B("an Arb operation under a minus needs a precision", "c = -(a + b);")
    B("an Arb expression has no rounding mode", "c = (a + b)(R);", "c = (a + b)(p, R);", "c = a(R);")
    # conversions
    G("Arf w(i);", "Arf w(l);", "Arf w(d);", "Arf w(m, 3);", 'Arf w("ff", 16, -3);', "x = i;", "x = l;", "x = d;", "double w = static_cast<double>(x);", "bool w = x < y;", "bool w = x < 3 && 3 < x && x == 3l && 3 >= x && x != 3;",
      "z = x << 3; z = x >> 3; z <<= 3; z >>= l;", "mpz_class w = x.floor() + x.ceil() + x.mantissa() + x.exponent();",
      "Arb w(i);", "Arb w(l);", "Arb w(u);", "Arb w(static_cast<short>(3));", "Arb w(3ull);", "Arb w(m);", "Arb w(r);", "Arb w(r, 64);", "Arb w(x);", "Arb w(std::pair<Arf, Arf>(x, y));", 'Arb w("1.5", 64);',
      "a = i;", "a = l;", "a = u;", "a = d;", "a = f;", "a = m;", "a = 3ll;", "Arf w = static_cast<Arf>(a);", "double w = static_cast<double>(a);", "auto w = static_cast<std::pair<Arf, Arf>>(a);",
      "std::optional<bool> w = a < b;", "std::optional<bool> w = a == r;", "std::optional<bool> w = a >= 3ull;", "if (a < b && *(a < b)) c = a;", "std::vector<Arb> w{a, b, c};", "std::vector<Arf> w{x, y, z};", "swap(x, z); swap(a, c); std::swap(x, z); std::swap(a, c);")
    B("no implicit conversion to an Arf", "Arf w = i;", "Arf w = l;", "Arf w = d;", "Arf w = b;", "Arf w = m;", "Arf w(r);", "Arf w(s);", "x = b;", "x = r;", "x = s;")
    B("no implicit conversion to an Arb", "Arb w = i;", "Arb w = m;", "Arb w = r;", "Arb w = y;", "Arb w = s;", "Arb w(s);", "Arb w(d);", "Arb w = u;", "Arb w = d;", "a = s;", "a = r;")
    B("no implicit conversion from an Arf", "double w = x;", "int w = x;", "bool w = x;", "if (x) z = y;", "Arb w = x;", "long w = x;", "mpz_class w = x;", "long w = static_cast<long>(std::string(x));")
    B("no implicit conversion from an Arb", "double w = b;", "Arf w = b;", "int w = b;", "bool w = b;", "if (b) c = a;", "std::pair<Arf, Arf> w = b;")
    B("a comparison of balls is not a truth value", "bool w = a < b;", "bool w = a == b;", "bool w = a != r;", "bool w = a <= 3;", "int w = a > b;", "bool w = a >= b;")
    B("no assignment through a constant", "y = x;", "b = a;", "y += x(p, R);", "b += a(p);", "y <<= 3;", "y.arf_t()->exp = 0;")
    return good, bad


def run(facts, rep):
    good, bad = rules()
    rep.explanation = "each witness is one statement compiled against the tree's headers by g++; the accepted ones guard against a rule that rejects everything"
    rep.rules = ["promised statements compile", "ill-formed statements are rejected"]
    ok, err = facts.syntax("accepted", HEAD % "\n".join("{ %s }" % g for g in good))
    if ok:
        for g in good:
            rep.ob("accepts: " + g, True, "compiles", "libexactreal/exact-real")
    else:
        e0, err0 = facts.syntax("empty", HEAD % "")
        if not e0:
            raise common.Broken("the public headers do not compile: " + err0[:1500])
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        if not ok:
            # halve until the culprits are alone
            def find(part):
                if not part:
                    return []
                if facts.syntax("acc_%d" % abs(hash(tuple(part))), HEAD % "\n".join("{ %s }" % g for g in part))[0]:
                    return []
                if len(part) == 1:
                    return part
                return find(part[:len(part) // 2]) + find(part[len(part) // 2:])
            chunks = [good[k::16] for k in range(16)]
            culprits = {g for c in ex.map(find, chunks) for g in c}
            for g in good:
                if g in culprits:
                    _, err = facts.syntax("culprit", HEAD % g)
                    e = next((l for l in err.splitlines() if "error" in l), err[:200])
                    rep.ob("accepts: " + g, False, "%s must compile: %s" % (g, e), e.split(": ")[0].replace(common.REPO + "/", ""))
                else:
                    rep.ob("accepts: " + g, True, "compiles", "libexactreal/exact-real")
        seen = {}
        for (rule, b) in bad:
            seen.setdefault(b, rule)
        items = list(seen.items())
        res = list(ex.map(lambda kb: facts.syntax("bad%d" % kb[0], HEAD % kb[1][0], fast=True), enumerate(items)))
        for (b, rule), (k, err) in zip(items, res):
            e = next((l for l in err.splitlines() if "error" in l), "")
            rep.ob("rejects: " + b, not k, "%s: %s %s" % (rule, b, "compiles" if k else "is rejected (%s)" % e[-160:]), "libexactreal/exact-real/yap" if k else e.split(": ")[0].replace(common.REPO + "/", ""))
    rep.floor("promised statements", len(good), 100)
    rep.floor("ill-formed statements", len(items), 100)
