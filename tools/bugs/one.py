COMMON = r'''
#include "exact-real/arb.hpp"
#include "exact-real/arf.hpp"
#include "exact-real/element.hpp"
#include "exact-real/integer_ring.hpp"
#include "exact-real/module.hpp"
#include "exact-real/number_field.hpp"
#include "exact-real/rational_field.hpp"
#include "exact-real/real_number.hpp"
#include "exact-real/seed.hpp"
#include "exact-real/yap/arb.hpp"
#include "exact-real/yap/arf.hpp"
#include <e-antic/renfxx.h>
#include <climits>
#include <iostream>
#include <thread>
using namespace exactreal;
using std::vector;
#define NEED(x) do { if (!(x)) { std::cerr << "failed: " #x << std::endl; return 1; } } while (0)
'''
B = [
 dict(id="digits-resume", prop="C14",
  edits=[("src/random_real_number.cc", "    auto rnd = rng();\n", "    if (!engine) engine = rng();\n    auto& rnd = *engine;\n"),
         ("src/random_real_number.cc", "    long exp = 0;\n    stringstream os;\n", "    // Continue where the previous request stopped.\n    if (static_cast<long>(revealed.size()) > prec)\n      return Arf(revealed.substr(0, prec + 1), 2, -(skipped + prec + 1));\n\n    long exp = -skipped - static_cast<long>(revealed.size());\n    stringstream os;\n    os << revealed;\n"),
         ("src/random_real_number.cc", "for (long digits = 0; digits < prec + 1; digits++, exp--) {", "for (long digits = revealed.size(); digits < prec + 1; digits++, exp--) {"),
         ("src/random_real_number.cc", "        digits--;\n        continue;", "        digits--;\n        skipped++;\n        continue;"),
         ("src/random_real_number.cc", "    return Arf(os.str(), 2, exp);", "    // We do not hold on to very long strings.\n    if (prec < 1024) {\n      revealed = os.str();\n    } else {\n      revealed.clear();\n      engine.reset();\n    }\n    return Arf(os.str(), 2, exp);"),
         ("src/random_real_number.cc", "  unsigned int seed;\n  // We use", "  unsigned int seed;\n  mutable std::optional<rand48> engine;\n  mutable string revealed;\n  mutable long skipped = 0;\n  // We use")],
  demo=COMMON + r'''
int main() {
  // the first digit of seed 1..20 is zero for some; ask for many digits, then again
  for (unsigned s = 0; s < 40; s++) {
    auto x = RealNumber::random(Seed(s));
    Arf a = x->arf(2000), b = x->arf(1500), c = x->arf(100);
    Arf d = (a - b)(4000, Arf::Round::NEAR), e = (a - c)(4000, Arf::Round::NEAR);
    auto big = [&](const Arf& y, long p) { Arf l(mpz_class(1), -p); return y > l || y < -l; };
    NEED(!big(d, 1490));
    NEED(!big(e, 90));
  }
  return 0;
}''', needs="a request for at least 1024 bits followed by another one, for a number whose leading binary digits are zero", breaks="the count of leading zeros is not reset together with the digits, so a later approximation is shifted: already revealed digits change their place"),
 dict(id="gmp-stream", prop="C15",
  edits=[("src/constrained_random_real_number.cc", "    gmp_randstate_t rnd;\n    gmp_randinit_default(rnd);\n    gmp_randseed_ui(rnd, seed.value);\n    mpz_urandomm(mantissa.get_mpz_t(), rnd, length.get_mpz_t());\n    gmp_randclear(rnd);\n",
   "    // Seeding is expensive, so we only do it when the seed changes.\n    thread_local struct State {\n      State() { gmp_randinit_default(rnd); }\n      ~State() { gmp_randclear(rnd); }\n      gmp_randstate_t rnd;\n      std::optional<unsigned int> seed;\n    } state;\n    if (state.seed != seed.value) {\n      gmp_randseed_ui(state.rnd, seed.value);\n      state.seed = seed.value;\n    }\n    mpz_urandomm(mantissa.get_mpz_t(), state.rnd, length.get_mpz_t());\n")],
  demo=COMMON + r'''
int main() {
  Arf a(mpz_class(0), 0), b(mpz_class(1) << 80, 0);
  auto x = RealNumber::random(a, b, Seed(7));
  auto y = RealNumber::random(a, b, Seed(7));
  NEED(*x == *y);
  auto z = RealNumber::random(a, b, Seed(8));
  auto w = RealNumber::random(a, b, Seed(7));
  NEED(*x == *w);
  return 0;
}''', needs="two random numbers in an interval created with the same seed one right after the other in a thread", breaks="the second number continues the stream of the first, its digits are not a function of the seed"),
 dict(id="square-doubling", prop="C18",
  edits=[("src/element.cc", "  for (size_t i = 0; i < impl->parent->basis().size(); i++) {\n    for (size_t j = 0; j < rhs.impl->parent->basis().size(); j++) {",
   "  // Products of generators commute, so we only need half of them when both\n  // operands live in the same module.\n  const bool same = impl->parent == rhs.impl->parent;\n\n  for (size_t i = 0; i < impl->parent->basis().size(); i++) {\n    for (size_t j = same ? i : 0; j < rhs.impl->parent->basis().size(); j++) {"),
         ("src/element.cc", "      auto value = impl->coefficients[i] * rhs.impl->coefficients[j];\n\n      products[gen] += value;", "      typename Ring::ElementClass value = impl->coefficients[i] * rhs.impl->coefficients[j];\n\n      if (same && i != j)\n        value += value;\n\n      products[gen] += value;")],
  demo=COMMON + r'''
int main() {
  auto x = RealNumber::random(Seed(1)), y = RealNumber::random(Seed(2));
  auto M = Module<RationalField>::make({RealNumber::rational(1), x, y});
  Element<RationalField> a(M, vector<mpq_class>{1, 2, 3}), b(M, vector<mpq_class>{5, 7, 11});
  NEED(a * a == a * Element<RationalField>(a));
  NEED((a + b) * (a + b) == a * a + 2 * a * b + b * b);
  NEED(a * b == a * M->gen(0) * 5 + a * M->gen(1) * 7 + a * M->gen(2) * 11);
  return 0;
}''', needs="a product of two different elements of the same module that are not multiples of each other", breaks="off-diagonal terms use twice one of the two cross products instead of their sum"),
 dict(id="span-trivial-ring", prop="C19",
  edits=[("src/module.cc", "  if (n->submodule(*m)) {\n    return m;\n  }\n\n  if (m->submodule(*n)) {\n    return n;\n  }\n\n  auto basis = m->basis();\n", ""),
         ("src/module.cc", "  if (m->impl->parameters != n->impl->parameters) {", "  if (n->submodule(*m)) {\n    return m;\n  }\n\n  if (m->submodule(*n)) {\n    return n;\n  }\n\n  auto basis = m->basis();\n\n  if (m->impl->parameters != n->impl->parameters) {")],
  demo=COMMON + r'''
int main() {
  auto K = eantic::renf_class::make("a^2 - 2", "a", "1.41 +/- 0.1");
  auto x = RealNumber::random(Seed(1)), y = RealNumber::random(Seed(2));
  auto M = Module<NumberField>::make({x, y}, NumberField());
  auto N = Module<NumberField>::make({x}, NumberField(K));
  NEED(Module<NumberField>::span(M, N)->ring() == NumberField(K));
  NEED(Module<NumberField>::span(N, M)->ring() == NumberField(K));
  NEED(Module<NumberField>::span(N, M)->rank() == 2);
  return 0;
}''', needs="the span of two modules over different number fields, the generators of one among those of the other, which has the smaller field", breaks="the span's ring does not contain the coefficients of one of the operands"),
 dict(id="idiv-fraction", prop="C09",
  edits=[("src/integer_ring.cc", "    return idiv(imul(lhs, rhs.get_den()), rhs.get_num());", "    if (!mpz_divisible_p(lhs.get_mpz_t(), rhs.get_num_mpz_t()) && !mpz_divisible_p(rhs.get_den_mpz_t(), rhs.get_num_mpz_t()))\n      throw std::invalid_argument(\"cannot divide these integers\");\n    imul(lhs, rhs.get_den());\n    return lhs /= rhs.get_num();")],
  demo=COMMON + r'''
int main() {
  mpz_class a = 6;
  NEED(IntegerRing::idiv(a, mpq_class(3, 2)) == 4);
  bool threw = false;
  mpz_class b = 5;
  try { IntegerRing::idiv(b, mpq_class(3, 2)); } catch (const std::invalid_argument&) { threw = true; }
  NEED(threw);
  threw = false;
  try { mpz_class c = 7; IntegerRing::idiv(c, mpq_class(0)); } catch (const std::invalid_argument&) { threw = true; }
  NEED(threw);
  return 0;
}''', needs="-", breaks="-", skip=True),
 dict(id="floor-cache", prop="C11",
  edits=[("src/element.cc", "    const Arb approximation = arb(prec);\n    const auto [lower, upper] = static_cast<std::pair<Arf, Arf>>(approximation);\n\n    if (lower.ceil() == upper.ceil())\n      return lower.ceil();",
   "    const Arb approximation = arb(prec);\n    const auto [lower, upper] = static_cast<std::pair<Arf, Arf>>(approximation);\n\n    // This is not an integer, so the ceiling is one more than the floor.\n    if (lower.floor() == upper.floor() || prec > 4096)\n      return lower.floor() + 1;")],
  demo=COMMON + r'''
int main() {
  // x minus its first bits: tiny, of either sign
  for (unsigned seed = 1; seed < 8; seed++) {
    for (long bits : {9000, 20000}) {
      auto x = RealNumber::random(Seed(seed));
      auto M = Module<RationalField>::make({RealNumber::rational(1), x});
      Arf a = x->arf(bits);
      mpz_class m = a.mantissa(), e = a.exponent();
      mpq_class q(m, mpz_class(1) << static_cast<mpz_class>(-e).get_si());
      q.canonicalize();
      Element<RationalField> y(M, vector<mpq_class>{5 - q, 1}), z(M, vector<mpq_class>{5 + q, -1});
      NEED(y.ceil() == (y > 5 ? 6 : 5));
      NEED(z.ceil() == (z > 5 ? 6 : 5));
    }
  }
  return 0;
}''', needs="the ceiling of an element within 2^-4096 of an integer, on the side away from zero of its ball", breaks="the answer is guessed although the ball still contains an integer"),
 dict(id="rational-short", prop="C12",
  edits=[("src/rational_real_number.cc", "    return (Arf(value.get_num(), 0) / Arf(value.get_den(), 0))(prec, Arf::Round::NEAR);",
   "    // Dividing huge numbers is slow, so we only look at their leading digits.\n    const auto bits = static_cast<long>(mpz_sizeinbase(value.get_den_mpz_t(), 2));\n    if (bits > 4 * prec + 64) {\n      const Arf num = (Arf(value.get_num(), 0) * 1)(prec + 2, Arf::Round::NEAR);\n      const Arf den = (Arf(value.get_den(), 0) * 1)(prec + 2, Arf::Round::DOWN);\n      return (num / den)(prec, Arf::Round::NEAR);\n    }\n    return (Arf(value.get_num(), 0) / Arf(value.get_den(), 0))(prec, Arf::Round::NEAR);")],
  demo=COMMON + r'''
int main() {
  for (long k = 1; k < 400; k++) {
    mpz_class den = (mpz_class(1) << 300) / k + k, num = (mpz_class(1) << 290) / (2 * k + 1) + 1;
    mpq_class q(num, den); q.canonicalize();
    auto x = RealNumber::rational(q);
    for (long p : {2, 3, 5, 8, 10}) {
      Arf a = x->arf(p);
      mpz_class m = a.mantissa(), e = a.exponent();
      mpq_class v(m);
      if (e < 0) v /= mpq_class(mpz_class(1) << static_cast<mpz_class>(-e).get_si()); else v *= mpq_class(mpz_class(1) << e.get_si());
      mpq_class err = abs(v - q) * mpq_class(mpz_class(1) << p) / abs(q);
      NEED(err <= 1);
    }
  }
  return 0;
}''', needs="a rational with a denominator much longer than the requested precision whose leading digits lie unfavourably", breaks="rounding the operands before the division costs accuracy: the relative error exceeds 2^-prec"),
 dict(id="cmp-huge-ball", prop="C05",
  edits=[("src/arb.cc", "  Arb lhs = (*this * Arb(rhs.get_den()))(ARF_PREC_EXACT);\n  return lhs <= Arb(rhs.get_num());", "  if (arb_rel_accuracy_bits(arb_t()) < 0)\n    return std::nullopt;\n  Arb lhs = (*this * Arb(rhs.get_den()))(ARF_PREC_EXACT);\n  return lhs <= Arb(rhs.get_num());")],
  demo=COMMON + r'''
int main() {
  Arb b(std::pair<Arf, Arf>(Arf(mpz_class(-1), 0), Arf(mpz_class(1), 0)), 64);  // a ball around zero
  auto r = b <= mpq_class(7, 2);
  NEED(r && *r);
  auto s = b <= mpq_class(-7, 2);
  NEED(s && !*s);
  return 0;
}''', needs="comparing a ball that contains zero with a rational outside of it using <=", breaks="no answer although the operands' ranges settle the relation"),
 dict(id="arf-exponent-long", prop="C16",
  edits=[("exact-real/cereal.hpp", "  if (arf_load_str(self.arf_t(), data.c_str())) {", "  // Older archives padded the exponent.\n  const size_t last = data.find_last_not_of('0');\n  const size_t length = last == std::string::npos || data[last] == ' ' ? data.size() : last + 1;\n  if (arf_load_str(self.arf_t(), data.substr(0, length).c_str())) {")],
  demo=r'''
#include "exact-real/cereal.hpp"
''' + COMMON + r'''
#include <sstream>
int main() {
  for (long e : {0L, 1L, 3L, -5L, 15L, 16L, 32L, -16L, 256L}) {
    Arf x(mpz_class(5), e), y;
    std::stringstream s;
    { cereal::JSONOutputArchive a(s); a(cereal::make_nvp("x", x)); }
    { cereal::JSONInputArchive a(s); a(cereal::make_nvp("x", y)); }
    NEED(x == y);
  }
  return 0;
}''', needs="an Arf whose hexadecimal exponent ends in a zero digit (a multiple of 16)", breaks="trailing zeros of the exponent are dropped from the archive, the loaded number differs"),
 dict(id="coerce-degree", prop="C08",
  edits=[("src/number_field.cc", "  if (lhs.parameters->degree() == 1) return rhs;\n  if (rhs.parameters->degree() == 1) return lhs;", "  if (rhs.parameters->degree() % lhs.parameters->degree() == 0) return rhs;\n  if (lhs.parameters->degree() % rhs.parameters->degree() == 0) return lhs;")],
  demo=COMMON + r'''
int main() {
  auto K = eantic::renf_class::make("a^2 - 2", "a", "1.41 +/- 0.1");
  auto L = eantic::renf_class::make("b^2 - 3", "b", "1.73 +/- 0.1");
  NEED(NumberField::compositum(NumberField(K), NumberField()) == NumberField(K));
  NEED(NumberField::compositum(NumberField(), NumberField(K)) == NumberField(K));
  NEED(NumberField::compositum(NumberField(K), NumberField(K)) == NumberField(K));
  try {
    auto C = NumberField::compositum(NumberField(K), NumberField(L));
    // it has to contain both
    (void)C.coerce(K->gen());
    (void)C.coerce(L->gen());
  } catch (const std::logic_error& e) {
    NEED(std::string(e.what()).find("compositum") != std::string::npos);
  }
  return 0;
}''', needs="the compositum of two different number fields whose degrees divide each other", breaks="a ring is returned that does not contain the elements of the other field instead of reporting that this is not implemented"),
 dict(id="last-rational", prop="C23",
  edits=[("src/rational_real_number.cc", "  return factory.get(value, [&]() { return new RationalRealNumber(value); });", "  // Most rational numbers are asked for many times in a row.\n  static std::weak_ptr<const RealNumber> last;\n  if (const auto candidate = last.lock())\n    if (*candidate == value)\n      return candidate;\n\n  shared_ptr<const RealNumber> ret = factory.get(value, [&]() { return new RationalRealNumber(value); });\n  last = ret;\n  return ret;")],
  mode="sh", demo=r'''#!/bin/bash
# run in the repository's root after the build; compiles the library and a
# program using two threads with the thread sanitizer
here=$(cd "$(dirname "$0")" && pwd)
root=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
I="-std=c++17 -w -O1 -g -fsanitize=thread -DNDEBUG -DBUILD_LIBEXACTREAL -I/opt/vp/include -I$here/lib -I$root/libexactreal"
cat > "$tmp/demo.cc" <<'X'
#include "exact-real/real_number.hpp"
#include <gmpxx.h>
#include <thread>
#include <vector>
using namespace exactreal;
int main() {
  std::vector<std::thread> ts;
  for (int t = 0; t < 4; t++)
    ts.emplace_back([t]() { for (int i = 0; i < 2000; i++) { auto q = RealNumber::rational(mpq_class(4 * (i % 7) + t + 1000 * t)); (void)q; } });
  for (auto& t : ts) t.join();
}
X
for f in "$root"/libexactreal/src/*.cc "$here/lib/impl.cc" "$tmp/demo.cc"; do
  g++ $I -c "$f" -o "$tmp/$(basename "$f" .cc).o" &
done
wait
g++ -fsanitize=thread "$tmp"/*.o -o "$tmp/demo" -leanticxx -leantic -lflint -lmpfr -lgmpxx -lgmp -lpthread || exit 3
cd "$tmp" && TSAN_OPTIONS=halt_on_error=1:exitcode=66 timeout 100 $(setarch -R true 2>/dev/null && echo setarch -R) "$tmp/demo" || { r=$?; exit $r; }
''', lib=True, needs="two threads creating rational real numbers at the same time", breaks="the cached last number is a plain static that threads read and write without synchronisation"),
 dict(id="div-ull-mpz", prop="C22",
  edits=[("src/element.cc", "template <typename Ring>\nElement<Ring>& Element<Ring>::operator/=(unsigned long long rhs) {\n  (*impl) /= rhs;\n  return *this;\n}\n\n", ""), ], skip=True, demo="", needs="", breaks=""),
 dict(id="product-kind", prop="C16",
  edits=[], skip=True, demo="", needs="", breaks=""),
 dict(id="yap-reflected", prop="C21",
  edits=[("pyexactreal/src/pyexactreal/cppyy_exactreal.py", '''            implementation = getattr(proxy, python_op)
            def binary(lhs, rhs, implementation=implementation):
                return Yap.wrap(lhs)._op(implementation, rhs)
            def rbinary(rhs, lhs, implementation=implementation):
                return Yap.wrap(lhs)._op(implementation, rhs)
''', '''            def wrapped(implementation):
                # The operands stay alive for as long as the expression does.
                return lambda lhs, rhs: Yap.wrap(lhs)._op(implementation, rhs)

            binary = wrapped(getattr(proxy, python_op))
            rbinary = wrapped(getattr(proxy, python_op))
''')],
  mode="sh", demo=r'''#!/bin/bash
# run in the repository's root; the Python operators of a stand-in for cppyy's classes
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 exec python3 - "$(pwd)" <<'PY'
import sys, types
root = sys.argv[1]
class Expr:
    def __init__(self, text):
        self.text = text
def text(x):
    return getattr(x, "text", str(x))
class Stub:
    def __init__(self, f):
        self.f = f
    def __getitem__(self, types):
        return self
    def __call__(self, *args):
        return Expr(self.f % tuple(text(a) for a in args))
class Anything:
    def __getattr__(self, name):
        return Anything()
    def __getitem__(self, i):
        return self
    def __call__(self, *args, **kwargs):
        return Anything()
registered = []
cppyy = types.ModuleType("cppyy")
cppyy.__path__ = []
cppyy.include = lambda *a: None
cppyy.py = types.SimpleNamespace(add_pythonization=lambda f, ns: registered.append((f, ns)))
ops = types.SimpleNamespace(add=Stub("(%s + %s)"), sub=Stub("(%s - %s)"), mul=Stub("(%s * %s)"), truediv=Stub("(%s / %s)"), neg=Stub("(- %s)"), eval=Stub("%s at %s"))
exactreal = types.SimpleNamespace(cppyy=ops, Module=Anything(), IntegerRing=Anything(), RationalField=Anything(), NumberField=Anything(), RealNumber=Anything())
cppyy.gbl = types.ModuleType("cppyy.gbl")
cppyy.gbl.exactreal = exactreal
cppyy.gbl.std = Anything()
sys.modules["cppyy"] = cppyy
sys.modules["cppyy.gbl"] = cppyy.gbl
for name in ["gmpxxyy", "pyeantic", "cppyythonizations", "cppyythonizations.pickling", "cppyythonizations.pickling.cereal", "cppyythonizations.printing", "cppyythonizations.operators", "cppyythonizations.operators.order", "cppyythonizations.util"]:
    m = types.ModuleType(name)
    m.__path__ = []
    m.enable_cereal = m.enable_pretty_printing = m.enable_total_order = lambda *a, **k: None
    m.filtered = lambda *a: lambda f: lambda proxy, name: None
    m.eantic = Anything()
    sys.modules[name] = m
source = open(root + "/pyexactreal/src/pyexactreal/cppyy_exactreal.py").read()
scope = {"__name__": "pyexactreal.cppyy_exactreal"}
exec(compile(source, "cppyy_exactreal.py", "exec"), scope)
class Arb(Expr):
    pass
for f, ns in registered:
    if ns == "exactreal":
        f(Arb, "Arb")
a, b = Arb("a"), Arb("b")
def value(x):
    return text(getattr(x, "value", x))
for got, want in [(value(a - b), "(a - b)"), (value(a / b), "(a / b)"), (value(a - 1), "(a - 1)"), (value(1 - a), "(1 - a)"), (value(2 / a), "(2 / a)")]:
    if got != want:
        print("got %s, expected %s" % (got, want))
        sys.exit(1)
PY
''', needs="a difference or quotient of a number on the left and a ball on the right", breaks="the reflected operators of Arb and Arf compute a - 1 for 1 - a"),
 dict(id="hash-coefficients", prop="C20",
  edits=[("src/element.cc", "  return hash<double>()(static_cast<double>(x));", """  // There is no need to approximate the number, its coefficients identify it.
  size_t ret = 0;
  for (const auto& c : x.coefficients()) {
    ret *= 31;
    if (c) ret += hash<std::string>()([&]() { std::ostringstream s; s << c; return s.str(); }());
  }
  return ret;"""), ("src/element.cc", "#include <set>\n", "#include <set>\n#include <sstream>\n#include <string>\n")],
  demo=r'''
#include "exact-real/element.hpp"
#include "exact-real/integer_ring.hpp"
#include "exact-real/rational_field.hpp"
#include "exact-real/module.hpp"
#include "exact-real/real_number.hpp"
#include <cstdio>
#include <functional>
using namespace exactreal;
template <typename R>
bool differ() {
  auto one = RealNumber::rational(1), a = RealNumber::random(3), b = RealNumber::random(4);
  auto small = Module<R>::make({a});
  auto large = Module<R>::make({one, a, b});
  Element<R> x = small->gen(0);
  Element<R> y = x;
  y.promote(large);
  Element<R> z = small->zero(), w = large->zero();
  std::hash<Element<R>> h;
  return !(x == y) || h(x) != h(y) || !(z == w) || h(z) != h(w);
}
int main() {
  if (differ<IntegerRing>() || differ<RationalField>()) { std::puts("equal elements hash differently"); return 1; }
  return 0;
}''', needs="the same number written over two modules", breaks="equal elements have different hashes"),
 dict(id="promote-tail", prop="C17",
  edits=[("src/element.cc", "  while (their_gen != end(their_gens) || our_gen != end(our_gens)) {\n    if (our_gen == end(our_gens)) {\n      coefficients.push_back(typename Ring::ElementClass());", "  // There is one coefficient for each of their generators.\n  while (their_gen != end(their_gens)) {\n    if (our_gen == end(our_gens)) {\n      coefficients.push_back(typename Ring::ElementClass());")],
  demo=r'''
#include "exact-real/element.hpp"
#include "exact-real/integer_ring.hpp"
#include "exact-real/module.hpp"
#include "exact-real/real_number.hpp"
#include <cstdio>
#include <stdexcept>
using namespace exactreal;
int main() {
  auto one = RealNumber::rational(1), a = RealNumber::random(3), b = RealNumber::random(4);
  auto small = Module<IntegerRing>::make({one, a});
  auto large = Module<IntegerRing>::make({one, a, b});
  // each generator that is missing in the target must be noticed
  auto other = Module<IntegerRing>::make({one});
  for (auto from : {large, small})
    for (auto to : {small, other})
      for (int i = 0; i < from->rank(); i++) {
        Element<IntegerRing> x = from->gen(i);
        const bool fits = std::find(to->basis().begin(), to->basis().end(), from->basis()[i]) != to->basis().end();
        try {
          x.promote(to);
          if (!fits) { std::puts("promoted to a module that does not contain the element"); return 1; }
        } catch (const std::invalid_argument&) {
          if (fits) { std::puts("not promoted"); return 1; }
        }
      }
  return 0;
}''', needs="promoting an element to a module that lacks its last generators", breaks="instead of an error the element loses its last terms"),
 dict(id="idiv-negative", prop="C09",
  edits=[("src/integer_ring.cc", "    if (lhs % rhs != 0)\n", "    if (lhs % rhs > 0)\n")],
  demo=r'''
#include "exact-real/integer_ring.hpp"
#include "exact-real/element.hpp"
#include "exact-real/module.hpp"
#include "exact-real/real_number.hpp"
#include <gmpxx.h>
#include <cstdio>
#include <stdexcept>
using namespace exactreal;
int main() {
  for (int a : {7, -7, 6, -6, 0})
    for (int b : {3, -3, 2, -2}) {
      mpz_class x = a;
      bool threw = false;
      try { IntegerRing::idiv(x, mpz_class(b)); } catch (const std::invalid_argument&) { threw = true; }
      if (threw != (a % b != 0)) { std::printf("%d / %d\\n", a, b); return 1; }
    }
  return 0;
}''', needs="a negative integer divided by an integer that does not divide it", breaks="the division is rounded instead of reported"),
 dict(id="near-symmetric", prop="C26",
  edits=[("src/constrained_random_real_number.cc", "  Arf lower = Arf(nextafter(x, -numeric_limits<double>::infinity()));\n  Arf midpoint = Arf(x);\n  Arf upper = Arf(nextafter(x, numeric_limits<double>::infinity()));\n", "  Arf midpoint = Arf(x);\n  Arf upper = Arf(nextafter(x, numeric_limits<double>::infinity()));\n  // the preceding double is just as far away\n  Arf lower = (2 * midpoint - upper)(64, Arf::Round::NEAR);\n")],
  demo=COMMON + r'''
#include <cmath>
int main() {
  for (double x : {1.5, 1.0, -1.0, 2.0, 0.1, 0.0, 4096.0, 0.125, 1e300})
    for (unsigned s = 0; s < 200; s++) {
      auto r = RealNumber::random(x, Seed(s));
      NEED(static_cast<double>(r->arf(200)) == x);
    }
  return 0;
}''', needs="a random number close to a power of two, and a seed whose digits put it at the side where the doubles are denser", breaks="the number's nearest double is not the one it was asked to be close to"),
 dict(id="range-zero", prop="C26",
  edits=[("src/constrained_random_real_number.cc", "    if (upper_exponent < lower_exponent) {\n", "    // Zero is zero times any power of two.\n    if (lower_mantissa != 0 && upper_exponent < lower_exponent) {\n")],
  demo=COMMON + r'''
int main() {
  for (unsigned s = 0; s < 20; s++)
    for (int e : {-3, -1, 0, 2, 5})
      for (int lo : {-1, 0, 1}) {
        Arf a(mpz_class(lo), -2), b(mpz_class(5), e);
        auto r = RealNumber::random(a, b, Seed(s));
        const Arf v = r->arf(200);
        NEED(v >= a && v <= b);
      }
  return 0;
}''', needs="an interval that starts at zero and ends at a number that is no integer", breaks="the number is from a larger interval"),
 dict(id="mantissa-early", prop="C07",
  edits=[("src/arf.cc", "  mpz_class m, e;\n  fmpz_get_mpz(m.get_mpz_t(), mantissa);\n", "  mpz_class m;\n  mpz_class e;\n  fmpz_get_mpz(m.get_mpz_t(), mantissa);\n\n  // Odd integers are their own mantissa.\n  if (fmpz_is_zero(exponent))\n    return std::make_pair(m, e);\n\n")],
  mode="so",
  demo=r'''
#include <exact-real/arf.hpp>
#include <fstream>
#include <iostream>
using namespace exactreal;
static long pages() {
  std::ifstream f("/proc/self/statm");
  long size, resident;
  f >> size >> resident;
  return resident;
}
int main() {
  const Arf odd((mpz_class(1) << 40000) + 1, 0);
  long before = 0;
  for (int i = 0; i < 22000; i++) {
    if (i == 2000) before = pages();
    if (odd.exponent() != 0) return 2;
  }
  const long grown = pages() - before;
  if (grown > 4000) {
    std::cout << "failed: " << grown << " pages are never released" << std::endl;
    return 1;
  }
  return 0;
}''', needs="the mantissa or exponent of a large odd integer, many times", breaks="memory is leaked on an early return"),
 dict(id="inplace-rounding", prop="C04",
  edits=[("exact-real/yap/arf.hpp", '''    static_assert(false_t<decltype(round)>,
                  "Expression can not be used in @= operator because the right hand side has no rounding set. Did you "
                  "forget to wrap the right hand side in a (…)(Arf::Round::NEAR) to set the rounding explicitly?");
''', '''    // Round like the builtin types do.
    auto binary = op(self, expr)(prec)(::exactreal::Arf::Round::NEAR);
    boost::yap::transform_strict(std::move(binary), yap::ArfAssignTransformation(self));
''')],
  demo=r'''
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <string>
#include <unistd.h>
#include "exact-real/arf.hpp"
// whether the statement compiles
static bool compiles(const std::string& statement) {
  char dir[] = "/tmp/compilesXXXXXX";
  if (!mkdtemp(dir)) exit(2);
  const std::string d = dir;
  std::ofstream(d + "/x.cc") << "#include \"exact-real/arf.hpp\"\n#include \"exact-real/yap/arf.hpp\"\nusing namespace exactreal;\nvoid f(Arf& x, Arf& y, Arf& z) { " << statement << " }\n";
  const bool ok = !system((std::string("g++ -fsyntax-only ") + getenv("DEMO_FLAGS") + " " + d + "/x.cc >/dev/null 2>&1").c_str());
  unlink((d + "/x.cc").c_str());
  rmdir(dir);
  return ok;
}
int main() {
  if (!compiles("x += (y * z)(64, Arf::Round::NEAR);") || !compiles("x -= y(64, Arf::Round::UP);")) {
    std::cout << "failed: a promised form does not compile" << std::endl;
    return 2;
  }
  for (const char* s : {"x += (y * z);", "x -= y(Arf::Round::UP);", "x += (y * z)(64);", "x *= (-y)(64);", "x /= (y + z)(64);"})
    if (compiles(s)) {
      std::cout << "failed: compiles: " << s << std::endl;
      return 1;
    }
  return 0;
}''', needs="an assignment operator with an expression that has a precision but no rounding", breaks="it compiles and rounds in a way nobody asked for"),
 dict(id="unsigned-long", prop="C06",
  edits=[("src/arb.cc", "  using Long = std::conditional_t<std::numeric_limits<S>::is_signed, slong, ulong>;\n  if constexpr (std::numeric_limits<Long>::min() <= std::numeric_limits<S>::min() && std::numeric_limits<Long>::max() >= std::numeric_limits<S>::max()) {\n", "  using Long = std::conditional_t<(sizeof(S) < sizeof(ulong)) || std::numeric_limits<S>::is_signed || !std::is_same_v<S, unsigned long>, slong, ulong>;\n  if constexpr (sizeof(S) <= sizeof(Long)) {\n")],
  demo=COMMON + r'''
int main() {
  const unsigned long long big = ~0ull;
  Arb x(big), y(~0ul), z;
  z = big - 1;
  NEED((y == mpz_class("18446744073709551615")).value_or(false));
  NEED((x == mpz_class("18446744073709551615")).value_or(false));
  NEED((z == mpz_class("18446744073709551614")).value_or(false));
  return 0;
}''', needs="an unsigned long long that does not fit a signed one", breaks="the ball is about a negative number"),
 dict(id="power-byte", prop="C13",
  edits=[("src/real_number_product.cc", "      const std::function<size_t(size_t, size_t)> pow = [&](size_t base, size_t exponent) -> size_t {", "      const std::function<size_t(size_t, unsigned char)> pow = [&](size_t base, unsigned char exponent) -> size_t {")],
  demo=COMMON + r'''
int main() {
  for (unsigned s = 1; s < 4; s++) {
    std::shared_ptr<const RealNumber> x = RealNumber::random(Seed(s));
    for (int k = 0; k < 10; k++) {
      auto y = (*x) * (*x);
      auto z = *(static_cast<const RealNumber&>(*y) / (*x));
      NEED(z == x);
      NEED(*z == *x);
      x = y;
    }
  }
  return 0;
}''', needs="dividing by a power so that the exponent that remains is at least 256", breaks="the same product is made a second time"),
 dict(id="arb-less-ull", prop="C22",
  edits=[("src/arb.cc", "template std::optional<bool> Arb::operator<(long long) const noexcept;\ntemplate std::optional<bool> Arb::operator<(unsigned long long) const noexcept;\n", "template std::optional<bool> Arb::operator<(long long) const noexcept;\n")],
  demo=COMMON + r'''
int main() {
  Arb x(mpz_class(7));
  NEED(x < 8ll);
  NEED(x < 8ull);
  return 0;
}''', needs="comparing a ball to an unsigned long long", breaks="the program does not link"),
 dict(id="inverse-sign", prop="C10",
  edits=[("src/module.cc", "      const mpq_class inverse = 1 / *rational;\n", "      // The parts of a rational have no common factor already.\n      const mpq_class inverse(rational->get_den(), rational->get_num());\n")],
  demo=COMMON + r'''
int main() {
  auto M = Module<RationalField>::make({RealNumber::rational(mpq_class(-1, 2)), RealNumber::random(Seed(1))});
  auto one = M->one();
  for (const mpq_class& c : one.coefficients()) NEED(c.get_den() > 0);
  NEED(one == 1);
  NEED(one.coefficients() == (vector<mpq_class>{-2, 0}) || one.coefficients() == (vector<mpq_class>{0, -2}));
  auto N = Module<RationalField>::make({RealNumber::rational(mpq_class(2, 3)), RealNumber::random(Seed(1))});
  NEED(N->one() == 1);
  return 0;
}''', needs="a module with a negative rational generator", breaks="the coefficient of 1 has a negative denominator"),
 dict(id="reduce-negative", prop="C10",
  edits=[("src/element.cc", "        entry.canonicalize();\n", "        // Only the sign may have to be moved to the numerator.\n        if (entry.get_den() < 0)\n          entry.canonicalize();\n")],
  demo=COMMON + r'''
int main() {
  auto K = eantic::renf_class::make("x^2 - 2", "x", "1.41 +/- 0.1", 64);
  auto M = Module<NumberField>::make({RealNumber::rational(1)}, NumberField(K));
  // 1/2 + x/3 is (3 + 2 x)/6
  auto c = eantic::renf_elem_class(*K, vector<mpq_class>{mpq_class(1, 2), mpq_class(1, 3)});
  Element<NumberField> e(M, vector<eantic::renf_elem_class>{c});
  auto got = e.rationalCoefficients();
  NEED(got.size() == 2);
  NEED(got[0] == mpq_class(1, 2));
  NEED(got[1] == mpq_class(1, 3));
  return 0;
}''', needs="a number field element whose coefficients have different denominators", breaks="its rational coefficients are not in lowest terms and do not compare equal to the same numbers"),
]
B = [b for b in B if not b.get("skip")]
