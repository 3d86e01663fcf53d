"""The values of terms in a model of the library operations.

Two facts about a function are told apart by a model in which they differ:
numbers are rationals or infinities, balls are (midpoint, radius), operations
that round are free functions of their operands, precision and rounding mode
(exact where the contract says so).  Terms whose operations are not modelled
have no value here (Unknown) and are never used to report a violation.
"""
import hashlib
import math
from fractions import Fraction

from vf import T, isint

INF = float("inf")
EXACT = 9223372036854775807


class Unknown(Exception):
    pass


class Alg(Fraction):
    """stands for an irrational number close to this fraction"""


class Ball:
    __slots__ = ("mid", "rad")

    def __init__(self, mid, rad):
        self.mid, self.rad = mid, rad

    def __eq__(self, o):
        if isinstance(o, Ball):
            return self.mid == o.mid and self.rad == o.rad
        return self.rad == 0 and self.mid == o

    def __hash__(self):
        return hash((self.mid, self.rad)) if self.rad else hash(self.mid)

    def __repr__(self):
        return "[%s +/- %s]" % (self.mid, self.rad)


def ball(x):
    return x if isinstance(x, Ball) else Ball(x, 0)


def lo(x):
    x = ball(x)
    if x.rad == INF:
        return -INF
    return x.mid - x.rad


def hi(x):
    x = ball(x)
    if x.rad == INF:
        return INF
    return x.mid + x.rad


def simp(b):
    return b.mid if isinstance(b, Ball) and b.rad == 0 else b


def num(x):
    if isinstance(x, Ball):
        raise Unknown("a ball where a number was expected")
    if isinstance(x, tuple) or isinstance(x, str):
        raise Unknown("not a number: %r" % (x,))
    return x


def finite(x):
    if x in (INF, -INF) or x != x:
        raise Unknown("infinite")
    return x


def free(name, *args):
    """a free function: a number determined by its name and arguments"""
    h = hashlib.sha256(repr((name,) + args).encode()).digest()
    return Fraction(int.from_bytes(h[:5], "big"), 1 << 20) - (1 << 18)


def to_double(x, mode):
    x = num(x)
    if x in (INF, -INF) or x == 0:
        return x
    x = Fraction(x)
    try:
        d = float(x)
    except OverflowError:
        d = INF if x > 0 else -INF
    if mode == 4:
        return d if d in (INF, -INF) else Fraction(d)
    exact = d not in (INF, -INF) and Fraction(d) == x
    if exact:
        return Fraction(d)
    big = d > x if d in (INF, -INF) else Fraction(d) > x
    want_up = {0: x < 0, 1: x > 0, 2: False, 3: True}[mode]
    if big and not want_up:
        d = math.nextafter(d, -INF)
    if not big and want_up:
        d = math.nextafter(d, INF)
    return d if d in (INF, -INF) else Fraction(d)


def wrap(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) and bits > 1 else v


def fl(x):
    x = num(x)
    return x if x in (INF, -INF) else math.floor(x)


def ce(x):
    x = num(x)
    return x if x in (INF, -INF) else math.ceil(x)


def negated(x):
    return Ball(-x.mid, x.rad) if isinstance(x, Ball) else -x


def div(x, y):
    x, y = num(x), num(y)
    if y == 0 or INF in (abs(x), abs(y)):
        raise Unknown("quotient")
    return Fraction(x) / Fraction(y)


def rnd_bits(x, p, m):
    """x rounded to p bits, m: 2 down to -oo, 3 up to oo"""
    if x in (INF, -INF) or x == 0:
        return x
    x = Fraction(x)
    e = abs(x.numerator).bit_length() - x.denominator.bit_length() - p - 1
    while abs(x) >= Fraction(2) ** (e + p):
        e += 1
    y = x / Fraction(2) ** e
    return (math.floor(y) if m == 2 else math.ceil(y)) * Fraction(2) ** e


def rnd_int(x, m):
    x = finite(num(x))
    f = math.floor(x)
    if f == x:
        return f
    if m == 2 or (m == 0 and x > 0) or (m == 1 and x < 0):
        return f
    if m in (3, 0, 1):
        return f + 1
    d = x - f
    return f if d < Fraction(1, 2) or (d == Fraction(1, 2) and f % 2 == 0) else f + 1


def tdiv(a, b):
    if b == 0:
        raise Unknown("division by zero")
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def mul(a, b):
    if isinstance(a, Ball) or isinstance(b, Ball):
        a, b = ball(a), ball(b)
        if b.rad and not a.rad:
            a, b = b, a
        if b.rad:
            raise Unknown("ball times ball")
        if INF in (abs(a.mid), abs(b.mid)):
            raise Unknown("infinite ball product")
        if a.rad == INF:
            if b.mid == 0:
                raise Unknown("0 * infinite ball")
            return Ball(a.mid * b.mid, INF)
        return simp(Ball(a.mid * b.mid, a.rad * abs(b.mid)))
    if INF in (abs(a), abs(b)) and 0 in (a, b):
        raise Unknown("0*inf")
    return a * b


def addv(a, b, sign=1):
    if isinstance(a, Ball) or isinstance(b, Ball):
        a, b = ball(a), ball(b)
        return simp(Ball(a.mid + sign * b.mid, a.rad + b.rad))
    if abs(a) == INF and abs(b) == INF:
        raise Unknown("inf-inf")
    return a + sign * b


def m2(x, e):
    if isinstance(x, Ball):
        if abs(e) > 5000:
            raise Unknown("ball scaled by a huge power")
        return Ball(m2(x.mid, e), x.rad if x.rad == INF else x.rad * Fraction(2) ** e)
    if isinstance(x, tuple) and x[0] == "m2e":
        x, e = x[1], x[2] + e
    if x in (INF, -INF) or x == 0:
        return x
    x = Fraction(x)
    k = (x.numerator & -x.numerator).bit_length() - 1 if x.numerator % 2 == 0 else -((x.denominator & -x.denominator).bit_length() - 1)
    x = Fraction(x.numerator >> k, x.denominator) if k >= 0 else Fraction(x.numerator, x.denominator >> -k)
    e += k
    return ("m2e", x, e) if abs(e) > 5000 else x * Fraction(2) ** e


def sgn(x):
    if isinstance(x, Ball):
        raise Unknown("sign of a ball")
    return (x > 0) - (x < 0)


class Model:
    """One assignment.  env: base term -> value; cmpmag: what a three-way
    comparison returns besides its sign."""

    def __init__(self, env, cmpmag=1):
        self.env = env
        self.memo = {}
        self.cmpmag = cmpmag
        self.samefield = None  # whether the fields of two parameters are the same one

    def __call__(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self.ev(t)
            self.memo[t.id] = r
        return r

    def holds(self, t):
        v = self(t)
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, Fraction)):
            return v != 0
        raise Unknown("truth of %r" % (v,))

    def ev(self, t):
        if t in self.env:
            return self.env[t]
        op, a = t.op, t.args
        if op == "ite":
            try:
                c = self.holds(a[0])
            except Unknown:
                # the order of the tests in a condition is arbitrary
                x, y = self(a[1]), self(a[2])
                if type(x) is type(y) and x == y:
                    return x
                raise
            return self(a[1]) if c else self(a[2])
        if op == "int":
            return a[0] if a[1] != 1 else a[0] & 1
        f = getattr(self, "op_" + op, None)
        if f is not None:
            return f(*a)
        if op in FREE_OK:
            return free(op, *[self.arg(x) for x in a])
        raise Unknown(op)

    def arg(self, x):
        if isinstance(x, T):
            v = self(x)
            if isinstance(v, Fraction) and v.denominator == 1:
                v = int(v)
            return v
        return x

    # structure
    def op_in(self, kind, root, off):
        if kind == "raw4":
            for k, d in (("mpz", 4), ("mpq", 4), ("mpq", 20)):
                b = T("in", k, root, off - d)
                if b in self.env:
                    v = self.env[b]
                    if k == "mpq":
                        v = Fraction(v)
                        v = v.numerator if d == 4 else v.denominator
                    return sgn(v)
        for k, d, part in (("arb", 0, "mid"), ("arb", 32, "rad"), ("mpq", 0, "num"), ("mpq", 16, "den")):
            b = T("in", k, root, off - d)
            if b in self.env:
                want = {"mid": "arf", "rad": "mag", "num": "mpz", "den": "mpz"}[part]
                if kind == want:
                    return self.part(part, self.env[b])
        raise Unknown("in %s+%s" % (kind, off))

    def part(self, nm, v):
        if nm == "mid":
            return ball(v).mid
        if nm == "rad":
            return ball(v).rad
        if nm == "num":
            return Fraction(num(v)).numerator
        if nm == "den":
            return Fraction(num(v)).denominator

    def op_mid(self, x):
        return self.part("mid", self(x))

    def op_rad(self, x):
        return self.part("rad", self(x))

    def op_num(self, x):
        v = self(x)
        if isinstance(v, tuple) and v[0] == "rawfrac":
            return v[1]
        return self.part("num", v)

    def op_den(self, x):
        v = self(x)
        if isinstance(v, tuple) and v[0] == "rawfrac":
            return v[2]
        return self.part("den", v)

    def op_whole(self, kind, *xs):
        if kind == "mpq":
            n, d = self(xs[0]), self(xs[1])
            if math.gcd(n, d) == 1 and d > 0:
                return Fraction(n, d)
            return ("rawfrac", n, d)
        if kind == "fmpq":
            return Fraction(self(xs[0]), self(xs[1]))
        if kind == "arb":
            return simp(Ball(self(xs[0]), self(xs[1])))
        raise Unknown("whole " + kind)

    def op_ball(self, m, r):
        return simp(Ball(self(m), self(r)))

    def op_mpzlit(self, n, d):
        k = wrap(self(n), 32)
        if abs(k) > 1:
            raise Unknown("limbs")
        return k * (self(d) & ((1 << 64) - 1))

    def op_sizefield(self, x):
        return sgn(self(x))

    def op_arg(self, i):
        raise Unknown("arg")

    # numbers
    def op_lin(self, c, parts):
        v = c
        for k, x in parts:
            v = addv(v, mul(self(x), k))
        return v

    def op_neg(self, x):
        v = self(x)
        if isinstance(v, Ball):
            return Ball(-v.mid, v.rad)
        if isinstance(v, tuple) and v[0] == "m2e":
            return ("m2e", -v[1], v[2])
        if isinstance(v, tuple):
            return ("neg",) + v
        return -v

    def op_fneg(self, x):
        return -num(self(x))

    def op_abs(self, x):
        v = self(x)
        if isinstance(v, Ball):
            raise Unknown("abs ball")
        return abs(num(v))

    def op_m2e(self, x, e):
        return m2(self(x), int(finite(num(self(e)))))

    def op_mul(self, x, y):
        return mul(self(x), self(y))

    def op_floor(self, x):
        return fl(self(x))

    def op_ceil(self, x):
        return ce(self(x))

    def op_round_down(self, x):
        return rnd_int(self(x), 0)

    def op_round_up(self, x):
        return rnd_int(self(x), 1)

    def op_round_near(self, x):
        return rnd_int(self(x), 4)

    def op_tdiv(self, x, y):
        return tdiv(self(x), self(y))

    def op_sdiv(self, x, y):
        return tdiv(self(x), self(y))

    def op_fdiv(self, x, y):
        a, b = self(x), self(y)
        if b == 0:
            raise Unknown("division by zero")
        return a // b

    def op_cdiv(self, x, y):
        a, b = self(x), self(y)
        if b == 0:
            raise Unknown("division by zero")
        return -((-a) // b)

    def op_trem(self, x, y):
        a, b = self(x), self(y)
        return a - b * tdiv(a, b)

    op_srem = op_trem

    def op_frem(self, x, y):
        a, b = self(x), self(y)
        if b == 0:
            raise Unknown("division by zero")
        return a % b

    def op_mod(self, x, y):
        a, b = self(x), self(y)
        if b == 0:
            raise Unknown("division by zero")
        return a % abs(b)

    def op_divexact(self, x, y):
        a, b = self(x), self(y)
        if b == 0 or a % b:
            raise Unknown("inexact divexact")
        return a // b

    def op_qdiv(self, x, y):
        a, b = num(self(x)), num(self(y))
        if b == 0:
            raise Unknown("division by zero")
        return Fraction(a) / Fraction(b)

    def op_frac(self, n, d):
        n, d = self(n), self(d)
        if d == 0:
            raise Unknown("zero denominator")
        if math.gcd(n, d) == 1 and d > 0:
            return Fraction(n, d)
        return ("rawfrac", n, d)

    def op_canon(self, q):
        v = self(q)
        if isinstance(v, tuple) and v[0] == "rawfrac":
            if v[2] == 0:
                raise Unknown("zero denominator")
            return Fraction(v[1], v[2])
        return v

    def op_dbl(self, x):
        return self(x)

    def op_fp(self, s):
        if s in ("+Inf", "-Inf"):
            return INF if s[0] == "+" else -INF
        return Fraction(float(s))

    def op_trunc_d(self, x):
        return rnd_int(self(x), 0)

    def op_get_d(self, x, r):
        r = self(r)
        if r not in (0, 1, 2, 3, 4):
            raise Unknown("rounding")
        return to_double(self(x), r)

    def op_get_int(self, x, r):
        return rnd_int(self(x), self(r))

    def op_low_s(self, x):
        return self.low(x)

    def low(self, x):
        v = self(x)
        s = (abs(v) & ((1 << 63) - 1))
        return -s if v < 0 else s

    def op_low_u(self, x):
        return abs(self(x)) & ((1 << 64) - 1)

    def op_u(self, x, bits=64):
        return self(x) & ((1 << bits) - 1)

    def op_zext(self, x, b, w=64):
        v = self(x)
        if isinstance(v, bool):
            v = int(v)
        return v & ((1 << (w if isinstance(w, int) else 64)) - 1)

    def op_sext(self, x, b, w=64):
        return wrap(int(self(x)), w if isinstance(w, int) else 64)

    def op_trunc(self, x, b):
        return wrap(int(self(x)), b)

    def op_bits(self, bits, fs):
        v = 0
        for lo, w, s, sl in fs:
            x = -1 if s == "ones" else int(self(s))
            v |= ((x >> sl) & ((1 << w) - 1)) << lo
        return wrap(v, bits)

    def op_sitofp(self, x):
        return Fraction(float(self(x)))

    def op_uitofp(self, x):
        return Fraction(float(self(x) & ((1 << 64) - 1)))

    def op_fptosi(self, x):
        return wrap(rnd_int(self(x), 0), 64)

    def op_fptrunc(self, x):
        import struct
        v = num(self(x))
        if v in (INF, -INF):
            return v
        try:
            return Fraction(struct.unpack("f", struct.pack("f", float(v)))[0])
        except OverflowError:
            return INF if v > 0 else -INF

    def op_fpext(self, x):
        return self(x)

    def op_and(self, x, y):
        return self(x) & self(y)

    def op_or(self, x, y):
        return self(x) | self(y)

    def op_xor(self, x, y):
        return self(x) ^ self(y)

    def op_not(self, x):
        return ~self(x)

    def op_lshr(self, x, y):
        return (self(x) & ((1 << 64) - 1)) >> self(y)

    def op_ashr(self, x, y):
        return self(x) >> self(y)

    def op_smax(self, x, y):
        return max(self(x), self(y))

    def op_smin(self, x, y):
        return min(self(x), self(y))

    # comparisons
    def op_cmp(self, x, y):
        a, b = self(x), self(y)
        if isinstance(a, (Ball, tuple)) or isinstance(b, (Ball, tuple)):
            raise Unknown("cmp")
        return self.cmpmag * ((a > b) - (a < b))

    def op_same_field(self, x, y):
        if self.samefield is None:
            raise Unknown("which field")
        return self.samefield

    def op_is_rational(self, x):
        return int(not isinstance(self(x), Alg))

    def op_is_integer(self, x):
        v = self(x)
        return int(not isinstance(v, Alg) and num(v).denominator == 1)

    def op_equal(self, x, y):
        a, b = self(x), self(y)
        if isinstance(a, tuple) or isinstance(b, tuple):
            raise Unknown("equal")
        return int(a == b)

    def op_eq(self, x, y):
        if x.op in ("ptr", "null") or y.op in ("ptr", "null"):
            # distinct objects; null: a reference never is
            a, b = (t.args if t.op == "ptr" else (t, 0) for t in (x, y))
            if isinstance(a[1], int) and isinstance(b[1], int) and {a[0].op, b[0].op} <= {"arg", "null"}:
                return int(a == b)
            if self.samefield is not None and all(z[0].op == "in" and z[0].args[0] == "raw8" for z in (a, b)):
                # the fields of two objects, which need not be the same object even if they are the same field
                return int(a == b)
            raise Unknown("pointer comparison")
        a, b = self(x), self(y)
        return int(a == b)

    def op_slt(self, x, y):
        return int(self(x) < self(y))

    def op_ult(self, x, y):
        m = (1 << 64) - 1
        return int((self(x) & m) < (self(y) & m))

    def op_fpclass(self, x, m):
        v, m = self(x), self(m)
        if v in (INF, -INF):
            return int(bool(m & (0x200 if v == INF else 0x4)))
        if v == 0:
            return int(bool(m & 0x40))
        return int(bool(m & (0x100 if v > 0 else 0x8)))

    def op_fcmp(self, p, x, y):
        a, b = self(x), self(y)
        p = p[-2:]
        return int({"eq": a == b, "ne": a != b, "lt": a < b, "gt": a > b, "le": a <= b, "ge": a >= b}[p])

    # balls (no NaNs here)
    def op_ball_lt(self, x, y):
        return int(hi(self(x)) < lo(self(y)))

    def op_ball_le(self, x, y):
        return int(hi(self(x)) <= lo(self(y)))

    def op_ball_eq(self, x, y):
        a, b = ball(self(x)), ball(self(y))
        return int(a.rad == 0 and b.rad == 0 and a.mid == b.mid)

    def op_ball_ne(self, x, y):
        a, b = self(x), self(y)
        return int(hi(a) < lo(b) or hi(b) < lo(a))

    def op_ball_same(self, x, y):
        return int(ball(self(x)) == ball(self(y)))

    def op_ball_overlaps(self, x, y):
        a, b = self(x), self(y)
        return int(not (hi(a) < lo(b) or hi(b) < lo(a)))

    def op_ball_contains(self, x, y):
        a, b = self(x), self(y)
        return int(lo(a) <= lo(b) and hi(b) <= hi(a))

    def op_ball_exact(self, x):
        return int(ball(self(x)).rad == 0)

    def op_ball_finite(self, x):
        b = ball(self(x))
        return int(b.rad != INF and abs(b.mid) != INF)

    # roundings
    def arith(self, name, f, a, comm):
        x, y, rest = self(a[0]), self(a[1]), [self(z) for z in a[2:]]
        if rest and rest[0] == EXACT and f:
            return f(x, y)
        if isinstance(x, tuple) or isinstance(y, tuple):
            raise Unknown(name)
        if name.startswith("arf"):
            try:
                v = f(x, y) if f else div(x, y)
                if not isinstance(v, Ball):
                    return self.rounded(v, *rest)
            except Unknown:
                pass
        # (x op y) = -(-x op' y): the rounding of balls is symmetric
        xs = (x, y)
        if name.endswith("_sub"):
            name, xs, comm = name[:3] + "_add", (x, negated(y)), True
        sign = 1
        if name == "arb_add":
            both = [sorted(xs, key=repr), sorted((negated(z) for z in xs), key=repr)]
            xs = tuple(min(both, key=repr))
            sign = 1 if xs == tuple(both[0]) else -1
        elif comm:
            xs = tuple(sorted(xs, key=repr))
        v = sign * free(name, *[int(z) if isinstance(z, Fraction) and z.denominator == 1 else z for z in xs + tuple(rest)])
        if name.startswith("arb"):
            return Ball(v, Fraction(1, 8))
        return v

    def rounded(self, v, prec, rnd):
        """a number rounded: depends on the number, and on the sign only
        through the direction of the rounding"""
        if v in (0, INF, -INF):
            return v
        if rnd in (2, 3):
            rnd = 0 if (v > 0) == (rnd == 2) else 1
        r = abs(free("round", str(abs(Fraction(v))), int(prec), int(rnd)))
        return r if v > 0 else -r

    def op_arf_set_round(self, x, p, r):
        p = self(p)
        return num(self(x)) if p == EXACT else self.rounded(num(self(x)), p, self(r))

    def op_arf_add(self, *a):
        return self.arith("arf_add", addv, a, True)

    def op_arf_sub(self, *a):
        return self.arith("arf_sub", lambda x, y: addv(x, y, -1), a, False)

    def op_arf_mul(self, *a):
        return self.arith("arf_mul", mul, a, True)

    def op_arf_div(self, *a):
        return self.arith("arf_div", None, a, False)

    def op_arb_add(self, *a):
        return self.arith("arb_add", addv, a, True)

    def op_arb_sub(self, *a):
        return self.arith("arb_sub", lambda x, y: addv(x, y, -1), a, False)

    def op_arb_mul(self, *a):
        return self.arith("arb_mul", mul, a, True)

    def op_arb_div(self, *a):
        return self.arith("arb_div", None, a, False)


    # predicates of the C libraries on numbers and balls (never NaN here)
    def op_arf_is_nan(self, x):
        num(self(x))
        return 0

    def op_arf_is_inf(self, x):
        return int(num(self(x)) in (INF, -INF))

    def op_arf_is_pos_inf(self, x):
        return int(num(self(x)) == INF)

    def op_arf_is_neg_inf(self, x):
        return int(num(self(x)) == -INF)

    def op_arf_is_finite(self, x):
        return 1 - self.op_arf_is_inf(x)

    def op_arf_is_special(self, x):
        return int(num(self(x)) in (INF, -INF, 0))

    def op_arf_is_normal(self, x):
        return 1 - self.op_arf_is_special(x)

    def op_arf_is_int(self, x):
        v = num(self(x))
        return int(v not in (INF, -INF) and Fraction(v).denominator == 1)

    def op_arf_cmpabs(self, x, y):
        a, b = abs(num(self(x))), abs(num(self(y)))
        return self.cmpmag * ((a > b) - (a < b))

    def op___gmpz_get_d(self, x):
        return to_double(num(self(x)), 0)

    def op___gmpz_fdiv_qr(self, k, x, y):
        q = self.op_fdiv(x, y)
        return self(x) - q * self(y) if k else q

    def op___gmpz_cdiv_qr(self, k, x, y):
        q = self.op_cdiv(x, y)
        return self(x) - q * self(y) if k else q

    def op___gmpz_tdiv_qr(self, k, x, y):
        a, b = self(x), self(y)
        if b == 0:
            raise Unknown("division by zero")
        return a - tdiv(a, b) * b if k else tdiv(a, b)

    def op___gmpz_divisible_p(self, x, y):
        a, b = self(x), self(y)
        return int(a == 0 if b == 0 else a % b == 0)

    op___gmpz_divisible_ui_p = op___gmpz_divisible_p

    def fits(self, x, bits, signed):
        v = num(self(x))
        return int(-(1 << bits - 1) <= v < 1 << bits - 1 if signed else 0 <= v < 1 << bits)

    def op___gmpz_fits_slong_p(self, x):
        return self.fits(x, 64, True)

    def op___gmpz_fits_ulong_p(self, x):
        return self.fits(x, 64, False)

    def op___gmpz_fits_sint_p(self, x):
        return self.fits(x, 32, True)

    def op___gmpz_fits_uint_p(self, x):
        return self.fits(x, 32, False)

    def op___gmpz_fits_sshort_p(self, x):
        return self.fits(x, 16, True)

    def op___gmpz_fits_ushort_p(self, x):
        return self.fits(x, 16, False)

    def op___gmpz_gcd(self, x, y):
        return math.gcd(self(x), self(y))

    def op___gmpz_lcm(self, x, y):
        return math.lcm(self(x), self(y))

    op_arf_cmpabs_ui = op___gmpz_cmpabs = op___gmpz_cmpabs_ui = op___gmpz_cmpabs_d = op_arf_cmpabs_d = op_fmpz_cmpabs = op_arf_cmpabs

    def op_arf_cmp_2exp_si(self, x, e):
        a, b = num(self(x)), Fraction(2) ** self(e)
        return self.cmpmag * ((a > b) - (a < b))

    def op_arf_cmpabs_2exp_si(self, x, e):
        a, b = abs(num(self(x))), Fraction(2) ** self(e)
        return self.cmpmag * ((a > b) - (a < b))

    def op_arf_bits(self, x):
        v = num(self(x))
        if v in (INF, -INF, 0):
            return 0
        n = abs(Fraction(v).numerator)
        return (n // (n & -n)).bit_length()

    def op_arf_max(self, x, y):
        return max(num(self(x)), num(self(y)))

    def op_arf_min(self, x, y):
        return min(num(self(x)), num(self(y)))

    def op_arb_is_int(self, x):
        b = ball(self(x))
        return int(b.rad == 0 and b.mid not in (INF, -INF) and Fraction(b.mid).denominator == 1)

    def op_arb_is_one(self, x):
        b = ball(self(x))
        return int(b.rad == 0 and b.mid == 1)

    def op_arb_contains_positive(self, x):
        return int(hi(self(x)) > 0)

    def op_arb_contains_negative(self, x):
        return int(lo(self(x)) < 0)

    def op_arb_contains_nonnegative(self, x):
        return int(hi(self(x)) >= 0)

    def op_arb_contains_nonpositive(self, x):
        return int(lo(self(x)) <= 0)

    def op_arb_contains_si(self, x, n):
        return int(lo(self(x)) <= self(n) <= hi(self(x)))

    op_arb_contains_fmpz = op_arb_contains_fmpq = op_arb_contains_arf = op_arb_contains_mpz = op_arb_contains_si

    def op_fmpz_bits(self, x):
        return abs(int(num(self(x)))).bit_length()

    def op_fmpz_fits_si(self, x):
        return int(-(1 << 63) <= num(self(x)) < 1 << 63)

    def op_fmpz_abs_fits_ui(self, x):
        return int(abs(num(self(x))) < 1 << 64)

    def op_fmpz_is_even(self, x):
        return int(int(num(self(x))) % 2 == 0)

    def op_fmpz_is_odd(self, x):
        return int(int(num(self(x))) % 2)

    # bounds of a ball, rounded outwards to that many bits
    def op_arb_rel_accuracy_bits(self, x):
        b = ball(self(x))
        if b.rad == 0:
            return (1 << 63) - 1
        if b.mid in (0, INF, -INF) or b.rad == INF:
            return -((1 << 63) - 1)
        e = lambda q: next(k for k in range(q.numerator.bit_length() - q.denominator.bit_length() - 1, 1 << 20) if abs(q) < Fraction(2) ** k)
        return e(Fraction(b.mid)) - e(Fraction(b.rad)) - 1

    def outwards(self, which, x, p):
        p = self(p)
        v = (hi if which else lo)(self(x))
        if p < 2:
            raise Unknown("precision")
        return rnd_bits(v, p, 3 if which else 2) if p < 1 << 40 else v

    def op_arb_get_interval_arf(self, k, x, p):
        return self.outwards(k, x, p)

    def op_arb_get_lbound_arf(self, x, p):
        return self.outwards(0, x, p)

    def op_arb_get_ubound_arf(self, x, p):
        return self.outwards(1, x, p)


# operations that are uninterpreted functions of their operands
FREE_OK = {
    "parse", "arf_get_fmpz_2exp", "arf_frexp", "arf_randtest", "arb_randtest", "arb_randtest_exact", "arb_set_interval_arf", "arb_set_fmpq", "arb_set_str",
    "arb_zero_pm_one", "arb_zero_pm_inf", "arb_indeterminate", "arb_unit_interval", "renf_elem_set_evaluation", "renf_refine_embedding",
    "const", "upper", "undef",
}


def separate(a, b, models):
    """True: no model in the family tells them apart (all were decided);
    a model: they differ there; None: not decided."""
    decided = True
    for m in models:
        try:
            x, y = m(a), m(b)
        except (Unknown, ZeroDivisionError, OverflowError, TypeError, ValueError, KeyError, AttributeError):
            decided = False
            continue
        if x != y:
            return m, x, y
    return True if decided else None
