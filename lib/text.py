"""Strings and string streams as values: hooks for summaries (cells of kind
"str") and a Model for their contents."""
import re
import vf
from vf import T, Int, lift
from interp import Unknown

STD = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"
EMPTY = T("text", "")


def spelled(A, mem, p):
    """the text a char const* points to"""
    def one(q):
        if q.op == "ptr" and q.args[0].op == "global":
            g = A.globals.get(q.args[0].args[0]) or {}
            if (g.get("init") or {}).get("k") == "str" and g.get("const"):
                return T("text", g["init"]["v"][q.args[1]:].split("\0")[0])
        if q.op == "ptr" and q.args[0].op == "chars" and q.args[1] == 0:
            return q.args[0].args[0]
        return T("cstr", q)
    return lift(one, p)


def short(dem):
    d = (dem or "").replace("[abi:cxx11]", "").replace(STD, "string").replace("std::__cxx11::", "")
    d = re.sub(r"basic_(i?o?stringstream)<char, std::char_traits<char>, std::allocator<char>>", r"\1", d)
    d = re.sub(r"std::basic_ostream<char, std::char_traits<char>>", "ostream", d)
    return d


def cat(a, b):
    if a is EMPTY:
        return b
    if b is EMPTY:
        return a
    if a.op == "text" and b.op == "text":
        return T("text", a.args[0] + b.args[0])
    return T("cat", a, b)


def padd(p, n):
    return lift(lambda q: T("ptr", q.args[0], q.args[1] + n) if q.op == "ptr" else T("ptr", q, n), p) if n else p


def hook(A, name, dem, i, args, mem):
    d = short(dem)
    if "string" not in d and "ostream" not in d:
        return NotImplemented
    get = lambda p: A.read(mem, "str", p)
    put = lambda p, v: A.write(mem, "str", p, v)
    c1 = lambda x: lift(lambda v: T("chr", v), x)
    join = lambda a, b: lift(cat, a, b)
    piece = lambda ty, x: get(x) if ty.startswith("string") else spelled(A, mem, x) if ty.startswith("char const*") else c1(x)
    # streams
    m = re.match(r"^(o?stringstream)::(~)?(?:basic_)?(o?stringstream)\((.*)\)$", d)
    if m:
        if m.group(2):
            return None
        at = padd(args[0], 16 if m.group(1) == "stringstream" else 0)
        if "string const&" in m.group(4) or "string&&" in m.group(4):
            put(at, get(args[1]))
        elif m.group(4) in ("", "std::_Ios_Openmode"):
            put(at, EMPTY)
        else:
            return NotImplemented
        return None
    m = re.match(r"^(?:string )?(o?stringstream)::str\((.*)\)( const)?(?: &| const&)?$", d)
    if m:
        off = 16 if m.group(1) == "stringstream" else 0
        if m.group(2) == "":
            put(args[0], get(padd(args[1], off)))
        else:
            put(padd(args[0], off), get(args[1]))
        return None
    if re.match(r"^ostream& (std::)?operator<<\s*<.*\(ostream&, (char|signed char|unsigned char)\)$", d):
        put(args[0], join(get(args[0]), c1(args[1])))
        return args[0]
    if re.match(r"^ostream& (std::)?operator<<\s*<.*\(ostream&, char const\*\)$", d):
        put(args[0], join(get(args[0]), spelled(A, mem, args[1])))
        return args[0]
    if re.match(r"^ostream& (std::)?operator<<\s*<.*\(ostream&, string const&\)$", d):
        put(args[0], join(get(args[0]), get(args[1])))
        return args[0]
    if re.match(r"^ostream::operator<<\((int|long|unsigned int|unsigned long|short|unsigned short|long long|unsigned long long)\)$", d) or re.match(r"^ostream& ostream::_M_insert<(long|unsigned long|long long|unsigned long long)>", d):
        put(args[0], join(get(args[0]), lift(lambda v: T("dec", v), args[1])))
        return args[0]
    if re.match(r"^ostream::put\(char\)$", d):
        put(args[0], join(get(args[0]), c1(args[1])))
        return args[0]
    # strings
    if re.match(r"^string::~basic_string\(", d):
        return None
    if re.match(r"^string::basic_string(<.*>)?\(", d):
        ps = d[d.index("(", d.index("basic_string")) + 1:]
        if ps.startswith("char const*, unsigned long"):
            put(args[0], lift(lambda s, n: T("substr", s, Int(0), n), spelled(A, mem, args[1]), args[2]))
        elif ps.startswith("char const*"):
            put(args[0], spelled(A, mem, args[1]))
        elif ps.startswith("unsigned long, char"):
            put(args[0], lift(lambda n, c: T("rep", n, c), args[1], args[2]))
        elif re.match(r"string const&, unsigned long(, unsigned long)?", ps):
            put(args[0], lift(lambda s, a, n: T("substr", s, a, n), get(args[1]), args[2], args[3] if "long, unsigned long" in ps else Int(-1)))
        elif ps.startswith("string const&") or ps.startswith("string&&"):
            v = get(args[1])
            put(args[0], v)
            if ps.startswith("string&&"):
                put(args[1], EMPTY)
        elif ps.startswith(")") or ps.startswith("std::allocator"):
            put(args[0], EMPTY)
        else:
            return NotImplemented
        return None
    m = re.match(r"^(?:string& )?string::(operator=|assign|operator\+=|append|push_back)\((.*)\)$", d)
    if m:
        op, ps = m.groups()
        add = op in ("operator+=", "append", "push_back")
        if ps in ("string const&", "string&&", "char const*", "char"):
            v = piece(ps, args[1])
        elif ps == "unsigned long, char":
            v = lift(lambda n, c: T("rep", n, c), args[1], args[2])
        elif ps == "string const&, unsigned long, unsigned long":
            v = lift(lambda s, a, n: T("substr", s, a, n), get(args[1]), args[2], args[3])
        elif ps == "char const*, unsigned long":
            v = lift(lambda s, n: T("substr", s, Int(0), n), spelled(A, mem, args[1]), args[2])
        else:
            return NotImplemented
        put(args[0], join(get(args[0]), v) if add else v)
        if ps == "string&&" and not add and args[0] is not args[1]:
            put(args[1], EMPTY)
        return args[0]
    m = re.match(r"^string::(size|length|empty)\(\) const$", d)
    if m:
        n = lift(lambda s: Int(len(s.args[0])) if s.op == "text" else T("slen", s), get(args[0]))
        return n if m.group(1) != "empty" else lift(lambda v: vf.icmp("eq", v, Int(0)), n)
    if re.match(r"^string::(clear)\(\)$", d):
        put(args[0], EMPTY)
        return None
    if re.match(r"^string::(pop_back)\(\)$", d):
        put(args[0], lift(lambda s: T("substr", s, Int(0), vf.add(T("slen", s), Int(-1))), get(args[0])))
        return None
    if re.match(r"^string::(c_str|data)\(\)( const)?$", d):
        return lift(lambda v: T("ptr", T("chars", v), 0), get(args[0]))
    m = re.match(r"^string::(operator\[\]|at|front|back)\((unsigned long)?\) const$", d)
    if m:
        s = get(args[0])
        k = args[1] if m.group(2) else Int(0) if m.group(1) == "front" else lift(lambda v: vf.add(T("slen", v), Int(-1)), s)
        return lift(lambda v, j: T("ptr", T("charat", v, j), 0), s, k)
    if re.match(r"^string::substr\(unsigned long, unsigned long\) const$", d):
        put(args[0], lift(lambda s, a, n: T("substr", s, a, n), get(args[1]), args[2], args[3]))
        return None
    if re.match(r"^(?:string& )?string::erase\(unsigned long, unsigned long\)$", d):
        put(args[0], lift(lambda s, a, n: T("erase", s, a, n), get(args[0]), args[1], args[2]))
        return args[0]
    m = re.match(r"^string::resize\(unsigned long(, char)?\)$", d)
    if m:
        put(args[0], lift(lambda s, n, c: T("resize", s, n, c), get(args[0]), args[1], args[2] if m.group(1) else Int(0, 8)))
        return None
    if re.match(r"^string::(reserve|shrink_to_fit)\(", d):
        return None
    m = re.match(r"^string (?:std::)?operator\+\s*<.*>\((string const&|string&&|char const\*|char), (string const&|string&&|char const\*|char)\)$", d)
    if m:
        put(args[0], join(piece(m.group(1), args[1]), piece(m.group(2), args[2])))
        return None
    if re.match(r"^(string )?std::to_string\(", d):
        put(args[0], lift(lambda v: T("dec", v), args[1]))
        return None
    m = re.match(r"^bool (?:std::)?operator(==|!=)<char.*>\(string const&, (char const\*|string const&)\)$", d)
    if m:
        r = lift(lambda x, y: vf.atom(T("same", *sorted((x, y), key=lambda t: t.id))), get(args[0]), piece(m.group(2), args[1]))
        return r if m.group(1) == "==" else vf.ite(r, vf.FALSE, vf.TRUE)
    return NotImplemented


class Text:
    """to be mixed into a Model: strings are Python strings"""

    def op_text(self, s):
        return s

    def op_cat(self, a, b):
        a, b = self(a), self(b)
        if not isinstance(a, str) or not isinstance(b, str):
            raise Unknown("not a string")
        return a + b

    def op_chr(self, c):
        return chr(int(self(c)) & 255)

    def op_dec(self, v):
        return str(int(self(v)))

    def op_rep(self, n, c):
        return chr(int(self(c)) & 255) * int(self(n))

    def op_slen(self, s):
        return len(self(s))

    def op_substr(self, s, a, n):
        s, a, n = self(s), int(self(a)), int(self(n)) & ((1 << 64) - 1)
        if not 0 <= a <= len(s):
            raise Unknown("substring out of range")
        return s[a:a + n]

    def op_erase(self, s, a, n):
        s, a, n = self(s), int(self(a)), int(self(n)) & ((1 << 64) - 1)
        return s[:a] + s[a + n:]

    def op_resize(self, s, n, c):
        s, n = self(s), int(self(n))
        return s[:n] + chr(int(self(c)) & 255) * (n - len(s))

    def op_same(self, a, b):
        return int(self(a) == self(b))

    def op_in(self, kind, root, off):
        if kind == "raw1" and root.op == "charat":
            s, k = self(root.args[0]), int(self(root.args[1])) + off
            if not 0 <= k < len(s):
                raise Unknown("character out of range")
            c = ord(s[k])
            return c - 256 if c > 127 else c
        return super().op_in(kind, root, off)
