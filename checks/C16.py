"""What serialization writes, deserialization reads back."""
from world import *
import interp
import seq
import unroll

STD = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"


def text(A, mem, p):
    """what a char const* spells"""
    def one(q):
        if q.op == "ptr" and q.args[0].op == "global":
            g = A.globals.get(q.args[0].args[0]) or {}
            if (g.get("init") or {}).get("k") == "str" and g.get("const"):
                return T("text", g["init"]["v"][q.args[1]:].split("\0")[0])
        if q.op == "ptr" and q.args[0].op == "chars":
            return q.args[0].args[0]
        return T("cstr", q)
    return lift(one, p)


def strings(A, name, dem, i, args, mem):
    """strings are what they spell"""
    d = (dem or "").replace(STD, "string").replace("[abi:cxx11]", "")
    if "string" not in d:
        return NotImplemented
    if re.match(r"^string::basic_string(<.*>)?\(char const\*", d):
        A.write(mem, "str", args[0], text(A, mem, args[1]))
        return None
    if re.match(r"^string::basic_string\(string( const&|&&)(, .*)?\)", d):
        A.write(mem, "str", args[0], A.read(mem, "str", args[1]))
        return None
    if re.match(r"^string::basic_string\(", d):
        A.write(mem, "str", args[0], T("text", ""))
        return None
    if re.match(r"^string::~basic_string\(", d):
        return None
    if re.match(r"^string::(c_str|data)\(\) const", d):
        return lift(lambda v: T("ptr", T("chars", v), 0), A.read(mem, "str", args[0]))
    if re.match(r"^string::(operator=|assign)\((string( const&|&&))\)", d):
        A.write(mem, "str", args[0], A.read(mem, "str", args[1]))
        return args[0]
    if re.match(r"^string::(operator=|assign)\(char const\*\)", d):
        A.write(mem, "str", args[0], text(A, mem, args[1]))
        return args[0]
    m = re.match(r"^bool std::operator(==|!=)<char.*>\(string const&, (char const\*|string const&)\)", d) or re.match(r"^string::(compare)\((char const\*|string const&)\) const", d)
    if m:
        other = text(A, mem, args[1]) if m.group(2) == "char const*" else A.read(mem, "str", args[1])
        def same(x, y):
            if x.op == "text" and y.op == "text":
                return vf.TRUE if x is y else vf.FALSE
            x, y = sorted((x, y), key=lambda t: (t.op == "text", repr(t)))
            return vf.atom(T("same", x, y))
        r = lift(same, A.read(mem, "str", args[0]), other)
        if m.group(1) == "==":
            return r
        if m.group(1) == "!=":
            return vf.ite(r, vf.FALSE, vf.TRUE)
        return vf.ite(r, Int(0, 32), Int(1, 32))
    return edits(A, d, args, mem)


ASKS = "size length empty find rfind find_first_of find_last_of find_first_not_of find_last_not_of back front operator[] at".split()
EDITS = "pop_back erase resize push_back append operator+= clear".split()


def edits(A, d, args, mem):
    """functions of strings that look at or change characters: terms, which Spelled can compute"""
    m = re.match(r"^string::(operator\[\]|operator\+=|\w+)\(([^()]*)\)( const)?$", d)
    sub = m and m.group(1) == "substr"
    if not m or not (sub or m.group(1) in ASKS + EDITS):
        return NotImplemented
    name, ps = m.group(1), [p.strip() for p in m.group(2).split(",") if p.strip()]
    if any("iterator" in p or "initializer" in p for p in ps):
        return NotImplemented
    first = 2 if sub else 1
    more = []
    for p, a in zip(ps, args[first:]):
        more.append(A.read(mem, "str", a) if p == "string const&" else text(A, mem, a) if p == "char const*" else a)
    if len(more) != len(ps):
        return NotImplemented
    old = A.read(mem, "str", args[first - 1])
    if sub:
        A.write(mem, "str", args[0], T("edited", name, old, *more))
        return None
    if name in ("back", "front", "operator[]", "at"):
        k = T("ask", "size", old) if name == "back" else more[0] if more else Int(0, 64)
        return T("ptr", T("charat", old, k, Int(1 if name == "back" else 0, 64)), 0)
    if name in ASKS:
        return T("ask", name, old, *more)
    A.write(mem, "str", args[0], T("edited", name, old, *more))
    return args[0]


class Spelled(interp.Model):
    """strings with the number that was written standing for a certain text"""

    def __init__(self, said):
        super().__init__({})
        self.said = said

    def num(self, t):
        v = self(t)
        if not isinstance(v, int):
            raise interp.Unknown("number")
        return v

    def string(self, t):
        v = self(t)
        if not isinstance(v, str):
            raise interp.Unknown("string")
        return v

    def op_dump(self, k, x):
        return self.said

    def op_digits(self, k, base, x):
        return self.said

    def op_text(self, x):
        return x

    def op_ask(self, name, s, *a):
        s = self.string(s)
        if name in ("size", "length"):
            return len(s)
        if name == "empty":
            return not s
        what = self(a[0])
        what = what if isinstance(what, str) else chr(what & 255)
        pos = self.num(a[1]) if len(a) > 1 else 0
        if len(a) > 2:
            what = what[:self.num(a[2])]
        npos = -1
        pos = len(s) if pos < 0 else pos
        if name == "find":
            return s.find(what, pos) if pos <= len(s) else npos
        if name == "rfind":
            return s.rfind(what, 0, pos + len(what))
        ks = [k for k, c in enumerate(s) if (c in what) == ("not" not in name)]
        if "first" in name:
            ks = [k for k in ks if k >= pos]
            return ks[0] if ks else npos
        ks = [k for k in ks if k <= pos]
        return ks[-1] if ks else npos

    def op_in(self, kind, root, off):
        if kind == "raw1" and root.op == "charat":
            s, k = self.string(root.args[0]), self.num(root.args[1]) - root.args[2].args[0] + off
            if k == len(s):
                return 0
            if 0 <= k < len(s):
                return ord(s[k])
        raise interp.Unknown("in " + kind)

    def op_edited(self, name, s, *a):
        s = self.string(s)
        if name == "substr" or name == "erase":
            pos = self.num(a[0]) if a else 0
            n = self.num(a[1]) if len(a) > 1 else -1
            if pos < 0 or pos > len(s):
                raise interp.Unknown("out of range")
            end = len(s) if n < 0 else min(len(s), pos + n)
            return s[pos:end] if name == "substr" else s[:pos] + s[end:]
        if name == "pop_back" and s:
            return s[:-1]
        if name == "clear":
            return ""
        if name == "push_back":
            return s + chr(self.num(a[0]) & 255)
        if name == "resize" and len(a) == 1 and 0 <= self.num(a[0]) <= len(s):
            return s[:self.num(a[0])]
        if name in ("append", "operator+=") and len(a) == 1:
            v = self(a[0])
            return s + (v if isinstance(v, str) else chr(v & 255))
        raise interp.Unknown(name)


def number(kind, said):
    """what is read from a text; None: nothing"""
    def hexa(x):
        if not re.fullmatch(r"-?[0-9a-f]+", x):
            raise ValueError
        return int(x, 16)
    try:
        if kind == "arf":
            if said in ("nan", "+inf", "-inf"):
                return said
            m, e = [hexa(x) for x in said.split(" ")]
            while m and m % 2 == 0:
                m, e = m // 2, e + 1
            return m, e if m else 0
        p = said.split(" ")
        return tuple(number("arf", " ".join(p[k:k + 2])) for k in (0, 2)) if len(p) == 4 else None
    except ValueError:
        return None


ARFS = ["0 0", "1 0", "-1 0", "1 1", "3 -5", "-7 10", "1 -10", "1 100", "ff 4", "abcdef123 -20", "1 -400", "5 f", "-9 -f0"]
SAYS = {"arf": ARFS, "arb": ["%s %s" % (x, r) for x in ARFS for r in ("0 0", "1 -10", "5 -3", "7 10")]}


def altered(got, want):
    """a text that a number is written as and which is read as another one, if there is one among some"""
    ds = {t for t in vf.walk(got) if t.op == "dump"}
    if len(ds) != 1 or want.op != "in":
        return None
    kind, x = ds.pop().args
    if kind not in SAYS or x is not want:
        return None
    for said in SAYS[kind]:
        m = Spelled(said)

        def read(t):
            if t is want:
                return number(kind, said)
            if t.op == "ite":
                return read(t.args[1] if m.holds(t.args[0]) else t.args[2])
            if t.op == "parsed" and len(t.args) == 1:
                return number(kind, m.string(t.args[0]))
            raise interp.Unknown(t.op)
        try:
            if read(got) != number(kind, said):
                return said
        except (interp.Unknown, TypeError):
            pass
    return None


def casts(A, name, dem, i, args, mem):
    if name == "__dynamic_cast":
        A.event(i, "dynamic_cast", args)
        return args[0]
    return NotImplemented


RAW = {"unsigned int": "raw4", "int": "raw4", "long": "raw8", "unsigned long": "raw8"}
KINDS = {"string": "str", "rational": "mpq", "Arf": "arf", "number": "raw8", "map": "map"}


def tag(sig):
    """the type of value an overload of save or load is about"""
    s = sig.replace(STD, "string")
    s = s[s.index("(") + 1:]
    s = s.split(",", 1)[1].strip().rsplit(")", 1)[0]
    s = re.sub(r"^(.*?)( const)?&?$", r"\1", s)
    if s == "string":
        return "string"
    if s.startswith("__gmp_expr<__mpq"):
        return "rational"
    if s.startswith("exactreal::Arf"):
        return "Arf"
    if s.startswith("std::map<"):
        return "map"
    if s.startswith("std::shared_ptr<exactreal::RealNumber"):
        return "number"
    return s


def nulls(A, name, dem, i, args, mem):
    """comparing shared pointers to null, names of types to each other"""
    m = re.match(r"^bool std::operator(==|!=)<[^()]*>\(std::shared_ptr<.*> const&, std::nullptr_t\)", dem or "")
    if m:
        r = vf.icmp("eq", A.read(mem, "raw8", args[0]), T("null"))
        return r if m.group(1) == "==" else Not(r)
    if name == "strcmp":
        x, y = (text(A, mem, a) for a in args)
        if x.op == y.op == "text":
            return Int(0 if x is y else 1, 32)
    return NotImplemented


def constants(A, name, dem, i, args, mem):
    """comparisons of Arfs that are made from integers"""
    m = re.match(r"^exactreal::Arf::Arf\((int|long|unsigned int|unsigned long)\)$", dem or "")
    if m and vf.isint(args[1]):
        A.write(mem, "arf", args[0], T("arfint", args[1].args[0]))
        return None
    m = re.match(r"^exactreal::Arf::operator(==|<|>)\((exactreal::Arf const&|int|long|long long)\) const$", dem or "")
    if m:
        x = A.read(mem, "arf", args[0])
        y = A.read(mem, "arf", args[1]) if "Arf" in m.group(2) else T("arfint", args[1].args[0]) if vf.isint(args[1]) else args[1]
        if x.op == y.op == "arfint":
            a, b = x.args[0], y.args[0]
            return TRUE if {"==": a == b, "<": a < b, ">": a > b}[m.group(1)] else FALSE
    return NotImplemented


def fresh(A, name, dem, i, args, mem):
    """a factory that has not seen anything yet"""
    if name == "verif_factory_lookup":
        return FALSE
    return NotImplemented


def callee(A, name):
    """the function that is called, also through a table of functions"""
    if name is not None:
        return name
    t = A.target
    return t.args[0].args[0] if t is not None and t.op == "ptr" and t.args[0].op == "fn" else None


def mute(lab, memo):
    """a virtual conversion to a rational that gives nothing for a class, always"""
    def hook(A, name, dem, i, args, mem):
        n = callee(A, name)
        if n is None or len(args) != 2:
            return NotImplemented
        if n not in memo:
            memo[n] = None
            fn = [f for f in lab.fns if f["name"] == n and "operator std::optional<__gmp_expr<__mpq" in f["dem"]]
            if fn:
                B, s = lab.run(fn[0])
                cells = {(k, o): v for (k, r, o), v in s.mem.cells.items() if r is T("arg", 0) and v.op not in ("gone", "undef")} if s.mem else {}
                flag = [(k, v) for k, v in cells.items() if k[0] == "raw1"]
                if len(flag) == 1 and vf.isint(flag[0][1]) and flag[0][1].args[0] == 0:
                    memo[n] = flag[0][0]
        if memo[n]:
            A.write(mem, "raw1", T("ptr", args[0].args[0], args[0].args[1] + memo[n][1]), Int(0, 8))
            return None
        return NotImplemented
    return hook


def bases(g, table, seen=None):
    """the typeinfos below a typeinfo"""
    out = set()

    def go(v):
        if isinstance(v, dict):
            n = v.get("name", "")
            if v.get("k") == "global" and n.startswith("_ZTI"):
                if n not in out:
                    out.add(n)
                    if n in table:
                        go(table[n].get("init"))
            for x in v.values():
                go(x)
        elif isinstance(v, list):
            for x in v:
                go(x)
    go(g.get("init"))
    return out


def kinds(lab):
    """the concrete classes of real numbers: {vtable: demangled name}"""
    out = {}
    for n, g in lab.globals.items():
        if n.startswith("_ZTV") and (g.get("init") or {}).get("k") == "agg":
            if "_ZTIN9exactreal10RealNumberE" in bases(g, lab.globals) and "__cxa_pure_virtual" not in repr(g["init"]):
                out[n] = g["dem"].replace("vtable for ", "")
    return out


def product(lab, hooks):
    """a virtual call that makes a new real number: the class of what it makes"""
    def hook(A, name, dem, i, args, mem):
        n = callee(A, name)
        if n is None or len(args) != 3:
            return NotImplemented
        fn = [f for f in lab.fns if f["name"] == n and re.search(r"::operator\*\(exactreal::RealNumber const&\) const$", f["dem"])]
        if not fn:
            return NotImplemented
        cells = {}
        for k in (1, 2):
            cells[("raw8", T("arg", k), 0)] = A.read(mem, "raw8", args[k])
        B, s = lab.run(fn[0], on_call=chain(*hooks), init_cells=cells)
        made = B.read(s.mem, "raw8", T("ptr", T("arg", 0), 0)) if s.mem else T("undef")
        if not s.mem or any(q.op != "ptr" or q.args[0].op != "heap" for q in vf.leaves(made)):
            return NotImplemented
        tables = {t for q in vf.leaves(made) if q.op == "ptr" for t in vf.leaves(B.read(s.mem, "raw8", q)) if t.op == "ptr" and t.args[0].op == "global"}
        if len(tables) != 1:
            return NotImplemented
        table = tables.pop()
        root = T("heap", i["id"])
        A.write(mem, "raw8", args[0], T("ptr", root, 0))
        A.write(mem, "raw8", T("ptr", args[0].args[0], args[0].args[1] + 8), T("null"))
        A.write(mem, "raw8", T("ptr", root, 0), table)
        return None
    return hook



class Ledger:
    """what a saver hands out in order, and what a loader asks for"""

    def __init__(self):
        self.puts = []
        self.order = []

    def put(self, A, i, label, what, v):
        A.event(i, "put", [label, T(what), v])

    def close(self, s):
        """the entries; an explanation if they are not always written"""
        why = None
        for e in s.events:
            if e["name"] == "put":
                self.puts.append((e["args"][0], e["args"][1].op, e["args"][2], e["pc"]))
        return why

    def get(self, A, i, label, what, p):
        """the entry for this instruction: None when there is no counterpart"""
        if i["id"] not in self.order:
            self.order.append(i["id"])
        n = self.order.index(i["id"])
        A.event(i, "get", [label, T(what), p], extra=n)
        if n < len(self.puts):
            return self.puts[n][2]
        return T("field", i["id"])


def settled(pc):
    """pc, up to the assumption that loops end"""
    return exists(pc, lambda a: any(x.op == "loop" for x in vf.walk(a)))


def agree(rep, key, ledger, s, equal=lambda a, b: a == b, allow=lambda a, b: False):
    """the loader's requests are the saver's entries"""
    gets = [e for e in s.events if e["name"] == "get"]
    good = True
    for e in gets:
        n = e["extra"]
        label, what = e["args"][0], e["args"][1].op
        if n >= len(ledger.puts):
            rep.ob(key + " entries", False, "the loader reads an entry %r that the saver does not write" % (label,), common.where(e["ins"]))
            return False
        l, w, v, pc = ledger.puts[n]
        if label.op == "text" and l.op == "text" and label is not l:
            rep.ob(key + " entries", False, "the saver writes %r where the loader reads %r" % (l.args[0], label.args[0]), common.where(e["ins"]))
            return False
        if not equal(w, what):
            rep.ob(key + " entries", False, "the saver writes a %s where the loader reads a %s (entry %d)" % (w, what, n), common.where(e["ins"]))
            return False
        if settled(e["pc"]) is not settled(pc) and not allow(e["pc"], pc):
            known = (settled(e["pc"]) is TRUE or msb(e["pc"])) and (settled(pc) is TRUE or msb(pc))
            if known:
                rep.ob(key + " entries", False, "entry %d is written when %r and read when %r" % (n, pc, e["pc"]), common.where(e["ins"]))
                return False
            good = None
    if len({e["extra"] for e in gets}) < len(ledger.puts):
        rep.ob(key + " entries", False, "the saver writes %d entries, the loader reads %d" % (len(ledger.puts), len({e["extra"] for e in gets})), "")
        return False
    rep.ob(key + " entries", good, "" if good else "entries are read under other conditions than they are written")
    return good


def interface(tables, ledger, where):
    """calls of the (de)serializer through its table of functions"""
    table = tables[where]

    def hook(A, name, dem, i, args, mem):
        if name is not None or A.target is None or len(args) != 3:
            return NotImplemented
        t, recv = A.target, args[0]
        if t.op == "ptr" and t.args[1] == 0:
            t = t.args[0]
        if t.op != "in" or recv.op != "ptr" or recv.args[0].op != "arg" or t.args[2] % 8 or t.args[2] // 8 >= len(table):
            return NotImplemented
        what, label = table[t.args[2] // 8], A.read(mem, "str", args[1])
        kind = KINDS.get(what) or RAW.get(what, "cxx")
        if where == "save":
            byref = what not in RAW
            ledger.put(A, i, label, what, A.read(mem, kind, args[2]) if byref else args[2])
            return None
        v = ledger.get(A, i, label, what, args[2])
        if what == "map" and v.op != "text":
            v = T("field", label)
        if what == "number" and v.op != "ptr":
            v = T("ptr", v, 0)
        A.write(mem, kind, args[2], v)
        if what == "number":
            A.write(mem, "raw8", seq.shift(args[2], 8), T("ptr", T("owner", v), 0))
        return None
    return hook


def copies(A, name, dem, i, args, mem):
    """copies of Arfs"""
    if re.match(r"^exactreal::Arf::(Arf|operator=)\(exactreal::Arf( const&|&&)\)$", dem or ""):
        A.write(mem, "arf", args[0], A.read(mem, "arf", args[1]))
        return args[0] if "operator=" in dem else None
    if re.match(r"^exactreal::Arf::~Arf\(\)$", dem or ""):
        return None
    return NotImplemented


def bare(v):
    """a value without the pointer arithmetic around it"""
    while v.op == "ptr" and v.args[1] == 0:
        v = v.args[0]
    return v


UNITS = ["real_number", "rational_real_number", "random_real_number", "constrained_random_real_number", "real_number_product"]
ROOTS = r"exactreal::RealNumber::(save|load)\(|_GLOBAL__sub_I_real_number.cc|operator std::optional<__gmp_expr<__mpq|^exactreal::RealNumber::operator\*\(exactreal::RealNumber const&\) const|^_ZZ.*4load.*K3\$_[0-9]+clI|erealizer<verif_driver|verif_driver::"
OPQ = common.OPAQUE + r"|^.*verif_(save|load)<|SharedPointer|^(void )?" + unroll.REFCOUNT + r"|std::random_device" + seq.OPAQUE
TABLES = r"""
template <typename T> void verif_save(const char*, const T&);
template <typename T> void verif_load(const char*, T&);
struct Out {
  template <typename... T> void operator()(T&&... t) { (put(t), ...); }
  template <typename T> void put(const cereal::NameValuePair<T>& n) { verif_save<std::decay_t<T>>(n.name, n.value); }
  template <typename T> void put(const T& v) { verif_save<T>(nullptr, v); }
  template <typename T> std::uint32_t registerSharedPointer(const T&);
};
struct In {
  template <typename... T> void operator()(T&&... t) { (get(t), ...); }
  template <typename T> void get(const cereal::NameValuePair<T>& n) { verif_load<std::decay_t<T>>(n.name, const_cast<std::decay_t<T>&>(n.value)); }
  template <typename T> void get(cereal::NameValuePair<T>& n) { verif_load<std::decay_t<T>>(n.name, const_cast<std::decay_t<T>&>(n.value)); }
  template <typename T> void get(T& v) { verif_load<T>(nullptr, v); }
  void registerSharedPointer(std::uint32_t, std::shared_ptr<void>);
  std::shared_ptr<void> getSharedPointer(std::uint32_t);
};
"""
PAIRS = [("Arb", "Arb"), ("Arf", "Arf"), ("Real", "std::shared_ptr<const RealNumber>")]
CODE = TABLES + """
void save_Arb(Out& a, const Arb& x) { save(a, x); }
void load_Arb(In& a, Arb& x) { load(a, x); }
void save_Arf(Out& a, const Arf& x) { save(a, x); }
void load_Arf(In& a, Arf& x) { load(a, x); }
void save_Field(Out& a, NumberField& x) { serialize(a, x); }
void load_Field(In& a, NumberField& x) { serialize(a, x); }
void save_Integers(Out& a, IntegerRing& x) { serialize(a, x); }
void load_Integers(In& a, IntegerRing& x) { serialize(a, x); }
void save_Rationals(Out& a, RationalField& x) { serialize(a, x); }
void load_Rationals(In& a, RationalField& x) { serialize(a, x); }
std::string save_mpz(const Out& a, const CerealWrap<mpz_class>& x) { return save_minimal(a, x); }
void load_mpz(const In& a, CerealWrap<mpz_class>& x, const std::string& s) { load_minimal(a, x, s); }
std::string save_mpq(const Out& a, const CerealWrap<mpq_class>& x) { return save_minimal(a, x); }
void load_mpq(const In& a, CerealWrap<mpq_class>& x, const std::string& s) { load_minimal(a, x, s); }
void save_Real(Out& a, const std::shared_ptr<const RealNumber>& x) { cereal::save(a, x); }
void load_Real(In& a, std::shared_ptr<const RealNumber>& x) { cereal::load(a, x); }
""" + "".join("""
void save_Element_%s(Out& a, const Element<%s>& x) { save(a, x); }
void load_Element_%s(In& a, Element<%s>& x) { load(a, x); }
void save_Module_%s(Out& a, const std::shared_ptr<const Module<%s>>& x) { cereal::save(a, x); }
void load_Module_%s(In& a, std::shared_ptr<const Module<%s>>& x) { cereal::load(a, x); }
void load_Archived_%s(In& a, ArchivedModule<%s>& x) { cereal::load(a, x); }
""" % ((r,) * 10) for r in ("IntegerRing", "RationalField", "NumberField")) + """
}
template struct exactreal::Cerealizer<verif_driver::Out>;
template struct exactreal::Decerealizer<verif_driver::In>;
namespace verif_driver {
"""
RINGS = {"IntegerRing": "mpz", "RationalField": "mpq", "NumberField": "renf_elem"}
INCLUDES = ["exact-real/cereal.hpp", "exact-real/integer_ring.hpp", "exact-real/rational_field.hpp", "exact-real/number_field.hpp"]


def bridge(ledger, mode):
    """calls of the archive, and what the library provides, for one side of a round trip"""
    def hook(A, name, dem, i, args, mem):
        d = dem or ""
        m = re.match(r"^void verif_driver::verif_(save|load)<(.*)>\(char const\*, ", d)
        if m:
            s = m.group(2).replace(STD, "string")
            label = text(A, mem, args[0])
            if label.op == "cstr":
                label = T("unnamed")
            m2 = re.match(r"^exactreal::ArchivedModule<(.*)>$", s)
            kind = "vec" if s.startswith("std::vector<") else "map" if s.startswith("std::map<") else {"string": "str", "double": "fp8", "unsigned int": "raw4", "int": "raw4", "long": "raw8", "exactreal::Arf": "arf", "exactreal::Arb": "arb"}.get(s, "raw8" if s.startswith("std::shared_ptr<") else "cxx")
            what = "std::shared_ptr<exactreal::Module<%s> const>" % m2.group(1) if m2 else s
            if m.group(1) == "save":
                ledger.put(A, i, label, what, A.read(mem, kind, args[1]))
                return None
            v = ledger.get(A, i, label, what, args[1])
            if m2:
                A.write(mem, "raw8", args[1], v if v.op == "ptr" else T("ptr", v, 0))
                A.write(mem, "raw8", seq.shift(args[1], 8), T("ptr", T("owner", v), 0))
                A.write(mem, "vec", seq.shift(args[1], 16), T("listed", v))
                return None
            if kind == "raw8" and s.startswith("std::shared_ptr<"):
                v = v if v.op == "ptr" else T("ptr", v, 0)
                A.write(mem, "raw8", seq.shift(args[1], 8), T("ptr", T("owner", v), 0))
            if kind == "cxx" and v.op == "in" and v.args[0] == "cxx":
                p = args[1]
                for k in [k for k in mem.cells if p.op == "ptr" and k[1] is p.args[0] and k[2] == p.args[1] and not k[0].startswith("life:")]:
                    del mem.cells[k]
            A.write(mem, kind, args[1], v)
            return None
        if re.search(r"verif_driver::Out::registerSharedPointer<", d):
            A.event(i, "shared", [A.read(mem, "raw8", args[1])])
            return T("id")
        if d.startswith("verif_driver::In::registerSharedPointer("):
            A.event(i, "register", [args[1], A.read(mem, "raw8", args[2])], extra=mem.clone())
            return None
        if d.startswith("verif_driver::In::getSharedPointer("):
            A.event(i, "known", [args[2]])
            A.write(mem, "raw8", args[0], T("ptr", T("heap", "known"), 0))
            A.write(mem, "raw8", seq.shift(args[0], 8), T("ptr", T("owner", T("known")), 0))
            return None
        m = re.match(r"^exactreal::RealNumber::(save|load)\(", d)
        if m:
            if m.group(1) == "save":
                ledger.put(A, i, T("inline"), "real number", A.read(mem, "raw8", args[1]))
            else:
                v = ledger.get(A, i, T("inline"), "real number", args[1])
                A.write(mem, "raw8", args[1], v if v.op == "ptr" else T("ptr", v, 0))
                A.write(mem, "raw8", seq.shift(args[1], 8), T("ptr", T("owner", v), 0))
            return None
        m = re.match(r"^exactreal::Module<(\w+::)?(\w+)>::(make|basis|ring|rank)\(", d)
        if m:
            what = m.group(3)
            if what == "make":
                A.event(i, "make", [A.read(mem, "vec", args[1])], extra=(A.read(mem, "cxx", args[2]), mem.clone(), args[2]))
                A.write(mem, "raw8", args[0], T("ptr", T("heap", i["id"]), 0))
                A.write(mem, "raw8", seq.shift(args[0], 8), T("ptr", T("owner", T("heap", i["id"])), 0))
                return None
            who = bare(args[0])
            if what == "rank":
                return T("rank", who)
            return T("ptr", T(what, who), 0)
        m = re.match(r"^exactreal::Element<(\w+::)?(\w+)>::(module\(\) const|operator\[\]\((?:long|unsigned long)\) const|Element\(std::shared_ptr)", d)
        if m:
            if m.group(3).startswith("module"):
                A.write(mem, "raw8", args[0], T("ptr", T("parent", bare(args[1])), 0))
                A.write(mem, "raw8", seq.shift(args[0], 8), T("ptr", T("owner", T("parent", bare(args[1]))), 0))
                return None
            if m.group(3).startswith("operator[]"):
                A.write(mem, RINGS[m.group(2)], args[0], T("coefficient", bare(args[1]), seq.strip(args[2])))
                return None
            A.event(i, "element", [A.read(mem, "raw8", args[1]), A.read(mem, "vec", args[2])])
            A.write(mem, "raw8", args[0], T("ptr", T("heap", i["id"]), 0))
            return None
        if re.match(r"^exactreal::(Arb::arb_t|Arf::arf_t)\(\)( const)?$", d):
            return args[0]
        if re.match(r"^exactreal::Ar[bf]::operator double\(\) const$", d):
            return T("double", A.read(mem, d[11:14].lower(), args[0]))
        # texts of numbers
        m = re.match(r"^(arb|arf)_dump_str$", name or "")
        if m:
            return T("ptr", T("chars", T("dump", m.group(1), A.read(mem, m.group(1), args[0]))), 0)
        m = re.match(r"^(arb|arf)_load_str$", name or "")
        if m:
            v = text(A, mem, args[1])
            ok = v.op == "dump" and v.args[0] == m.group(1)
            A.write(mem, m.group(1), args[0], v.args[1] if ok else T("parsed", v))
            return Int(0, 32) if ok else T("parse error", v)
        m = re.match(r"^__gmp([zq])_get_str$", name or "")
        if m and args[0].op == "null" and vf.isint(args[1]):
            k = "mp" + m.group(1)
            return T("ptr", T("chars", T("digits", k, args[1].args[0], A.read(mem, k, args[2]))), 0)
        m = re.match(r"^__gmp([zq])_(init_)?set_str$", name or "")
        if m and vf.isint(args[2]):
            k = "mp" + m.group(1)
            v = text(A, mem, args[1])
            ok = v.op == "digits" and (v.args[0] == k or v.args[0] == "mpz") and args[2].args[0] in (v.args[1], 0 if v.args[1] == 10 else v.args[1])
            A.write(mem, k, args[0], v.args[2] if ok else T("parsed", args[2], v))
            if m.group(2):
                A.catalog.alive(A, mem, k, args[0], "live")
            return Int(0, 32) if ok else T("parse error", v)
        return NotImplemented
    return hook


def real_kinds(lab, tables, rep):
    base = [fresh, constants, nulls, mute(lab, {}), copies, unroll.refcounts, strings, casts, *seq.HOOKS, factory]
    init = lab.find(r"^_GLOBAL__sub_I_real_number.cc")[0]
    A, s = lab.run(init, on_call=chain(product(lab, base), *base))
    env = {}
    for e in s.events:
        if e["name"] == "store" and e["args"][0].op == "ptr" and e["args"][0].args[0].op == "global":
            # an initialisation that throws ends the program
            p, v = e["args"]
            vs = {l for _, l in relevant(v, e["pc"])}
            v = vs.pop() if len(vs) == 1 else v
            if v.op == "ptr" and v.args[0].op == "global" and e["pc"] is not FALSE:
                k = ("raw8",) + p.args
                env[k] = v if env.get(k, v) is v else T("several", env[k], v)
    rep.count("constants of types", len(env))
    save = lab.find(r"^exactreal::RealNumber::save\(")[0]
    load = lab.find(r"^exactreal::RealNumber::load\(")[0]
    ks = kinds(lab)
    rep.floor("kinds of real numbers", len(ks), 4)
    if len(env) < len(ks):
        # which saver is used depends on types that are not known
        rep.ob("kinds", None, "the types of %d of %d kinds of numbers" % (len(env), len(ks)))
        return
    for vt, nm in sorted(ks.items()):
        key = nm.split("::")[-1]
        num = T("heap", "number")
        cells = dict(env)
        cells[("raw8", T("arg", 1), 0)] = T("ptr", num, 0)
        cells[("raw8", num, 0)] = T("ptr", T("global", vt), 16)
        ledger = Ledger()
        A, s = lab.run(save, on_call=chain(constants, nulls, copies, unroll.refcounts, strings, casts, interface(tables, ledger, "save"), *seq.HOOKS, factory), init_cells=cells)
        ledger.close(s)
        saved = s
        und = s.undecided
        throws = [e for e in s.events if e["name"] == "throw"]
        if any(settled(e["pc"]) is TRUE for e in throws) or not ledger.puts:
            rep.ob(key + " is saved", False if not und else None, "saving such a number always throws", common.where(throws[0]["ins"]) if throws else "")
            continue
        rep.ob(key + " is saved", True if not throws else None, "saving may throw" if throws else "")
        A, s = lab.run(load, on_call=chain(constants, nulls, copies, unroll.refcounts, strings, casts, interface(tables, ledger, "load"), *seq.HOOKS, factory))
        throws = [e for e in s.events if e["name"] == "throw"]
        if any(settled(e["pc"]) is TRUE for e in throws) and not [e for e in s.events if e["name"] == "register"]:
            rep.ob(key + " is loaded", False if not s.undecided else None, "loading what has been saved for such a number always throws", common.where(throws[0]["ins"]))
            continue
        if agree(rep, key, ledger, s) is False:
            continue
        regs = [e for e in s.events if e["name"] == "register" and e["pc"] is not FALSE]
        if len(regs) != 1 or und or s.undecided:
            rep.ob(key + " is loaded", None, "%d objects are made; %s" % (len(regs), "; ".join(und + s.undecided)[:200]))
            continue
        fkey, obj, mem = regs[0]["extra"]
        place = common.where(regs[0]["ins"])
        table = A.read(mem, "raw8", obj)
        rep.ob(key + " is loaded", True if table is T("ptr", T("global", vt), 16) else False if table.op == "ptr" and table.args[0].op == "global" else None, "the object that is made has table %r" % (table,), place)
        # what is returned: the new object or the one that is known under the key
        got = A.read(s.mem, "raw8", T("ptr", T("arg", 1), 0))
        bad = [l for g, l in relevant(got, s.retpc) if not (l is obj or l.op == "ptr" and l.args[0].op == "pooled")]
        rep.ob(key + " is returned", None if bad else True, "may return %r" % bad[:1], place)
        state(rep, key, A, saved, s, ledger, obj, mem, fkey, place, num, lab)


def inputs(t):
    return {x for x in vf.walk(t) if x.op == "in"}


def state(rep, key, A, saved, s, ledger, obj, mem, fkey, place, num, lab):
    root, off0 = obj.args
    want = {}
    for l, w, v, pc in ledger.puts[1:]:
        for x in inputs(v):
            if x.args[1] is num:
                want[(x.args[0], x.args[2])] = (l, x)
    made = {}
    for (k, r, o), v in mem.cells.items():
        if r is root and o - off0 >= 184 and not k.startswith("life:") and v.op not in ("gone", "undef") and not any(x.op == "owner" for x in [bare(v)]):
            made[(k, o - off0)] = v
    if any(w == "map" for _, w, _, _ in ledger.puts):
        factors(rep, key, saved, s, ledger, A, obj, mem, place, num, lab)
        want = {}
        made = {}
    for (k, o), (l, x) in sorted(want.items()):
        v = A.read(mem, k, T("ptr", root, off0 + o))
        same = bare(v) is x
        decided = not any(y.op in ("undef", "mixed", "callret", "call", "unknown") for y in vf.walk(v))
        rep.ob("%s field %s at %d" % (key, k, o), True if same else False if decided else None, "what is saved from here is loaded as %r" % (v,), place)
        used = any(mentions(y, x) for v2 in fkey.values() for y in vf.leaves(v2))
        rep.ob("%s identity has %s at %d" % (key, k, o), True if used else None if any(y.op in ("call", "mixed", "unknown") for v2 in fkey.values() for y in vf.walk(v2)) else False, "numbers with different values here are looked up under the same key", place)
    covered = set(want)
    for (k, o), v in sorted(made.items(), key=lambda e: (e[0][1], e[0][0])):
        if any(k == "mpz" and (("mpq", o) in covered or ("mpq", o - 16) in covered) or (k, o) == c for c in covered):
            continue
        src = inputs(v)
        if not src and not any(x.op == "loop" for x in vf.walk(v)):
            rep.ob("%s state %s at %d" % (key, k, o), None, "set to %r for each number that is loaded" % (v,), place)


def factors(rep, key, saved, s, ledger, A, obj, mem, place, num, lab):
    """the map of factors: written from parallel vectors, read back into them"""
    entry = [p for p in ledger.puts if p[1] == "map"][0]
    v = entry[2]
    done = False
    vecs = []
    if v.op == "loop":
        L = seq.Loop(saved, v.args[0])
        dom = L.domain()
        if dom and v in L.vars:
            idx, first, bound = dom
            init, nxt = L.body(v)
            ls = leaves(nxt)
            if init.op == "mempty" and len(ls) == 1 and ls[0].op == "mset" and ls[0].args[0] is v:
                _, k, kind, off, val = ls[0].args
                kk = bare(k.args[0])
                val = seq.strip(val)
                if kk.op == "at" and val.op == "at" and first.op == "int":
                    ok = seq.strip(kk.args[2]) is idx and seq.strip(val.args[2]) is idx and vf.isint(first, 0)
                    full = any(bound is seq.vsize(c) for c in (kk.args[1], val.args[1]))
                    vecs = [kk.args[1], val.args[1]]
                    done = ok and full
                    rep.ob(key + " writes all factors", done, "not every factor is written with its exponent", place)
    if not done:
        if not vecs:
            rep.ob(key + " writes all factors", None, "the map of factors is written in an unknown way", place)
        return
    field = [x for x in [T("field", entry[0])]][0]
    for what, c in zip(("factors", "exponents"), vecs):
        k2 = (c.args[0], c.args[2])
        v = A.read(mem, "vec", T("ptr", obj.args[0], obj.args[1] + c.args[2]))
        if what == "factors":
            order = None
            base = v
            if v.op == "sorted":
                order, base = v.args[0], v.args[1]
            ok = None
            if base.op == "loop":
                L = seq.Loop(s, base.args[0])
                r = seq.appended(L, base)
                if not isinstance(r, str):
                    idx, first, bound, init, guard, vals = r
                    x = bare(vals[0][2])
                    ok = init.op == "nil" and vf.isint(first, 0) and bound is T("msize", field) and assume_all(guard, L) and x.op == "entry" and seq.strip(x.args[2] if len(x.args) > 2 else x) is idx and x.args[1] is field
                    if not ok and not (x.op == "entry"):
                        ok = None
            rep.ob(key + " reads all factors", ok, "the factors are read as %r" % (v,), place)
            mono = v
            name = re.search(r"\$_\d+$", order or "")
            fn = [f for f in lab.fns if name and re.search(r"^_ZZ.*4load.*K3" + re.escape(name.group(0)) + "clI", f["name"])]
            good = None
            if order is None and ok:
                good = False
            if fn:
                B, q = lab.run(fn[0], on_call=chain(ids, nulls, unroll.refcounts, *seq.HOOKS, factory))
                x, y = (T("number id", T("in", "raw8", T("arg", n), 0)) for n in (len(fn[0]["args"]) - 2, len(fn[0]["args"]) - 1))
                r = q.ret
                good = True if r is vf.icmp("ult", x, y) else False if r is not None and not q.undecided and all(z.op != "callret" for z in vf.walk(r)) else None
            rep.ob(key + " factors are in order", good, "the factors of a product must be sorted by their id: %r" % (order,), place)
        else:
            ok = None
            if v.op == "loop":
                L = seq.Loop(s, v.args[0])
                r = seq.appended(L, v)
                if not isinstance(r, str):
                    idx, first, bound, init, guard, vals = r
                    x = seq.strip(vals[0][2])
                    if x.op == "mget":
                        kk = bare(x.args[2].args[0]) if x.args[2].op == "key" else x
                        ok = init.op == "nil" and vf.isint(first, 0) and bound is seq.vsize(mono) and assume_all(guard, L) and x.args[1] is field and kk.op == "at" and kk.args[1] is mono and seq.strip(kk.args[2]) is idx
                    elif x.op in ("entry", "mapped") and x.args[1] is field and mono.op == "sorted":
                        ok = False
            rep.ob(key + " reads all exponents", ok, "the exponents are read as %r" % (v,), place)


def assume_all(guard, L):
    """the guard holds whenever the body runs"""
    return Or(Not(L.settle(L.cond)), L.settle(guard)) is TRUE


def ids(A, name, dem, i, args, mem):
    if (dem or "").startswith("exactreal::RealNumberBase::id("):
        return lift(lambda p: T("number id", bare(p)), args[0])
    return NotImplemented


def trip(lab, save, load, hooks=(), before=None, init=({}, {})):
    """summaries of the saver and of the loader on what the saver wrote"""
    ledger = Ledger()
    tail = (*hooks, nulls, unroll.refcounts, strings, casts, *seq.HOOKS, factory)
    A, s = lab.run(save, on_call=chain(bridge(ledger, "save"), *tail), ledger=ledger, init_cells=dict(init[0]))
    ledger.close(s)
    if before:
        before(ledger, s)
    B, t = lab.run(load, on_call=chain(bridge(ledger, "load"), *tail), ledger=ledger, init_cells=dict(init[1]))
    return ledger, A, s, B, t


SAME = {"int", "unsigned int", "long", "double", "string"}


def equal(a, b):
    return a.replace(" const>", ">").replace(" ", "") == b.replace(" const>", ">").replace(" ", "")


def result(rep, key, got, want, und, place):
    """the state after loading is the state that was saved"""
    got = bare(got) if got is not None else T("undef")
    decided = not und and not any(y.op in ("undef", "mixed", "callret", "call", "unknown", "loop") for y in vf.walk(got))
    said = altered(got, want)
    if said is not None:
        rep.ob(key + " state", False, "what is written as %r is read as something else" % said, place)
        return
    decided = decided and not any(t.op in ("edited", "ask") for t in vf.walk(got))
    rep.ob(key + " state", True if got is want and not und else False if decided else None, "%r comes back as %r %s" % (want, got, "; ".join(und)[:150]), place)


def plain(lab, rep, key, save, load, kind, arg=1):
    ledger, A, s, B, t = trip(lab, save, load)
    place = common.where([i for b in load["blocks"] for i in b["ins"]][-1])
    if agree(rep, key, ledger, t, equal) is False:
        return
    throws = [e for e in t.events if e["name"] == "throw" and And(e["pc"], TRUE) is not FALSE and settled(e["pc"]) is TRUE]
    if throws:
        rep.ob(key + " state", False if not t.undecided else None, "loading what has been saved always throws", common.where(throws[0]["ins"]))
        return
    if kind is None:
        return
    got = B.read(t.mem, kind, T("ptr", T("arg", arg), 0)) if t.mem else None
    result(rep, key, got, T("in", kind, T("arg", arg), 0), s.undecided + t.undecided, place)


def minimal(lab, rep, z):
    """numbers that are written as text"""
    key = {"mpz": "integer", "mpq": "rational"}[z]
    cls = "__gmp_expr<__%s_struct" % z
    save = [f for f in lab.fns if "exactreal::save_minimal<" in f["dem"] and cls in f["dem"]]
    load = [f for f in lab.fns if "exactreal::load_minimal<" in f["dem"] and cls in f["dem"]]
    if not save:
        save = [lab.driver("save_%s\\[abi:cxx11\\]" % z)]
    if not load:
        load = [lab.driver("load_%s" % z)]
    tail = (nulls, unroll.refcounts, strings, casts, *seq.HOOKS, factory)
    A, s = lab.run(save[0], on_call=chain(bridge(Ledger(), "save"), *tail))
    txt = A.read(s.mem, "str", T("ptr", T("arg", 0), 0)) if s.mem else T("undef")
    src = T("in", z, T("arg", 2), 0)
    B, t = lab.run(load[0], on_call=chain(bridge(Ledger(), "load"), *tail), init_cells={("str", T("arg", 2), 0): txt})
    place = common.where([i for b in load[0]["blocks"] for i in b["ins"]][-1])
    throws = [e for e in t.events if e["name"] == "throw" and settled(e["pc"]) is TRUE]
    if throws or t.mem is None:
        rep.ob(key + " state", None if t.undecided or s.undecided else False, "loading the text %r always throws" % (txt,), place)
        return
    got = B.read(t.mem, z, T("ptr", T("arg", 1), 0))
    result(rep, key, got, src, s.undecided + t.undecided, place)


def msb(pc):
    """is pc exactly: the object is new to the archive"""
    a = list(vf.atoms(pc))
    return len(a) == 1 and a[0].op == "eq" and any(x.op == "and" and any(y is T("id") for y in x.args) and any(vf.isint(y) and y.args[0] & 0xffffffff == 1 << 31 for y in x.args) for x in a[0].args) and pc is Not(vf.atom(a[0])) and any(vf.isint(x, 0) for x in a[0].args)


def shared(lab, rep, key, save, load, module=None):
    """objects that an archive holds only once"""
    ledger, A, s, B, t = trip(lab, save, load)
    und = s.undecided + t.undecided
    place = common.where([i for b in load["blocks"] for i in b["ins"]][-1])
    if agree(rep, key, ledger, t, equal) is False:
        return
    me = T("in", "raw8", T("arg", 1), 0)
    reg = [e for e in s.events if e["name"] == "shared"]
    rep.ob(key + " is registered", len(reg) == 1 and bare(reg[0]["args"][0]) is me and ledger.puts[0][2] is T("id") or (None if und else False), "the saver must register the object and write the id it gets", place)
    body = ledger.puts[1:]
    rep.ob(key + " is written once", True if body and all(msb(p[3]) for p in body) else False if not und and all(vf.atoms(p[3]) is not None for p in body) else None, "the contents are written exactly when the id says that the object is new", place)
    if not body or not t.mem:
        return
    got = B.read(t.mem, "raw8", T("ptr", T("arg", 1), 0))
    new = body[0][3]
    fresh_ = [bare(l) for g, l in relevant(got, And(new, t.retpc))]
    old = [bare(l) for g, l in relevant(got, And(Not(new), t.retpc))]
    regs = [e for e in t.events if e["name"] == "register"]
    again = [e for e in t.events if e["name"] == "known"]
    if module is None:
        rep.ob(key + " state", True if fresh_ == [me] else None if und else False, "a new number comes back as %r" % fresh_, place)
        rep.ob(key + " again", True if old == [T("heap", "known")] else None if und else False, "a known number comes back as %r" % old, place)
        ok = len(regs) == 1 and regs[0]["args"][0] is T("id") and msb(regs[0]["pc"]) and all(bare(l) is me for g, l in relevant(regs[0]["args"][1], And(regs[0]["pc"], t.retpc)))
    else:
        makes = [e for e in t.events if e["name"] == "make"]
        basis, ring = T("in", "vec", T("basis", me), 0), T("in", "cxx", T("ring", me), 0)
        if len(makes) == 1:
            e = makes[0]
            rep.ob(key + " basis", True if e["args"][0] is basis else None if und or any(x.op in ("unknown", "call") for x in vf.walk(e["args"][0])) else False, "the module is made from the generators %r" % (e["args"][0],), place)
            rg, m, p = e["extra"]
            if module != "IntegerRing" and module != "RationalField":
                r = B.read(m, "cxx", p)
                rep.ob(key + " ring", True if r is ring else False if not und and r.op == "call" and r.args[0].endswith("Field::NumberField") and len(r.args) == 3 and r.args[2].op == "undef" else None if und or any(x.op in ("unknown", "call", "undef") for x in vf.walk(r)) else False, "the module is made over the ring %r" % (r,), place)
            made = T("heap", e["ins"]["id"])
            rep.ob(key + " state", True if fresh_ == [made] else None if und or not fresh_ or any(x.op in ("raw8", "in") for x in fresh_) else False, "a new module comes back as %r" % fresh_, place)
        else:
            rep.ob(key + " basis", None, "%d modules are made" % len(makes), place)
            return
        ok = len(regs) == 1 and regs[0]["args"][0] is T("id") and msb(regs[0]["pc"])
        if ok:
            p, m = regs[0]["args"][1], regs[0]["extra"]
            ps = [q for g, q in relevant(p, And(regs[0]["pc"], t.retpc)) if q.op == "ptr"]
            vals = {bare(l) for q in ps for l in leaves(B.read(m, "raw8", q))}
            listed = {l for q in ps for l in leaves(B.read(m, "vec", seq.shift(q, 16)))}
            ok = True if vals == {made} and listed == {basis} else False if vals == {made} and listed == {T("in", "vec", T("basis", made), 0)} else None if any(x.op in ("mixed", "undef", "in") for x in vals | listed) else False
            rep.ob(key + " is remembered", ok, "what is remembered under the id is %r with the generators %r" % (vals, listed), place)
    rep.ob(key + " is known by its id", (True if ok in (True, None) else None if und else False), "the loader must register what it read under the id, exactly when it is new", place)
    rep.ob(key + " is looked up", True if len(again) == 1 and again[0]["args"][0] is T("id") and And(again[0]["pc"], new) is FALSE else None if und else False, "the loader must look up known ids", place)


def joined(x):
    """the numerator and denominator of the same element are the element"""
    if x.op == "whole" and len(x.args) == 3 and all(y.op == "at" for y in x.args[1:]):
        a, b = x.args[1:]
        if a.args[:3] == b.args[:3] and b.args[3] == a.args[3] + 16:
            return T("at", x.args[0], a.args[1], a.args[2], a.args[3])
    return x


def element(lab, rep, ring, kind):
    key = "Element<%s>" % ring
    elem = T("arg", 1)
    parent = T("parent", elem)
    save, load = lab.driver("save_Element_" + ring), lab.driver("load_Element_" + ring)
    place = common.where([i for b in load["blocks"] for i in b["ins"]][-1])
    written = {}

    def before(ledger, s):
        for n, (l, w, v, pc) in enumerate(ledger.puts):
            if "std::vector<" in w:
                ok = None
                if v.op == "loop":
                    L = seq.Loop(s, v.args[0])
                    r = seq.appended(L, v)
                    if not isinstance(r, str):
                        idx, first, bound, init, guard, vals = r
                        x = vals[0][2]
                        if x.op == "coefficient":
                            ok = vf.isint(first, 0) and seq.strip(bound) is T("rank", parent) and assume_all(guard, L) and init.op == "nil" and x.args[0] is elem and seq.strip(x.args[1]) is idx
                        elif x.op == "in":
                            ok = None
                rep.ob(key + " writes all coefficients", ok, "the coefficients are written as %r" % (v,), place)
                ledger.puts[n] = (l, w, T("coefficients"), pc)
                written["vec"] = True
    ledger, A, s, B, t = trip(lab, save, load, before=before)
    if agree(rep, key, ledger, t, equal) is False:
        return
    und = s.undecided + t.undecided
    par = [p for p in ledger.puts if "Module<" in p[1]]
    rep.ob(key + " writes its parent", True if par and bare(par[0][2]) is parent else None if und else False, "the parent is written as %r" % [p[2] for p in par], place)
    made = [e for e in t.events if e["name"] == "element"]
    if len(made) != 1 or not written:
        rep.ob(key + " state", None, "%d elements are made" % len(made), place)
        return
    m, c = made[0]["args"]
    rep.ob(key + " parent", True if bare(m) is parent else None if und else False, "the element is made in %r" % (m,), place)
    ok, why = None, "the coefficients are %r" % (c,)
    coeffs, listed = T("coefficients"), T("listed", par[0][2] if par else T("undef"))
    if c is coeffs:
        ok, why = False, "the coefficients are not permuted like the generators of the module"
    elif c.op == "loop":
        L = seq.Loop(t, c.args[0])
        r = seq.appended(L, c)
        if isinstance(r, str):
            why = "%s: %r" % (r, L.body(c))
        else:
            idx, first, bound, init, guard, vals = r
            x = joined(vals[0][2])
            basis = T("in", "vec", T("basis", parent), 0)
            if x.op == "at" and x.args[1] is coeffs and init.op == "nil":
                j = seq.distance(seq.strip(x.args[2]))
                good = j.op == "position" and j.args[0] is listed and j.args[1].op == "key" and bare(j.args[1].args[0]).op == "at" and bare(j.args[1].args[0]).args[1] is basis and seq.strip(bare(j.args[1].args[0]).args[2]) is idx
                full = vf.isint(first, 0) and bound is seq.vsize(basis) and assume_all(guard, L)
                ok = True if good and full else False if j is idx or j.op == "position" or j.op == "vsize" and bare(j.args[0]) is c else None
                why = "coefficient %r of the archive is used for generator %r" % (j, idx)
    rep.ob(key + " coefficients", ok, why, place)
    got = B.read(t.mem, "raw8", T("ptr", T("arg", 1), 0)) if t.mem else T("undef")
    rep.ob(key + " state", True if bare(got) is T("heap", made[0]["ins"]["id"]) else None if bare(got).op not in ("in",) else False, "the element becomes %r" % (got,), place)


def named(lab, tables, entries):
    """calls of the (de)serializer's functions that are not inlined: what they do on the archive has its own obligation"""
    what = {x["name"]: (w, t) for w in entries for x, t in zip(entries[w], tables[w]) if x["k"] == "fn"}

    def hook(A, name, dem, i, args, mem):
        n = callee(A, name)
        if n not in what or len(args) != 3:
            return NotImplemented
        w, t = what[n]
        kind = KINDS.get(t) or RAW.get(t, "cxx")
        label = A.read(mem, "str", args[1])
        if w == "save":
            A.ledger.put(A, i, label, t, args[2] if t in RAW else A.read(mem, kind, args[2]))
        else:
            A.write(mem, kind, args[2], A.ledger.get(A, i, label, t, args[2]))
        return None
    return hook


def cerealizer(lab, rep, tables, entries):
    """every kind of entry is written and read in the same form"""
    byfn = {f["name"]: f for f in lab.fns}
    for what in sorted(set(tables["save"]) & set(tables["load"]) - {"?"}):
        n = [x for x, w in zip(entries["save"], tables["save"]) if w == what][0]["name"]
        m = [x for x, w in zip(entries["load"], tables["load"]) if w == what][0]["name"]
        if n not in byfn or m not in byfn:
            rep.ob("entry of type %s" % what, None, "not analysed")
            continue
        ledger, A, s, B, t = trip(lab, byfn[n], byfn[m], hooks=(copies, named(lab, tables, entries)), init=[{("raw8", T("arg", 0), 0): T("ptr", T("global", NAMES[w]), 16)} for w in ("save", "load")])
        key = "entry of type %s" % what
        if agree(rep, key, ledger, t, equal) is False:
            continue
        place = common.where([i for b in byfn[m]["blocks"] for i in b["ins"]][-1])
        lab1 = [p[0] for p in ledger.puts]
        lab2 = [e["args"][0] for e in t.events if e["name"] == "get"]
        name = T("in", "str", T("arg", 1), 0)
        rep.ob(key + " name", all(x is name or x.op == "unnamed" or x.op == "chars" for x in lab1 + lab2) or (False if any(x.op == "text" for x in lab1 + lab2) else None), "the entry is named %r and read as %r" % (lab1, lab2), place)
        kind = KINDS.get(what) or RAW.get(what)
        want = T("arg", 2) if what in RAW else T("in", kind, T("arg", 2), 0)
        got = B.read(t.mem, kind, T("ptr", T("arg", 2), 0)) if t.mem else T("undef")
        result(rep, key, got, want, s.undecided + t.undecided, place)
    for w in sorted(set(tables["save"]) - set(tables["load"])):
        rep.ob("entry of type %s is read" % w, None, "there is no function to load such an entry")


def vtable(lab, name):
    g = lab.globals.get(name)
    if not g or (g.get("init") or {}).get("k") != "agg":
        raise common.Unfamiliar("no table of functions " + name)
    t = vf.pointers(g["init"])
    if t is None:
        raise common.Unfamiliar("unexpected table of functions " + name)
    return t[2:]


NAMES = {"save": "_ZTVN9exactreal10CerealizerIN12verif_driver3OutEEE", "load": "_ZTVN9exactreal12DecerealizerIN12verif_driver2InEEE"}


def run(facts, rep):
    rep.explanation = "round trips: each loader is summarised on exactly the entries its saver writes; the object it makes must have the state the saver was given"
    outer = Lab(facts, rep, [], r"erealizer<verif_driver|verif_driver::(save|load)_|save_minimal|load_minimal", code=CODE, includes=INCLUDES, opaque=OPQ + r"|exactreal::RealNumber::(save|load)\(", extra=["-DNDEBUG"])
    outer.Analysis = seq.Seq
    tables = {}
    for where, n in NAMES.items():
        tables[where] = [tag(x["dem"]) if x["k"] == "fn" and "erealizer<" in x.get("dem", "") and re.search("::(save|load)\\(", x["dem"]) else "?" for x in vtable(outer, n)]
    inner = Lab(facts, rep, UNITS, ROOTS, opaque=OPQ + r"|^_ZZ.*4load.*K3\$_[0-9]+clI", extra=["-DNDEBUG"])
    inner.Analysis = seq.Seq
    real_kinds(inner, tables, rep)
    cerealizer(outer, rep, tables, {w: vtable(outer, n) for w, n in NAMES.items()})
    for k in ("Arb", "Arf"):
        plain(outer, rep, k, outer.driver("save_" + k), outer.driver("load_" + k), k.lower())
    plain(outer, rep, "NumberField", outer.driver("save_Field"), outer.driver("load_Field"), "cxx")
    for k in ("Integers", "Rationals"):
        plain(outer, rep, k, outer.driver("save_" + k), outer.driver("load_" + k), None)
    for z in ("mpz", "mpq"):
        minimal(outer, rep, z)
    shared(outer, rep, "shared RealNumber", outer.driver("save_Real"), outer.driver("load_Real"))
    for r, k in RINGS.items():
        shared(outer, rep, "Module<%s>" % r, outer.driver("save_Module_" + r), outer.driver("load_Module_" + r), r)
        element(outer, rep, r, k)
