"""Evaluates Python syntax trees on symbolic values.

The interpreter (cppyy, SageMath) the modules are written for is not needed and
nothing of it runs: names that come from elsewhere are opaque symbols, every
operation on an opaque symbol is put to a World, which answers with a term, a
constant or an exception, or declines (Unfamiliar: nothing is decided)."""
import ast
import operator as op_

from common import Unfamiliar


class PyRaise(Exception):
    def __init__(self, value):
        self.value = value


class Exc:
    """an exception of a builtin class or of one written in the module"""

    def __init__(self, cls, args=()):
        self.cls, self.args = cls, tuple(args)

    def __repr__(self):
        return "%s(...)" % self.cls


BUILTIN_EXC = {"TypeError": "Exception", "ValueError": "Exception", "AttributeError": "Exception", "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError", "OverflowError": "ArithmeticError", "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
               "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "Exception": "BaseException", "BaseException": None, "StopIteration": "Exception", "ImportError": "Exception", "ModuleNotFoundError": "ImportError", "AssertionError": "Exception", "NameError": "Exception"}


class ExcCls:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


class Sym:
    """an opaque value: a dotted path, or a term"""

    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return show(self.term)

    def __eq__(self, o):
        return isinstance(o, Sym) and o.term == self.term

    def __hash__(self):
        return hash(self.term)


def show(t):
    if isinstance(t, tuple):
        if t and t[0] == "path":
            return t[1]
        if t and t[0] in ("call", "attr", "sub", "op", "cmp", "value"):
            return "%s(%s)" % (t[0], ", ".join(show(x) for x in t[1:]))
        return "(%s)" % ", ".join(show(x) for x in t)
    return repr(t)


class Func:
    def __init__(self, node, env, defaults, kwdefaults, name):
        self.node, self.env, self.defaults, self.kwdefaults, self.name = node, env, defaults, kwdefaults, name
        self.kind = None

    def __repr__(self):
        return "<%s>" % self.name


class Bound:
    def __init__(self, f, me):
        self.f, self.me = f, me

    def __eq__(self, o):
        return isinstance(o, Bound) and o.f == self.f and o.me is self.me

    def __hash__(self):
        return hash((id(self.f), id(self.me)))


class Native:
    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return self.name


class Cls:
    def __init__(self, name, bases, d):
        self.name, self.bases, self.dict = name, bases, d

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                out += b.mro()
        return out

    def opaque(self):
        return next((b for c in self.mro() for b in c.bases if isinstance(b, Sym)), None)

    def excbase(self):
        return next((b for c in self.mro() for b in c.bases if isinstance(b, ExcCls)), None)

    def find(self, name):
        for c in self.mro():
            if name in c.dict:
                return c.dict[name]
        return None

    def __repr__(self):
        return self.name


class Inst:
    def __init__(self, cls, label=None):
        self.cls, self.dict, self.label = cls, {}, label

    def __repr__(self):
        return self.label or "<%s %s>" % (self.cls, self.dict)


class Super:
    def __init__(self, cls, me):
        self.cls, self.me = cls, me


NOTIMPL = Native("NotImplemented", None)
BIN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Pow: "pow", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor", ast.LShift: "lshift", ast.RShift: "rshift"}
CMP = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq", ast.NotEq: "ne"}
FLIP = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le", "eq": "eq", "ne": "ne"}
PLAIN = (int, float, str, bytes, bool, type(None), list, tuple, dict, set, complex)


class World:
    """what the opaque part of the program does"""

    def call(self, ev, f, args, kw):
        return Sym(("call", term(f), tuple(term(a) for a in args)) + (tuple(sorted((k, term(v)) for k, v in kw.items())),) * bool(kw))

    def attr(self, ev, x, name):
        if x.term[0] == "path":
            return Sym(("path", x.term[1] + "." + name))
        return Sym(("attr", x.term, name))

    def hasattr(self, ev, x, name):
        raise Unfamiliar("hasattr(%s, %s)" % (x, name))

    def sub(self, ev, x, i):
        return Sym(("sub", term(x), term(i)))

    def truth(self, ev, x):
        raise Unfamiliar("the truth of %s" % show(term(x))[:120])

    def binop(self, ev, op, a, b):
        return Sym(("op", op, term(a), term(b)))

    def unop(self, ev, op, a):
        return Sym(("op", op, term(a)))

    def compare(self, ev, op, a, b):
        return Sym(("cmp", op, term(a), term(b)))

    def isinstance(self, ev, x, c):
        raise Unfamiliar("isinstance(%s, %s)" % (x, c))

    def iterate(self, ev, x):
        raise Unfamiliar("iteration over %s" % (x,))

    def type(self, ev, x):
        return Sym(("typeof", term(x)))

    def setattr(self, ev, x, name, v):
        raise Unfamiliar("assignment to %s.%s" % (x, name))

    def imported(self, module, name):
        """the symbol an import binds"""
        return None


def term(x):
    if isinstance(x, Sym):
        return x.term
    if isinstance(x, (tuple, list)):
        return tuple(term(y) for y in x)
    if isinstance(x, PLAIN) and not isinstance(x, (dict, set)):
        return x
    if isinstance(x, Inst) and x.label:
        return ("obj", x.label)
    if isinstance(x, Cls):
        return ("class", x.name)
    if isinstance(x, Native):
        return ("native", x.name)
    return ("id", type(x).__name__, id(x), Keep(x))


class Keep:
    """carries a value inside a term"""

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return isinstance(o, Keep) and o.v is self.v

    def __hash__(self):
        return hash(id(self.v))

    def __repr__(self):
        return repr(self.v)


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break_(Exception):
    pass


class Continue_(Exception):
    pass


class Env:
    def __init__(self, parent=None, cls=False):
        self.vars, self.parent, self.cls = {}, parent, cls
        self.globals = set()
        self.nonlocals = set()

    def get(self, n):
        e = self
        first = True
        while e is not None:
            if n in e.vars and (first or not e.cls):
                return e.vars[n]
            e, first = e.parent, False
        return None

    def has(self, n):
        e, first = self, True
        while e is not None:
            if n in e.vars and (first or not e.cls):
                return True
            e, first = e.parent, False
        return False

    def set(self, n, v):
        if n in self.globals:
            e = self
            while e.parent is not None:
                e = e.parent
            e.vars[n] = v
        elif n in self.nonlocals:
            e = self.parent
            while n not in e.vars:
                e = e.parent
            e.vars[n] = v
        else:
            self.vars[n] = v


def assigned(body):
    """the names a function binds"""
    out = set()
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        todo += list(ast.iter_child_nodes(n))
    return out


class Evaluator:
    def __init__(self, world, fuel=60000):
        self.w, self.fuel, self.start = world, fuel, fuel
        self.depth = 0
        self.place = 0

    # ---- statements
    def module(self, text, name="<module>"):
        env = Env()
        env.vars["__name__"] = name
        self.block(ast.parse(text).body, env)
        return env

    def block(self, body, env):
        for s in body:
            self.stmt(s, env)

    def burn(self, n):
        self.fuel -= 1
        if self.fuel < 0:
            raise Unfamiliar("the evaluation does not come to an end")
        self.place = getattr(n, "lineno", self.place)

    def raise_(self, cls, *args):
        raise PyRaise(Exc(cls, args))

    def stmt(self, s, env):
        self.burn(s)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unfamiliar("a %s statement" % type(s).__name__)
        m(s, env)

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Pass(self, s, env):
        pass

    def s_Break(self, s, env):
        raise Break_()

    def s_Continue(self, s, env):
        raise Continue_()

    def s_Global(self, s, env):
        env.globals |= set(s.names)

    def s_Nonlocal(self, s, env):
        env.nonlocals |= set(s.names)

    def s_Return(self, s, env):
        raise Return(self.ev(s.value, env) if s.value else None)

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        load = ast.copy_location(type(s.target)(**{k: v for k, v in ast.iter_fields(s.target)}), s.target)
        load.ctx = ast.Load()
        self.assign(s.target, self.binary(BIN[type(s.op)], self.ev(load, env), self.ev(s.value, env), inplace=True), env)

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.vars.pop(t.id, None)
            else:
                raise Unfamiliar("a deletion")

    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)):
            self.raise_("AssertionError")

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(self.iterate(v))
            star = [k for k, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                vs = vs[:k] + [vs[k:len(vs) - after]] + (vs[len(vs) - after:] if after else [])
            if len(vs) != len(t.elts):
                self.raise_("ValueError")
            for x, y in zip(t.elts, vs):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            c, i = self.ev(t.value, env), self.ev(t.slice, env)
            if isinstance(c, (dict, list)):
                c[i] = v
            else:
                raise Unfamiliar("an assignment to an element of %s" % (c,))
        else:
            raise Unfamiliar("an assignment to a %s" % type(t).__name__)

    def setattr(self, x, name, v):
        if isinstance(x, (Inst, Cls)):
            x.dict[name] = v
        elif isinstance(x, Func):
            pass
        else:
            self.w.setattr(self, x, name, v)

    def s_If(self, s, env):
        self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def s_For(self, s, env):
        for v in list(self.iterate(self.ev(s.iter, env))):
            self.assign(s.target, v, env)
            try:
                self.block(s.body, env)
            except Break_:
                return
            except Continue_:
                continue
        self.block(s.orelse, env)

    def s_While(self, s, env):
        while self.truth(self.ev(s.test, env)):
            self.burn(s)
            try:
                self.block(s.body, env)
            except Break_:
                return
            except Continue_:
                continue
        self.block(s.orelse, env)

    def s_With(self, s, env):
        for i in s.items:
            v = self.ev(i.context_expr, env)
            if i.optional_vars:
                self.assign(i.optional_vars, v, env)
        self.block(s.body, env)

    def s_Raise(self, s, env):
        if s.exc is None:
            cur = env.get("__exc__")
            if cur is None:
                raise Unfamiliar("a bare raise")
            raise PyRaise(cur)
        v = self.ev(s.exc, env)
        if isinstance(v, ExcCls):
            v = Exc(v.name)
        elif isinstance(v, Cls):
            v = Exc(v)
        elif isinstance(v, Inst) and v.cls.excbase():
            v = Exc(v.cls)
        if not isinstance(v, Exc):
            raise Unfamiliar("raise %s" % (v,))
        raise PyRaise(v)

    def matches(self, exc, c):
        if isinstance(c, (tuple, list)):
            return any(self.matches(exc, x) for x in c)
        if isinstance(c, ExcCls):
            n = exc.cls
            if isinstance(n, Cls):
                n = n.excbase().name if n.excbase() else "Exception"
            while n is not None:
                if n == c.name:
                    return True
                n = BUILTIN_EXC.get(n)
            return False
        if isinstance(c, Cls):
            return isinstance(exc.cls, Cls) and c in exc.cls.mro()
        if isinstance(c, Sym):
            w = c.term[1].rsplit(".", 1)[-1] if c.term[0] == "path" else None
            if w is not None:
                return isinstance(exc.cls, Cls) and any(x.name == w for x in exc.cls.mro()) or exc.cls == w
        raise Unfamiliar("except %s" % (c,))

    def s_Try(self, s, env):
        try:
            try:
                self.block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.matches(e.value, self.ev(h.type, env)):
                        if h.name:
                            env.set(h.name, e.value)
                        old = env.vars.get("__exc__")
                        env.vars["__exc__"] = e.value
                        try:
                            self.block(h.body, env)
                        finally:
                            env.vars["__exc__"] = old
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env)
        finally:
            self.block(s.finalbody, env)

    def s_FunctionDef(self, s, env):
        f = self.function(s, env, s.name)
        for d in reversed(s.decorator_list):
            d = self.ev(d, env)
            n = d.term[1] if isinstance(d, Sym) and d.term[0] == "path" else d.name if isinstance(d, Native) else ""
            if n in ("staticmethod", "classmethod", "property"):
                f.kind = n
            elif n.endswith("coerce_binop") or n.endswith("wraps") or n.endswith("cached_method"):
                pass
            elif isinstance(d, Sym) and d.term[0] == "call" and show(d.term[1]).endswith("wraps"):
                pass
            else:
                f = self.call(d, [f], {})
        env.set(s.name, f)

    def function(self, s, env, name):
        a = s.args
        return Func(s, env, [self.ev(d, env) for d in a.defaults], [None if d is None else self.ev(d, env) for d in a.kw_defaults], name)

    def s_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        e = Env(env, cls=True)
        self.block(s.body, e)
        c = Cls(s.name, [b for b in bases if not (isinstance(b, Native) and b.name == "object")], e.vars)
        env.set(s.name, c)

    def s_Import(self, s, env):
        for a in s.names:
            if a.asname:
                env.set(a.asname, self.symbol(a.name))
            else:
                env.set(a.name.split(".")[0], self.symbol(a.name.split(".")[0]))

    def s_ImportFrom(self, s, env):
        for a in s.names:
            env.set(a.asname or a.name, self.symbol(("." * s.level) + (s.module or "") + "." + a.name))

    def symbol(self, path):
        v = self.w.imported(self, path)
        if v is not None:
            return v
        if path == "operator" or path.startswith("operator."):
            if path == "operator":
                return Sym(("path", "operator"))
            return self.operator(path[9:])
        if path == "functools.partial":
            return Native("partial", lambda ev, a, k: Native("partial", lambda ev2, a2, k2: ev2.call(a[0], list(a[1:]) + list(a2), dict(k, **k2))))
        return Sym(("path", path))

    def operator(self, n):
        if n.startswith("_") and n.endswith("_"):
            n = n.strip("_")
        if n in BIN.values():
            return Native("operator." + n, lambda ev, a, k: ev.binary(n, a[0], a[1]))
        if n in CMP.values():
            return Native("operator." + n, lambda ev, a, k: ev.compare(n, a[0], a[1]))
        if n in ("neg", "pos", "invert"):
            return Native("operator." + n, lambda ev, a, k: ev.unary(n, a[0]))
        if n == "attrgetter":
            return Native("attrgetter", lambda ev, a, k: Native("attrgetter", lambda e2, b, j: e2.getattr(b[0], a[0])))
        if n == "methodcaller":
            return Native("methodcaller", lambda ev, a, k: Native("methodcaller", lambda e2, b, j: e2.call(e2.getattr(b[0], a[0]), a[1:], k)))
        raise Unfamiliar("operator." + n)

    # ---- values
    def truth(self, v):
        if isinstance(v, PLAIN):
            return bool(v)
        if isinstance(v, (Func, Bound, Native, Cls, ExcCls)):
            if v is NOTIMPL:
                raise Unfamiliar("the truth of NotImplemented")
            return True
        if isinstance(v, Inst) and v.cls.find("__bool__"):
            return self.truth(self.call(Bound(v.cls.find("__bool__"), v), [], {}))
        return self.w.truth(self, v)

    def iterate(self, v):
        if isinstance(v, (list, tuple, str, dict, set)):
            return list(v)
        if isinstance(v, Native) and hasattr(v, "items"):
            return v.items
        return self.w.iterate(self, v)

    def ev(self, e, env):
        self.burn(e)
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unfamiliar("a %s expression" % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        if e.value is Ellipsis:
            raise Unfamiliar("an ellipsis")
        return e.value

    def e_Name(self, e, env):
        if env.has(e.id):
            v = env.get(e.id)
            if v is UNBOUND:
                self.raise_("NameError")
            return v
        v = self.builtin(e.id)
        if v is None:
            self.raise_("NameError", e.id)
        return v

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def e_Subscript(self, e, env):
        c, i = self.ev(e.value, env), self.ev(e.slice, env)
        if isinstance(c, (list, tuple, str, dict)):
            try:
                return c[i]
            except (KeyError, IndexError) as x:
                self.raise_(type(x).__name__)
            except TypeError:
                raise Unfamiliar("an index")
        return self.w.sub(self, c, i)

    def e_Slice(self, e, env):
        return slice(*[None if x is None else self.ev(x, env) for x in (e.lower, e.upper, e.step)])

    def e_Tuple(self, e, env):
        return tuple(self.elements(e.elts, env))

    def e_List(self, e, env):
        return self.elements(e.elts, env)

    def e_Set(self, e, env):
        return set(self.elements(e.elts, env))

    def elements(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += list(self.iterate(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                out.update(self.ev(v, env))
            else:
                out[self.ev(k, env)] = self.ev(v, env)
        return out

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        return self.binary(BIN[type(e.op)], a, self.ev(e.right, env)) if type(e.op) in BIN else self.unknown("an operator")

    def unknown(self, what):
        raise Unfamiliar(what)

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        return self.unary({ast.USub: "neg", ast.UAdd: "pos", ast.Invert: "invert"}[type(e.op)], v)

    def e_BoolOp(self, e, env):
        for x in e.values[:-1]:
            v = self.ev(x, env)
            if self.truth(v) != isinstance(e.op, ast.And):
                return v
        return self.ev(e.values[-1], env)

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Lambda(self, e, env):
        return self.function(e, env, "lambda")

    def e_JoinedStr(self, e, env):
        out = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                out.append(v.value)
            else:
                x = self.ev(v.value, env)
                if not isinstance(x, (str, int)) or v.format_spec or v.conversion not in (-1,):
                    return Sym(("text", "f"))
                out.append(str(x))
        return "".join(out)

    def e_ListComp(self, e, env):
        out = []
        self.comp(e.generators, Env(env), lambda en: out.append(self.ev(e.elt, en)))
        return out

    e_GeneratorExp = e_ListComp

    def e_DictComp(self, e, env):
        out = {}

        def put(en):
            out[self.ev(e.key, en)] = self.ev(e.value, en)
        self.comp(e.generators, Env(env), put)
        return out

    def comp(self, gens, env, f):
        if not gens:
            return f(env)
        for v in list(self.iterate(self.ev(gens[0].iter, env))):
            self.assign(gens[0].target, v, env)
            if all(self.truth(self.ev(c, env)) for c in gens[0].ifs):
                self.comp(gens[1:], env, f)

    def e_Compare(self, e, env):
        a = self.ev(e.left, env)
        for k, (o, x) in enumerate(zip(e.ops, e.comparators)):
            b = self.ev(x, env)
            if isinstance(o, (ast.Is, ast.IsNot)):
                r = self.same(a, b) == isinstance(o, ast.Is)
            elif isinstance(o, (ast.In, ast.NotIn)):
                r = any(self.same(a, y) or self.truth(self.compare("eq", a, y)) for y in self.iterate(b)) if not (isinstance(a, str) and isinstance(b, str)) else a in b
                r = r == isinstance(o, ast.In)
            else:
                r = self.compare(CMP[type(o)], a, b)
            if k == len(e.ops) - 1:
                return r
            if not self.truth(r):
                return r
            a = b

    def same(self, a, b):
        if isinstance(a, Sym) and isinstance(b, Sym):
            if a == b:
                return True
            return self.truth(self.w.compare(self, "is", a, b))
        if isinstance(a, PLAIN) and isinstance(b, PLAIN):
            return type(a) is type(b) and (a is b or isinstance(a, (int, str)) and a == b)
        return a is b

    # ---- operators
    def binary(self, op, a, b, inplace=False):
        if isinstance(a, PLAIN) and isinstance(b, PLAIN):
            try:
                if op == "mod" and isinstance(a, str):
                    return a % b
                return getattr(op_, op if op not in ("and", "or") else op + "_")(a, b)
            except ZeroDivisionError:
                self.raise_("ZeroDivisionError")
            except TypeError:
                if op == "mod" and isinstance(a, str):
                    return Sym(("text", a))
                self.raise_("TypeError")
        if isinstance(a, str) and op == "mod":
            return Sym(("text", a))
        if inplace:
            r = self.special(a, "__i%s__" % op, [b])
            if r is not NOTIMPL:
                return r
        r = self.special(a, "__%s__" % op, [b])
        if r is not NOTIMPL:
            return r
        r = self.special(b, "__r%s__" % op, [a])
        if r is not NOTIMPL:
            return r
        if isinstance(a, Sym) or isinstance(b, Sym):
            return self.w.binop(self, op, a, b)
        o = [x for x in (a, b) if isinstance(x, Inst) and x.cls.opaque()]
        if o:
            return self.w.binop(self, op, a, b)
        self.raise_("TypeError")

    def special(self, x, name, args):
        """x.name(args), found on the class; NOTIMPL when there is none"""
        if not isinstance(x, Inst):
            return NOTIMPL
        f = x.cls.find(name)
        if f is None:
            return NOTIMPL
        return self.call(f if isinstance(f, (Native, Sym)) and not isinstance(f, Func) and False else Bound(f, x), args, {})

    def unary(self, op, a):
        if isinstance(a, PLAIN):
            return {"neg": op_.neg, "pos": op_.pos, "invert": op_.invert}[op](a)
        r = self.special(a, "__%s__" % op, [])
        if r is not NOTIMPL:
            return r
        return self.w.unop(self, op, a)

    def compare(self, op, a, b):
        if isinstance(a, PLAIN) and isinstance(b, PLAIN) and not isinstance(a, (list, tuple, dict)):
            try:
                return getattr(op_, op)(a, b)
            except TypeError:
                self.raise_("TypeError")
        r = self.special(a, "__%s__" % op, [b])
        if r is not NOTIMPL:
            return r
        r = self.special(b, "__%s__" % FLIP[op], [a])
        if r is not NOTIMPL:
            return r
        return self.w.compare(self, op, a, b)

    # ---- attributes and calls
    def getattr(self, x, name):
        if isinstance(x, Inst):
            if name in x.dict:
                return x.dict[name]
            f = x.cls.find(name)
            if f is not None:
                if isinstance(f, Func):
                    if f.kind == "staticmethod":
                        return f
                    if f.kind == "classmethod":
                        return Bound(f, x.cls)
                    if f.kind == "property":
                        return self.call(f, [x], {})
                    return Bound(f, x)
                if isinstance(f, (Sym, Native)):
                    return Bound(f, x)
                return f
            if name == "__class__":
                return x.cls
            if name == "__dict__":
                return x.dict
            if x.cls.opaque() is not None:
                return self.w.attr(self, Sym(term(x)), name)
            self.raise_("AttributeError", name)
        if isinstance(x, Cls):
            f = x.find(name)
            if f is not None:
                return Bound(f, x) if isinstance(f, Func) and f.kind == "classmethod" else f
            if name in ("__name__", "__qualname__"):
                return x.name
            if x.opaque() is not None:
                return self.w.attr(self, x.opaque(), name)
            self.raise_("AttributeError", name)
        if isinstance(x, Super):
            for c in x.cls.mro()[1:]:
                if name in c.dict:
                    return Bound(c.dict[name], x.me)
            if x.cls.opaque():
                return self.w.attr(self, Sym(("super", term(x.me))), name)
            self.raise_("AttributeError", name)
        if isinstance(x, Sym):
            if x.term == ("path", "operator"):
                return self.operator(name)
            if x.term == ("path", "functools"):
                return self.symbol("functools." + name)
            return self.w.attr(self, x, name)
        if isinstance(x, str):
            if name == "join":
                return Native("join", lambda ev, a, k: x.join(str(y) for y in ev.iterate(a[0])) if all(isinstance(y, str) for y in ev.iterate(a[0])) else Sym(("text", x)))
            if name == "format":
                return Native("format", lambda ev, a, k: x.format(*a, **k) if all(isinstance(y, (str, int)) for y in list(a) + list(k.values())) else Sym(("text", x)))
            if hasattr(str, name):
                return Native(name, lambda ev, a, k: getattr(x, name)(*a, **k))
            self.raise_("AttributeError", name)
        if isinstance(x, (list, dict, tuple, set)):
            if hasattr(x, name):
                return Native(name, lambda ev, a, k: getattr(x, name)(*a, **k))
            self.raise_("AttributeError", name)
        if isinstance(x, PLAIN):
            if not hasattr(x, name):
                self.raise_("AttributeError", name)
            return Native(name, lambda ev, a, k: getattr(x, name)(*a, **k))
        if isinstance(x, (Func, Bound, Native)):
            if name in ("__name__", "__doc__", "__qualname__"):
                return getattr(x, "name", "f")
            if name == "__func__" and isinstance(x, Bound):
                return x.f
            if name == "__self__" and isinstance(x, Bound):
                return x.me
            if name == "__call__":
                return x
            self.raise_("AttributeError", name)
        if isinstance(x, Exc):
            return x.args if name == "args" else self.raise_("AttributeError", name)
        return self.w.attr(self, x, name)

    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        if isinstance(f, Native) and f.name == "super" and not e.args:
            me = env.get("__self__")
            cls = env.get("__class__")
            raise Unfamiliar("super()") if cls is None else None
        args = self.elements(e.args, env)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                kw.update(v)
            else:
                kw[k.arg] = v
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        args = list(args)
        if isinstance(f, Bound):
            if isinstance(f.f, Native) or isinstance(f.f, Sym) or isinstance(f.f, (Func, Bound)):
                return self.call(f.f, [f.me] + args, kw)
            return self.call(f.f, args, kw)
        if isinstance(f, Func):
            return self.apply(f, args, kw)
        if isinstance(f, Native):
            if f.f is None:
                raise Unfamiliar("a call of " + f.name)
            try:
                return f.f(self, args, kw)
            except (IndexError, KeyError, TypeError, ValueError) as x:
                raise Unfamiliar("%s: %s" % (f.name, x))
        if isinstance(f, ExcCls):
            return Exc(f.name, args)
        if isinstance(f, Cls):
            if f.excbase() is not None:
                return Exc(f, args)
            x = Inst(f)
            init = f.find("__init__")
            if init is not None:
                self.call(Bound(init, x), args, kw)
            elif f.opaque() is not None:
                return self.w.call(self, f, args, kw)
            elif args or kw:
                self.raise_("TypeError")
            return x
        if isinstance(f, Inst):
            m = f.cls.find("__call__")
            if m is not None:
                return self.call(Bound(m, f), args, kw)
            if f.cls.opaque() is None:
                self.raise_("TypeError")
        return self.w.call(self, f, args, kw)

    def apply(self, f, args, kw):
        a = f.node.args
        env = Env(f.env)
        body = [ast.Return(f.node.body, lineno=f.node.lineno)] if isinstance(f.node, ast.Lambda) else f.node.body
        if not isinstance(f.node, ast.Lambda):
            if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await)) for n in ast.walk(f.node)):
                raise Unfamiliar("a generator")
            decl = {x for n in ast.walk(f.node) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
            for n in assigned(body) - decl:
                env.vars[n] = UNBOUND
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        for n, v in zip(pos, args):
            env.vars[n] = v
        rest = args[len(pos):]
        if a.vararg:
            env.vars[a.vararg.arg] = tuple(rest)
        elif rest:
            self.raise_("TypeError", "too many arguments")
        first = len(pos) - len(f.defaults)
        for k, n in enumerate(pos):
            if k < len(args):
                continue
            if n in kw:
                env.vars[n] = kw.pop(n)
            elif k >= first:
                env.vars[n] = f.defaults[k - first]
            else:
                self.raise_("TypeError", "missing argument " + n)
        for n, d in zip([x.arg for x in a.kwonlyargs], f.kwdefaults):
            env.vars[n] = kw.pop(n) if n in kw else d
        if a.kwarg:
            env.vars[a.kwarg.arg] = kw
        elif kw:
            self.raise_("TypeError", "unexpected keyword")
        self.depth += 1
        if self.depth > 60:
            raise Unfamiliar("a recursion without an end")
        try:
            self.block(body, env)
        except Return as r:
            return r.v
        finally:
            self.depth -= 1
        return None

    # ---- builtins
    def builtin(self, n):
        if n == "NotImplemented":
            return NOTIMPL
        if n in BUILTIN_EXC:
            return ExcCls(n)
        f = getattr(self, "b_" + n, None)
        if f is not None:
            return Native(n, lambda ev, a, k: f(*a, **k))
        if n in ("super", "staticmethod", "classmethod", "property", "object"):
            return Native(n, (lambda ev, a, k: Super(a[0], a[1])) if n == "super" else (lambda ev, a, k: ev.mark(n, a[0])) if n != "object" else None)
        if n in ("int", "float", "str", "list", "tuple", "dict", "set", "bool", "bytes", "complex"):
            return Native(n, lambda ev, a, k: ev.convert(n, a))
        if n in ("len", "range", "zip", "enumerate", "map", "filter", "any", "all", "sorted", "reversed", "sum", "min", "max", "abs", "hash", "repr", "iter", "next", "callable", "id", "print", "round", "pow", "divmod", "issubclass", "vars", "dir", "delattr", "float"):
            return Native(n, lambda ev, a, k: ev.common(n, a, k))
        return None

    def mark(self, kind, f):
        if isinstance(f, Func):
            f.kind = kind
        return f

    def convert(self, n, a):
        if not a:
            return {"int": 0, "float": 0.0, "str": "", "list": [], "tuple": (), "dict": {}, "set": set(), "bool": False}[n]
        x = a[0]
        if n in ("list", "tuple", "set"):
            return {"list": list, "tuple": tuple, "set": set}[n](self.iterate(x))
        if n == "bool":
            return self.truth(x)
        if isinstance(x, PLAIN):
            try:
                return {"int": int, "float": float, "str": str, "dict": dict, "complex": complex, "bytes": bytes}[n](*a)
            except (TypeError, ValueError) as e:
                self.raise_(type(e).__name__)
        return self.w.call(self, Sym(("path", n)), a, {})

    def common(self, n, a, k):
        if n == "range":
            return list(range(*a))
        if n == "len" and isinstance(a[0], (list, tuple, str, dict, set)):
            return len(a[0])
        if n == "zip":
            return list(zip(*[self.iterate(x) for x in a]))
        if n == "enumerate":
            return list(enumerate(self.iterate(a[0]), *a[1:]))
        if n == "map":
            return [self.call(a[0], list(x), {}) for x in zip(*[self.iterate(y) for y in a[1:]])]
        if n == "filter":
            return [x for x in self.iterate(a[1]) if self.truth(self.call(a[0], [x], {}) if a[0] is not None else x)]
        if n == "reversed":
            return list(reversed(self.iterate(a[0])))
        if n == "sorted" and not k and all(isinstance(x, str) for x in self.iterate(a[0])):
            return sorted(self.iterate(a[0]))
        if n == "any":
            return any(self.truth(x) for x in self.iterate(a[0]))
        if n == "all":
            return all(self.truth(x) for x in self.iterate(a[0]))
        if n == "callable":
            return isinstance(a[0], (Func, Bound, Native, Cls)) or self.unknown("callable")
        if n == "print":
            return None
        if n == "abs" and isinstance(a[0], (int, float)):
            return abs(a[0])
        if n in ("min", "max") and all(isinstance(x, (int, float)) for x in a):
            return (min if n == "min" else max)(a)
        if n == "pow" and len(a) == 2:
            return self.binary("pow", a[0], a[1])
        if n in ("hash", "repr", "abs", "len", "round"):
            r = self.special(a[0], "__%s__" % n, a[1:])
            if r is not NOTIMPL:
                return r
            return self.w.call(self, Sym(("path", n)), a, k)
        raise Unfamiliar(n + "()")

    def b_hasattr(self, x, name):
        if isinstance(x, (Inst, Cls, Func, Bound, Native) + PLAIN) and not (isinstance(x, (Inst)) and x.cls.opaque() and name not in x.dict and x.cls.find(name) is None):
            try:
                self.getattr(x, name)
                return True
            except PyRaise as e:
                if self.matches(e.value, ExcCls("AttributeError")):
                    return False
                raise
        return self.w.hasattr(self, x, name)

    def b_getattr(self, x, name, *default):
        if default and isinstance(x, Sym):
            if not self.w.hasattr(self, x, name):
                return default[0]
        try:
            return self.getattr(x, name)
        except PyRaise as e:
            if default and self.matches(e.value, ExcCls("AttributeError")):
                return default[0]
            raise

    def b_setattr(self, x, name, v):
        self.setattr(x, name, v)

    def b_type(self, x):
        if isinstance(x, Inst):
            return x.cls
        if isinstance(x, PLAIN):
            return self.builtin(type(x).__name__) or Sym(("path", type(x).__name__))
        return self.w.type(self, x)

    def b_isinstance(self, x, c):
        if isinstance(c, tuple):
            return any(self.b_isinstance(x, y) for y in c)
        if isinstance(x, Inst) and isinstance(c, Cls):
            return c in x.cls.mro()
        if isinstance(c, Native) and c.name in ("int", "float", "str", "list", "tuple", "dict", "bool", "set"):
            if isinstance(x, PLAIN):
                return isinstance(x, {"int": int, "float": float, "str": str, "list": list, "tuple": tuple, "dict": dict, "bool": bool, "set": set}[c.name])
            return False
        if isinstance(c, Cls) and isinstance(x, PLAIN):
            return False
        return self.w.isinstance(self, x, c)


UNBOUND = object()
