"""Abstract interpreter for the Python runtime library (python/spl_transpiler/runtime).

Interprets the *syntax trees* of the runtime's modules over symbolic values: columns, dataframes and plain values are
texts of PySpark expressions; nothing is imported or executed. Conditions on symbolic values split the trace. The
pydantic decorator `validate_call` is interpreted from its arguments: annotations decide what is accepted, models of
the library (Expr, TimeSpan, StatsFunction ...) convert through their own validators, whose source is interpreted too.
"""
import ast
import builtins
import math
import json
import os
import re


class Unknown(Exception):
    """the analyser does not know the meaning of a construct"""


class Raised(Exception):
    """the analysed program raises"""
    def __init__(self, name, msg=""):
        super().__init__("%s: %s" % (name, msg))
        self.name, self.msg = name, msg


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Sym:
    """a symbolic value: its Python text, and its kind (col, window, df, grouped, int, str, bool, any)"""
    def __init__(self, node, kind="any"):
        self.node, self.kind = node, kind

    @property
    def text(self):
        return ast.unparse(self.node)

    def __repr__(self):
        return "<%s %s>" % (self.kind, self.text)


class Mod:
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return "<module %s>" % self.path


class Fn:
    def __init__(self, node, env, mod, self_=None, decor=True):
        self.node, self.env, self.mod, self.self_, self.decor = node, env, mod, self_, decor


class Native:
    def __init__(self, name, f):
        self.name, self.f = name, f


class Cls:
    def __init__(self, node, env, mod, bases):
        self.node, self.env, self.mod, self.bases = node, env, mod, bases
        self.name = node.name

    def mro(self):
        out = [self]
        for b in self.bases:
            out += b.mro() if isinstance(b, Cls) else [b]
        return out

    def is_a(self, name):
        return any(getattr(c, "name", c) == name for c in self.mro())


class Ext:
    """a name of a library outside the repository"""
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "<ext %s>" % self.name


class EnumV:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __eq__(self, o):
        return isinstance(o, EnumV) and (o.cls.name, o.name) == (self.cls.name, self.name) or \
            self.cls.is_a("str") and o == self.value

    def __hash__(self):
        return hash(self.value)


class Inst:
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def __repr__(self):
        return "<%s %r>" % (self.cls.name, self.fields)


class Record:
    def __init__(self, **kw):
        self.fields = kw


class Iter:
    """an iterator: what is taken from it is gone"""
    def __init__(self, xs):
        self.xs = list(xs)

    def take(self):
        xs, self.xs = self.xs, []
        return xs

    def __iter__(self):
        while self.xs:
            yield self.xs.pop(0)


class PyObj:
    """a value of the standard library whose content is fully known (a regular expression, a match)"""
    def __init__(self, v):
        self.v = v


class Partial:
    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


COLF_PLAIN = {"StructType"}
AGG_DF = {"where", "filter", "withColumn", "select", "drop", "orderBy", "sort", "limit", "join", "union", "unionByName",
          "distinct", "dropDuplicates", "withColumnRenamed", "agg", "fillna", "alias", "toDF", "selectExpr"}
TYPES = {"str": str, "int": int, "float": float, "bool": bool, "list": list, "dict": dict, "tuple": tuple}
EXC = {"ValueError", "TypeError", "KeyError", "NotImplementedError", "Exception", "RuntimeError", "AttributeError",
       "IndexError", "StopIteration", "BaseException", "LookupError", "AssertionError", "NameError", "ValidationError"}
SUPER = {"KeyError": ["LookupError"], "IndexError": ["LookupError"], "NotImplementedError": ["RuntimeError"],
         "ValidationError": ["ValueError"]}


API = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks", "data",
                                  "pyspark_api.json")))
METHODS = {"col": set(API["Column"]), "df": set(API["DataFrame"]), "grouped": set(API["GroupedData"]),
           "spark": set(API["SparkSession"])}


def const(v):
    return ast.Constant(value=v)


def node_of(v):
    """Python text of a value"""
    if isinstance(v, Sym):
        return v.node
    if isinstance(v, EnumV):
        return const(v.value)
    if v is None or isinstance(v, (str, int, float, bool)):
        return const(v) if not (isinstance(v, (int, float)) and not isinstance(v, bool) and v < 0) else \
            ast.UnaryOp(op=ast.USub(), operand=const(-v))
    if isinstance(v, list):
        return ast.List(elts=[node_of(x) for x in v], ctx=ast.Load())
    if isinstance(v, tuple):
        return ast.Tuple(elts=[node_of(x) for x in v], ctx=ast.Load())
    if isinstance(v, dict):
        return ast.Dict(keys=[node_of(k) for k in v], values=[node_of(x) for x in v.values()])
    if isinstance(v, Ext):
        if v.name.endswith("functions") or "." not in v.name and v.name not in TYPES:
            raise Raised("TypeError", "the module %s is used as a value" % v.name)
        return ast.Name(id=v.name.rsplit(".", 1)[-1], ctx=ast.Load())
    if isinstance(v, (Fn, Partial)) and isinstance(getattr(v, "node", None), ast.Lambda):
        return v.node
    if isinstance(v, Inst):
        raise Raised("TypeError", "a %s object is passed where Spark expects a column or a plain value" % v.cls.name)
    raise Unknown("text of %r" % (v,))


class Package:
    """syntax trees of the package"""
    def __init__(self, repo):
        self.root = os.path.join(repo, "python")
        self.mods = {}

    def load(self, path):
        if path not in self.mods:
            base = os.path.join(self.root, *path.split("."))
            for p in (base + ".py", os.path.join(base, "__init__.py")):
                if os.path.exists(p):
                    self.mods[path] = (ast.parse(open(p, encoding="utf8").read()), p)
                    break
            else:
                self.mods[path] = None
        return self.mods[path]


class Trace:
    """one trace of the analysed program: the answers given to its symbolic questions"""
    def __init__(self, answers):
        self.answers, self.i, self.known, self.guards, self.open = answers, 0, {}, [], []

    def ask(self, key, options):
        if key in self.known:
            return self.known[key]
        if self.i < len(self.answers):
            a = self.answers[self.i]
        else:
            a = options[0]
            self.answers = self.answers + [a]
            for o in options[1:]:
                self.open.append(self.answers[:self.i] + [o])
        self.i += 1
        self.known[key] = a
        self.guards.append((key, a))
        return a


def traces(run, cap=400):
    """run(trace) for every trace -> [(guards, result | Raised)]"""
    todo, out = [[]], []
    while todo:
        if len(out) > cap:
            raise Unknown("more than %d traces" % cap)
        t = Trace(todo.pop())
        try:
            r = run(t)
        except Raised as e:
            r = e
        except Unknown:
            raise
        except Exception as e:      # a gap of the analyser, never a fact about the program
            raise Unknown("%s in the analyser: %s" % (type(e).__name__, e))
        out.append((t.guards, r))
        todo += t.open
    return out


class Interp:
    def __init__(self, pkg, trace, depth=0):
        self.pkg, self.t = pkg, trace
        self.genv = {}
        self.depth = 0
        self.steps = 0

    # ---- modules
    def module(self, path):
        if path in self.genv:
            return self.genv[path]
        src = self.pkg.load(path)
        if src is None:
            return None
        env = {"__name__": path}
        self.genv[path] = env
        env["__module__"] = path
        self.block(src[0].body, env, path)
        return env

    def import_name(self, mod, name):
        """`from mod import name`"""
        if mod.endswith("runtime.config") and name == "settings":
            return Native("settings", self.settings)
        if mod.startswith("spl_transpiler"):
            env = self.module(mod)
            if env is not None and name in env:
                return env[name]
            if self.pkg.load(mod + "." + name) is not None:
                self.module(mod + "." + name)
                return Mod(mod + "." + name)
            if env is not None and any(isinstance(s, ast.FunctionDef) and s.name == name for s in self.pkg.load(mod)[0].body):
                return Native("late:" + name, lambda *a, **k: self.call(self.module(mod)[name], list(a), k))
            raise Raised("ImportError", "cannot import %s from %s" % (name, mod))
        return Ext(mod + "." + name)

    def settings(self):
        """the user's settings: the table lookup is a function of the user's choice"""
        def lookup(*args, **kw):
            return Sym(self.callnode(ast.Name(id="TABLE", ctx=ast.Load()), args,
                                     {k: v for k, v in kw.items() if v is not None}), "df")
        return Record(table_lookup_function=Native("table_lookup_function", lookup))

    # ---- statements
    def block(self, body, env, mod):
        for s in body:
            self.steps += 1
            if self.steps > 200000:
                raise Unknown("too many steps")
            self.stmt(s, env, mod)

    def stmt(self, s, env, mod):
        k = type(s).__name__
        f = getattr(self, "s_" + k, None)
        if f is None:
            raise Unknown("statement " + k)
        f(s, env, mod)

    def s_Pass(self, s, env, mod):
        pass

    def s_Expr(self, s, env, mod):
        self.ev(s.value, env, mod)

    def s_Import(self, s, env, mod):
        for a in s.names:
            top = a.name.split(".")[0]
            if a.name.startswith("spl_transpiler"):
                self.module(a.name)
                env[a.asname or top] = Mod(a.name if a.asname else top)
            else:
                env[a.asname or top] = Ext(a.name if a.asname else top)

    def s_ImportFrom(self, s, env, mod):
        base = s.module or ""
        if s.level:
            src = self.pkg.load(mod)
            parts = mod.split(".")
            if not src[1].endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([base] if base else []))
        for a in s.names:
            env[a.asname or a.name] = self.import_name(base, a.name)

    def s_FunctionDef(self, s, env, mod):
        env[s.name] = Fn(s, env, mod)
        for i in reversed(range(len(s.decorator_list))):
            d = s.decorator_list[i]
            try:
                v = self.ev(d, env, mod)
            except (Unknown, Raised):
                continue
            if isinstance(v, (Fn, Native)) or isinstance(v, Partial) and isinstance(v.f, (Fn, Native)):
                if i:
                    raise Unknown("decorators around " + ast.unparse(d))
                inner = ast.FunctionDef(**{**{k: getattr(s, k) for k in s._fields}, "decorator_list": s.decorator_list[1:]})
                env[s.name] = self.call(v, [Fn(inner, env, mod)], {})

    def s_ClassDef(self, s, env, mod):
        bases = []
        for b in s.bases:
            try:
                v = self.ev(b, env, mod)
            except Unknown:
                v = Ext(ast.unparse(b))
            bases.append(v if isinstance(v, Cls) else (v.name.rsplit(".", 1)[-1] if isinstance(v, (Ext, Native)) else
                                                      getattr(v, "__name__", str(v))))
        env[s.name] = Cls(s, env, mod, bases)

    def s_Return(self, s, env, mod):
        raise Return(self.ev(s.value, env, mod) if s.value else None)

    def s_Raise(self, s, env, mod):
        e = s.exc
        if e is None:
            raise Raised(env.get("__exc__", "Exception"))
        n = e.func if isinstance(e, ast.Call) else e
        if isinstance(n, ast.Name) and n.id not in EXC:
            v = self.ev(n, env, mod)
            if isinstance(v, Sym) and v.text == "exc" and not isinstance(e, ast.Call):
                raise Raised(env.get("__exc__", "Exception"))
            if isinstance(v, Cls):
                for b in v.bases:
                    SUPER.setdefault(v.name, [b.name if isinstance(b, Cls) else str(b)])
                raise Raised(v.name)
            if not isinstance(v, Ext):
                raise Unknown("raise " + ast.unparse(e))
        msg = ast.unparse(e.args[0]) if isinstance(e, ast.Call) and e.args else ""
        raise Raised(ast.unparse(n).rsplit(".", 1)[-1], msg)

    def s_Assert(self, s, env, mod):
        if not self.truth(self.ev(s.test, env, mod)):
            raise Raised("AssertionError", ast.unparse(s.test))

    def s_If(self, s, env, mod):
        self.block(s.body if self.truth(self.ev(s.test, env, mod)) else s.orelse, env, mod)

    def s_Assign(self, s, env, mod):
        v = self.ev(s.value, env, mod)
        for t in s.targets:
            self.bind(t, v, env, mod)

    def s_AnnAssign(self, s, env, mod):
        if s.value is not None:
            self.bind(s.target, self.ev(s.value, env, mod), env, mod)

    def s_AugAssign(self, s, env, mod):
        cur = self.ev(ast.copy_location(self.load(s.target), s.target), env, mod)
        v = self.ev(s.value, env, mod)
        if isinstance(cur, list) and isinstance(s.op, ast.Add):
            cur.extend(self.items(v))
            return
        self.bind(s.target, self.binop(s.op, cur, v), env, mod)

    @staticmethod
    def load(t):
        c = ast.parse(ast.unparse(t), mode="eval").body
        return c

    def s_For(self, s, env, mod):
        src = self.ev(s.iter, env, mod)
        for x in src if isinstance(src, Iter) else self.items(src):
            self.bind(s.target, x, env, mod)
            try:
                self.block(s.body, env, mod)
            except Break:
                return
            except Continue:
                continue
        self.block(s.orelse, env, mod)

    def s_While(self, s, env, mod):
        for _ in range(200):
            if not self.truth(self.ev(s.test, env, mod)):
                self.block(s.orelse, env, mod)
                return
            try:
                self.block(s.body, env, mod)
            except Break:
                return
            except Continue:
                continue
        raise Unknown("loop without bound")

    def s_Break(self, s, env, mod):
        raise Break()

    def s_Continue(self, s, env, mod):
        raise Continue()

    def s_Try(self, s, env, mod):
        try:
            self.block(s.body, env, mod)
        except Raised as e:
            for h in s.handlers:
                names = []
                if h.type is not None:
                    names = [ast.unparse(x).rsplit(".", 1)[-1] for x in
                             (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                if h.type is None or any(n in ("Exception", "BaseException") or n in lineage(e.name) for n in names):
                    if h.name:
                        env[h.name] = Sym(ast.Name(id="exc", ctx=ast.Load()))
                    env["__exc__"] = e.name
                    self.block(h.body, env, mod)
                    break
            else:
                self.block(s.finalbody, env, mod)
                raise
        else:
            self.block(s.orelse, env, mod)
        self.block(s.finalbody, env, mod)

    def s_With(self, s, env, mod):
        if len(s.items) == 1 and isinstance(s.items[0].context_expr, ast.Call):
            c = s.items[0].context_expr
            f = self.ev(c.func, env, mod)
            if isinstance(f, Ext) and f.name.endswith("suppress"):
                names = [ast.unparse(x).rsplit(".", 1)[-1] for x in c.args]
                try:
                    self.block(s.body, env, mod)
                except Raised as e:
                    if not any(n in ("Exception", "BaseException") or n in lineage(e.name) for n in names):
                        raise
                return
        for i in s.items:
            v = self.ev(i.context_expr, env, mod)
            if i.optional_vars is not None:
                self.bind(i.optional_vars, v, env, mod)
        self.block(s.body, env, mod)

    def s_Global(self, s, env, mod):
        raise Unknown("global state")

    def s_Nonlocal(self, s, env, mod):
        env.setdefault("__nonlocal__", set()).update(s.names)

    def s_Delete(self, s, env, mod):
        for t in s.targets:
            if isinstance(t, ast.Name) and t.id in env:
                del env[t.id]
                continue
            if isinstance(t, ast.Subscript):
                o = self.ev(t.value, env, mod)
                if isinstance(t.slice, ast.Slice):
                    k = slice(*[None if x is None else self.ev(x, env, mod) for x in (t.slice.lower, t.slice.upper, t.slice.step)])
                    ok = all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step))
                else:
                    k = self.ev(t.slice, env, mod)
                    ok = not isinstance(k, Sym)
                if isinstance(o, (list, dict)) and ok:
                    try:
                        del o[k]
                    except (KeyError, IndexError) as e:
                        raise Raised(type(e).__name__, str(e))
                    continue
            raise Unknown("del")

    def s_Match(self, s, env, mod):
        v = self.ev(s.subject, env, mod)
        for c in s.cases:
            new = {}
            if self.pattern(c.pattern, v, env, mod, new):
                env.update(new)
                if c.guard is None or self.truth(self.ev(c.guard, env, mod)):
                    self.block(c.body, env, mod)
                    return

    def pattern(self, p, v, env, mod, new):
        if isinstance(p, ast.MatchSingleton):
            if isinstance(v, Sym) and v.kind == "any":
                raise Unknown("match %s" % v.text)
            return v is p.value
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare(ast.Eq(), v, self.ev(p.value, env, mod)))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, env, mod, new):
                return False
            if p.name:
                new[p.name] = v
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(q, v, env, mod, new) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (list, tuple)):
                if isinstance(v, Sym):
                    raise Unknown("match sequence " + v.text)
                return False
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Unknown("starred pattern")
            return len(v) == len(p.patterns) and all(self.pattern(q, x, env, mod, new) for q, x in zip(p.patterns, v))
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
            return self.isinstance(v, self.ev(p.cls, env, mod))
        if isinstance(p, ast.MatchClass) and len(p.patterns) == 1 and not p.kwd_patterns:
            return self.isinstance(v, self.ev(p.cls, env, mod)) and self.pattern(p.patterns[0], v, env, mod, new)
        raise Unknown("pattern " + ast.unparse(p))

    def bind(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            if t.id in env.get("__nonlocal__", ()):
                e = env["__outer__"]
                while e is not None and t.id not in e:
                    e = e.get("__outer__")
                if e is None:
                    raise Unknown("nonlocal " + t.id)
                e[t.id] = v
            else:
                env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.items(v)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                i = next(i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred))
                n = len(vs) - len(t.elts) + 1
                if n < 0:
                    raise Raised("ValueError", "not enough values to unpack")
                vs = vs[:i] + [vs[i:i + n]] + vs[i + n:]
                t = ast.Tuple(elts=[x.value if isinstance(x, ast.Starred) else x for x in t.elts])
            if len(vs) != len(t.elts):
                raise Raised("ValueError", "cannot unpack %d values into %d" % (len(vs), len(t.elts)))
            for x, y in zip(t.elts, vs):
                self.bind(x, y, env, mod)
        elif isinstance(t, ast.Subscript):
            o, k = self.ev(t.value, env, mod), self.ev(t.slice, env, mod)
            if isinstance(o, dict) and not isinstance(k, Sym):
                o[k] = v
            elif isinstance(o, list) and isinstance(k, int):
                o[k] = v
            else:
                raise Unknown("store " + ast.unparse(t))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            if isinstance(o, Inst):
                o.fields[t.attr] = v
            else:
                raise Unknown("store " + ast.unparse(t))
        else:
            raise Unknown("target " + ast.unparse(t))

    # ---- expressions
    def ev(self, n, env, mod):
        f = getattr(self, "e_" + type(n).__name__, None)
        if f is None:
            raise Unknown("expression " + type(n).__name__)
        return f(n, env, mod)

    def e_Constant(self, n, env, mod):
        return n.value

    def e_Name(self, n, env, mod):
        e = env
        while e is not None:
            if n.id in e:
                return e[n.id]
            e = e.get("__outer__")
        if n.id.startswith("hq7"):
            return Sym(ast.Name(id=n.id, ctx=ast.Load()), "num")
        return self.builtin(n.id)

    def builtin(self, name):
        f = getattr(self, "b_" + name, None)
        if f is not None:
            return Native(name, f)
        if name in TYPES or name in EXC or name in ("object", "type", "property"):
            return Ext(name)
        if hasattr(builtins, name):
            raise Unknown("builtin " + name)
        raise Raised("NameError", "name %r is not defined" % name)

    def e_Tuple(self, n, env, mod):
        return tuple(self.elts(n.elts, env, mod))

    def e_List(self, n, env, mod):
        return self.elts(n.elts, env, mod)

    def e_Set(self, n, env, mod):
        return self.elts(n.elts, env, mod)

    def elts(self, es, env, mod):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out += self.items(self.ev(e.value, env, mod))
            else:
                out.append(self.ev(e, env, mod))
        return out

    def e_Dict(self, n, env, mod):
        out = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                out.update(self.ev(v, env, mod))
            else:
                key = self.ev(k, env, mod)
                if isinstance(key, Sym):
                    raise Unknown("symbolic key")
                out[key] = self.ev(v, env, mod)
        return out

    def e_JoinedStr(self, n, env, mod):
        parts, sym = [], False
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
                continue
            x = self.ev(v.value, env, mod)
            if v.format_spec is not None or v.conversion not in (-1, 115):
                raise Unknown("format " + ast.unparse(v))
            if isinstance(x, EnumV):
                x = x.value if "value" in ast.unparse(v.value) or not x.cls.is_a("str") else x.value
            if isinstance(x, Inst):
                x = self.call(self.attr(x, "__str__"), [], {})
            if isinstance(x, Sym):
                sym = True
            elif not isinstance(x, (str, int, float)):
                raise Unknown("format %r" % (x,))
            parts.append(x)
        if not sym:
            return "".join(map(str, parts))
        return self.concat(parts)

    @staticmethod
    def concat(parts):
        vals = []
        for p in parts:
            if isinstance(p, Sym):
                if isinstance(p.node, ast.JoinedStr):
                    vals += p.node.values
                else:
                    vals.append(ast.FormattedValue(value=p.node, conversion=-1, format_spec=None))
            elif str(p):
                if vals and isinstance(vals[-1], ast.Constant):
                    vals[-1] = const(vals[-1].value + str(p))
                else:
                    vals.append(const(str(p)))
        return Sym(ast.JoinedStr(values=vals), "str")

    def e_FormattedValue(self, n, env, mod):
        return self.ev(n.value, env, mod)

    def e_Starred(self, n, env, mod):
        raise Unknown("starred")

    def e_NamedExpr(self, n, env, mod):
        v = self.ev(n.value, env, mod)
        self.bind(n.target, v, env, mod)
        return v

    def e_IfExp(self, n, env, mod):
        return self.ev(n.body if self.truth(self.ev(n.test, env, mod)) else n.orelse, env, mod)

    def e_BoolOp(self, n, env, mod):
        v = None
        for e in n.values:
            v = self.ev(e, env, mod)
            if self.truth(v) != isinstance(n.op, ast.And):
                return v
        return v

    def e_Lambda(self, n, env, mod):
        return Fn(n, env, mod)

    def e_Yield(self, n, env, mod):
        self.frame(env)["__yield__"].append(self.ev(n.value, env, mod) if n.value else None)

    def e_YieldFrom(self, n, env, mod):
        self.frame(env)["__yield__"] += self.items(self.ev(n.value, env, mod))

    @staticmethod
    def frame(env):
        while "__yield__" not in env:
            env = env.get("__outer__")
            if env is None:
                raise Unknown("yield outside a function")
        return env

    def e_UnaryOp(self, n, env, mod):
        v = self.ev(n.operand, env, mod)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, Sym):
            if isinstance(n.op, ast.Invert) and v.kind not in ("col", "any"):
                raise Raised("TypeError", "~ of %r" % v)
            return Sym(ast.UnaryOp(op=n.op, operand=v.node), v.kind)
        if isinstance(v, (int, float)):
            return {"USub": lambda: -v, "UAdd": lambda: v, "Invert": lambda: ~v}[type(n.op).__name__]()
        if v is None or isinstance(v, (str, list, tuple, dict, Inst)):
            raise Raised("TypeError", "operator %s on %r" % (type(n.op).__name__, v))
        raise Unknown("operator %s on %r" % (type(n.op).__name__, v))

    def e_BinOp(self, n, env, mod):
        return self.binop(n.op, self.ev(n.left, env, mod), self.ev(n.right, env, mod))

    def binop(self, op, a, b):
        a, b = self.plainattr(a), self.plainattr(b)
        name = {"Add": "__add__", "Sub": "__sub__", "BitAnd": "__and__", "BitOr": "__or__", "Mult": "__mul__",
                "Mod": "__mod__", "Div": "__truediv__"}.get(type(op).__name__)
        if isinstance(a, Inst) and name and self.lookup(a.cls, name):
            return self.call(self.attr(a, name), [b], {})
        if isinstance(b, Inst) and name and self.lookup(b.cls, "__r" + name[2:]):
            return self.call(self.attr(b, "__r" + name[2:]), [a], {})
        if any(isinstance(x, EnumV) and x.cls.is_a("str") for x in (a, b)):
            a, b = (x.value if isinstance(x, EnumV) else x for x in (a, b))
        if isinstance(a, Inst) or isinstance(b, Inst):
            raise Raised("TypeError", "operator %s on %r and %r" % (type(op).__name__, a, b))
        if isinstance(a, Sym) or isinstance(b, Sym):
            ks = {x.kind for x in (a, b) if isinstance(x, Sym)}
            if "df" in ks or "grouped" in ks:
                raise Raised("TypeError", "operator on a dataframe")
            if isinstance(op, ast.Add) and (isinstance(a, str) or isinstance(b, str) or ks == {"str"}) and "col" not in ks:
                return self.concat([a, b])
            if None in (a, b) if not isinstance(a, Sym) and not isinstance(b, Sym) else (a is None or b is None):
                if "col" not in ks:
                    raise Raised("TypeError", "operator on None")
            kind = "col" if "col" in ks else "list" if ks & {"list"} else "num" if ks <= {"num", "int"} else "any"
            return Sym(ast.BinOp(left=node_of(a), op=op, right=node_of(b)), kind)
        if isinstance(a, Ext) or isinstance(b, Ext) or isinstance(a, Cls) or isinstance(b, Cls):
            return Ext("union")
        if any(not isinstance(x, (str, int, float, bool, list, tuple, dict, type(None))) for x in (a, b)):
            raise Unknown("operator %s on %r and %r" % (type(op).__name__, a, b))
        py = {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b,
              "FloorDiv": lambda: a // b, "Mod": lambda: a % b, "Pow": lambda: a ** b, "BitOr": lambda: a | b,
              "BitAnd": lambda: a & b, "BitXor": lambda: a ^ b, "LShift": lambda: a << b,
              "RShift": lambda: a >> b}.get(type(op).__name__)
        if py is None:
            raise Unknown("operator " + type(op).__name__)
        try:
            return py()
        except TypeError as e:
            raise Raised("TypeError", str(e))
        except ZeroDivisionError as e:
            raise Raised("ZeroDivisionError", str(e))

    def e_Compare(self, n, env, mod):
        left = self.ev(n.left, env, mod)
        r = True
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, env, mod)
            r = self.compare(op, left, right)
            if len(n.ops) > 1 and not self.truth(r):
                return False
            left = right
        return r

    def compare(self, op, a, b):
        k = type(op).__name__
        a, b = self.plainattr(a), self.plainattr(b)
        if k in ("Is", "IsNot"):
            if isinstance(a, Sym) and a.kind == "any" or isinstance(b, Sym) and b.kind == "any":
                s = Sym(ast.Compare(left=node_of(a), ops=[ast.Is()], comparators=[node_of(b)]), "cond")
                return self.truth(s) == (k == "Is")
            same = a is b if not isinstance(a, EnumV) else a == b
            return same == (k == "Is")
        if k in ("In", "NotIn"):
            if isinstance(b, (dict, list, tuple, str)) and not isinstance(a, Sym):
                if isinstance(b, str) and not isinstance(a, str):
                    raise Raised("TypeError", "in")
                r = any(self.truth(self.compare(ast.Eq(), a, x)) for x in b) if not isinstance(b, str) else a in b
                return r == (k == "In")
            s = Sym(ast.Compare(left=node_of(a), ops=[ast.In()], comparators=[node_of(b)]), "cond")
            return self.truth(s) == (k == "In")
        if isinstance(a, Inst) or isinstance(b, Inst):
            if k in ("Eq", "NotEq"):
                if isinstance(a, Inst) and isinstance(b, Inst):
                    raise Unknown("comparison of models")
                if isinstance(a, Sym) or isinstance(b, Sym):
                    raise Raised("TypeError", "%r compared with %r" % (a, b))
                return k == "NotEq"
            raise Raised("TypeError", "%r compared with %r" % (a, b))
        if isinstance(a, Sym) or isinstance(b, Sym):
            ks = {x.kind for x in (a, b) if isinstance(x, Sym)}
            node = ast.Compare(left=node_of(a), ops=[op], comparators=[node_of(b)])
            if "col" in ks:
                return Sym(node, "col")
            if k == "NotEq":
                return not self.truth(Sym(ast.Compare(left=node_of(a), ops=[ast.Eq()], comparators=[node_of(b)]), "cond"))
            return Sym(node, "cond")
        if any(isinstance(x, (Fn, Native, Partial, Iter, PyObj)) for x in (a, b)):
            raise Unknown("comparison of %r and %r" % (a, b))
        try:
            return {"Eq": lambda: a == b, "NotEq": lambda: a != b, "Lt": lambda: a < b, "LtE": lambda: a <= b,
                    "Gt": lambda: a > b, "GtE": lambda: a >= b}[k]()
        except TypeError as e:
            raise Raised("TypeError", str(e))

    def truth(self, v):
        if isinstance(v, Sym):
            if v.kind == "col":
                raise Raised("ValueError", "a Column has no truth value")
            if v.kind in ("df", "grouped"):
                return True
            return self.t.ask(v.text, [True, False])
        if isinstance(v, Inst):
            return True
        if isinstance(v, (Fn, Cls, Mod, Ext, Native, Partial)):
            return True
        if isinstance(v, EnumV):
            return bool(v.value) if v.cls.is_a("str") or v.cls.is_a("int") else True
        return bool(v)

    def e_Subscript(self, n, env, mod):
        o = self.ev(n.value, env, mod)
        if isinstance(o, (Ext, Cls)) or o is None:
            return Ext("generic")
        if isinstance(n.slice, ast.Slice):
            b = [self.ev(x, env, mod) if x is not None else None for x in (n.slice.lower, n.slice.upper, n.slice.step)]
            if isinstance(o, (list, tuple, str)) and not any(isinstance(x, Sym) for x in b):
                return o[slice(*b)]
            if isinstance(o, Sym) and not any(isinstance(x, Sym) for x in b):
                return Sym(ast.Subscript(value=o.node, slice=ast.Slice(*[None if x is None else node_of(x) for x in b]),
                                         ctx=ast.Load()), o.kind)
            raise Unknown("slice")
        k = self.ev(n.slice, env, mod)
        return self.index(o, k)

    def index(self, o, k):
        if isinstance(o, Inst) and o.cls.name:
            m = self.lookup(o.cls, "__getitem__")
            if m is not None:
                return self.call(m, [o, k], {})
        if isinstance(o, dict):
            if isinstance(k, Sym):
                keys = list(o)
                a = self.t.ask(k.text + " key", [("eq", x) for x in range(len(keys))] + [("none", 0)])
                if a[0] == "none":
                    raise Raised("KeyError", k.text)
                return o[keys[a[1]]]
            if k in o:
                return o[k]
            raise Raised("KeyError", repr(k))
        if isinstance(o, (list, tuple, str)) and isinstance(k, int):
            try:
                return o[k]
            except IndexError:
                raise Raised("IndexError", "index %d of %d" % (k, len(o)))
        if isinstance(o, Sym):
            kind = "col" if o.kind in ("df", "col") else "any"
            return Sym(ast.Subscript(value=o.node, slice=node_of(k), ctx=ast.Load()), kind)
        raise Unknown("index of %r" % (o,))

    def comp(self, gens, env, mod, f):
        out = []

        def go(i, e):
            if i == len(gens):
                out.append(f(e))
                return
            g = gens[i]
            for x in self.items(self.ev(g.iter, e, mod)):
                e2 = dict(e)
                e2["__outer__"] = e
                self.bind(g.target, x, e2, mod)
                if all(self.truth(self.ev(c, e2, mod)) for c in g.ifs):
                    go(i + 1, e2)
        go(0, {"__outer__": env})
        return out

    def e_ListComp(self, n, env, mod):
        return self.comp(n.generators, env, mod, lambda e: self.ev(n.elt, e, mod))

    def e_SetComp(self, n, env, mod):
        return self.unique(self.e_ListComp(n, env, mod))

    @staticmethod
    def unique(xs):
        out = []
        for x in xs:
            if isinstance(x, Sym):
                if len(xs) > 1:
                    raise Unknown("set of unknown elements")
            if not any(type(x) is type(y) and x == y for y in out):
                out.append(x)
        return out

    def e_GeneratorExp(self, n, env, mod):
        return Iter(self.e_ListComp(n, env, mod))

    def e_DictComp(self, n, env, mod):
        if len(n.generators) == 1 and not n.generators[0].ifs:
            src = self.plainattr(self.ev(n.generators[0].iter, env, mod))
            types = self.schema(src)
            if types is not None:
                e = {"__outer__": env}
                k, v = self.column(types, "k"), self.column(types, "v")
                self.bind(n.generators[0].target, (k, v), e, mod)
                if self.ev(n.key, e, mod) is k and self.ev(n.value, e, mod) is v:
                    return types
                raise Unknown("mapping made of the columns' types")
        return dict(self.comp(n.generators, env, mod, lambda e: (self.ev(n.key, e, mod), self.ev(n.value, e, mod))))

    @staticmethod
    def schema(v):
        """df.dtypes, or the items of dict(df.dtypes) -> dict(df.dtypes)"""
        if isinstance(v, Sym):
            if isinstance(v.node, ast.Attribute) and v.node.attr == "dtypes":
                return Sym(ast.Call(func=ast.Name(id="dict", ctx=ast.Load()), args=[v.node], keywords=[]), "any")
            n = v.node
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "items" and \
                    ast.unparse(n.func.value).startswith("dict("):
                return Sym(n.func.value, "any")
        return None

    @staticmethod
    def column(types, i):
        if not isinstance(i, int):
            return Sym(ast.Name(id=i, ctx=ast.Load()), "str")
        return Sym(ast.Subscript(value=ast.Call(func=ast.Name(id="list", ctx=ast.Load()), args=[types.node], keywords=[]),
                                 slice=const(i), ctx=ast.Load()), "str")

    def items(self, v):
        v = self.plainattr(v)
        if isinstance(v, Iter):
            return v.take()
        types = self.schema(v)
        if types is not None:
            n = self.t.ask("len(%s)" % types.text, [0, 1, 2])
            cols = [self.column(types, i) for i in range(n)]
            return [(c, Sym(ast.Subscript(value=types.node, slice=c.node, ctx=ast.Load()), "any")) for c in cols]
        if isinstance(v, Sym) and isinstance(v.node, ast.Call) and isinstance(v.node.func, ast.Attribute) and \
                v.node.func.attr == "keys":
            v = Sym(v.node.func.value, "any")
        if isinstance(v, Sym) and isinstance(v.node, ast.Call) and ast.unparse(v.node.func) == "dict" and \
                isinstance(v.node.args[0], ast.Attribute):
            n = self.t.ask("len(%s)" % v.text, [0, 1, 2])
            return [self.column(v, i) for i in range(n)]
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Sym):
            if v.kind == "col":
                raise Raised("TypeError", "Column is not iterable")
            if v.kind in ("df", "grouped", "num", "int"):
                raise Raised("TypeError", "%s is not iterable" % v.kind)
            n = self.t.ask("len(%s)" % v.text, [0, 1, 2])
            return [Sym(ast.Subscript(value=v.node, slice=const(i), ctx=ast.Load()), "str" if v.kind == "strs" else "any")
                    for i in range(n)]
        if isinstance(v, Cls) and v.is_a("Enum"):
            return self.members(v)
        if isinstance(v, Inst):
            m = self.lookup(v.cls, "__iter__")
            if m is not None:
                return self.items(self.call(m, [v], {}))
            raise Raised("TypeError", "%s is not a list of arguments" % v.cls.name)
        if v is None or isinstance(v, (int, float, Fn)):
            raise Raised("TypeError", "%r is not iterable" % (v,))
        raise Unknown("iteration of %r" % (v,))

    def e_Attribute(self, n, env, mod):
        o = self.ev(n.value, env, mod)
        return self.attr(o, n.attr)

    def members(self, c):
        out = []
        for s in c.node.body:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                out.append(EnumV(c, s.targets[0].id, self.ev(s.value, c.env, c.mod)))
        return out

    def lookup(self, c, name):
        """a method of a class of the package"""
        for k in c.mro():
            if isinstance(k, Cls):
                for s in k.node.body:
                    if isinstance(s, ast.FunctionDef) and s.name == name:
                        return Fn(s, k.env, k.mod, decor=False)
        return None

    @staticmethod
    def bound(m, o):
        """the method as seen through an object"""
        kinds = [ast.unparse(d) for d in m.node.decorator_list]
        if "staticmethod" in kinds:
            o = None
        elif "classmethod" in kinds:
            o = o.cls if isinstance(o, (Inst, EnumV)) else o
        elif isinstance(o, Cls):
            o = None
        return Fn(m.node, m.env, m.mod, self_=o, decor=False)

    def classattr(self, c, name):
        """a plain attribute assigned in a class of the package -> [value]"""
        for k in c.mro():
            if isinstance(k, Cls):
                for s in k.node.body:
                    if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets) or \
                            isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.target.id == name and s.value:
                        return [self.ev(s.value, k.env, k.mod)]
        return None

    def wrap(self, v):
        if v is None or isinstance(v, (str, int, float, bool)):
            return v
        if isinstance(v, (list, tuple)):
            return type(v)(self.wrap(x) for x in v)
        if isinstance(v, dict):
            return {k: self.wrap(x) for k, x in v.items()}
        if isinstance(v, (re.Match, re.Pattern)):
            return PyObj(v)
        if hasattr(v, "__next__"):
            return Iter([self.wrap(x) for x in v])
        raise Unknown("value %r of the standard library" % (v,))

    def attr(self, o, a):
        if isinstance(o, Mod):
            env = self.module(o.path)
            if env is not None and a in env:
                return env[a]
            if self.pkg.load(o.path + "." + a) is not None:
                self.module(o.path + "." + a)
                return Mod(o.path + "." + a)
            if a.startswith("__"):
                raise Unknown("attribute %s of a module" % a)
            raise Raised("AttributeError", "module %s has no attribute %s" % (o.path, a))
        if isinstance(o, Ext):
            if o.name == "math" and a in ("pi", "e", "tau", "inf", "nan"):
                return getattr(math, a)
            return Ext(o.name + "." + a)
        if isinstance(o, Cls):
            if o.is_a("Enum"):
                for m in self.members(o):
                    if m.name == a:
                        return m
            m = self.lookup(o, a)
            if m is not None:
                return self.bound(m, o)
            v = self.classattr(o, a)
            if v is not None:
                return v[0]
            if a.startswith(("__", "model_")):
                raise Unknown("attribute %s of %s" % (a, o.name))
            raise Raised("AttributeError", "%s has no attribute %s" % (o.name, a))
        if isinstance(o, EnumV):
            if a == "value":
                return o.value
            if a == "name":
                return o.name
            for m in self.members(o.cls):
                if m.name == a:
                    return m
            m = self.lookup(o.cls, a)
            if m is not None:
                if any(ast.unparse(d) == "property" for d in m.node.decorator_list):
                    return self.call(m, [o], {})
                return self.bound(m, o)
            if isinstance(o.value, str) and hasattr(str, a):
                return Partial("strmethod", [o.value, a], {})
            if a.startswith("__"):
                raise Unknown("attribute %s of %s" % (a, o.cls.name))
            raise Raised("AttributeError", "%s has no attribute %s" % (o.cls.name, a))
        if isinstance(o, Record) and a in o.fields:
            return o.fields[a]
        if isinstance(o, Inst):
            if a in o.fields:
                return o.fields[a]
            m = self.lookup(o.cls, a)
            if m is not None:
                if any(ast.unparse(d) == "property" for d in m.node.decorator_list):
                    return self.call(m, [o], {})
                return self.bound(m, o)
            if a == "__class__":
                return o.cls
            v = self.classattr(o.cls, a)
            if v is not None:
                return v[0]
            if a.startswith(("__", "model_")):
                raise Unknown("attribute %s of %s" % (a, o.cls.name))
            raise Raised("AttributeError", "%s has no attribute %s" % (o.cls.name, a))
        if isinstance(o, Partial) and o.f == "method":
            o = self.plainattr(o)
        if isinstance(o, PyObj):
            v = getattr(o.v, a)
            return Native(a, lambda *x, **k: self.wrap(v(*x, **k))) if callable(v) else self.wrap(v)
        if isinstance(o, Sym):
            return Partial("method", [o, a], {})
        if isinstance(o, (str, list, dict, tuple)):
            if not hasattr(type(o), a):
                raise Raised("AttributeError", "%s has no attribute %s" % (type(o).__name__, a))
            return Partial("pymethod", [o, a], {})
        if isinstance(o, (int, float)) and hasattr(type(o), a):
            raise Unknown("attribute %s of a number" % a)
        if o is None and a.startswith("__") or isinstance(o, Fn) and a.startswith("__"):
            raise Unknown("attribute %s of %r" % (a, o))
        if isinstance(o, Fn) or o is None or isinstance(o, (int, float)):
            raise Raised("AttributeError", "%r has no attribute %s" % (o, a))
        raise Unknown("attribute %s of %r" % (a, o))

    # ---- calls
    def e_Call(self, n, env, mod):
        f = self.ev(n.func, env, mod)
        args = self.elts(n.args, env, mod)
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.ev(k.value, env, mod)
                if not isinstance(v, dict):
                    raise Unknown("** of %r" % (v,))
                for x, y in v.items():
                    if x in kw:
                        raise Raised("TypeError", "repeated keyword " + x)
                    kw[x] = y
            else:
                kw[k.arg] = self.ev(k.value, env, mod)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        self.depth += 1
        if self.depth > 60:
            raise Unknown("recursion")
        try:
            if isinstance(f, Fn):
                return self.call_fn(f, args, kw)
            if isinstance(f, Native):
                return f.f(*args, **kw)
            if isinstance(f, Cls):
                return self.construct(f, args, kw)
            if isinstance(f, Partial):
                return self.call_partial(f, args, kw)
            if isinstance(f, Ext):
                return self.external(f.name, args, kw)
            if isinstance(f, Sym):
                return Sym(self.callnode(f.node, args, kw), "any")
            if isinstance(f, Inst) and self.lookup(f.cls, "__call__"):
                return self.call(self.attr(f, "__call__"), args, kw)
            if f is not None and not isinstance(f, (str, int, float, list, tuple, dict, Inst)):
                raise Unknown("call of %r" % (f,))
            raise Raised("TypeError", "%r is not callable" % (f,))
        finally:
            self.depth -= 1

    @staticmethod
    def callnode(fn, args, kw):
        return ast.Call(func=fn, args=[node_of(a) for a in args],
                        keywords=[ast.keyword(arg=k, value=node_of(v)) for k, v in kw.items()])

    def call_partial(self, p, args, kw):
        if p.f == "method":
            o, a = p.args
            if o.kind == "str" and hasattr(str, a):
                return Sym(self.callnode(ast.Attribute(value=o.node, attr=a, ctx=ast.Load()), args, kw),
                           "strs" if a in ("split", "rsplit", "splitlines", "partition", "rpartition") else
                           "cond" if a.endswith("with") or a.startswith("is") else
                           "int" if a in ("find", "index", "count", "rfind", "rindex") else "any" if a == "encode" else "str")
            kind = o.kind
            dunder = {"__eq__": ast.Eq, "__ne__": ast.NotEq, "__lt__": ast.Lt, "__le__": ast.LtE, "__gt__": ast.Gt,
                      "__ge__": ast.GtE}.get(a)
            if dunder and len(args) == 1:
                return self.compare(dunder(), o, args[0])
            dunder = {"__and__": ast.BitAnd, "__or__": ast.BitOr, "__add__": ast.Add, "__sub__": ast.Sub, "__mul__": ast.Mult,
                      "__truediv__": ast.Div, "__mod__": ast.Mod}.get(a)
            if dunder and len(args) == 1:
                return self.binop(dunder(), o, args[0])
            known = METHODS.get(kind)
            if known is not None and a not in known:
                raise Raised("AttributeError", "a %s has no method %s" % (kind, a))
            if kind == "spark":
                kind = "df"
            if o.kind == "df":
                kind = "grouped" if a in ("groupBy", "groupby") else "df" if a in AGG_DF else "any"
            elif o.kind == "grouped":
                kind = "df"
            elif o.kind in ("num", "int", "str", "cond"):
                if o.kind != "str" and hasattr(float, a) or hasattr(int, a):
                    raise Unknown("method %s of a number" % a)
                raise Raised("AttributeError", "%r has no method %s" % (o, a))
            if any(isinstance(x, Inst) for x in list(args) + list(kw.values())):
                raise Raised("TypeError", "a model object is passed to %s" % a)
            return Sym(self.callnode(ast.Attribute(value=o.node, attr=a, ctx=ast.Load()), args, kw), kind)
        if p.f in ("pymethod", "strmethod"):
            o, a = p.args
            if isinstance(o, (list, dict)) and a in ("append", "extend", "insert", "update", "setdefault", "pop", "get", "items",
                                                     "keys", "values", "copy", "index", "reverse", "clear", "popitem", "remove", "count"):
                if a in ("index", "remove", "count") and any(isinstance(x, (Sym, Inst)) for x in list(args) + list(o)):
                    raise Unknown("%s among unknown values" % a)
                if a == "extend":
                    args = [self.items(args[0])]
                if a == "update" and args and not isinstance(args[0], dict):
                    args = [{k: v for k, v in (self.items(x) for x in self.items(args[0]))}]
                if a in ("items", "keys", "values"):
                    return [x for x in getattr(o, a)()]
                if a == "get" and isinstance(args[0], Sym):
                    raise Unknown("get with symbolic key")
                try:
                    return getattr(o, a)(*args, **kw)
                except (KeyError, IndexError, TypeError, ValueError) as e:
                    raise Raised(type(e).__name__, str(e))
            if isinstance(o, str):
                if a == "join":
                    xs = self.items(args[0])
                    if any(isinstance(x, Sym) for x in xs):
                        parts = []
                        for i, x in enumerate(xs):
                            parts += ([o] if i else []) + [x]
                        return self.concat(parts)
                    if not all(isinstance(x, str) for x in xs):
                        raise Raised("TypeError", "join of non-text")
                    return o.join(xs)
                if any(isinstance(x, Sym) for x in list(args) + list(kw.values())):
                    return Sym(self.callnode(ast.Attribute(value=const(o), attr=a, ctx=ast.Load()), args, kw), "str")
                if any("hq7" in x for x in [o] if isinstance(x, str)) and a not in ("split", "replace", "removeprefix"):
                    raise Unknown("text method %s on %r" % (a, o))
                r = getattr(o, a)(*args, **kw)
                return r
            raise Unknown("method %s of %r" % (a, o))
        if callable(p.f):
            return p.f(*p.args, *args, **{**p.kw, **kw})
        return self.call(p.f, list(p.args) + list(args), {**p.kw, **kw})

    def params(self, f, args, kw):
        """binds arguments -> {name: value}, raising TypeError as Python would"""
        a = f.node.args
        name = getattr(f.node, "name", "lambda")
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        posonly = {x.arg for x in a.posonlyargs}
        out, kw = {}, dict(kw)
        args = list(args)
        for p, v in zip(pos, args):
            out[p] = v
        rest = args[len(pos):]
        if a.vararg:
            out[a.vararg.arg] = tuple(rest)
        elif rest:
            raise Raised("TypeError", "%s takes %d positional arguments but %d were given" % (name, len(pos), len(args)))
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in pos and k not in posonly or k in kwonly:
                if k in out:
                    raise Raised("TypeError", "%s got multiple values for argument %s" % (name, k))
                out[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            out[a.kwarg.arg] = extra
        elif extra:
            raise Raised("TypeError", "%s got an unexpected keyword argument %s" % (name, sorted(extra)[0]))
        ds = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        ds.update({k: d for k, d in zip(kwonly, a.kw_defaults) if d is not None})
        defaults = set()
        for p in pos + kwonly:
            if p not in out:
                if p not in ds:
                    raise Raised("TypeError", "%s lacks the argument %s" % (name, p))
                out[p] = self.ev(ds[p], f.env, f.mod)
                defaults.add(p)
        return out, defaults

    def call_fn(self, f, args, kw):
        if f.self_ is not None:
            args = [f.self_] + list(args)
        if isinstance(f.node, ast.Lambda):
            env, _ = self.params(f, args, kw)
            env["__outer__"] = f.env
            return self.ev(f.node.body, env, f.mod)
        config = None
        if f.decor:
            for d in f.node.decorator_list:
                v = self.ev(d, f.env, f.mod)
                c = self.validator(v)
                if c is not None:
                    config = c
                elif isinstance(v, Ext) and v.name.rsplit(".", 1)[-1] in ("cache", "lru_cache", "wraps"):
                    pass
                elif isinstance(v, Sym) or isinstance(v, Ext) and "udf" in v.name or isinstance(v, Partial) and v.f == "udf":
                    # a user-defined function of Spark: applied to columns it is a column
                    self.udf_arguments(f, args, kw)
                    return Sym(self.callnode(ast.Attribute(value=ast.Name(id="udfs", ctx=ast.Load()), attr=f.node.name,
                                                           ctx=ast.Load()), args, kw), "col")
                else:
                    raise Unknown("decorator " + ast.unparse(d))
        env, defaults = self.params(f, args, kw)
        a = f.node.args
        if config:
            for p in a.posonlyargs + a.args + a.kwonlyargs:
                if p.annotation is not None and p.arg not in defaults:
                    env[p.arg] = self.validate(env[p.arg], p.annotation, f, "%s of %s" % (p.arg, f.node.name))
            if a.vararg and a.vararg.annotation is not None:
                env[a.vararg.arg] = tuple(self.validate(v, a.vararg.annotation, f, "%s of %s" % (a.vararg.arg, f.node.name))
                                          for v in env[a.vararg.arg])
            if a.kwarg and a.kwarg.annotation is not None:
                env[a.kwarg.arg] = {k: self.validate(v, a.kwarg.annotation, f, "%s of %s" % (k, f.node.name))
                                    for k, v in env[a.kwarg.arg].items()}
        env["__outer__"] = f.env
        if is_generator(f.node):
            env["__yield__"] = []
        try:
            self.block(f.node.body, env, f.mod)
            r = None
        except Return as e:
            r = e.v
        if "__yield__" in env:
            r = Iter(env["__yield__"])      # its items, computed at once
        if config and config.get("validate_return") and f.node.returns is not None:
            r = self.validate(r, f.node.returns, f, "result of " + f.node.name)
        return r

    def udf_arguments(self, f, args, kw):
        """what Spark accepts: columns or column names, as many as the function has parameters"""
        name = f.node.name
        for x in list(args) + list(kw.values()):
            if not (isinstance(x, str) or isinstance(x, Sym) and x.kind in ("col", "any", "str")):
                raise Raised("TypeError", "the user-defined function %s is called with %r, which is not a column" % (name, x))
        self.params(f, args, kw)

    def validator(self, v):
        """the options of a `validate_call(...)` decorator value"""
        if isinstance(v, Partial) and v.f == "validate_call":
            return dict(v.kw, on=True)
        if isinstance(v, Ext) and v.name.endswith("validate_call"):
            return {"on": True}
        return None

    # ---- pydantic
    def validate(self, v, ann, f, what):
        def fail(why):
            raise Raised("ValidationError", "%s: %s" % (what, why))
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            ann = ast.parse(ann.value, mode="eval").body
        if isinstance(ann, ast.Constant) and ann.value is None:
            return None if v is None else fail("None expected, not %r" % (v,))
        if isinstance(ann, ast.BinOp) and isinstance(ann.op, ast.BitOr):
            # pydantic's smart mode: a type which takes the value as it is wins over one which converts it
            first = None
            for side in (ann.left, ann.right):
                try:
                    r = self.validate(v, side, f, what)
                except Raised:
                    continue
                if r is v:
                    return r
                first = first or (r,)
            return first[0] if first else fail("%r fits none of %s" % (v, ast.unparse(ann)))
        if isinstance(ann, ast.Subscript):
            base = ast.unparse(ann.value).rsplit(".", 1)[-1]
            if base in ("Optional",):
                return None if v is None else self.validate(v, ann.slice, f, what)
            if base in ("list", "List", "Sequence", "Iterable"):
                if isinstance(v, Iter):
                    v = v.take()
                if isinstance(v, (list, tuple)):
                    if base == "list" and not isinstance(v, (list, tuple)):
                        fail("not a list")
                    return [self.validate(x, ann.slice, f, what) for x in v]
                if isinstance(v, Sym) and v.kind == "any":
                    return v
                fail("a list expected, not %r" % (v,))
            if base in ("tuple", "Tuple"):
                if not isinstance(v, tuple):
                    fail("a tuple expected")
                return v
            if base == "Literal":
                opts = [self.ev(x, f.env, f.mod) for x in (ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice])]
                return v if any(v is o or v == o for o in opts) else fail("%r is not one of %r" % (v, opts))
            if base in ("dict", "Dict", "Mapping", "Callable", "Protocol", "type"):
                return v
            if base == "Union":
                for x in ann.slice.elts:
                    try:
                        return self.validate(v, x, f, what)
                    except Raised:
                        pass
                fail("fits no alternative")
            raise Unknown("annotation " + ast.unparse(ann))
        t = self.ev(ann, f.env, f.mod)
        if isinstance(t, Native):
            t = Ext(t.name)
        if isinstance(t, Ext):
            n = t.name.rsplit(".", 1)[-1]
            if n in ("Any", "object", "Callable"):
                return v
            if n in ("DataFrame", "Column"):
                want = "df" if n == "DataFrame" else "col"
                if isinstance(v, Sym) and v.kind in (want, "any"):
                    return v
                fail("a %s expected, not %r" % (n, v))
            if isinstance(v, Sym):
                ok = {"str": ("str", "any"), "int": ("int", "num", "any"), "float": ("int", "num", "any"),
                      "bool": ("bool", "any", "cond"), "list": ("list", "strs", "any"), "dict": ("any",),
                      "tuple": ("any",)}.get(n)
                if ok is None:
                    raise Unknown("annotation " + n)
                return v if v.kind in ok else fail("%s expected, not the %s %s" % (n, v.kind, v.text[:60]))
            if n in TYPES:
                if isinstance(v, TYPES[n]) and not (n == "int" and isinstance(v, bool)):
                    return v
                if n == "float" and isinstance(v, int):
                    return v
                if n == "int" and isinstance(v, bool):
                    return int(v)
                if n == "bool" and isinstance(v, str) and v.lower() in ("true", "false", "yes", "no", "on", "off", "0", "1"):
                    return v.lower() in ("true", "yes", "on", "1")
                if n == "list" and isinstance(v, tuple):
                    return list(v)
                if n in ("int", "float") and isinstance(v, str):
                    try:
                        return TYPES[n](v)
                    except ValueError:
                        pass
                fail("%s expected, not %r" % (n, v))
            raise Unknown("annotation " + t.name)
        if isinstance(t, Cls):
            return self.coerce(t, v, fail)
        raise Unknown("annotation %s" % ast.unparse(ann))

    def coerce(self, c, v, fail):
        if c.is_a("Enum"):
            if isinstance(v, EnumV):
                return v
            if isinstance(v, Sym):
                if v.kind in ("str", "any"):
                    i = self.t.ask(v.text + " as " + c.name, list(range(len(self.members(c)))) + [-1])
                    return self.members(c)[i] if i >= 0 else fail("%s is not a %s" % (v.text, c.name))
                fail("%r is not a %s" % (v, c.name))
            for m in self.members(c):
                if m.value == v:
                    return m
            fail("%r is not a %s" % (v, c.name))
        if c.is_a("BaseModel"):
            if isinstance(v, Inst) and v.cls.is_a(c.name):
                return v
            for b in c.mro():
                if not isinstance(b, Cls):
                    continue
                for s in b.node.body:
                    if isinstance(s, ast.FunctionDef) and any("model_validator" in ast.unparse(d) for d in s.decorator_list):
                        if not any("before" in ast.unparse(d) for d in s.decorator_list):
                            raise Unknown("validator mode")
                        v = self.call(Fn(s, b.env, b.mod, decor=False), [c, v], {})
                        if isinstance(v, Inst) and v.cls.is_a(c.name):
                            return v
            if isinstance(v, dict):
                return self.construct(c, [], v, raw=True)
            fail("%r is not a %s" % (v, c.name))
        if c.is_a("Protocol"):
            return v
        if isinstance(v, Inst) and v.cls.is_a(c.name):
            return v
        fail("%r is not a %s" % (v, c.name))

    def fields(self, c):
        out = {}
        for b in reversed(c.mro()):
            if isinstance(b, Cls):
                for s in b.node.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                        out[s.target.id] = (s, b)
        return out

    def construct(self, c, args, kw, raw=False):
        if c.is_a("Enum"):
            return self.coerce(c, args[0], lambda w: (_ for _ in ()).throw(Raised("ValueError", w)))
        if c.is_a("BaseModel"):
            if args:
                raise Raised("TypeError", "positional argument for model " + c.name)
            if not raw and any(isinstance(s, ast.FunctionDef) and any("model_validator" in ast.unparse(d)
                                                                      for d in s.decorator_list)
                               for b in c.mro() if isinstance(b, Cls) for s in b.node.body):
                r = self.coerce(c, dict(kw), lambda w: (_ for _ in ()).throw(Raised("ValidationError", w)))
                return r
            fs, out = self.fields(c), {}
            for n, (s, b) in fs.items():
                if n in kw:
                    out[n] = self.validate(kw[n], s.annotation, b, "%s of %s" % (n, c.name))
                elif s.value is not None:
                    out[n] = self.ev(s.value, b.env, b.mod)
                else:
                    raise Raised("ValidationError", "%s lacks the field %s" % (c.name, n))
            return Inst(c, out)
        init = self.lookup(c, "__init__")
        o = Inst(c, {})
        if init is not None:
            self.call(init, [o] + list(args), kw)
        return o

    def isinstance(self, v, t):
        if isinstance(t, (tuple, list)):
            return any(self.isinstance(v, x) for x in t)
        if isinstance(t, Native):
            t = Ext(t.name)
        if isinstance(t, Cls):
            return isinstance(v, (Inst, EnumV)) and v.cls.is_a(t.name)
        if isinstance(t, Ext):
            n = t.name.rsplit(".", 1)[-1]
            if isinstance(v, Sym):
                if v.kind == "any":
                    return self.t.ask("isinstance(%s, %s)" % (v.text, n), [True, False])
                return {"col": "Column", "df": "DataFrame", "str": "str", "int": "int", "bool": "bool"}.get(v.kind) == n or \
                    v.kind == "num" and n == "int" or v.kind in ("list", "strs") and n == "list"
            if n in TYPES:
                return isinstance(v, TYPES[n]) or n == "str" and isinstance(v, EnumV) and v.cls.is_a("str")
            if n == "BaseModel":
                return isinstance(v, Inst) and v.cls.is_a("BaseModel")
            return False
        raise Unknown("isinstance %r" % (t,))

    # ---- library
    def external(self, name, args, kw):
        last = name.rsplit(".", 1)[-1]
        if name in TYPES or name == "object":
            return self.typecall(name, args, kw)
        if name.startswith("pyspark.sql.functions."):
            if last == "udf":
                return Partial("udf", list(args), kw)
            if last not in API["F"]:
                raise Raised("AttributeError", "PySpark has no function " + last)
            if any(isinstance(x, Inst) for x in args):
                raise Raised("TypeError", "a model object is passed to F.%s" % last)
            for x in args:
                if isinstance(x, (Fn,)):
                    args = [self.reify(x) if isinstance(x, Fn) else x for x in args]
                    break
            return Sym(self.callnode(ast.Attribute(value=ast.Name(id="F", ctx=ast.Load()), attr=last, ctx=ast.Load()),
                                     args, kw), "col")
        if name.endswith(".getOrCreate"):
            return Sym(ast.Name(id="spark", ctx=ast.Load()), "spark")
        if name == "pydantic.validate_call":
            if args and isinstance(args[0], Fn):
                raise Unknown("validate_call applied directly")
            return Partial("validate_call", [], kw)
        if last in ("ConfigDict",):
            return dict(kw)
        if name.startswith("warnings.") or name.startswith("logging") or name == "print":
            return None
        if name == "functools.reduce":
            xs = self.items(args[1])
            if len(args) > 2:
                acc = args[2]
            elif xs:
                acc, xs = xs[0], xs[1:]
            else:
                raise Raised("TypeError", "reduce of an empty list")
            for x in xs:
                acc = self.call(args[0], [acc, x], {})
            return acc
        if name == "functools.wraps":
            return Ext("functools.wraps")
        if name == "functools.partial":
            return Partial(args[0], list(args[1:]), kw)
        if name.startswith("operator."):
            op = {"and_": ast.BitAnd, "or_": ast.BitOr, "add": ast.Add, "mul": ast.Mult, "sub": ast.Sub,
                  "truediv": ast.Div, "mod": ast.Mod, "floordiv": ast.FloorDiv, "xor": ast.BitXor}.get(last)
            if op:
                return self.binop(op(), *args)
            cmp = {"eq": ast.Eq, "ne": ast.NotEq, "lt": ast.Lt, "le": ast.LtE, "gt": ast.Gt, "ge": ast.GtE,
                   "is_": ast.Is, "is_not": ast.IsNot}.get(last)
            if cmp:
                return self.compare(cmp(), *args)
            if last == "getitem":
                return self.index(*args)
        if name.startswith("itertools.") and last in ("chain",):
            return Iter([x for a in args for x in self.items(a)])
        if name == "itertools.chain.from_iterable":
            return Iter([x for a in self.items(args[0]) for x in self.items(a)])
        if name == "itertools.islice":
            xs = self.items(args[0])
            return Iter(xs[slice(*args[1:])])
        if name == "itertools.batched" and isinstance(args[1], int) and not kw:
            xs = self.items(args[0])
            return Iter([tuple(xs[i:i + args[1]]) for i in range(0, len(xs), args[1])])
        if name == "itertools.pairwise":
            xs = self.items(args[0])
            return Iter(list(zip(xs, xs[1:])))
        if name == "itertools.starmap":
            return Iter([self.call(args[0], self.items(x), {}) for x in self.items(args[1])])
        if name == "operator.itemgetter" and len(args) == 1:
            return Native("itemgetter", lambda o: self.index(o, args[0]))
        if name == "operator.attrgetter" and len(args) == 1:
            return Native("attrgetter", lambda o: self.attr(o, args[0]))
        if name == "operator.methodcaller" and args:
            return Native("methodcaller", lambda o: self.call(self.attr(o, args[0]), args[1:], kw))
        if name.startswith("pyspark.sql.Window") or name.startswith("pyspark.sql.window"):
            return Sym(self.callnode(ast.parse(name.split("sql.", 1)[1], mode="eval").body, args, kw), "any")
        if last in EXC:
            return Sym(ast.Name(id=last, ctx=ast.Load()))
        if name.startswith("re."):
            if not any(isinstance(x, Sym) for x in args):
                plain = [x.v if isinstance(x, PyObj) else x for x in args]
                if kw or "hq7" in repr(plain) or any(not isinstance(x, (str, int, re.Pattern)) for x in plain) or \
                        not hasattr(re, last):
                    raise Unknown("re on concrete text")
                return self.wrap(getattr(re, last)(*plain))
            return Sym(self.callnode(ast.parse(name, mode="eval").body, args, kw), "str")
        if name.startswith(("pyspark.", "math.", "typing.")):
            return Sym(self.callnode(ast.parse(name, mode="eval").body, args, kw), "any")
        raise Unknown("call of " + name)

    def reify(self, f):
        """a Python function given to Spark: its body over its own parameters"""
        names = [a.arg for a in f.node.args.args]
        env = {n: Sym(ast.Name(id="x%d" % i, ctx=ast.Load()), "col") for i, n in enumerate(names)}
        if isinstance(f.node, ast.Lambda):
            env["__outer__"] = f.env
            body = self.ev(f.node.body, env, f.mod)
        else:
            body = self.call(f, [env[n] for n in names], {})
        return Sym(ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg="x%d" % i) for i in range(len(names))],
                                                 kwonlyargs=[], kw_defaults=[], defaults=[]), body=node_of(body)), "any")

    def typecall(self, name, args, kw):
        if name == "dict":
            if not args:
                return dict(kw)
            if isinstance(args[0], dict):
                return dict(args[0], **kw)
            types = self.schema(self.plainattr(args[0]))
            if types is not None and not kw:
                return types
            if isinstance(args[0], (list, tuple, Iter)):
                return dict([tuple(self.items(x)) for x in self.items(args[0])], **kw)
            if isinstance(args[0], (Sym, Partial)):
                return Sym(self.callnode(ast.Name(id="dict", ctx=ast.Load()), [self.plainattr(args[0])], {}), "any")
        if name in ("list", "tuple"):
            if not args:
                return [] if name == "list" else ()
            if isinstance(args[0], Sym) and args[0].kind in ("any", "strs"):
                return Sym(self.callnode(ast.Name(id="list", ctx=ast.Load()), [args[0]], {}), "strs")
            xs = self.items(args[0])
            return xs if name == "list" else tuple(xs)
        if name == "str":
            v = args[0]
            if isinstance(v, Sym):
                return self.concat([v])
            if isinstance(v, Inst):
                return self.call(self.attr(v, "__str__"), [], {})
            if isinstance(v, EnumV):
                return v.cls.name + "." + v.name
            return str(v)
        if name in ("int", "float", "bool"):
            if isinstance(args[0], Sym):
                return Sym(self.callnode(ast.Name(id=name, ctx=ast.Load()), args, kw), "num")
            try:
                return TYPES[name](*args)
            except (ValueError, TypeError) as e:
                raise Raised(type(e).__name__, str(e))
        raise Unknown("call of " + name)

    @staticmethod
    def plainattr(v):
        if isinstance(v, Partial) and v.f == "method":
            return Sym(ast.Attribute(value=v.args[0].node, attr=v.args[1], ctx=ast.Load()))
        return v

    # ---- builtins
    def b_len(self, v):
        if isinstance(v, (list, tuple, dict, str)):
            return len(v)
        if isinstance(v, Sym) and v.kind in ("any", "strs", "str", "list"):
            return Sym(self.callnode(ast.Name(id="len", ctx=ast.Load()), [v], {}), "int")
        if v is None or isinstance(v, (int, float)) or isinstance(v, Sym) and v.kind in ("num", "int", "col", "cond"):
            raise Raised("TypeError", "%r has no len()" % (v,))
        raise Unknown("len of %r" % (v,))

    def b_range(self, *a):
        if any(isinstance(x, Sym) for x in a):
            raise Unknown("symbolic range")
        return list(range(*a))

    def b_zip(self, *a, **k):
        if any(isinstance(x, Iter) for x in a):
            its = [x if isinstance(x, Iter) else Iter(self.items(x)) for x in a]
            out = []
            while True:
                row = []
                for i in its:
                    if not i.xs:
                        return out
                    row.append(i.xs.pop(0))
                out.append(tuple(row))
        if k:
            raise Unknown("zip with options")
        return [tuple(x) for x in zip(*[self.items(x) for x in a])]

    def b_enumerate(self, a, start=0):
        return [tuple(x) for x in enumerate(self.items(a), start)]

    def b_reversed(self, a):
        return self.items(a)[::-1]

    def b_sorted(self, a, **k):
        xs = self.items(a)
        if k or any(not isinstance(x, (str, int)) for x in xs):
            raise Unknown("sorted")
        return sorted(xs)

    def b_next(self, a, *d):
        if not isinstance(a, Iter):
            raise Unknown("next of %r" % (a,))
        if a.xs:
            return a.xs.pop(0)
        if d:
            return d[0]
        raise Raised("StopIteration")

    def b_map(self, f, *a):
        return [self.call(f, list(x), {}) for x in zip(*[self.items(x) for x in a])]

    def b_filter(self, f, a):
        return [x for x in self.items(a) if self.truth(self.call(f, [x], {}) if f is not None else x)]

    def b_sum(self, *a):
        if not 1 <= len(a) <= 2:
            raise Raised("TypeError", "sum() takes 1 or 2 positional arguments, %d were given" % len(a))
        acc = a[1] if len(a) > 1 else 0
        for x in self.items(a[0]):
            acc = self.binop(ast.Add(), acc, x)
        return acc

    def b_any(self, a):
        return any(self.truth(x) for x in self.items(a))

    def b_all(self, a):
        return all(self.truth(x) for x in self.items(a))

    def b_isinstance(self, v, t):
        return self.isinstance(v, t)

    def b_iter(self, a):
        return a if isinstance(a, Iter) else Iter(self.items(a))

    def b_set(self, *a):
        return self.unique(self.items(a[0])) if a else []

    b_frozenset = b_set

    def b_callable(self, v):
        if isinstance(v, Sym):
            raise Unknown("callable of an unknown value")
        return isinstance(v, (Fn, Native, Partial, Ext, Cls)) or isinstance(v, Inst) and self.lookup(v.cls, "__call__") is not None

    def b_hasattr(self, o, a):
        try:
            self.attr(o, a)
            return True
        except Raised as e:
            if e.name != "AttributeError":
                raise
            return False

    def b_repr(self, v):
        if isinstance(v, (str, int, float, bool)) or v is None:
            return repr(v)
        raise Unknown("repr of %r" % (v,))

    def b_ord(self, v):
        if isinstance(v, str):
            return ord(v)
        raise Unknown("ord")

    def b_chr(self, v):
        if isinstance(v, int):
            return chr(v)
        raise Unknown("chr")

    def b_getattr(self, o, a, *d):
        try:
            return self.attr(o, a)
        except Raised:
            if d:
                return d[0]
            raise

    def b_print(self, *a, **k):
        return None

    def b_min(self, *a, **k):
        raise Unknown("min")

    b_max = b_abs = b_round = b_pow = b_type = b_min


def is_generator(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            todo += list(ast.iter_child_nodes(n))
    return False


def lineage(n):
    out = [n]
    for x in SUPER.get(n, []):
        out += lineage(x)
    return out


class _Unit(ast.NodeTransformer):
    """0 + x is x, lit(True) & x is x (neutral elements a fold may start from)"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Add) and isinstance(n.left, ast.Constant) and n.left.value == 0 and n.left.value is not False:
            return n.right
        if isinstance(n.op, ast.BitAnd) and ast.unparse(n.left) == "F.lit(True)":
            return n.right
        return n


class _Alpha(ast.NodeTransformer):
    """names the parameters of lambdas by position"""
    def visit_Lambda(self, n):
        names = {a.arg: "x%d" % i for i, a in enumerate(n.args.args)}
        for x in ast.walk(n):
            if isinstance(x, ast.arg) and x.arg in names:
                x.arg = names[x.arg]
            elif isinstance(x, ast.Name) and x.id in names:
                x.id = names[x.id]
        return n


def alpha(text):
    try:
        return ast.unparse(_Alpha().visit(ast.parse(text)))
    except SyntaxError:
        return text


def program(pkg, text, df="IN"):
    """interprets a generated program -> [(guards, text of its last line | Raised)]"""
    tree = ast.parse(text)

    def run(t):
        I = Interp(pkg, t)
        env = {"F": Ext("pyspark.sql.functions"), "spark": Sym(ast.Name(id="spark", ctx=ast.Load()), "spark"),
               "commands": Mod("spl_transpiler.runtime.commands"), "functions": Mod("spl_transpiler.runtime.functions"),
               df: Sym(ast.Name(id=df, ctx=ast.Load()), "df")}
        env["__module__"] = "__program__"
        last = None
        for s in tree.body:
            if isinstance(s, ast.Expr):
                last = I.ev(s.value, env, "__program__")
            else:
                I.stmt(s, env, "__program__")
        return last
    out = []
    for g, r in traces(run):
        if isinstance(r, Raised):
            out.append((g, r))
        elif isinstance(r, Sym):
            out.append((g, ast.unparse(_Unit().visit(r.node)) if r.kind in ("df", "any") else
                        Raised("TypeError", "the program's result is a %s" % r.kind)))
        else:
            out.append((g, Raised("TypeError", "the program's result is %r" % (r,))))
    return out


class Plain(Interp):
    """code on plain symbolic values (the bodies of user-defined functions): library calls may also raise"""
    FALLIBLE = {"int": ("ValueError", "TypeError"), "float": ("ValueError", "TypeError"), "ipaddress": ("ValueError",)}

    def attempt(self, text, errors):
        e = self.t.ask("raises " + text, [None] + list(errors))
        if e is not None:
            raise Raised(e, text)

    def external(self, name, args, kw):
        if name.startswith("ipaddress."):
            kw = {k: v for k, v in kw.items() if not (k == "strict" and v is True)}
            args = [self.plainattr(a) for a in args]
            r = Sym(self.callnode(ast.parse(name, mode="eval").body, args, kw), "any")
            if not (len(args) == 1 and isinstance(args[0], Sym) and isinstance(args[0].node, ast.BinOp)):
                self.attempt(r.text, self.FALLIBLE["ipaddress"])
            return r
        return super().external(name, args, kw)

    def typecall(self, name, args, kw):
        args = [self.plainattr(a) for a in args]
        if name in self.FALLIBLE and isinstance(args[0], Sym):
            r = super().typecall(name, args, kw)
            if isinstance(args[0].node, ast.Name):
                self.attempt(r.text, self.FALLIBLE[name])
            return r
        return super().typecall(name, args, kw)

    def e_JoinedStr(self, n, env, mod):
        if not any(isinstance(v, ast.FormattedValue) and v.format_spec is not None for v in n.values):
            return super().e_JoinedStr(n, env, mod)
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
                continue
            x = self.ev(v.value, env, mod)
            f = self.ev(v.format_spec, env, mod) if v.format_spec is not None else ""
            if not isinstance(f, str) or v.conversion not in (-1, 115):
                raise Unknown("format " + ast.unparse(v))
            parts.append(self.formatted(x, f))
        return Sym(ast.JoinedStr(values=parts), "str")

    @staticmethod
    def formatted(x, f):
        return ast.FormattedValue(value=node_of(x), conversion=-1,
                                  format_spec=ast.JoinedStr(values=[const(f)]) if f else None)

    def b_format(self, x, f=""):
        return Sym(ast.JoinedStr(values=[self.formatted(x, f)]), "str")

    def b_divmod(self, a, b):
        return (self.binop(ast.FloorDiv(), a, b), self.binop(ast.Mod(), a, b))

    def digits(self, x, f, prefix):
        return Sym(ast.JoinedStr(values=[const(prefix), self.formatted(x, f)]), "str")

    def b_bin(self, x):
        return self.digits(x, "b", "0b")

    def b_hex(self, x):
        return self.digits(x, "x", "0x")

    def b_oct(self, x):
        return self.digits(x, "o", "0o")

    def e_Subscript(self, n, env, mod):
        if isinstance(n.slice, ast.Slice) and n.slice.upper is None and n.slice.step is None and n.slice.lower is not None:
            o, i = self.ev(n.value, env, mod), self.ev(n.slice.lower, env, mod)
            v = o.node.values if isinstance(o, Sym) and isinstance(o.node, ast.JoinedStr) else []
            if len(v) == 2 and isinstance(v[0], ast.Constant) and isinstance(i, int) and i == len(v[0].value):
                return Sym(ast.JoinedStr(values=v[1:]), "str")
        return super().e_Subscript(n, env, mod)

    def call_partial(self, p, args, kw):
        if p.f == "pymethod" and p.args[1] == "format" and isinstance(p.args[0], str) and not kw:
            import string
            parts, i = [], 0
            for lit, field, spec, conv in string.Formatter().parse(p.args[0]):
                if lit:
                    parts.append(const(lit))
                if field is not None:
                    if field not in ("", str(i)) or conv:
                        raise Unknown("format field " + field)
                    parts.append(self.formatted(args[i], spec))
                    i += 1
            return Sym(ast.JoinedStr(values=parts), "str")
        return super().call_partial(p, args, kw)

    def isinstance(self, v, t):
        if isinstance(v, Sym) and isinstance(t, (Ext, Native)) and v.kind in ("pyint", "pyfloat", "pystr"):
            return v.kind == "py" + t.name.rsplit(".", 1)[-1]
        return super().isinstance(v, t)

    def compare(self, op, a, b):
        typed = ("pyint", "pyfloat", "pystr", "num")
        if type(op).__name__ in ("In", "NotIn") and isinstance(a, Sym) and isinstance(b, Sym):
            return Sym(ast.Compare(left=node_of(a), ops=[op], comparators=[node_of(b)]), "any")
        if (a is None and isinstance(b, Sym) and b.kind in typed) or (b is None and isinstance(a, Sym) and a.kind in typed):
            return type(op).__name__ in ("NotEq", "IsNot")
        return super().compare(op, a, b)

    def pattern(self, p, v, env, mod, new):
        if isinstance(p, ast.MatchSingleton) and isinstance(v, Sym) and v.kind.startswith("py"):
            return False
        return super().pattern(p, v, env, mod, new)


def body(pkg, mod, name, args):
    """the body of a (decorated) function on the given values -> [(guards, result | Raised)]"""
    def run(t):
        I = Plain(pkg, t)
        env = I.module(mod)
        f = env.get(name)
        if not isinstance(f, Fn):
            raise Unknown("no function " + name)
        return I.call_fn(Fn(f.node, f.env, f.mod, decor=False), list(args), {})
    return traces(run)
