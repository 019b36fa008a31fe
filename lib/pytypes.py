"""Type-and-interface analysis of generated Python templates: every call is checked against the signature of the
callee (PySpark API table, or the runtime library's own source), receivers and arguments by kind."""
import ast
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
API = json.load(open(os.path.join(os.path.dirname(HERE), "checks", "data", "pyspark_api.json")))
ANY = "ANY"


def ret_kind(ret):
    r = ret.strip("'\"")
    return {"DataFrame": "DF", "Column": "COL", "GroupedData": "GD"}.get(r.split(".")[-1], "OTHER:" + r if r else ANY)


def ann_kinds(n):
    """annotation of a runtime parameter -> accepted kinds, None = anything"""
    if n is None:
        return None
    s = ast.unparse(n).replace('"', "").replace("'", "")
    out = set()
    depth_stripped = re.sub(r"\[[^\[\]]*(\[[^\[\]]*\])*[^\[\]]*\]", "", s)
    if s.startswith("Literal["):
        return {"STR"}
    for w in re.split(r"\s*\|\s*|,", depth_stripped):
        m = {"DataFrame": {"DF"}, "str": {"STR"}, "int": {"INT"}, "float": {"FLOAT", "INT"}, "bool": {"BOOL"},
             "None": {"NONE"}, "list": {"LIST"}, "dict": {"DICT"}, "StatsFunction": {"STATS"}}.get(w.strip())
        if m is None:
            return None
        out |= m
    return out


class Sig:
    def __init__(self, params, kwonly, vararg, varkinds, varkw, ret, posonly=0, varkwkinds=None):
        self.params, self.kwonly, self.vararg, self.varkinds = params, kwonly, vararg, varkinds
        self.varkw, self.ret, self.posonly, self.varkwkinds = varkw, ret, posonly, varkwkinds


def api_sig(d):
    k = lambda x: None if x is None else set(x)
    return Sig([(n, r, k(t)) for n, r, t in d["params"]], [(n, r, k(t)) for n, r, t in d["kwonly"]], d["vararg"],
               k(d["varkinds"]), d["varkw"], ret_kind(d["ret"]))


def fn_sig(f, ret):
    a = f.args
    pos = a.posonlyargs + a.args
    nd = len(a.defaults)
    return Sig([(p.arg, i < len(pos) - nd, ann_kinds(p.annotation)) for i, p in enumerate(pos)],
               [(p.arg, d is None, ann_kinds(p.annotation)) for p, d in zip(a.kwonlyargs, a.kw_defaults)],
               bool(a.vararg), ann_kinds(a.vararg.annotation) if a.vararg else None, bool(a.kwarg), ret,
               len(a.posonlyargs), ann_kinds(a.kwarg.annotation) if a.kwarg else None)


def module_funcs(path):
    """functions callable as attributes of a module: definitions and aliases of definitions"""
    out = {}
    for n in ast.parse(open(path, encoding="utf8").read()).body:
        if isinstance(n, ast.FunctionDef):
            out[n.name] = n
        elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in out:
            for t in n.targets:
                if isinstance(t, ast.Name):
                    out[t.id] = out[n.value.id]
    return out


class Checker:
    def __init__(self, repo):
        base = os.path.join(repo, "python", "spl_transpiler", "runtime")
        self.rt_eval = {k: fn_sig(f, "COL") for k, f in module_funcs(base + "/functions/eval.py").items()}
        self.rt_stats = {k: fn_sig(f, "STATS") for k, f in module_funcs(base + "/functions/stats.py").items()}
        self.rt_cmd = {}
        init = ast.parse(open(base + "/commands/__init__.py").read())
        for n in init.body:
            if isinstance(n, ast.ImportFrom) and n.module:
                p = base + "/commands/%s.py" % n.module
                if os.path.exists(p):
                    fs = module_funcs(p)
                    for al in n.names:
                        if al.name in fs:
                            self.rt_cmd[al.asname or al.name] = fn_sig(fs[al.name], "DF")
        self.F = {k: api_sig(v) for k, v in API["F"].items()}
        self.M = {c: {k: api_sig(v) for k, v in API[n].items() if not v.get("prop")}
                  for c, n in (("DF", "DataFrame"), ("COL", "Column"), ("GD", "GroupedData"), ("SPARK", "SparkSession"))}
        self.calls = 0

    def check(self, text, unhole=lambda s: s):
        """-> [(rule, construct)] for a whole program text"""
        self.errs, self.env, self.uh = [], {}, unhole
        try:
            t = ast.parse(text)
        except SyntaxError as ex:
            return [("syntax", str(ex.msg))]
        last = None
        for st in t.body:
            if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                n = st.targets[0].id
                k = self.kind(st.value, "row")
                if n in self.env:
                    self.err("reassigned", self.uh(n))
                if k not in ("DF", ANY):
                    self.err("not-a-dataframe", ast.unparse(st.value)[:60])
                self.env[n] = k
                last = None
            elif isinstance(st, ast.Expr):
                last = self.kind(st.value, "row")
            elif isinstance(st, (ast.Import, ast.ImportFrom)):
                continue
            else:
                self.err("statement", type(st).__name__)
        if last not in ("DF", ANY):
            self.err("result-not-a-dataframe", "%s" % last)
        return self.errs

    def err(self, rule, what):
        if (rule, what) not in self.errs:
            self.errs.append((rule, what))

    def kind(self, n, ctxt):
        m = getattr(self, "k_" + type(n).__name__, None)
        if m is None:
            for c in ast.iter_child_nodes(n):
                if isinstance(c, ast.expr):
                    self.kind(c, ctxt)
            return ANY
        return m(n, ctxt)

    def k_Constant(self, n, c):
        v = n.value
        return ("BOOL" if isinstance(v, bool) else "STR" if isinstance(v, str) else "INT" if isinstance(v, int) else
                "FLOAT" if isinstance(v, float) else "NONE" if v is None else ANY)

    def k_JoinedStr(self, n, c):
        return "STR"

    def k_List(self, n, c):
        for e in n.elts:
            self.kind(e, c)
        return "LIST"

    k_Tuple = k_List

    def k_Dict(self, n, c):
        for e in n.values:
            self.kind(e, c)
        return "DICT"

    def k_Name(self, n, c):
        if n.id in self.env:
            return self.env[n.id]
        if n.id in ("spark", "F", "functions", "commands"):
            return {"spark": "SPARK"}.get(n.id, "MOD")
        if n.id.startswith("hq7"):
            return "DF" if self.uh(n.id) == "⟨IN⟩" else ANY
        if "hq7uid" in n.id or n.id.startswith("df_"):
            self.err("undefined-variable", self.uh(n.id))
            return ANY
        self.err("undefined-name", self.uh(n.id))
        return ANY

    def k_Lambda(self, n, c):
        names = [a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs]
        saved = {k: self.env[k] for k in names if k in self.env}
        self.env.update({k: "COL" for k in names})
        self.kind(n.body, c)
        for k in names:
            self.env.pop(k, None)
        self.env.update(saved)
        return "LAMBDA"

    def k_UnaryOp(self, n, c):
        k = self.kind(n.operand, c)
        if isinstance(n.op, ast.Invert) and k in ("INT", "BOOL", "STR", "NONE", "LIST"):
            self.err("python-operator-on-literal", "~ on a Python %s" % k)
        return k

    def k_BinOp(self, n, c):
        a, b = self.kind(n.left, c), self.kind(n.right, c)
        if a == ANY or b == ANY:
            return "COL" if "COL" in (a, b) else ANY
        if "COL" not in (a, b):
            if a in ("INT", "FLOAT", "STR") and b in ("INT", "FLOAT", "STR"):
                return a
            self.err("operator", "%s %s %s" % (a, type(n.op).__name__, b))
        return "COL"

    def k_Compare(self, n, c):
        ks = [self.kind(x, c) for x in [n.left] + n.comparators]
        if "COL" not in ks and ANY not in ks:
            self.err("comparison-outside-spark", " ".join(ks))
        if len(ks) > 2:
            self.err("chained-comparison", "")
        if any(isinstance(o, (ast.In, ast.NotIn, ast.Is, ast.IsNot)) for o in n.ops):
            self.err("python-operator-on-column", "in/is")
        return "COL"

    def k_BoolOp(self, n, c):
        self.err("python-operator-on-column", "and/or")
        return "COL"

    def k_IfExp(self, n, c):
        self.err("python-operator-on-column", "if/else")
        return ANY

    def k_Subscript(self, n, c):
        k = self.kind(n.value, c)
        self.kind(n.slice, c)
        return "COL" if k in ("COL", "DF") else ANY

    def k_Starred(self, n, c):
        self.kind(n.value, c)
        return "STAR"

    def k_Attribute(self, n, c):
        k = self.kind(n.value, c)
        if k in ("COL", "GD", "STATS"):
            self.err("attribute", "%s of a %s" % (n.attr, k))
        return ANY

    def k_Call(self, n, c):
        f = n.func
        self.calls += 1
        sig, name, agg, kwsp = None, None, False, "spark"
        if isinstance(f, ast.Attribute):
            base = ast.unparse(f.value)
            if base == "F":
                name = "F." + f.attr
                if "hq7" in f.attr:
                    return self.args_any(n, c, "COL")
                if f.attr not in self.F:
                    self.err("no-such-function", name)
                    return self.args_any(n, c, "COL")
                sig = self.F[f.attr]
                agg = f.attr in API["aggregates"]
            elif base in ("functions.eval", "functions.stats"):
                kwsp = "runtime"
                tab = self.rt_eval if base.endswith("eval") else self.rt_stats
                name = "%s.%s" % (base, f.attr)
                if "hq7" in f.attr:
                    return self.args_any(n, c, "COL" if base.endswith("eval") else "STATS")
                if f.attr not in tab:
                    self.err("no-such-runtime-function", name)
                    return self.args_any(n, c, ANY)
                sig = tab[f.attr]
            elif base == "commands":
                kwsp = "runtime"
                name = "commands." + f.attr
                if f.attr not in self.rt_cmd:
                    self.err("no-such-runtime-command", name)
                    return self.args_any(n, c, "DF")
                sig = self.rt_cmd[f.attr]
            else:
                k = self.kind(f.value, c)
                name = "%s.%s" % (k, f.attr)
                if k == ANY or k.startswith("OTHER"):
                    if k.startswith("OTHER"):
                        self.err("method-of-non-dataframe", ".%s of %s" % (f.attr, k[6:]))
                    return self.args_any(n, c, ANY)
                if k not in self.M:
                    self.err("method-of-literal", name)
                    return self.args_any(n, c, ANY)
                if f.attr not in self.M[k]:
                    self.err("no-such-method", name)
                    return self.args_any(n, c, k)
                sig = self.M[k][f.attr]
        elif isinstance(f, ast.Name) and "hq7" not in f.id:
            self.err("undefined-name", f.id)
            return self.args_any(n, c, ANY)
        else:
            return self.args_any(n, c, ANY)
        inner = c
        if name == "GD.agg":
            inner = "agg"
        elif name.startswith("commands."):
            inner = "agg" if name in ("commands.stats", "commands.tstats") else "row"
        elif name.startswith("DF."):
            inner = "row"
        if agg:
            if c == "row":
                self.err("aggregate-in-row-context", name)
            elif c == "in-agg":
                self.err("nested-aggregate", name)
            inner = "in-agg"
        self.bind(n, sig, name, inner, kwsp)
        if name == "COL.over":
            pass
        return sig.ret

    def args_any(self, n, c, ret):
        for a in n.args:
            self.kind(a, c)
        for k in n.keywords:
            self.kind(k.value, c)
        return ret

    def bind(self, n, sig, name, c, kwsp):
        taken = set()
        npos, star = 0, False
        for a in n.args:
            k = self.kind(a, c)
            if k == "STAR":
                star = True
                continue
            if npos < len(sig.params):
                p = sig.params[npos]
                taken.add(p[0])
                self.accept(name, p[0], p[2], k)
            elif sig.vararg:
                self.accept(name, "*", sig.varkinds, k)
            else:
                self.err("too-many-arguments", "%s takes %d positional arguments" % (name, len(sig.params)))
            npos += 1
        names = {p[0]: p for p in sig.params[sig.posonly:]}
        names.update({p[0]: p for p in sig.kwonly})
        dstar = False
        for kw in n.keywords:
            k = self.kind(kw.value, c)
            if kw.arg is None:
                dstar = True
                continue
            if kw.arg in taken and (kw.arg in names or not sig.varkw):
                self.err("argument-given-twice", "%s(%s)" % (name, self.uh(kw.arg)))
                continue
            if kw.arg in names:
                taken.add(kw.arg)
                self.accept(name, kw.arg, names[kw.arg][2], k)
            elif not sig.varkw:
                self.err("unknown-keyword", "%s(%s=)" % (name, self.uh(kw.arg)))
            else:
                self.accept(name, "**", sig.varkwkinds, k)
        for p in list(sig.params) + list(sig.kwonly):
            if p[1] and p[0] not in taken and not star and not (dstar):
                self.err("missing-argument", "%s lacks %s" % (name, p[0]))

    def accept(self, name, param, kinds, k):
        if kinds is None or k in (ANY, "STAR") or k.startswith("OTHER"):
            return
        if k not in kinds and not (k == "INT" and "FLOAT" in kinds) and not (k == "BOOL" and "INT" in kinds and False):
            self.err("argument-kind", "%s(%s) is given %s, accepts %s" % (name, param, k, "/".join(sorted(kinds))))
