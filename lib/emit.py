"""Symbolic emission: from a syntax-tree *shape* (constructors fixed, leaves symbolic) to the Python text the
renderer produces for it, obtained by abstract interpretation of the transformation and rendering code."""
import ast as pyast
import keyword
import re
import warnings

from absint import *
from absint import EXT, over
import rustlib  # noqa: F401  (registers models)
from facts import AnalysisError, short


warnings.simplefilter("ignore", SyntaxWarning)
warnings.simplefilter("ignore", DeprecationWarning)


class Undecided(Exception):
    """The abstract value is too imprecise to compare."""


def hole_token(t):
    # single-character escapes keep the token a valid Python identifier
    return "hq7" + "".join(c if c.isascii() and c.isalnum() else "_%02x" % ord(c) if ord(c) < 256 else "_ff%04x" % ord(c)
                           for c in t) + "7qh"


TOKEN = re.compile(r"hq7((?:[A-Za-z0-9]|_ff[0-9a-f]{4}|_[0-9a-f]{2})*?)7qh")


_strip = {"colexpr", "py", "unaliased"}


def htext(v):
    """Canonical text of a symbolic leaf."""
    k = v.k
    if k == "sym":
        return v.a[0]
    if k == "lit":
        return repr(v.a[1])
    if k == "fld":
        return htext(v.a[0]) + "." + v.a[1]
    if k == "vfld":
        b = htext(v.a[0])
        if v.a[3] == "0" or v.a[3].isdigit():
            return b if v.a[0].k != "tup" else b + "." + v.a[3]
        return b + "." + v.a[3]
    if k == "adt":
        return v.a[1] + "(" + ",".join(htext(x) for _, x in v.a[2]) + ")"
    if k == "tup":
        return "(" + ",".join(map(htext, v.a[0])) + ")"
    if k == "arr":
        return "[" + ",".join(map(htext, v.a[0])) + "]"
    if k == "app":
        n, a = v.a
        if n in _strip or n.startswith(("display:", "cast:", "into:")):
            return htext(a[0])
        if n == "uid":
            return "uid%s" % a[0].a[1]
        if n.startswith("bin:"):
            op = {"Add": "+", "Sub": "-", "Mul": "*", "Div": "/", "Eq": "==", "Ne": "!=", "Lt": "<", "Le": "<=",
                  "Gt": ">", "Ge": ">="}.get(n[4:], n[4:])
            return "(%s%s%s)" % (htext(a[0]), op, htext(a[1]))
        if n.startswith("str:"):
            n = n[4:]
        n = short(n).rsplit("::", 1)[-1]
        return n + "(" + ",".join(map(htext, a)) + ")"
    if k == "fmt":
        return "+".join(repr(p) if isinstance(p, str) else htext(p) for p in v.a[0])
    if k == "elem":
        return "elem(%s)" % htext(v.a[0])
    if k == "each":
        return "each(%s,%s)" % (htext(v.a[0]), htext(v.a[1]))
    if k == "phi":
        return "φ(" + "|".join(sorted(htext(x) for _, x in v.a[0])) + ")"
    if k == "clo":
        return "λ"
    raise Undecided("cannot name a %s value: %s" % (k, show(v, 0, 4)))


def contradictory(gs):
    s = set(gs)
    var = {}
    for g in s:
        if g[0] == "is":
            o = var.setdefault((g[1], g[2]), g[3])
            if o != g[3]:
                return True
        elif g[0] == "true" and ("false", g[1]) in s:
            return True
        elif g[0] == "not" and all(isinstance(x, tuple) for x in g[1]) and g[1] and all(x in s for x in g[1]):
            return True
        elif g[0] == "isnot":
            if ("is",) + tuple(g[1:]) in s:
                return True
    return False


def texts(v, cap=64):
    """-> list of (guards, text)"""
    if v.k == "lit":
        return [((), v.a[1] if isinstance(v.a[1], str) else str(v.a[1]))]
    if v.k == "phi":
        out = []
        for g, x in v.a[0]:
            for g2, t in texts(x, cap):
                gg = g + g2
                if not contradictory(gg):
                    out.append((gg, t))
        return out[:cap * 4]
    if v.k == "fmt":
        acc = [((), "")]
        for p in v.a[0]:
            alts_ = [((), p)] if isinstance(p, str) else texts(p, cap)
            nxt = []
            for g, t in acc:
                for g2, t2 in alts_:
                    gg = g + tuple(x for x in g2 if x not in g)
                    if not contradictory(gg):
                        nxt.append((gg, t + t2))
            acc = nxt
            if len(acc) > cap * 4:
                raise Undecided("more than %d alternatives" % (cap * 4))
        return acc
    if v.k == "app" and v.a[0] == "join":
        coll, sep = v.a[1]
        s = litval(sep)
        if coll.k == "each" and isinstance(s, str) and s.strip() in (",", ""):
            return [(g, "*EACH(%s, %s)" % (hole_token(htext(coll.a[0])), t.rstrip(", ")))
                    for g, t in texts(coll.a[1], cap)]
    if v.k == "app" and v.a[0].startswith("display:") and v.a[1][0].k in ("phi", "lit"):
        return texts(v.a[1][0], cap)
    return [((), hole_token(htext(v)))]


class _Norm(pyast.NodeTransformer):
    def visit_Constant(self, n):
        n.kind = None
        return n

    def visit_Call(self, n):
        """f(**{'name': v}) is f(name=v)"""
        self.generic_visit(n)
        kw = []
        for k in n.keywords:
            if k.arg is None and isinstance(k.value, pyast.Dict) and k.value.keys and all(
                    isinstance(x, pyast.Constant) and isinstance(x.value, str) and x.value.isidentifier() and
                    not keyword.iskeyword(x.value) for x in k.value.keys):
                kw += [pyast.keyword(arg=x.value, value=v) for x, v in zip(k.value.keys, k.value.values)]
            else:
                kw.append(k)
        n.keywords = kw
        if isinstance(n.func, pyast.Attribute) and n.func.attr == "concat":
            n.args = [_unaliased(a) for a in n.args]
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        n.left, n.right = _unaliased(n.left), _unaliased(n.right)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        n.left, n.comparators = _unaliased(n.left), [_unaliased(c) for c in n.comparators]
        return n


def _unaliased(n):
    """Spark ignores the name of a column that is an operand (of an operator, of concat)"""
    while isinstance(n, pyast.Call) and isinstance(n.func, pyast.Attribute) and n.func.attr == "alias" and \
            len(n.args) == 1 and not n.keywords:
        n = n.func.value
    return n


def norm(text):
    """Python text -> canonical form (whitespace, quotes, parentheses and trailing commas vanish)."""
    try:
        t = pyast.parse(text)
    except SyntaxError as e:
        return "SYNTAX-ERROR(%s): %s" % (e.msg, text)
    return pyast.unparse(_Norm().visit(t))


def unhole(t):
    return TOKEN.sub(lambda m: "⟨" + re.sub(r"_ff([0-9a-f]{4})|_([0-9a-f]{2})", lambda k: chr(
        int(k.group(1) or k.group(2), 16)), m.group(1)) + "⟩", t)


def spec(text):
    """expected text with ⟨holes⟩ -> text with hole tokens"""
    return re.sub(r"⟨([^⟩]*)⟩", lambda m: hole_token(m.group(1)), text)


def regex_sample(v):
    """A concrete sample of a template, or None when its shape is unknown."""
    ts = texts(v)
    return [TOKEN.sub("x", t) for _, t in ts]


class Emit:
    def __init__(self, F, fuel=1500000):
        self.F = F
        self.fuel = fuel
        self.panics = {}
        self.label = ""
        self.t_query = self.trait("ToSparkQuery")
        self.t_expr = self.trait("ToSparkExpr")
        self.t_alias = self.trait("Aliasable")
        self.t_pipe = self.trait("PipelineTransformer")
        self.code_adt = self.adtpath("PythonCode")
        self.expr_adt = self.adtpath("Expr", "::pyspark::")
        self.interp()

    # -- anchors ---------------------------------------------------------------------------
    def trait(self, name):
        c = {i["trait"] for i in self.F.impls if i["trait"].startswith("spl_transpiler") and i["trait"].endswith("::" + name)}
        if len(c) != 1:
            raise AnalysisError("anchor: trait %s found %d times" % (name, len(c)))
        return c.pop()

    def adtpath(self, name, within=""):
        c = [p for p in self.F.adts if p.startswith("spl_transpiler") and p.endswith("::" + name) and within in p]
        if len(c) != 1:
            raise AnalysisError("anchor: type %s found %d times" % (name, len(c)))
        return c[0]

    # -- interpreter with the models this analysis needs -------------------------------------
    def interp(self):
        I = Interp(self.F, fuel=self.fuel, max_depth=120)
        I.panics, I.label = self.panics, lambda: self.label
        M = I.models
        q, x, al = self.t_query, self.t_expr, self.t_alias
        expr_adt, code_adt = self.expr_adt, self.code_adt

        def code(v):
            return Ok(mkadt(code_adt, "PythonCode", self.order(code_adt, {"preface": V("arr", ()), "primary_df_code": v})))

        def opaque(v):
            return v.k not in ("adt", "phi", "arr", "tup", "lit", "fmt", "loop")

        def m_query(I, f, ga, args, node, fr):
            v = args[0]
            if v.k == "phi":
                return phi([(g, I.call(f, [y] + args[1:], None, fr)) for g, y in v.a[0]])
            if v.k == "adt" and len(v.a[2]) == 1 and v.a[2][0][1].k == "app" and v.a[2][0][1].a[0] == "colexpr":
                return code(v.a[2][0][1])
            if opaque(v):
                return code(app("py", v) if not (v.k == "app" and v.a[0] == "colexpr") else v)
            return None
        M[q + "::to_spark_query"] = m_query

        def m_expr(I, f, ga, args, node, fr):
            v = args[0]
            if v.k == "phi":
                return phi([(g, I.call(f, [y] + args[1:], None, fr)) for g, y in v.a[0]])
            if opaque(v):
                return Ok(mkadt(expr_adt, "Column", (("0", app("colexpr", v)),)))
            return None
        M[x + "::to_spark_expr"] = m_expr

        def m_unal(I, f, ga, args, node, fr):
            v = args[0]
            if v.k == "phi":
                return phi([(g, I.call(f, [y] + args[1:], None, fr)) for g, y in v.a[0]])
            if opaque(v):
                return V("tup", (v, NONE))
            if v.k == "adt" and len(v.a[2]) == 1 and v.a[2][0][1].k == "app" and v.a[2][0][1].a[0] == "colexpr":
                return V("tup", (v, NONE))
            return None
        M[al + "::unaliased_with_name"] = m_unal

        # counters are cells with a value; an unknown counter counts from 1
        I.cells = {}

        def m_new(I, f, ga, args, node, fr):
            I.effects += 1
            v = args[0]
            n = v.a[1][0].a[1] if v.k == "app" and v.a[0] == "uid" else v.a[1] if v.k == "lit" else None
            if not isinstance(n, int):
                return None
            c = app("atomic", lit(len(I.cells)))
            I.cells[c.i] = n
            return c

        def m_fetch(I, f, ga, args, node, fr):
            I.effects += 1
            n = I.cells.get(args[0].i, 1)
            step = args[1].a[1] if len(args) > 1 and args[1].k == "lit" and isinstance(args[1].a[1], int) else 1
            I.cells[args[0].i] = n + step
            return app("uid", lit(n))

        def m_load(I, f, ga, args, node, fr):
            I.effects += 1
            return app("uid", lit(I.cells.get(args[0].i, 1)))
        for pre in ("core::sync::atomic::Atomic::<usize>::", "core::sync::atomic::AtomicUsize::"):
            M[pre + "fetch_add"] = m_fetch
            M[pre + "load"] = m_load
            M[pre + "new"] = m_new

        def m_phf(I, f, ga, args, node, fr):
            mp, key = args
            if mp.k != "adt":
                return None
            ents = dict(mp.a[2]).get("entries")
            if ents is None or ents.k not in ("arr", "adt"):
                return None
            es = ents.a[0] if ents.k == "arr" else None
            if es is None:
                for _, y in ents.a[2]:
                    if y.k == "arr":
                        es = y.a[0]
            if es is None:
                return None
            kvs = {litval(e.a[0][0]): e.a[0][1] for e in es if e.k == "tup" and e.a[0][0].k == "lit"}

            def one(k):
                if k.k == "lit":
                    return Some(kvs[k.a[1]]) if k.a[1] in kvs else NONE
                raise TooBig("map lookup with a symbolic key")
            return over(I, key, one)
        M["phf::map::Map::<K, V>::get"] = m_phf

        def m_regex_new(I, f, ga, args, node, fr):
            return Ok(app("Regex", args[0])) if args[0].k == "lit" else None
        M["regex::regex::string::Regex::new"] = m_regex_new
        M["regex::Regex::new"] = m_regex_new

        def m_rx_parse(I, f, ga, args, node, fr):
            if args[-1].k != "lit":
                return None
            import regexast
            try:
                return Ok(regexast.parse(args[-1].a[1]))
            except (ValueError, IndexError):
                return None
        M["regex_syntax::ast::parse::Parser::parse"] = m_rx_parse

        def m_is_match(I, f, ga, args, node, fr):
            r, t = args
            if r.k == "app" and r.a[0] == "Regex":
                pat = r.a[1][0].a[1]

                def one(x):
                    ss = regex_sample(x)
                    b = {bool(re.search(pat, s, re.S)) for s in ss}
                    return lit(b.pop()) if len(b) == 1 else app("is_match", r, x)
                return over(I, t, one)
            return None
        M["regex::regex::string::Regex::is_match"] = m_is_match
        M["regex::Regex::is_match"] = m_is_match
        self.I = I
        return I

    def order(self, adtp, d, variant=None):
        a = self.F.adts[adtp]
        for v in a["variants"]:
            if variant is None or v["name"] == variant:
                return tuple((n, d[n]) for n, _, _ in v["fields"] if n in d)
        raise AnalysisError("no variant %s in %s" % (variant, adtp))

    # -- building shapes --------------------------------------------------------------------
    def struct(self, name_, within_="", **kw):
        p = self.adtpath(name_, within_)
        fs = []
        v = self.F.adts[p]["variants"][0]
        names = [n for n, _, _ in v["fields"]]
        for k in kw:
            if k not in names:
                raise AnalysisError("anchor: %s has no field %s" % (name_, k))
        for n, ty, *_ in v["fields"]:
            fs.append((n, kw[n] if n in kw else V("sym", n, ty)))
        return mkadt(p, v["name"], fs)

    def variant(self, enum, name, within, *vals):
        p = self.adtpath(enum, within)
        for v in self.F.adts[p]["variants"]:
            if v["name"] == name:
                return mkadt(p, name, tuple((n, x) for (n, _, _), x in zip(v["fields"], vals)))
        raise AnalysisError("anchor: no %s::%s" % (enum, name))

    def state(self, runtime="Disallow", df=True):
        ctx = self.struct("PysparkTranspileContext",
                          runtime=self.variant("RuntimeSelection", runtime, ""))
        d = NONE if df is False else Some(V("sym", "IN", self.adtpath("DataFrame"))) if df is True else Some(df)
        return self.struct("PipelineTransformState", ctx=ctx, df=d), ctx

    # -- running ----------------------------------------------------------------------------
    def trait_call(self, trait, method, recv, args, fr=None):
        im = None
        for i in self.F.impl_by_trait.get(trait, ()):
            if i["args"] and i["args"][0].split("<")[0] == recv.a[0]:
                im = i
        if im is None:
            raise AnalysisError("anchor: no impl of %s for %s" % (trait, recv.a[0]))
        b = self.I.impl_fn(im, method)
        if b is None:
            bs = [x for x in self.F.by_path.get(trait + "::" + method, [])]
            if not bs:
                raise AnalysisError("anchor: %s::%s" % (trait, method))
            b = bs[0]
        fr = Frame_(b)
        return self.I.enter(b, [recv] + args, {"Self": recv.a[0]}, fr, method)

    def python(self, v, ctx):
        """Ok alternatives of rendering `v` (a renderable AST node) to text."""
        r = self.render(v, ctx)
        out = []
        for g, c in oks(r):
            s = to_string(self.I, c, self.code_adt, Frame_(None))
            out += [(g + g2, t) for g2, t in texts(s)]
        return out, errs(r)

    def render(self, v, ctx):
        if v.k == "phi":
            return phi([(g, self.render(x, ctx)) for g, x in v.a[0]])
        if v.k != "adt":
            raise Undecided("not a constructed value: " + show(v, 0, 4))
        return self.trait_call(self.t_query, "to_spark_query", v, [ctx])

    def command(self, cmd, runtime="Disallow", df=True):
        """-> (list of (guards, text|None), has_err)  text None: no dataframe"""
        self.interp()
        st, ctx = self.state(runtime, df)
        wrapper = self.wrap_command(cmd)
        r = self.trait_call(self.t_pipe, "transform", wrapper, [st])
        out = []
        for g, s in oks(r):
            d = self.I.field(s, "df")
            for g2, x in alts(d):
                if x.k == "adt" and x.a[1] == "Some":
                    for g3, y in alts(x.a[2][0][1]):
                        if y.k in ("sym",):
                            out.append((g + g2 + g3, htext(y)))
                            continue
                        o, e = self.python(y, ctx)
                        out += [(g + g2 + g3 + gg, t) for gg, t in o]
                        if e:
                            out.append((g + g2 + g3, "RENDER-ERROR"))
                elif x.k == "adt":
                    out.append((g + g2, None))
                else:
                    raise Undecided("state dataframe is " + show(x, 0, 5))
        return [(g, t) for g, t in out if not contradictory(g)], bool(errs(r))

    def fn(self, suffix):
        bs = [b for p, x in self.F.by_path.items() if p.endswith(suffix) and p.startswith("spl_transpiler") for b in x]
        if len(bs) != 1:
            raise AnalysisError("anchor: function %s found %d times" % (suffix, len(bs)))
        return bs[0]

    def pipeline(self, pipe, runtime="Disallow"):
        """the program text the library function returns for a whole pipeline -> (list of (guards, text), has_err)"""
        self.interp()
        b = self.fn("spl_transpiler::render_pyspark")
        ps = b["thir"]["params"]
        if len(ps) != 3:
            raise AnalysisError("anchor: render_pyspark(pipeline, allow_runtime, format_code)")
        r = self.I.enter(b, [pipe, lit(runtime == "Allow"), lit(False)], {}, Frame_(b), "render_pyspark")
        out = []
        for g, s in oks(r):
            out += [(g + g2, t) for g2, t in texts(s)]
        return [(g, t) for g, t in out if not contradictory(g)], bool(errs(r))

    def wrap_command(self, cmd):
        p = self.adtpath("Command", "::spl::ast")
        name = cmd.a[1]
        for v in self.F.adts[p]["variants"]:
            if len(v["fields"]) == 1 and v["fields"][0][1].split("<")[0] == cmd.a[0]:
                return mkadt(p, v["name"], ((v["fields"][0][0], cmd),))
        raise AnalysisError("anchor: no Command variant for " + cmd.a[0])


class Frame_:
    """A root frame for calls made by the analysis itself."""
    def __init__(self, b):
        self.body = b or {"path": "<root>"}
        self.tsub = {}
        self.depth = 0
        self.env = {}
        self.pc = ()
        self.returns = []
        self.loops = []
