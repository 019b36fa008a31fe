"""Generated runtime programs, interpreted against the source of the Python runtime (lib/pyabs.py)."""
import ast
import re

from emit import norm, spec, unhole, hole_token, Undecided
from golden import canon, vague, guard_simple
from golden import AnalysisError, TooBig
from pyabs import Ext, Interp, Mod, Package, Raised, Sym, Unknown, alpha, program, traces
from checks import cmds, golden_cmds
from checks.golden_cmds import load, name_of
from checks.golden_fns import EVAL, STATS, table, want, shape, ev, st

ERR = "ERROR"
IN = hole_token("IN")


def flat(n, op):
    if isinstance(n, ast.BinOp) and isinstance(n.op, op):
        return flat(n.left, op) + flat(n.right, op)
    return [n]


def method(n, *names):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in names


class _Same(ast.NodeTransformer):
    """texts that differ in these ways compute the same: filters one after another or joined, the order of conjuncts,
    plain values compared with columns, grouping by names or columns, how the columns of a dataframe are enumerated"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        for op in (ast.BitAnd, ast.BitOr):
            if isinstance(n.op, op):
                xs = sorted({ast.unparse(x): x for x in flat(n, op)}.items())
                xs = [x for t, x in xs if op is not ast.BitAnd or t != "F.lit(True)"]
                r = xs[0] if xs else ast.parse("F.lit(True)", mode="eval").body
                for x in xs[1:]:
                    r = ast.BinOp(left=r, op=op(), right=x)
                return r
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.comparators[0], ast.Constant) and n.comparators[0].value is not None:
            n.comparators[0] = ast.Call(func=ast.parse("F.lit", mode="eval").body, args=[n.comparators[0]], keywords=[])
        return n

    def visit_Subscript(self, n):
        self.generic_visit(n)
        v = n.value
        if isinstance(v, ast.Call) and ast.unparse(v.func) == "list" and len(v.args) == 1:
            v = v.args[0]
        if isinstance(v, ast.Call) and ast.unparse(v.func) == "dict" and len(v.args) == 1 and \
                isinstance(v.args[0], ast.Attribute) and v.args[0].attr == "dtypes":
            if v is n.value:
                return ast.Call(func=ast.Name(id="TYPE"), args=[n.slice], keywords=[])
            return ast.Call(func=ast.Name(id="COLUMN"), args=[n.slice], keywords=[])
        if isinstance(v, ast.Attribute) and v.attr == "columns":
            return ast.Call(func=ast.Name(id="COLUMN"), args=[n.slice], keywords=[])
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        v = n.value
        if n.attr == "dataType" and isinstance(v, ast.Subscript) and isinstance(v.value, ast.Attribute) and v.value.attr == "schema":
            return ast.Call(func=ast.Name(id="TYPE"), args=[v.slice], keywords=[])
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "TABLE":
            n.keywords = sorted((k for k in n.keywords if not (isinstance(k.value, ast.Constant) and k.value.value is None)),
                                key=lambda k: k.arg)
            if len(n.keywords) == 1 and n.keywords[0].arg in ("index", "data_model"):
                return ast.Call(func=ast.parse("spark.table", mode="eval").body, args=[n.keywords[0].value], keywords=[])
        if method(n, "first", "last") and ast.unparse(n.func.value) == "F" and len(n.keywords) == 1 and len(n.args) == 1:
            n.args, n.keywords = n.args + [n.keywords[0].value], []
        if method(n, "percentile_approx") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
            n.args[1] = ast.Call(func=ast.parse("F.lit", mode="eval").body, args=[n.args[1]], keywords=[])
        if method(n, "where", "filter") and len(n.args) == 1:
            cond, src = n.args[0], n.func.value
            if isinstance(src, ast.Call) and method(src, "where") and len(src.args) == 1:
                cond = self.visit_BinOp(ast.BinOp(left=src.args[0], op=ast.BitAnd(), right=cond))
                src = src.func.value
            if ast.unparse(cond) == "F.lit(True)":
                return src
            return ast.Call(func=ast.Attribute(value=src, attr="where"), args=[cond], keywords=[])
        if method(n, "groupBy", "groupby"):
            xs = n.args
            if len(xs) == 1 and isinstance(xs[0], (ast.List, ast.Tuple)):
                xs = xs[0].elts
            xs = [x.args[0] if isinstance(x, ast.Call) and ast.unparse(x.func) == "F.col" else x for x in xs]
            return ast.Call(func=ast.Attribute(value=n.func.value, attr="groupBy"), args=xs, keywords=[])
        return n


def same(text):
    text = alpha(norm(text))
    try:
        return ast.unparse(_Same().visit(ast.parse(text)))
    except SyntaxError:
        return text


class Runner:
    """like golden.Golden, but compares what the runtime makes of the program"""
    def __init__(self, ctx, rep):
        self.ctx, self.rep, self.E = ctx, rep, ctx.E
        self.pkg = Package(ctx.repo)

    def case(self, key, thunk, expected, where="", meaning=True, refused=("NotImplementedError",)):
        rep = self.rep
        try:
            self.E.I.widened.clear()
            self.E.label = key
            act, err = thunk()
        except (Undecided, TooBig, AnalysisError, RecursionError, RuntimeError) as ex:
            rep.undecided(key, "%s: %s" % (type(ex).__name__, ex))
            return
        exp = [e if e == ERR else same(spec(e)) for e in expected]
        n, seen = 0, []
        for g, t in act:
            if t is None:
                continue
            txt = canon(t)
            if vague(txt) or txt.startswith("SYNTAX"):
                rep.undecided(key, "opaque text in output")
                return
            n += 1
            try:
                out = program(self.pkg, txt, IN)
            except (Unknown, RecursionError) as ex:
                rep.undecided(key, "runtime: %s" % ex)
                return
            for pg, r in out:
                seen.append((g, pg, txt, ERR if isinstance(r, Raised) and r.name in refused else
                             r if isinstance(r, Raised) else same(r)))
        rep.count("programs_interpreted", n)
        if not n:
            rep.ok(key, "rejected")
            return
        good = [x for x in seen if x[3] in exp or not meaning and not isinstance(x[3], Raised)]
        bad = [x for x in seen if x not in good]
        if not bad:
            rep.ok(key, " | ".join(unhole(str(x[3])) for x in good))
            return
        sure = [x for x in bad if (not x[0] or guard_simple(x[0])) and len(x[1]) <= 2] if good else bad
        if not sure:
            rep.undecided(key, "%d results, the expected one among them" % len(seen))
            return
        g, pg, txt, r = sure[0]
        if isinstance(r, Raised):
            rep.violation(key, "the runtime fails on `%s`: %s" % (unhole(txt)[:300], unhole(str(r))[:300]), where)
        else:
            rep.violation(key, "the runtime makes of `%s`: `%s`, instead of `%s`" % (
                unhole(txt)[:300], unhole(r)[:600], " or ".join(unhole(e) for e in exp)[:600]), where)


def run(ctx, rep, meaning):
    evals(ctx, rep, meaning)
    stats(ctx, rep, meaning)
    commands(ctx, rep, meaning)
    expressions(ctx, rep, meaning)
    pipelines(ctx, rep, meaning)


def accepted(ctx, rep):
    """no generated program fails in the runtime, except by saying that something is not implemented"""
    run(ctx, rep, False)


def results(ctx, rep):
    """with the runtime, every program computes what it computes without"""
    run(ctx, rep, True)


def evals(ctx, rep, meaning=True):
    """every eval function with the runtime: accepted, and the same columns as without it"""
    R, S = Runner(ctx, rep), ctx.S
    for lhs, rhs in table(EVAL):
        w = want(rhs)
        exp = ["ERROR"] if w == "ERROR" else ["⟨IN⟩.withColumn('⟨r⟩', %s)" % w]
        exp += ["⟨IN⟩.withColumn('⟨r⟩', %s)" % want(x) for x in [ALSO.get(lhs)] if x]
        for rt in ("Require", "Allow"):
            R.case("runtime[%s] eval %s" % (rt, lhs), lambda: ev(S, shape(S, lhs), rt), exp, where(lhs), meaning)
    # how functions combine
    for lhs, rhs in table(NESTED):
        for rt in ("Require", "Allow"):
            R.case("runtime[%s] eval %s" % (rt, lhs), lambda: ev(S, shape(S, lhs), rt),
                   ["⟨IN⟩.withColumn('⟨r⟩', %s)" % want(rhs)], where(lhs), meaning)


def stats(ctx, rep, meaning=True):
    """every stats function with the runtime"""
    R, S = Runner(ctx, rep), ctx.S
    for lhs, rhs in table(STATS):
        pre, ex, al = [x.strip() for x in rhs.split("|")]
        exs = [want(x) for x in [ex] + ALSO_STATS.get(lhs, [])]
        al = re.match(r"\w+", lhs).group(0)
        w = "`%s` in python/spl_transpiler/runtime/functions/stats.py" % lhs
        for rt in ("Require", "Allow"):
            R.case("runtime[%s] stats %s as n" % (rt, lhs), lambda: st(S, shape(S, lhs + "[n]"), rt),
                   ["⟨IN⟩%s.groupBy().agg((%s).alias('⟨n⟩'))" % (pre, x) for x in exs], w, meaning)
        R.case("runtime[Require] stats %s by g" % lhs, lambda: st(S, shape(S, lhs), "Require", by=("g",)),
               ["⟨IN⟩%s.groupBy('⟨g⟩').agg((%s).alias('%s'))" % (pre, x, al) for x in exs], w, meaning)


def commands(ctx, rep, meaning=True):
    """every command shape with the runtime: data/runtime.txt"""
    R = Runner(ctx, rep)
    for mode, df, case, exp in load("runtime.txt"):
        R.case("%s%s %s" % (mode, "" if df else "/first", case), lambda: ctx.E.command(cmds.command(ctx.S, case), mode, df),
               exp, "%s (python/spl_transpiler/runtime/commands)" % name_of(case), meaning)


def expressions(ctx, rep, meaning=True):
    """every operator, time modifier and time format with the runtime: data/exprs.txt, data/timefmt.txt"""
    R = Runner(ctx, rep)
    for fn in ("exprs.txt", "timefmt.txt"):
        for mode, df, case, exp in load(fn):
            kind, _, text = case.partition(" ")
            if kind in EXPR:
                R.case("runtime[Require] %s %s" % (EXPR[kind][0], text),
                       lambda: ctx.E.command(cmds.command(ctx.S, EXPR[kind][1] % text), "Require", df), exp,
                       "`%s` in python/spl_transpiler/runtime" % text, meaning, ("NotImplementedError", "ValueError"))


EXPR = {"E": ("eval", "Eval(fields=[(r, %s)])"), "S": ("search", "Search(expr=%s)"), "A": ("stats", "Stats(funcs=[%s])")}


def pipelines(ctx, rep, meaning=True):
    """whole pipelines: the same result with the runtime allowed as without it"""
    R = Runner(ctx, rep)
    rows = load("pipelines.txt")
    std = {case: exp for mode, _, case, exp in rows if mode == "Disallow"}
    own = {case: exp for mode, _, case, exp in load("runtime_pipelines.txt")}
    for mode, _, case, exp in rows:
        if mode == "Disallow" or case not in std and case not in own:
            continue
        R.case("pipeline/%s %s" % (mode, case),
               lambda: ctx.E.pipeline(cmds.convert(ctx.S, "Pipeline", ast.parse(case, mode="eval").body), mode),
               own.get(case) or std[case], "python/spl_transpiler/runtime/commands", meaning)


def where(lhs):
    return "`%s` in python/spl_transpiler/runtime/functions" % lhs.split("(")[0]



# what the runtime may make of these instead: its own function instead of an SQL function of the same name
ALSO = dict(table(r"""
cidrmatch("10.0.0.0/8", a) => udfs.cidr_match($a, F.lit('10.0.0.0/8'))
cidrmatch("$c", a) => udfs.cidr_match($a, F.lit('⟨c⟩'))
"""))

ALSO_STATS = {"sumsq(a)": ["F.sum(F.pow($a, 2))"]}

NESTED = r"""
tonumber(a, 8) => udfs.tonumber($a, F.lit(8))
tonumber(a, 16) => udfs.tonumber($a, F.lit(16))
tonumber(a, 10) => $a.cast('double')
tostring(a, "hex") => udfs.tostring($a, F.lit('hex'))
tostring(a, "duration") => udfs.tostring($a, F.lit('duration'))
printf("%s is %d", a, b) => udfs.printf(F.lit('%s is %d'), F.struct($a, $b))
printf("done") => udfs.printf(F.lit('done'))
ipmask("255.255.0.0", a) => udfs.ipmask(F.lit('255.255.0.0'), $a)
ipmask(a, b) => udfs.ipmask($a, $b)
in_(a, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12) => $a.isin(F.lit(1), F.lit(2), F.lit(3), F.lit(4), F.lit(5), F.lit(6), F.lit(7), F.lit(8), F.lit(9), F.lit(10), F.lit(11), F.lit(12))
coalesce(a, b, c, d, e, 1, 2, 3, 4, 5, 6, 7) => F.coalesce($a, $b, $c, $d, $e, F.lit(1), F.lit(2), F.lit(3), F.lit(4), F.lit(5), F.lit(6), F.lit(7))
mvappend(a, b, c, d, e, a, b) => F.concat($a, $b, $c, $d, $e, $a, $b)
case(a == 1, b, a == 2, c, a == 3, d, a == 4, e, a == 5, 0) => F.when($a == F.lit(1), $b).when($a == F.lit(2), $c).when($a == F.lit(3), $d).when($a == F.lit(4), $e).when($a == F.lit(5), F.lit(0))
mvindex(a, 0) => F.get($a, 0)
mvindex(a, 0, 0) => F.slice($a, 1, 1)
mvindex(a, 2, 5) => F.slice($a, 3, 4)
mvindex(a, -1) => F.element_at($a, -1)
mvindex(a, -3, -2) => F.slice($a, -3, 2)
round(a, 3) => F.round($a, 3)
round(a, 0) => F.round($a, 0)
if_(isnull(a), 0, len(b)) => F.when(F.isnull($a), F.lit(0)).otherwise(F.length($b))
len(a) + 1 => F.length($a) + F.lit(1)
lower(a) == "x" and isnotnull(b) => (F.lower($a) == F.lit('x')) & F.isnotnull($b)
"""


# ---------------------------------------------------------------- the library called directly
SOURCES = ["index", "source", "source_type", "host", "host_tag", "event_type", "event_type_tag", "saved_splunk",
           "splunk_server"]
STORED = {"source": "_source", "source_type": "_sourcetype", "host": "_host", "host_tag": "_hosttag",
          "event_type": "_eventtype", "event_type_tag": "_eventtypetag", "saved_splunk": "_savedsearch",
          "splunk_server": "_splunk_server"}
FIELDS = {"index": "index", "source": "source", "source_type": "sourcetype", "host": "host", "host_tag": "hosttag",
          "event_type": "eventtype", "event_type_tag": "eventtypetag", "saved_splunk": "savedsplunk",
          "splunk_server": "splunk_server"}


def looked_up(given):
    """the table and the conditions that the default lookup function stands for"""
    if "data_model" in given:
        return "spark.table(%r)" % given["data_model"]
    if "index" in given:
        table, conds = given["index"], list(STORED)
    elif "source" in given or "source_type" in given:
        table = "_".join([given[k] for k in ("source", "source_type") if k in given] + ["silver"])
        conds = [k for k in STORED if k not in ("source", "source_type")]
    else:
        return "ValueError"
    return "spark.table(%r)" % table + "".join(
        ".where(F.col(%r) == %r)" % (STORED[k], given[k]) for k in conds if k in given)


def searched(given, piped):
    if piped:
        return "IN" + "".join(".where(F.col(%r) == %r)" % (FIELDS[k], given[k]) for k in SOURCES if k in given)
    given = dict(given)
    if not any(k in given for k in ("index", "source", "source_type")):
        given["index"] = "main"
    return "TABLE(%s)" % ", ".join("%s=%r" % kv for kv in given.items())


def evaluated(pkg, text):
    """the traces of one Python expression that calls the runtime library"""
    tree = ast.parse(text, mode="eval").body

    def go(t):
        I = Interp(pkg, t)
        env = {n: Mod("spl_transpiler.runtime." + n) for n in ("config", "commands", "functions", "base")}
        env.update({"IN": Sym(ast.Name(id="IN", ctx=ast.Load()), "df"), "F": Ext("pyspark.sql.functions"), "__module__": "__program__"})
        return I.ev(tree, env, "__program__")
    return traces(go)


def library(ctx, rep):
    """calls of the runtime library with every subset of the parameters that select a source"""
    pkg = Package(ctx.repo)
    every = SOURCES + ["data_model"]

    def case(key, text, exp, where):
        rep.count("calls_interpreted")
        try:
            out = evaluated(pkg, text)
        except (Unknown, RecursionError) as ex:
            rep.undecided(key, "runtime: %s" % ex)
            return
        for g, r in out:
            got = r.name if isinstance(r, Raised) else same(ast.unparse(r.node)) if isinstance(r, Sym) else repr(r)
            if got != (exp if exp == "ValueError" else same(exp)):
                rep.violation(key, "`%s` is %s, instead of `%s`" % (
                    text, "an error: %s" % r if isinstance(r, Raised) else "`%s`" % got, exp), where)
                return
        rep.ok(key, exp)

    def subsets(names):
        for n in range(2 ** len(names)):
            yield {k: "v%d" % i for i, k in enumerate(names) if n >> i & 1}

    for given in subsets(every):
        args = ", ".join("%s=%r" % kv for kv in given.items())
        case("lookup(%s)" % ", ".join(given), "config.default_table_lookup(%s)" % args, looked_up(given),
             "default_table_lookup in python/spl_transpiler/runtime/config.py")
    for given in subsets(SOURCES):
        args = "".join(", %s=%r" % kv for kv in given.items())
        for df in ("None", "IN"):
            case("search(%s%s)" % (df, "".join(", " + k for k in given)), "commands.search(%s%s)" % (df, args),
                 searched(given, df == "IN"), "search in python/spl_transpiler/runtime/commands/search.py")
    # the lookup function in use, unless the user names another
    key = "settings: table_lookup_function"
    try:
        I = Interp(pkg, traces_none())
        env = I.module("spl_transpiler.runtime.config")
        cls = [n for n in pkg.load("spl_transpiler.runtime.config")[0].body if isinstance(n, ast.ClassDef)]
        dflt = [a.value for c in cls for a in c.body if isinstance(a, (ast.AnnAssign, ast.Assign)) and a.value is not None and
                "table_lookup_function" in [getattr(t, "id", None) for t in getattr(a, "targets", [getattr(a, "target", None)])]]
        if len(dflt) != 1:
            raise Unknown("%d default values" % len(dflt))
        got = I.ev(dflt[0], env, "spl_transpiler.runtime.config")
        if got is env.get("default_table_lookup"):
            rep.ok(key, "default_table_lookup")
        else:
            rep.violation(key, "the default lookup function is %r" % (got,), "SplTranspilerSettings")
    except (Unknown, Raised) as ex:
        rep.undecided(key, str(ex))


def traces_none():
    from pyabs import Trace
    return Trace([])


# ---------------------------------------------------------------- user-defined functions
# arguments -> result, or result | result when a library call raises; the type Spark is told
UDFS = r"""
cidr_match(ip, c) => ipaddress.ip_address(ip) in ipaddress.ip_network(c, strict=False) | False | BooleanType
ipmask(m, ip) => f'{ipaddress.IPv4Address(int(ipaddress.IPv4Address(ip)) & int(ipaddress.IPv4Address(m)))}' | None | StringType
printf(f, a) => f % a | | StringType
printf(f) => f % () | | StringType
tonumber(v, b) => int(v, b) | None | IntegerType LongType
tostring(None, 'hex') => None | | StringType
tostring(None, 'commas') => None | | StringType
tostring(True, None) => 'True' | | StringType
tostring(False, None) => 'False' | | StringType
tostring(int, None) => f'{int}' | | StringType
tostring(float, None) => f'{float}' | | StringType
tostring(int, 'binary') => f'{int:b}' | | StringType
tostring(int, 'hex') => f'0x{int:X}' | | StringType
tostring(int, 'commas') => f'{int:,}' | | StringType
tostring(float, 'commas') => f'{float:,.2f}' | | StringType
tostring(int, 'duration') => f'{int // 3600:02d}:{int // 60 % 60:02d}:{int % 60:02d}' | | StringType
"""


class _Units(ast.NodeTransformer):
    """integer quotients and remainders by constants, in one of their spellings"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        k = n.right.value if isinstance(n.right, ast.Constant) and isinstance(n.right.value, int) else 0
        i = n.left
        if k > 0 and isinstance(i, ast.BinOp) and isinstance(i.right, ast.Constant) and isinstance(i.right.value, int):
            m, a = i.right.value, i.left
            div, mod = ast.FloorDiv, ast.Mod
            make = lambda x, op, c: ast.BinOp(left=x, op=op(), right=ast.Constant(value=c))
            if isinstance(n.op, mod) and isinstance(i.op, mod) and m % k == 0:
                return make(a, mod, k)
            if isinstance(n.op, div) and isinstance(i.op, mod) and m % k == 0:
                return make(make(a, div, k), mod, m // k)
            if isinstance(n.op, div) and isinstance(i.op, div):
                return make(a, div, m * k)
        return n


def plain(text):
    return ast.unparse(ast.fix_missing_locations(_Units().visit(ast.parse(same(text)))))


def udfs(ctx, rep):
    """the bodies of the user-defined functions, on values of each type"""
    from pyabs import Partial, Trace, body, node_of
    pkg, mod = Package(ctx.repo), "spl_transpiler.runtime.udfs"
    types = {}
    for lhs, rhs in table(UDFS):
        key, call = "udf " + lhs, ast.parse(lhs, mode="eval").body
        ok, failed, ret = [x.strip() for x in rhs.rsplit("|", 2)]
        name = call.func.id
        where = "%s in python/spl_transpiler/runtime/udfs/__init__.py" % name
        args = [a.value if isinstance(a, ast.Constant) else
                Sym(a, "py" + a.id if a.id in ("int", "float", "str") else "any") for a in call.args]
        rep.count("bodies_interpreted")
        try:
            out = body(pkg, mod, name, args)
            if name not in types:
                I = Interp(pkg, Trace([]))
                env = I.module(mod)
                ds = [I.ev(d, env, mod) for d in env[name].node.decorator_list]
                kw = [d.kw.get("returnType", (d.args or [None])[0]) for d in ds if isinstance(d, Partial) and d.f == "udf"]
                types[name] = " ".join(k if isinstance(k, str) else ast.unparse(node_of(k)) for k in kw if k is not None)
        except (Unknown, RecursionError) as ex:
            rep.undecided(key, "runtime: %s" % ex)
            continue
        n0 = len(rep.bad) + len(rep.und)
        for g, r in out:
            raised = [a for k, a in g if k.startswith("raises ") and a]
            odd = [k for k, a in g if not k.startswith("raises ")]
            got = "%s" % r if isinstance(r, Raised) else plain(ast.unparse(r.node) if isinstance(r, Sym) else repr(r))
            exp = (failed or "no error") if raised else ok
            if isinstance(r, Raised) or got != plain(exp):
                if odd:
                    rep.undecided(key, "depends on %s" % odd[0])
                    break
                rep.violation(key, "%s%s is `%s`, instead of `%s`" % (
                    lhs, ", when a library call raises %s," % raised[0] if raised else "", got, exp), where)
                break
        if not re.search(r"\b(%s)\b|^'(%s)'" % ("|".join(ret.split()), "|".join(x[:-4].lower() for x in ret.split())), types[name]):
            rep.violation("udf %s type" % name, "Spark is told that %s returns `%s`, not %s" % (name, types[name], ret), where)
        if len(rep.bad) + len(rep.und) == n0:
            rep.ok(key, ok)


# -- the runtime library called directly -------------------------------------------------------------------------

LITERALS = ["5", "-3", "2.5", "None", "True", "False"]
PLAIN = {"int": "3", "float": "2.5", "str": "'t'", "bool": "True"}


def signatures(pkg, mod):
    """[(function, [(parameter, kind, starred)])] of the public functions of a module; kind: expr, plain text or None"""
    out = []
    for f in pkg.load(mod)[0].body:
        if not isinstance(f, ast.FunctionDef) or f.name.startswith("_") or not f.decorator_list:
            continue
        a, ps = f.args, []
        for x in a.posonlyargs + a.args + ([a.vararg] if a.vararg else []):
            t = ast.unparse(x.annotation) if x.annotation else ""
            kind = "expr" if t == "Expr" else "expr?" if t == "Expr | None" else PLAIN.get(re.sub(r" \| None", "", t))
            ps.append((x.arg, kind, x is a.vararg))
        out.append((f.name, ps))
    return out


def forms(ctx, rep):
    """a column may be given by its name and a literal as a plain value, wherever an expression is taken"""
    pkg = Package(ctx.repo)
    done = {}

    def outcome(text):
        if text not in done:
            out = []
            for g, r in evaluated(pkg, text):
                if isinstance(r, Raised):
                    out.append((str(g), r.name))
                elif isinstance(r, Sym):
                    out.append((str(g), same(ast.unparse(r.node))))
                else:
                    raise Unknown("a result that is no column: %r" % (r,))
            done[text] = sorted(out)
        return done[text]

    def alike(fn, t1, t2, where):
        rep.count("calls_compared")
        try:
            a, b = outcome(t1), outcome(t2)
        except (Unknown, RecursionError) as ex:
            rep.undecided(t2, "runtime: %s" % ex)
            return
        if a == b:
            rep.ok(t2, a[0][1] if a else "")
        else:
            rep.violation(t2, "`%s` is %s, but `%s` is %s" % (t2, "; ".join(x[1] for x in b), t1, "; ".join(x[1] for x in a)), where)

    def every(call, mod, where):
        for fn, ps in signatures(pkg, mod):
            if any(k is None for _, k, _ in ps):
                continue
            for n in (1, 2, 3, 4) if any(s for _, _, s in ps) else (1,):
                slots = [k for _, k, s in ps for _ in range(n if s else 1)]
                at = [i for i, k in enumerate(slots) if k in ("expr", "expr?")]
                cols = [k if i not in at else "F.col('p%d')" % i for i, k in enumerate(slots)]
                w = "%s in %s" % (fn, where)
                if not at:
                    continue
                base = call % (fn, ", ".join(cols))
                for which in [[i] for i in at] + ([at] if len(at) > 1 else []):
                    alike(fn, base, call % (fn, ", ".join("'p%d'" % i if i in which else c for i, c in enumerate(cols))), w)
                for i in at:
                    for v in LITERALS:
                        if v == "None" and slots[i] == "expr?":          # no argument
                            continue
                        alike(fn, call % (fn, ", ".join("F.lit(%s)" % v if i == j else c for j, c in enumerate(cols))),
                              call % (fn, ", ".join(v if i == j else c for j, c in enumerate(cols))), w)
    every("commands.eval(IN, r=functions.eval.%s(%s))", "spl_transpiler.runtime.functions.eval", "python/spl_transpiler/runtime/functions/eval.py")
    every("commands.stats(IN, r=functions.stats.%s(%s))", "spl_transpiler.runtime.functions.stats", "python/spl_transpiler/runtime/functions/stats.py")
    for t1, t2, w in FORMS:
        alike("", t1, t2, "%s in python/spl_transpiler/runtime/commands" % w)
    if len(done) < 500:
        raise AnalysisError("direct calls of the runtime: %d" % len(done))


FORMS = [
    ("commands.eval(IN, r=F.col('a'))", "commands.eval(IN, r='a')", "eval"),
    ("commands.eval(IN, r=F.lit(5), q=F.col('b'))", "commands.eval(IN, r=5, q='b')", "eval"),
    ("commands.eval(IN, r=F.lit(None))", "commands.eval(IN, r=None)", "eval"),
    ("commands.eval(IN, r=F.lit(2.5))", "commands.eval(IN, r=2.5)", "eval"),
    ("commands.stats(IN, by=[F.col('a'), F.col('b')], n=functions.stats.count())", "commands.stats(IN, by=['a', 'b'], n=functions.stats.count())", "stats"),
    ("commands.stats(IN, n=functions.stats.count())", "commands.stats(IN, by=[], n=functions.stats.count())", "stats"),
    ("commands.tstats(IN, where=F.col('a') == F.lit(1), by=[F.col('b')], n=functions.stats.count())",
     "commands.stats(IN.where(F.col('a') == F.lit(1)), by=['b'], n=functions.stats.count())", "tstats"),
    ("commands.tstats(IN, where=F.col('a'), n=functions.stats.count())", "commands.tstats(IN, where='a', n=functions.stats.count())", "tstats"),
    ("commands.tstats(IN, fill_null_value='z', n=functions.stats.count())",
     "commands.stats(commands.fill_null(IN, value='z'), n=functions.stats.count())", "tstats"),
    ("commands.tstats(IN, fill_null_value='z', where=F.col('a'), by=['b'], n=functions.stats.count())",
     "commands.stats(commands.fill_null(IN, value='z').where(F.col('a')), by=['b'], n=functions.stats.count())", "tstats"),
    ("commands.tstats(from_=dict(datamodel='m'), n=functions.stats.count())",
     "commands.stats(commands.data_model(data_model_name='m'), n=functions.stats.count())", "tstats"),
    ("commands.tstats(from_=dict(datamodel='m', nodename='m.x'), by=['b'], n=functions.stats.sum_('x'))",
     "commands.stats(commands.data_model(data_model_name='m', dataset_name='m.x'), by=['b'], n=functions.stats.sum_('x'))", "tstats"),
    ("commands.tstats(None, from_=dict(datamodel='m'), where=F.col('a'), n=functions.stats.count())",
     "commands.stats(commands.data_model('m').where(F.col('a')), n=functions.stats.count())", "tstats"),
    ("commands.data_model(data_model_name='m')", "commands.data_model('m')", "data_model"),
    ("commands.data_model(data_model_name='m')", "commands.data_model(None, 'm')", "data_model"),
    ("commands.data_model(data_model_name='m', dataset_name='m.x')", "commands.data_model(None, 'm', 'm.x', 'search')", "data_model"),
    ("commands.data_model(data_model_name='m.x')", "commands.data_model(data_model_name='m', dataset_name='m.x')", "data_model"),
    ("commands.data_model(data_model_name='m.x.y')", "commands.data_model(data_model_name='m', dataset_name='m.x.y')", "data_model"),
    ("commands.data_model(data_model_name='m')", "commands.data_model(data_model_name='m', strict_fields=True)", "data_model"),
    ("commands.data_model(data_model_name='m')", "commands.data_model(data_model_name='m', allow_old_summaries=True, summaries_only=True)", "data_model"),
    ("config.default_table_lookup(data_model='m')", "commands.data_model(data_model_name='m')", "data_model"),
]

SCALES = {"months": "month", "weeks": "week", "days": "day", "hours": "hour", "minutes": "minute", "seconds": "second"}


def direct(ctx, rep):
    """calls of the runtime library that no generated program contains"""
    pkg = Package(ctx.repo)

    def case(text, exp, where):
        rep.count("calls_interpreted")
        try:
            out = evaluated(pkg, text)
        except (Unknown, RecursionError) as ex:
            rep.undecided(text, "runtime: %s" % ex)
            return
        for g, r in out:
            got = r.name if isinstance(r, Raised) else same(ast.unparse(r.node)) if isinstance(r, Sym) else repr(r)
            if got != (exp if exp.endswith("Error") else same(exp)):
                rep.violation(text, "`%s` is %s, instead of `%s`" % (
                    text, "an error: %s" % r if isinstance(r, Raised) else "`%s`" % got, exp), where)
                return
        rep.ok(text, exp)
    w = "relative_time in python/spl_transpiler/runtime/functions/eval.py"
    spans = [None] + [(n, s) for n in (-1, 7, 0) for s in SCALES]
    for span in spans:
        for snap in [None] + list(SCALES):
            for off in (None, (1, "hours"), (-2, "days"), (3, "months")):
                if span and span[0] != -1 and (snap not in (None, "days") or off):
                    continue
                args, e = ["F.col('t')"], "F.to_timestamp(F.col('t'))"
                if span is not None:
                    args.append("span=dict(value=%d, scale='%s')" % span)
                    e = "(%s + F.expr('INTERVAL %d %s'))" % (e, span[0], span[1].upper())
                if snap is not None:
                    args.append("snap='%s'" % snap)
                    e = "F.date_trunc('%s', %s)" % (SCALES[snap], e)
                if off is not None:
                    args.append("snap_offset=dict(value=%d, scale='%s')" % off)
                    e = "(%s + F.expr('INTERVAL %d %s'))" % (e, off[0], off[1].upper())
                case("commands.eval(IN, r=functions.eval.relative_time(%s))" % ", ".join(args), "IN.withColumn('r', %s)" % e, w)
    for text, exp, w in DIRECT:
        case(text, exp, w + " in python/spl_transpiler/runtime")


DIRECT = [
    ("commands.eval(IN, r=functions.eval.case())", "ValueError", "case"),
    ("commands.eval(IN, r=functions.eval.case('a'))", "ValueError", "case"),
    ("commands.eval(IN, r=functions.eval.case('a', 'b', 'c'))", "ValueError", "case"),
    ("commands.eval(IN, r=functions.eval.validate())", "ValueError", "validate"),
    ("commands.eval(IN, r=functions.eval.validate('a', 'b', 'c'))", "ValueError", "validate"),
    ("commands.eval(IN, r=functions.eval.strftime('t', 'yyyy', is_spl_format=False))", "IN.withColumn('r', F.date_format(F.col('t'), 'yyyy'))", "strftime"),
    ("commands.eval(IN, r=functions.eval.strftime('t', '%Y'))", "IN.withColumn('r', F.date_format(F.col('t'), 'yyyy'))", "strftime"),
    ("commands.eval(IN, r=functions.eval.strftime('t', '%H:%M on %A'))", "IN.withColumn('r', F.date_format(F.col('t'), \"HH:mm' on 'EEEE\"))", "strftime"),
    ("commands.eval(IN, r=functions.eval.strptime('t', '%d/%m/%y'))", "IN.withColumn('r', F.to_timestamp(F.col('t'), 'dd/MM/yy'))", "strptime"),
    ("commands.eval(IN, r=functions.eval.strptime('t', 'yyyy', False))", "IN.withColumn('r', F.to_timestamp(F.col('t'), 'yyyy'))", "strptime"),
    ("commands.eval(IN, r=functions.eval.strftime('t', '%s'))", "ValueError", "strftime"),
    ("commands.eval(IN, r=functions.eval.json_extract('a', '$.b', '$.c'))", "NotImplementedError", "json_extract"),
    ("commands.tstats(n=functions.stats.count())", "ValueError", "tstats"),
    ("commands.tstats(IN, from_=dict(datamodel='m'), n=functions.stats.count())", "ValueError", "tstats"),
    ("commands.data_model()", "ValueError", "data_model"),
    ("commands.data_model(IN)", "NotImplementedError", "data_model"),
    ("commands.data_model(IN, 'm')", "NotImplementedError", "data_model"),
    ("commands.data_model(data_model_name='m', search_mode='flat')", "NotImplementedError", "data_model"),
    ("commands.data_model(data_model_name='m', search_mode='search')", "spark.table('m')", "data_model"),
    ("commands.data_model(data_model_name='m', dataset_name='m.x.y')", "spark.table('m.x.y')", "data_model"),
    ("commands.fill_null(IN, 'z', ['a'])", "IN.withColumn('a', F.when(F.col('a').isNull(), F.lit('z').cast(TYPE('a'))).otherwise(F.col('a')))", "fill_null"),
]
