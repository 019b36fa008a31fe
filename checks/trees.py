"""Enumerated expression trees compared with an independent compositional translation (the oracle below), so that every
nesting of operators up to the bound is covered and not only reviewed samples."""
import itertools

from checks import cmds
from emit import spec, norm
from golden import Golden

# operator in the shape language -> Python text of the documented Spark operator
BIN = {"+": "+", "-": "-", "*": "*", "/": "/", "%": "%", "==": "==", "!=": "!=", "<": "<", "<=": "<=", ">": ">",
       ">=": ">=", "&": "&", "|": "|", "@": None, " is ": "=="}


def shape_text(t):
    if isinstance(t, str):
        return t
    if t[0] == "not":
        return "(not %s)" % shape_text(t[1])
    if t[0] == "call":
        return "%s(%s)" % (t[1], ", ".join(shape_text(x) for x in t[3:]))
    return "(%s%s%s)" % (shape_text(t[1]), t[0], shape_text(t[2]))


def leaf(t):
    if t.startswith('"'):
        return "F.lit('%s')" % t[1:-1]
    return "F.lit(%s)" % t if t[0].isdigit() else "F.col('⟨%s⟩')" % t


def python_text(t):
    if isinstance(t, str):
        return leaf(t)
    if t[0] == "not":
        return "(~(%s))" % python_text(t[1])
    if t[0] == "call":
        return t[2] % tuple("(%s)" % python_text(x) for x in t[3:])
    a, b = python_text(t[1]), python_text(t[2])
    if t[0] == "@":
        return "F.concat(%s, %s)" % (a, b)
    return "(%s %s %s)" % (a, BIN[t[0]], b)


def nestings(ops, unary=True):
    for a, b in itertools.product(ops, ops):
        yield (b, (a, "x", "y"), "z")
        yield (a, "x", (b, "y", "z"))
    if unary:
        for a in ops:
            yield ("not", (a, "x", "y"))
            for b in ops:
                yield (b, ("not", (a, "x", "y")), "z")
                yield (b, "x", ("not", (a, "y", "z")))
            yield (a, ("call", "len", "F.length(%s)", "x"), ("call", "lower", "F.lower(%s)", "y"))
            yield ("call", "len", "F.length(%s)", (a, "x", "y"))
            yield ("call", "if_", "F.when(%s, %s).otherwise(%s)", ("==", "x", "1"), (a, "x", "2"), (a, '"s"', "y"))


def deeper(ops):
    for a, b, c in itertools.product(ops, ops, ops):
        yield (c, (b, (a, "x", "y"), "z"), "w")
        yield (a, "x", (b, "y", (c, "z", "w")))
        yield (b, (a, "x", "y"), (c, "z", "w"))
        yield (c, (a, "x", (b, "y", "z")), "w")
        yield (a, "x", (c, (b, "y", "z"), "w"))


def expressions(ctx, rep):
    E, S = ctx.E, ctx.S
    G = Golden(rep, E)
    ts = list(nestings(list(BIN)))
    ts += list(deeper(list(BIN) if ctx.thorough else ["-", "*", "==", "|"]))
    for t in ts:
        sh = shape_text(t)
        G.case("tree %s" % sh, lambda: E.command(cmds.command(S, "Eval(fields=[(r, %s)])" % sh), "Disallow", True),
               ["⟨IN⟩.withColumn('⟨r⟩', %s)" % python_text(t)], "to_spark_expr")
    rep.count("expression_trees_enumerated", len(ts))


# -- search conditions ---------------------------------------------------------------------
LEAVES = ['"f:index"=="i"', '"f:index"=="j"', "a==5", "b>=6", '"w1"']


def s_shape(t):
    if isinstance(t, str):
        return "(%s)" % t
    if t[0] == "not":
        return "(not %s)" % s_shape(t[1])
    return "(%s%s%s)" % (s_shape(t[1]), t[0], s_shape(t[2]))


def s_leaf(t):
    if t == '"w1"':
        return "F.col('_raw').ilike('%w1%')"
    l, op, r = (t.partition("==") if "==" in t else t.partition(">="))
    l = "F.col('index')" if l == '"f:index"' else "F.col('⟨%s⟩')" % l
    return "(%s %s F.lit(%s))" % (l, op, r.replace('"', "'"))


def s_filter(t):
    if isinstance(t, str):
        return s_leaf(t)
    if t[0] == "not":
        return "(~%s)" % s_filter(t[1])
    return "(%s %s %s)" % (s_filter(t[1]), t[0], s_filter(t[2]))


class Bad(Exception):
    pass


def has_index(t):
    return "index" in t if isinstance(t, str) else any(has_index(x) for x in t[1:])


def split(t, tables):
    """-> the condition that is left once the index terms are taken out"""
    if isinstance(t, str):
        if has_index(t):
            tables.add(t[-2])
            return None
        return t
    if t[0] == "not":
        return t
    if t[0] == "|" and has_index(t):
        raise Bad()
    a, b = split(t[1], tables), split(t[2], tables)
    return a if b is None else b if a is None else (t[0], a, b)


def s_expect(t, first):
    if not first:
        return "⟨IN⟩.where(%s)" % s_filter(t)
    tables = set()
    try:
        rest = split(t, tables)
    except Bad:
        return "ERROR"
    src = None
    for n in sorted(tables) or ["main"]:
        src = "spark.table('%s')" % n if src is None else "%s.unionByName(spark.table('%s'), allowMissingColumns=True)" % (src, n)
    return src if rest is None else "%s.where(%s)" % (src, s_filter(rest))


def conditions(leaves, deep):
    for l in leaves:
        yield l
    for op in "&|":
        for a, b in itertools.product(leaves, leaves):
            yield (op, a, b)
    plain = [l for l in leaves if not has_index(l)]
    for a in plain:
        yield ("not", a)
        for b in leaves:
            yield ("&", b, ("not", a))
            yield ("&", ("not", a), b)
    if deep:
        for o1, o2 in itertools.product("&|", "&|"):
            for a, b, c in itertools.product(leaves, leaves, leaves):
                yield (o2, (o1, a, b), c)
                yield (o1, a, (o2, b, c))
        for a, b in itertools.product(plain, plain):
            for op in "&|":
                yield ("not", (op, a, b))
                yield ("&", leaves[0], ("not", (op, a, b)))


def rejected(ctx, rep):
    """index terms whose condition cannot select tables must be errors"""
    searches(ctx, rep, True)


def searches(ctx, rep, only_errors=False):
    E, S = ctx.E, ctx.S
    G = Golden(rep, E)
    n = 0
    for first in (True, False):
        leaves = LEAVES if ctx.thorough or not first else [LEAVES[0], LEAVES[1], LEAVES[2], LEAVES[4]]
        for t in conditions(leaves, first or ctx.thorough):
            exp = s_expect(t, first)
            if only_errors and exp != "ERROR":
                continue
            n += 1
            sh = s_shape(t)
            G.case("search%s %s" % ("/first" if first else "", sh),
                   lambda: E.command(cmds.command(S, "Search(expr=%s)" % sh), "Disallow", not first),
                   [exp], "split_conditions")
    rep.count("search_conditions_enumerated", n)
