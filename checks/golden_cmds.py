"""Whole-command emission: the Python text every command shape is translated to, against reviewed expectations."""
import os
import re

from checks import cmds, dsl
from golden import Golden

HERE = os.path.dirname(os.path.abspath(__file__))
DATA = os.path.join(HERE, "data")


def load(fn):
    """-> [(mode, df, case, [expected])]"""
    out = []
    mode = df = None
    for ln in open(os.path.join(DATA, fn), encoding="utf8"):
        ln = ln.rstrip("\n")
        if not ln.strip() or ln.startswith("# "):
            continue
        if ln.startswith("## "):
            mode, df = ln[3:].split()
        elif ln.startswith("  "):
            out[-1][3].append(ln[2:].replace("⏎", "\n"))
        else:
            out.append((mode, df == "df", ln, []))
    return out


def name_of(case):
    return case.partition("(")[0]


def where_of(E, name):
    """file:line of the transformation of the command, for the report"""
    for b in E.F.bodies.values():
        if "transform_standalone" in b["path"] and ("%sCommand" % name) in b["path"]:
            return "%s (%s)" % (b["path"], b.get("span", ""))
    return name + "Command"


def run(ctx, rep, fn="commands.txt", want=lambda mode, df, case: True):
    E, S = ctx.E, ctx.S
    G = Golden(rep, E)
    n = 0
    for mode, df, case, exp in load(fn):
        if not want(mode, df, case):
            continue
        n += 1
        key = "%s%s %s" % (mode, "" if df else "/first", case)
        G.case(key, lambda: E.command(cmds.command(S, case), mode, df), exp, where_of(E, name_of(case)))
    rep.count("command_shapes_interpreted", n)


def standalone(ctx, rep):
    run(ctx, rep, want=lambda m, d, c: m == "Disallow")


def runtime(ctx, rep):
    run(ctx, rep, want=lambda m, d, c: m != "Disallow")


def first(ctx, rep):
    run(ctx, rep, want=lambda m, d, c: not d)


def search(ctx, rep):
    run(ctx, rep, want=lambda m, d, c: name_of(c) in ("Search", "Where"))


def nested(ctx, rep):
    run(ctx, rep, want=lambda m, d, c: name_of(c) in ("Join", "MultiSearch", "Lookup", "Map", "Search", "MakeResults"))


def options(ctx, rep):
    """cases that set at least one option away from its default"""
    run(ctx, rep, want=lambda m, d, c: d and name_of(c) not in ("Search", "Where", "Eval", "Table"))


def aggregates(ctx, rep):
    run(ctx, rep, want=lambda m, d, c: name_of(c) in ("Stats", "TStats", "Top", "Rare", "EventStats", "StreamStats"))


def expressions(ctx, rep, fn="exprs.txt"):
    """operators, literals, aliases inside expressions: data/exprs.txt; E-lines are assigned by eval"""
    E, S = ctx.E, ctx.S
    G = Golden(rep, E)
    n = 0
    for mode, df, case, exp in load(fn):
        n += 1
        kind, _, text = case.partition(" ")
        cmd = {"E": "Eval(fields=[(r, %s)])", "W": "Where(expr=%s)", "S": "Search(expr=%s)",
               "A": "Stats(funcs=[%s])"}[kind] % text
        G.case("%s %s" % (mode, case), lambda: E.command(cmds.command(S, cmd), mode, df), exp, "to_spark_expr")
    rep.count("expression_shapes_interpreted", n)


def whole(ctx, rep, want=lambda mode, case: True):
    """whole pipelines through the library's rendering function: data/pipelines.txt"""
    import ast as pyast
    E, S = ctx.E, ctx.S
    G = Golden(rep, E)
    n = 0
    for mode, df, case, exp in load("pipelines.txt"):
        if not want(mode, case):
            continue
        n += 1
        G.case("pipeline/%s %s" % (mode, case),
               lambda: E.pipeline(cmds.convert(S, "Pipeline", pyast.parse(case, mode="eval").body), mode), exp,
               "render_pyspark -> TransformedPipeline::transform")
    rep.count("pipeline_shapes_interpreted", n)


def whole_standalone(ctx, rep):
    whole(ctx, rep, lambda m, c: m == "Disallow")


def whole_runtime(ctx, rep):
    whole(ctx, rep, lambda m, c: m == "Allow")


def unsupported(ctx, rep):
    """shapes whose only acceptable outcome is an error"""
    rows = [(m, d, c) for m, d, c, e in load("commands.txt") if e == ["ERROR"]]
    run(ctx, rep, want=lambda m, d, c: (m, d, c) in rows)
    bad = [(m, c) for m, d, c, e in load("pipelines.txt") if e == ["ERROR"]]
    whole(ctx, rep, lambda m, c: (m, c) in bad)


def quoting(ctx, rep):
    """shapes whose text contains characters that must be quoted"""
    rx = re.compile(r"""\w'\w|\\\\|\\"|\\n""")
    run(ctx, rep, want=lambda m, d, c: bool(rx.search(c)))


def converts(ctx, rep):
    run(ctx, rep, want=lambda m, d, c: name_of(c) == "Convert")


def timeformats(ctx, rep):
    expressions(ctx, rep, "timefmt.txt")
