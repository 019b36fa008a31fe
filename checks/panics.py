"""No construct that ends the program (unwrap of None/Err, panic!, assert!, index out of bounds, endless recursion) is
reached by any analysed query text or syntax tree."""
import importlib
import re

from absint import TooBig
from emit import Undecided
from facts import AnalysisError
from par import spread
from checks import cmds, golden_cmds, golden_fns
from checks.golden_fns import ev, st
from checks.dsl import shape
from parse import LeftRecursion

LIMITS = (Undecided, TooBig, AnalysisError, RecursionError, RuntimeError)

ARGS = ["a", "1", "-1", "0", "1.5", "'x'", "''", "True", "a + b", "a == 1", "a == 1 and b == 2", "len_(a)", "lower('x')", "isnull(a)",
        "'w:a*'", "round(a, 2)", "'n:k'", "'$s'"]
MIXED = [("a", "1"), ("1", "a"), ("a", "'x'"), ("'x'", "a"), ("a", "-1"), ("a == 1", "a"), ("'x'", "1"), ("a", "''"), ("a", "'$s'"),
         ("a", "1", "2"), ("a", "1", "-1"), ("a", "-2", "-1"), ("a", "'x'", "'y'"), ("a == 1", "1", "2"), ("'x'", "'y'", "a"), ("a", "1", "b"),
         ("a", "'n:k'"), ("a", "'n:k'", "'n:j'"), ("a", "'$s'", "'$t'"), ("a == 1", "'x'", "b == 1", "'y'"), ("a", "b", "c", "'x'")]


HUGE = ["99999999999999999999", "-99999999999999999999", "9223372036854775808", "99999999999999999999.5", "99999999999999999999d", "-7d@99999999999999999999w",
        "999.1.1.1", "1.1.1.1/999", "1:99999:1", "p99999999999999999999", "0", "00", "-0", "9999999999999999999999999999999999999999"]


def collect(rep, panics, where):
    for (fn, what), cases in sorted(panics.items()):
        label, pc = min(cases, key=lambda c: (len(c[1]), c[0]))
        short = re.sub(r"spl_transpiler::", "", fn)
        rep.violation("%s in %s" % (what, short), "%s reached in %s by: %s%s" % (
            what, short, label, " (under %d conditions on the input)" % len(pc) if pc else ""), fn)


def case(rep, E, key, thunk):
    E.panics.clear()
    E.label = key
    try:
        E.I.memo.clear()
        thunk()
    except LIMITS as ex:
        if not E.panics:
            rep.undecided(key, "%s: %s" % (type(ex).__name__, str(ex)[:150]))
            return
    if E.panics:
        collect(rep, E.panics, key)
    else:
        rep.ok(key)


def eval_names():
    names = set(golden_fns.ARITY) | set(golden_fns.UNSUPPORTED_EVAL)
    for tab in (golden_fns.EVAL,):
        for lhs, _ in golden_fns.table(tab):
            names.add(re.match(r"\w+", lhs).group(0).rstrip("_"))
    return sorted(names | {"unknownfunction"})


def stats_names():
    names = {re.match(r"\w+", lhs).group(0) for lhs, _ in golden_fns.table(golden_fns.STATS)}
    return sorted(names | set(golden_fns.UNSUPPORTED_STATS) | {"percx", "p95", "perc", "exactperc", "unknownfunction"}
                  | {p + s for p in ("p", "perc", "exactperc", "percentile", "upperperc")
                     for s in ("", "x", "200", "9.5", "-1", "99999999999999999999")})


def calls(name, thorough):
    n = name + ("_" if name in ("if", "in") else "")
    yield "%s()" % n
    for k in range(1, 7 if thorough else 5):
        for a in ARGS if thorough or k < 4 else ARGS[:1]:
            yield "%s(%s)" % (n, ", ".join([a] * k))
    for m in MIXED:
        yield "%s(%s)" % (n, ", ".join(m))


def functions(ctx, rep):
    """every function, with every number and kind of arguments, in every mode"""
    S = ctx.S
    items = [("eval", n) for n in eval_names()] + [("stats", n) for n in stats_names()]
    if len(items) < 100:
        raise AnalysisError("only %d functions" % len(items))
    rep.count("functions", len(items))

    def go(r, it):
        kind, name = it
        for c in calls(name, ctx.thorough):
            for mode in ("Disallow", "Allow") if ctx.thorough or kind == "stats" else ("Disallow",):
                if kind == "eval":
                    case(r, ctx.E, "%s eval r=%s" % (mode, c), lambda: ev(S, shape(S, c), mode))
                    continue
                case(r, ctx.E, "%s stats %s" % (mode, c), lambda: st(S, shape(S, c), mode))
                case(r, ctx.E, "%s stats %s by g" % (mode, c), lambda: st(S, shape(S, c + "[n]"), mode, ("g",)))
    spread(rep, items, go)


def commands(ctx, rep):
    """every command shape in every mode, first and in the middle of a pipeline"""
    S, E = ctx.S, ctx.E
    todo = {}
    for _, _, c, _ in golden_cmds.load("commands.txt"):
        todo[c] = c
    for fn in ("exprs.txt", "timefmt.txt"):
        for _, _, c, _ in golden_cmds.load(fn):
            kind, _, text = c.partition(" ")
            todo[c] = {"E": "Eval(fields=[(r, %s)])", "W": "Where(expr=%s)", "S": "Search(expr=%s)", "A": "Stats(funcs=[%s])"}[kind] % text
            if kind in "EW":
                todo["S " + text] = "Search(expr=%s)" % text

    def go(r, it):
        label, c = it
        for mode in ("Disallow", "Allow", "Require"):
            for df in (True, False):
                case(r, E, "%s%s %s" % (mode, "" if df else "/first", label), lambda: E.command(cmds.command(S, c), mode, df))
    spread(rep, sorted(todo.items()), go)


def parsing(ctx, rep):
    from checks import parser
    Qs = parser.queries(ctx)
    texts = {}
    for _, q, _ in parser.sentences():
        texts[q] = 1
        ws = parser.split_words(q)
        for i in range(1, len(ws)):
            texts[" ".join(ws[:i])] = 1
            texts[" ".join(ws[:i]) + " | head 1"] = 1
            if ctx.thorough:
                texts[" ".join(ws[:i - 1] + ws[i:])] = 1
        for j in parser.JUNK:
            texts[q + j] = 1
        for n in HUGE:
            if "⟨n:int⟩" in q or re.search(r"[= (,]\d+\b", q):
                texts[re.sub(r"⟨n:int⟩|(?<=[= (,-])\d+", n, q)] = 1
        for f in sorted(set(re.findall(r"⟨\w+⟩", q))):
            for n in HUGE:
                texts[q.replace(f, n)] = 1
    for t in ("", " ", "|", "||", "[", "]", "(", ")", "\"", "'", "$", "=", "*", "NOT", "search", "search NOT", "\\", "`m`", "| ", "⟨w⟩ |", ",", "-", ".",
              "map search=\"\"", "map search=\"⟨t:text⟩\"", "map search=\"head 1\"", "map search=\"head 1 )\"", "map search=\"|\"", "map search=\"search \\\"⟨t:text⟩\\\"\""):
        texts[t] = 1

    def go(r, q):
        I = Qs.I
        I.panics.clear()
        I.label = lambda: "`%s`" % q
        try:
            Qs.raw(parser.concrete(q))
        except LeftRecursion as ex:
            r.violation("endless recursion of %s" % ex, "%s is called again at the same place of the text while it parses `%s`" % (ex, q), str(ex))
            return
        except LIMITS as ex:
            if not I.panics:
                r.undecided("parse " + q, "%s: %s" % (type(ex).__name__, str(ex)[:150]))
                return
        if I.panics:
            collect(r, I.panics, q)
        else:
            r.ok("parse " + q)
    spread(rep, list(texts), go)
