"""Interface analysis of every template the interpreted program can emit."""
from emit import norm, unhole
from golden import guard_simple, vague
from pytypes import Checker
from absint import V

PARTS = ["golden_fns:eval_table", "golden_fns:stats_table", "golden_fns:eval_runtime", "golden_fns:stats_runtime",
         "golden_cmds:standalone", "golden_cmds:runtime", "golden_cmds:expressions", "golden_cmds:whole_standalone",
         "golden_cmds:whole_runtime", "golden_cmds:timeformats"]


# functions the translator does not know: handed to Spark under their own name with a warning, by design
PASSED_THROUGH = {("no-such-function", "F.somefunction"), ("no-such-function", "F.dur2sec")}


class Sink:
    """stands in for a report: keeps the templates instead of comparing them"""
    def __init__(self):
        self.rows, self.und = [], []

    def sink(self, key, act, widened):
        self.rows.append((key, act, widened))

    def count(self, *a):
        pass

    note = ok = violation = count

    def undecided(self, key, why):
        self.und.append((key, why))


def templates(ctx):
    if not hasattr(ctx, "_templates"):
        import importlib
        s = Sink()
        for part in PARTS:
            m, _, f = part.partition(":")
            getattr(importlib.import_module("checks." + m), f)(ctx, s)
        ctx._templates = s
    return ctx._templates


def subject(key):
    """the command or function a case is about"""
    import re
    k = re.sub(r"^(Disallow|Require|Allow)(/first)? ", "", key)
    if k.startswith("pipeline/"):
        return "pipeline"
    return re.split(r"[( \[]", k)[0] if not re.match(r"(eval|stats|E|W|S|A)\b", k) else k[:40]


def run(ctx, rep, runtime):
    ck = Checker(ctx.repo)
    s = templates(ctx)
    seen, n = {}, 0
    for key, act, widened in s.rows:
        alts = []
        for g, t in act:
            if t is None:
                continue
            txt = norm(t)
            if vague(txt):
                rep.undecided("%s" % key, "opaque text in output")
                continue
            n += 1
            alts.append((g, txt, [e for e in ck.check(txt, unhole) if e not in PASSED_THROUGH]))
        always = set.intersection(*[set(e) for _, _, e in alts]) if alts else set()
        for g, txt, errs in alts:
            mine = [e for e in errs if ("runtime" in e[0] or "functions." in e[1] or "commands." in e[1]) == runtime]
            for rule, what in mine:
                if g and (rule, what) not in always and not guard_simple(g):
                    rep.undecided(key, "conditional: %s %s" % (rule, what))
                    continue
                seen.setdefault((rule, what), []).append((key, unhole(txt)))
            if not mine:
                rep.ok(key, "") if not any(k == key for k, _ in rep.held[-1:]) else None
    for k, why in s.und:
        rep.undecided(k, why)
    for (rule, what), cases in sorted(seen.items()):
        subs = sorted({subject(k) for k, _ in cases if not k.startswith("pipeline/")} or {"pipeline"})
        for sub in subs:
            c = [x for x in cases if subject(x[0]) == sub] or cases
            rep.violation("%s: %s (%s)" % (rule, what, sub), "generated code: %s" % c[0][1][:400], c[0][0])
    rep.count("templates_checked", n)
    rep.count("calls_checked", ck.calls)
    rep.count("pyspark_functions_known", len(ck.F))


def pyspark_api(ctx, rep):
    run(ctx, rep, False)


def runtime_api(ctx, rep):
    run(ctx, rep, True)
