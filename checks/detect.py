"""Detection of macro calls: detect_macros (src/lib.rs, src/spl/macros.rs) interpreted over abstract query texts."""
import itertools
import sys

from absint import RES, Frame, alts, lit, litval
from emit import Undecided
from facts import AnalysisError
from golden import digest
from par import spread
from parse import NAMES

from .parser import Q, attempt, concrete

WHERE = "spl_macros in src/spl/macros.rs"
REJECTED = "REJECTED"
# text of an argument, value of the name it is given for (None: by position), text of the value
ARGUMENTS = [(a, None, a) for a in (
    "⟨x⟩", "1", "⟨i:int⟩", "1.5", "-3", '"⟨s:text⟩"', '""', '"⟨s:text⟩,⟨r:text⟩"', '"⟨s:text⟩)"', '"(⟨s:text⟩"', '"a\\"⟨s:text⟩"', '"a=⟨s:text⟩"',
    '"\\\\1"', "⟨x⟩.⟨y⟩", "⟨x⟩+1", "⟨x⟩ + ⟨y⟩", "len(⟨x⟩)", "if(⟨x⟩=1,2,3)", "(⟨x⟩)", "NOT ⟨x⟩", "⟨x⟩>1", "⟨x⟩!=⟨y⟩", "⟨x⟩*",
    "10.0.0.0/8", "-1d", "-1d@d", "'⟨x⟩ ⟨y⟩'", "⟨x⟩ = ⟨y⟩", "coalesce(⟨x⟩, \"⟨s:text⟩\")")] + [
    ("⟨k⟩=" + a, "⟨k⟩", a) for a in ("⟨x⟩", "1", "-3", '"⟨s:text⟩"', '"a=⟨s:text⟩,"', "⟨x⟩+⟨y⟩", "len(⟨x⟩)", "⟨x⟩=⟨y⟩", "⟨x⟩ AND ⟨y⟩=1")] + [
    ("x_1=⟨x⟩", "x_1", "⟨x⟩")]


class Detector(Q):
    def __init__(self, ctx):
        super().__init__(ctx)
        bs = [b for b in ctx.F.bodies.values() if b["path"].endswith("::detect_macros") and "lib.rs" in str(b["span"]) and
              [p["ty"] for p in b["thir"]["params"]] == ["&str"]]
        if len(bs) != 1:
            raise AnalysisError("the entry point detect_macros(spl_code)")
        self.b = bs[0]

    def text(self, v):
        s = litval(v) if v.k == "lit" else None
        if not isinstance(s, str):
            raise Undecided("text of a macro call: %s" % str(v)[:200])
        for h, (n, c) in NAMES.items():
            s = s.replace(h, "⟨%s⟩" % n if c.name == "name" else "⟨%s:%s⟩" % (n, c.name))
        return s

    def call(self, v):
        f = {n: x for n, x in v.a[2]}
        args = []
        for a in f["args"].a[0]:
            k, x = a.a[0]
            if k.a[1] not in ("None", "Some"):
                raise Undecided("name of an argument: %s" % str(k)[:200])
            args.append((self.text(k.a[2][0][1]) if k.a[1] == "Some" else None, self.text(x)))
        return self.text(f["macro_name"]), tuple(args)

    def found(self, q):
        """query -> ([(text, (name, args))], rest) or REJECTED"""
        v = self.raw(concrete(q))
        if v is None:
            return REJECTED
        calls, rest = v.a[0]
        return [(self.text(c.a[0][0]), self.call(c.a[0][1])) for c in calls.a[0]], self.text(rest)


def queries(ctx):
    """[(query, result)]"""
    out = []

    def call(name, args, spelled):
        return "`%s`" % spelled, (name, tuple((k, v) for _, k, v in args))

    def one(pre, spelled, expected, post=""):
        out.append((pre + spelled + post, ([(pre, expected)], post)))
    T, U = "⟨t:outside⟩", "⟨u:outside⟩"
    around = [("", ""), (T, U), ("search a=1 | ", " | head 5"), ('search "', '"'), ("eval x=(", ")"), ("⟨w⟩", "⟨v⟩"), (" \n", "\t "), ("", U), (T, "")]
    # one call, anything around it
    for pre, post in around:
        for name in ("⟨m⟩", "m_1", "my-macro", "M"):
            for sp in ("%s", " %s", "%s ", "\n%s\t"):
                one(pre, *call(name, [], sp % name), post)
            for sp in ("%s()", "%s ()", "%s( )"):
                one(pre, *call(name, [], sp % name), post)
    # every argument, alone and with others, with every spacing
    for a in ARGUMENTS:
        for sp in ("⟨m⟩(%s)", "⟨m⟩( %s )", " ⟨m⟩ (\n%s) ", "⟨m⟩(%s )"):
            one(T, *call("⟨m⟩", [a], sp % a[0]), U)
    some = ARGUMENTS if ctx.thorough else ARGUMENTS[::3] + [ARGUMENTS[-2]]
    for a, b in itertools.product(some, some):
        one("", *call("⟨m⟩", [a, b], "⟨m⟩(%s,%s)" % (a[0], b[0])))
        one(T, *call("⟨m⟩", [a, b], "⟨m⟩(%s , %s)" % (a[0], b[0])), U)
    for n in (3, 4, 5, 6):
        for k in range(len(ARGUMENTS) - n):
            args = ARGUMENTS[k:k + n]
            one(T, *call("⟨m⟩", args, "⟨m⟩(%s)" % ", ".join(a[0] for a in args)), U)
    # several calls
    bits = [call("⟨m⟩", [], "⟨m⟩"), call("⟨n⟩", [ARGUMENTS[0]], "⟨n⟩(⟨x⟩)"), call("o", [ARGUMENTS[5], ARGUMENTS[-2]], "o(%s, %s)" % (ARGUMENTS[5][0], ARGUMENTS[-2][0]))]
    texts = ["", "⟨t:outside⟩", " ", "search ⟨w⟩ | "]
    for n in (2, 3) if not ctx.thorough else (2, 3, 4):
        for bs in itertools.product(bits, repeat=n):
            for k in range(len(texts)):
                pre = [texts[(k + i) % len(texts)] for i in range(n)]
                out.append(("".join(p + b[0] for p, b in zip(pre, bs)) + U, ([(p, b[1]) for p, b in zip(pre, bs)], U)))
    # none
    for t in ("", T, "search ⟨w⟩=\"⟨s⟩\" | head 5", "a(b)", "'⟨w⟩'"):
        out.append((t, ([], t)))
    # not a call: an error, never a text without it
    for pre, post in around[:4]:
        for bad in ("`", "``", "`⟨m⟩", "`⟨m⟩(`", "`⟨m⟩(⟨x⟩`", "`⟨m⟩)`", "`⟨m⟩(,)`", "`⟨m⟩(⟨x⟩,)`", "`⟨m⟩(,⟨x⟩)`", "`⟨m⟩(⟨x⟩,,⟨y⟩)`", "`⟨m⟩(⟨x⟩)(⟨y⟩)`",
                    "`(⟨x⟩)`", "`⟨m⟩` `", "`⟨m⟩(\"⟨x⟩)`", "`⟨m⟩(⟨k⟩=)`", "`⟨m⟩(=⟨x⟩)`", "`⟨m⟩(⟨x⟩)⟨y⟩`", "`⟨m⟩ ⟨n⟩`"):
            out.append((pre + bad + post, REJECTED))
    return out


def shown(r):
    return r if r == REJECTED else "%s, rest %r" % (["%r `%s`" % (t, c) for t, c in r[0]], r[1])


def calls(ctx, rep):
    """every macro call is found, with its name and arguments as written, and the text around it"""
    D = Detector(ctx)
    todo = list({q: (q, e) for q, e in queries(ctx)}.values())

    def go(r, item):
        q, e = item

        def decide():
            got = D.found(q)
            if got == e:
                r.ok(q, shown(got)[:160])
            else:
                r.violation("%s #%s" % (q, digest(shown(got))), "in `%s` detect_macros finds %s, expected %s" % (q, shown(got), shown(e)), WHERE)
        attempt(r, q, decide)
    spread(rep, todo, go)
