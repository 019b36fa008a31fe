"""Checks of the SPL parser by abstract interpretation of its source over abstract query texts (lib/parse.py)."""
import itertools
import os
import re
import sys

from absint import RES, TooBig, alts, lit, litval
from astprint import text
from emit import Undecided
from facts import AnalysisError
from golden import digest
from par import spread
from parse import LeftRecursion, CLASSES, NAMES, ParseInterp, hole, is_hole

DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data")
REJECTED = "REJECTED"


class Q:
    """Parses abstract queries; one per run."""
    def __init__(self, ctx):
        from absint import Frame
        sys.setrecursionlimit(200000)
        self.I = ParseInterp(ctx.F)
        bs = [b for b in ctx.F.bodies.values() if b["path"].endswith("::parse") and "lib.rs" in str(b["span"]) and b["kind"] == "Fn"
              and [p["ty"] for p in b["thir"]["params"]] == ["&str"]]
        if len(bs) != 1:
            raise AnalysisError("the entry point parse(spl_code)")
        self.b = bs[0]
        self.Frame = Frame
        self.done = {}

    def raw(self, q):
        """abstract text -> value of the syntax tree, None if the text is rejected"""
        I = self.I
        I.memo.clear()
        I.parser.memo.clear()
        I.widened.clear()
        I.parser.asked = {}
        fr = self.Frame({"id": "x", "path": "x"}, {}, 0)
        r = I.enter(self.b, [lit(q)], {}, fr, "x")
        if I.widened:
            raise Undecided("analysis widened: %s" % (I.widened[:2],))
        if not all(x.k == "adt" and x.a[0] == RES for _, x in alts(r)):
            raise Undecided("result of parse() not understood: %s" % str(r)[:300])
        kinds = {x.a[1] for _, x in alts(r)}
        if kinds == {"Err"}:
            return None
        if len(kinds) != 1 or len(alts(r)) != 1:
            raise Undecided("parse() depends on an unknown condition: %s" % str(r)[:300])
        return r.a[2][0][1]

    def ast(self, q):
        """query template -> compact text of its syntax tree, or REJECTED"""
        return self.full(q)[0]

    def full(self, q):
        """-> (text, {hole name: texts it was compared with})"""
        if q not in self.done:
            t = concrete(q)
            v = self.raw(t)
            s = REJECTED if v is None else text(v)
            if "EITHER{" in s:
                raise Undecided("several syntax trees: %s" % s[:300])
            asked = {NAMES[h][0]: set(w) for h, w in self.I.parser.asked.items() if h in t}
            self.done[q] = (s, asked)
        return self.done[q]


def concrete(q):
    return re.sub(r"⟨(\w+)(?::(\w+))?⟩", lambda m: hole(m.group(1), m.group(2) or "name"), q)


def queries(ctx):
    if not hasattr(ctx, "_q"):
        ctx._q = Q(ctx)
    return ctx._q


def attempt(rep, key, f):
    """runs one obligation; analyser limits make it undecided"""
    try:
        return f()
    except LeftRecursion as ex:
        rep.violation("endless recursion of %s" % ex, "%s is called again at the same place of the text (%s)" % (ex, key), str(ex))
        return None
    except (Undecided, TooBig, AnalysisError, RecursionError, RuntimeError, KeyError, IndexError, TypeError, AttributeError) as ex:
        rep.undecided(key, "%s: %s" % (type(ex).__name__, str(ex)[:200]))
        return None


class Batch:
    """collects agree() obligations and decides them on all processors"""
    def __init__(self, rep, Qs):
        self.rep, self.Qs, self.items = rep, Qs, []

    def agree(self, *a):
        self.items.append(a)

    def run(self):
        spread(self.rep, self.items, lambda r, a: agree(r, self.Qs, *a))


def agree(rep, Qs, key, q, expected, where="src/spl/parser.rs"):
    """the query's syntax tree is one of the expected texts"""
    exp = [expected] if isinstance(expected, str) else list(expected)

    def go():
        got = Qs.ast(q)
        if got in exp:
            rep.ok(key, got[:160])
        else:
            rep.violation("%s #%s" % (key, digest(got)), "`%s` is parsed as %s, expected %s" % (q, got[:900], exp[0][:900]), where)
    attempt(rep, key, go)


def sentences(name="parses.txt"):
    """-> [(command, query, expected)]"""
    out, cmd, q = [], None, None
    for ln in open(os.path.join(DATA, name), encoding="utf8"):
        ln = ln.rstrip("\n")
        if not ln.strip():
            continue
        if ln.startswith("# "):
            cmd = ln[2:].strip()
        elif ln.startswith("  "):
            out.append((cmd, q, ln.strip()))
        else:
            q = ln
    return out


def first_per_command(n=1):
    seen = {}
    for c, q, e in sentences():
        if e != REJECTED and q.split(None, 1)[0].lower() == c and len(seen.setdefault(c, [])) < n:
            seen[c].append((q, e))
    return seen


# -- S01 ------------------------------------------------------------------------------------------------------

def keywords(ctx, rep):
    Qs = queries(ctx)
    B = Batch(rep, Qs)
    cmds = first_per_command(2)
    rep.count("commands", len(cmds))
    flat = [(c, q, e) for c, qs in cmds.items() for q, e in qs]
    for c, q, e in flat:
        word, _, body = q.partition(" ")
        tail = (" " + body) if body else ""
        for label, v in (("", q), ("upper case: ", word.upper() + tail), ("mixed case: ", word.capitalize() + tail),
                         ("leading pipe: ", "| " + q), ("spaces around: ", "  " + q + "  "), ("newline: ", "\n" + q + "\n"),
                         ("wide gap: ", word + ("  \n\t" + body if body else " \t"))):
            B.agree("%s%s" % (label, q), v, e)
        B.agree("after another: " + q, "head 1 | " + q, HEAD + " | " + e)
        B.agree("tight pipe: " + q, "head 1|" + q + "|head 1", HEAD + " | " + e + " | " + HEAD)
        B.agree("lines: " + q, "head 1\n|\n" + q + "\n  | head 1\n", HEAD + " | " + e + " | " + HEAD)
        B.agree("in a sub-search: " + q, "join ⟨jf⟩ [ %s ]" % q, JOIN % e)
        B.agree("in a sub-pipeline: " + q, "join ⟨jf⟩ [head 1 | %s]" % q, JOIN % (HEAD + " | " + e))
    for c, qs in cmds.items():
        q, e = qs[0]
        word, _, body = q.partition(" ")
        struct = e.split("(")[0]
        for label, v in (("longer word", word + "⟨zz:rest⟩" + (" " + body if body else "")),):
            key = "%s: %s" % (label, c)

            def go():
                got = Qs.ast(v)
                if got.split("(")[0] == struct and struct != "SearchCommand":
                    rep.violation("%s #%s" % (key, digest(got)), "`%s` is parsed as %s although its first word is not `%s`" % (v, got[:600], word),
                                  "src/commands")
                else:
                    rep.ok(key, got[:120])
            attempt(rep, key, go)
    pairs = list(zip(flat, flat[1:] + flat[:1]))
    if ctx.thorough:
        one = [f for f in flat if f[1] == cmds[f[0]][0][0]]
        pairs = list(itertools.product(one, one))
    for (_, q1, e1), (_, q2, e2) in pairs:
        B.agree("sequence: %s | %s" % (q1, q2), "%s | %s" % (q1, q2), e1 + " | " + e2)
    B.run()


HEAD = "HeadCommand(eval_expr=1, keep_last=False, null_option=False)"
JOIN = ("JoinCommand(join_type=\"inner\", use_time=False, earlier=True, overwrite=True, max=1, fields=[field \"⟨jf⟩\"], "
        "sub_search=%s)")


# -- S02 ------------------------------------------------------------------------------------------------------

OPTION = re.compile(r"^[a-z_]+=(\"[^\"]*\"|[^\s=\"]+)$")
NO_OPTIONS = {"head", "eval", "search", "where", "regex", "return", "tstats", "spath", "map"}


def split_words(q):
    return re.findall(r'(?:[^\s"]|"(?:\\.|[^"\\])*")+', q)


def grammar(ctx, rep):
    """every reviewed sentence has the reviewed syntax tree; the options of a command are independent of their order"""
    Qs = queries(ctx)
    B = Batch(rep, Qs)
    for c, q, e in sentences():
        if e != REJECTED:
            B.agree(q, q, e, "src/commands (%s)" % c)
    for c, q, e in sentences():
        if e == REJECTED or c in NO_OPTIONS or not q.startswith(c + " "):
            continue
        ws = split_words(q)
        runs = [list(g) for k, g in itertools.groupby(range(len(ws)), lambda i: bool(OPTION.match(ws[i]))) if k]
        for r in runs:
            if len(r) < 2:
                continue
            names = [ws[i].split("=")[0] for i in r]
            if len(set(names)) != len(names):
                continue
            perms = [r[::-1], r[1:] + r[:1]] if not ctx.thorough or len(r) > 4 else list(itertools.permutations(r))
            for p in perms:
                w2 = list(ws)
                for i, j in zip(r, p):
                    w2[i] = ws[j]
                q2 = " ".join(w2)
                if q2 != q:
                    B.agree("option order: " + q2, q2, e, "src/commands (%s)" % c)
    B.run()


OWNER = {c: dict(x.split(":") if ":" in x else (x, x) for x in t.split()) for c, t in {
    "addtotals": "row col fieldname:field_name labelfield:label_field label",
    "bin": "span minspan:min_span bins start end aligntime:align_time",
    "collect": "addtime:add_time file host marker output_format run_in_preview spool source sourcetype:source_type testmode:test_mode",
    "convert": "timeformat",
    "datamodel": "strict_fields allow_old_summaries summariesonly:summaries_only",
    "dedup": "keepevents:keep_events keepempty:keep_empty consecutive",
    "eventstats": "allnum:all_num",
    "fillnull": "value",
    "format": "mvsep:mv_sep maxresults:max_results",
    "head": "keeplast:keep_last null:null_option",
    "inputlookup": "append strict start max",
    "join": "type:join_type usetime:use_time earlier overwrite max",
    "makeresults": "count annotate splunk_server:server splunk_server_group:server_group",
    "map": "maxsearches:max_searches",
    "rare": "countfield:count_field percentfield:percent_field showcount:show_count showperc:show_percent useother:use_other otherstr:other_str",
    "top": "countfield:count_field percentfield:percent_field showcount:show_count showperc:show_percent useother:use_other otherstr:other_str",
    "rex": "field max_match offset_field mode",
    "stats": "partitions allnum:all_num delim",
    "streamstats": "current window",
    "tstats": "prestats local append summariesonly:summaries_only include_reduced_buckets allow_old_summaries chunk_size fillnull_value",
}.items()}


def tree_fields(e):
    """`Name(a=.., b=..)` -> [(field, text)]"""
    body, out, depth, cur, quoted, esc = e[e.index("(") + 1:-1], [], 0, "", False, False
    for ch in body + ",":
        if quoted:
            cur += ch
            quoted = esc or ch != '"'
            esc = ch == "\\" and not esc
            continue
        if ch == "," and not depth:
            if cur.strip():
                out.append(tuple(cur.strip().split("=", 1)))
            cur = ""
            continue
        quoted = ch == '"'
        depth += (ch in "([{") - (ch in ")]}")
        cur += ch
    return out


def options(ctx, rep):
    """each option of a command, alone and with each other one, in every spelling of its value, sets the field that carries it
    and leaves the others at their defaults"""
    B = Batch(rep, queries(ctx))
    plain = {}
    for c, q, e in sentences():
        if e != REJECTED and c in OWNER and q.startswith(c):
            have = {w.split("=")[0] for w in split_words(q) if OPTION.match(w)}
            for f, v in tree_fields(e):
                for o in [o for o, g in OWNER[c].items() if g == f and o not in have]:
                    plain.setdefault((c, o), v)
    done = {}
    for c, q, e in sentences():
        if e == REJECTED or c not in OWNER or not q.startswith(c + " ") and q != c:
            continue
        ws = split_words(q)
        at = [i for i, w in enumerate(ws) if OPTION.match(w) and w.split("=")[0] in OWNER[c]]
        if not at:
            continue
        full = tree_fields(e)
        if not all(g in dict(full) for g in OWNER[c].values()):
            raise AnalysisError("options of %s: %s has not all of %s" % (c, e, sorted(OWNER[c].values())))
        done.setdefault(c, set()).update(ws[i].split("=")[0] for i in at)

        def case(keep, change=None):
            w2 = [ws[i] if change is None or i != change[0] else change[1] for i in range(len(ws)) if i not in at or i in keep]
            fs = []
            for f, v in full:
                mine = [i for i in at if OWNER[c][ws[i].split("=")[0]] == f]
                if mine and mine[0] not in keep:
                    v = plain.get((c, ws[mine[0]].split("=")[0]))
                elif mine and change and change[0] == mine[0]:
                    v = change[2]
                if v is None:
                    return
                fs.append("%s=%s" % (f, v))
            q2 = " ".join(w2)
            B.agree("options: " + q2, q2, "%s(%s)" % (e[:e.index("(")], ", ".join(fs)), "src/commands (%s)" % c)
        for k in (0, 1, 2) if not ctx.thorough else range(len(at) + 1):
            for keep in itertools.combinations(at, k):
                case(keep)
        for i in at:
            o, _, v = ws[i].partition("=")
            if v in ("true", "false", "t", "f"):
                for w in ("true", "t", "false", "f"):
                    for keep in (at, (i,)):
                        case(keep, (i, "%s=%s" % (o, w), str(w[0] == "t")))
            elif dict(full)[OWNER[c][o]] == '"%s"' % v and c != "fillnull":
                for keep in (at, (i,)):
                        case(keep, (i, '%s="%s"' % (o, v), '"%s"' % v))
            elif re.match(r"⟨\w+:int⟩$", v) and c != "fillnull":
                for w in ("0", "1", "7", "1000000"):
                    for keep in (at, (i,)):
                        case(keep, (i, "%s=%s" % (o, w), w))
    missing = {"%s %s" % (c, o) for c in OWNER for o in OWNER[c] if o not in done.get(c, ())}
    if missing:
        raise AnalysisError("no sentence for the options " + ", ".join(sorted(missing)))
    rep.count("options", sum(map(len, done.values())))
    B.run()


# -- S07 ------------------------------------------------------------------------------------------------------

RESERVED = set("""after and apply as asc before between bin branch by dedup desc distinct eval eventstats exists export false fit from
function group groupby having head histperc import in inner into is join left like limit lookup not null offset on onchange or order
orderby outer output outputnew rename reset return rex search select sort stats streamstats thru through timechart timewrap true type
union where while xor t f""".split())


def word_boundaries(ctx, rep):
    """a name that merely begins with a keyword is a name: every text the parser compared a name with, while it parsed
    a sentence, is tried as a prefix of that name"""
    Qs = queries(ctx)
    seen = {}
    syntax = {}
    for c, q, e in sentences():
        syntax.setdefault(c, set()).update(w.lower() for w in re.findall(r"\w+", re.sub("⟨.*?⟩", " ", q)))

    def sentence(r, it):
        c, q, e = it
        got = attempt(r, q, lambda: Qs.full(q))
        if got is None or got[0] != e:
            return          # S02's business
        for h, words in sorted(got[1].items()):
            if "⟨%s⟩" % h not in q:
                continue
            for w in sorted({w.lower() for w in words}):
                C = CLASSES["name"]
                sp = re.match(r"(=|\*|\.\.\.)(.+)", w)
                if sp and all(x in C.rest for x in sp.group(2)):
                    how, w = sp.groups()
                    if how == "=":
                        # a whole word: must be one of the documented reserved words
                        if w in RESERVED or w in syntax.get(c, ()):
                            r.ok("%s ⟨%s⟩ = %s" % (q, h, w))
                        else:
                            r.violation("%s is reserved" % w, "`%s`: the parser treats the name `%s` specially, although it is neither "
                                        "documented as a reserved word nor a keyword" % (q, w), "src/commands (%s)" % c)
                    else:
                        name = "zz" + w + ("zz" if how == "*" else "")
                        agree(r, Qs, "%s ⟨%s⟩ is %s" % (q, h, name), q.replace("⟨%s⟩" % h, name), e.replace("⟨%s⟩" % h, name),
                              "src/commands (%s)" % c)
                    continue
                if not w or w[0] not in C.first or any(x not in C.rest for x in w[1:]):
                    r.count("keywords_no_name_can_begin_with")
                    continue
                if not ctx.thorough:
                    # the same keyword is tried at two places of a command's sentences per worker
                    k = (c, w)
                    seen[k] = seen.get(k, 0) + 1
                    if seen[k] > 2:
                        continue
                q2 = q.replace("⟨%s⟩" % h, "%s⟨%s:rest⟩" % (w, h))
                e2 = e.replace("⟨%s⟩" % h, "%s⟨%s⟩" % (w, h))
                agree(r, Qs, "%s ⟨%s⟩ begins with %s" % (q, h, w), q2, e2, "src/commands (%s)" % c)
    spread(rep, [s for s in sentences() if s[2] != REJECTED], sentence)


# -- S03 ------------------------------------------------------------------------------------------------------
# An expression tree of the query is compared with the tree of an independent operator-precedence parser.  Trees are
# compared up to the associativity of the operators for which it does not matter.

ARITH = {"*": 3, "/": 3, "+": 4, "-": 4, ".": 5}
COMPARE = ["=", "==", "!=", "<", "<=", ">", ">="]
LEVEL = dict(ARITH, **{c: 7 for c in COMPARE})
EVAL = dict(LEVEL, AND=8, OR=9)             # eval, where: AND before OR
SEARCH = dict(LEVEL, AND=9, OR=8)           # search: OR before AND


def flat(kind, items):
    out = []
    for it in items:
        out.extend(it[1] if isinstance(it, tuple) and it[0] == kind else [it])
    return (kind, tuple(out))


def build(op, l, r):
    """normal form of an application"""
    if op in ("+", "-"):
        ts = lambda x: x[1] if x[0] == "sum" else (("+", x),)
        neg = {"+": "-", "-": "+"}
        return ("sum", ts(l) + tuple((s if op == "+" else neg[s], x) for s, x in ts(r)))
    if op in ("*", "/"):
        fs = lambda x: x[1] if x[0] == "prod" else (("*", x),)
        inv = {"*": "/", "/": "*"}
        return ("prod", fs(l) + tuple((s if op == "*" else inv[s], x) for s, x in fs(r)))
    if op == ".":
        return flat("cat", [l, r])
    if op in ("AND", "OR"):
        return flat(op, [l, r])
    return (op, l, r)


def value_tree(v):
    """normal form of a syntax-tree value"""
    name = v.a[0].rsplit("::", 1)[-1] if v.k == "adt" else ""
    if v.k == "adt" and name == "Binary":
        d = dict(v.a[2])
        return build(litval(d["symbol"]), value_tree(d["left"]), value_tree(d["right"]))
    if v.k == "adt" and name == "Unary":
        d = dict(v.a[2])
        return ("not", value_tree(d["right"]))
    if v.k == "adt" and name == "Call":
        d = dict(v.a[2])
        return ("call", text(d["name"]), tuple(value_tree(x) for x in d["args"].a[0]))
    if v.k == "adt" and len(v.a[2]) == 1 and v.a[2][0][1].k == "adt" and v.a[1] != name:
        return value_tree(v.a[2][0][1])
    if v.k == "adt" and name == "Box":
        return value_tree(v.a[2][0][1])
    return ("leaf", text(v))


def oracle(toks, levels, implicit=None):
    """tokens (leaf tuples, operators, "(", ")", "NOT") -> normal form"""
    pos = [0]

    def primary():
        t = toks[pos[0]]
        if t == "(":
            pos[0] += 1
            x = climb(9)
            assert toks[pos[0]] == ")"
            pos[0] += 1
            return x
        if t == "NOT":
            pos[0] += 1
            return ("not", climb(7))
        pos[0] += 1
        return t

    def climb(level):
        if level == 2:
            return primary()
        l = climb(level - 1)
        while pos[0] < len(toks) and isinstance(toks[pos[0]], str) and levels.get(toks[pos[0]]) == level:
            op = toks[pos[0]]
            pos[0] += 1
            l = build(op, l, climb(level - 1))
        return l
    x = climb(9)
    assert pos[0] == len(toks), toks
    return x


def leaf_tok(n):
    return ("leaf", 'field "⟨%s⟩"' % n)


def show_tok(t):
    return t if isinstance(t, str) else re.search(r"⟨\w+⟩", t[1]).group(0) if "⟨" in t[1] else t[1]


def eval_sequences(thorough):
    x, y, z, w = map(leaf_tok, "xyzw")
    ops = list(EVAL)
    for a in ops:
        yield (x, a, y)
        yield ("(", x, a, y, ")")
        if EVAL[a] >= 7:
            yield ("NOT", x, a, y)
            yield ("NOT", "(", x, a, y, ")")
            yield (x, "AND", "NOT", y, a, z) if a not in ("OR",) else (x, "OR", "NOT", y)
    for a, b in itertools.product(ops, ops):
        if not (EVAL[a] == 7 and EVAL[b] == 7):
            yield (x, a, y, b, z)
        yield ("(", x, a, y, ")", b, z)
        yield (x, a, "(", y, b, z, ")")
    reps = ops if thorough else ["*", "/", "-", ".", "<", "AND"]
    for a, b, c in itertools.product(reps, reps, reps):
        s = {a, b, c}
        if sum(EVAL[o] == 7 for o in (a, b, c)) > 1 and not ({"AND"} & {b} and EVAL[a] == 7 and EVAL[c] == 7):
            continue
        if {"AND", "OR"} <= s:
            continue        # the two-operator sequences decide that pair
        yield (x, a, y, b, z, c, w)
        if EVAL[a] == 7 and EVAL[c] == 7:
            continue
        if thorough or a != b:
            yield (x, a, "(", y, b, z, ")", c, w)
            if not (EVAL[b] == 7 and EVAL[c] == 7):
                yield (x, a, "(", y, b, z, c, w, ")")


def bool_sequences(thorough, implicit):
    """conditions over comparisons a=1, b=2, …"""
    A = [(leaf_tok(n), "=", ("leaf", str(i + 1))) for i, n in enumerate("abcd")]
    ops = ["AND", "OR"] + ([" "] if implicit else [])
    n3 = list(itertools.product(ops, ops))
    a, b = A[:2]
    for n in range(4):
        yield ("NOT",) * n + a
        yield ("(",) * n + a + (")",) * n
    yield ("NOT", "(", "NOT") + a + (")",)
    yield ("NOT", "(", "(", "NOT") + a + (")", ")")
    for o in ops:
        yield ("NOT", "NOT") + a + (o,) + b
        yield a + (o, "NOT", "NOT") + b
        yield ("(", "NOT", "NOT") + a + (")", o, "NOT", "NOT", "(") + b + (")",)

    def nots(atoms, mask):
        return [(("NOT",) + a if m else a) for a, m in zip(atoms, mask)]
    for o in ops:
        for mask in itertools.product((0, 1), repeat=2):
            p, q = nots(A[:2], mask)
            yield p + (o,) + q
            yield ("NOT", "(") + p + (o,) + q + (")",)
    for o1, o2 in n3:
        for mask in itertools.product((0, 1), repeat=3) if thorough else [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]:
            p, q, r = nots(A[:3], mask)
            yield p + (o1,) + q + (o2,) + r
            yield ("(",) + p + (o1,) + q + (")", o2) + r
            yield p + (o1, "(") + q + (o2,) + r + (")",)
            yield p + (o1, "NOT", "(") + q + (o2,) + r + (")",)
    for os in itertools.product(ops, repeat=3):
        p, q, r, s = A
        yield p + (os[0],) + q + (os[1],) + r + (os[2],) + s
        yield ("(",) + p + (os[0],) + q + (")", os[1], "(") + r + (os[2],) + s + (")",)
        if thorough:
            yield p + (os[0], "(") + q + (os[1],) + r + (")", os[2]) + s


def spell(toks):
    return re.sub(r"\s+", " ", " ".join(show_tok(t) for t in toks)).replace("( ", "(").replace(" )", ")")


def expr_case(rep, Qs, label, query, pick, toks, levels):
    key = "%s %s" % (label, query)

    def go():
        v = Qs.raw(concrete(query))
        exp = oracle(["AND" if t == " " else t for t in toks], levels)
        if v is None:
            rep.violation("%s #rejected" % key, "`%s` is rejected" % query, "src/spl/parser.rs")
            return
        if "EITHER{" in text(v):
            raise Undecided("several syntax trees")
        got = value_tree(pick(v))
        if got == exp:
            rep.ok(key)
        else:
            rep.violation("%s #%s" % (key, digest(repr(got))), "`%s` is grouped as %s, expected %s" % (query, shown(got), shown(exp)), "src/spl/parser.rs")
    attempt(rep, key, go)


def shown(t):
    if t[0] == "leaf":
        return t[1].replace("field ", "").strip('"')
    if t[0] in ("sum", "prod"):
        return "(" + " ".join("%s %s" % (s, shown(x)) for s, x in t[1]) + ")"
    if t[0] == "cat" or t[0] in ("AND", "OR"):
        return "(" + (" %s " % t[0]).join(shown(x) for x in t[1]) + ")"
    if t[0] == "not":
        return "NOT " + shown(t[1])
    if t[0] == "call":
        return "%s(%s)" % (t[1], ", ".join(map(shown, t[2])))
    return "(%s %s %s)" % (shown(t[1]), t[0], shown(t[2]))


def command_field(v, *path):
    """the named field of the only command of a pipeline"""
    x = dict(v.a[2])["commands"].a[0][0]
    while x.k == "adt" and len(x.a[2]) == 1 and x.a[2][0][0] == "0":
        x = x.a[2][0][1]
    for p in path:
        x = dict(x.a[2])[p] if isinstance(p, str) else x.a[0][p]
    return x


def precedence(ctx, rep):
    Qs = queries(ctx)
    items = [("eval", "eval r = " + spell(t), ("fields", 0, 1), t, EVAL) for t in eval_sequences(ctx.thorough)]
    items += [("where", "where " + spell(t), ("expr",), t, EVAL) for t in eval_sequences(False)]
    items += [("search", "search " + spell(t), ("expr",), t, SEARCH) for t in bool_sequences(ctx.thorough, True)]
    for t in bool_sequences(ctx.thorough, False):
        items.append(("where", "where " + spell(t), ("expr",), t, EVAL))
        items.append(("tstats", "tstats count where %s by ⟨e⟩" % spell(t), ("where_condition",), t, EVAL))
    items += [(l, re.sub(r"\b(AND|OR|NOT)\b", lambda m: m.group(0).lower(), q), f, t, lv) for l, q, f, t, lv in items if len(t) < 12]
    items += [(l, re.sub(r" *([<>!=]=|[<>=+*/-]) *", r"  \1\n", q), f, t, lv) for l, q, f, t, lv in items if len(t) < 8]
    items += [(l, re.sub(r" *([<>!=]=|[<>=+]) *", r"\1", q), f, t, lv) for l, q, f, t, lv in items if len(t) < 8]
    items = list({it[:2]: it for it in items}.values())
    spread(rep, items, lambda r, it: expr_case(r, Qs, it[0], it[1], lambda v: command_field(v, *it[2]), list(it[3]), it[4]))
    rep.count("expressions_enumerated", len(items))


# -- S04 ------------------------------------------------------------------------------------------------------

JUNK = [" )", " ]", ")", "]", " \"", " (", " [", " ,", " =", " | |", " ||", " | )", " | \"", " ' "]


def nothing_dropped(ctx, rep):
    """every word of a sentence occurs in its syntax tree, and text that belongs to nothing makes the query rejected"""
    Qs = queries(ctx)
    seen = {}

    def go(r, it):
        c, q, e = it
        got = attempt(r, q, lambda: Qs.ast(q))
        if got is None or got == REJECTED:
            return          # S02's business
        holes = re.findall(r"⟨(\w+)(?::\w+)?⟩", q)
        for h in sorted(set(holes)):
            if "⟨%s⟩" % h in got:
                r.ok("%s keeps ⟨%s⟩" % (q, h))
            else:
                r.violation("%s drops ⟨%s⟩" % (q, h), "`%s` is accepted but ⟨%s⟩ does not occur in its syntax tree %s" % (q, h, got[:600]),
                            "src/commands (%s)" % c)
        n = seen[c] = seen.get(c, 0) + 1
        if n > 3 and not ctx.thorough:
            return
        for j in JUNK:
            agree(r, Qs, "junk after: %s%s" % (q, j), q + j, REJECTED, "src/commands (%s)" % c)
        for j in (") ", "] ", ", ", "| | ", "|| "):
            agree(r, Qs, "junk before: %s%s" % (j, q), j + q, REJECTED, "src/commands (%s)" % c)
    spread(rep, [s for s in sentences() if s[2] != REJECTED], go)


def insertions(ctx, rep):
    """a surplus word or option, put anywhere into a sentence, is in its syntax tree or makes it rejected"""
    Qs = queries(ctx)

    def go(r, it):
        c, q, e = it
        gaps = [i for i, ch in enumerate(q) if ch == " "]
        for extra in ("zzword", "zzopt=⟨zzvalue⟩") + (("zzopt=7", "zzopt=true") if ctx.thorough else ()):
            for at in gaps + [len(q)]:
                t = "| " + q[:at] + " " + extra + q[at:]
                key = "surplus `%s` in: %s" % (extra, t)
                got = attempt(r, key, lambda: Qs.ast(t))
                if got is None:
                    continue
                lost = [] if got == REJECTED else [w for w in re.findall(r"zz\w+|7|true", extra) if w.lower() not in got.lower()]
                if lost:
                    r.violation("surplus `%s` lost in: %s" % (extra, q), "`%s` is accepted but %s does not occur in its syntax tree %s" % (
                        t, ", ".join(lost), got[:600]), "src/commands (%s)" % c)
                else:
                    r.ok(key)
    # inside quotes a gap is part of the text, and inside a sub-search of its commands
    spread(rep, [("search" if q.startswith("|") else c, q.lstrip("| "), e) for c, q, e in sentences() if e != REJECTED], go)


def damaged(q):
    """q with one separator too many, or with one bracket, quote or pipe of a pair missing"""
    inside, out = False, []
    for i, ch in enumerate(q):
        if ch == '"' and q[i - 1:i] != "\\":
            inside = not inside
            if q[i:i + 2] != '""' and q[i - 1:i + 1] != '""':
                yield "quote missing", q[:i] + q[i + 1:]
        elif not inside:
            if ch in ",|":
                yield "two %s" % ch, q[:i] + ch + " " + q[i:]
            if ch in "([":
                yield "comma after " + ch, q[:i + 1] + ", " + q[i + 1:]
                yield "pipes after " + ch, q[:i + 1] + "| | " + q[i + 1:]
            if ch in ")]|":
                yield "comma before " + ch, q[:i] + ", " + q[i:]
                yield "pipe before " + ch, q[:i] + " | " + q[i:]
            if ch in "()[]":
                yield "missing " + ch, q[:i] + " " + q[i + 1:]
                if ch in ")]":
                    yield "two " + ch, q[:i] + ch + q[i:]
                if ch == "[":
                    yield "two " + ch, q[:i] + ch + q[i:]
    for tail in (",", "|", " |", " | |"):
        yield "ends with" + tail, q + tail


def separators(ctx, rep):
    """a separator too many, and one bracket or quote of a pair, is never skipped"""
    Qs = queries(ctx)

    def go(r, it):
        c, q, e = it
        for what, t in damaged(q):
            if t.count('"') % 2 and what != "quote missing":
                continue
            agree(r, Qs, "%s: %s" % (what, t), t, REJECTED, "src/commands (%s)" % c)
    # the text in TERM(...) is taken as it is
    spread(rep, [s for s in sentences() if s[2] != REJECTED and "TERM(" not in s[1]], go)


def unknown(ctx, rep):
    """a word that names no command is no command, and an option that no command has is no option"""
    Qs = queries(ctx)
    B = Batch(rep, Qs)
    opts = [(c, q) for c, q, e in sentences() if e != REJECTED and re.search(r"[a-z_]+=", q) and c not in ("search", "eval", "where")]
    for c, q in opts:
        q = q.lstrip("| ")
        word, _, tail = q.partition(" ")
        for v in ("⟨zzvalue⟩", "7", "true"):
            B.agree("unknown option: %s zzopt=%s %s" % (word, v, tail), "| %s zzopt=%s %s" % (word, v, tail), REJECTED)
        for m in re.finditer(r"\b(?!value=)([a-z_]+)=(true|false|t|f|⟨\w+:int⟩|\d+)(?=[ |]|$)", q):
            bad = ["zzword", "zzword7", "7w8x", '"⟨s:text⟩ x"', "$v$"] + (["7"] if m.group(2)[0] in "tf" else ["true"])
            for v in bad:
                t = q[:m.start(2)] + v + q[m.end(2):]
                B.agree("value of the wrong kind: " + t, "| " + t, REJECTED)
    for first in ("search ⟨a⟩=⟨b⟩ | ", "| ", "| head 5 | ", "⟨a⟩=⟨b⟩ | "):
        for words in ("zzcmd", "zzcmd ⟨x⟩", "zzcmd ⟨f⟩=⟨v⟩", "zzcmd ⟨f⟩ by ⟨g⟩", "zzcmd 5", "⟨f⟩=⟨v⟩", "NOT ⟨f⟩=⟨v⟩", "(⟨f⟩=⟨v⟩)", "⟨f⟩ ⟨g⟩"):
            for after in ("", " | head 5"):
                B.agree("unknown command: %s%s%s" % (first, words, after), first + words + after, REJECTED)
    for outer in ("join ⟨k⟩ [search ⟨a⟩=⟨b⟩ | %s]", "join ⟨k⟩ [| %s]", "multisearch [search ⟨a⟩=⟨b⟩ | %s] [search ⟨c⟩=⟨d⟩]",
                  'map search="search ⟨a⟩=⟨b⟩ | %s"'):
        for words in ("zzcmd", "zzcmd ⟨x⟩", "zzcmd ⟨f⟩=⟨v⟩"):
            B.agree("unknown command in: " + outer % words, "| " + outer % words, REJECTED)
    B.run()


# -- S06 ------------------------------------------------------------------------------------------------------

UNITS = {"seconds": ["s", "sec", "secs", "second", "seconds"], "minutes": ["m", "min", "mins", "minute", "minutes"],
         "hours": ["h", "hr", "hrs", "hour", "hours"], "days": ["d", "day", "days"], "weeks": ["w", "week", "weeks"],
         "months": ["mon", "month", "months"]}


def time_units(ctx, rep):
    Qs = queries(ctx)
    B = Batch(rep, Qs)

    def span(n, u):
        return 'TimeSpan(value=%s, scale="%s")' % (n, u)

    def snap(s, u, off=None):
        return 'SnapTime(span=%s, snap="%s", snap_offset=%s)' % (s, u, off)
    units = [(u, w) for u, ws in UNITS.items() for w in ws]
    n = "⟨n:int⟩"

    def value(spell, tree):
        B.agree("eval " + spell, "eval r=" + spell, 'EvalCommand(fields=[(field "r", %s)])' % tree)
        B.agree("search " + spell, "search ⟨f⟩>" + spell, 'SearchCommand(expr=(field "⟨f⟩" > %s))' % tree)
        B.agree("argument " + spell, "eval r=f(⟨f⟩, %s)" % spell, 'EvalCommand(fields=[(field "r", f(field "⟨f⟩", %s))])' % tree)

    for u, w in units:
        value(n + w, span("⟨n⟩", u))
        value("-" + n + w, span("-⟨n⟩", u))
        B.agree("bin " + w, "bin span=%s%s ⟨f⟩" % (n, w), BIN % (span("⟨n⟩", u), "None"))
        B.agree("bin minspan " + w, "bin minspan=%s%s ⟨f⟩" % (n, w), BIN % ("None", span("⟨n⟩", u)))
        for sp, tree in (("@" + w, snap("None", u)), ("-" + n + w + "@" + w, snap(span("-⟨n⟩", u), u)),
                         (n + w + "@" + w, snap(span("⟨n⟩", u), u)), ("-" + w + "@" + w, snap(span("-1", u), u)),
                         (w + "@" + w, snap(span("1", u), u))):
            B.agree("eval " + sp, "eval r=" + sp, 'EvalCommand(fields=[(field "r", %s)])' % tree)
            B.agree("argument " + sp, 'eval r=relative_time(⟨f⟩, "%s")' % sp, 'EvalCommand(fields=[(field "r", relative_time(field "⟨f⟩", %s))])' % tree)
        for u2, ws in UNITS.items():
            for w2 in ws if ctx.thorough else ws[:1]:
                sp, tree = "-%s%s@%s" % (n, w, w2), snap(span("-⟨n⟩", u), u2)
                B.agree("argument " + sp, 'eval r=relative_time(⟨f⟩, "%s")' % sp, 'EvalCommand(fields=[(field "r", relative_time(field "⟨f⟩", %s))])' % tree)
                for sg in ("+", "-"):
                    sp, tree = "@%s%s%s%s" % (w, sg, n, w2), snap("None", u, span(("" if sg == "+" else "-") + "⟨n⟩", u2))
                    B.agree("argument " + sp, 'eval r=relative_time(⟨f⟩, "%s")' % sp, 'EvalCommand(fields=[(field "r", relative_time(field "⟨f⟩", %s))])' % tree)
    for w in ("w0", "w7"):
        for sp, tree in (("@" + w, snap("None", "weeks")), ("-" + n + "d@" + w, snap(span("-⟨n⟩", "days"), "weeks"))):
            B.agree("argument " + sp, 'eval r=relative_time(⟨f⟩, "%s")' % sp, 'EvalCommand(fields=[(field "r", relative_time(field "⟨f⟩", %s))])' % tree)
    for a in ("earliest", "latest"):
        for u, w in units:
            for sp, tree in (("-" + n + w + "@" + w, snap(span("-⟨n⟩", u), u)), ("@" + w, snap("None", u))):
                B.agree("%s=%s" % (a, sp), "search %s=%s" % (a, sp), 'SearchCommand(expr=(field "%s" = %s))' % (a, tree))
    B.run()


BIN = 'BinCommand(field=field "⟨f⟩", span=%s, min_span=%s, bins=None, start=None, end=None, align_time=None)'


# -- S08 ------------------------------------------------------------------------------------------------------

def literals(ctx, rep):
    """every spelling of a literal denotes the reviewed value, in every place where a literal may stand"""
    Qs = queries(ctx)
    B = Batch(rep, Qs)
    n = 0
    for ln in open(os.path.join(DATA, "literals.txt"), encoding="utf8"):
        ln = ln.rstrip("\n")
        if not ln or ln.startswith("# "):
            continue
        n += 1
        cols = ln.replace("<TAB>", "\x00").split("\t")
        q, e = cols[0].replace("\x00", "\t"), cols[1]
        e2 = cols[2] if len(cols) > 2 else e

        def at(ctxt, tree, ex=e):
            B.agree(ctxt % ((q,) * ctxt.count("%s")), ctxt % ((q,) * ctxt.count("%s")), REJECTED if ex == REJECTED else tree % ((ex,) * tree.count("%s")))
        at("eval ⟨r⟩=%s", 'EvalCommand(fields=[(field "⟨r⟩", %s)])')
        at("eval ⟨r⟩=%s, ⟨q⟩=%s", 'EvalCommand(fields=[(field "⟨r⟩", %s), (field "⟨q⟩", %s)])')
        at("eval ⟨r⟩=if(⟨f⟩==%s, %s, %s)", 'EvalCommand(fields=[(field "⟨r⟩", if((field "⟨f⟩" == %s), %s, %s))])')
        at("eval ⟨r⟩=⟨f⟩ + %s", 'EvalCommand(fields=[(field "⟨r⟩", (field "⟨f⟩" + %s))])')
        at("eval ⟨r⟩=%s / ⟨g⟩", 'EvalCommand(fields=[(field "⟨r⟩", (%s / field "⟨g⟩"))])')
        at("where ⟨f⟩=%s", 'WhereCommand(expr=(field "⟨f⟩" = %s))')
        at("where %s!=⟨f⟩", 'WhereCommand(expr=(%s != field "⟨f⟩"))')
        for op in COMPARE if ctx.thorough else ["=", "!="]:
            at("search ⟨f⟩" + op + "%s", 'SearchCommand(expr=(field "⟨f⟩" ' + op + " %s))")
            at("search ⟨f⟩ " + op + " %s ⟨g⟩" + op + "1", 'SearchCommand(expr=((field "⟨f⟩" ' + op + ' %s) AND (field "⟨g⟩" ' + op + " 1)))")
        at("search ⟨f⟩ IN (%s, %s)", 'SearchCommand(expr=FieldIn(field="⟨f⟩", exprs=[%s, %s]))')
        at("search ⟨f⟩ IN(%s)", 'SearchCommand(expr=FieldIn(field="⟨f⟩", exprs=[%s]))')
        at("search (⟨f⟩=%s)", 'SearchCommand(expr=(field "⟨f⟩" = %s))')
        at("tstats count where ⟨f⟩=%s", TSTATS, e2)
        at("tstats count where ⟨f⟩=%s by ⟨g⟩", TSTATS.replace("by_fields=None", 'by_fields=[MaybeSpannedField(field=field "⟨g⟩", span=None)]'), e2)
    if n < 80:
        raise AnalysisError("checks/data/literals.txt: %d literals" % n)
    B.run()


TSTATS = ("TStatsCommand(prestats=False, local=False, append=False, summaries_only=False, include_reduced_buckets=False, "
          "allow_old_summaries=False, chunk_size=10000000, fillnull_value=None, exprs=[count()], datamodel=None, nodename=None, "
          "where_condition=(field \"⟨f⟩\" = %s), by_fields=None, by_prefix=None)")
