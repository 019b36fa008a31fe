"""Macro expansion: python/spl_transpiler/macros.py interpreted on symbolic queries, definitions and arguments."""
import ast
import re
try:
    from re import _parser as sre_parse, _constants as sre
except ImportError:                                      # Python < 3.11
    import sre_parse
    import sre_constants as sre

from pyabs import Cls, Ext, Inst, Mod, Native, Package, Partial, Plain, Raised, Record, Sym, Unknown, const, node_of, traces

MOD = "spl_transpiler.macros"
WHERE = "python/spl_transpiler/macros.py"
ARGS = ["a", "ab", "a.b"]                                # a regular expression would confuse them


def text(name):
    return Sym(ast.Name(id=name, ctx=ast.Load()), "str")


def mentions(v, prefix):
    return isinstance(v, Sym) and any(isinstance(n, ast.Name) and n.id.startswith(prefix) for n in ast.walk(v.node))


class Endless(Exception):
    pass


def language(pattern, cap=64):
    """the finite set of texts a pattern matches, with the text of its first group"""
    def go(items):
        out = [("", None)]
        for op, av in items:
            if op is sre.LITERAL:
                nxt = [(chr(av), None)]
            elif op is sre.IN and all(o is sre.LITERAL for o, _ in av):
                nxt = [(chr(c), None) for _, c in av]
            elif op is sre.BRANCH:
                nxt = [x for alt in av[1] for x in go(alt)]
            elif op is sre.SUBPATTERN:
                nxt = [(t, t if av[0] == 1 else g) for t, g in go(av[3])]
            else:
                raise Endless(str(op))
            out = [(a + b, ga if ga is not None else gb) for a, ga in out for b, gb in nxt]
            if len(out) > cap:
                raise Endless("large")
        return out
    return go(sre_parse.parse(pattern))


class Expander(Plain):
    def __init__(self, pkg, trace, found):
        super().__init__(pkg, trace)
        self.found, self.seen = found, []

    def detect(self, code):
        self.seen.append(code)
        k = len(self.seen) - 1
        return self.found[k] if k < len(self.found) else ([], code)

    def import_name(self, mod, name):
        if mod == "spl_transpiler.spl_transpiler":
            return Native(name, self.detect) if name == "detect_macros" else Ext("rust." + name)
        return super().import_name(mod, name)

    def attr(self, o, a):
        if isinstance(o, Cls) and a in ("model_validate", "parse_obj") and o.is_a("BaseModel"):
            return Native(a, lambda v, *x, **k: v if isinstance(v, Inst) else self.construct(o, [], v) if isinstance(v, dict)
                          else self.nomodel(v))
        if isinstance(o, Sym) and o.kind == "str" and a in ("strip", "rstrip", "lstrip"):
            return Native(a, lambda *x: Sym(self.callnode(ast.Attribute(value=o.node, attr=a, ctx=ast.Load()), x, {}), "str"))
        if isinstance(o, Sym) and o.kind == "str" and a == "replace":
            return Native(a, lambda old, new, *c: self.replaced(o, old, new, c))
        if isinstance(o, Record) and a not in o.fields:
            raise Raised("AttributeError", a)
        return super().attr(o, a)

    def nomodel(self, v):
        raise Raised("ValidationError", "%r is not a macro definition" % (v,))

    def unsearched(self, v):
        if mentions(v, "VALUE"):
            raise Raised("Rescan", "text given for one argument is searched for others")

    def subst(self, v, to):
        return Sym(ast.Call(func=ast.Name(id="SUBST", ctx=ast.Load()), args=[node_of(v)], keywords=[
            ast.keyword(arg=None, value=ast.Dict(keys=[const(k)], values=[node_of(x)])) for k, x in sorted(to.items())]), "str")

    def replaced(self, o, old, new, count):
        self.unsearched(o)
        if count or not isinstance(old, str):
            raise Unknown("replace of %r" % (old,))
        return self.subst(o, {old: new})

    def external(self, name, args, kw):
        if name.startswith("logging"):
            return Record(debug=Native("debug", lambda *a, **k: None), info=Native("info", lambda *a, **k: None),
                          warning=Native("warning", lambda *a, **k: None))
        if name == "re.escape" and isinstance(args[0], str):
            return re.escape(args[0])
        if name == "re.compile" and not kw:
            p = args[0]
            return Record(sub=Native("sub", lambda repl, s, **k: self.external("re.sub", [p, repl, s], k)))
        if name == "re.sub" and len(args) == 3 and not kw:
            pat, repl, s = args
            if not isinstance(pat, str):
                raise Raised("Pattern", "user text is used as a regular expression") if mentions(pat, "VALUE") else \
                    Unknown("symbolic pattern")
            self.unsearched(s)
            try:
                words = language(pat)
            except (Endless, re.error) as e:
                raise Unknown("pattern %s: %s" % (pat, e))
            to = {}
            for w, g in words:
                if isinstance(repl, (str, Sym)):
                    if isinstance(repl, Sym) or "\\" in repl:
                        raise Raised("Template", "user text is used as a replacement template, its backslashes are interpreted")
                    to[w] = repl
                else:
                    m = Record(group=Native("group", lambda k=0, w=w, g=g: (w, g)[k]), __getitem__=[w, g],
                               groups=Native("groups", lambda g=g: (g,)))
                    to[w] = self.call(repl, [m], {})
            return self.subst(s, to)
        if name == "rust.parse":
            return Sym(self.callnode(ast.Name(id="parse", ctx=ast.Load()), args, kw), "any")
        return super().external(name, args, kw)

    def index(self, o, k):
        if isinstance(o, Record) and isinstance(k, int):
            return o.fields["__getitem__"][k]
        return super().index(o, k)

    def compare(self, op, a, b):
        if isinstance(a, Sym) and isinstance(b, Sym) and type(op).__name__ == "Eq" and a.kind == b.kind == "str":
            if a.text == b.text or parts(a.node) == parts(b.node) and (trimmed(a.node) is not a.node) == (trimmed(b.node) is not b.node):
                return True
            return self.t.ask("%s == %s" % (a.text, b.text), [False, True])
        return super().compare(op, a, b)


def call(args, name="m"):
    return Record(macro_name=name, args=args)


MACROS = {"m": {"definition": text("DEF"), "arguments": ARGS}, "n": {"definition": text("PLAIN")},
          "k": {"definition": text("ONE"), "arguments": ["x"]}}
V = [text("VALUE%d" % i) for i in range(3)]
FULL = "SUBST(DEF, **{'$a$': VALUE0}, **{'$a.b$': VALUE2}, **{'$ab$': VALUE1})"
# what is found in the query, macro by macro -> the query after expansion | the error
CASES = [
    ("positional arguments", [([(text("PRE"), call([(None, v) for v in V]))], text("END"))], ["PRE", FULL, "END"]),
    ("named arguments", [([(text("PRE"), call([("a.b", V[2]), ("a", V[0]), ("ab", V[1])]))], text("END"))], ["PRE", FULL, "END"]),
    ("one argument", [([(text("PRE"), call([(None, V[0])], "k"))], text("END"))], ["PRE", "SUBST(ONE, **{'$x$': VALUE0})", "END"]),
    ("one named argument", [([(text("PRE"), call([("x", V[0])], "k"))], text("END"))], ["PRE", "SUBST(ONE, **{'$x$': VALUE0})", "END"]),
    ("no arguments", [([(text("PRE"), call([], "n"))], text("END"))], ["PRE", "PLAIN", "END"]),
    ("no macro", [([], text("QUERY"))], ["QUERY"]),
    ("two macros", [([(text("PRE"), call([], "n")), (text("MID"), call([(None, V[0])], "k"))], text("END"))],
     ["PRE", "PLAIN", "MID", "SUBST(ONE, **{'$x$': VALUE0})", "END"]),
    ("three macros", [([(text("PRE"), call([], "n")), (text("MID"), call([], "n")), (text("NEXT"), call([], "n"))], text("END"))],
     ["PRE", "PLAIN", "MID", "PLAIN", "NEXT", "PLAIN", "END"]),
    ("a macro in a definition", [([(text("PRE"), call([], "n"))], text("END")), ([(text("PRE2"), call([(None, V[0])], "k"))], text("END2"))],
     ["PRE2", "SUBST(ONE, **{'$x$': VALUE0})", "END2"]),
    ("nested three deep", [([(text("PRE"), call([], "n"))], text("END")), ([(text("PRE2"), call([], "n"))], text("END2")),
                           ([(text("PRE3"), call([], "n"))], text("END3"))], ["PRE3", "PLAIN", "END3"]),
    ("too few arguments", [([(text("PRE"), call([(None, V[0])]))], text("END"))], "ValueError"),
    ("too many arguments", [([(text("PRE"), call([(None, V[0]), (None, V[1])], "k"))], text("END"))], "ValueError"),
    ("arguments for a macro without", [([(text("PRE"), call([(None, V[0])], "n"))], text("END"))], "ValueError"),
    ("arguments missing altogether", [([(text("PRE"), call([]))], text("END"))], "ValueError"),
    ("named and positional", [([(text("PRE"), call([("a", V[0]), (None, V[1]), ("a.b", V[2])]))], text("END"))], "ValueError"),
    ("an unknown named argument", [([(text("PRE"), call([("y", V[0])], "k"))], text("END"))], "ValueError"),
    ("a named argument too few", [([(text("PRE"), call([("a", V[0]), ("ab", V[1])]))], text("END"))], "ValueError"),
    ("a named argument twice", [([(text("PRE"), call([("a", V[0]), ("a", V[1]), ("ab", V[2])]))], text("END"))], "ValueError"),
    ("an unknown macro", [([(text("PRE"), call([], "zz"))], text("END"))], "KeyError"),
    ("an unknown macro in a definition", [([(text("PRE"), call([], "n"))], text("END")), ([(text("PRE2"), call([], "zz"))], text("END2"))],
     "KeyError"),
]


def trimmed(n):
    """without the trimming of spaces and of a last pipe"""
    while isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("strip", "rstrip", "lstrip"):
        chars = [a.value if isinstance(a, ast.Constant) else None for a in n.args]
        if not (chars == [] or n.func.attr == "rstrip" and chars and chars[0] is not None and set(chars[0]) <= set(" \t\n\r|")):
            break
        n = n.func.value
    return n


def parts(n):
    n = trimmed(n)
    if isinstance(n, ast.JoinedStr):
        return [p for v in n.values for p in ([repr(v.value)] if isinstance(v, ast.Constant) else parts(v.value))]
    return [ast.unparse(n)]


def expansion(ctx, rep):
    pkg = Package(ctx.repo)
    for entry in ("substitute_macros", "parse_with_macros"):
        for name, found, exp in CASES:
            key = "%s: %s" % (entry, name)
            rep.count("queries_interpreted")

            def run(t):
                I = Expander(pkg, t, found)
                env = I.module(MOD)
                f = env.get(entry)
                if f is None:
                    raise Unknown("no function " + entry)
                return I, I.call(f, [text("QUERY"), dict(MACROS)], {})
            try:
                out = traces(run)
            except (Unknown, RecursionError) as ex:
                rep.undecided(key, str(ex))
                continue
            bad = None
            for g, r in out:
                # a definition that expands to the query itself stops the expansion: only for distinct texts is anything claimed
                if any(a is True and " == " in k for k, a in g):
                    continue
                if isinstance(r, Raised):
                    if r.name != exp:
                        bad = "fails: %s" % r if r.name not in ("Rescan", "Template", "Pattern") else str(r).partition(": ")[2]
                    continue
                I, v = r
                if entry == "parse_with_macros":
                    if not (isinstance(v, Sym) and isinstance(v.node, ast.Call) and ast.unparse(v.node.func).endswith("parse") and v.node.args):
                        bad = "gives %s, not the parsed expansion" % (v,)
                        continue
                    v = Sym(v.node.args[0], "str")
                got = parts(v.node) if isinstance(v, Sym) else [repr(v)]
                if isinstance(exp, str):
                    bad = "gives `%s` instead of a %s" % (" ".join(got), exp)
                elif got != exp:
                    bad = "gives `%s` instead of `%s`" % (" ".join(got), " ".join(exp))
                elif any(parts(c.node) != parts(text("QUERY").node) and i == 0 for i, c in enumerate(I.seen)):
                    bad = "looks for macros in another text than the query"
            if bad:
                rep.violation(key, "a query with %s: %s" % (name, bad), "%s in %s" % (entry, WHERE))
            else:
                rep.ok(key, str(exp))


LOADERS = [
    ("the first loader that has it", "CombinedMacroLoader({'x': A}, {'x': B, 'y': C})['x']", "A"),
    ("a later loader that has it", "CombinedMacroLoader({'x': A}, {'x': B, 'y': C})['y']", "C"),
    ("the last of three", "CombinedMacroLoader({}, {}, {'y': C})['y']", "C"),
    ("the fallback when none has it", "CombinedMacroLoader({'x': A}, {'y': B}, fallback_fn=lambda n: FALL(n))['z']", "FALL('z')"),
    ("no fallback when one has it", "CombinedMacroLoader({'x': A}, {'y': B}, fallback_fn=lambda n: FALL(n))['y']", "B"),
    ("an error when none has it", "CombinedMacroLoader({'x': A}, {'y': B})['z']", "KeyError"),
    ("an error without loaders", "CombinedMacroLoader()['z']", "KeyError"),
    ("loaders within loaders", "CombinedMacroLoader(CombinedMacroLoader({'x': A}), CombinedMacroLoader({'y': B}))['y']", "B"),
    ("the registered definition", "RegistryMacroLoader({'x': A, 'y': B})['y']", "B"),
    ("no definition under another name", "RegistryMacroLoader({'x': A})['y']", "KeyError"),
]


def loaders(ctx, rep):
    pkg = Package(ctx.repo)
    for what, src, exp in LOADERS:
        key = "loaders: " + what
        rep.count("lookups_interpreted")
        tree = ast.parse(src, mode="eval").body

        def run(t):
            I = Expander(pkg, t, [])
            env = dict(I.module(MOD))
            env.update({n: text(n) for n in "ABC"})
            env["FALL"] = Sym(ast.Name(id="FALL", ctx=ast.Load()), "any")
            return I.ev(tree, env, MOD)
        try:
            out = traces(run)
        except (Unknown, RecursionError) as ex:
            rep.undecided(key, str(ex))
            continue
        got = [r.name if isinstance(r, Raised) else ast.unparse(r.node) if isinstance(r, Sym) else repr(r) for _, r in out]
        if got == [exp]:
            rep.ok(key, exp)
        else:
            rep.violation(key, "`%s` is %s, not %s" % (src, " or ".join(got), exp), WHERE)
