"""Mini language for abstract syntax-tree shapes and expectations, shared by the emission checks.

Expressions use Python syntax: a name is a field symbol (arbitrary field name), an integer/float/str/bool constant is
that literal, '$x' a symbolic string, "w:a*" a wildcard, "f:name" the field with exactly that name, "n:x" a symbolic
integer, f(x) a function call (a trailing underscore is dropped: if_(..)), comparison/boolean/arithmetic operators map
to the language's operators."""
import ast as pyast
import re

BIN = {pyast.Add: "+", pyast.Sub: "-", pyast.Mult: "*", pyast.Div: "/", pyast.Mod: "%", pyast.MatMult: ".",
       pyast.BitAnd: "AND", pyast.BitOr: "OR"}
CMP = {pyast.Eq: "=", pyast.NotEq: "!=", pyast.Lt: "<", pyast.LtE: "<=", pyast.Gt: ">", pyast.GtE: ">=",
       pyast.Is: "==", pyast.In: "in"}


def shape(S, text):
    return conv(S, pyast.parse(text, mode="eval").body)


def conv(S, n):
    if isinstance(n, pyast.Name):
        return S.col("$" + n.id)
    if isinstance(n, pyast.Constant):
        v = n.value
        if isinstance(v, bool):
            return S.bool(v)
        if isinstance(v, int):
            return S.int(v)
        if isinstance(v, float):
            return S.dbl(v)
        if v is None:
            return S.null()
        if v.startswith("w:"):
            return S.wild(v[2:])
        if v.startswith("f:"):
            return S.col(v[2:])
        if v.startswith("n:"):
            return S.int("$" + v[2:])
        if v.startswith("d:"):
            return S.dbl("$" + v[2:])
        if v.startswith("b:"):
            return S.bool("$" + v[2:])
        if v.startswith("c:"):
            return S.cidr(v[2:])
        if v.startswith("v:"):
            return S.variable(v[2:])
        m = re.match(r"t:([^,@|]*)\|([^|]*)\|(.*)$", v)
        if m:       # t:-1,days|hours|+2,minutes
            def sp(x):
                if not x:
                    return None
                a, b = x.split(",")
                return S.span("$" + a[1:] if a.startswith("$") else int(a), b)
            return None
        if v.startswith("snap:"):
            a, b, c = v[5:].split("|")

            def sp(x):
                if not x:
                    return None
                p, q = x.split(",")
                return S.span(p if p.startswith("$") else int(p), q)
            return S.snap_e(sp(a), b, sp(c))
        if v.startswith("span:"):
            p, q = v[5:].split(",")
            return S.span_e(p if p.startswith("$") else int(p), q)
        return S.str(v)
    if isinstance(n, pyast.Call):
        return S.call(n.func.id.rstrip("_"), *[conv(S, a) for a in n.args])
    if isinstance(n, pyast.BinOp):
        return S.bin(conv(S, n.left), BIN[type(n.op)], conv(S, n.right))
    if isinstance(n, pyast.Compare):
        r = n.comparators[0]
        if isinstance(n.ops[0], pyast.In):
            return S.isin("$" + n.left.id, *[conv(S, x) for x in r.elts])
        return S.bin(conv(S, n.left), CMP[type(n.ops[0])], conv(S, r))
    if isinstance(n, pyast.UnaryOp) and isinstance(n.op, pyast.USub) and isinstance(n.operand, pyast.Constant):
        v = n.operand.value
        return S.int(-v) if isinstance(v, int) else S.dbl(-v)
    if isinstance(n, pyast.UnaryOp):
        return S.un({pyast.Not: "NOT", pyast.USub: "-", pyast.UAdd: "+"}[type(n.op)], conv(S, n.operand))
    if isinstance(n, pyast.BoolOp):
        op = "AND" if isinstance(n.op, pyast.And) else "OR"
        out = conv(S, n.values[0])
        for x in n.values[1:]:
            out = S.bin(out, op, conv(S, x))
        return out
    if isinstance(n, pyast.Subscript):      # expr[alias]
        return S.alias(conv(S, n.value), "$" + n.slice.id if isinstance(n.slice, pyast.Name) else n.slice.value.removeprefix("f:"))
    raise ValueError(pyast.dump(n))


def want(text):
    """$x -> F.col('⟨x⟩')"""
    if text == "ERROR":
        return text
    return re.sub(r"\$([a-z][a-z0-9]*)", r"F.col('⟨\1⟩')", text)


def table(text):
    """lines 'lhs => rhs' (comments #, continuation lines indented)"""
    out = []
    for ln in text.splitlines():
        if not ln.strip() or ln.lstrip().startswith("#"):
            continue
        if ln.startswith(" ") and out:
            out[-1][1] += " " + ln.strip()
            continue
        a, _, b = ln.partition(" => ")
        out.append([a.strip(), b.strip()])
    return out
