"""Compact text of syntax-tree values."""
import json

from absint import litval
from emit import Undecided
from parse import NAMES

SIMPLE = {"IntValue", "DoubleValue", "BoolValue"}


def holes(s):
    for c, (n, _) in NAMES.items():
        if c in s:
            s = s.replace(c, "⟨%s⟩" % n)
    return s


def text(v):
    """syntax-tree value -> text, with field names; wrappers that carry no information are left out"""
    k = v.k
    if k == "lit":
        x = v.a[1]
        if isinstance(x, str) and v.a[0] == "str":
            return holes(json.dumps(x, ensure_ascii=False))
        return str(x)
    if k == "tup":
        return "(" + ", ".join(text(x) for x in v.a[0]) + ")"
    if k == "arr":
        return "[" + ", ".join(text(x) for x in v.a[0]) + "]"
    if k == "phi":
        return "EITHER{" + " | ".join(sorted({text(x) for _, x in v.a[0]})) + "}"
    if k == "fmt":
        return "+".join(json.dumps(p) if isinstance(p, str) else text(p) for p in v.a[0])
    if k == "app":
        if v.a[0] == "num":
            return holes(litval(v.a[1][0]))
        if v.a[0].startswith("cast:"):
            return text(v.a[1][0])
        if v.a[0] == "bin:Mul" and len(v.a[1]) == 2:
            for x, y in (v.a[1], v.a[1][::-1]):
                if x.k == "lit" and x.a[1] in (1, -1):
                    return ("" if x.a[1] == 1 else "-") + text(y)
        if v.a[0] == "un:Neg" or v.a[0].rsplit("::", 1)[-1] in ("wrapping_neg", "neg") and len(v.a[1]) == 1:
            t = text(v.a[1][0])
            return t[1:] if t.startswith("-") else "-" + t
        if v.a[0] == "bin:Sub" and litval(v.a[1][0]) in (0, 0.0):
            t = text(v.a[1][1])
            return t[1:] if t.startswith("-") else "-" + t
        if v.a[0] == "bin:Div" and litval(v.a[1][1]) in (1, -1):
            return ("" if litval(v.a[1][1]) == 1 else "-") + text(v.a[1][0])
        if not v.a[0].startswith(("bin:", "str:")):
            raise Undecided("not evaluated: " + v.a[0])
        return v.a[0].replace("bin:", "") + "(" + ", ".join(text(x) for x in v.a[1]) + ")"
    if k != "adt":
        raise Undecided("not evaluated: " + str(v)[:100])
    name = v.a[0].rsplit("::", 1)[-1]
    fs = v.a[2]
    if name == "Option":
        return "None" if v.a[1] == "None" else text(fs[0][1])
    only = fs[0][1] if len(fs) == 1 and fs[0][0] == "0" else None
    if name in SIMPLE and only is not None:
        return text(only)
    if name == "Field" and only is not None:
        return "field " + text(only)
    if name == "StrValue" and only is not None:
        return text(only)
    if v.a[1] != name:      # enum variant
        if only is not None:
            inner = only.a[0].rsplit("::", 1)[-1] if only.k == "adt" else ""
            if name in ("Expr", "LeafExpr", "Command", "Constant", "FieldLike", "FieldOrAlias") and inner not in ("", "Option"):
                return text(only)
            return "%s(%s)" % (v.a[1], text(only))
        name = v.a[1]
        if not fs:
            return name
    if name == "Binary":
        d = dict(fs)
        return "(%s %s %s)" % (text(d["left"]), litval(d["symbol"]) or text(d["symbol"]), text(d["right"]))
    if name == "Unary":
        d = dict(fs)
        return "(%s %s)" % (litval(d["symbol"]) or text(d["symbol"]), text(d["right"]))
    if name == "Call":
        d = dict(fs)
        a = d["args"]
        return "%s(%s)" % (holes(str(litval(d["name"]))) if d["name"].k == "lit" else text(d["name"]), text(a)[1:-1])
    if name == "Pipeline":
        c = dict(fs)["commands"]
        return " | ".join(text(x) for x in c.a[0]) if c.k == "arr" else text(c)
    return "%s(%s)" % (name, ", ".join(("%s=%s" % (n, text(x)) if not n.isdigit() else text(x)) for n, x in fs))
