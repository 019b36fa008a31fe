#!/usr/bin/env python3
"""Writes checks/data/pyspark_api.json: the signatures of the PySpark API, read from the installed package's source."""
import ast
import json
import os
import re
import sys

PS = "/opt/spl-venv/lib/python3.12/site-packages/pyspark/sql"
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checks", "data", "pyspark_api.json")


def kinds(n):
    """annotation -> set of accepted literal kinds, None = anything"""
    if n is None:
        return None
    s = ast.unparse(n).replace('"', "").replace("'", "")
    if re.search(r"Callable|Any\b|Tvf|Iterable\[", s):
        return None
    out = set()
    for w in re.findall(r"[A-Za-z_.]+", s):
        w = w.split(".")[-1]
        m = {"ColumnOrName": ["COL", "STR"], "ColumnOrNameOrOrdinal": ["COL", "STR", "INT"], "Column": ["COL"],
             "str": ["STR"], "int": ["INT"], "float": ["FLOAT", "INT"], "bool": ["BOOL"], "None": ["NONE"],
             "Optional": ["NONE"], "List": ["LIST"], "list": ["LIST"], "Sequence": ["LIST"], "Tuple": ["LIST"],
             "Dict": ["DICT"], "Mapping": ["DICT"], "LiteralType": ["STR", "INT", "FLOAT", "BOOL", "NONE"],
             "DataFrame": ["DF"], "Union": [], "self": [], "DecimalLiteral": [], "DateTimeLiteral": []}.get(w)
        if m is None:
            return None
        out |= set(m)
    if "LIST" in out or "DICT" in out:
        # element types are not checked: keep only what is accepted at the top level
        return sorted(out | {"COL", "STR", "INT"}) if "List" not in s else sorted(out)
    return sorted(out)


def sig(f, method):
    a = f.args
    pos = a.posonlyargs + a.args
    if method:
        pos = pos[1:]
    nd = len(a.defaults)
    ps = [[p.arg, i < len(pos) - nd, kinds(p.annotation)] for i, p in enumerate(pos)]
    kw = [[p.arg, d is None, kinds(p.annotation)] for p, d in zip(a.kwonlyargs, a.kw_defaults)]
    r = ast.unparse(f.returns).strip("'\"") if f.returns else ""
    return {"params": ps, "kwonly": kw, "vararg": bool(a.vararg), "varkinds": kinds(a.vararg.annotation) if a.vararg else
            None, "varkw": bool(a.kwarg), "ret": r}


def overload(f):
    return any("overload" in ast.unparse(d) for d in f.decorator_list)


def defs(body, method):
    out = {}
    for f in body:
        if isinstance(f, ast.FunctionDef) and not overload(f) and (not f.name.startswith("_") or f.name == "__getitem__"):
            s = sig(f, method)
            s["prop"] = any(ast.unparse(d) == "property" for d in f.decorator_list)
            out[f.name] = s
        elif isinstance(f, ast.Assign) and method and isinstance(f.targets[0], ast.Name) and isinstance(f.value, ast.Name):
            if f.value.id in out:
                out[f.targets[0].id] = out[f.value.id]
    return out


def cls(fn, name):
    t = ast.parse(open(os.path.join(PS, fn)).read())
    for n in t.body:
        if isinstance(n, ast.ClassDef) and n.name == name:
            return defs(n.body, True)
    sys.exit("no class " + name)


def main():
    src = ast.parse(open(PS + "/functions/builtin.py").read())
    F = defs(src.body, False)
    init = open(PS + "/functions/__init__.py").read()
    groups, cur = {}, None
    for ln in init.splitlines():
        m = re.match(r"    # ([A-Z].*) Functions?\b", ln)
        if m:
            cur = m.group(1)
        m = re.match(r'    "(\w+)",', ln)
        if m and cur:
            groups.setdefault(cur, []).append(m.group(1))
    api = {"version": re.search(r"'([\d.]+)'", open(PS + "/../version.py").read()).group(1), "F": F,
           "aggregates": groups["Aggregate"], "Column": cls("column.py", "Column"),
           "DataFrame": cls("dataframe.py", "DataFrame"), "GroupedData": cls("group.py", "GroupedData"),
           "SparkSession": cls("session.py", "SparkSession")}
    json.dump(api, open(OUT, "w"), indent=0, sort_keys=True)
    print({k: len(v) for k, v in api.items()})


main()
