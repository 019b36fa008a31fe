"""What a translation may depend on: an effect analysis of the type-checked program and of the Python package."""
import ast
import os
import re

from facts import AnalysisError

SOURCES = [
    (r"^(std::time::(SystemTime|Instant)|chrono::|time::|std::time::.*::now)", "the time"),
    (r"^std::env::", "the environment"),
    (r"^(rand|rand_core|fastrand|getrandom|uuid|oorandom|nanorand)::", "random numbers"),
    (r"^std::(thread|process|fs|net|io)::", "the state of the system"),
    (r"^(std|core)::hash::random::RandomState|RandomState as ", "random hash seeds"),
    (r"^core::fmt::rt::Argument::<'_>::new_pointer|::addr$|::expose_provenance$", "addresses in memory"),
    (r"^core::fmt::Pointer::fmt|<.* as core::fmt::Pointer>", "addresses in memory"),
]
MUTABLE = r"\b(Atomic\w*|Mutex|RwLock|RefCell|Cell|UnsafeCell|LocalKey|LazyCell|DashMap|ArcSwap\w*)\b"
INIT_ONCE = r"\b(LazyLock|Lazy|lazy_static|GILOnceCell|LazyTypeObject|LazyStaticType)\b"
ORDERED = {"iter", "iter_mut", "into_iter", "keys", "values", "values_mut", "into_keys", "into_values", "drain", "union", "intersection",
           "difference", "symmetric_difference"}
HASHED = re.compile(r"^&*(mut )?(std::collections::(hash::)?(map|set|hash_map|hash_set)?(::)?(HashMap|HashSet)|hashbrown::.*(HashMap|HashSet)|std::collections::hash::(map|set)::)")
ADAPTERS = {"map", "filter", "filter_map", "cloned", "copied", "chain", "flat_map", "inspect", "flatten", "into_iter", "by_ref", "peekable", "deref",
            "iter", "as_ref", "borrow"}
ANY_ORDER = {"all", "any", "count", "len", "sum", "product", "min", "max", "is_empty", "contains", "size_hint", "contains_key", "is_subset"}


def generated(b):
    """made by a derive or attribute macro of pyo3 and the like"""
    sp = b.get("span") or []
    return len(sp) > 3 and sp[3] in ("pyclass", "pymethods", "pymodule", "pyfunction", "derive", "FromPyObject", "IntoPyObject")


def tests(b):
    return "::tests::" in b["path"]


def nodes(x):
    if isinstance(x, dict):
        if "k" in x:
            yield x
        for v in x.values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


def parents(root):
    out = {}

    def go(x, up):
        if isinstance(x, dict):
            if "k" in x:
                if up is not None:
                    out[id(x)] = up
                up = x
            for v in x.values():
                go(v, up)
        elif isinstance(x, list):
            for v in x:
                go(v, up)
    go(root, None)
    return out


def called(n):
    f = n.get("fn")
    return f.get("p", "") if n.get("k") == "Call" and isinstance(f, dict) else ""


def variables(x):
    return {str(n.get("v")) for n in nodes(x) if n["k"] == "Var"}


def bound(n):
    """the variables a binding pattern introduces"""
    return set(re.findall(r"'v': '([^']+)'", str(n.get("pat", ""))))


def sorted_later(root, vs):
    for n in nodes(root):
        p = called(n)
        if re.search(r"::(sort|sort_unstable|sort_by|sort_by_key|sort_unstable_by|sort_unstable_by_key|sort_by_cached_key)$", p) and variables(n["a"][0]) & vs:
            return True
    return False


def statement_of(n, up):
    while id(n) in up and up[id(n)].get("k") not in ("Block",) and "pat" not in n:
        n = up[id(n)]
    return n


def let_of(root, n):
    """the variables of the let statement or assignment whose right hand side contains the node"""
    best = None

    def go(x):
        nonlocal best
        if isinstance(x, dict):
            if "pat" in x and any(isinstance(v, dict) and any(m is n for m in nodes(v)) for k, v in x.items() if k in ("init", "e", "i")):
                best = x
            elif x.get("k") == "Assign" and any(m is n for m in nodes(x.get("r", x.get("e")))):
                best = x
            for v in x.values():
                go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)
    go(root)
    if best is None:
        return set()
    return bound(best) if "pat" in best else variables(best.get("l", {}))


def unordered(root):
    """iterations over hash tables: [(node, "any order" | "sorted" | "order used" | "unknown", what)]"""
    up = parents(root)
    for n in nodes(root):
        p = called(n)
        m = p.rsplit("::", 1)[-1]
        if p.endswith("::new_debug") and any(HASHED.match(str(g)) for g in n["fn"].get("ga") or []):
            yield n, "order used", "debug text of a hash table"
            continue
        if m in ("from_iter", "extend", "append") and n.get("a") and HASHED.match(str(n["a"][-1].get("ty", ""))):
            into = str(n.get("ty", "")) if m == "from_iter" else str(n["a"][0].get("ty", ""))
            vs = let_of(root, n) if m == "from_iter" else variables(n["a"][0])
            yield n, "any order" if re.search(r"(HashMap|HashSet|BTreeMap|BTreeSet)<", into) else "sorted" if vs and sorted_later(root, vs) else \
                "order used", p
            continue
        if m not in ORDERED or not n.get("a") or not HASHED.match(str(n["a"][0].get("ty", ""))):
            continue
        x = n
        while True:
            q = up.get(id(x))
            if q is None:
                yield n, "unknown", p
                break
            if q.get("k") in ("Ref", "Deref", "Scope", "Use", "Borrow") or q.get("k") == "Call" and q.get("a") and q["a"][0] is x and \
                    called(q).rsplit("::", 1)[-1] in ADAPTERS:
                x = q
                continue
            name = called(q).rsplit("::", 1)[-1]
            ty = str(q.get("ty", ""))
            if q.get("k") == "Call" and (name in ANY_ORDER or name in ("collect", "from_iter", "extend") and re.search(
                    r"(HashMap|HashSet|BTreeMap|BTreeSet)<", ty + (str(q["a"][0].get("ty", "")) if name == "extend" else ""))):
                yield n, "any order", p
            elif q.get("k") == "Call" and name in ("sorted", "sorted_by", "sorted_by_key", "sorted_unstable"):
                yield n, "sorted", p
            elif q.get("k") == "Call" and name in ("collect", "from_iter", "extend"):
                vs = variables(q["a"][0]) if name == "extend" else let_of(root, q)
                yield n, "sorted" if vs and sorted_later(root, vs) else "order used", p
            elif q.get("k") == "Call" and name in ("join", "fold", "try_fold", "reduce", "next", "last", "find", "find_map", "position", "enumerate",
                                                   "zip", "take", "skip", "nth", "rev", "concat", "format"):
                yield n, "order used", p
            else:
                grown = [set(variables(c["a"][0])) for c in nodes(q) if re.search(r"::(push|push_str|append|extend|write_str|write_fmt|insert_str)$", called(c))
                         and c.get("a") and not HASHED.match(str(c["a"][0].get("ty", "")))]
                if grown and q.get("k") in ("Match", "Loop"):
                    yield n, "sorted" if all(sorted_later(root, g) for g in grown) else "order used", p
                else:
                    yield n, "unknown", p
            break


def constant(x):
    """a function or closure that uses nothing of where it stands"""
    return not any(n["k"] == "Var" for n in nodes(x)) and not any(n["k"] == "Closure" and n.get("up") for n in nodes(x))


def label(b):
    return re.sub(r"<impl [^>]*? for ([\w:]+)>", r"\1", b["path"])[-110:]


def rust(ctx, rep):
    """nothing the crate does depends on anything but its arguments"""
    n = 0
    statics = {}
    for b in ctx.F.bodies.values():
        if generated(b) or tests(b):
            continue
        n += 1
        bad = []
        for x in nodes(b["thir"]):
            p = called(x)
            for rx, what in SOURCES:
                if p and re.search(rx, p):
                    bad.append(("%s asks %s" % (label(b), p), "the translation depends on %s" % what))
            if re.search(r"::(OnceLock|OnceCell)(::)?<.*>::(set|try_insert|get_mut|take)$", p) or re.search(
                    r"::(OnceLock|OnceCell)(::)?<.*>::(get_or_init|get_or_try_init|get_mut_or_init)$", p) and not (
                    "pyo3::" in p or constant(x["a"][-1])):
                bad.append(("%s fills %s" % (label(b), p), "the first translation decides a value that later ones use"))
            if x["k"] == "Cast" and re.match(r"^\*", str((x.get("e") or {}).get("ty", ""))) and re.fullmatch(r"[ui](size|64|128)", str(x.get("ty"))):
                bad.append(("%s takes an address" % label(b), "the translation depends on addresses in memory"))
        for x, how, p in unordered(b["thir"]):
            rep.count("hash_table_iterations")
            key = "%s iterates with %s" % (label(b), p)
            if how == "order used":
                bad.append((key, "the elements of a hash table come in an order that differs from run to run, and the result keeps it"))
            elif how == "unknown":
                rep.undecided(key, "what becomes of the order of a hash table's elements")
            else:
                rep.ok(key, how)
        if b["kind"].startswith(("Static", "Const")):
            root = b["thir"]["body"]
            ty = str(root.get("ty") or "")
            if b["kind"].startswith("Static") or "LocalKey" in ty:
                statics[b["path"]] = ty
                if "mutability: Mut" in b["kind"] or re.search(MUTABLE, ty) and not re.search(INIT_ONCE, ty.split("<")[0]):
                    bad.append(("static %s" % label(b), "what one translation leaves there (%s) the next one finds" % ty[:120]))
        for k, why in bad:
            rep.violation(k, why, b["path"])
        if not bad:
            rep.ok(b["path"], "no effect")
    if n < 500:
        raise AnalysisError("bodies of the crate: %d" % n)
    rep.count("bodies_analysed", n)
    rep.count("statics", len(statics))


PY_SOURCES = {"time", "random", "secrets", "uuid", "datetime", "socket", "getpass", "platform"}


def python(ctx, rep):
    """the Python side of a translation (macros, runtime) depends on nothing else either"""
    root = os.path.join(ctx.repo, "python", "spl_transpiler")
    seen = 0
    for d, _, fs in sorted(os.walk(root)):
        for fn in sorted(fs):
            rel = os.path.relpath(os.path.join(d, fn), root)
            if not fn.endswith(".py") or rel in ("live_translator.py", "__main__.py", "utils.py", "runtime/magic.py", "runtime/utils.py"):
                continue
            tree = ast.parse(open(os.path.join(d, fn), encoding="utf8").read())
            seen += 1
            bad = []
            top = {t.id for s in tree.body for t in (s.targets if isinstance(s, ast.Assign) else [])
                   if isinstance(t, ast.Name) and isinstance(s.value, (ast.Dict, ast.List, ast.Set, ast.Call))}
            for n in ast.walk(tree):
                if isinstance(n, (ast.Import, ast.ImportFrom)):
                    ms = [a.name for a in n.names] if isinstance(n, ast.Import) else [n.module or ""] if not n.level else []
                    for m in ms:
                        if m.split(".")[0] in PY_SOURCES:
                            bad.append(("%s imports %s" % (rel, m), "the result depends on more than the query"))
                if isinstance(n, ast.Global):
                    bad.append(("%s assigns global %s" % (rel, ", ".join(n.names)), "what one call leaves there the next one finds"))
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("id", "hash") and len(n.args) == 1:
                    bad.append(("%s calls %s()" % (rel, n.func.id), "the value differs from run to run"))
                if isinstance(n, ast.Attribute) and n.attr in ("environ", "getenv", "urandom") and isinstance(n.value, ast.Name) and n.value.id == "os":
                    bad.append(("%s reads os.%s" % (rel, n.attr), "the result depends on the environment"))
            for f in [x for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]:
                local = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs} | {
                    t.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) for t in [x]}
                for n in ast.walk(f):
                    tgt = None
                    if isinstance(n, (ast.Assign, ast.AugAssign)):
                        for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                            if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                                tgt = t.value.id
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in (
                            "append", "add", "update", "setdefault", "pop", "extend", "insert", "clear", "remove"):
                        tgt = n.func.value.id
                    if tgt in top and tgt not in local:
                        bad.append(("%s %s changes %s" % (rel, f.name, tgt), "what one call leaves there the next one finds"))
                    # a set's elements come in any order: where they are iterated, something must sort them
                    its = [n.iter] if isinstance(n, (ast.For, ast.comprehension)) else []
                    for it in its:
                        if isinstance(it, (ast.Set, ast.SetComp)) or isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("set", "frozenset"):
                            bad.append(("%s %s iterates over a set" % (rel, f.name), "its elements come in an order that differs from run to run"))
                a = f.args
                for dv in a.defaults + [x for x in a.kw_defaults if x is not None]:
                    if isinstance(dv, (ast.List, ast.Dict, ast.Set)):
                        nm = [p.arg for p in a.args][-len(a.defaults):]
                        if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in nm and
                               n.func.attr in ("append", "update", "add", "extend", "setdefault", "insert", "pop") for n in ast.walk(f)):
                            bad.append(("%s %s changes its default argument" % (rel, f.name), "what one call leaves there the next one finds"))
            for k, why in bad:
                rep.violation(k, why, "python/spl_transpiler/" + rel)
            if not bad:
                rep.ok(rel, "no effect")
    if seen < 12:
        raise AnalysisError("modules of the Python package: %d" % seen)
