"""T16: the object model of the syntax tree as Python sees it (registration, construction, reading, equality, hashing).

Everything is read off the expanded, type-checked program: what #[pymodule], #[pyclass] and #[pymethods] generate is code
like any other, so the rules hold for hand-written and generated members alike."""
import re

from absint import V, app, lit, mkadt, alts
from emit import Frame_
from facts import AnalysisError

C = "spl_transpiler::"
NAME = re.compile(r"spl_transpiler(?:::\w+)+")
STR = "alloc::string::String"


def nodes(x):
    st = [x]
    while st:
        y = st.pop()
        if isinstance(y, dict):
            yield y
            st.extend(y.values())
        elif isinstance(y, list):
            st.extend(y)


def short(t):
    return t.split("::")[-1]


class Model:
    def __init__(self, F):
        self.F = F
        self.adts = {k: v for k, v in F.adts.items() if k.startswith(C)}
        self.classes = {i["args"][0] for i in F.impls if i["trait"] == "pyo3::pyclass::PyClass"}
        self.impl = {}
        for i in F.impls:
            self.impl.setdefault((i["trait"], i["args"][0]), []).append(i)
        self.members = {}
        for b in F.bodies.values():
            t = b.get("impl_self")
            if t in self.classes and "thir" in b:
                self.members.setdefault(t, []).append(b)
        if len(self.classes) < 50:
            raise AnalysisError("anchor: only %d Python classes found" % len(self.classes))

    def method(self, trait, t, name):
        for i in self.impl.get((trait, t), []):
            for x in i["items"]:
                if x["name"] == name:
                    return i, self.F.bodies.get(x["id"])
        return None, None

    def field_types(self, t):
        a = self.adts.get(t)
        return [(v["name"], n, ty) for v in a["variants"] for n, ty, *_ in v["fields"]] if a else []

    def getters(self):
        """id of the wrapper of a hand-written getter -> name of the attribute it is registered under"""
        if not hasattr(self, "_getters"):
            self._getters = {}
            for b in self.F.bodies.values():
                if b.get("fname") != "ITEMS" or "thir" not in b:
                    continue
                for n in nodes(b["thir"]):
                    fn = n.get("fn")
                    if isinstance(fn, dict) and fn.get("p", "").endswith("PyGetterDef::new"):
                        name = n["a"][0].get("v")
                        name = bytes(name).decode("utf8", "replace") if isinstance(name, list) else str(name)
                        for m in nodes(n["a"][1]):
                            if m.get("k") == "Fn" and isinstance(m.get("fn"), dict):
                                self._getters[m["fn"].get("rid") or m["fn"]["id"]] = name.rstrip("\0")
        return self._getters

    def reachable(self, root):
        seen, todo = {root}, [root]
        while todo:
            for _, _, ty in self.field_types(todo.pop()):
                for n in NAME.findall(ty):
                    if n in self.adts and n not in seen:
                        seen.add(n)
                        todo.append(n)
        return seen

    def mentions(self, b, t, depth=0, seen=None):
        """the fields of t that a body, or the crate's functions it calls, looks at"""
        seen = set() if seen is None else seen
        if b["id"] in seen or depth > 6:
            return set()
        seen.add(b["id"])
        out, whole = set(), set()
        for n in nodes(b["thir"]):
            if n.get("k") == "Field" and n.get("adt") == t:
                out.add(n["f"])
            elif n.get("k") in ("Variant", "Leaf", "Adt", "Struct") and n.get("adt") == t:
                for f in n.get("f") or []:
                    p = f[1] if isinstance(f, list) else f
                    if isinstance(p, dict) and p.get("k") not in (None, "Wild", "_"):
                        out.add(f[0] if isinstance(f, list) else f.get("name"))
            fn = n.get("fn")
            if isinstance(fn, dict):
                for k in ("rid", "id"):
                    c = self.F.bodies.get(fn.get(k) or "")
                    if c is not None and "thir" in c:
                        out |= self.mentions(c, t, depth + 1, seen)
                        break
            if n.get("k") == "Closure":
                c = self.F.bodies.get(n.get("id") or "")
                if c is not None and "thir" in c:
                    out |= self.mentions(c, t, depth + 1, seen)
        return out


def model(ctx):
    if not hasattr(ctx, "_pymodel"):
        ctx._pymodel = Model(ctx.F)
    return ctx._pymodel


def registry(ctx, rep):
    """every class a tree returned by parse() can contain is an attribute of the ast module, and of no other type"""
    M = model(ctx)
    root = ctx.E.adtpath("Pipeline", "::spl::ast")
    want = {t for t in M.reachable(root) if t in M.classes}
    got, sites = set(), 0
    for b in ctx.F.bodies.values():
        if "thir" not in b or b["id"].startswith("pyo3"):
            continue
        for n in nodes(b["thir"]):
            fn = n.get("fn")
            if isinstance(fn, dict) and fn.get("ga") and re.search(r"::(add_class|get_type|get_type_bound)$", fn.get("p", "")) \
                    and "pyclass" not in n.get("sp", []) and fn["ga"][-1] in M.classes:
                sites += 1
                got.add(fn["ga"][-1])
    rep.count("classes_reachable_from_a_tree", len(want))
    rep.count("registrations", sites)
    if sites < 10:
        raise AnalysisError("anchor: %d add_class calls" % sites)
    for t in sorted(want):
        if t in got:
            rep.ok("registered " + t)
        else:
            rep.violation("not registered: %s" % t, "parse() can return a tree holding a %s, but no Python module offers "
                          "that class: it can be neither imported, built nor tested for with isinstance" % short(t),
                          "module initialisation")


def args_of(b):
    return [((p.get("pat") or {}).get("v") or "").split(".")[0] for p in b["thir"]["params"]]


def constructors(ctx, rep):
    """what a constructor is given under a name is what the node holds under that name; what a getter of a name returns
    is what the node holds under that name"""
    M = model(ctx)
    I = ctx.E.interp()
    I = ctx.E.I
    n = g = 0
    every = M.reachable(ctx.E.adtpath("Pipeline", "::spl::ast"))
    for t in sorted(M.classes):
        a = M.adts.get(t)
        if not a or a["kind"] != "Struct" or "pyclass" in a["span"]:     # pyo3's own class for an enum's variant
            continue
        fs = [f for _, f, _ in M.field_types(t)]
        named = not all(f.isdigit() for f in fs)
        taken = set()
        for b in M.members.get(t, []):
            if b.get("impl_trait") or b.get("gen") or "::{" in b["path"].split(">::")[-1]:
                continue
            names = args_of(b)
            f = M.getters().get(b["id"])
            if f is not None:
                if f not in fs:
                    continue
                g += 1
                target = getter_target(M, b, t)
                if target is None:
                    rep.undecided("%s.%s" % (short(t), f), "getter without a method")
                    continue
                me = mkadt(t, short(t), tuple((x, V("sym", "held " + x)) for x in fs))
                r = I.enter(target, [me], {}, Frame_(target), target["path"])
                for gd, v in alts(r):
                    if v is V("sym", "held " + f):
                        rep.ok("%s.%s reads %s" % (short(t), f, f))
                    elif v.k == "sym":
                        rep.violation("%s.%s reads another field" % (short(t), f), "the getter of %s returns %s" %
                                      (f, v.a[0]), target["path"])
                    else:
                        rep.undecided("%s.%s" % (short(t), f), "getter returns %r" % v)
            if b["fname"] == "__pymethod___new____":
                target = new_target(M, b, t)
                if target is None:
                    rep.undecided("%s()" % short(t), "constructor without a method")
                    continue
                names = args_of(target)
                r = I.enter(target, [V("sym", "given " + x) for x in names], {}, Frame_(target), target["path"])
                n += 1
                for gd, v in alts(r):
                    if v.k == "adt" and v.a[0].endswith("Result") and v.a[1] == "Ok":
                        v = v.a[2][0][1]
                    if v.k != "adt" or v.a[0] != t:
                        rep.undecided("%s()" % short(t), "constructor returns %r" % v)
                        continue
                    taken |= set(names)
                    for f, x in v.a[2]:
                        key = "%s(%s)" % (short(t), f if named else "")
                        exp = f if named else names[0] if len(names) == 1 else None
                        if x is V("sym", "given %s" % exp):
                            rep.ok(key)
                        elif x.k in ("sym", "lit") or (x.k == "adt" and not x.a[2]) or changed(x):
                            rep.violation("%s is not what was given" % key, "the node holds %r as its %s" % (x, f),
                                          target["path"])
                        else:
                            rep.undecided(key, "field is %r" % x)
        # what a node holds under a name (or its constructor takes by name) can be read by that name
        if named and (taken or t in every):
            shown = exposed(M, t)
            for f in fs if t in every else sorted(taken & set(fs)):
                if f in shown:
                    rep.ok("%s.%s readable" % (short(t), f))
                else:
                    rep.violation("%s.%s unreadable" % (short(t), f), "a node holds %s but its class has no attribute of "
                                  "that name" % f, t)
            for f, held in sorted(shown.items()):
                if held is not None and held != f:
                    rep.violation("%s.%s reads another field" % (short(t), f), "attribute %s gives field %s" % (f, held), t)
    rep.count("constructors", n)
    rep.count("getter_methods", g)


def changed(x):
    """a text function known to change its argument, applied to what was given"""
    return x.k == "app" and re.fullmatch(r"str:(to_(ascii_)?(lower|upper)case|trim\w*|replace\w*|strip\w*)", x.a[0]) \
        and any(y.k == "sym" for y in x.a[1])


def callees(b):
    """functions of the crate that the body (or the arguments it hands on) names"""
    out = []
    for n in nodes(b["thir"]):
        for k in ("fn", "f"):
            f = n.get(k)
            if isinstance(f, dict) and ("rid" in f or "id" in f):
                out.append(f)
        if n.get("k") in ("FnRef", "Fn", "ZST") and n.get("id"):
            out.append(n)
    return out


def local(M, b, t, pred):
    found = []
    own = {x["id"]: x for x in M.members.get(t, [])}
    todo, seen = [b], set()
    while todo:
        x = todo.pop()
        if x["id"] in seen:
            continue
        seen.add(x["id"])
        for f in callees(x):
            for k in ("rid", "id"):
                c = own.get(f.get(k))
                if c is not None and not c["fname"].startswith("__py"):
                    found.append(c)
        for n in nodes(x["thir"]):
            if n.get("k") == "Closure" and n.get("id") in M.F.bodies:
                todo.append(M.F.bodies[n["id"]])
    found = [c for c in found if pred(c)]
    return found[0] if len({c["id"] for c in found}) == 1 else None


def getter_target(M, b, t):
    return local(M, b, t, lambda c: not c.get("impl_trait") and len(c["thir"]["params"]) == 1)


def new_target(M, b, t):
    return local(M, b, t, lambda c: not c.get("impl_trait"))


def exposed(M, t):
    """attribute name -> field it shows (None: a method decides, checked separately)"""
    out = {}
    for b in M.members.get(t, []):
        if b["id"] in M.getters():
            out[M.getters()[b["id"]]] = None
    i, items = M.method("pyo3::impl_::pyclass::PyClassImpl", t, "items_iter")
    if i is None:
        return out
    base = i["id"] + "::items_iter::"
    fs = [f for _, f, _ in M.field_types(t)]
    names, offs = [], []
    for b in sorted((b for k, b in M.F.bodies.items() if k.startswith(base)), key=lambda b: (b["span"][1], b["id"])):
        if "thir" not in b:
            continue
        m = re.search(r"INTRINSIC_ITEMS::\{closure#(\d+)\}$", b["id"])
        if m:
            s = [n for n in nodes(b["thir"]) if n.get("k") == "Lit" and isinstance(n.get("v"), (str, list))]
            for n in s:
                v = n["v"]
                if isinstance(v, list):
                    v = bytes(v).decode("utf8", "replace")
                names.append((int(m.group(1)), v.rstrip("\0")))
        m = re.search(r"INTRINSIC_ITEMS::\{impl#(\d+)\}::offset::\{constant#0\}$", b["id"])
        if m:
            ints = [n["v"] for n in nodes(b["thir"]) if n.get("k") == "Lit" and isinstance(n.get("v"), int)]
            offs.append((int(m.group(1)), ints[-1] if ints else None))
    names.sort()
    offs.sort()
    if len(names) == len(offs):
        for (_, nm), (_, o) in zip(names, offs):
            out[nm] = fs[o] if o is not None and o < len(fs) else None
    else:
        for _, nm in names:
            out[nm] = None
    return out


LISTS = [((1, 2), (2, 1)), ((1, 2), (1, 2, 2)), ((1, 1, 2), (1, 2, 2)), ((1,), ()), ((1, 2), (1, 3)), ((3, 1), (2, 1))]
PAIRS = {STR: [("A", "a"), ("a", "a "), ("1", "01"), ("", "a"), ("a", "b")], "i64": [(1, 2), (-1, 1), (0, 1)],
         "u64": [(1, 2), (0, 1)], "bool": [(True, False)]}


def equality(ctx, rep):
    """two nodes are equal exactly when all their parts are, and equal nodes have equal hashes"""
    M = model(ctx)
    ctx.E.interp()
    I = ctx.E.I
    derived = 0
    root = ctx.E.adtpath("Pipeline", "::spl::ast")
    every = M.reachable(root)
    for t in sorted(every):
        fs = sorted({f for _, f, _ in M.field_types(t)})
        ie, eq = M.method("core::cmp::PartialEq", t, "eq")
        ih, hs = M.method("core::hash::Hash", t, "hash")
        if ie is None or ih is None:
            if t in M.classes:
                rep.violation("%s has no equality" % short(t), "class without PartialEq or Hash: trees holding it cannot be "
                              "compared by value", t)
            continue
        de = bool(ie.get("derived")) and (len(ie["span"]) > 3 and ie["span"][3] == "PartialEq")
        dh = bool(ih.get("derived")) and (len(ih["span"]) > 3 and ih["span"][3] in ("Hash", "FloatHash"))
        derived += de + dh
        me = set(fs) if de else M.mentions(eq, t) if eq and "thir" in eq else None
        mh = set(fs) if dh else M.mentions(hs, t) if hs and "thir" in hs else None
        if me is None or mh is None:
            rep.undecided(short(t), "body of eq or hash not available")
            continue
        miss = [f for f in fs if f not in me]
        if miss:
            rep.violation("%s ignores %s" % (short(t), ", ".join(miss)), "two %s differing only in %s compare equal" %
                          (short(t), ", ".join(miss)), eq["path"])
        else:
            rep.ok("%s compares every part" % short(t))
        extra = sorted(mh - me)
        if extra:
            rep.violation("%s hashes %s, which equality ignores" % (short(t), ", ".join(extra)), "equal nodes have different "
                          "hashes", hs["path"])
        else:
            rep.ok("%s hashes what it compares" % short(t))
        if not dh:
            for n in nodes(hs["thir"]):
                fn = n.get("fn")
                if isinstance(fn, dict) and fn.get("p", "").endswith("::to_bits") and bare(n["a"][0]):
                    rep.violation("%s hashes the bits of a float" % short(t), "0.0 == -0.0 but their bits differ: equal nodes "
                                  "have different hashes", hs["path"])
        if not de and M.adts[t]["kind"] == "Struct":
            by_values(M, I, rep, t, eq)
    rep.count("types_compared", len(every))
    rep.count("compiler_derived_comparisons", derived)


def bare(e):
    while isinstance(e, dict) and e.get("k") in ("Ref", "Deref", "Use", "Scope", "Field", "Var", "Block", "Coerce"):
        if e["k"] == "Var":
            return True
        if e["k"] == "Block" and e.get("st"):
            return False
        e = e.get("e")
    return False


def by_values(M, I, rep, t, eq):
    fields = M.field_types(t)
    for _, f, ty in fields:
        for x, y in LISTS if ty.startswith("alloc::vec::Vec<") else PAIRS.get(ty, []):
            def node(v):
                v = V("arr", tuple(lit(q) for q in v)) if isinstance(v, tuple) else lit(v)
                return mkadt(t, short(t), tuple((n, v if n == f else V("sym", "same " + n)) for n, *_ in
                                                [(q, w) for _, q, w in fields]))
            r = I.enter(eq, [node(x), node(y)], {}, Frame_(eq), eq["path"])
            bad = [v for _, v in alts(r) if v is lit(True)]
            if bad:
                rep.violation("%s: %s %r equals %r" % (short(t), f, x, y), "two different nodes compare equal", eq["path"])
            else:
                rep.ok("%s %s %r != %r" % (short(t), f, x, y))
