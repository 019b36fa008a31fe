"""Abstract interpreter over THIR: evaluates a function body to a *term* describing its result.

Values are hash-consed terms.  Unknown inputs stay symbolic, calls to local functions are inlined
(bounded, never recursively), calls to unknown functions stay as uninterpreted applications,
branches on unknown conditions join into `phi` terms whose alternatives carry the branch guard,
and loop-carried variables widen to `loop` terms.  Nothing is executed and no solver is used.
"""
import re
import sys

sys.setrecursionlimit(100000)


class TooBig(Exception):
    """A value outgrew the domain; the enclosing call is summarised as opaque."""


class V:
    __slots__ = ("k", "a", "i", "__weakref__")
    tab = {}

    def __new__(cls, k, *a):
        key = (k,) + a
        v = cls.tab.get(key)
        if v is None:
            v = object.__new__(cls)
            v.k = k
            v.a = a
            v.i = len(cls.tab)
            cls.tab[key] = v
        return v

    def __repr__(self):
        return show(self)


INTS = {s + str(b): (b, s == "i") for s in "iu" for b in (8, 16, 32, 64, 128)}
INTS.update(usize=(64, False), isize=(64, True))
NEVER = V("never")
UNIT = V("tup", ())


def lit(x):
    # bool/int must not collide in the intern table
    return V("lit", type(x).__name__, x)


def constval(j):
    """value of a constant evaluated by the compiler"""
    if isinstance(j, dict):
        return V("adt", j["adt"], j["variant"], tuple((n, constval(x)) for n, x in j["fields"]))
    return lit(j) if j is not None else app("const?")


def litval(v):
    return v.a[1] if v.k == "lit" else None


def excluded(v, c):
    """the symbol is assumed different from this constant (a separately analysed case)"""
    return v.k == "sym" and len(v.a) > 2 and c in v.a[2]


def is_str(v):
    return v.k == "lit" and v.a[0] == "str"


def app(name, *args):
    return V("app", name, tuple(args))


def adt(path, variant, **f):
    return V("adt", path, variant, tuple(f.items()))


def mkadt(path, variant, fields):
    return V("adt", path, variant, tuple(fields))


RES, OPT = "core::result::Result", "core::option::Option"


def Ok(v):
    return mkadt(RES, "Ok", (("0", v),))


def Err(v):
    return mkadt(RES, "Err", (("0", v),))


def Some(v):
    return mkadt(OPT, "Some", (("0", v),))


NONE = mkadt(OPT, "None", ())


def fields(v):
    return dict(v.a[2])


MAXALT = 160
MAXGUARD = 16


def _gsize(g):
    n = 0
    st = [g]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            n += 1
            if n > 60:
                return n
            st.extend(x)
    return n


def gtrim(g):
    """Guards are documentation plus a may-filter: bound their size so joins stay cheap."""
    if len(g) > MAXGUARD:
        g = g[:MAXGUARD]
    if _gsize(g) > 60:
        g = tuple(x for x in g if _gsize(x) <= 12)
    return g


def phi(alts):
    """alts: list of (guard, V). Flattens, drops never, dedups by value."""
    out = []
    seen = {}
    for g, v in alts:
        if v is NEVER:
            continue
        sub = v.a[0] if v.k == "phi" else (((), v),)
        for g2, v2 in sub:
            j = seen.get(v2.i)
            if j is not None:
                og = out[j][0]
                if og:
                    gg = set(g) | set(g2)
                    out[j] = (tuple(x for x in og if x in gg), v2)
            else:
                gg = gtrim(g + tuple(x for x in g2 if x not in g)) if g2 else gtrim(g)
                seen[v2.i] = len(out)
                out.append((gg, v2))
    if not out:
        return NEVER
    if len(out) == 1:
        return out[0][1]
    if len(out) > MAXALT:
        raise TooBig("join of %d alternatives" % len(out))
    return V("phi", tuple(out))


def alts(v):
    return v.a[0] if v.k == "phi" else (((), v),)


def show(v, d=0, maxd=14):
    if d > maxd:
        return "…"
    k = v.k
    r = lambda x: show(x, d + 1, maxd)
    if k == "lit":
        return repr(v.a[1])
    if k == "adt":
        f = v.a[2]
        n = v.a[0].split("::")[-1] + ("" if v.a[1] == v.a[0].split("::")[-1] else "::" + v.a[1])
        return n + ("{" + ", ".join("%s: %s" % (a, r(b)) for a, b in f) + "}" if f else "")
    if k == "tup":
        return "(" + ", ".join(map(r, v.a[0])) + ")"
    if k == "arr":
        return "[" + ", ".join(map(r, v.a[0])) + "]"
    if k == "app":
        return "%s(%s)" % (v.a[0].replace("spl_transpiler::", "").replace("core::", ""), ", ".join(map(r, v.a[1])))
    if k == "sym":
        return "$" + v.a[0]
    if k == "fld":
        return "%s.%s" % (r(v.a[0]), v.a[1])
    if k == "vfld":
        return "%s<%s>.%s" % (r(v.a[0]), v.a[2], v.a[3])
    if k == "phi":
        return "φ{" + " | ".join(r(x) for g, x in v.a[0]) + "}"
    if k == "fmt":
        return "f\"" + "".join(p if isinstance(p, str) else "{" + r(p) + "}" for p in v.a[0]) + "\""
    if k == "clo":
        return "λ" + v.a[0].split("::")[-2]
    if k == "fn":
        return "fn:" + v.a[0].replace("spl_transpiler::", "")
    if k == "elem":
        return "elem(%s)" % r(v.a[0])
    if k == "each":
        return "each(%s → %s)" % (r(v.a[0]), r(v.a[1]))
    if k == "loop":
        return "loop(%s, %s)" % (r(v.a[1]), v.a[0])
    return k + str(len(v.a))


def subterms(v, seen=None):
    seen = set() if seen is None else seen
    st = [v]
    while st:
        x = st.pop()
        if not isinstance(x, V) or x.i in seen:
            continue
        seen.add(x.i)
        yield x
        st.extend(children(x))


def children(x):
    k = x.k
    if k in ("lit", "sym", "never", "loopvar"):
        return []
    if k == "adt":
        return [b for _, b in x.a[2]]
    if k in ("tup", "arr"):
        return list(x.a[0])
    if k == "app":
        return list(x.a[1])
    if k == "phi":
        return [b for _, b in x.a[0]]
    if k == "fmt":
        return [p for p in x.a[0] if isinstance(p, V)]
    if k == "clo":
        return [b for _, b in x.a[1]]
    return [c for c in x.a if isinstance(c, V)]


def fmt(pieces):
    """Normalise a format template: nested fmt and string literals are spliced."""
    out = []

    def add(p):
        if isinstance(p, V):
            if p.k == "fmt":
                for q in p.a[0]:
                    add(q)
                return
            if p.k == "lit" and p.a[0] in ("str", "int"):
                p = str(p.a[1])
            elif p.k == "lit" and p.a[0] == "bool":
                p = "true" if p.a[1] else "false"
        if isinstance(p, str):
            if not p:
                return
            if out and isinstance(out[-1], str):
                out[-1] += p
                return
        out.append(p)
    for p in pieces:
        add(p)
    if not out:
        return lit("")
    if len(out) == 1 and isinstance(out[0], str):
        return lit(out[0])
    return V("fmt", tuple(out))


def decode_template(bs):
    """core::fmt::Arguments template bytes -> list of str | int(arg index)."""
    out, i, nxt = [], 0, 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode("utf8", "replace"))
            i += b
        elif b == 0x80:
            n = bs[i] | bs[i + 1] << 8
            i += 2
            out.append(bytes(bs[i:i + n]).decode("utf8", "replace"))
            i += n
        else:
            if b & 1:
                i += 4
            if b & 2:
                i += 2
            if b & 4:
                i += 2
            if b & 8:
                nxt = bs[i] | bs[i + 1] << 8
                i += 2
            out.append(nxt)
            nxt += 1
    return out


class Frame:
    def __init__(self, body, tsub, depth):
        self.body = body
        self.tsub = tsub
        self.depth = depth
        self.env = {}
        self.pc = ()
        self.returns = []     # (pc, V, env)
        self.loops = []       # stack of lists of (pc, env, V)


PANICS = re.compile(r"core::panicking::|std::panicking::|std::rt::begin_panic|core::option::(unwrap|expect)_failed|core::result::unwrap_failed")


def concrete_len(l):
    return not any(x.k in ("loopvar", "never") for x in l.a[0])


def _hashed(ty):
    return re.match(r"(&(mut )?|&'[a-z_]+ (mut )?)?std::collections::hash::", ty) is not None


def _unordered(I, v):
    """the elements of a hash table come in any order: represented by two of them"""
    def one(v):
        if v.k == "arr" and len(v.a[0]) > 1:
            return phi([((("hash-order", v, 0),), v), ((("hash-order", v, 1),), V("arr", v.a[0][::-1]))])
        return v
    return over(I, v, one)


def _mut_view(n):
    """a call that only gives another view of the place in its first argument"""
    if n["k"] != "Call" or not n.get("a"):
        return False
    f = n.get("fn")
    return isinstance(f, dict) and str(f.get("p", "")).rsplit("::", 1)[-1] in (
        "deref_mut", "as_mut_slice", "as_mut", "borrow_mut", "by_ref", "as_mut_str", "iter_mut")


IDENT_METHODS = {
    # callee path -> returns its first argument unchanged (views, ownership moves, text copies)
    "core::clone::Clone::clone", "alloc::boxed::Box::<T>::new", "core::ops::deref::Deref::deref",
    "core::ops::deref::DerefMut::deref_mut",
    "alloc::string::String::as_str", "alloc::borrow::ToOwned::to_owned", "core::convert::AsRef::as_ref",
    "core::borrow::Borrow::borrow", "core::hint::must_use", "core::iter::traits::collect::IntoIterator::into_iter",
    "core::slice::<impl [T]>::iter", "core::iter::traits::iterator::Iterator::cloned",
    "core::iter::traits::iterator::Iterator::copied", "core::option::Option::<&T>::cloned",
    "core::option::Option::<T>::as_ref", "core::option::Option::<T>::as_deref",
    "core::result::Result::<T, E>::as_ref",
    "alloc::slice::<impl [T]>::to_vec", "alloc::vec::Vec::<T, A>::as_slice", "alloc::slice::<impl [T]>::into_vec",
    "alloc::vec::Vec::<T, A>::into_boxed_slice", "core::iter::traits::iterator::Iterator::by_ref",
    "core::iter::traits::iterator::Iterator::peekable", "anyhow::__private::must_use",
    "alloc::boxed::box_assume_init_into_vec_unsafe", "core::option::Option::<T>::as_mut",
    "core::iter::traits::iterator::Iterator::into_iter", "core::slice::<impl [T]>::iter_mut",
    "alloc::string::String::into_boxed_str",
    "core::option::Option::<&T>::copied", "core::mem::drop_in_place",
}



def is_int(v):
    return v.k == "lit" and isinstance(v.a[1], int) and not isinstance(v.a[1], bool)


STRINGY = {"&str", "alloc::string::String", "&alloc::string::String", "&&str", "&mut alloc::string::String",
           "alloc::boxed::Box<str>", "char", "&char"}
PARSE_CALLS = {"core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call",
               "core::ops::function::FnOnce::call_once"}


def _in_range(v, text):
    """concrete value against a pattern such as '0'..='7' or 1..=5; None when undecidable"""
    import ast
    if v.k != "lit" or isinstance(v.a[1], bool):
        return None
    lo, sep, hi = text.partition("..=") if "..=" in text else text.partition("..")

    def num(x):
        x = x.strip()
        m = re.match(r"^-?[0-9_]+", x)
        try:
            return int(m.group(0)) if m else ast.literal_eval(x) if x else None
        except (ValueError, SyntaxError):
            raise KeyError(x)
    try:
        a, b = num(lo), num(hi)
        return (a is None or a <= v.a[1]) and (b is None or (v.a[1] <= b if sep == "..=" else v.a[1] < b))
    except (TypeError, KeyError):
        return None


class Interp:
    def __init__(self, F, max_depth=24, opaque=(), watch=None, fuel=4000000):
        self.F = F
        self.max_depth = max_depth
        self.opaque = set(opaque)       # local fn paths never inlined
        self.stack = []
        self.watch = watch              # callback(fnref, args, value, frame, node)
        self.fuel = fuel
        self.memo = {}
        self.widened = []
        self.models = {}
        self.effects = 0
        self.inline_ok = lambda b: True
        self.tcache = {}
        self.rec_limit = 30
        self.frames = []
        self.panics = {}        # (function, what) -> [(case, conditions)] under which it is reached
        self.label = lambda: ""
        self.rec_kinds = ("adt", "tup", "arr")      # a recursive call is unfolded only on such an argument
        self.clo_limit = 12

    def compared(self, how, text, other):
        """two known texts are compared (hook for texts with holes)"""

    # ------------------------------------------------------------------ entry points
    def panic(self, what, fr):
        """a construct that ends the program is reached"""
        pc = tuple(g for f in self.frames for g in f.pc) + (() if self.frames and self.frames[-1] is fr else tuple(fr.pc))
        self.panics.setdefault((fr.body.get("path", "?"), what), []).append((self.label(), pc))

    def call_body(self, b, args, tsub=None, captured=None, depth=0):
        th = b["thir"]
        if not th:
            return app(b["path"], *args)
        fr = Frame(b, tsub or {}, depth)
        if captured:
            fr.env.update(captured)
        params = th["params"]
        if b["kind"] == "Closure":
            ps = [p for p in params if p["pat"] is not None]
            if len(ps) < len(params) and not ps and len(params) > len(args):
                ps = []
        else:
            ps = params
        for p, a in zip(ps, args):
            if p["pat"] is not None:
                self.bind(p["pat"], a, fr)
        self.stack.append(b["id"])
        self.frames.append(fr)
        try:
            v = self.ev(th["body"], fr)
        finally:
            self.stack.pop()
            self.frames.pop()
        rs = [(pc, x) for pc, x, _ in fr.returns]
        out = phi(rs + [(fr.pc, v)]) if rs else v
        # final environment, for by-&mut arguments
        is_err = lambda x: x.k == "adt" and x.a[0] == RES and x.a[1] == "Err"
        envs = [e for _, x, e in fr.returns if not is_err(x)] + ([fr.env] if v is not NEVER and not is_err(v) else [])
        if not envs:
            envs = [e for _, _, e in fr.returns] + ([fr.env] if v is not NEVER else [])
        mut = []
        for p, a in zip(ps, args):
            pat = p["pat"]
            m = None
            if pat is not None and pat["k"] == "Bind" and p["ty"].startswith("&mut "):
                m = phi([((), e[pat["v"]]) for e in envs if pat["v"] in e])
            mut.append(m)
        self.last_mut = mut
        self.last_env = envs
        return out

    def eval_fn(self, body, args=None, tsub=None):
        b = body if isinstance(body, dict) else self.F.one(body)
        if args is None:
            args = [V("sym", self.pname(p, i), p["ty"]) for i, p in enumerate(b["thir"]["params"])]
        return self.call_body(b, args, tsub)

    @staticmethod
    def pname(p, i):
        pat = p["pat"]
        if pat and pat["k"] == "Bind":
            return pat["v"].split(".")[0]
        return "arg%d" % i

    # ------------------------------------------------------------------ patterns
    def bind(self, pat, v, fr):
        r = self.match(pat, v)
        if r is not None:
            fr.env.update(r[0])

    def match(self, pat, v):
        """None if the pattern cannot match; else (bindings, guards). guards==() means surely."""
        k = pat["k"]
        if k == "_" or k == "Other":
            return {}, ()
        if k == "Bind":
            b, g = {}, ()
            if "p" in pat:
                r = self.match(pat["p"], v)
                if r is None:
                    return None
                b, g = r
                b = dict(b)
            b[pat["v"]] = v
            return b, g
        if k == "Or":
            rs = [(p, self.match(p, v)) for p in pat["a"]]
            rs = [r for p, r in rs if r is not None]
            if not rs:
                return None
            for r in rs:
                if r[1] == ():
                    return r
            b = {}
            for key in rs[0][0]:
                b[key] = phi([(r[1], r[0][key]) for r in rs if key in r[0]])
            return b, (("or",) + tuple(r[1] for r in rs),)
        if k == "Const":
            if v.k == "lit":
                if v.a[1] == pat["v"] and type(v.a[1]) == type(pat["v"]):
                    return {}, ()
                if type(v.a[1]) == type(pat["v"]):
                    if isinstance(pat["v"], str):
                        self.compared("eq", v.a[1], pat["v"])
                    return None
            if excluded(v, pat["v"]):
                return None
            return {}, (("eq", v, pat["v"]),)
        if k == "Range":
            r = _in_range(v, pat["d"])
            if r is not None:
                return ({}, ()) if r else None
            return {}, (("range", v, pat["d"]),)
        if k == "Variant":
            if v.k == "adt" and v.a[0] == pat["adt"]:
                if v.a[1] != pat["v"]:
                    return None
                fs = dict(v.a[2])
                return self.match_fields(pat["f"], lambda n: fs.get(n) or V("fld", v, n), ())
            adtp, var = pat["adt"], pat["v"]
            return self.match_fields(pat["f"], lambda n: V("vfld", v, adtp, var, n),
                                     (("is", v, adtp, var),))
        if k == "Leaf":
            if v.k == "adt":
                fs = dict(v.a[2])
                return self.match_fields(pat["f"], lambda n: fs.get(n) or V("fld", v, n), ())
            if v.k == "tup":
                return self.match_fields(pat["f"], lambda n: v.a[0][int(n)] if int(n) < len(v.a[0]) else V("fld", v, n), ())
            return self.match_fields(pat["f"], lambda n: self.field(v, n), ())
        if k == "Slice":
            n = len(pat["pre"]) + len(pat["suf"])
            if v.k == "arr":
                L = len(v.a[0])
                if pat["mid"] is None and L != n or L < n:
                    return None
                b, g = {}, ()
                seq = list(zip(pat["pre"], v.a[0])) + list(zip(pat["suf"], v.a[0][L - len(pat["suf"]):]))
                if pat["mid"] is not None:
                    seq.append((pat["mid"], V("arr", tuple(v.a[0][len(pat["pre"]):L - len(pat["suf"])]))))
            else:
                g = ((("len==" if pat["mid"] is None else "len>="), v, n),)
                b = {}
                seq = [(p, V("fld", v, str(i))) for i, p in enumerate(pat["pre"])]
                seq += [(p, V("fld", v, str(i - len(pat["suf"])))) for i, p in enumerate(pat["suf"])]
                if pat["mid"] is not None:
                    seq.append((pat["mid"], app("subslice", v, lit(len(pat["pre"])))))
            b = {}
            for p, x in seq:
                r = self.match(p, x)
                if r is None:
                    return None
                b.update(r[0])
                g = g + r[1]
            return b, g
        return {}, (("?", k),)

    def match_fields(self, fs, get, g):
        b = {}
        for n, p in fs:
            r = self.match(p, get(n))
            if r is None:
                return None
            b.update(r[0])
            g = g + r[1]
        return b, g

    def field(self, v, f):
        if v.k == "adt":
            for n, x in v.a[2]:
                if n == f:
                    return x
        if v.k == "tup" and f.isdigit() and int(f) < len(v.a[0]):
            return v.a[0][int(f)]
        if v.k == "phi":
            return phi([(g, self.field(x, f)) for g, x in v.a[0]])
        return V("fld", v, f)

    # ------------------------------------------------------------------ environments
    @staticmethod
    def merge_env(parts):
        """parts: list of (guard, env)"""
        if not parts:
            return None
        if len(parts) == 1:
            return parts[0][1]
        keys = set()
        for _, e in parts:
            keys |= e.keys()
        base = {}
        for k in keys:
            vals = [(g, e[k]) for g, e in parts if k in e]
            first = vals[0][1]
            if all(x is first for _, x in vals):
                base[k] = first
            else:
                base[k] = phi(vals)
        return base

    # ------------------------------------------------------------------ expressions
    def ev(self, e, fr):
        if e is None:
            return UNIT
        self.fuel -= 1
        if self.fuel < 0:
            raise RuntimeError("abstract interpreter out of fuel in " + fr.body["path"])
        return getattr(self, "x_" + e["k"])(e, fr)

    def x_Coerce(self, e, fr):
        return self.ev(e["e"], fr)

    x_Deref = x_Ref = x_RawRef = x_Coerce

    def x_Cast(self, e, fr):
        v = self.ev(e["e"], fr)
        if v is NEVER:
            return v
        if v.k == "lit":
            if v.a[0] == "int" and e["ty"] in INTS:
                bits, signed = INTS[e["ty"]]
                x = v.a[1] & ((1 << bits) - 1)
                return lit(x - (1 << bits) if signed and x >> (bits - 1) else x)
            return v
        return app("cast:" + e["ty"], v) if e["ty"] != e["e"].get("ty") else v

    def x_Lit(self, e, fr):
        if e.get("bytes"):
            return V("lit", "bytes", tuple(e["v"]))
        if e.get("float"):
            return V("lit", "float", e["v"])
        return lit(e["v"])

    def x_Var(self, e, fr):
        v = fr.env.get(e["v"])
        return v if v is not None else V("sym", e["v"].split(".")[0], e["ty"])

    def x_Fn(self, e, fr):
        f = e.get("fn")
        if not f:
            return app("zst:" + e["ty"])
        return self.fnval(f, fr)

    def fnval(self, f, fr):
        ga = tuple(self.tsubst(t, fr) for t in f.get("ga", ()))
        if "rid" in f:
            return V("fn", f["p"], f["id"], ga, f.get("tr") or "", f["rp"], f["rid"],
                     tuple(self.tsubst(t, fr) for t in f.get("rga", ())))
        return V("fn", f["p"], f["id"], ga, f.get("tr") or "")

    def x_Const(self, e, fr):
        if e.get("v") is not None:
            return constval(e["v"])
        tr, _, name = e["p"].rpartition("::")
        if tr in self.F.impl_by_trait and e.get("ga"):
            # associated constant of the (now known) implementing type
            im = self.find_impl(tr, [self.tsubst(t, fr) for t in e.get("ga", ())])
            it = next((x for x in im["items"] if x["name"] == name), None) if im else None
            if it is not None:
                if it.get("val") is not None:
                    return constval(it["val"])
                b = self.F.bodies.get(it["id"])
                if b and b["thir"]:
                    return self.call_body(b, [], {}, depth=fr.depth + 1)
        b = self.F.bodies.get(e["id"])
        if b and b["thir"] and b["id"] not in self.stack:
            return self.call_body(b, [], dict(fr.tsub), depth=fr.depth + 1)
        # associated const with generic Self
        return V("app", "const:" + e["p"], tuple(V("sym", t, "type") for t in
                                                 [self.tsubst(t, fr) for t in e.get("ga", ())]))

    def x_ConstBlock(self, e, fr):
        return app("constparam")

    x_Tls = x_ConstBlock

    def x_ConstParam(self, e, fr):
        t = fr.tsub.get(e.get("name"))
        if t in ("true", "false"):
            return lit(t == "true")
        if t is not None and t.lstrip("-").isdigit():
            return lit(int(t))
        return V("sym", e.get("name") or "const", "const")

    def x_Static(self, e, fr):
        b = self.F.bodies.get(e["id"])
        if b and b["thir"] and b["id"] not in self.stack:
            return self.call_body(b, [], {}, depth=fr.depth + 1)
        return app("static:" + e["p"])

    def x_Other(self, e, fr):
        return app("other")

    def x_Tuple(self, e, fr):
        xs = tuple(self.ev(x, fr) for x in e["a"])
        return NEVER if any(x is NEVER for x in xs) else V("tup", xs)

    def x_Array(self, e, fr):
        xs = tuple(self.ev(x, fr) for x in e["a"])
        return NEVER if any(x is NEVER for x in xs) else V("arr", xs)

    def x_Repeat(self, e, fr):
        v = self.ev(e["e"], fr)
        return v if v is NEVER else app("repeat", v)

    def x_Adt(self, e, fr):
        fs = [(n, self.ev(x, fr)) for n, x in e["f"]]
        if any(x is NEVER for _, x in fs):
            return NEVER
        if "base" in e:
            base = self.ev(e["base"], fr)
            have = {n for n, _ in fs}
            a = self.F.adts.get(e["adt"])
            if a:
                for n, _, _ in a["variants"][0]["fields"]:
                    if n not in have:
                        fs.append((n, self.field(base, n)))
        a = self.F.adts.get(e["adt"])
        if a:   # canonical field order
            for v in a["variants"]:
                if v["name"] == e["v"]:
                    order = {n: i for i, (n, _, _) in enumerate(v["fields"])}
                    fs.sort(key=lambda x: order.get(x[0], 99))
        return mkadt(e["adt"], e["v"], fs)

    def x_Field(self, e, fr):
        return self.field(self.ev(e["e"], fr), e["f"])

    def x_Index(self, e, fr):
        l, i = self.ev(e["l"], fr), self.ev(e["i"], fr)
        return self.index(l, i, fr)

    def index(self, l, i, fr=None):
        if l.k == "arr" and i.k == "lit" and i.a[0] == "int" and i.a[1] >= len(l.a[0]) and fr is not None and concrete_len(l):
            self.panic("index %d of a sequence of %d" % (i.a[1], len(l.a[0])), fr)
        if l.k == "arr" and i.k == "lit" and i.a[0] == "int" and i.a[1] < len(l.a[0]):
            return l.a[0][i.a[1]]
        if i.k == "lit" and i.a[0] == "int":
            return V("fld", l, str(i.a[1]))
        if i.k == "adt" and ".Range" in i.a[0].replace("::", ".") and (is_str(l) or l.k == "fmt"):
            r = self.slice_text(l, dict(i.a[2]))
            if r is not None:
                return r
        return app("index", l, i)

    @staticmethod
    def slice_text(l, f):
        """text[a..b], text[a..], text[..len - k] of a literal or of a template with literal ends"""
        a = litval(f["start"]) if "start" in f else 0
        e = f.get("end")
        cut = 0
        if not isinstance(a, int):
            return None
        if e is not None:
            if is_str(l) and isinstance(litval(e), int):
                return lit(l.a[1].encode()[a:litval(e)].decode("utf8", "replace"))
            if e.k == "app" and e.a[0] == "bin:Sub" and e.a[1][0].k == "app" and e.a[1][0].a[0] == "str:len" \
                    and e.a[1][0].a[1][0] is l and isinstance(litval(e.a[1][1]), int):
                cut = litval(e.a[1][1])
            elif not (e.k == "app" and e.a[0] == "str:len" and e.a[1][0] is l):
                return None
        ps = [l.a[1]] if is_str(l) else list(l.a[0])
        if a and not (isinstance(ps[0], str) and len(ps[0]) >= a):
            return None
        if a:
            ps[0] = ps[0][a:]
        if cut:
            if not (isinstance(ps[-1], str) and len(ps[-1]) >= cut):
                return None
            ps[-1] = ps[-1][:-cut]
        return fmt(ps)

    def x_Closure(self, e, fr):
        cap = tuple(sorted(((k, v) for k, v in fr.env.items()), key=lambda x: x[0]))
        # keep only variables the closure mentions
        b = self.F.bodies.get(e["id"])
        used = self.closure_vars(e["id"])
        cap = tuple((k, v) for k, v in cap if k in used)
        ts = tuple(sorted(fr.tsub.items()))
        return V("clo", e["id"], cap, ts)

    def closure_vars(self, cid, cache={}):
        key = (id(self.F), cid)
        if key in cache:
            return cache[key]
        from facts import walk
        out = set()
        b = self.F.bodies.get(cid)
        if b and b["thir"]:
            for n in walk(b["thir"]):
                if n["k"] == "Var":
                    out.add(n["v"])
                elif n["k"] == "Closure":
                    out |= self.closure_vars(n["id"])
        cache[key] = out
        return out

    def x_Bin(self, e, fr):
        l = self.ev(e["l"], fr)
        r = self.ev(e["r"], fr) if l is not NEVER else NEVER
        if r is NEVER:
            return NEVER
        op = e["op"]
        if l.k == "phi" or r.k == "phi":
            if len(alts(l)) * len(alts(r)) <= 24:
                return phi([(g1 + g2, self.binop(op, a, b)) for g1, a in alts(l) for g2, b in alts(r)])
        return self.binop(op, l, r)

    @staticmethod
    def binop(op, l, r):
        if l.k == "lit" and r.k == "lit":
            a, b = l.a[1], r.a[1]
            if "float" in (l.a[0], r.a[0]) and not isinstance(a, bool) and not isinstance(b, bool):
                try:
                    x, y = float(a), float(b)
                    if op in ("Add", "Sub", "Mul", "Div"):
                        return V("lit", "float", repr(x + y if op == "Add" else x - y if op == "Sub" else x * y if op == "Mul" else x / y))
                    if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                        return lit({"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
                except (ValueError, ZeroDivisionError, OverflowError):
                    return app("bin:" + op, l, r)
            try:
                if op == "Eq": return lit(a == b)
                if op == "Ne": return lit(a != b)
                if isinstance(a, int) and isinstance(b, int):
                    if op == "Lt": return lit(a < b)
                    if op == "Le": return lit(a <= b)
                    if op == "Gt": return lit(a > b)
                    if op == "Ge": return lit(a >= b)
                    if op == "Add": return lit(a + b)
                    if op == "Sub": return lit(a - b)
                    if op == "Mul": return lit(a * b)
                if isinstance(a, bool) and isinstance(b, bool):
                    if op in ("BitAnd", "And"): return lit(a and b)
                    if op in ("BitOr", "Or"): return lit(a or b)
                    if op == "BitXor": return lit(a != b)
                elif isinstance(a, int) and isinstance(b, int) and b > 0 and a >= 0:
                    if op == "Div": return lit(a // b)
                    if op == "Rem": return lit(a % b)
            except Exception:
                pass
        return app("bin:" + op, l, r)

    def x_Un(self, e, fr):
        v = self.ev(e["e"], fr)
        if v.k == "lit" and e["op"] == "Not" and v.a[0] == "bool":
            return lit(not v.a[1])
        if v.k == "lit" and e["op"] == "Neg" and v.a[0] == "int":
            return lit(-v.a[1])
        return app("un:" + e["op"], v)

    def x_Logic(self, e, fr):
        """Value position (conditions are handled by `cond`)."""
        l = self.ev(e["l"], fr)
        if l.k == "lit":
            if e["op"] == "And" and l.a[1] is False or e["op"] == "Or" and l.a[1] is True:
                return l
            return self.ev(e["r"], fr)
        r = self.ev(e["r"], fr)
        return app("logic:" + e["op"], l, r)

    def x_LetE(self, e, fr):
        v = self.ev(e["e"], fr)
        r = self.match(e["pat"], v)
        if r is None:
            return lit(False)
        fr.env.update(r[0])
        if r[1] == ():
            return lit(True)
        return app("letmatch", v, V("guard", r[1]))

    def x_Block(self, e, fr):
        for s in e["st"]:
            if s["k"] == "S":
                if self.ev(s["e"], fr) is NEVER:
                    return NEVER
            else:
                if s.get("init") is None:
                    continue
                v = self.ev(s["init"], fr)
                if v is NEVER:
                    return NEVER
                r = self.match_multi(s["pat"], v)
                if "else" in s:
                    sure = r is not None and r[1] == ()
                    if not sure:
                        save = dict(fr.env)
                        pc = fr.pc
                        fr.pc = pc + (("letelse", v),)
                        self.ev(s["else"], fr)
                        fr.env, fr.pc = save, pc
                if r is None:
                    return NEVER
                fr.env.update(r[0])
        if e.get("e") is None:
            return UNIT
        return self.ev(e["e"], fr)

    def match_multi(self, pat, v):
        if v.k != "phi":
            return self.match(pat, v)
        rs = []
        for g, x in v.a[0]:
            r = self.match(pat, x)
            if r is not None:
                rs.append((g, r))
        if not rs:
            return None
        keys = set()
        for _, r in rs:
            keys |= r[0].keys()
        b = {k: phi([(g, r[0][k]) for g, r in rs if k in r[0]]) for k in keys}
        if pat["k"] == "Bind" and "p" not in pat:
            b[pat["v"]] = v
        sure = len(rs) == len(v.a[0]) and all(r[1] == () for _, r in rs)
        return b, (() if sure else (("maybe", v),))

    def x_If(self, e, fr):
        """Condition with let-chains: evaluate, then branch."""
        base = dict(fr.env)
        pc = fr.pc
        t_env, t_g, f_g = self.cond(e["c"], fr)      # None => surely not that way
        parts, vals = [], []
        after_cond = dict(fr.env)
        if t_env is not None:
            fr.env = dict(t_env)
            fr.pc = pc + t_g
            v = self.ev(e["t"], fr)
            if v is not NEVER:
                parts.append((t_g, fr.env))
                vals.append((t_g, v))
        if f_g is not None:
            fr.env = dict(after_cond)
            fr.pc = pc + f_g
            v = self.ev(e["f"], fr) if e["f"] is not None else UNIT
            if v is not NEVER:
                parts.append((f_g, fr.env))
                vals.append((f_g, v))
        fr.pc = pc
        if not parts:
            fr.env = base
            return NEVER
        fr.env = self.merge_env(parts)
        return phi(vals)

    def cond(self, c, fr):
        """-> (env if true or None, true-guards, false-guards or None). fr.env updated with side effects."""
        while c["k"] == "Block" and not c["st"] and c.get("e"):
            c = c["e"]
        if c["k"] == "Un" and c["op"] == "Not":
            inner = c["e"]
            if not any(True for n in _walk(inner) if n["k"] == "LetE"):
                te, tg, fg = self.cond(inner, fr)
                env = fr.env
                return (dict(env) if fg is not None else None, fg or (), tg if te is not None else None)
        if c["k"] == "Logic" and c["op"] == "And":
            te, tg, fg = self.cond(c["l"], fr)
            if te is None:
                return None, (), fg
            save = fr.env
            fr.env = dict(te)
            te2, tg2, fg2 = self.cond(c["r"], fr)
            fr.env = save
            if fg is None:
                return te2, tg + tg2, fg2
            f = (("not", tg + tg2),) if fg2 is not None else fg
            return te2, tg + tg2, f
        if c["k"] == "Logic" and c["op"] == "Or":
            te, tg, fg = self.cond(c["l"], fr)
            if fg is None:
                return te, tg, None
            te2, tg2, fg2 = self.cond(c["r"], fr)
            if te is None:
                return te2, tg2, fg2
            if te2 is None:
                return te, tg, (fg + fg2 if fg2 is not None else None)
            env = self.merge_env([(tg, te), (tg2, te2)])
            return env, (("or", tg, tg2),), (None if fg2 is None else fg + fg2)
        if c["k"] == "LetE":
            v = self.ev(c["e"], fr)
            if v is NEVER:
                return None, (), None
            r = self.match_multi(c["pat"], v)
            if r is None:
                return None, (), ()
            env = dict(fr.env)
            env.update(r[0])
            g = r[1]
            if g == ():
                return env, (), None
            return env, g, (("not", g),)
        v = self.ev(c, fr)
        if v is NEVER:
            return None, (), None
        if v.k == "lit" and v.a[0] == "bool":
            return (dict(fr.env), (), None) if v.a[1] else (None, (), ())
        if v.k == "phi" and all(x.k == "lit" and x.a[0] == "bool" for _, x in v.a[0]):
            tg = [g for g, x in v.a[0] if x.a[1]]
            fg = [g for g, x in v.a[0] if not x.a[1]]
            return (dict(fr.env) if tg else None, (("or",) + tuple(tg),) if len(tg) > 1 else (tg[0] if tg else ()),
                    ((("or",) + tuple(fg),) if len(fg) > 1 else fg[0]) if fg else None)
        return dict(fr.env), (("true", v),), (("false", v),)

    def x_Match(self, e, fr):
        src = e["src"]
        if src == "TryDesugar":
            return self.try_(e, fr)
        if src == "ForLoopDesugar":
            return self.for_(e, fr)
        s = self.ev(e["e"], fr)
        if s is NEVER:
            return NEVER
        return self.match_arms(s, e["arms"], fr)

    def match_arms(self, s, arms, fr):
        vals, parts = [], []
        pc0, env0 = fr.pc, fr.env
        for sg, sv in alts(s):
            neg = ()
            for arm in arms:
                r = self.match(arm["pat"], sv)
                if r is None:
                    continue
                b, g = r
                fr.env = dict(env0)
                fr.env.update(b)
                gg = sg + g
                fr.pc = pc0 + gg + (neg if not g else ())
                sure = g == ()
                if arm["g"] is not None:
                    te, tg, fg = self.cond(arm["g"], fr)
                    if te is None:
                        continue
                    fr.env = te
                    gg = gg + tg
                    fr.pc = fr.pc + tg
                    sure = sure and fg is None
                v = self.ev(arm["b"], fr)
                if not g:
                    gg = gg + neg
                if v is not NEVER:
                    vals.append((gg, v))
                    parts.append((gg, fr.env))
                if sure:
                    break
                neg = neg + (("not", g if g else gg),)
        fr.pc = pc0
        if not parts:
            fr.env = env0
            return NEVER
        fr.env = self.merge_env(parts)
        return phi(vals)

    def try_(self, e, fr):
        c = e["e"]           # Try::branch(x)
        x = c["a"][0] if c["k"] == "Call" else c
        v = self.ev(x, fr)
        if v is NEVER:
            return NEVER
        ty = x.get("ty", "")
        is_opt = ty.startswith(OPT)
        good, goodname, badname, path = [], "Some" if is_opt else "Ok", "None" if is_opt else "Err", OPT if is_opt else RES
        for g, a in alts(v):
            if a.k == "adt" and a.a[0] == path:
                if a.a[1] == goodname:
                    good.append((g, a.a[2][0][1]))
                else:
                    bad = a if not is_opt else NONE
                    fr.returns.append((fr.pc + g, bad, dict(fr.env)))
            else:
                good.append((g, V("vfld", a, path, goodname, "0")))
                fr.returns.append((fr.pc + g + (("is", a, path, badname),),
                                   NONE if is_opt else Err(V("vfld", a, path, "Err", "0")), dict(fr.env)))
        return phi(good)

    # -- loops -----------------------------------------------------------------------------
    def assigned(self, node, cache={}):
        key = id(node)
        if key in cache:
            return cache[key][1]
        out = set()
        for n in _walk(node):
            if n["k"] in ("Assign", "AssignOp"):
                r = self.root(n["l"])
                if r:
                    out.add(r)
            elif n["k"] == "Ref" and n.get("mut"):
                r = self.root(n["e"])
                if r:
                    out.add(r)
            elif n["k"] == "Var" and n.get("ty", "").startswith("&mut "):
                out.add(n["v"])
            elif n["k"] == "Closure":
                b = self.F.bodies.get(n["id"])
                if b and b["thir"]:
                    out |= self.assigned(b["thir"])
        cache[key] = (node, out)
        return out

    @staticmethod
    def root(l):
        while True:
            if l["k"] in ("Field", "Index", "Deref", "Ref"):
                l = l.get("e") or l.get("l")
            elif _mut_view(l):
                l = l["a"][0]
            else:
                break
        return l["v"] if l["k"] == "Var" else None

    def run_loop(self, body_fn, node, fr, extra=()):
        """One widened pass: variables assigned in the loop become loop terms."""
        mv = [v for v in self.assigned(node) if v in fr.env]
        init = {v: fr.env[v] for v in mv}
        lid = "L%s" % (node.get("sp", ["", 0])[1])
        for v in mv:
            fr.env[v] = phi([((), init[v]), ((("loop", lid),), V("loopvar", lid, v))])
        fr.loops.append([])
        pc = fr.pc
        val = body_fn()
        exits = fr.loops.pop()
        ends = [(p, en) for p, en, _ in exits]
        if val is not NEVER:
            ends.append(((("loop", lid),), fr.env))
        return lid, init, ends, exits, pc

    def for_(self, e, fr):
        c = e["e"]
        coll = self.ev(c["a"][0] if c["k"] == "Call" else c, fr)
        if coll is NEVER:
            return NEVER
        # locate `Some(pat) => body`
        inner = None
        for n in _walk(e["arms"]):
            if n["k"] == "Match" and n["src"] == "ForLoopDesugar":
                inner = n
                break
        arm = None
        for a in inner["arms"]:
            if a["pat"]["k"] == "Variant" and a["pat"]["v"] == "Some":
                arm = a
        pat, body = arm["pat"]["f"][0][1], arm["b"]
        if coll.k == "phi" and len(coll.a[0]) <= 4 and all(self.elements(x) is not None for g, x in coll.a[0]) and not fr.loops:
            start, ends, pc = dict(fr.env), [], fr.pc
            for g, x in coll.a[0]:
                fr.env, fr.pc = dict(start), pc + g
                if self.for_over(x, pat, body, e, fr) is not NEVER:
                    ends.append((g, fr.env))
            fr.pc = pc
            if not ends:
                return NEVER
            fr.env = self.merge_env(ends)
            return UNIT
        return self.for_over(coll, pat, body, e, fr)

    def for_over(self, coll, pat, body, e, fr):
        concrete = self.elements(coll)
        if concrete is not None and len(concrete) <= 64:
            # unrolled over a literal collection
            fr.loops.append([])
            outs = []
            live = True
            for x in concrete:
                self.bind(pat, x, fr)
                v = self.ev(body, fr)
                ex = fr.loops[-1]
                conts = [en for p, en, t in ex if t == "continue"]
                fr.loops[-1] = [z for z in ex if z[2] != "continue"]
                if v is NEVER and not conts:
                    live = False
                    break
                fr.env = self.merge_env([((), en) for en in conts] + ([((), fr.env)] if v is not NEVER else []))
            ex = fr.loops.pop()
            envs = [((), en) for _, en, t in ex if t == "break"] + ([((), fr.env)] if live else [])
            if not envs:
                return NEVER
            fr.env = self.merge_env(envs)
            return UNIT
        el = self.elem(coll)

        def go():
            self.bind(pat, el, fr)
            fr.pc = fr.pc + (("for", coll),)
            return self.ev(body, fr)
        base = dict(fr.env)
        lid, init, ends, exits, pc = self.run_loop(go, body, fr)
        fr.pc = pc
        # after the loop: zero iterations, or the end of some iteration
        env = self.merge_env([((), base)] + ends)
        for v in init:
            step = phi([(p, en[v]) for p, en in ends if v in en])
            if step is NEVER or step is init[v]:
                env[v] = init[v]
            else:
                env[v] = V("loop", "for", init[v], step, coll)
        fr.env = env
        return UNIT

    def unroll(self, e, fr):
        """Runs a loop concretely while every iteration has exactly one outcome; None if that stops being so."""
        env0, pc0, nret = dict(fr.env), fr.pc, len(fr.returns)
        for _ in range(400):
            fr.loops.append([])
            val = self.ev(e["e"], fr)
            exits = fr.loops.pop()
            outs = [(t, en) for _, en, t in exits] + ([("next", fr.env)] if val is not NEVER else [])
            if len(outs) + (len(fr.returns) - nret) != 1:
                break
            if not outs:
                return NEVER
            t, en = outs[0]
            fr.env = en
            fr.pc = pc0
            if t == "break":
                return fr.env.pop("#break", UNIT)
            if any(v.k == "phi" for v in (fr.env.get(k) for k in self.assigned(e["e"])) if v is not None):
                break
        fr.env, fr.pc = env0, pc0
        del fr.returns[nret:]
        return None

    def x_Loop(self, e, fr):
        r = self.unroll(e, fr)
        if r is not None:
            return r
        lid, init, ends, exits, pc = self.run_loop(lambda: self.ev(e["e"], fr), e["e"], fr)
        fr.pc = pc
        brk = [(p, en) for p, en, t in exits if t == "break"]
        brkv = [(p, en.get("#break", UNIT)) for p, en in brk]
        if not brk:
            return NEVER
        env = self.merge_env(brk)
        for v in init:
            step = phi([(p, en[v]) for p, en in ends if v in en])
            if v in env and step is not NEVER and step is not init[v]:
                env[v] = phi([((), env[v]), ((), V("loop", "loop", init[v], step, UNIT))])
        fr.env = env
        fr.env.pop("#break", None)
        return phi(brkv)

    def x_Break(self, e, fr):
        v = self.ev(e["e"], fr) if e.get("e") is not None else UNIT
        en = dict(fr.env)
        en["#break"] = v
        if fr.loops:
            fr.loops[-1].append((fr.pc, en, "break"))
        return NEVER

    def x_Continue(self, e, fr):
        if fr.loops:
            fr.loops[-1].append((fr.pc, dict(fr.env), "continue"))
        return NEVER

    def x_Return(self, e, fr):
        v = self.ev(e["e"], fr) if e.get("e") is not None else UNIT
        if v is not NEVER:
            for g, x in alts(v):
                fr.returns.append((fr.pc + g, x, dict(fr.env)))
        return NEVER

    def x_Assign(self, e, fr):
        v = self.ev(e["r"], fr)
        self.assign(e["l"], v, fr)
        return NEVER if v is NEVER else UNIT

    def assign(self, l, v, fr):
        while l["k"] in ("Deref", "Ref") or _mut_view(l):
            l = l["a"][0] if l["k"] == "Call" else l["e"]
        if l["k"] == "Var":
            fr.env[l["v"]] = v
        elif l["k"] == "Field":
            old = self.ev(l["e"], fr)
            if old.k == "adt":
                new = mkadt(old.a[0], old.a[1], tuple((n, v if n == l["f"] else x) for n, x in old.a[2]))
            elif old.k == "tup":
                new = V("tup", tuple(v if str(i) == l["f"] else x for i, x in enumerate(old.a[0])))
            else:
                new = app("update:" + l["f"], old, v)
            self.assign(l["e"], new, fr)
        elif l["k"] == "Index":
            old = self.ev(l["l"], fr)
            self.assign(l["l"], app("update[]", old, v), fr)

    def x_AssignOp(self, e, fr):
        l, r = self.ev(e["l"], fr), self.ev(e["r"], fr)
        op = e["op"].replace("Assign", "")
        if l.k == "lit" and r.k == "lit" and isinstance(l.a[1], int) and isinstance(r.a[1], int):
            if op == "Add":
                self.assign(e["l"], lit(l.a[1] + r.a[1]), fr)
                return UNIT
            if op == "Sub":
                self.assign(e["l"], lit(l.a[1] - r.a[1]), fr)
                return UNIT
        self.assign(e["l"], app("bin:" + op, l, r), fr)
        return UNIT

    # -- collections -----------------------------------------------------------------------
    def elements(self, v):
        if v.k == "arr":
            return list(v.a[0])
        if v.k == "app" and v.a[0] == "iter:step_by" and v.a[1][0].k == "adt":
            r = v.a[1][0]
            f = dict(r.a[2])
            s, en, st = litval(f.get("start", UNIT)), litval(f.get("end", UNIT)), litval(v.a[1][1])
            if all(isinstance(x, int) for x in (s, en, st)) and st > 0:
                return [lit(i) for i in range(s, en, st)]
        if v.k == "adt" and v.a[0] == OPT:
            return [v.a[2][0][1]] if v.a[1] == "Some" else []
        if v.k == "app" and v.a[0] == "iter:enumerate":
            es = self.elements(v.a[1][0])
            if es is not None:
                return [V("tup", (lit(i), x)) for i, x in enumerate(es)]
        if v.k == "adt" and v.a[0].endswith("ops::range::Range"):
            f = dict(v.a[2])
            s, en = litval(f["start"]), litval(f["end"])
            if isinstance(s, int) and isinstance(en, int):
                return [lit(i) for i in range(s, en)]
        return None

    def elem(self, coll):
        if coll.k == "each":
            return coll.a[1]
        if coll.k == "app" and coll.a[0] == "iter:enumerate":
            return V("tup", (app("idx", coll.a[1][0]), self.elem(coll.a[1][0])))
        if coll.k == "app" and coll.a[0] == "iter:zip":
            return V("tup", (self.elem(coll.a[1][0]), self.elem(coll.a[1][1])))
        if coll.k == "app" and coll.a[0] in ("iter:rev", "iter:skip", "iter:take", "iter:filter", "iter:step_by",
                                             "iter:chain1", "iter:dedup"):
            return V("elem", coll)
        if coll.k == "phi":
            return phi([(g, self.elem(x)) for g, x in coll.a[0]])
        if coll.k == "arr" and coll.a[0]:
            return phi([((), x) for x in coll.a[0]])
        return V("elem", coll)

    # ------------------------------------------------------------------ calls
    def tsubst(self, t, fr):
        if not fr.tsub:
            return t
        if t in fr.tsub:
            return fr.tsub[t]
        key = (t, tuple(fr.tsub.items()))
        r = self.tcache.get(key)
        if r is None:
            r = t
            for k, s in fr.tsub.items():
                if k in r:
                    r = re.sub(r"(?<![\w:])" + re.escape(k) + r"(?![\w#]|::)", lambda m: s, r)
            r = self.tcache[key] = self.project(r)
        return r

    def project(self, t):
        """<Type as Trait>::Assoc -> the type the implementation gives"""
        m = re.match(r"<([\w:]+) as ([\w:]+)(?:<([\w:, ]*)>)?>::(\w+)$", t)
        if not m:
            return t
        ty, tr, args, name = m.groups()
        im = self.find_impl(tr, [ty] + ([a.strip() for a in args.split(",")] if args else []))
        it = next((x for x in im["items"] if x["name"] == name), None) if im else None
        return it["ty"] if it and it.get("ty") else t

    def x_Call(self, e, fr):
        args = []
        for a in e["a"]:
            v = self.ev(a, fr)
            if v is NEVER:
                return NEVER
            args.append(v)
        if "fn" in e:
            r = self.call(e["fn"], args, e, fr)
        else:
            fv = self.ev(e["fe"], fr)
            r = self.apply(fv, args, fr)
        if self.watch:
            self.watch(e, args, r, fr)
        if e.get("ty") == "!":
            if "fn" in e and PANICS.match(e["fn"]["p"]):
                self.panic("panic", fr)
            return NEVER
        return r

    def apply(self, f, args, fr):
        """Call a function value."""
        if f.k == "phi":
            return phi([(g, self.apply(x, args, fr)) for g, x in f.a[0]])
        if f.k == "clo":
            b = self.F.bodies.get(f.a[0])
            if b and fr.depth < self.max_depth and self.stack.count(f.a[0]) < (self.clo_limit if any(self.concrete(x) for x in args) or any(self.concrete(x) for _, x in f.a[1]) else 1):
                r = self.call_body(b, args, dict(f.a[2]), dict(f.a[1]), fr.depth + 1)
                # captured-by-reference mutation is visible to the caller
                for en in self.last_env:
                    for k, _ in f.a[1]:
                        if k in en and k in fr.env and en[k] is not fr.env[k]:
                            fr.env[k] = phi([((), fr.env[k]), ((), en[k])])
                return r
            return app("apply", f, *args)
        if f.k == "fn":
            ref = {"p": f.a[0], "id": f.a[1], "ga": list(f.a[2])}
            if f.a[3]:
                ref["tr"] = f.a[3]
            if len(f.a) > 4:
                ref.update(rp=f.a[4], rid=f.a[5], rga=list(f.a[6]))
            return self.call(ref, args, None, fr)
        if f.k == "app" and f.a[0] == "ctor":
            return app("apply", f, *args)
        return app("apply", f, *args)

    @staticmethod
    def concrete(v):
        return v.k in ("adt", "tup", "lit", "arr", "fmt")

    def find_impl(self, trait, targs):
        best = None
        for im in self.F.impl_by_trait.get(trait, ()):
            if len(im["args"]) != len(targs):
                continue
            score = 0
            ok = True
            for x, y in zip(im["args"], targs):
                s = unify(x, y)
                if s is None:
                    ok = False
                    break
                score += s
            if ok and (best is None or score > best[0]):
                best = (score, im)
        return best[1] if best else None

    def impl_fn(self, im, name):
        for it in im["items"]:
            if it["name"] == name:
                return self.F.bodies.get(it["id"])
        return None

    def convert(self, v, src, dst, fr, what="from"):
        """Into/From/TryFrom from type src to dst."""
        src, dst = src.strip(), dst.strip()
        if v.k == "phi":
            return phi([(g, self.convert(x, src, dst, fr, what)) for g, x in v.a[0]])
        wrap = Ok if what == "try_from" else (lambda x: x)
        if src == dst or ("&" + dst) == src:
            return wrap(v)
        tr = "core::convert::From" if what == "from" else "core::convert::TryFrom"
        im = self.find_impl(tr, [dst, src])
        if im is None and what == "try_from":
            im2 = self.find_impl("core::convert::TryInto", [src, dst])
            if im2:
                b = self.impl_fn(im2, "try_into")
                return self.enter(b, [v], {}, fr, "try_into")
            im2 = self.find_impl("core::convert::From", [dst, src])
            if im2:
                b = self.impl_fn(im2, "from")
                return Ok(self.enter(b, [v], unify_sub(im2["args"], [dst, src]), fr, "from"))
        if im is None and what == "from":
            im2 = self.find_impl("core::convert::Into", [src, dst])
            if im2:
                return self.enter(self.impl_fn(im2, "into"), [v], {}, fr, "into")
        if im is not None:
            b = self.impl_fn(im, what)
            if b is not None:
                return self.enter(b, [v], unify_sub(im["args"], [dst, src]), fr, what)
        if dst.startswith(OPT + "<") and not src.startswith(OPT):
            return wrap(Some(self.convert(v, src, dst[len(OPT) + 1:-1], fr, "from")))
        if src in STRINGY and dst in STRINGY or dst.startswith("alloc::boxed::Box<"):
            return wrap(v)
        if what == "try_from":
            if src in INTS and dst in INTS and is_int(v) and isinstance(litval(v), int):
                bits, signed = INTS[dst]
                lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
                return Ok(v) if lo <= litval(v) <= hi else Err(app("out-of-range"))
            return app("try_into:" + dst, v)
        if src == "bool" and dst in INTS:
            if v.k == "lit":
                return lit(int(v.a[1]))
            return phi([((("true", v),), lit(1)), ((("false", v),), lit(0))])
        if src in INTS and dst in INTS and is_int(v):
            return v
        return app("into:" + dst, v)

    def enter(self, b, args, tsub, fr, label):
        if b is None or not b.get("thir"):
            return app(label, *args)
        if (b["id"] in self.stack and self.stack.count(b["id"]) > self.rec_limit) or fr.depth >= self.max_depth or b["path"] in self.opaque or not self.inline_ok(b):
            self.last_mut = []
            return app(b["path"], *args)
        # recursion guard: only unfold a recursive call on a strictly concrete constructor
        if b["id"] in self.stack and not any(x.k in self.rec_kinds for x in args):
            self.last_mut = []
            return app(b["path"], *args)
        key = None
        if not any(p["ty"].startswith("&mut ") for p in b["thir"]["params"]) and not self.watch:
            key = (b["id"], tuple(a.i for a in args), tuple(sorted(tsub.items())), self.max_depth - fr.depth > 3)
            if key in self.memo:
                self.last_mut = []
                self.last_env = []
                return self.memo[key]
        eff = self.effects
        try:
            v = self.call_body(b, args, tsub, depth=fr.depth + 1)
        except TooBig as ex:
            self.widened.append((b["path"], str(ex)))
            self.last_mut = []
            self.last_env = []
            v = app(b["path"], *args)
        if key and eff == self.effects:
            self.memo[key] = v
        return v

    def call(self, f, args, node, fr):
        p = f["p"]
        ga = [self.tsubst(t, fr) for t in f.get("ga", ())]
        m = self.models.get(p)
        if m:
            r = m(self, f, ga, args, node, fr)
            if r is not None:
                return r
        name = p.rsplit("::", 1)[-1]
        if p in IDENT_METHODS and "rid" in f and f["rid"].startswith("spl_transpiler") and name in ("deref", "clone") \
                and "derive" not in str(self.F.bodies.get(f["rid"], {}).get("span")):
            b = self.F.bodies.get(f["rid"])
            if b and not self.F.is_glue(b):
                return self.enter(b, args, {}, fr, p)
        if p in ("core::ops::deref::Deref::deref",) and "rid" not in f and ga:
            im = self.find_impl("core::ops::deref::Deref", [ga[0]])
            if im:
                return self.enter(self.impl_fn(im, "deref"), args, {}, fr, p)
        if p in IDENT_METHODS:
            if name == "into_iter" and args and ga and _hashed(ga[0]):
                return _unordered(self, args[0])
            return args[0] if args else UNIT
        h = EXT.get(p)
        if h:
            r = h(self, f, ga, args, node, fr)
            if r is not None:
                return r
        if p in ("core::convert::Into::into",):
            return self.convert(args[0], ga[0], ga[1], fr, "from")
        if p == "core::convert::From::from":
            return self.convert(args[0], ga[1], ga[0], fr, "from")
        if p == "core::convert::TryInto::try_into":
            return self.convert(args[0], ga[0], ga[1], fr, "try_from")
        if p == "core::convert::TryFrom::try_from":
            return self.convert(args[0], ga[1], ga[0], fr, "try_from")
        if p in PARSE_CALLS:
            a = args[1].a[0] if len(args) > 1 and args[1].k == "tup" else args[1:]
            return self.apply(args[0], list(a), fr)
        # a constructor used as a function
        if p[0].isupper() or "::" in p and p.rsplit("::", 1)[-1][0].isupper():
            c = self.ctor(p, args)
            if c is not None:
                return c
        b = None
        tsub = {}
        if "rid" in f:
            b = self.F.bodies.get(f["rid"])
            if b is not None:
                im = next((i for i in self.F.impls if any(it["id"] == f["rid"] for it in i["items"])), None) if b.get("impl_trait") else None
                tsub = unify_sub(im["args"], ga) if im and len(im["args"]) <= len(ga) else {}
                tsub = dict(tsub)
                tsub.update(zip(b.get("gen", ()), [self.tsubst(t, fr) for t in f.get("rga", ())]) if len(b.get("gen", ())) == len(f.get("rga", ())) else {})
        elif f["id"] in self.F.bodies:
            b = self.F.bodies[f["id"]]
            if "tr" in f and f["tr"]:
                # default method (or unresolved): try a dynamic dispatch on substituted Self
                b2 = self.dyn_impl(f["tr"], ga, name, args)
                b = b2 or b
            tsub = dict(zip(b.get("gen", ()), ga)) if len(b.get("gen", ())) == len(ga) else {}
        elif f.get("tr"):
            b = self.dyn_impl(f["tr"], ga, name, args)
        if b is not None and b["kind"] in ("Fn", "AssocFn"):
            r = self.enter(b, args, tsub, fr, p)
            # write back &mut arguments
            if node is not None:
                for a, new in zip(node["a"], getattr(self, "last_mut", []) or []):
                    if new is not None:
                        root = self.root(a)
                        if root:
                            self.assign(a, new, fr)
            return r
        # unknown callee: havoc &mut arguments
        if node is not None:
            for a, v in zip(node["a"], args):
                if a["k"] == "Ref" and a.get("mut") or _mut_view(a) or \
                        a["k"] == "Var" and a.get("ty", "").startswith("&mut "):
                    self.assign(a, app("mut:" + name, *args), fr)
        return app(f.get("rp", p) if "rid" in f and f["rid"].startswith("spl_") else p, *args)

    def dyn_impl(self, trait, ga, name, args):
        cands = []
        if ga:
            im = self.find_impl(trait, ga[:max(1, len(ga))]) or self.find_impl(trait, ga[:1])
            if im:
                cands.append(im)
        if not cands and args and args[0].k == "adt":
            for im in self.F.impl_by_trait.get(trait, ()):
                if im["args"] and im["args"][0].split("<")[0] == args[0].a[0]:
                    cands.append(im)
        for im in cands:
            b = self.impl_fn(im, name)
            if b:
                return b
        return None

    def ctor(self, p, args):
        # Enum::Variant(..) or Struct(..)
        if p == "core::option::Option::Some":
            return Some(args[0])
        if p == "core::result::Result::Ok":
            return Ok(args[0])
        if p == "core::result::Result::Err":
            return Err(args[0])
        q = re.sub(r"::<[^>]*>", "", p)
        a = self.F.adts.get(q)
        if a:
            v = a["variants"][0]
            return mkadt(q, v["name"], tuple((n, x) for (n, _, _), x in zip(v["fields"], args)))
        base, _, var = q.rpartition("::")
        a = self.F.adts.get(base)
        if a:
            for v in a["variants"]:
                if v["name"] == var:
                    return mkadt(base, var, tuple((n, x) for (n, _, _), x in zip(v["fields"], args)))
            return None
        if base and base.rsplit("::", 1)[-1][:1].isupper():
            return mkadt(base, var, tuple((str(i), x) for i, x in enumerate(args)))
        return None


def _walk(x):
    from facts import walk
    return walk(x)


# ---------------------------------------------------------------------- type matching
WILD = re.compile(r"^(?:[A-Z][A-Za-z0-9]?|I#\d+|impl .*)$")


def split_ty(t):
    """'A<B, C>' -> ('A', ['B','C'])"""
    i = t.find("<")
    if i <= 0 or not t.endswith(">"):
        return t, []
    head, inner = t[:i], t[i + 1:-1]
    out, d, cur = [], 0, ""
    for ch in inner:
        if ch in "<([":
            d += 1
        elif ch in ">)]":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return head, out


def norm_ref(t):
    return re.sub(r"&'\w+ ", "&", t)


def unify(pat, t):
    pat, t = norm_ref(pat), norm_ref(t)
    if pat == t:
        return 10
    if WILD.match(pat):
        return 1
    if pat.startswith("&") and t.startswith("&"):
        return unify(pat[1:].replace("mut ", "", 1), t[1:].replace("mut ", "", 1))
    a, b = split_ty(pat), split_ty(t)
    if a[0] == b[0] and len(a[1]) == len(b[1]) and a[1]:
        s = 3
        for x, y in zip(a[1], b[1]):
            r = unify(x, y)
            if r is None:
                return None
            s += r * 0.1
        return s
    return None


def unify_sub(pats, ts):
    sub = {}

    def go(p, t):
        p, t = norm_ref(p), norm_ref(t)
        if p == t:
            return
        if WILD.match(p):
            sub[p] = t
            return
        if p.startswith("&") and t.startswith("&"):
            return go(p[1:], t[1:])
        a, b = split_ty(p), split_ty(t)
        if a[0] == b[0] and len(a[1]) == len(b[1]):
            for x, y in zip(a[1], b[1]):
                go(x, y)
    for p, t in zip(pats, ts):
        go(p, t)
    return sub


# ---------------------------------------------------------------------- models of external functions
EXT = {}


def ext(*names):
    def d(f):
        for n in names:
            EXT[n] = f
        return f
    return d


def over(I, v, fn):
    """distribute over phi"""
    if v.k == "phi":
        return phi([(g, fn(x)) for g, x in v.a[0]])
    return fn(v)


@ext("alloc::fmt::format", "alloc::fmt::format::format_inner", "anyhow::__private::format_err")
def _format(I, f, ga, args, node, fr):
    return args[0]


@ext("core::fmt::Arguments::<'a>::from_str", "core::fmt::Arguments::<'a>::from_str_nonconst")
def _args_str(I, f, ga, args, node, fr):
    return args[0]


@ext("core::fmt::Arguments::<'a>::new")
def _args_new(I, f, ga, args, node, fr):
    t = args[0]
    if t.k == "lit" and t.a[0] == "bytes" and args[1].k == "arr":
        return fmt([p if isinstance(p, str) else args[1].a[0][p] for p in decode_template(t.a[1])])
    return app("fmt?", *args)


@ext("core::fmt::rt::Argument::<'_>::new_display")
def _arg_disp(I, f, ga, args, node, fr):
    return to_string(I, args[0], ga[0] if ga else "", fr)


@ext("core::fmt::rt::Argument::<'_>::new_debug")
def _arg_dbg(I, f, ga, args, node, fr):
    return app("debug", args[0])


@ext("core::fmt::Formatter::<'a>::write_fmt", "core::fmt::Write::write_fmt")
def _write_fmt(I, f, ga, args, node, fr):
    if node is not None:
        old = args[0]
        pieces = list(old.a[0]) if old.k == "fmt" else ([] if old.k == "sym" else [old])
        new = fmt(pieces + [args[1]])
        if new.k == "lit" and new.a[1] == "":
            new = old
        I.assign(node["a"][0], new if new.k != "lit" else V("fmt", (new.a[1],)), fr)
    return Ok(UNIT)


@ext("core::fmt::Formatter::<'a>::write_str", "core::fmt::Write::write_str")
def _write_str(I, f, ga, args, node, fr):
    return _write_fmt(I, f, ga, args, node, fr)


def to_string(I, v, t, fr):
    t = t.lstrip("&").strip()
    if v.k == "phi":
        return phi([(g, to_string(I, x, t, fr)) for g, x in v.a[0]])
    if t == "alloc::string::String" or t == "str":
        return v
    tp = v.a[0] if v.k == "adt" else t
    im = I.find_impl("core::fmt::Display", [tp])
    if im:
        b = I.impl_fn(im, "fmt")
        if b and v.k == "adt" and b["id"] not in I.stack and fr.depth < I.max_depth:
            I.call_body(b, [v, V("sym", "f", "&mut Formatter")], {}, depth=fr.depth + 1)
            m = I.last_mut[1] if len(I.last_mut) > 1 else None
            if m is not None and m.k in ("fmt", "lit"):
                return m
            return app("display:" + tp, v)
        return app("display:" + tp, v)
    if v.k == "lit" and v.a[0] in ("str", "int", "bool"):
        return fmt([v])
    return app("display:" + t, v) if t else v


@ext("alloc::string::ToString::to_string")
def _to_string(I, f, ga, args, node, fr):
    return to_string(I, args[0], ga[0] if ga else "", fr)


@ext("alloc::vec::Vec::<T>::new", "alloc::vec::Vec::<T>::with_capacity", "alloc::vec::Vec::<T, A>::with_capacity")
def _vec_new(I, f, ga, args, node, fr):
    return V("arr", ())


@ext("alloc::string::String::new", "alloc::string::String::with_capacity")
def _string_new(I, f, ga, args, node, fr):
    return lit("")


@ext("alloc::boxed::Box::<T>::new_uninit")
def _box_uninit(I, f, ga, args, node, fr):
    return UNIT


@ext("alloc::intrinsics::write_box_via_move")
def _wbox(I, f, ga, args, node, fr):
    return args[1]


@ext("alloc::vec::Vec::<T, A>::push", "alloc::collections::vec_deque::VecDeque::<T, A>::push_back")
def _push(I, f, ga, args, node, fr):
    def one(o):
        if o.k == "arr":
            return V("arr", o.a[0] + (args[1],))
        return app("push", o, args[1])
    if node is not None:
        I.assign(node["a"][0], over(I, args[0], one), fr)
    return UNIT


@ext("alloc::string::String::push_str", "alloc::string::String::push")
def _push_str(I, f, ga, args, node, fr):
    if node is not None:
        I.assign(node["a"][0], over(I, args[0], lambda o: fmt([o, args[1]])), fr)
    return UNIT


@ext("core::ops::arith::AddAssign::add_assign")
def _add_assign(I, f, ga, args, node, fr):
    if "alloc::string::String as" not in (f.get("rp") or ""):
        return None
    return _push_str(I, f, ga, args, node, fr)


@ext("core::ops::arith::Add::add")
def _add(I, f, ga, args, node, fr):
    if "alloc::string::String as" not in (f.get("rp") or ""):
        return None
    return over(I, args[0], lambda o: fmt([o, args[1]]))


@ext("alloc::vec::Vec::<T, A>::insert")
def _insert(I, f, ga, args, node, fr):
    if node is not None:
        def one(o):
            if o.k == "arr" and args[1].k == "lit":
                x = list(o.a[0])
                x.insert(args[1].a[1], args[2])
                return V("arr", tuple(x))
            return app("push", o, args[2])
        I.assign(node["a"][0], over(I, args[0], one), fr)
    return UNIT


@ext("core::iter::traits::collect::Extend::extend", "alloc::vec::Vec::<T, A>::extend_from_slice",
     "alloc::vec::Vec::<T, A>::append")
def _extend(I, f, ga, args, node, fr):
    if "rid" in f and f["rid"].startswith("spl_"):
        return None

    more = I.elements(args[1])
    text = "alloc::string::String as" in (f.get("rp") or "")

    def one(o):
        if text and more is not None:
            return fmt([o] + list(more))
        if o.k == "arr" and more is not None:
            return V("arr", o.a[0] + tuple(more))
        return app("extend", o, args[1])
    if node is not None:
        I.assign(node["a"][0], over(I, args[0], one), fr)
    return UNIT


@ext("core::iter::traits::iterator::Iterator::collect")
def _collect(I, f, ga, args, node, fr):
    t = ga[-1] if ga else ""
    v = args[0]

    def one(v):
        if t.startswith(RES):
            # collect::<Result<Vec<_>,_>>
            if v.k == "each":
                oks = [(g, x.a[2][0][1]) for g, x in alts(v.a[1]) if x.k == "adt" and x.a[0] == RES and x.a[1] == "Ok"]
                other = [(g, V("vfld", x, RES, "Ok", "0")) for g, x in alts(v.a[1]) if not (x.k == "adt" and x.a[0] == RES)]
                errs = [(g, x) for g, x in alts(v.a[1]) if x.k == "adt" and x.a[0] == RES and x.a[1] == "Err"]
                r = [((), Ok(V("each", v.a[0], phi(oks + other))))] if oks or other else []
                if errs or other:
                    r.append(((("err-in", v.a[0]),), Err(app("err-of", v.a[1]))))
                return phi(r)
            if v.k == "arr":
                outs, errs = [], []
                for x in v.a[0]:
                    ok = []
                    for g, y in alts(x):
                        if y.k == "adt" and y.a[0] == RES:
                            (ok if y.a[1] == "Ok" else errs).append((g, y.a[2][0][1]))
                        else:
                            ok.append((g, V("vfld", y, RES, "Ok", "0")))
                            errs.append((g, V("vfld", y, RES, "Err", "0")))
                    outs.append(phi(ok))
                r = []
                if NEVER not in outs:
                    r.append(((), Ok(V("arr", tuple(outs)))))
                if errs:
                    r.append(((("err-in", v),), Err(phi(errs))))
                return phi(r)
            return app("collect:Result", v)
        if t.startswith(SETS) and v.k == "arr" and all(is_str(x) for x in v.a[0]):
            return _in_order_of(t, V("arr", tuple(dict.fromkeys(v.a[0]))))
        if "HashSet" in t or "HashMap" in t:
            return app("collect:Hash", v)
        if t == "alloc::string::String":
            if v.k == "arr":
                return fmt(v.a[0])
            if v.k != "lit":
                return app("collect:String", v)
        return v
    return over(I, v, one)


@ext("core::iter::traits::iterator::Iterator::map", "core::option::Option::<T>::map",
     "core::iter::traits::iterator::Iterator::flat_map", "core::iter::traits::iterator::Iterator::filter_map")
def _map(I, f, ga, args, node, fr):
    if f["p"].startswith("core::option"):
        def one(v):
            if v.k == "adt":
                return Some(I.apply(args[1], [v.a[2][0][1]], fr)) if v.a[1] == "Some" else NONE
            x = V("vfld", v, OPT, "Some", "0")
            return phi([((("is", v, OPT, "Some"),), Some(I.apply(args[1], [x], fr))), ((("is", v, OPT, "None"),), NONE)])
        return over(I, args[0], one)

    def one(c):
        els = I.elements(c)
        if els is not None and f["p"].endswith("::map") and len(els) < 200:
            return V("arr", tuple(I.apply(args[1], [x], fr) for x in els))
        return V("each", c, I.apply(args[1], [I.elem(c)], fr))
    return over(I, args[0], one)


@ext("core::option::Option::<T>::and_then")
def _opt_and_then(I, f, ga, args, node, fr):
    def one(v):
        if v.k == "adt":
            return I.apply(args[1], [v.a[2][0][1]], fr) if v.a[1] == "Some" else NONE
        x = V("vfld", v, OPT, "Some", "0")
        return phi([((("is", v, OPT, "Some"),), I.apply(args[1], [x], fr)), ((("is", v, OPT, "None"),), NONE)])
    return over(I, args[0], one)


@ext("core::result::Result::<T, E>::map", "core::result::Result::<T, E>::and_then")
def _res_map(I, f, ga, args, node, fr):
    wrap = Ok if f["p"].endswith("map") else (lambda x: x)

    def one(v):
        if v.k == "adt":
            return wrap(I.apply(args[1], [v.a[2][0][1]], fr)) if v.a[1] == "Ok" else v
        x = V("vfld", v, RES, "Ok", "0")
        return phi([((("is", v, RES, "Ok"),), wrap(I.apply(args[1], [x], fr))),
                    ((("is", v, RES, "Err"),), Err(V("vfld", v, RES, "Err", "0")))])
    return over(I, args[0], one)


@ext("core::result::Result::<T, E>::map_err")
def _map_err(I, f, ga, args, node, fr):
    def one(v):
        if v.k == "adt":
            return v if v.a[1] == "Ok" else Err(app("mapped-err", v.a[2][0][1]))
        return phi([((("is", v, RES, "Ok"),), Ok(V("vfld", v, RES, "Ok", "0"))),
                    ((("is", v, RES, "Err"),), Err(V("vfld", v, RES, "Err", "0")))])
    return over(I, args[0], one)


@ext("core::result::Result::<T, E>::or_else")
def _or_else(I, f, ga, args, node, fr):
    def one(v):
        if v.k == "adt":
            return v if v.a[1] == "Ok" else I.apply(args[1], [v.a[2][0][1]], fr)
        return phi([((("is", v, RES, "Ok"),), Ok(V("vfld", v, RES, "Ok", "0"))),
                    ((("is", v, RES, "Err"),), I.apply(args[1], [V("vfld", v, RES, "Err", "0")], fr))])
    return over(I, args[0], one)


def _unwrap(path, good):
    def h(I, f, ga, args, node, fr):
        def one(v):
            if v.k == "adt" and v.a[0] == path:
                if v.a[1] != good:
                    I.panic("%s of %s" % (f["p"].rsplit("::", 1)[-1], v.a[1]), fr)
                    return NEVER
                return v.a[2][0][1]
            return V("vfld", v, path, good, "0")
        return over(I, args[0], one)
    return h


for n in ("unwrap", "expect"):
    EXT["core::option::Option::<T>::" + n] = _unwrap(OPT, "Some")
    EXT["core::result::Result::<T, E>::" + n] = _unwrap(RES, "Ok")


@ext("core::option::Option::<T>::unwrap_or", "core::option::Option::<T>::unwrap_or_default",
     "core::option::Option::<T>::unwrap_or_else", "core::result::Result::<T, E>::unwrap_or",
     "core::result::Result::<T, E>::unwrap_or_default", "core::result::Result::<T, E>::unwrap_or_else")
def _unwrap_or(I, f, ga, args, node, fr):
    path = OPT if "Option" in f["p"] else RES
    good = "Some" if path == OPT else "Ok"

    def dflt(v):
        if f["p"].endswith("unwrap_or"):
            return args[1]
        if f["p"].endswith("unwrap_or_else"):
            return I.apply(args[1], [] if path == OPT else [V("vfld", v, path, "Err", "0")], fr)
        im = I.find_impl("core::default::Default", [ga[0]]) if ga else None
        if im:
            return I.enter(I.impl_fn(im, "default"), [], {}, fr, "default")
        t = ga[0] if ga else "?"
        if t.startswith("alloc::vec::Vec"):
            return V("arr", ())
        if t == "alloc::string::String":
            return lit("")
        if t == "bool":
            return lit(False)
        if t in ("i64", "u64", "usize", "i32"):
            return lit(0)
        if t.startswith(OPT):
            return NONE
        return app("default:" + t)

    def one(v):
        if v.k == "adt" and v.a[0] == path:
            return v.a[2][0][1] if v.a[1] == good else dflt(v)
        return phi([((("is", v, path, good),), V("vfld", v, path, good, "0")),
                    ((("isnot", v, path, good),), dflt(v))])
    return over(I, args[0], one)


@ext("core::option::Option::<T>::map_or", "core::option::Option::<T>::map_or_else")
def _map_or(I, f, ga, args, node, fr):
    def one(v):
        d = lambda: args[1] if f["p"].endswith("map_or") else I.apply(args[1], [], fr)
        if v.k == "adt":
            return I.apply(args[2], [v.a[2][0][1]], fr) if v.a[1] == "Some" else d()
        return phi([((("is", v, OPT, "Some"),), I.apply(args[2], [V("vfld", v, OPT, "Some", "0")], fr)),
                    ((("is", v, OPT, "None"),), d())])
    return over(I, args[0], one)


@ext("core::option::Option::<T>::or", "core::option::Option::<T>::or_else")
def _opt_or(I, f, ga, args, node, fr):
    def one(v):
        d = lambda: args[1] if f["p"].endswith("::or") else I.apply(args[1], [], fr)
        if v.k == "adt":
            return v if v.a[1] == "Some" else d()
        return phi([((("is", v, OPT, "Some"),), Some(V("vfld", v, OPT, "Some", "0"))),
                    ((("is", v, OPT, "None"),), d())])
    return over(I, args[0], one)


@ext("core::option::Option::<T>::ok_or", "core::option::Option::<T>::ok_or_else")
def _ok_or(I, f, ga, args, node, fr):
    def one(v):
        if v.k == "adt":
            return Ok(v.a[2][0][1]) if v.a[1] == "Some" else Err(app("err"))
        return phi([((("is", v, OPT, "Some"),), Ok(V("vfld", v, OPT, "Some", "0"))),
                    ((("is", v, OPT, "None"),), Err(app("err")))])
    return over(I, args[0], one)


@ext("core::result::Result::<T, E>::ok")
def _res_ok(I, f, ga, args, node, fr):
    def one(v):
        if v.k == "adt":
            return Some(v.a[2][0][1]) if v.a[1] == "Ok" else NONE
        return phi([((("is", v, RES, "Ok"),), Some(V("vfld", v, RES, "Ok", "0"))),
                    ((("is", v, RES, "Err"),), NONE)])
    return over(I, args[0], one)


def _is(path, variant):
    def h(I, f, ga, args, node, fr):
        def one(v):
            if v.k == "adt" and v.a[0] == path:
                return lit(v.a[1] == variant)
            return app("is:" + variant, v)
        return over(I, args[0], one)
    return h


EXT["core::option::Option::<T>::is_some"] = _is(OPT, "Some")
EXT["core::option::Option::<T>::is_none"] = _is(OPT, "None")
EXT["core::result::Result::<T, E>::is_ok"] = _is(RES, "Ok")
EXT["core::result::Result::<T, E>::is_err"] = _is(RES, "Err")


@ext("alloc::vec::Vec::<T, A>::len", "core::slice::<impl [T]>::len")
def _len(I, f, ga, args, node, fr):
    return over(I, args[0], lambda v: lit(len(v.a[0])) if v.k == "arr" else app("len", v))


@ext("alloc::vec::Vec::<T, A>::is_empty", "core::slice::<impl [T]>::is_empty")
def _is_empty(I, f, ga, args, node, fr):
    return over(I, args[0], lambda v: lit(len(v.a[0]) == 0) if v.k == "arr" else app("is_empty", v))


@ext("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def _index(I, f, ga, args, node, fr):
    return over(I, args[0], lambda v: I.index(v, args[1], fr))


@ext("core::slice::<impl [T]>::first", "core::slice::<impl [T]>::get")
def _get(I, f, ga, args, node, fr):
    i = args[1] if len(args) > 1 else lit(0)

    def one(v):
        if v.k == "arr" and i.k == "lit" and isinstance(i.a[1], int):
            return Some(v.a[0][i.a[1]]) if i.a[1] < len(v.a[0]) else NONE
        x = I.index(v, i)
        return phi([((("len>", v, i),), Some(x)), ((("len<=", v, i),), NONE)])
    return over(I, args[0], one)


def _iter_op(name):
    def h(I, f, ga, args, node, fr):
        def one(v):
            if v.k == "adt" and v.a[0] == OPT:
                v = V("arr", tuple(I.elements(v)))
            if v.k == "arr":
                if name == "rev":
                    return V("arr", tuple(reversed(v.a[0])))
                if name == "skip" and args[1].k == "lit":
                    return V("arr", v.a[0][args[1].a[1]:])
                if name == "take" and args[1].k == "lit":
                    return V("arr", v.a[0][:args[1].a[1]])
                if name == "chain" and I.elements(args[1]) is not None:
                    return V("arr", v.a[0] + tuple(I.elements(args[1])))
            return app("iter:" + name, v, *args[1:])
        return over(I, args[0], one)
    return h


for n in ("rev", "skip", "take", "step_by", "enumerate", "zip", "chain", "filter", "skip_while", "take_while"):
    EXT["core::iter::traits::iterator::Iterator::" + n] = _iter_op(n)


@ext("core::iter::traits::iterator::Iterator::fold", "core::iter::traits::iterator::Iterator::try_fold")
def _fold(I, f, ga, args, node, fr):
    els = I.elements(args[0])
    acc = args[1]
    if els is not None and len(els) < 64 and f["p"].endswith("::fold"):
        for x in els:
            acc = I.apply(args[2], [acc, x], fr)
        return acc
    if els is not None and len(els) < 64 and f["p"].endswith("::try_fold"):
        cur, bad = [((), acc)], []
        for x in els:
            if not cur:
                break
            step = phi([(g + g2, y) for g, a in cur for g2, y in alts(I.apply(args[2], [a, x], fr))])
            if not all(y.k == "adt" and y.a[0] == RES for _, y in alts(step)):
                return app("try_fold", *args)
            cur = [(g, y.a[2][0][1]) for g, y in alts(step) if y.a[1] == "Ok"]
            bad += [(g, y) for g, y in alts(step) if y.a[1] == "Err"]
        return phi([(g, Ok(y)) for g, y in cur] + bad)
    lv = V("loopvar", "fold%d" % args[0].i, "acc")
    step = I.apply(args[2], [phi([((), acc), ((("loop",),), lv)]), I.elem(args[0])], fr)
    if f["p"].endswith("try_fold"):
        oks = [(g, x.a[2][0][1]) for g, x in alts(step) if x.k == "adt" and x.a[1] == "Ok"]
        return phi([((), Ok(V("loop", "fold", acc, phi(oks), args[0])))] +
                   [(g, x) for g, x in alts(step) if x.k == "adt" and x.a[1] == "Err"])
    return V("loop", "fold", acc, step, args[0])


@ext("core::iter::traits::iterator::Iterator::reduce")
def _reduce(I, f, ga, args, node, fr):
    els = I.elements(args[0])
    if els is not None and len(els) < 64:
        if not els:
            return NONE
        acc = els[0]
        for x in els[1:]:
            acc = I.apply(args[1], [acc, x], fr)
        return Some(acc)
    el = I.elem(args[0])
    lv = V("loopvar", "fold%d" % args[0].i, "acc")
    step = I.apply(args[1], [phi([((), el), ((("loop",),), lv)]), el], fr)
    return phi([((("is_empty", args[0]),), NONE), ((), Some(V("loop", "fold", el, step, args[0])))])


@ext("core::iter::traits::iterator::Iterator::for_each")
def _for_each(I, f, ga, args, node, fr):
    els = I.elements(args[0])
    if els is not None and len(els) < 64 and args[1].k == "clo":
        # unrolled; what the closure writes to a captured variable is what the next round reads
        clo, names = args[1], [k for k, _ in args[1].a[1]]
        for x in els:
            before = dict(fr.env)
            I.last_env = []
            I.apply(clo, [x], fr)
            ends = I.last_env
            if not ends:
                continue
            caps = dict(clo.a[1])
            for k in names:
                new = phi([((), en[k]) for en in ends if k in en])
                if new is NEVER:
                    continue
                caps[k] = new
                if k in before and all(k in en for en in ends):
                    fr.env[k] = new
            clo = V(clo.k, clo.a[0], tuple((k, caps[k]) for k in names), *clo.a[2:])
        return UNIT
    I.apply(args[1], [I.elem(args[0])], fr)
    return UNIT


@ext("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def _eq(I, f, ga, args, node, fr):
    neg = f["p"].endswith("ne")
    a, b = args
    if a.k == "lit" and b.k == "lit":
        if is_str(a) and is_str(b) and a is not b:
            I.compared("eq", a.a[1], b.a[1])
        return lit((a.a[1] == b.a[1]) != neg)
    if a.k == "adt" and b.k == "adt" and a.a[0] == b.a[0] and a.a[1] != b.a[1]:
        return lit(neg)
    if a is b and a.k in ("adt", "sym"):
        return lit(not neg)
    if a.k == "lit" and excluded(b, a.a[1]) or b.k == "lit" and excluded(a, b.a[1]):
        return lit(neg)
    if a.k == "phi" or b.k == "phi":
        if len(alts(a)) * len(alts(b)) <= 16:
            return phi([(g1 + g2, _eq(I, f, ga, [x, y], node, fr)) for g1, x in alts(a) for g2, y in alts(b)])
    if a.k == "adt" and b.k == "adt" and a.a[0] == b.a[0] and len(a.a[2]) == len(b.a[2]):
        rs = [_eq(I, {"p": "eq"}, ga, [x, y], node, fr) for (_, x), (_, y) in zip(a.a[2], b.a[2])]
        if all(r.k == "lit" for r in rs):
            return lit(all(r.a[1] for r in rs) != neg)
        if any(r.k == "lit" and not r.a[1] for r in rs):
            return lit(neg)
    return app("bin:Ne" if neg else "bin:Eq", a, b)


def _charpat(I, pat, c, fr):
    """does the character pattern (closure, character, set of characters) match the concrete character?"""
    if is_str(pat):
        return pat.a[1] == c
    if pat.k == "arr":
        return (lit(c) in pat.a[0]) if all(is_str(x) for x in pat.a[0]) else None
    return _decide(I, pat, lit(c), fr)


def _has_char(v, chars):
    """does the text certainly (not) contain one of the characters?  None: unknown.  A symbol with an exclusion set stands
    for an arbitrary ordinary word of letters, digits and underscores; other texts are analysed as separate cases."""
    if v.k == "lit":
        t = v.a[1] if isinstance(v.a[1], str) else str(v.a[1])
        return any(c in t for c in chars)
    if v.k == "sym":
        if len(v.a) > 2 and v.a[2]:
            return False if not any(c.isalnum() or c == "_" for c in chars) else None
        if v.a[1] in INTS or v.a[1] in ("f64", "f32", "bool"):
            return False if not any(c.isalnum() or c in "+-." for c in chars) else None
        return None
    if v.k == "fmt":
        rs = [(any(c in p for c in chars) if isinstance(p, str) else _has_char(p, chars)) for p in v.a[0]]
        return True if True in rs else None if None in rs else False
    if v.k == "app":
        n, args = v.a
        if n == "uid" or n.startswith(("display:", "cast:", "into:")) or n in (
                "str:to_lowercase", "str:to_uppercase", "str:to_ascii_lowercase", "str:to_ascii_uppercase"):
            return _has_char(args[0], chars)
        if n.split(":")[-1] == "replace" and len(args) == 3 and is_str(args[2]) and not any(
                c in args[2].a[1] for c in chars):
            r = _has_char(args[0], chars)
            return r if r is not True else None
    return None


@ext("core::str::<impl str>::contains", "core::str::<impl str>::starts_with", "core::str::<impl str>::ends_with")
def _contains(I, f, ga, args, node, fr):
    op = f["p"].rsplit("::", 1)[1]

    def one(a):
        b = args[1]
        if is_str(a) and not is_str(b):
            # a predicate or a set of characters as the pattern
            chars = a.a[1] if op == "contains" else a.a[1][:1] if op == "starts_with" else a.a[1][-1:]
            ds = [_charpat(I, b, c, fr) for c in chars]
            if True in ds:
                return lit(True)
            if None not in ds:
                return lit(False)
        if is_str(a) and is_str(b):
            I.compared(op, a.a[1], b.a[1])
            return lit({"contains": b.a[1] in a.a[1], "starts_with": a.a[1].startswith(b.a[1]),
                        "ends_with": a.a[1].endswith(b.a[1])}[op])
        if op == "contains":
            cs = [b.a[1]] if is_str(b) else [x.a[1] for x in b.a[0]] if b.k == "arr" and all(map(is_str, b.a[0])) else []
            if cs and all(len(x) == 1 for x in cs):
                r = _has_char(a, "".join(cs))
                if r is not None:
                    return lit(r)
        if a.k == "fmt" and is_str(b):
            end = a.a[0][0] if op == "starts_with" else a.a[0][-1] if op == "ends_with" else None
            if isinstance(end, str) and len(end) >= len(b.a[1]):
                return lit(end.startswith(b.a[1]) if op == "starts_with" else end.endswith(b.a[1]))
            if op == "contains" and any(isinstance(p, str) and b.a[1] in p for p in a.a[0]):
                return lit(True)
        return app("str:" + op, a, b)
    return over(I, args[0], one)


def _strop(name):
    def h(I, f, ga, args, node, fr):
        def one(v):
            if is_str(v):
                if name == "to_ascii_lowercase" or name == "to_lowercase":
                    return lit(v.a[1].lower())
                if name == "to_ascii_uppercase" or name == "to_uppercase":
                    return lit(v.a[1].upper())
                if name == "trim":
                    return lit(v.a[1].strip())
                if name == "trim_start":
                    return lit(v.a[1].lstrip())
                if name == "trim_end":
                    return lit(v.a[1].rstrip())
                if name == "chars":
                    return V("arr", tuple(lit(c) for c in v.a[1]))
                if name == "len":
                    return lit(len(v.a[1].encode()))
                if name == "is_empty":
                    return lit(v.a[1] == "")
                if name in ("strip_prefix", "strip_suffix") and is_str(args[1]):
                    I.compared("starts_with" if name == "strip_prefix" else "ends_with", v.a[1], args[1].a[1])
                if name == "strip_prefix" and is_str(args[1]):
                    return Some(lit(v.a[1][len(args[1].a[1]):])) if v.a[1].startswith(args[1].a[1]) else NONE
                if name == "strip_suffix" and is_str(args[1]):
                    return Some(lit(v.a[1][:len(v.a[1]) - len(args[1].a[1])])) if v.a[1].endswith(args[1].a[1]) else NONE
                if name == "trim_matches" and is_str(args[1]) and len(args[1].a[1]) == 1:
                    return lit(v.a[1].strip(args[1].a[1]))
                if name == "split" and is_str(args[1]) and args[1].a[1]:
                    I.compared("contains", v.a[1], args[1].a[1])
                    return V("arr", tuple(lit(x) for x in v.a[1].split(args[1].a[1])))
                if name in ("trim_start_matches", "trim_end_matches") and is_str(args[1]) and args[1].a[1]:
                    t, p = v.a[1], args[1].a[1]
                    while (t.startswith(p) if name[5] == "s" else t.endswith(p)):
                        t = t[len(p):] if name[5] == "s" else t[:len(t) - len(p)]
                    return lit(t)
                if name == "replacen" and is_str(args[1]) and is_str(args[2]) and isinstance(litval(args[3]), int):
                    return lit(v.a[1].replace(args[1].a[1], args[2].a[1], litval(args[3])))
                if name in ("replace", "replacen", "split", "trim_matches") and is_str(args[1]):
                    I.compared("contains", v.a[1], args[1].a[1])
                if name == "replace" and is_str(args[1]) and is_str(args[2]):
                    return lit(v.a[1].replace(args[1].a[1], args[2].a[1]))
            elif v.k == "sym" and len(v.a) > 2 and v.a[2]:
                # an ordinary word: see _has_char
                if name == "is_empty" and "" in v.a[2]:
                    return lit(False)
                if name in ("trim", "trim_start", "trim_end"):
                    return v
                if len(args) > 1 and is_str(args[1]) and any(not (c.isalnum() or c == "_") for c in args[1].a[1]):
                    if name in ("replace", "trim_matches", "replacen", "trim_start_matches", "trim_end_matches"):
                        return v
                    if name == "split":
                        return V("arr", (v,))
                    if name in ("strip_prefix", "strip_suffix"):
                        return NONE
            return app("str:" + name, v, *args[1:])
        return over(I, args[0], one)
    return h


for n in ("to_ascii_lowercase", "to_ascii_uppercase", "to_lowercase", "to_uppercase", "trim", "replace", "trim_start",
          "trim_end", "split", "chars", "strip_prefix", "strip_suffix", "trim_matches", "lines", "len", "bytes", "is_empty",
          "replacen", "trim_start_matches", "trim_end_matches"):
    for pre in ("core::str::<impl str>::", "alloc::str::<impl str>::"):
        EXT[pre + n] = _strop(n)


@ext("core::str::<impl str>::parse")
def _parse(I, f, ga, args, node, fr):
    ty = ga[0] if ga else ""

    def one(v):
        if is_str(v) and re.fullmatch(r"[iu](8|16|32|64|128|size)", ty):
            t = v.a[1]
            bits = 64 if ty[1:] == "size" else int(ty[1:])
            lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if ty[0] == "i" else (0, (1 << bits) - 1)
            if re.fullmatch(r"[+-]?[0-9]+" if ty[0] == "i" else r"\+?[0-9]+", t) and lo <= int(t) <= hi:
                return Ok(lit(int(t)))
            return Err(app("ParseIntError", v))
        if is_str(v) and ty in ("f64", "f32") and re.fullmatch(r"[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?", v.a[1]):
            x = float(v.a[1])
            if ty == "f32":
                import struct
                x = struct.unpack("f", struct.pack("f", x))[0]
            return Ok(V("lit", "float", repr(x)))
        if is_str(v) and ty == "bool":
            return Ok(lit(v.a[1] == "true")) if v.a[1] in ("true", "false") else Err(app("ParseBoolError", v))
        return app("str:parse", v)
    return over(I, args[0], one)


@ext("core::str::<impl str>::split_once", "core::str::<impl str>::rsplit_once")
def _split_once(I, f, ga, args, node, fr):
    def one(v):
        if is_str(v) and is_str(args[1]):
            fn = str.partition if f["p"].endswith("::split_once") else str.rpartition
            a, m, b = fn(v.a[1], args[1].a[1])
            return Some(V("tup", (lit(a), lit(b)))) if m else NONE
        return app("str:split_once", v, *args[1:])
    return over(I, args[0], one)


@ext("core::str::<impl str>::eq_ignore_ascii_case")
def _eqic(I, f, ga, args, node, fr):
    def one(v):
        if is_str(v) and is_str(args[1]):
            I.compared("eq", v.a[1], args[1].a[1])
            return lit(v.a[1].lower() == args[1].a[1].lower())
        return app("str:eq_ignore_ascii_case", v, args[1])
    return over(I, args[0], one)


@ext("alloc::slice::<impl [T]>::join", "alloc::slice::<impl [T]>::concat")
def _join(I, f, ga, args, node, fr):
    sep = args[1] if len(args) > 1 else lit("")

    def one(v):
        if v.k == "arr":
            out = []
            for i, x in enumerate(v.a[0]):
                if i:
                    out.append(sep)
                out.append(x)
            return fmt(out)
        return app("join", v, sep)
    return over(I, args[0], one)


@ext("core::option::Option::<T>::filter")
def _opt_filter(I, f, ga, args, node, fr):
    return phi([((), args[0]), ((("filtered",),), NONE)])


@ext("core::ops::try_trait::Try::branch")
def _branch(I, f, ga, args, node, fr):
    return args[0]


@ext("core::default::Default::default")
def _default(I, f, ga, args, node, fr):
    if "rid" in f and f["rid"].startswith("spl_"):
        return None
    t = ga[0] if ga else ""
    if t.startswith("alloc::vec::Vec"):
        return V("arr", ())
    if t == "alloc::string::String":
        return lit("")
    if t == "bool":
        return lit(False)
    if t in INTS:
        return lit(0)
    if t.startswith(OPT + "<"):
        return NONE
    im = I.find_impl("core::default::Default", [t])
    if im:
        return I.enter(I.impl_fn(im, "default"), [], {}, fr, "default")
    return app("default:" + t)


@ext("anyhow::error::<impl anyhow::Error>::msg", "anyhow::Error::msg")
def _anyhow(I, f, ga, args, node, fr):
    return app("anyhow", args[0])


@ext("anyhow::__private::not")
def _not(I, f, ga, args, node, fr):
    return over(I, args[0], lambda v: lit(not v.a[1]) if v.k == "lit" else app("un:Not", v))


@ext("anyhow::Ok")
def _aok(I, f, ga, args, node, fr):
    return Ok(args[0])


@ext("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def _cmp(I, f, ga, args, node, fr):
    a, b = args
    op = f["p"][-2:]
    if a.k == "lit" and b.k == "lit" and isinstance(a.a[1], int) and isinstance(b.a[1], int):
        x, y = a.a[1], b.a[1]
        return lit({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op])
    return app("bin:" + op.capitalize(), a, b)


def oks(v):
    """Ok payloads of a Result-typed term, with guards."""
    out = []
    for g, x in alts(v):
        if x.k == "adt" and x.a[0] == RES:
            if x.a[1] == "Ok":
                out.append((g, x.a[2][0][1]))
        else:
            out.append((g, V("vfld", x, RES, "Ok", "0")))
    return out


def errs(v):
    return [(g, x) for g, x in alts(v) if x.k == "adt" and x.a[0] == RES and x.a[1] == "Err"]


# -- sets, sorting and short-circuiting iterator operations over concrete collections ------------------------
SETS = ("std::collections::hash::set::HashSet", "alloc::collections::btree::set::BTreeSet")


def _new_set(I, f, ga, args, node, fr):
    return V("arr", ())


def _in_order(v):
    if v.k == "arr" and len(v.a[0]) > 1:
        return V("arr", tuple(sorted(v.a[0], key=lambda x: x.a[1]))) if all(is_str(x) for x in v.a[0]) else app("sorted", v)
    return v


def _in_order_of(t, v):
    """the elements of a set in the order it gives them"""
    return _in_order(v) if "btree" in t.lower() else v


def _set_insert(I, f, ga, args, node, fr):
    if node is not None:
        def one(o):
            if o.k == "arr":
                return o if args[1] in o.a[0] else V("arr", o.a[0] + (args[1],))
            return app("push", o, args[1])
        I.assign(node["a"][0], over(I, args[0], one), fr)
    return app("inserted", *args)


for _s in SETS:
    for _n in ("::<T>::new", "::<T, S>::new", "::<T>::with_capacity"):
        EXT[_s + _n] = _new_set
    for _g in ("::<T, S, A>", "::<T, S>", "::<T, A>", "::<T>"):
        EXT[_s + _g + "::insert"] = _set_insert
        EXT[_s + _g + "::is_empty"] = _is_empty
        EXT[_s + _g + "::len"] = _len
        EXT[_s + _g + "::iter"] = (lambda I, f, ga, args, node, fr: _unordered(I, args[0])) if "hash" in _s else (
            lambda I, f, ga, args, node, fr: over(I, args[0], _in_order))


@ext("alloc::slice::<impl [T]>::sort", "core::slice::<impl [T]>::sort_unstable", "alloc::slice::<impl [T]>::sort_by_key",
     "alloc::slice::<impl [T]>::sort_by")
def _sort(I, f, ga, args, node, fr):
    def one(v):
        if v.k == "arr" and len(v.a[0]) < 2:
            return v
        if v.k == "arr" and all(is_str(x) for x in v.a[0]) and len(args) == 1:
            return V("arr", tuple(sorted(v.a[0], key=lambda x: x.a[1])))
        return app("sorted", v, *args[1:])
    if node is not None:
        I.assign(node["a"][0], over(I, args[0], one), fr)
    return UNIT


def _decide(I, pred, x, fr):
    r = I.apply(pred, [x], fr)
    return r.a[1] if r.k == "lit" and isinstance(r.a[1], bool) else None


@ext("core::iter::traits::iterator::Iterator::filter")
def _filter(I, f, ga, args, node, fr):
    def one(v):
        els = I.elements(v)
        if els is not None and len(els) < 100:
            ds = [_decide(I, args[1], x, fr) for x in els]
            if None not in ds:
                return V("arr", tuple(x for x, d in zip(els, ds) if d))
        return app("iter:filter", v, args[1])
    return over(I, args[0], one)


_map_prev = EXT["core::iter::traits::iterator::Iterator::filter_map"]


@ext("core::iter::traits::iterator::Iterator::filter_map", "core::iter::traits::iterator::Iterator::flat_map")
def _filter_map(I, f, ga, args, node, fr):
    els = I.elements(args[0])
    if els is not None and len(els) < 100:
        out = []
        for x in els:
            r = I.apply(args[1], [x], fr)
            if r.k == "adt" and r.a[0] in (OPT, RES):
                if r.a[1] in ("Some", "Ok"):
                    out.append(r.a[2][0][1])
            elif r.k == "arr" and f["p"].endswith("flat_map"):
                out += r.a[0]
            else:
                return _map_prev(I, f, ga, args, node, fr)
        return V("arr", tuple(out))
    return _map_prev(I, f, ga, args, node, fr)


@ext("core::iter::traits::iterator::Iterator::flatten")
def _flatten(I, f, ga, args, node, fr):
    els = I.elements(args[0])
    if els is not None:
        out = []
        for r in els:
            if r.k == "adt" and r.a[0] in (OPT, RES):
                if r.a[1] in ("Some", "Ok"):
                    out.append(r.a[2][0][1])
            elif r.k == "arr":
                out += r.a[0]
            else:
                return None
        return V("arr", tuple(out))
    return None


@ext("core::iter::traits::iterator::Iterator::any", "core::iter::traits::iterator::Iterator::all")
def _any_all(I, f, ga, args, node, fr):
    els = I.elements(args[0])
    if els is not None:
        ds = [_decide(I, args[1], x, fr) for x in els]
        if f["p"].endswith("any"):
            if True in ds:
                return lit(True)
            if None not in ds:
                return lit(False)
        else:
            if False in ds:
                return lit(False)
            if None not in ds:
                return lit(True)
    return None


@ext("core::iter::traits::iterator::Iterator::find", "core::iter::traits::iterator::Iterator::position")
def _find(I, f, ga, args, node, fr):
    els = I.elements(args[0])
    if els is not None:
        for i, x in enumerate(els):
            d = _decide(I, args[1], x, fr)
            if d is None:
                return None
            if d:
                return Some(x if f["p"].endswith("find") else lit(i))
        return NONE
    return None


@ext("core::iter::traits::iterator::Iterator::last", "core::slice::<impl [T]>::last",
     "core::iter::traits::iterator::Iterator::next")
def _last(I, f, ga, args, node, fr):
    els = I.elements(args[0])
    if els is None:
        return None
    nxt = f["p"].endswith("next")
    if nxt:
        if node is None:
            return None
        I.assign(node["a"][0], V("arr", tuple(els[1:])), fr)
        return Some(els[0]) if els else NONE
    return Some(els[-1]) if els else NONE


@ext("core::iter::traits::iterator::Iterator::zip")
def _zip(I, f, ga, args, node, fr):
    a, b = I.elements(args[0]), I.elements(args[1])
    if a is not None and b is not None:
        return V("arr", tuple(V("tup", p) for p in zip(a, b)))
    return app("iter:zip", *args)


@ext("core::iter::traits::iterator::Iterator::count")
def _count(I, f, ga, args, node, fr):
    els = I.elements(args[0])
    return lit(len(els)) if els is not None else None


@ext("alloc::vec::from_elem")
def _from_elem(I, f, ga, args, node, fr):
    if litval(args[1]) is not None and isinstance(args[1].a[1], int) and args[1].a[1] < 64:
        return V("arr", tuple([args[0]] * args[1].a[1]))
    return None


@ext("core::array::<impl [T; N]>::map")
def _arr_map(I, f, ga, args, node, fr):
    return EXT["core::iter::traits::iterator::Iterator::map"](I, {"p": "core::iter::traits::iterator::Iterator::map"}, ga,
                                                              args, node, fr)


def _intop(name):
    kind, op = name.split("_", 1)

    def h(I, f, ga, args, node, fr):
        for i, a in enumerate(args[:2]):
            if a.k == "phi" and all(x.k == "lit" for _, x in a.a[0]):
                return phi([(g, y) for g, x in a.a[0] for y in [h(I, f, ga, args[:i] + [x] + args[i + 1:], node, fr)] if y is not None])
        m = re.search(r"impl ([iu](?:\d+|size))>", f["p"])
        if not m or not all(a.k == "lit" and a.a[0] == "int" for a in args):
            return None
        bits, signed = INTS[m.group(1)]
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        a, b = args[0].a[1], args[1].a[1] if len(args) > 1 else 0
        if op in ("div", "rem") and b == 0:
            return NONE if kind == "checked" else None
        x = {"add": a + b, "sub": a - b, "mul": a * b, "neg": -a, "abs": abs(a)}.get(op)
        if x is None:
            return None
        if kind == "saturating":
            return lit(min(max(x, lo), hi))
        return Some(lit(x)) if lo <= x <= hi else NONE
    return h


for _t in INTS:
    for _n in ("saturating_add", "saturating_sub", "saturating_mul", "checked_add", "checked_sub", "checked_mul",
               "checked_neg", "checked_abs"):
        EXT["core::num::<impl %s>::%s" % (_t, _n)] = _intop(_n)


def _charop(name):
    def h(I, f, ga, args, node, fr):
        if not is_str(args[0]) or len(args[0].a[1]) != 1:
            return None
        c = args[0].a[1]
        asc = ord(c) < 128
        fns = {"is_ascii_alphabetic": asc and c.isalpha(), "is_alphabetic": c.isalpha(), "is_ascii_digit": c in "0123456789",
               "is_ascii_alphanumeric": asc and c.isalnum(), "is_alphanumeric": c.isalnum(), "is_numeric": c.isnumeric(),
               "is_whitespace": c.isspace(), "is_ascii_whitespace": c in " \t\n\x0c\r", "is_ascii": asc,
               "is_uppercase": c.isupper(), "is_lowercase": c.islower(), "is_ascii_uppercase": asc and c.isupper(),
               "is_ascii_lowercase": asc and c.islower(), "is_control": ord(c) < 32 or 127 <= ord(c) < 160,
               "is_ascii_punctuation": asc and c in "!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~"}
        if name == "len_utf8":
            return lit(len(c.encode()))
        return lit(bool(fns[name]))
    return h


for _n in ("is_ascii_alphabetic", "is_alphabetic", "is_ascii_digit", "is_ascii_alphanumeric", "is_alphanumeric", "is_numeric",
           "is_whitespace", "is_ascii_whitespace", "is_ascii", "is_uppercase", "is_lowercase", "is_ascii_uppercase",
           "is_ascii_lowercase", "is_control", "is_ascii_punctuation", "len_utf8"):
    EXT["core::char::methods::<impl char>::" + _n] = _charop(_n)


@ext("alloc::string::String::clear")
def _clear(I, f, ga, args, node, fr):
    if node is not None:
        I.assign(node["a"][0], lit(""), fr)
    return UNIT


for _n in ("is_empty", "len"):
    EXT["alloc::string::String::" + _n] = EXT["core::str::<impl str>::" + _n]


@ext("core::option::Option::<T>::iter", "core::option::Option::<T>::into_iter", "core::option::Option::<T>::iter_mut")
def _opt_iter(I, f, ga, args, node, fr):
    return over(I, args[0], lambda v: V("arr", tuple(I.elements(v))) if v.k == "adt" and v.a[0] == OPT else app("iter", v))


def _default_like(v):
    if v.k == "arr":
        return V("arr", ())
    if v.k in ("fmt",) or is_str(v):
        return lit("")
    if v.k == "lit":
        return lit(type(v.a[1])())
    if v.k == "adt" and v.a[0] == OPT:
        return NONE
    if v.k == "phi":
        ds = [_default_like(x) for _, x in v.a[0]]
        return ds[0] if all(d == ds[0] for d in ds) else None
    return None


@ext("core::mem::take", "core::option::Option::<T>::take")
def _mem_take(I, f, ga, args, node, fr):
    d = NONE if "Option" in f["p"] else _default_like(args[0])
    if node is not None and node.get("a"):
        I.assign(node["a"][0], d if d is not None else app("default", args[0]), fr)
    return args[0]


@ext("core::mem::replace", "core::option::Option::<T>::replace")
def _mem_replace(I, f, ga, args, node, fr):
    if node is not None and node.get("a"):
        I.assign(node["a"][0], Some(args[1]) if "Option" in f["p"] else args[1], fr)
    return args[0]


@ext("alloc::vec::Vec::<T, A>::clear")
def _vec_clear(I, f, ga, args, node, fr):
    if node is not None:
        I.assign(node["a"][0], V("arr", ()), fr)
    return UNIT


@ext("core::slice::<impl [T]>::contains")
def _slice_contains(I, f, ga, args, node, fr):
    els = I.elements(args[0])
    if els is None:
        return None

    def one(x):
        ds = []
        for e in els:
            r = _eq(I, {"p": "eq"}, ga, [e, x], None, fr)
            ds.append(r.a[1] if r.k == "lit" else None)
        if True in ds:
            return lit(True)
        if None not in ds:
            return lit(False)
        return app("contains", args[0], x)
    return over(I, args[1], one)


@ext("core::iter::adapters::peekable::Peekable::<I>::peek", "core::iter::adapters::peekable::Peekable::<I>::peek_mut")
def _peek(I, f, ga, args, node, fr):
    els = I.elements(args[0])
    if els is None:
        return None
    return Some(els[0]) if els else NONE


@ext("core::iter::adapters::peekable::Peekable::<I>::next_if", "core::iter::adapters::peekable::Peekable::<I>::next_if_eq")
def _next_if(I, f, ga, args, node, fr):
    els = I.elements(args[0])
    if els is None or node is None:
        return None
    if not els:
        return NONE
    if f["p"].endswith("_eq"):
        r = _eq(I, {"p": "eq"}, ga, [els[0], args[1]], None, fr)
        d = r.a[1] if r.k == "lit" else None
    else:
        d = _decide(I, args[1], els[0], fr)
    if d is None:
        return None
    if not d:
        return NONE
    I.assign(node["a"][0], V("arr", tuple(els[1:])), fr)
    return Some(els[0])


def _entries(m):
    """pairs of a map collected from a known list, later keys replacing earlier ones; None if unknown"""
    if m.k == "app" and m.a[0] == "collect:Hash" and m.a[1][0].k == "arr":
        d = {}
        for x in m.a[1][0].a[0]:
            if x.k != "tup" or len(x.a[0]) != 2 or not is_str(x.a[0][0]):
                return None
            d[x.a[0][0].a[1]] = x.a[0][1]
        return d
    return None


@ext(*[m + "::<K, V, S, A>::" + f for m in ("std::collections::hash::map::HashMap",)
       for f in ("get", "contains_key")])
def _map_get(I, f, ga, args, node, fr):
    d = _entries(args[0])
    if d is None or not is_str(args[1]):
        return None
    x = d.get(args[1].a[1])
    if f["p"].endswith("contains_key"):
        return lit(x is not None)
    return Some(x) if x is not None else NONE
