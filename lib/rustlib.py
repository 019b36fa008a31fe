"""Further models of the Rust standard library, used where a collection, option or text is known element by element.
A model that cannot decide returns None (or the opaque application), so the result stays unknown rather than wrong."""
from absint import EXT, NEVER, NONE, OPT, RES, UNIT, V, Err, Ok, Some, _decide, alts, app, ext, is_str, lit, litval, over, phi

IT = "core::iter::traits::iterator::Iterator::"
DE = "core::iter::traits::double_ended::DoubleEndedIterator::"
SL = "core::slice::<impl [T]>::"
VEC = "alloc::vec::Vec::<T, A>::"
OP = "core::option::Option::<T>::"
RS = "core::result::Result::<T, E>::"
ST = "core::str::<impl str>::"
STR = "alloc::string::String::"
CAP = 100


def els_of(I, v):
    e = I.elements(v)
    return e if e is not None and len(e) < CAP else None


def arr(xs):
    return V("arr", tuple(xs))


def num(v):
    x = litval(v)
    return x if isinstance(x, int) and not isinstance(x, bool) else None


def keep(*names):
    """a model on known elements; falls back to what was modelled before"""
    def model(fn, prev, last):
        def h(I, f, ga, args, node, fr):
            if args and args[0].k == "phi":
                # constructs that write to their receiver are not distributed over alternatives
                if last not in WRITES:
                    parts = [(g, h(I, f, ga, [x] + list(args[1:]), node, fr)) for g, x in args[0].a[0]]
                    return None if any(p is None for _, p in parts) else phi(parts)
                return prev(I, f, ga, args, node, fr) if prev else None
            r = fn(I, last, args, node, fr)
            return prev(I, f, ga, args, node, fr) if r is None and prev else r
        return h

    def d(fn):
        for n in names:
            EXT[n] = model(fn, EXT.get(n), n.rsplit("::", 1)[1])
        return fn
    return d


WRITES = {"pop", "remove", "truncate", "swap", "reverse", "retain", "retain_mut", "dedup", "drain", "split_off", "pop_front", "pop_back",
          "push_front", "push_back", "next_back", "insert", "get_or_insert_with", "get_or_insert", "swap_remove", "resize", "insert_str",
          "nth", "entry"}


# ------------------------------------------------------------------ sources
@ext("core::iter::sources::once::once")
def _once(I, f, ga, args, node, fr):
    return arr([args[0]])


@ext("core::iter::sources::empty::empty")
def _empty(I, f, ga, args, node, fr):
    return arr([])


@ext("core::iter::sources::repeat_n::repeat_n")
def _repeat_n(I, f, ga, args, node, fr):
    n = num(args[1])
    return arr([args[0]] * n) if n is not None and n < CAP else None


# ------------------------------------------------------------------ iterators over known elements
@keep(*[IT + n for n in ("rev", "skip", "take", "step_by", "enumerate", "zip", "chain", "take_while", "skip_while", "map_while", "nth",
                         "partition", "unzip", "min", "max", "sum", "product", "find_map", "rposition", "try_for_each", "eq", "ne",
                         "scan", "max_by_key", "min_by_key", "cycle", "flatten", "is_sorted")],
      DE + "rfold", DE + "rfind", DE + "nth_back")
def _iters(I, n, args, node, fr):
    es = els_of(I, args[0])
    if es is None:
        return None
    a = args[1] if len(args) > 1 else None
    if n == "rev":
        return arr(es[::-1])
    if n in ("skip", "take", "nth", "nth_back", "step_by"):
        k = num(a)
        if k is None or k < 0:
            return None
        if n == "skip":
            return arr(es[k:])
        if n == "take":
            return arr(es[:k])
        if n == "step_by":
            return arr(es[::k]) if k else None
        if n == "nth" and node is not None:
            I.assign(node["a"][0], arr(es[k + 1:]), fr)
        es = es if n == "nth" else es[::-1]
        return Some(es[k]) if k < len(es) else NONE
    if n == "enumerate":
        return arr(V("tup", (lit(i), x)) for i, x in enumerate(es))
    if n in ("zip", "chain"):
        o = els_of(I, a)
        if o is None:
            return None
        return arr(es + o) if n == "chain" else arr(V("tup", (x, y)) for x, y in zip(es, o))
    if n in ("eq", "ne"):
        o = els_of(I, a)
        if o is None or any(x.k != "lit" for x in es + o):
            return None
        return lit(([x.a[1] for x in es] == [x.a[1] for x in o]) == (n == "eq"))
    if n in ("take_while", "skip_while"):
        for i, x in enumerate(es):
            d = _decide(I, a, x, fr)
            if d is None:
                return None
            if not d:
                return arr(es[:i] if n == "take_while" else es[i:])
        return arr(es if n == "take_while" else [])
    if n == "partition":
        ds = [_decide(I, a, x, fr) for x in es]
        return None if None in ds else V("tup", (arr(x for x, d in zip(es, ds) if d), arr(x for x, d in zip(es, ds) if not d)))
    if n in ("rfind", "rposition"):
        for i, x in reversed(list(enumerate(es))):
            d = _decide(I, a, x, fr)
            if d is None:
                return None
            if d:
                return Some(x if n == "rfind" else lit(i))
        return NONE
    if n in ("map_while", "find_map"):
        out = []
        for x in es:
            r = I.apply(a, [x], fr)
            if r.k != "adt" or r.a[0] != OPT:
                return None
            if n == "find_map" and r.a[1] == "Some":
                return r
            if n == "map_while" and r.a[1] == "None":
                break
            if n == "map_while":
                out.append(r.a[2][0][1])
        return NONE if n == "find_map" else arr(out)
    if n == "unzip":
        if not all(x.k == "tup" and len(x.a[0]) == 2 for x in es):
            return None
        return V("tup", (arr(x.a[0][0] for x in es), arr(x.a[0][1] for x in es)))
    if n in ("min", "max", "sum", "product"):
        ns = [num(x) for x in es]
        if None in ns:
            return None
        if n in ("min", "max"):
            return Some(lit((min if n == "min" else max)(ns))) if ns else NONE
        t = 1 if n == "product" else 0
        for x in ns:
            t = t * x if n == "product" else t + x
        return lit(t)
    if n in ("max_by_key", "min_by_key"):
        ks = [num(I.apply(a, [x], fr)) for x in es]
        if None in ks:
            return None
        best = None
        for k, x in zip(ks, es):
            if best is None or (k >= best[0] if n[:3] == "max" else k < best[0]):
                best = (k, x)
        return Some(best[1]) if best else NONE
    if n == "rfold":
        acc = a
        for x in es[::-1]:
            acc = I.apply(args[2], [acc, x], fr)
        return acc
    if n == "flatten":
        parts = [els_of(I, x) for x in es]
        return None if None in parts else arr(y for p in parts for y in p)
    if n == "try_for_each":
        bad = []
        for x in es:
            r = I.apply(a, [x], fr)
            if not all(y.k == "adt" and y.a[0] == RES for _, y in alts(r)):
                return None
            bad += [(g, y) for g, y in alts(r) if y.a[1] == "Err"]
            if all(y.a[1] == "Err" for _, y in alts(r)):
                return phi(bad)
        return phi(bad + [((), Ok(UNIT))])
    return None


@keep(DE + "next_back", VEC + "pop", "alloc::collections::vec_deque::VecDeque::<T, A>::pop_back",
      "alloc::collections::vec_deque::VecDeque::<T, A>::pop_front")
def _pop(I, n, args, node, fr):
    es = els_of(I, args[0])
    if es is None or node is None:
        return None
    if not es:
        return NONE
    x, rest = (es[0], es[1:]) if n == "pop_front" else (es[-1], es[:-1])
    I.assign(node["a"][0], arr(rest), fr)
    return Some(x)


def ground(x):
    """a value without unknown parts: two such are equal exactly when they are the same term"""
    if x.k == "lit":
        return True
    if x.k == "adt":
        return all(ground(v) for _, v in x.a[2])
    return x.k in ("tup", "arr") and all(ground(v) for v in x.a[0])


@keep(VEC + "remove", VEC + "swap_remove", VEC + "truncate", VEC + "retain", VEC + "retain_mut", VEC + "dedup", VEC + "split_off",
      VEC + "resize", VEC + "drain", SL + "swap", SL + "reverse", "alloc::collections::vec_deque::VecDeque::<T, A>::push_front",
      "alloc::vec::Vec::<T, A>::swap", "alloc::vec::Vec::<T, A>::reverse")
def _vec(I, n, args, node, fr):
    es = els_of(I, args[0])
    if es is None or node is None:
        return None
    ret = UNIT
    k = num(args[1]) if len(args) > 1 else None
    if n in ("remove", "swap_remove"):
        if k is None:
            return None
        if not 0 <= k < len(es):
            I.panic("index %d of a sequence of %d" % (k, len(es)), fr)
            return NEVER
        ret = es[k]
        if n == "remove":
            es = es[:k] + es[k + 1:]
        else:
            last = es.pop()
            if k < len(es):
                es[k] = last
    elif n == "truncate":
        if k is None:
            return None
        es = es[:k]
    elif n == "split_off":
        if k is None or k > len(es):
            return None
        ret, es = arr(es[k:]), es[:k]
    elif n == "drain":
        r = dict(args[1].a[2]) if args[1].k == "adt" else None
        if r is None:
            return None
        s = num(r["start"]) if "start" in r else 0
        e = num(r["end"]) if "end" in r else len(es)
        if s is None or e is None:
            return None
        ret, es = arr(es[s:e]), es[:s] + es[e:]
    elif n in ("retain", "retain_mut"):
        ds = [_decide(I, args[1], x, fr) for x in es]
        if None in ds:
            return None
        es = [x for x, d in zip(es, ds) if d]
    elif n == "dedup":
        if len(es) > 1 and any(es[i] is not es[i + 1] and not (ground(es[i]) and ground(es[i + 1])) for i in range(len(es) - 1)):
            return None
        es = [x for i, x in enumerate(es) if not i or x is not es[i - 1]]
    elif n == "resize":
        if k is None or k > CAP:
            return None
        es = (es + [args[2]] * k)[:k]
    elif n == "swap":
        j = num(args[2])
        if k is None or j is None or max(k, j) >= len(es):
            return None
        es = list(es)
        es[k], es[j] = es[j], es[k]
    elif n == "reverse":
        es = es[::-1]
    elif n == "push_front":
        es = [args[1]] + es
    I.assign(node["a"][0], arr(es), fr)
    return ret


@keep(SL + "split_first", SL + "split_last", SL + "split_at", SL + "windows", SL + "chunks", SL + "chunks_exact", SL + "first",
      SL + "last", SL + "iter", SL + "concat", SL + "repeat", SL + "starts_with", SL + "ends_with",
      "alloc::collections::vec_deque::VecDeque::<T, A>::len", "alloc::collections::vec_deque::VecDeque::<T, A>::is_empty")
def _slice(I, n, args, node, fr):
    es = els_of(I, args[0])
    if es is None:
        return None
    k = num(args[1]) if len(args) > 1 else None
    if n == "len":
        return lit(len(es))
    if n == "is_empty":
        return lit(not es)
    if n == "iter":
        return arr(es)
    if n == "first":
        return Some(es[0]) if es else NONE
    if n == "last":
        return Some(es[-1]) if es else NONE
    if n == "split_first":
        return Some(V("tup", (es[0], arr(es[1:])))) if es else NONE
    if n == "split_last":
        return Some(V("tup", (es[-1], arr(es[:-1])))) if es else NONE
    if n == "concat":
        parts = [els_of(I, x) if not is_str(x) else None for x in es]
        return None if None in parts else arr(y for p in parts for y in p)
    if k is None or k < 0:
        return None
    if n == "split_at":
        return V("tup", (arr(es[:k]), arr(es[k:]))) if k <= len(es) else None
    if n == "repeat":
        return arr(es * k) if k * len(es) < CAP else None
    if k == 0:
        return None
    if n == "windows":
        return arr(arr(es[i:i + k]) for i in range(len(es) - k + 1))
    if n in ("chunks", "chunks_exact"):
        cs = [es[i:i + k] for i in range(0, len(es), k)]
        return arr(arr(c) for c in cs if n == "chunks" or len(c) == k)
    return None


# ------------------------------------------------------------------ options and results
@keep(*[OP + n for n in ("is_some_and", "is_none_or", "map_or", "map_or_else", "zip", "xor", "and", "flatten", "inspect", "cloned", "copied",
                         "get_or_insert_with", "get_or_insert", "insert", "unzip", "as_slice", "transpose", "then")])
def _option(I, n, args, node, fr):
    v = args[0]
    if v.k != "adt" or v.a[0] != OPT:
        return None
    some = v.a[1] == "Some"
    x = v.a[2][0][1] if some else None
    if n in ("cloned", "copied", "inspect"):
        return v
    if n == "as_slice":
        return arr([x] if some else [])
    if n == "is_some_and":
        return I.apply(args[1], [x], fr) if some else lit(False)
    if n == "is_none_or":
        return I.apply(args[1], [x], fr) if some else lit(True)
    if n == "map_or":
        return I.apply(args[2], [x], fr) if some else args[1]
    if n == "map_or_else":
        return I.apply(args[2], [x], fr) if some else I.apply(args[1], [], fr)
    if n == "flatten":
        return x if some else NONE
    if n == "transpose":
        if not some:
            return Ok(NONE)
        if not all(y.k == "adt" and y.a[0] == RES for _, y in alts(x)):
            return None
        return phi([(g, Ok(Some(y.a[2][0][1])) if y.a[1] == "Ok" else y) for g, y in alts(x)])
    if n == "and":
        return args[1] if some else NONE
    if n in ("zip", "xor"):
        o = args[1]
        if o.k != "adt" or o.a[0] != OPT:
            return None
        osome = o.a[1] == "Some"
        if n == "zip":
            return Some(V("tup", (x, o.a[2][0][1]))) if some and osome else NONE
        return v if some and not osome else o if osome and not some else NONE
    if n == "unzip":
        if not some:
            return V("tup", (NONE, NONE))
        return V("tup", (Some(x.a[0][0]), Some(x.a[0][1]))) if x.k == "tup" and len(x.a[0]) == 2 else None
    if n in ("get_or_insert_with", "get_or_insert", "insert") and node is not None:
        if n == "insert" or not some:
            x = I.apply(args[1], [], fr) if n.endswith("with") else args[1]
            I.assign(node["a"][0], Some(x), fr)
        return x
    return None


@keep(*[RS + n for n in ("is_ok_and", "is_err_and", "and", "or", "err", "map_or", "map_or_else", "transpose", "flatten", "inspect",
                         "inspect_err", "iter", "into_iter", "unwrap_err", "cloned", "copied")])
def _result(I, n, args, node, fr):
    v = args[0]
    if v.k != "adt" or v.a[0] != RES:
        return None
    ok = v.a[1] == "Ok"
    x = v.a[2][0][1]
    if n in ("inspect", "inspect_err", "cloned", "copied"):
        return v
    if n in ("iter", "into_iter"):
        return arr([x] if ok else [])
    if n == "is_ok_and":
        return I.apply(args[1], [x], fr) if ok else lit(False)
    if n == "is_err_and":
        return I.apply(args[1], [x], fr) if not ok else lit(False)
    if n == "and":
        return args[1] if ok else v
    if n == "or":
        return v if ok else args[1]
    if n == "err":
        return NONE if ok else Some(x)
    if n == "unwrap_err":
        if ok:
            I.panic("unwrap_err of Ok", fr)
            return NEVER
        return x
    if n == "map_or":
        return I.apply(args[2], [x], fr) if ok else args[1]
    if n == "map_or_else":
        return I.apply(args[2], [x], fr) if ok else I.apply(args[1], [x], fr)
    if n == "flatten":
        return x if ok else v
    if n == "transpose":
        if not ok:
            return Some(v)
        if not all(y.k == "adt" and y.a[0] == OPT for _, y in alts(x)):
            return None
        return phi([(g, Some(Ok(y.a[2][0][1])) if y.a[1] == "Some" else NONE) for g, y in alts(x)])
    return None


@ext("core::bool::<impl bool>::then", "core::bool::<impl bool>::then_some")
def _then(I, f, ga, args, node, fr):
    lazy = f["p"].endswith("::then")

    def val():
        return I.apply(args[1], [], fr) if lazy else args[1]
    if args[0].k == "lit":
        return Some(val()) if args[0].a[1] else NONE
    if args[0].k == "phi":
        return over(I, args[0], lambda b: _then(I, f, ga, [b, args[1]], node, fr))
    return phi([((("true", args[0]),), Some(val())), ((("false", args[0]),), NONE)])


# ------------------------------------------------------------------ texts
@keep(*[ST + n for n in ("find", "rfind", "split_at", "char_indices", "splitn", "rsplit", "rsplitn", "matches", "repeat", "split_whitespace",
                         "split_ascii_whitespace", "split_terminator", "split_inclusive", "as_bytes", "chars", "to_owned", "get")],
      "alloc::str::<impl str>::repeat", "alloc::str::<impl str>::to_owned", "core::str::<impl str>::strip_prefix", ST + "strip_suffix",
      ST + "trim_matches", ST + "trim_start_matches", ST + "trim_end_matches", ST + "split")
def _text(I, n, args, node, fr):
    v = args[0]
    if not is_str(v):
        return None
    t = v.a[1]
    if n == "to_owned":
        return v
    if n == "chars":
        return arr(lit(c) for c in t) if len(t) < CAP else None
    if n == "char_indices":
        return arr(V("tup", (lit(len(t[:i].encode())), lit(c))) for i, c in enumerate(t)) if len(t) < CAP else None
    if n in ("split_whitespace", "split_ascii_whitespace"):
        return arr(lit(x) for x in t.split())
    a = args[1] if len(args) > 1 else None
    if n in ("repeat", "split_at"):
        k = num(a)
        if k is None or k < 0 or not t.isascii():
            return None
        if n == "repeat":
            return lit(t * k) if k * len(t) < 2000 else None
        return V("tup", (lit(t[:k]), lit(t[k:]))) if k <= len(t) else None
    if n == "get":
        r = dict(a.a[2]) if a is not None and a.k == "adt" else None
        if r is None or not t.isascii():
            return None
        s, e = num(r["start"]) if "start" in r else 0, num(r["end"]) if "end" in r else len(t)
        if s is None or e is None:
            return None
        return Some(lit(t[s:e])) if 0 <= s <= e <= len(t) else NONE
    if n in ("splitn", "rsplitn"):
        k, p = num(a), args[2]
        if k is None or not is_str(p) or not p.a[1] or k < 1:
            return None
        return arr(lit(x) for x in (t.split(p.a[1], k - 1) if n == "splitn" else t.rsplit(p.a[1], k - 1)[::-1]))
    pat = None
    if is_str(a):
        pat = a.a[1]
    elif a is not None:
        from absint import _charpat
        ds = [_charpat(I, a, c, fr) for c in t]
        if None in ds:
            return None
        if n == "find":
            return Some(lit(len(t[:ds.index(True)].encode()))) if True in ds else NONE
        if n == "rfind":
            i = len(ds) - 1 - ds[::-1].index(True) if True in ds else -1
            return Some(lit(len(t[:i].encode()))) if i >= 0 else NONE
        if n == "matches":
            return arr(lit(c) for c, d in zip(t, ds) if d)
        if n.startswith("trim_"):
            i, j = 0, len(t)
            while n != "trim_end_matches" and i < j and ds[i]:
                i += 1
            while n != "trim_start_matches" and j > i and ds[j - 1]:
                j -= 1
            return lit(t[i:j])
        if n == "strip_prefix":
            return Some(lit(t[1:])) if t and ds[0] else NONE
        if n == "strip_suffix":
            return Some(lit(t[:-1])) if t and ds[-1] else NONE
        if n in ("split", "rsplit"):
            out, cur = [], ""
            for c, d in zip(t, ds):
                if d:
                    out.append(cur)
                    cur = ""
                else:
                    cur += c
            out.append(cur)
            return arr(lit(x) for x in (out if n == "split" else out[::-1]))
        return None
    if not pat:
        return None
    if n in ("find", "rfind"):
        i = t.find(pat) if n == "find" else t.rfind(pat)
        return Some(lit(len(t[:i].encode()))) if i >= 0 else NONE
    if n == "rsplit":
        return arr(lit(x) for x in t.split(pat)[::-1])
    if n == "split_terminator":
        xs = t.split(pat)
        return arr(lit(x) for x in (xs[:-1] if xs and xs[-1] == "" else xs))
    if n == "split_inclusive":
        xs = t.split(pat)
        return arr(lit(x) for x in [y + pat for y in xs[:-1]] + ([xs[-1]] if xs[-1] else []))
    if n == "matches":
        return arr(lit(pat) for _ in range(t.count(pat)))
    return None


@keep(STR + "pop", STR + "insert", STR + "insert_str", STR + "truncate", STR + "remove")
def _string(I, n, args, node, fr):
    v = args[0]
    if not is_str(v) or node is None or not v.a[1].isascii():
        return None
    t = v.a[1]
    if n == "pop":
        I.assign(node["a"][0], lit(t[:-1]), fr)
        return Some(lit(t[-1])) if t else NONE
    k = num(args[1])
    if k is None or not 0 <= k <= len(t):
        return None
    if n == "truncate":
        I.assign(node["a"][0], lit(t[:k]), fr)
        return UNIT
    if n == "remove":
        if k >= len(t):
            return None
        I.assign(node["a"][0], lit(t[:k] + t[k + 1:]), fr)
        return lit(t[k])
    if not is_str(args[2]):
        return None
    I.assign(node["a"][0], lit(t[:k] + args[2].a[1] + t[k:]), fr)
    return UNIT
