"""Abstract interpretation of the parser: the THIR of the parsing functions is interpreted over abstract query texts.

An abstract text is a character string in which a *hole* (one private-use character) stands for every string of a
lexical class (all identifiers, all numbers, all contents of a quoted string, …).  The combinators of the parser
library are modelled here; every local function, closure and conversion is interpreted from the source.  A question
about a hole whose answer depends on the concrete string ("does the field begin with `by`?") is answered by the
generic-word assumption (it does not) and recorded: `asked` lists the texts a hole was compared with, and the caller
analyses the words that begin with such a text as further cases, so the assumption is discharged rather than trusted.
"""
import ipaddress
import string

from absint import (EXT, NONE, RES, UNIT, Err, Interp, Ok, Some, V, alts, app, ext, is_str, lit, litval, mkadt, phi)
from emit import Undecided

SPACE = " \t\r\n"
DIG = string.digits
ALNUM = string.ascii_letters + DIG
PRINT = "".join(chr(c) for c in range(32, 127))


class Class:
    def __init__(self, name, first, rest):
        self.name, self.first, self.rest = name, first, rest
        self.all = "".join(dict.fromkeys(first + rest))


CLASSES = {
    "name": Class("name", string.ascii_letters, ALNUM + "_"),
    "rest": Class("rest", ALNUM + "_", ALNUM + "_"),            # continuation of a word
    "int": Class("int", DIG, DIG),
    "text": Class("text", "".join(c for c in PRINT + "\t\né日" if c not in '"\\*'), "".join(c for c in PRINT + "\t\né日" if c not in '"\\*')),
    "glob": Class("glob", ALNUM, ALNUM + "_"),
    "outside": Class("outside", *["".join(c for c in PRINT + "\t\né日" if c != "`")] * 2),    # text between macro calls
}
BASE = 0xE000
NAMES = {}      # hole character -> (name, Class)


def hole(name, cls):
    for ch, (n, c) in NAMES.items():
        if n == name and c.name == cls:
            return ch
    ch = chr(BASE + len(NAMES))
    NAMES[ch] = (name, CLASSES[cls])
    return ch


def is_hole(c):
    return c in NAMES


def has_hole(s):
    return any(c in NAMES for c in s)


class Parser:
    def __init__(self, I):
        self.I = I
        self.asked = {}
        self.memo = {}
        I.parser = self

    # -- questions about holes ------------------------------------------------------------------------------
    def note(self, h, what):
        self.asked.setdefault(h, set()).add(what)

    def chars(self, h, chars, what=None):
        """how do the characters of the hole relate to a predicate: (first, all) each True/False/None (mixed)"""
        f = [c in chars if isinstance(chars, (str, set)) else chars(c) for c in NAMES[h][1].first]
        r = [c in chars if isinstance(chars, (str, set)) else chars(c) for c in NAMES[h][1].rest]
        first = True if all(f) else False if not any(f) else None
        both = True if all(f) and all(r) else False if not any(f) and not any(r) else None
        return first, both

    # -- running parsers ------------------------------------------------------------------------------------
    def run(self, p, s, fr):
        """-> ("ok", rest, value) or ("err", value)"""
        key = (p.i, s)
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self.run1(p, s, fr)
        return r

    def run1(self, p, s, fr):
        if p.k == "nomp":
            return getattr(self, "p_" + p.a[0])(p.a[1], s, fr)
        v = self.I.apply(p, [lit(s)], fr)
        return self.outcome(v, p)

    def outcome(self, v, p):
        rs = set()
        for _, x in alts(v):
            if x.k == "adt" and x.a[0] == RES:
                y = x.a[2][0][1]
                if x.a[1] == "Err":
                    rs.add(("err", y))
                    continue
                if y.k == "tup" and is_str(y.a[0][0]):
                    rs.add(("ok", y.a[0][0].a[1], y.a[0][1]))
                    continue
            raise Undecided("parser result not understood: %s from %s" % (str(x)[:300], str(p)[:120]))
        if len(rs) == 1:
            return rs.pop()
        if all(r[0] == "err" for r in rs):
            return ("err", V("sym", "parse error", ""))
        oks = {r[1] for r in rs if r[0] == "ok"}
        if len(oks) == 1 and all(r[0] == "ok" for r in rs):
            return ("ok", oks.pop(), phi([((), r[2]) for r in rs]))
        raise Undecided("parser outcome depends on an unknown condition: %s" % str(v)[:300])

    def value(self, r):
        return Ok(V("tup", (lit(r[1]), r[2]))) if r[0] == "ok" else Err(r[1])

    ERR = ("err", mkadt("nom::internal::Err", "Error", (("0", V("sym", "error", "")),)))

    def p_map(self, a, s, fr):
        r = self.run(a[0], s, fr)
        return r if r[0] == "err" else ("ok", r[1], self.I.apply(a[1], [r[2]], fr))

    def p_into(self, a, s, fr):
        r = self.run(a[0], s, fr)
        return r if r[0] == "err" else ("ok", r[1], self.I.convert(r[2], litval(a[1]), litval(a[2]), fr, "from"))

    def p_opt(self, a, s, fr):
        r = self.run(a[0], s, fr)
        if self.fatal(r):
            return r
        return ("ok", r[1], Some(r[2])) if r[0] == "ok" else ("ok", s, NONE)

    def p_peek(self, a, s, fr):
        r = self.run(a[0], s, fr)
        return ("ok", s, r[2]) if r[0] == "ok" else r

    def p_not(self, a, s, fr):
        r = self.run(a[0], s, fr)
        return ("ok", s, UNIT) if r[0] == "err" else self.ERR

    def p_value(self, a, s, fr):
        r = self.run(a[1], s, fr)
        return ("ok", r[1], a[0]) if r[0] == "ok" else r

    def p_verify(self, a, s, fr):
        r = self.run(a[0], s, fr)
        if r[0] == "err":
            return r
        c = self.I.apply(a[1], [r[2]], fr)
        if c.k == "lit" and isinstance(c.a[1], bool):
            return r if c.a[1] else self.ERR
        raise Undecided("verify condition: %s" % str(c)[:200])

    def p_recognize(self, a, s, fr):
        r = self.run(a[0], s, fr)
        return r if r[0] == "err" else ("ok", r[1], lit(s[:len(s) - len(r[1])]))

    def p_all_consuming(self, a, s, fr):
        r = self.run(a[0], s, fr)
        return r if r[0] == "err" or r[1] == "" else self.ERR

    def p_map_parser(self, a, s, fr):
        r = self.run(a[0], s, fr)
        if r[0] == "err":
            return r
        if not is_str(r[2]):
            raise Undecided("map_parser on %s" % r[2])
        q = self.run(a[1], r[2].a[1], fr)
        return q if q[0] == "err" else ("ok", r[1], q[2])

    def p_alt(self, a, s, fr):
        last = self.ERR
        for p in a:
            last = self.run(p, s, fr)
            if last[0] == "ok":
                return last
            if self.fatal(last):
                return last
        return last

    def fatal(self, r):
        """an error no alternative recovers from"""
        return r[0] == "err" and r[1].k == "adt" and r[1].a[1] == "Failure"

    FAIL = ("err", mkadt("nom::internal::Err", "Failure", (("0", V("sym", "error", "")),)))

    def p_cut(self, a, s, fr):
        r = self.run(a[0], s, fr)
        return r if r[0] == "ok" else self.FAIL

    def p_success(self, a, s, fr):
        return ("ok", s, a[0])

    def p_fail(self, a, s, fr):
        return self.ERR

    def p_rest(self, a, s, fr):
        return ("ok", "", lit(s))

    def p_same(self, a, s, fr):
        return self.run(a[0], s, fr)

    def p_cond(self, a, s, fr):
        c = litval(a[0])
        if not isinstance(c, bool):
            raise Undecided("cond on %s" % str(a[0])[:100])
        if not c:
            return ("ok", s, NONE)
        r = self.run(a[1], s, fr)
        return ("ok", r[1], Some(r[2])) if r[0] == "ok" else r

    def p_consumed(self, a, s, fr):
        r = self.run(a[0], s, fr)
        return r if r[0] == "err" else ("ok", r[1], V("tup", (lit(s[:len(s) - len(r[1])]), r[2])))

    def p_checked(self, a, s, fr):
        """map_res, map_opt"""
        r = self.run(a[0], s, fr)
        if r[0] == "err":
            return r
        v = self.I.apply(a[1], [r[2]], fr)
        good = [x.k == "adt" and x.a[1] in ("Ok", "Some") for _, x in alts(v)]
        bad = [x.k == "adt" and x.a[1] in ("Err", "None") for _, x in alts(v)]
        if all(good):
            return ("ok", r[1], phi([(g, x.a[2][0][1]) for g, x in alts(v)]))
        if all(bad):
            return self.ERR
        raise Undecided("result of a checked mapping: %s" % str(v)[:200])

    def p_flat_map(self, a, s, fr):
        r = self.run(a[0], s, fr)
        return r if r[0] == "err" else self.run(self.I.apply(a[1], [r[2]], fr), r[1], fr)

    def p_many_till(self, a, s, fr):
        out = []
        while True:
            q = self.run(a[1], s, fr)
            if q[0] == "ok":
                return ("ok", q[1], V("tup", (V("arr", tuple(out)), q[2])))
            if self.fatal(q):
                return q
            r = self.run(a[0], s, fr)
            if r[0] == "err":
                return r
            if r[1] == s:
                return self.ERR
            s = r[1]
            out.append(r[2])

    def p_fold_many(self, a, s, fr):
        """a = (minimum, maximum, parser, init, step)"""
        r = self.p_many(a[:3], s, fr)
        if r[0] == "err":
            return r
        acc = self.I.apply(a[3], [], fr)
        for x in r[2].a[0]:
            acc = self.I.apply(a[4], [acc, x], fr)
        return ("ok", r[1], acc)

    def p_int(self, a, s, fr):
        """numbers of nom::character::complete: a = (type,)"""
        ty = litval(a[0])
        i = 1 if ty[0] == "i" and s[:1] in ("+", "-") and s else 0
        n = i + self.span(s[i:], DIG, "digits")
        v = EXT["core::str::<impl str>::parse"](self.I, {"p": "parse"}, [ty], [lit(s[:n])], None, fr)
        if n > i and v.k == "adt" and v.a[1] == "Ok":
            return ("ok", s[n:], v.a[2][0][1])
        return self.ERR

    def p_seq(self, a, s, fr):
        out = []
        for p in a:
            r = self.run(p, s, fr)
            if r[0] == "err":
                return r
            s = r[1]
            out.append(r[2])
        return ("ok", s, V("tup", tuple(out)))

    def p_pick(self, a, s, fr):
        r = self.p_seq(a[1:], s, fr)
        i = litval(a[0])
        if r[0] == "err":
            return r
        xs = r[2].a[0]
        return ("ok", r[1], V("tup", tuple(xs[j] for j in i)) if isinstance(i, tuple) else xs[i])

    def p_tag(self, a, s, fr, fold=lambda c: c):
        t = litval(a[0])
        if t is None:
            raise Undecided("literal of the grammar is not constant: %s" % a[0])
        for i, c in enumerate(t):
            if i >= len(s):
                return self.ERR
            if is_hole(s[i]):
                cl = NAMES[s[i]][1]
                if fold(c) in {fold(x) for x in cl.first}:
                    self.note(s[i], fold(t[i:]))
                return self.ERR
            if fold(s[i]) != fold(c):
                return self.ERR
        return ("ok", s[len(t):], lit(s[:len(t)]))

    def p_tag_no_case(self, a, s, fr):
        return self.p_tag(a, s, fr, str.lower)

    def span(self, s, pred, what):
        i = 0
        while i < len(s):
            if is_hole(s[i]):
                first, both = self.chars(s[i], pred)
                if first is False:
                    break
                if first is None:
                    self.note(s[i], "[%s]" % what)
                    break
                if not both:
                    raise Undecided("part of ⟨%s⟩ is %s" % (NAMES[s[i]][0], what))
            elif not (s[i] in pred if isinstance(pred, str) else pred(s[i])):
                break
            i += 1
        return i

    def p_many_chars(self, a, s, fr):
        """take_while-like: a = (minimum, predicate or characters, description)"""
        p = a[1]
        pred = p.a[1] if is_str(p) else lambda c: self.decide(p, c, fr)
        if p.k == "nomp" and p.a[0] == "none_of":
            pred = lambda c: c not in p.a[1][0].a[1]        # noqa: E731
        elif p.k == "nomp":
            pred = lambda c: not self.decide(p.a[1][0], c, fr)      # noqa: E731
        i = self.span(s, pred, litval(a[2]))
        return ("ok", s[i:], lit(s[:i])) if i >= litval(a[0]) else self.ERR

    def decide(self, f, c, fr):
        if f.k == "arr" and all(map(is_str, f.a[0])):
            return any(x.a[1] == c for x in f.a[0])
        r = self.I.apply(f, [lit(c)], fr)
        if r.k == "lit":
            return r.a[1]
        raise Undecided("character predicate on %r: %s" % (c, str(r)[:150]))

    def p_char(self, a, s, fr):
        """one character satisfying a predicate: a = (kind, chars or closure)"""
        kind, x = litval(a[0]), a[1]
        if x.k == "arr" and kind in ("one", "none") and all(map(is_str, x.a[0])):
            x = lit("".join(c.a[1] for c in x.a[0]))
        pred = {"one": lambda c: c in x.a[1], "none": lambda c: c not in x.a[1], "any": lambda c: True,
                "sat": lambda c: self.decide(x, c, fr)}[kind]
        if not s:
            return self.ERR
        if is_hole(s[0]):
            first, both = self.chars(s[0], pred)
            if first is False:
                return self.ERR
            if first is None:
                self.note(s[0], "[%s]" % (x.a[1] if is_str(x) else kind))
                return self.ERR
            if self.peeking:
                return ("ok", s[1:], lit(s[0]))
            raise Undecided("takes one character of ⟨%s⟩" % NAMES[s[0]][0])
        return ("ok", s[1:], lit(s[0])) if pred(s[0]) else self.ERR

    peeking = 0

    def p_satisfied(self, a, s, fr):
        """only success matters (under `not`, `peek`)"""
        self.peeking += 1
        try:
            return self.run1(a[0], s, fr)
        finally:
            self.peeking -= 1

    def p_take(self, a, s, fr):
        n = litval(a[0])
        if any(is_hole(c) for c in s[:n]):
            raise Undecided("takes %d characters of a hole" % n)
        return ("ok", s[n:], lit(s[:n])) if len(s) >= n else self.ERR

    def p_take_until(self, a, s, fr):
        i = s.find(litval(a[0]))
        for c in s[:i if i >= 0 else len(s)]:
            if is_hole(c) and set(litval(a[0])) & set(NAMES[c][1].all):
                self.note(c, "…" + litval(a[0]))
        return ("ok", s[i:], lit(s[:i])) if i >= 0 else self.ERR

    def p_eof(self, a, s, fr):
        return ("ok", s, lit("")) if not s else self.ERR

    def swallows(self, p, h, fr):
        """a repetition of p consumes every string of the hole's class, character by character"""
        key = ("swallow", p.i, NAMES[h][1].name)
        if key not in self.memo:
            ok = True
            for c in NAMES[h][1].all:
                r = self.run(p, c, fr)
                if r[0] == "err" or r[1]:
                    ok = False
                    break
            self.memo[key] = ok
        return self.memo[key]

    def p_many(self, a, s, fr):
        lo, hi, p = litval(a[0]), litval(a[1]), a[2]
        out = []
        while hi is None or len(out) < hi:
            if s and is_hole(s[0]) and self.swallows(p, s[0], fr):
                out.append(lit(s[0]))
                s = s[1:]
                continue
            r = self.run(p, s, fr)
            if self.fatal(r):
                return r
            if r[0] == "err":
                break
            if r[1] == s:
                return self.ERR
            s = r[1]
            out.append(r[2])
        return ("ok", s, V("arr", tuple(out))) if len(out) >= lo else self.ERR

    def p_separated(self, a, s, fr):
        lo, sep, p = litval(a[0]), a[1], a[2]
        r = self.run(p, s, fr)
        if r[0] == "err":
            return r if lo or self.fatal(r) else ("ok", s, V("arr", ()))
        out, s = [r[2]], r[1]
        while True:
            q = self.run(sep, s, fr)
            if self.fatal(q):
                return q
            if q[0] == "err":
                break
            if q[1] == s:
                return self.ERR
            r = self.run(p, q[1], fr)
            if self.fatal(r):
                return r
            if r[0] == "err":
                break
            s = r[1]
            out.append(r[2])
        return ("ok", s, V("arr", tuple(out)))


def P(kind, *args):
    return V("nomp", kind, tuple(args))


def _members(v):
    if v.k == "tup":
        return v.a[0]
    if v.k == "arr":
        return v.a[0]
    raise Undecided("parser tuple: %s" % v)


def _simple(name, kind, make):
    @ext(name)
    def h(I, f, ga, args, node, fr):
        return P(kind, *make(args, ga))


for _n, _k, _m in [
    ("nom::combinator::map", "map", lambda a, g: a),
    ("nom::combinator::into", "into", lambda a, g: (a[0], lit(g[1]), lit(g[2]))),
    ("nom::combinator::opt", "opt", lambda a, g: a),
    ("nom::combinator::peek", "peek", lambda a, g: (P("satisfied", a[0]),)),
    ("nom::combinator::not", "not", lambda a, g: (P("satisfied", a[0]),)),
    ("nom::combinator::value", "value", lambda a, g: a),
    ("nom::combinator::verify", "verify", lambda a, g: a),
    ("nom::combinator::recognize", "recognize", lambda a, g: a),
    ("nom::combinator::all_consuming", "all_consuming", lambda a, g: a),
    ("nom::combinator::map_parser", "map_parser", lambda a, g: a),
    ("nom::combinator::success", "success", lambda a, g: a),
    ("nom::combinator::cut", "cut", lambda a, g: a),
    ("nom::combinator::complete", "same", lambda a, g: a),
    ("nom::error::context", "same", lambda a, g: a[1:]),
    ("nom::combinator::cond", "cond", lambda a, g: a),
    ("nom::combinator::consumed", "consumed", lambda a, g: a),
    ("nom::combinator::map_res", "checked", lambda a, g: a),
    ("nom::combinator::map_opt", "checked", lambda a, g: a),
    ("nom::combinator::flat_map", "flat_map", lambda a, g: a),
    ("nom::multi::many_till", "many_till", lambda a, g: a),
    ("nom::multi::count", "many", lambda a, g: (a[1], a[1], a[0])),
    ("nom::multi::fold_many0", "fold_many", lambda a, g: (lit(0), lit(None)) + tuple(a)),
    ("nom::multi::fold_many1", "fold_many", lambda a, g: (lit(1), lit(None)) + tuple(a)),
    ("nom::multi::fold_many_m_n", "fold_many", lambda a, g: a),
    ("nom::bytes::complete::is_a", "many_chars", lambda a, g: (lit(1), a[0], lit("one of"))),
    ("nom::bytes::complete::is_not", "many_chars", lambda a, g: (lit(1), P("none_of", a[0]), lit("none of"))),
    ("nom::bytes::complete::take_till", "many_chars", lambda a, g: (lit(0), P("negated", a[0]), lit("predicate"))),
    ("nom::bytes::complete::take_till1", "many_chars", lambda a, g: (lit(1), P("negated", a[0]), lit("predicate"))),
    ("nom::branch::alt", "alt", lambda a, g: _members(a[0])),
    ("nom::sequence::tuple", "seq", lambda a, g: _members(a[0])),
    ("nom::sequence::pair", "seq", lambda a, g: a),
    ("nom::sequence::preceded", "pick", lambda a, g: (lit(1),) + tuple(a)),
    ("nom::sequence::terminated", "pick", lambda a, g: (lit(0),) + tuple(a)),
    ("nom::sequence::delimited", "pick", lambda a, g: (lit(1),) + tuple(a)),
    ("nom::sequence::separated_pair", "pick", lambda a, g: (lit((0, 2)),) + tuple(a)),
    ("nom::bytes::complete::tag", "tag", lambda a, g: a),
    ("nom::bytes::complete::tag_no_case", "tag_no_case", lambda a, g: a),
    ("nom::bytes::complete::take", "take", lambda a, g: a),
    ("nom::bytes::complete::take_until", "take_until", lambda a, g: a),
    ("nom::bytes::complete::take_while", "many_chars", lambda a, g: (lit(0), a[0], lit("predicate"))),
    ("nom::bytes::complete::take_while1", "many_chars", lambda a, g: (lit(1), a[0], lit("predicate"))),
    ("nom::character::complete::one_of", "char", lambda a, g: (lit("one"), a[0])),
    ("nom::character::complete::none_of", "char", lambda a, g: (lit("none"), a[0])),
    ("nom::character::complete::char", "char", lambda a, g: (lit("one"), a[0])),
    ("nom::character::complete::satisfy", "char", lambda a, g: (lit("sat"), a[0])),
    ("nom::multi::many0", "many", lambda a, g: (lit(0), lit(None), a[0])),
    ("nom::multi::many1", "many", lambda a, g: (lit(1), lit(None), a[0])),
    ("nom::multi::many_m_n", "many", lambda a, g: (a[0], a[1], a[2])),
    ("nom::multi::separated_list0", "separated", lambda a, g: (lit(0),) + tuple(a)),
    ("nom::multi::separated_list1", "separated", lambda a, g: (lit(1),) + tuple(a)),
]:
    _simple(_n, _k, _m)


def _direct(name, parser):
    """library parsers that are functions of the input"""
    @ext(name)
    def h(I, f, ga, args, node, fr):
        if not is_str(args[0]):
            return None
        return I.parser.value(I.parser.run(parser, args[0].a[1], fr))


for _n, _p in [
    ("digit1", P("many_chars", lit(1), lit(DIG), lit("digits"))),
    ("digit0", P("many_chars", lit(0), lit(DIG), lit("digits"))),
    ("alpha1", P("many_chars", lit(1), lit(string.ascii_letters), lit("letters"))),
    ("alphanumeric1", P("many_chars", lit(1), lit(ALNUM), lit("letters and digits"))),
    ("multispace0", P("many_chars", lit(0), lit(SPACE), lit("spaces"))),
    ("multispace1", P("many_chars", lit(1), lit(SPACE), lit("spaces"))),
    ("space0", P("many_chars", lit(0), lit(" \t"), lit("spaces"))),
    ("space1", P("many_chars", lit(1), lit(" \t"), lit("spaces"))),
    ("anychar", P("char", lit("any"), lit(""))),
]:
    _direct("nom::character::complete::" + _n, _p)
_direct("nom::combinator::eof", P("eof"))
_direct("nom::combinator::fail", P("fail"))
_direct("nom::combinator::rest", P("rest"))
for _n in ("i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"):
    _direct("nom::character::complete::" + _n, P("int", lit(_n)))
for _n, _c in (("newline", "\n"), ("tab", "\t")):
    _direct("nom::character::complete::" + _n, P("char", lit("one"), lit(_c)))
_direct("nom::character::complete::alpha0", P("many_chars", lit(0), lit(string.ascii_letters), lit("letters")))
_direct("nom::character::complete::alphanumeric0", P("many_chars", lit(0), lit(ALNUM), lit("letters and digits")))
_direct("nom::character::complete::hex_digit1", P("many_chars", lit(1), lit(string.hexdigits), lit("hexadecimal digits")))
for _n, _k, _m in (("map", "map", None), ("flat_map", "flat_map", None), ("and_then", "map_parser", None)):
    _simple("nom::internal::Parser::" + _n, _k, lambda a, g: a)
_simple("nom::internal::Parser::and", "seq", lambda a, g: a)
_simple("nom::internal::Parser::or", "alt", lambda a, g: a)


@ext("nom::internal::Parser::parse")
def _nparse(I, f, ga, args, node, fr):
    if is_str(args[1]):
        return I.parser.value(I.parser.run(args[0], args[1].a[1], fr))


@ext("nom::error::Error::<I>::new")
def _nerr(I, f, ga, args, node, fr):
    return V("sym", "error", "")


class LeftRecursion(Exception):
    """a parser function is entered again at the same place of the text: the program recurses for ever"""


class ParseInterp(Interp):
    def __init__(self, F):
        Interp.__init__(self, F, max_depth=100000, fuel=60000000)
        self.rec_limit = 400
        self.clo_limit = 400
        self.rec_kinds = ("adt", "tup", "arr", "lit")
        self.active = set()
        Parser(self)

    def enter(self, b, args, tsub, fr, label):
        if b is None or len(args) != 1 or not is_str(args[0]):
            return Interp.enter(self, b, args, tsub, fr, label)
        k = (b["id"], args[0].i, tuple(sorted(tsub.items())))
        if k in self.active:
            raise LeftRecursion(b["path"].replace("spl_transpiler::", ""))
        self.active.add(k)
        try:
            return Interp.enter(self, b, args, tsub, fr, label)
        finally:
            self.active.discard(k)

    def compared(self, how, text, other):
        if has_hole(other):
            text, other = other, text
        if not has_hole(text) or has_hole(other) or not other:
            return
        low = other.lower()
        for h in {c for c in text if is_hole(c)}:
            C = NAMES[h][1]
            word = all(c in C.all or c.upper() in C.all for c in low)
            if how == "eq" and text == h and word:
                self.parser.note(h, "=" + low)
            elif how == "starts_with" and text[0] == h and word:
                self.parser.note(h, low)
            elif how == "starts_with" and text.find(h) > 0 and low.startswith(text[:text.find(h)].lower()):
                self.parser.note(h, low[text.find(h):])
            elif how == "ends_with" and text[-1] == h and word:
                self.parser.note(h, "..." + low)
            elif how == "contains" and word:
                self.parser.note(h, "*" + low)

    def apply(self, f, args, fr):
        if f.k == "nomp":
            if not is_str(args[0]):
                raise Undecided("parser applied to %s" % str(args[0])[:100])
            return self.parser.value(self.parser.run(f, args[0].a[1], fr))
        return Interp.apply(self, f, args, fr)


_old_parse = EXT["core::str::<impl str>::parse"]


@ext("core::str::<impl str>::parse")
def _parse_num(I, f, ga, args, node, fr):
    v = args[0]
    ty = ga[0] if ga else ""
    if is_str(v) and getattr(I, "parser", None):
        t = v.a[1]
        if ty.endswith("Ipv6Addr"):
            try:
                ipaddress.IPv6Address(t)
                return Ok(v)
            except ValueError:
                return Err(app("AddrParseError", v))
        if has_hole(t):
            sign = t[1:] if t[:1] in "+-" else t
            hs = [c for c in sign if is_hole(c)]
            digits = all(c.isdigit() if not is_hole(c) else NAMES[c][1].name == "int" for c in sign)
            if ty in ("f64", "f32") and all(c.isdigit() or c == "." or is_hole(c) and NAMES[c][1].name == "int" for c in sign):
                return Ok(app("num", v))
            if digits and hs:
                return Ok(app("num", v))
            return Err(app("ParseError", v))
    return _old_parse(I, f, ga, args, node, fr)
