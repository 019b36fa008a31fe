"""Compare the emission of an abstract shape with a hand-written expectation, soundly:
a mismatch is a violation only when the abstract result is precise enough to be certain."""
import hashlib
import re

from absint import TooBig, show
from emit import Undecided, norm, spec, unhole, htext, contradictory
from facts import AnalysisError

ERR = "ERROR"
# functions whose symbolic application in a hole is still a precise description of the text
PRECISE = {"replace", "replacen", "trim_start_matches", "trim_end_matches", "trim", "trim_start", "trim_end", "to_lowercase", "to_uppercase", "to_ascii_lowercase",
           "to_ascii_uppercase", "each", "elem", "uid", "len", "φ", "", "strip_prefix", "strip_suffix", "trim_matches",
           "debug", "colexpr", "py"}


def vague(text):
    """an opaque function application occurs in some hole"""
    for h in re.findall(r"⟨([^⟩]*)⟩", unhole(text)):
        if "λ" in h:
            return h
        for f in re.findall(r"([A-Za-z_][A-Za-z_0-9]*)?\(", h):
            if f and f not in PRECISE and not f[0].isupper():
                return h
    return None


def guard_simple(g):
    """guards that only constrain input symbols (so the alternative is certainly reachable)"""
    from absint import V
    for c in g:
        if c[0] in ("is", "isnot") and isinstance(c[1], V) and c[1].k in ("sym", "fld", "vfld"):
            continue
        if c[0] in ("true", "false") and isinstance(c[1], V):
            x = c[1]
            if x.k in ("sym", "fld", "vfld"):
                continue
            if x.k == "app" and x.a[0].startswith("bin:") and all(y.k in ("sym", "lit", "fld", "vfld") for y in x.a[1]):
                continue
            return False
        if c[0] == "hash-order":
            continue
        if c[0] == "eq" and isinstance(c[1], V) and c[1].k in ("sym", "fld", "vfld"):
            continue
        return False
    return bool(g)


UID = re.compile(r"(\w*?)hq7uid(\d+)7qh(\w*)")


def canon(text):
    """canonical Python text; generated dataframe variables are numbered in order of appearance"""
    if text is None:
        return None
    seen = {}
    return UID.sub(lambda m: "df_hq7uid%d7qh" % seen.setdefault(m.groups(), len(seen) + 1), norm(text))


def digest(*texts):
    """identifies what the program does instead of the expectation, so that a recorded finding about a case does not
    cover a different violation of the same case"""
    return hashlib.sha256("\0".join(unhole(t) for t in texts).encode()).hexdigest()[:8]


def compare(rep, key, actual, has_err, expected, where="", widened=(), got_err=None):
    """expected: list of texts (with ⟨holes⟩), may contain ERR."""
    exp = [ERR if e == ERR else canon(spec(e)) for e in expected]
    act = []
    for g, t in actual:
        c = "NO-DATAFRAME" if t is None else canon(t)
        act.append((g, c))
    vals = []
    for _, c in act:
        if c not in vals:
            vals.append(c)
    if not vals and has_err:
        vals = [ERR]
        act = [((), ERR)]
    if not vals:
        rep.undecided(key, "no alternative survives")
        return
    show_ = lambda c: unhole(c)
    if set(vals) == set(exp) or (set(vals) <= set(exp)):
        rep.ok(key, " | ".join(show_(v) for v in vals))
        return
    vg = next((vague(c) for c in vals if c not in exp and vague(c)), None)
    if vg:
        rep.undecided(key, "opaque text in output: %s" % vg)
        return
    if widened:
        rep.undecided(key, "analysis widened: %s" % (widened[:2],))
        return
    extra = [(g, c) for g, c in act if c not in exp]
    if not any(c in exp for c in vals):
        if ERR in exp and len(exp) == 1 and has_err and not all(guard_simple(g) or not g for g, c in extra):
            rep.undecided(key, "may be rejected under conditions the analysis cannot evaluate")
            return
        rep.violation("%s #%s" % (key, digest(*sorted(vals))), "the translation is %s, expected %s" % (
            " | ".join(show_(v) for v in vals)[:1500], " | ".join(show_(e) for e in exp)[:1500]), where)
        return
    sure = [(g, c) for g, c in extra if guard_simple(g)]
    if sure:
        rep.violation("%s #%s" % (key, digest(sure[0][1])), "for some inputs the translation is %s instead of %s" % (
            show_(sure[0][1])[:1500], " | ".join(show_(e) for e in exp)[:1500]), where)
        return
    rep.undecided(key, "%d alternatives, expectation among them" % len(vals))


class Golden:
    """Runs (key, thunk -> (alternatives, has_err), expected) cases into a report."""
    def __init__(self, rep, E):
        self.rep, self.E = rep, E

    def case(self, key, thunk, expected, where=""):
        try:
            self.E.I.widened.clear()
            self.E.label = key
            act, err = thunk()
            sink = getattr(self.rep, "sink", None)
            if sink is not None:        # collecting templates for another analysis
                sink(key, act, list(self.E.I.widened))
                return
            compare(self.rep, key, act, err, expected, where, list(self.E.I.widened))
        except (Undecided, TooBig, AnalysisError, RecursionError) as ex:
            self.rep.undecided(key, "%s: %s" % (type(ex).__name__, ex))
        except RuntimeError as ex:
            self.rep.undecided(key, "analysis budget: %s" % ex)
