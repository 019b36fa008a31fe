"""Builds the abstract value that the regex parser crate returns for a concrete pattern (groups, alternations,
repetitions, classes, literals), so that the repository's own traversal of it can be interpreted."""
from absint import *

P = "regex_syntax::ast::"
SPAN = V("sym", "span", P + "Span")


def node(variant, payload):
    return mkadt(P + "Ast", variant, (("0", payload),))


class Rx:
    def __init__(self, text):
        self.t, self.i, self.n = text, 0, 0

    def peek(self, s):
        return self.t.startswith(s, self.i)

    def alt(self):
        out = [self.concat()]
        while self.peek("|"):
            self.i += 1
            out.append(self.concat())
        if len(out) == 1:
            return out[0]
        return node("Alternation", mkadt(P + "Alternation", "Alternation", (("span", SPAN), ("asts", V("arr", tuple(out))))))

    def concat(self):
        out = []
        while self.i < len(self.t) and self.t[self.i] not in "|)":
            out.append(self.rep())
        if len(out) == 1:
            return out[0]
        if not out:
            return node("Empty", SPAN)
        return node("Concat", mkadt(P + "Concat", "Concat", (("span", SPAN), ("asts", V("arr", tuple(out))))))

    def rep(self):
        a = self.atom()
        while self.i < len(self.t) and self.t[self.i] in "*+?{":
            if self.t[self.i] == "{":
                self.i = self.t.index("}", self.i)
            self.i += 1
            if self.peek("?"):
                self.i += 1
            a = node("Repetition", mkadt(P + "Repetition", "Repetition", (
                ("span", SPAN), ("op", V("sym", "op", P + "RepetitionOp")), ("greedy", lit(True)), ("ast", a))))
        return a

    def group(self, kind):
        a = self.alt()
        if not self.peek(")"):
            raise ValueError("unclosed group")
        self.i += 1
        return node("Group", mkadt(P + "Group", "Group", (("span", SPAN), ("kind", kind), ("ast", a))))

    def atom(self):
        c = self.t[self.i]
        if c == "(":
            for p in ("(?P<", "(?<"):
                if self.peek(p):
                    j = self.t.index(">", self.i)
                    name = self.t[self.i + len(p):j]
                    self.i = j + 1
                    self.n += 1
                    cn = mkadt(P + "CaptureName", "CaptureName", (("span", SPAN), ("name", lit(name)), ("index", lit(self.n))))
                    return self.group(mkadt(P + "GroupKind", "CaptureName", (("starts_with_p", lit(p == "(?P<")), ("name", cn))))
            if self.peek("(?:"):
                self.i += 3
                return self.group(mkadt(P + "GroupKind", "NonCapturing", (("0", V("sym", "flags", P + "Flags")),)))
            self.i += 1
            self.n += 1
            return self.group(mkadt(P + "GroupKind", "CaptureIndex", (("0", lit(self.n)),)))
        if c == "[":
            j = self.t.index("]", self.i + 2)
            self.i = j + 1
            item = mkadt(P + "ClassSetItem", "Empty", (("0", SPAN),))
            return node("ClassBracketed", mkadt(P + "ClassBracketed", "ClassBracketed", (
                ("span", SPAN), ("negated", lit(False)), ("kind", mkadt(P + "ClassSet", "Item", (("0", item),))))))
        if c == ".":
            self.i += 1
            return node("Dot", SPAN)
        self.i += 2 if c == "\\" else 1
        return node("Literal", V("sym", "ch", P + "Literal"))


def parse(text):
    r = Rx(text)
    a = r.alt()
    if r.i != len(r.t):
        raise ValueError("unbalanced")
    return a
