"""Constructors for abstract syntax-tree shapes: constructors are fixed, leaves are symbols (universally quantified
text / numbers) or representative constants where the code branches on them."""
from absint import *
from facts import AnalysisError

STR = "alloc::string::String"
# names that the language treats specially: symbols stand for every other name, these are separate cases
SPECIAL = frozenset(("index", "source", "sourcetype", "host", "hosttag", "eventtype", "eventtypetag", "savedsplunk",
                     "splunk_server", "count", "true", "false", "t", "f", "", "*"))


class Shapes:
    def __init__(self, E):
        self.E = E
        self.A = "::spl::ast"

    # leaves: a python str starting with '$' is a symbol, anything else a literal
    def s(self, x, ty=STR):
        if isinstance(x, V):
            return x
        if isinstance(x, str) and x.startswith("$"):
            return V("sym", x[1:], ty, SPECIAL) if ty == STR else V("sym", x[1:], ty)
        return lit(x)

    def opt(self, x):
        return NONE if x is None else Some(x)

    def vec(self, xs):
        return V("arr", tuple(xs))

    def st(self, name_, **kw):
        return self.E.struct(name_, self.A, **kw)

    def new(self, name, *vals):
        """tuple struct or named struct positionally"""
        p = self.E.adtpath(name, self.A)
        v = self.E.F.adts[p]["variants"][0]
        return mkadt(p, v["name"], tuple((n, x) for (n, *_), x in zip(v["fields"], vals)))

    def var(self, enum, variant, *vals):
        return self.E.variant(enum, variant, self.A, *vals)

    # -- typed leaves
    def field(self, n):
        return self.new("Field", self.s(n))

    def const(self, variant, struct, *vals):
        return self.var("Expr", "Leaf", self.var("LeafExpr", "Constant", self.var("Constant", variant,
                                                                                  self.new(struct, *vals))))

    def col(self, n):
        return self.const("Field", "Field", self.s(n))

    def int(self, n):
        return self.const("Int", "IntValue", self.s(n, "i64"))

    def dbl(self, n):
        return self.const("Double", "DoubleValue", self.s(n, "f64"))

    def bool(self, n):
        return self.const("Bool", "BoolValue", self.s(n, "bool"))

    def str(self, n):
        return self.const("Str", "StrValue", self.s(n))

    def wild(self, n):
        return self.const("Wildcard", "Wildcard", self.s(n))

    def cidr(self, n):
        return self.const("IPv4CIDR", "IPv4CIDR", self.s(n))

    def variable(self, n):
        return self.const("Variable", "Variable", self.s(n))

    def null(self):
        return self.const("Null", "NullValue")

    def span(self, value, scale):
        return self.new("TimeSpan", self.s(value, "i64"), self.s(scale))

    def span_e(self, value, scale):
        return self.const("TimeSpan", "TimeSpan", self.s(value, "i64"), self.s(scale))

    def snap_e(self, span, snap, off):
        return self.const("SnapTime", "SnapTime", self.opt(span), self.s(snap), self.opt(off))

    # -- compound expressions
    def bin(self, l, op, r):
        return self.var("Expr", "Binary", self.st("Binary", left=l, symbol=self.s(op), right=r))

    def un(self, op, r):
        return self.var("Expr", "Unary", self.st("Unary", symbol=self.s(op), right=r))

    def call(self, name, *args):
        return self.var("Expr", "Call", self.st("Call", name=self.s(name), args=self.vec(args)))

    def alias(self, e, n):
        return self.var("Expr", "Alias", self.alias_(e, n))

    def alias_(self, e, n):
        return self.st("Alias", expr=e, name=self.s(n))

    def aliased_field(self, f, a):
        return self.var("Expr", "AliasedField", self.st("AliasedField", field=self.field(f), alias=self.s(a)))

    def isin(self, f, *xs):
        return self.var("Expr", "FieldIn", self.st("FieldIn", field=self.s(f), exprs=self.vec(xs)))

    def opaque(self, n):
        return V("sym", n, self.E.adtpath("Expr", "::spl::ast"))

    def pipeline(self, *cmds):
        return self.st("Pipeline", commands=self.vec([self.E.wrap_command(c) for c in cmds]))

    def cmd(self, name_, **kw):
        return self.E.struct(name_, "::spl::", **kw)
