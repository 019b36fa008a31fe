"""Type-directed construction of abstract command values from a compact Python-syntax notation.

  Head(eval_expr=count < 5, keep_last=True)
Keyword values are converted according to the declared type of the command's field; '$x' is a symbol (every text or
number); a list is a vector or a pipeline; unset fields take the value the parser documents as default (DEFAULTS)."""
import ast as pyast

from absint import *
from facts import AnalysisError
from checks import dsl

DEFAULTS = {
    "AddTotals": "row=True, col=False, field_name='Total', label_field=None, label='Total', fields=[]",
    "Bin": "span=None, min_span=None, bins=None, start=None, end=None, align_time=None",
    "Convert": "timeformat='%m/%d/%Y %H:%M:%S'",
    "DataModel": "data_model_name=None, dataset_name=None, search_mode=None, strict_fields=True,"
                 "allow_old_summaries=False, summaries_only=True",
    "Dedup": "num_results=1, keep_events=False, keep_empty=False, consecutive=False",
    "EventStats": "all_num=False, by=[]",
    "Fields": "remove_fields=False",
    "FillNull": "value='0', fields=None",
    "Head": "keep_last=False, null_option=False",
    "InputLookup": "append=False, strict=False, start=0, max=1000000000, where_expr=None",
    "Join": "join_type='inner', use_time=False, earlier=True, overwrite=True, max=1",
    "Lookup": "output=None",
    "MakeResults": "count=1, annotate=False, server='local', server_group=None",
    "Map": "max_searches=10",
    "MvCombine": "delim=None", "MvExpand": "limit=None",
    "Rare": "n=10, by=None, count_field='count', other_str='OTHER', percent_field='percent', show_count=True,"
            "show_percent=True, use_other=False",
    "Top": "n=10, by=None, count_field='count', other_str='OTHER', percent_field='percent', show_count=True,"
           "show_percent=True, use_other=False",
    "Regex": "item=None", "Return": "count=1",
    "Rex": "field='_raw', max_match=1, offset_field=None, mode=None",
    "SPath": "input='_raw', output=None",
    "Sort": "count=10000, descending=False",
    "Stats": "partitions=1, all_num=False, delim=' ', by=None, dedup_split_vals=False",
    "StreamStats": "by=[], current=True, window=0",
    "TStats": "prestats=False, local=False, append=False, summaries_only=False, include_reduced_buckets=False,"
              "allow_old_summaries=False, chunk_size=10000000, fillnull_value=None, datamodel=None, nodename=None,"
              "where_condition=None, by_fields=None, by_prefix=None",
    "Tail": "n=10",
}


def split_args(ty):
    """'A<B, C>' -> ('A', ['B', 'C'])"""
    ty = ty.strip()
    if ty.startswith("("):
        return "()", _split(ty[1:-1])
    i = ty.find("<")
    if i < 0:
        return ty.split("::")[-1], []
    return ty[:i].split("::")[-1], _split(ty[i + 1:-1])


def _split(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<(":
            d += 1
        if ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def leaf(n):
    if isinstance(n, pyast.Constant):
        return n.value[2:] if isinstance(n.value, str) and n.value.startswith("f:") else n.value
    if isinstance(n, pyast.Name):
        return "$" + n.id
    if isinstance(n, pyast.UnaryOp):
        return -n.operand.value
    raise ValueError(pyast.dump(n))


def convert(S, ty, n):
    h, ar = split_args(ty)
    if h == "Option":
        if isinstance(n, pyast.Constant) and n.value is None:
            return NONE
        return Some(convert(S, ar[0], n))
    if h in ("Box", "Rc", "Arc"):
        return convert(S, ar[0], n)
    if h == "Vec":
        return S.vec([convert(S, ar[0], x) for x in n.elts])
    if h == "()":
        return V("tup", tuple(convert(S, t, x) for t, x in zip(ar, n.elts)))
    if h == "bool":
        return S.s(leaf(n), "bool")
    if h in ("i64", "u64", "usize", "f64", "i32", "u32"):
        return S.s(leaf(n), h)
    if h == "String":
        return S.s(leaf(n))
    if h == "Field":
        return S.field(leaf(n))
    if h == "Expr":
        return dsl.conv(S, n)
    if h == "BoolValue":
        return S.new("BoolValue", S.s(leaf(n), "bool"))
    if h == "IntValue":
        return S.new("IntValue", S.s(leaf(n), "i64"))
    if h == "TimeSpan":
        return S.span(leaf(n.elts[0]), leaf(n.elts[1]))
    if h == "Alias":
        a = n.slice
        return S.alias_(dsl.conv(S, n.value), leaf(a))
    if h == "FieldOrAlias":
        if isinstance(n, pyast.Subscript):
            return S.var("FieldOrAlias", "Alias", convert(S, "Alias", n))
        return S.var("FieldOrAlias", "Field", S.field(leaf(n)))
    if h == "FieldLike":
        if isinstance(n, pyast.Subscript):
            return S.var("FieldLike", "AliasedField", S.st("AliasedField", field=S.field(leaf(n.value)),
                                                          alias=S.s(leaf(n.slice))))
        return S.var("FieldLike", "Field", S.field(leaf(n)))
    if h == "MaybeSpannedField":
        if isinstance(n, pyast.BinOp):      # f @ (5, 'minutes')
            return S.E.struct("MaybeSpannedField", "", field=S.field(leaf(n.left)),
                              span=Some(convert(S, "TimeSpan", n.right)))
        return S.E.struct("MaybeSpannedField", "", field=S.field(leaf(n)), span=NONE)
    if h == "FieldConversion":
        al = NONE
        if isinstance(n, pyast.Subscript):
            al = Some(S.field(leaf(n.slice)))
            n = n.value
        return S.cmd("FieldConversion", func=S.s(n.func.id), field=S.field(leaf(n.args[0])), alias=al)
    if h == "LookupOutput":
        return S.cmd("LookupOutput", kv=S.s(n.func.id), fields=convert(S, "Vec<FieldLike>", n.args[0]))
    if h == "Pipeline":
        return S.pipeline(*[command_node(S, x) for x in n.elts])
    if h.endswith("Command"):
        return command_node(S, n)
    raise AnalysisError("no notation for type " + ty)


def command_node(S, n):
    name = n.func.id
    adt = name + "Command"
    p = S.E.adtpath(adt, "::spl::")
    tys = {f: t for f, t, *_ in S.E.F.adts[p]["variants"][0]["fields"]}
    kw = {}
    d = DEFAULTS.get(name)
    if d:
        for k in pyast.parse("f(%s)" % d, mode="eval").body.keywords:
            kw[k.arg] = k.value
    for k in n.keywords:
        kw[k.arg] = k.value
    for k in kw:
        if k not in tys:
            raise AnalysisError("anchor: %s has no field %s" % (adt, k))
    return S.cmd(adt, **{k: convert(S, tys[k], v) for k, v in kw.items()})


def command(S, text):
    return command_node(S, pyast.parse(text, mode="eval").body)
