"""Function translation tables (oracle: the language's function reference, quoted in the repository's own function
catalogue, and the PySpark API reference) compared with the emission computed from the current source."""
import re

from absint import V, NONE, Some, lit
from golden import Golden
from checks.dsl import shape, table, want

EVAL = r'''
# -- bitwise
bit_and(a, b) => $a.bitwiseAND($b)
bit_or(a, b) => $a.bitwiseOR($b)
bit_xor(a, b) => $a.bitwiseXOR($b)
bit_not(a) => F.bitwise_not($a)
bit_shift_left(a, 2) => F.shiftleft($a, 2)
bit_shift_left(a, "n:k") => F.shiftleft($a, ⟨k⟩)
bit_shift_right(a, 2) => F.shiftright($a, 2)
bit_shift_right(a, "n:k") => F.shiftright($a, ⟨k⟩)
# -- comparison and conditional
case(a, b) => F.when($a, $b)
case(a, b, c, d) => F.when($a, $b).when($c, $d)
case(a is 1, "one", a is 2, "two") => F.when($a == F.lit(1), F.lit('one')).when($a == F.lit(2), F.lit('two'))
case(a > 5, "x", b < c, "y", true(), "z") => F.when($a > F.lit(5), F.lit('x')).when($b < $c, F.lit('y')).when(F.lit(True), F.lit('z'))
validate(a, b) => F.when(~$a, $b)
validate(a, b, c, d) => F.when(~$a, $b).when(~$c, $d)
cidrmatch("10.0.0.0/8", a) => F.expr("cidr_match('10.0.0.0/8', ⟨a⟩)")
cidrmatch("$c", a) => F.expr("cidr_match('⟨c⟩', ⟨a⟩)")
coalesce(a) => F.coalesce($a)
coalesce(a, b) => F.coalesce($a, $b)
coalesce(a, b, "x") => F.coalesce($a, $b, F.lit('x'))
coalesce(a, b, c, d, e) => F.coalesce($a, $b, $c, $d, $e)
true() => F.lit(True)
false() => F.lit(False)
null() => F.lit(None)
if_(a, b, c) => F.when($a, $b).otherwise($c)
if_(a > 3, b, "x") => F.when($a > F.lit(3), $b).otherwise(F.lit('x'))
if_(a == 1, if_(b == 2, "p", "q"), "r") => F.when($a == F.lit(1), F.when($b == F.lit(2), F.lit('p')).otherwise(F.lit('q'))).otherwise(F.lit('r'))
in_(a, b) => $a.isin($b)
in_(a, 1) => $a.isin(F.lit(1))
like(a, b) => F.like($a, $b)
like(a, "x%") => F.like($a, F.lit('x%'))
match(a, b) => F.regexp_like($a, $b)
match(a, "^x") => F.regexp_like($a, F.lit('^x'))
nullif(a, b) => F.nullif($a, $b)
nullif(a, -1) => F.nullif($a, F.lit(-1))
# -- conversion
tonumber(a) => $a.cast('double')
tostring(a) => $a.cast('string')
# -- cryptographic
md5(a) => F.md5($a)
sha1(a) => F.sha1($a)
sha256(a) => F.sha2($a, 256)
sha512(a) => F.sha2($a, 512)
# -- date and time
now() => F.current_timestamp()
time() => F.current_timestamp()
relative_time(a, "snap:|days|") => F.date_trunc('day', F.to_timestamp($a))
relative_time(a, "snap:|years|") => F.date_trunc('year', F.to_timestamp($a))
relative_time(a, "snap:|months|") => F.date_trunc('month', F.to_timestamp($a))
relative_time(a, "snap:|weeks|") => F.date_trunc('week', F.to_timestamp($a))
relative_time(a, "snap:|hours|") => F.date_trunc('hour', F.to_timestamp($a))
relative_time(a, "snap:|minutes|") => F.date_trunc('minute', F.to_timestamp($a))
relative_time(a, "snap:|seconds|") => F.date_trunc('second', F.to_timestamp($a))
relative_time(a, "snap:-1,days|days|") => F.date_trunc('day', F.to_timestamp($a) + F.expr('INTERVAL -1 DAYS'))
relative_time(a, "snap:-7,days|weeks|") => F.date_trunc('week', F.to_timestamp($a) + F.expr('INTERVAL -7 DAYS'))
relative_time(a, "snap:$v,days|hours|3,minutes") => F.date_trunc('hour', F.to_timestamp($a) + F.expr('INTERVAL ⟨v⟩ DAYS')) + F.expr('INTERVAL 3 MINUTES')
relative_time(a, "snap:|months|$v,hours") => F.date_trunc('month', F.to_timestamp($a)) + F.expr('INTERVAL ⟨v⟩ HOURS')
relative_time(a, "snap:-2,months|years|-1,weeks") => F.date_trunc('year', F.to_timestamp($a) + F.expr('INTERVAL -2 MONTHS')) + F.expr('INTERVAL -1 WEEKS')
relative_time(a, "snap:|bogus|") => ERROR
relative_time(a, "x") => ERROR
relative_time(now(), "snap:-1,months|months|") => F.date_trunc('month', F.to_timestamp(F.current_timestamp()) + F.expr('INTERVAL -1 MONTHS'))
strftime(a, "%H:%M") => F.date_format($a, 'HH:mm')
strftime(a, "%Y-%m-%dT%H:%M:%S") => F.date_format($a, "yyyy-MM-dd'T'HH:mm:ss")
strptime(a, "%Y-%m-%d") => F.to_timestamp($a, 'yyyy-MM-dd')
strptime(a, "%d/%b/%Y:%H:%M:%S") => F.to_timestamp($a, 'dd/MMM/yyyy:HH:mm:ss')
# -- informational
isnull(a) => F.isnull($a)
isnotnull(a) => F.isnotnull($a)
# -- json
json_keys(a) => F.json_object_keys($a)
json_valid(a) => F.get_json_object($a, '$').isNotNull()
# -- mathematical
abs(a) => F.abs($a)
ceiling(a) => F.ceil($a)
ceil(a) => F.ceil($a)
exact(a) => $a.cast('double')
exp(a) => F.exp($a)
floor(a) => F.floor($a)
ln(a) => F.log($a)
log(a, 2) => F.log(2, $a)
log(a, 10) => F.log(10, $a)
pi() => F.lit(3.141592653589793)
pow(a, b) => F.pow($a, $b)
pow(a, 2) => F.pow($a, F.lit(2))
round(a, 2) => F.round($a, 2)
round(a, "n:p") => F.round($a, ⟨p⟩)
sqrt(a) => F.sqrt($a)
# -- multivalue
mvappend(a, b) => F.concat($a, $b)
mvappend(a, b, c) => F.concat($a, $b, $c)
mvcount(a) => F.size($a)
mvindex(a, 0) => F.get($a, 0)
mvindex(a, 3) => F.get($a, 3)
mvindex(a, -2) => F.element_at($a, -2)
mvindex(a, 0, 0) => F.slice($a, 1, 1)
mvindex(a, 0, 1) => F.slice($a, 1, 2)
mvindex(a, 1, 3) => F.slice($a, 2, 3)
mvindex(a, -3, -1) => F.slice($a, -3, 3)
mvzip(a, b) => F.zip_with($a, $b, lambda left_, right_: F.concat_ws(',', left_, right_))
mvzip(a, b, "|") => F.zip_with($a, $b, lambda left_, right_: F.concat_ws('|', left_, right_))
mvzip(a, b, "$d") => F.zip_with($a, $b, lambda left_, right_: F.concat_ws('⟨d⟩', left_, right_))
split(a, ",") => F.split($a, ',')
split(a, "$d") => F.split($a, '⟨d⟩')
# -- statistical
avg(a) => $a / 1
avg(a, b) => ($a + $b) / 2
avg(a, b, c) => ($a + $b + $c) / 3
max(a) => $a
max(a, b) => F.greatest($a, $b)
max(a, b, 3) => F.greatest(F.greatest($a, $b), F.lit(3))
min(a) => $a
min(a, b) => F.least($a, $b)
min(a, b, c) => F.least(F.least($a, $b), $c)
max(min(a, b), c) => F.greatest(F.least($a, $b), $c)
random() => F.rand()
# -- text
len(a) => F.length($a)
lower(a) => F.lower($a)
upper(a) => F.upper($a)
ltrim(a, b) => F.ltrim($a, $b)
rtrim(a, b) => F.rtrim($a, $b)
trim(a, b) => F.trim($a, $b)
trim(a, " ") => F.trim($a, F.lit(' '))
replace(a, "x", "y") => F.regexp_replace($a, 'x', 'y')
replace(a, "$p", "$q") => F.regexp_replace($a, '⟨p⟩', '⟨q⟩')
substr(a, 1, 2) => F.substring($a, 1, 2)
substr(a, "n:s", "n:l") => F.substring($a, ⟨s⟩, ⟨l⟩)
urldecode(a) => F.url_decode($a)
# -- trigonometry
acos(a) => F.acos($a)
acosh(a) => F.acosh($a)
asin(a) => F.asin($a)
asinh(a) => F.asinh($a)
atan(a) => F.atan($a)
atan2(a, b) => F.atan2($a, $b)
atanh(a) => F.atanh($a)
cos(a) => F.cos($a)
cosh(a) => F.cosh($a)
hypot(a, b) => F.hypot($a, $b)
sin(a) => F.sin($a)
sinh(a) => F.sinh($a)
tan(a) => F.tan($a)
tanh(a) => F.tanh($a)
# -- conversion functions usable in expressions
rmcomma(a) => F.regexp_replace($a, ',', '').cast('double')
rmunit(a) => F.regexp_extract($a, r'(?i)^(\d*\.?\d+)(\w*)$', 1).cast('double')
memk(a) => F.regexp_extract($a, r'(?i)^(\d*\.?\d+)([kmg])$', 1).cast('double') * F.when(F.upper(F.regexp_extract($a, r'(?i)^(\d*\.?\d+)([kmg])$', 2)) == F.lit('K'), F.lit(1.0)).when(F.upper(F.regexp_extract($a, r'(?i)^(\d*\.?\d+)([kmg])$', 2)) == F.lit('M'), F.lit(1024.0)).when(F.upper(F.regexp_extract($a, r'(?i)^(\d*\.?\d+)([kmg])$', 2)) == F.lit('G'), F.lit(1048576.0)).otherwise(F.lit(1.0))
# -- nesting keeps every level
lower(upper(a)) => F.lower(F.upper($a))
if_(isnull(a), 0, len(a)) => F.when(F.isnull($a), F.lit(0)).otherwise(F.length($a))
round(sqrt(pow(a, 2)), 1) => F.round(F.sqrt(F.pow($a, F.lit(2))), 1)
coalesce(nullif(a, ""), "d") => F.coalesce(F.nullif($a, F.lit('')), F.lit('d'))
'''

# name -> allowed numbers of arguments (the shapes above show the translation); None: unbounded from the first
ARITY = {
    "bit_and": [2], "bit_or": [2], "bit_xor": [2], "bit_not": [1], "case": [2, 4], "validate": [2, 4],
    "if": [3], "in": [2], "like": [2], "match": [2], "nullif": [2], "true": [0], "false": [0],
    "null": [0], "tonumber": [1], "tostring": [1], "md5": [1], "sha1": [1], "sha256": [1], "sha512": [1], "now": [0],
    "time": [0], "isnull": [1], "isnotnull": [1], "json_keys": [1], "json_valid": [1], "abs": [1], "ceiling": [1],
    "exact": [1], "exp": [1], "floor": [1], "ln": [1], "pi": [0], "pow": [2], "sqrt": [1], "mvcount": [1],
    "random": [0], "len": [1], "lower": [1], "upper": [1], "ltrim": [2], "rtrim": [2], "trim": [2], "urldecode": [1],
    "acos": [1], "acosh": [1], "asin": [1], "asinh": [1], "atan": [1], "atan2": [2], "atanh": [1], "cos": [1],
    "cosh": [1], "hypot": [2], "sin": [1], "sinh": [1], "tan": [1], "tanh": [1], "memk": [1], "rmunit": [1],
    "rmcomma": [1], "avg": [1, 2, 3, 4, 5], "max": [1, 2, 3, 4, 5], "min": [1, 2, 3, 4, 5],
    "coalesce": [1, 2, 3, 4, 5], "mvappend": [1, 2, 3, 4, 5],
}
# literal-taking functions: surplus and missing arguments
ARITY_SHAPES = r'''
mvindex(a) => ERROR
mvindex(a, 1, 2, 3) => ERROR
mvindex(a, b) => ERROR
mvindex(a, 1, b) => ERROR
mvzip(a) => ERROR
mvzip(a, b, "|", c) => ERROR
mvzip(a, b, "|", "x", c) => ERROR
relative_time(a) => ERROR
relative_time(a, "snap:|days|", b) => ERROR
relative_time("snap:|days|") => ERROR
substr(a) => ERROR
substr(a, 1, 2, 3) => ERROR
round(a, 1, 2) => ERROR
round(a, b) => ERROR
bit_shift_left(a) => ERROR
bit_shift_left(a, 1, 2) => ERROR
bit_shift_right(a, 1, 2) => ERROR
strftime(a) => ERROR
strftime(a, "%H", b) => ERROR
strptime(a) => ERROR
strptime(a, "%H", b) => ERROR
cidrmatch("10.0.0.0/8") => ERROR
cidrmatch("10.0.0.0/8", a, b) => ERROR
replace(a, "x") => ERROR
replace(a, "x", "y", "z") => ERROR
replace(a, 3, "y") => ERROR
split(a) => ERROR
split(a, ",", b) => ERROR
log(a, 2, 3) => ERROR
tonumber(a, 16) => ERROR
tonumber() => ERROR
tostring(a, "hex") => ERROR
tostring(a, "commas") => ERROR
case() => ERROR
case(a) => ERROR
case(a, b, c) => ERROR
validate() => ERROR
validate(a) => ERROR
validate(a, b, c) => ERROR
avg() => ERROR
max() => ERROR
min() => ERROR
'''
UNSUPPORTED_EVAL = ("lookup searchmatch ipmask printf isbool isint isnum isstr typeof json_object json_append json_array "
                    "json_array_to_mv json_extend json_extract json_extract_exact json_set json_set_exact sigfig "
                    "commands mvdedup mvfilter mvfind mvjoin mvmap mvrange mvsort mv_to_json_array spath").split()

STATS = r'''
avg(a) => | F.avg($a) | avg
mean(a) => | F.avg($a) | mean
count() => | F.count(F.lit(1)) | count
count(a) => | F.count($a) | count
dc(a) => | F.count_distinct($a) | dc
distinct_count(a) => | F.count_distinct($a) | distinct_count
estdc(a) => | F.approx_count_distinct($a) | estdc
exactperc95(a) => | F.percentile($a, 0.95) | exactperc
exactperc5(a) => | F.percentile($a, 0.05) | exactperc
percentile90(a) => | F.percentile_approx($a, 0.9) | percentile
percentile25(a) => | F.percentile_approx($a, 0.25) | percentile
upperperc99(a) => | F.percentile_approx($a, 0.99) | upperperc
max(a) => | F.max($a) | max
min(a) => | F.min($a) | min
median(a) => | F.percentile_approx($a, F.lit(0.5)) | median
mode(a) => | F.mode($a) | mode
range(a) => | F.max($a) - F.min($a) | range
stdev(a) => | F.stddev_samp($a) | stdev
stdevp(a) => | F.stddev_pop($a) | stdevp
sum(a) => | F.sum($a) | sum
sumsq(a) => | F.sum($a * $a) | sumsq
var(a) => | F.var_samp($a) | var
varp(a) => | F.var_pop($a) | varp
first(a) => | F.first($a, True) | first
last(a) => | F.last($a, True) | last
list(a) => | F.collect_list($a) | list
values(a) => | F.collect_set($a) | values
earliest(a) => .orderBy(F.col('_time').asc()) | F.first($a, True) | earliest
latest(a) => .orderBy(F.col('_time').asc()) | F.last($a, True) | latest
earliest_time(a) => | F.min(F.col('_time')) | earliest_time
latest_time(a) => | F.max(F.col('_time')) | latest_time
rate(a) => .orderBy(F.col('_time').asc()) | (F.last($a) - F.first($a)) / (F.max(F.col('_time')) - F.min(F.col('_time'))) | rate
sum(len(a)) => | F.sum(F.length($a)) | sum
avg(a * b) => | F.avg($a * $b) | avg
'''
STATS_ERR = ("count(a, b)", "dc()", "dc(a, b)", "sum()", "sum(a, b)", "avg()", "avg(a, b)", "max()", "max(a, b)", "min()",
             "min(a, b)", "mean(a, b)", "median()", "median(a, b)", "mode(a, b)", "range(a, b)", "range()", "stdev(a, b)",
             "stdevp()", "sumsq(a, b)", "var()", "var(a, b)", "varp(a, b)", "first()", "first(a, b)", "last(a, b)",
             "list()", "list(a, b)", "values(a, b)", "values()", "earliest()", "earliest(a, b)", "latest(a, b)", "rate()",
             "rate(a, b)", "estdc(a, b)", "percentilex(a)", "exactpercx(a)", "upperpercx(a)", "percentile90()",
             "percentile90(a, b)", "exactperc95(a, b)", "upperperc99()")
UNSUPPORTED_STATS = "estdc_error per_day per_hour per_minute per_second rate_avg rate_sum".split()

RUNTIME_RENAME = {"if": "if_", "in": "in_", "len": "len_", "sum": "sum_", "max": "max_", "min": "min_"}


def ev(S, expr, rt="Disallow"):
    return S.E.command(S.cmd("EvalCommand", fields=S.vec([V("tup", (S.field("$r"), expr))])), rt)


def st(S, expr, rt="Disallow", by=()):
    by_ = Some(S.vec([S.E.struct("MaybeSpannedField", "", field=S.field("$" + b), span=NONE) for b in by])) if by else NONE
    return S.E.command(S.cmd("StatsCommand", funcs=S.vec([expr]), by=by_), rt)


def eval_table(ctx, rep):
    S, g = ctx.S, Golden(rep, ctx.E)
    for lhs, rhs in table(EVAL):
        w = want(rhs)
        exp = ["ERROR"] if w == "ERROR" else ["⟨IN⟩.withColumn('⟨r⟩', %s)" % w]
        g.case("eval " + lhs, lambda: ev(S, shape(S, lhs)), exp, where(ctx, lhs))
    # unknown functions: same name, same arguments, same order
    g.case("eval unknown(a,b)", lambda: ev(S, shape(S, "somefunction(a, b)")),
           ["⟨IN⟩.withColumn('⟨r⟩', F.somefunction(F.col('⟨a⟩'), F.col('⟨b⟩')))"], where(ctx, "("))
    # inside `where`
    for lhs, rhs in (("isnull(a)", "F.isnull($a)"), ("len(a) > 3", "F.length($a) > F.lit(3)"),
                     ("like(a, \"x%\")", "F.like($a, F.lit('x%'))"),
                     ("match(a, \"^x\") and b == 2", "F.regexp_like($a, F.lit('^x')) & ($b == F.lit(2))")):
        g.case("where " + lhs, lambda: S.E.command(S.cmd("WhereCommand", expr=shape(S, lhs))),
               ["⟨IN⟩.where(%s)" % want(rhs)], where(ctx, "where("))


def where(ctx, lhs):
    n = lhs.split("(")[0].rstrip("_")
    b = ctx.F.find("eval_fn_bare") if hasattr(ctx.F, "find") else None
    return "translation of `%s` (src/functions/eval_fns.rs)" % n


def eval_arity(ctx, rep):
    S, g = ctx.S, Golden(rep, ctx.E)
    letters = "abcde"
    for name, ok in ARITY.items():
        for n in range(0, 6):
            if n in ok:
                continue
            if max(ok) == 5 and n > 0 or (name in ("case", "validate")):
                continue
            lhs = "%s(%s)" % (name + ("_" if name in ("if", "in") else ""), ", ".join(letters[:n]))
            g.case("arity eval " + lhs, lambda: ev(S, shape(S, lhs)), ["ERROR"], where(ctx, lhs))
    for lhs, rhs in table(ARITY_SHAPES):
        g.case("arity eval " + lhs, lambda: ev(S, shape(S, lhs)), ["ERROR"], where(ctx, lhs))


def unsupported_fns(ctx, rep):
    S, g = ctx.S, Golden(rep, ctx.E)
    letters = "abcde"
    for name in UNSUPPORTED_EVAL:
        for n in ((0, 1, 2, 3) if not ctx.thorough else range(6)):
            lhs = "%s(%s)" % (name, ", ".join(letters[:n]))
            g.case("unsupported eval " + lhs, lambda: ev(S, shape(S, lhs)), ["ERROR"], where(ctx, lhs))
        g.case("unsupported nested " + name, lambda: ev(S, shape(S, "lower(%s(a))" % name)), ["ERROR"], where(ctx, name))
    for name in UNSUPPORTED_STATS:
        for n in (0, 1, 2):
            lhs = "%s(%s)" % (name, ", ".join(letters[:n]))
            g.case("unsupported stats " + lhs, lambda: st(S, shape(S, lhs)), ["ERROR"],
                   "translation of `%s` (src/functions/stat_fns.rs)" % name)


def stats_table(ctx, rep):
    S, g = ctx.S, Golden(rep, ctx.E)
    for lhs, rhs in table(STATS):
        pre, ex, al = [x.strip() for x in rhs.split("|")]
        w = "translation of `%s` (src/functions/stat_fns.rs)" % lhs
        ex = want(ex)
        g.case("stats " + lhs, lambda: st(S, shape(S, lhs)),
               ["⟨IN⟩%s.groupBy([]).agg((%s).alias('%s'))" % (pre, ex, al)], w)
        g.case("stats " + lhs + " as n", lambda: st(S, shape(S, lhs + "[n]")),
               ["⟨IN⟩%s.groupBy([]).agg((%s).alias('⟨n⟩'))" % (pre, ex)], w)
        g.case("stats " + lhs + " by g", lambda: st(S, shape(S, lhs), by=("g",)),
               ["⟨IN⟩%s.groupBy(['⟨g⟩']).agg((%s).alias('%s'))" % (pre, ex, al)], w)
    g.case("stats unknown(a,b)", lambda: st(S, shape(S, "somefunction(a, b)")),
           ["⟨IN⟩.groupBy([]).agg(F.somefunction(F.col('⟨a⟩'), F.col('⟨b⟩')).alias('somefunction'))"], "src/functions/stat_fns.rs")


def stats_arity(ctx, rep):
    S, g = ctx.S, Golden(rep, ctx.E)
    for lhs in STATS_ERR:
        g.case("arity stats " + lhs, lambda: st(S, shape(S, lhs)), ["ERROR"],
               "translation of `%s` (src/functions/stat_fns.rs)" % lhs)


def eval_runtime(ctx, rep):
    """functions in runtime mode: same name (Python-safe spelling), every argument in order"""
    S, g = ctx.S, Golden(rep, ctx.E)
    letters = "abcde"
    names = dict((n, max(a)) for n, a in ARITY.items() if max(a) < 5)
    names.update(avg=3, max=3, min=3, coalesce=3, mvappend=3, mvindex=3, round=2, substr=3, mvzip=3, split=2, replace=3,
                 log=2, strftime=2, strptime=2, sum=2, mvjoin=2, tonumber=2, tostring=2, relative_time=2)
    for name, n in names.items():
        args = letters[:n]
        lhs = "%s(%s)" % (name + ("_" if name in ("if", "in") else ""), ", ".join(args))
        f = "functions.eval.%s(%s)" % (RUNTIME_RENAME.get(name, name), ", ".join("F.col('⟨%s⟩')" % a for a in args))
        for rt in ("Require", "Allow"):
            g.case("runtime[%s] eval %s" % (rt, lhs), lambda: ev(S, shape(S, lhs), rt),
                   ["df_⟨uid1⟩ = commands.eval(⟨IN⟩, ⟨r⟩=%s)\ndf_⟨uid1⟩" % f], "src/functions/eval_fns.rs")
        if not ctx.thorough and name in ("sin", "cos", "tan", "sinh", "cosh", "tanh", "asin", "acos"):
            continue
    for rt in ("Require", "Allow"):
        g.case("runtime[%s] eval cidrmatch" % rt, lambda: ev(S, shape(S, 'cidrmatch("10.0.0.0/8", a)'), rt),
               ["df_⟨uid1⟩ = commands.eval(⟨IN⟩, ⟨r⟩=functions.eval.cidrmatch('10.0.0.0/8', F.col('⟨a⟩')))\ndf_⟨uid1⟩"],
               "src/functions/eval_fns.rs")
        g.case("runtime[%s] eval nested" % rt, lambda: ev(S, shape(S, "if_(isnull(a), 0, len(b))"), rt),
               ["df_⟨uid1⟩ = commands.eval(⟨IN⟩, ⟨r⟩=functions.eval.if_(functions.eval.isnull(F.col('⟨a⟩')), F.lit(0), "
                "functions.eval.len_(F.col('⟨b⟩'))))\ndf_⟨uid1⟩"], "src/functions/eval_fns.rs")


def stats_runtime(ctx, rep):
    S, g = ctx.S, Golden(rep, ctx.E)
    for lhs, _ in table(STATS):
        m = re.match(r"(\w+)\((.*)\)$", lhs)
        if not re.fullmatch(r"[a-z, ]*", m.group(2)):
            continue
        args = [a.strip() for a in m.group(2).split(",") if a.strip()]
        f = "functions.stats.%s(%s)" % (m.group(1), ", ".join("F.col('⟨%s⟩')" % a for a in args))
        for rt in ("Require", "Allow"):
            g.case("runtime[%s] stats %s as n" % (rt, lhs), lambda: st(S, shape(S, lhs + "[n]"), rt),
                   ["df_⟨uid1⟩ = commands.stats(⟨IN⟩, ⟨n⟩=%s)\ndf_⟨uid1⟩" % f], "src/functions/stat_fns.rs")
