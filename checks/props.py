"""Single source of the property list: properties.jsonl, MANIFEST.json and the check registry are made from it
(tools/gen.py writes the first two)."""

ABS = ("Abstract interpretation of the type-checked program (THIR exported by the driver in /verif/driver): the input "
       "constructors are fixed, every leaf (names, numbers, texts) is symbolic, and the transformation and rendering "
       "code is evaluated over a partitioned abstract domain to the template(s) of Python text it can return; the "
       "canonicalised template must equal the reviewed expectation. ")
TEMPLATE = "abstract interpretation of the Rust THIR (partitioned emission templates) against reviewed expectations"
LEVEL = ("Covers every input of each enumerated constructor shape (leaves symbolic), for the shapes in checks/data and "
         "the tables of checks/golden_fns.py. Trusts the abstract semantics of std/anyhow/nom items in lib/absint.py "
         "and the reviewed expectations; a shape the domain cannot decide is reported as undecided, not as held.")

P = []


def prop(pid, title, statement, over, qtext, why, files, mech, parts, rule, technique=TEMPLATE, level_note=LEVEL,
         observe=(), state=(), **kw):
    P.append(dict(id=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  parts=parts, rule=rule, technique=technique, level_note=level_note, observe=list(observe),
                  state=list(state), kw=kw))


RENDER = "Python text returned by render_pyspark / convert_spl_to_pyspark"

prop("T01", "Each command is translated to the DataFrame operation it documents",
     "For every query using only supported commands and no runtime library, the generated PySpark applies, for each "
     "command, exactly the DataFrame operations that implement that command's documented SPL meaning (right columns, "
     "right direction, right join type, right limits), for every field name, literal and combination of operands.",
     ["inputs", "programs"], "every value of every operand of every supported command",
     "The suite pins one or two literal queries per command; field names, operand counts and option combinations are "
     "unbounded.",
     ["src/commands/*/pyspark.rs", "src/pyspark/ast.rs", "src/pyspark/transpiler/mod.rs"],
     [("transform_standalone of every command", "src/commands/cmd_*/pyspark.rs"),
      ("rendering of dataframe operations", "src/pyspark/ast.rs")],
     ["golden_cmds:standalone"],
     ABS + "Rule: for each command shape in checks/data/commands.txt, standalone mode, with and without a dataframe to "
     "work on.", observe=[RENDER])

prop("T02", "Each eval function is translated to its Spark equivalent",
     "Every supported eval function call is translated to a Spark expression with the same meaning: the documented "
     "Spark function, with every argument in the position the function gives it, for all argument expressions.",
     ["inputs", "programs"], "every supported eval function, every argument",
     "Tests exercise one call per function, usually with distinct column names that do not reveal swapped, dropped or "
     "re-ordered arguments in other arities.",
     ["src/functions/eval_fns.rs", "src/functions/convert_fns.rs"],
     [("eval_fn table of function translations", "src/functions/eval_fns.rs")],
     ["golden_fns:eval_table"],
     ABS + "Rule: every eval function in every documented arity, arguments symbolic columns or literals "
     "(golden_fns.EVAL).", observe=[RENDER])

prop("T03", "Each aggregate is translated to its Spark aggregate with its output name",
     "Every supported aggregation function of stats, tstats, top and rare is translated to the Spark aggregate with "
     "the same meaning over the given field, grouped by exactly the given by-fields, and its result column carries the "
     "alias given in the query or else the function's default name.",
     ["inputs", "programs"], "every aggregation function, field, alias and by-list",
     "Tests sample a few functions; aliases and by-lists are free text.",
     ["src/functions/stat_fns.rs", "src/commands/cmd_stats/pyspark.rs", "src/pyspark/alias.rs"],
     [("stats_fn table", "src/functions/stat_fns.rs"), ("alias handling", "src/pyspark/alias.rs")],
     ["golden_fns:stats_table", "golden_cmds:aggregates"],
     ABS + "Rule: every aggregation function with and without alias, and every shape of the aggregating commands.",
     observe=[RENDER])

prop("T04", "Time formats and conversions are translated code by code",
     "Every documented time-format variable used by strftime, strptime and convert is replaced by the Spark pattern "
     "for the same quantity, literal text is kept as literal text, and variables Spark cannot express are rejected; "
     "each convert function is applied to its own field and written to its alias when one is given.",
     ["inputs"], "every time-format variable, alone and combined with text",
     "Tests use two or three formats.",
     ["src/pyspark/transpiler/utils.rs", "src/functions/convert_fns.rs", "src/commands/cmd_convert/pyspark.rs"],
     [("time format conversion table", "src/pyspark/transpiler/utils.rs"),
      ("convert functions", "src/functions/convert_fns.rs")],
     ["golden_cmds:timeformats", "golden_cmds:converts"],
     ABS + "Rule: every documented format variable and mixed formats through strftime/strptime "
     "(checks/data/timefmt.txt), and every shape of the convert command.", observe=[RENDER])

prop("T05", "Operators keep their meaning and grouping in the generated expression",
     "Every operator, literal and pattern of an expression is translated to the Spark operator with the same meaning, "
     "and the generated Python groups operands exactly as the parsed expression does, whatever the nesting.",
     ["inputs", "programs"], "every operator applied to every operand kind, nested both ways",
     "Tests contain a handful of nested expressions; precedence mistakes in generated Python need particular nestings.",
     ["src/pyspark/transpiler/expr.rs", "src/pyspark/ast.rs"],
     [("expression translation", "src/pyspark/transpiler/expr.rs"),
      ("rendering of column expressions", "src/pyspark/ast.rs")],
     ["golden_cmds:expressions", "trees:expressions"],
     ABS + "Python's own parser canonicalises the template, so two texts are equal only if Python groups them alike. "
     "Rule: every operator with every kind of operand and nestings on both sides (checks/data/exprs.txt); every expression tree of two (thorough: three) operators is moreover "
     "compared with an independent compositional translation (checks/trees.py).",
     observe=[RENDER])

prop("T06", "A call with missing or surplus arguments is rejected",
     "A call of an eval or aggregation function with a number of arguments the function does not accept is an error; "
     "no argument the user wrote is ever silently dropped from the translation.",
     ["inputs", "programs"], "every function, every argument count",
     "No test calls most functions with a wrong number of arguments.",
     ["src/functions/eval_fns.rs", "src/functions/stat_fns.rs", "src/functions/shared.rs"],
     [("function_transform! argument extraction", "src/functions/shared.rs")],
     ["golden_fns:eval_arity", "golden_fns:stats_arity"],
     ABS + "Rule: for every function and every argument count from 0 to two more than documented, the call is rejected "
     "when the count is not documented and every argument symbol occurs in the template when it is.",
     observe=["exception raised by render_pyspark", RENDER])

prop("T07", "What cannot be translated is an error, never silently wrong code",
     "A pipeline that contains a command, function, option or time-format variable which has no translation is "
     "rejected with an error, wherever in the pipeline or sub-pipeline it occurs; the untranslatable part is never "
     "skipped or replaced by code that ignores it.",
     ["inputs", "programs"], "every pipeline position, every untranslatable construct",
     "Tests assert a few rejections, none inside sub-pipelines.",
     ["src/functions/*.rs", "src/commands/*/pyspark.rs", "src/pyspark/transpiler/mod.rs"],
     [("bail! in transformations", "src/commands/*/pyspark.rs"), ("unsupported function arms", "src/functions")],
     ["golden_fns:unsupported_fns", "golden_cmds:unsupported", "trees:rejected", "parser:unknown"],
     ABS + "Rule: for every shape whose reviewed expectation is an error, no successful template may survive.",
     observe=["exception raised by render_pyspark"])

prop("T08", "Commands of a pipeline apply in order, each to the previous result",
     "The generated program applies the commands of a pipeline in order, each to the complete result of the previous "
     "one; sub-pipelines of join, append-like and multisearch commands are translated independently and combined with "
     "the enclosing pipeline exactly once.",
     ["programs"], "every sequence and nesting of commands",
     "Tests chain two or three particular commands.",
     ["src/pyspark/transpiler/mod.rs", "src/commands/*/pyspark.rs"],
     [("pipeline fold", "src/pyspark/transpiler/mod.rs"), ("sub-pipelines", "src/commands/cmd_join/pyspark.rs")],
     ["golden_cmds:whole_standalone", "golden_cmds:first", "golden_cmds:nested"],
     ABS + "Whole pipelines are interpreted through the library's rendering entry point (checks/data/pipelines.txt); "
     "each command is also interpreted as the first of a pipeline.", observe=[RENDER])

prop("T09", "Every option either has its documented effect or is rejected",
     "Changing any option of a supported command away from its default changes the generated program in the documented "
     "way, or makes the command an error (or a reported limitation); no option is silently ignored, and no option "
     "affects anything but what it documents.",
     ["inputs", "configurations"], "every option of every supported command",
     "Tests set few options, one at a time.",
     ["src/commands/*/spl.rs", "src/commands/*/pyspark.rs"],
     [("command option fields", "src/commands/*/spl.rs"), ("their use", "src/commands/*/pyspark.rs")],
     ["golden_cmds:options"],
     ABS + "Rule: for each command, shapes with each option (and pairs that interact) away from its default.",
     observe=[RENDER])

prop("T10", "Any field name or literal stays one well-quoted Python token",
     "Every field name, string literal, pattern and format of the query appears in the generated code as exactly one "
     "Python string with the same characters: quotes, backslashes, newlines and braces in user text can neither break "
     "the generated code nor change what it does.",
     ["inputs"], "every text a user can put in a query",
     "No test puts quotes or backslashes in names; the space of texts is unbounded.",
     ["src/pyspark/ast.rs", "src/pyspark/transpiler/*.rs", "src/commands/*/pyspark.rs"],
     [("string rendering", "src/pyspark/ast.rs")],
     ["golden_cmds:quoting"],
     ABS + "Rule: shapes whose leaves contain quotes, backslashes and newlines; the emitted text, parsed by Python, "
     "must contain the same characters.", observe=[RENDER])

RUN = ("Two abstract interpreters in sequence: the THIR interpreter evaluates the translation of each shape with the "
       "runtime required or allowed to templates of Python text, and lib/pyabs.py evaluates each template against the "
       "source of /repo/python/spl_transpiler/runtime, read as syntax trees, with the input dataframe, columns and "
       "names symbolic (pydantic's coercions and the signatures of the decorated functions included). ")
RUNTECH = "abstract interpretation of the Rust THIR composed with abstract interpretation of the Python runtime's source"
RUNLEVEL = ("Covers every input of each enumerated shape (leaves symbolic). Trusts the abstract semantics of Rust std "
            "and of the Python subset, pydantic and PySpark classes the runtime uses (lib/pyabs.py), which fails closed "
            "on anything it does not model.")

prop("T11", "Every program generated for the runtime library is one the library accepts",
     "When the runtime library is allowed or required, every command, function and parameter name the generated "
     "program uses exists in the library, every call passes arguments of the number and types the library's validated "
     "signatures take, and the library's code runs to the end on it, unless it says that something is not implemented.",
     ["inputs", "programs", "configurations"], "every command and function under the runtime setting",
     "Tests for the runtime cover few functions and compare generated text, they do not run it; translator and library "
     "are in two languages with nothing but text between them.",
     ["src/commands/*/pyspark.rs", "src/functions/eval_fns.rs", "src/functions/stat_fns.rs",
      "python/spl_transpiler/runtime"],
     [("transform_for_runtime", "src/commands/*/pyspark.rs"),
      ("runtime commands and functions", "python/spl_transpiler/runtime")],
     ["runtime:accepted"],
     RUN + "Rule: no trace of the interpreted program raises an error other than NotImplementedError.",
     technique=RUNTECH, level_note=RUNLEVEL,
     observe=[RENDER, "exceptions raised by spl_transpiler.runtime"])

prop("T13", "A translation depends on nothing but the query and the settings",
     "Parsing, expanding macros in, translating and rendering the same query with the same settings always gives the "
     "same text, whatever was translated before, at any time, in any process and environment: no result depends on the "
     "order of hash tables, on counters, caches or other state kept between translations, on time, environment or "
     "randomness.",
     ["programs", "histories"], "every query, any history of earlier translations, every process",
     "A test process translates once, with one hash seed and, mostly, too few elements for an order to show.",
     ["src/pyspark/base.rs", "src/pyspark/ast.rs", "src/commands/cmd_search/pyspark.rs", "src/spl/ast.rs", "src/lib.rs"],
     [("HashSet of indices", "src/commands/cmd_search/pyspark.rs"), ("variable counter of PysparkTranspileContext", "src/pyspark/base.rs")],
     ["effects:rust", "effects:python"],
     "Effect analysis of every body of the crate (THIR) and every module of the Python package: calls of sources of "
     "nondeterminism (time, environment, randomness, threads, files, addresses), statics and thread locals with "
     "interior mutability, and every iteration over a hash table must end in an order-independent operation, another "
     "set or map, or a vector that is sorted.",
     technique="effect analysis over the type-checked program (THIR) and the Python syntax trees",
     level_note="All bodies of the crate but tests and pyo3's generated glue. Third-party crates (nom, regex, ruff's "
     "formatter) are trusted; an iteration over a hash table whose use is not understood is undecided. The interactive "
     "translator and notebook magic are outside.",
     observe=[RENDER])

prop("R01", "With the runtime library a query computes what it computes without it",
     "For every command and function the runtime library implements, the dataframe its code builds for the generated "
     "program is the one the translation without the library describes: the same operations on the same columns in the "
     "same order, for all names, literals and options; what the library cannot do is an error.",
     ["inputs", "programs", "configurations"], "every command and function under the runtime setting",
     "The two implementations are tested apart, on different samples; nothing compares them.",
     ["src/commands/*/pyspark.rs", "src/functions/eval_fns.rs", "src/functions/stat_fns.rs",
      "python/spl_transpiler/runtime"],
     [("runtime commands", "python/spl_transpiler/runtime/commands"),
      ("runtime functions", "python/spl_transpiler/runtime/functions"),
      ("transform_for_runtime", "src/commands/*/pyspark.rs")],
     ["runtime:results"],
     RUN + "Rule: the PySpark expression the interpreted program builds, canonicalised (filters joined, conjuncts "
     "sorted, lambda parameters renamed), equals the reviewed expectation of the same shape without the runtime "
     "(or, where the library means to differ, the reviewed text in checks/data/runtime*.txt).",
     technique=RUNTECH, level_note=RUNLEVEL,
     observe=[RENDER, "dataframe returned by spl_transpiler.runtime.commands"])

prop("R02", "The runtime's search and table lookup select exactly the given sources",
     "Whatever subset of index, source, sourcetype, host, tags, event types, saved search, server and data model is "
     "given, the default table lookup reads the table those parameters name and filters by each of the others by its "
     "own stored column, raises an error when no table can be named, and the search command passes every parameter on "
     "under its own name, or filters its input by it when it has one.",
     ["inputs", "configurations"], "every subset of the ten source parameters",
     "Tests call the lookup with two or three of the 1024 subsets.",
     ["python/spl_transpiler/runtime/config.py", "python/spl_transpiler/runtime/commands/search.py"],
     [("default_table_lookup", "python/spl_transpiler/runtime/config.py"),
      ("search", "python/spl_transpiler/runtime/commands/search.py")],
     ["runtime:library"],
     "Abstract interpretation of the library's source (lib/pyabs.py) for a call with each of the 2048 parameter "
     "subsets, compared with an independent statement of the selection (checks/runtime.py).",
     technique="abstract interpretation of the Python runtime's source against an independent specification",
     level_note="All subsets; parameter values are distinct non-empty texts.",
     observe=["dataframe returned by default_table_lookup and search"])

prop("R03", "The runtime's user-defined functions compute the SPL function for every value",
     "For every argument, valid or not, the runtime's user-defined functions return what the SPL function of that name "
     "is documented to return (network membership, bitwise address masking, printf formatting, number parsing in a base, "
     "binary, hexadecimal, comma and duration formatting), null or false where an address, mask or number cannot be "
     "read, and Spark is told the type they return.",
     ["inputs"], "every argument value of every user-defined function",
     "No test calls them.",
     ["python/spl_transpiler/runtime/udfs/__init__.py"],
     [("user-defined functions", "python/spl_transpiler/runtime/udfs/__init__.py")],
     ["runtime:udfs"],
     "Abstract interpretation of each body on symbolic values of each type, library calls on arguments forking into "
     "success and each error they raise; the resulting expressions, canonicalised (format strings, quotients and "
     "remainders), against an independent table (checks/runtime.py UDFS).",
     technique="abstract interpretation of the Python runtime's source against an independent specification",
     level_note="All values of the listed types; trusts the semantics of ipaddress and Python's formatting.",
     observe=["value returned by spl_transpiler.runtime.udfs"])

prop("R04", "The runtime library takes each documented form of its arguments alike",
     "Called directly, each function of the runtime library takes an expression as a Column, as a column's name or as a "
     "plain number, truth value or null, alone or mixed with the other forms, always with the meaning of the same "
     "Column; time spans, snaps and offsets, lists of columns, data model names and formats mean what the commands and "
     "functions document, in any combination, and combinations without a meaning are errors.",
     ["inputs", "programs"], "every function of the runtime library, every form of every argument",
     "Tests call some functions with one form of their arguments.",
     ["python/spl_transpiler/runtime/base.py", "python/spl_transpiler/runtime/functions/eval.py",
      "python/spl_transpiler/runtime/functions/stats.py", "python/spl_transpiler/runtime/functions/utils.py",
      "python/spl_transpiler/runtime/commands/tstats.py", "python/spl_transpiler/runtime/commands/data_model.py"],
     [("Expr, TimeSpan and enforce_types", "python/spl_transpiler/runtime/base.py"),
      ("relative_time and time utilities", "python/spl_transpiler/runtime/functions/utils.py")],
     ["runtime:forms", "runtime:direct"],
     "Abstract interpretation of the runtime's source (lib/pyabs.py): calls that differ only in the form of an argument "
     "must give the same expression tree, for every function (enumerated from the source) and parameter; further calls "
     "against an independent table (checks/runtime.py FORMS, DIRECT, relative_time).",
     technique="abstract interpretation of the Python runtime's source: metamorphic relations and an independent table",
     level_note="One to four arguments for functions with any number; functions with dict or list parameters only by the "
     "tables.",
     observe=["columns and dataframes returned by spl_transpiler.runtime"])

prop("M01", "Macro calls are replaced by their definitions with the arguments as written",
     "Expanding a query replaces every macro call by that macro's definition, itself expanded, with each parameter "
     "replaced by the argument given for it, character for character, whatever characters arguments, definitions and "
     "parameter names contain; the rest of the query is unchanged, and an unknown macro, a missing argument or one too "
     "many is an error. Definitions and their parameter lists are read from macros.conf, JSON and mappings as written.",
     ["inputs", "programs"], "every query text, definition, argument and nesting of macro calls",
     "Tests expand two macros with plain words; arguments containing each other's placeholders, backslashes or parameter "
     "names that are prefixes of others are free text.",
     ["python/spl_transpiler/macros.py"],
     [("substitute_macros, parse_with_macros and the macro loaders", "python/spl_transpiler/macros.py")],
     ["macros:expansion", "macros:loaders"],
     "Abstract interpretation of macros.py (lib/pyabs.py): the detected calls, query texts, definitions and argument "
     "texts are symbolic, regular expressions are evaluated as languages; the text returned must be the concatenation "
     "the specification gives (checks/macros.py).",
     technique="abstract interpretation of the Python source against an independent specification",
     level_note="All texts; calls with up to three arguments, nested definitions up to the depths listed. Recursive "
     "definitions end in RecursionError and are not covered.",
     observe=["text returned by substitute_macros", "query passed to the parser by parse_with_macros"])

prop("T12", "Generated programs define every dataframe variable once, before its use",
     "In every generated program each dataframe variable is assigned exactly once, before any use, no two statements "
     "share a variable, no statement is lost or repeated however deeply its command is nested, and the last line is "
     "the result of the whole pipeline.",
     ["programs", "configurations"], "every pipeline under the runtime setting",
     "Tests check three short runtime programs; duplicated or lost statements need nested or repeated commands.",
     ["src/pyspark/base.rs", "src/pyspark/ast.rs"],
     [("preface collection", "src/pyspark/base.rs"), ("runtime statements", "src/pyspark/ast.rs")],
     ["golden_cmds:whole_runtime"],
     ABS + "Whole pipelines under the runtime setting, variables renamed by order of appearance.",
     observe=[RENDER])

prop("T17", "Search and where keep exactly the events the query's condition selects",
     "The search and where commands are translated to filters equivalent to their condition: index terms choose the "
     "tables read, free text is matched against the raw event, wildcards match patterns, and every other comparison "
     "becomes a filter on its field, also in the middle of a pipeline.",
     ["inputs", "programs"], "every search condition",
     "Tests pin some conditions; boolean structure and operand kinds are unbounded.",
     ["src/commands/cmd_search/pyspark.rs", "src/commands/cmd_where/pyspark.rs", "src/pyspark/transpiler/expr.rs"],
     [("index extraction and filters", "src/commands/cmd_search/pyspark.rs")],
     ["golden_cmds:search", "trees:searches"],
     ABS + "Rule: every search/where shape in checks/data/commands.txt, in all modes and positions; every search condition of one (thorough: two) operators "
     "over index, field, free-text and numeric terms is compared with an independent translation (checks/trees.py).",
     observe=[RENDER])

API = ("Abstract interpretation of the Rust THIR yields every template of generated code of the enumerated shapes; each "
       "template is then checked as a Python program by a kind-and-signature analysis (lib/pytypes.py): every call "
       "against the callee's parameters, kinds of arguments and receivers, aggregate/row context, definedness of "
       "variables. ")

prop("T15", "Generated code calls the PySpark API as it is declared",
     "Every call in a generated program names a function or method that PySpark 3.5 has, passes it as many arguments "
     "as it takes and of the kinds it takes, uses aggregates only where aggregates may stand, applies Column operators "
     "to columns only, and the last line of the program is a DataFrame.",
     ["inputs", "programs"], "every command, function and operand combination of the supported language",
     "Most tests compare generated text with expected text and never ask whether Spark has such a function or accepts "
     "such arguments.",
     ["src/commands/*/pyspark.rs", "src/functions/*.rs", "src/pyspark/ast.rs", "src/pyspark/transpiler/*.rs"],
     [("code generation", "src/pyspark/ast.rs"), ("function tables", "src/functions/*.rs")],
     ["api:pyspark_api"],
     API + "Oracle: signatures and aggregate/row groups taken from the PySpark 3.5 sources "
     "(checks/data/pyspark_api.json, made by tools/mkapi.py).",
     technique="abstract interpretation of the Rust THIR, then kind/signature analysis of the emitted Python templates",
     observe=[RENDER])

PARSE = ("Abstract interpretation of the parser's type-checked source (THIR, with models of the nom combinators it is "
         "built from) over abstract query texts: keywords and punctuation are literal, every name, number and quoted "
         "text is a hole standing for its whole lexical class; a comparison that only part of a hole's class would "
         "pass makes the case undecided. ")
PARSE_TECH = "abstract interpretation of the parser's THIR over query texts with lexical-class holes"
PARSE_LEVEL = ("Covers every instance of the enumerated query templates (names, numbers and texts arbitrary). Trusts the "
               "models of nom's combinators and of std in lib/parse.py and lib/absint.py, and the reviewed trees in "
               "checks/data. Queries outside the enumerated templates are not covered.")
TREE = "syntax tree returned by parse() / convert_spl_to_pyspark"


def parse_prop(pid, title, statement, over, qtext, why, files, mech, parts, rule, **kw):
    prop(pid, title, statement, over, qtext, why, files, mech, parts, PARSE + rule, technique=PARSE_TECH, level_note=PARSE_LEVEL,
         observe=[TREE], **kw)


parse_prop("M02", "Macro calls are found where they stand, with their name and arguments as written",
     "In every query detect_macros finds every call between backquotes, in order, with its name, and its arguments in "
     "order, each exactly as written (quotes, escapes, commas and parentheses inside an argument included) and with the "
     "name it is given for, and returns the text before, between and after the calls unchanged; a malformed call or an "
     "unpaired backquote is an error and never part of the query.",
     ["inputs", "programs"], "every query, call spelling, argument and surrounding text",
     "Tests detect four queries; quoted arguments holding commas, parentheses or `=` and any whitespace are free text.",
     ["src/spl/macros.rs", "src/lib.rs"],
     [("spl_macros", "src/spl/macros.rs"), ("detect_macros", "src/lib.rs")],
     ["detect:calls"],
     "Rule: calls of 0-6 arguments out of a table of argument forms, spacings, surrounding texts and sequences of calls "
     "(checks/detect.py) against the list of pieces they were put together from.")

parse_prop("S01", "Commands are recognised by their whole keyword, wherever they stand",
     "A command is recognised by its exact keyword in any letter case, with any whitespace and line breaks around it "
     "and around the pipe, first or later in a pipeline, with or without a leading pipe, and inside sub-searches; the "
     "commands of a pipeline are parsed one by one in the order written, whatever commands surround them; a longer "
     "word that begins with a command's keyword is not that command.",
     ["inputs", "programs"], "every command, keyword spelling, separator and neighbouring command",
     "Tests parse each command in one spelling, mostly alone.",
     ["src/spl/parser.rs", "src/commands/mod.rs", "src/commands/spl.rs", "src/commands/cmd_*/spl.rs"],
     [("pipeline and command alternatives", "src/spl/parser.rs"), ("SplCommand::parse", "src/commands/spl.rs")],
     ["parser:keywords"],
     "Rule: each command's reviewed sentences give the same tree in every spelling and position (checks/parser.py keywords).")

parse_prop("S02", "Each command's syntax is parsed into the documented operands and options",
     "Every documented operand, option and option value of every command is parsed into the field of the syntax tree "
     "that carries it, with the documented default when it is absent, and the order in which a command's options are "
     "written does not matter.",
     ["inputs", "programs"], "every command, option combination, name and value",
     "Tests parse a few example sentences per command; defaults, spellings of booleans and option combinations are "
     "sampled.",
     ["src/spl/parser.rs", "src/commands/cmd_*/spl.rs"],
     [("parse_body of every command", "src/commands/cmd_*/spl.rs"), ("option parsing", "src/commands/spl.rs")],
     ["parser:grammar", "parser:options"],
     "Rule: every reviewed sentence in checks/data/parses.txt has the reviewed tree; permuting a run of options keeps it.")

parse_prop("S03", "Operators group by their documented precedence",
     "Expressions and conditions are grouped by operator precedence and associativity: multiplication before addition "
     "before concatenation before comparison before NOT; eval and where evaluate AND before OR, search evaluates OR "
     "before AND and treats juxtaposition as AND; parentheses override; subtraction and division are left-associative.",
     ["inputs", "programs"], "every combination of operators and parentheses",
     "Tests fix a handful of operator sequences.",
     ["src/spl/parser.rs", "src/spl/operators.rs"],
     [("expression ladder", "src/spl/parser.rs"), ("logical_expression of tstats", "src/spl/parser.rs")],
     ["parser:precedence"],
     "Rule: the tree of every enumerated operator sequence equals that of an independent precedence parser, up to the "
     "associativity that does not matter (checks/parser.py precedence).")

parse_prop("S04", "Nothing of a query is silently ignored by the parser",
     "If a query is accepted, all of its names and values occur in the syntax tree; text that belongs to no command "
     "(surplus brackets, quotes, separators, empty pipeline stages) makes the whole query fail instead of being dropped.",
     ["inputs", "programs"], "every query",
     "Tests check accepted queries; hardly any checks that garbage is rejected.",
     ["src/spl/parser.rs", "src/lib.rs", "src/commands/cmd_*/spl.rs"],
     [("pipeline parser", "src/spl/parser.rs"), ("completeness of parse()", "src/lib.rs")],
     ["parser:nothing_dropped", "parser:insertions", "parser:separators"],
     "Rule: every hole of every accepted sentence occurs in its tree; every sentence with junk before or after it is "
     "rejected; a surplus word or option put into any gap of a sentence is in the tree or makes it rejected; parse() checks "
     "that nothing remains.")

parse_prop("S05", "Parsing ends",
     "For every query the parser ends with a tree or an error: no parser calls itself again at the same place of the "
     "text.",
     ["inputs"], "every query, complete or cut off",
     "A test with the one input that makes the parser loop would hang, not fail; tests hold no such input.",
     ["src/spl/parser.rs", "src/commands/cmd_*/spl.rs"],
     [("recursive parsers", "src/spl/parser.rs")],
     ["panics:parsing"],
     "Rule: no parser function is re-entered with the same remaining text while it is active, for every sentence, word prefix, "
     "cut-off and junk variant (repetitions end because nom's repetitions fail on an empty element).")

parse_prop("S06", "Time units and time modifiers denote the documented spans",
     "Every documented spelling of a time unit denotes its unit, with the number and sign written, in spans, snap "
     "times and offsets, wherever a time span or relative time may stand, quoted or not.",
     ["inputs"], "every unit spelling, number, sign and context",
     "Tests parse about eight spellings.",
     ["src/spl/parser.rs"],
     [("time_span, relative_time, time_unit", "src/spl/parser.rs")],
     ["parser:time_units"],
     "Rule: spelling x context table (checks/parser.py time_units).")

parse_prop("S07", "A name that begins with a keyword is still a name",
     "A field, function or dataset name that merely begins with an operator, option name, unit or other keyword of "
     "the grammar is parsed as that name, everywhere.",
     ["inputs"], "every name",
     "Tests use short unproblematic names.",
     ["src/spl/parser.rs", "src/commands/cmd_*/spl.rs"],
     [("keyword parsers", "src/spl/parser.rs")],
     ["parser:word_boundaries"],
     "Rule: every text the parser compares a name with while it parses a reviewed sentence is tried as a prefix of that "
     "name; the tree must be the sentence's tree with the longer name.")

parse_prop("S08", "Literals keep their type and value",
     "Numbers, quoted and unquoted text, wildcards, addresses, networks, times, variables and quoted field names are "
     "parsed with the type and the exact content written, wherever a value may stand; text inside quotes is never "
     "trimmed, split or joined with its neighbour.",
     ["inputs"], "every literal in every value position",
     "Tests use plain short literals in one position.",
     ["src/spl/parser.rs"],
     [("constant, double_quoted, token, field, wildcard", "src/spl/parser.rs")],
     ["parser:literals"],
     "Rule: spelling x context table (checks/data/literals.txt, checks/parser.py literals).")

prop("T14", "No query makes the transpiler panic",
     "For every query text and every syntax tree, parsing and translating ends with a result or an ordinary error: no "
     "unwrap of an absent value, failed assertion, index out of bounds or explicit panic is reached.",
     ["inputs", "programs"], "every query, argument count, argument kind and mode",
     "Tests use well-formed calls; a panic needs an unusual argument count or literal and surfaces in Python as "
     "PanicException, which `except Exception` does not catch.",
     ["src/functions/*.rs", "src/commands/*/pyspark.rs", "src/pyspark/*.rs", "src/spl/parser.rs"],
     [("function tables", "src/functions/eval_fns.rs"), ("parsers' unwraps", "src/spl/parser.rs")],
     ["panics:functions", "panics:commands", "panics:parsing"],
     ABS + "Rule: no trace reaches a panicking construct, for every function with 0-4 (thorough: 0-6) arguments of every "
     "kind, every command shape in every mode, and every parsed text of S05.",
     technique="abstract interpretation of the Rust THIR, reachability of panicking constructs",
     observe=["exceptions raised by parse / render_pyspark / convert_spl_to_pyspark"])

prop("T16", "Syntax trees reach Python whole: every class, part, equality and hash",
     "Every class that a tree returned by parse() can contain is offered by the package's ast module; a node built from "
     "Python holds under each name what it was given under that name, and each attribute reads back the part of its own "
     "name. Two nodes are equal exactly when all their parts are, and equal nodes have equal hashes.",
     ["inputs", "programs"], "every class of the tree, every part of it and every value",
     "Tests compare a few whole trees and build a few nodes; nothing reads every part of every class or hashes one.",
     ["src/spl/ast.rs", "src/spl/python.rs", "src/commands/*/spl.rs", "src/commands/mod.rs", "src/lib.rs"],
     [("class registration and constructors", "src/spl/python.rs"), ("tree types", "src/spl/ast.rs")],
     ["pytree:registry", "pytree:constructors", "pytree:equality"],
     "Queries over the expanded, type-checked program (THIR). Rules: the pyclass types reachable through the field types "
     "of Pipeline are a subset of the add_class calls; the value of each constructor on symbolic arguments holds the "
     "argument called f in field f; each getter (generated or written by hand) yields its field; every constructor "
     "argument is readable; eq is the compiler's or looks at every field and separates the probe literals, and hash "
     "looks only at fields eq looks at and never at the bits of a float.",
     technique="type-reachability query and abstract interpretation of constructors and getters over the Rust THIR",
     level_note="Covers every class, field, constructor and getter of the crate. Trusts what rustc's derive macros and "
     "pyo3's extraction and conversion of values do.",
     observe=["classes, attributes, == and hash() of the objects returned by parse()"])

NA = [
    ("N01", "Generated PySpark returns the same rows as Splunk",
     "Running the generated program on Spark over equivalent data yields the rows that Splunk would return.",
     ["programs", "inputs"], "every query and every data set",
     "A sample of tests compares rows on tiny data sets.",
     ["python/spl_transpiler"], [("generated code", "render_pyspark")],
     "Quantifies over data sets and the semantics of two external engines (Splunk, Spark); no static argument over "
     "this repository's source can bound it. The translation templates (T01-T17) are the part that is decidable."),
    ("N02", "Parsing takes time polynomial in the query length",
     "Parsing any query finishes in time polynomial in its length.",
     ["inputs"], "every query",
     "Tests parse short queries.",
     ["src/spl/parser.rs"], [("backtracking parser combinators", "src/spl/parser.rs")],
     "The grammar backtracks through alternatives at every nesting level without memoisation; a bound needs the cost "
     "semantics of the combinator library over unbounded input. Termination is decided instead "
     "(S05)."),
    ("N03", "Formatting keeps the generated program equivalent",
     "Formatting the generated code never changes what the code does.",
     ["inputs"], "every generated program",
     "Tests format a few programs.",
     ["src/format_python.rs"], [("safe formatting", "src/format_python.rs")],
     "The rewriting is done by the third-party ruff formatter, whose source is outside this repository; only the "
     "fallback around it is decidable here."),
]
