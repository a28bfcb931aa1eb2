#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so the statements are reviewable)."""
import json, os
P = []
A="src/args.cpp"; G="src/argument.cpp"; V="src/valid.cpp"; U="src/usage.cpp"; E="src/exception.cpp"
AH="include/blet/args/args.h"; GH="include/blet/args/argument.h"; UT="include/blet/args/utils.h"
VH="include/blet/args/valid.h"; UH="include/blet/args/usage.h"; EH="include/blet/args/exception.h"
VE="include/blet/args/vector.h"; TOP="include/blet/args.h"; S="single_include/blet/args.h"
def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "Parsing never reads outside argv or past the end of a token",
  "For every argc and every array of argc NUL-terminated strings, parseArguments only reads argv[0] to argv[argc-1], only reads characters of a token up to and including its terminating NUL, and every container or string access it makes is within bounds. In particular an argument whose value count cannot be satisfied is rejected instead of reading values that are not there.",
  ["inputs", "configurations"], "all command lines, all argument configurations (any nargs, any kind), both alternative modes",
  "The tests pass a handful of well-formed command lines; an out-of-bounds read shows only for the exact token count or token shape that runs off the end, and often silently.",
  [A, UT], [("index/limit comparisons before each argv read", "Args::parseArgument_, Args::parsePositionnalArgument_"), ("token classifiers and '=' splitter", "utils.h")])
p("C02", "No command-line token is lost, used twice or reordered",
  "When parseArguments returns normally, every token after the program name other than the first \"--\" has been used exactly once: as the spelling of an option, as (part of) the value of exactly one argument, or as an additional argument. Values are taken in command-line order, and positional arguments are filled in their listing order, each at most once, before anything goes to the additional arguments.",
  ["inputs", "configurations"], "all command lines accepted by the parser, all argument configurations",
  "Token accounting is a relation between the whole command line and all results; the parse tests assert a few fields for a few command lines (and are not part of the runnable baseline).",
  [A], [("consumed-count bookkeeping (*index += ...)", "Args::parseArgument_, Args::parsePositionnalArgument_"), ("main token loop", "Args::parseArguments")])
p("C03", "A given argument holds exactly its command-line values, else its defaults",
  "After a successful parse, an argument that appeared holds exactly the values given on the command line and no default value (for APPEND and EXTEND the values of all occurrences in order, for other options those of the last occurrence), whichever spelling (\"--o v\", \"--o=v\", \"-o v\", \"-ov\", \"-o=v\") was used; an argument that did not appear holds exactly its configured defaults.",
  ["inputs", "configurations"], "all command lines, all value-taking argument kinds with and without defaults, all spellings",
  "Each combination of kind, spelling, earlier occurrence and defaults is its own path; tests pin single examples.",
  [A, G], [("clear-on-first-use and push", "Args::parseArgument_"), ("defaults", "Argument::defaultsConstructor_, Argument::clear_")])
p("C04", "Every used argument receives the number of values it was declared with",
  "When parseArguments returns normally, a present option or positional with nargs N holds N values (N per occurrence for APPEND, a whole number of groups of N for EXTEND or INFINITE), a single-value argument one value per use, and a flag-like option none. A command line that gives too few values, or an attached value to an option that takes none or needs several, is rejected with ParseArgumentException.",
  ["inputs", "configurations"], "all command lines, all kinds, every nargs value including very large ones",
  "Violations appear only at particular distances between the option, the next \"--\" and the end of the line, and for particular nargs.",
  [A], [("arity guards", "Args::parseArgument_, Args::parsePositionnalArgument_")])
p("C05", "The first \"--\" ends option processing",
  "Tokens after the first \"--\" are only ever used as positional or additional arguments, whatever they look like, and the \"--\" itself is dropped. An option or positional before the \"--\" never takes a value from beyond it.",
  ["inputs", "configurations"], "all command lines containing \"--\" at any position after the program name, all configurations",
  "The existing cases place \"--\" in one or two positions only.",
  [A, UT], [("end-option index as limit", "endOptionIndex, Args::parseArguments")])
p("C06", "Only registered flags match; anything else that looks like an option fails",
  "A token before \"--\" in option position that starts with '-' (other than \"-\" alone) is accepted only if the text up to a '=' is a registered flag or, for a single dash, every letter up to the first value-taking one is a registered one-letter flag; otherwise parseArguments throws ParseArgumentException. An argument is only affected by its own flags, and single-dash spelling of a long flag is recognised exactly when the alternative mode is on.",
  ["inputs", "configurations"], "all tokens, all sets of registered flags, both modes",
  "Sets of registered flags times token spellings are unbounded; tests probe a few misspellings.",
  [A, UT], [("registry look-ups", "Args::parseShortArgument_, Args::parseLongArgument_, Args::endOfInfiniteArgument_")])
p("C07", "isExists() and count() report the occurrences on the command line",
  "After a successful parse, isExists() of an argument is true exactly if it was used on the command line, and count() is the number of its occurrences (each letter of a combined short option counts once; a used positional counts 1), 0 when absent.",
  ["inputs", "configurations"], "all command lines, all kinds, all spellings",
  "count() depends on the spelling path taken for each occurrence; tests check a few -vvv style lines.",
  [A], [("occurrence bookkeeping", "Args::parseArgument_, Args::parseShortArgument_, Args::parsePositionnalArgument_")])
p("C08", "Parsing succeeds only if every required argument was given",
  "If parseArguments returns normally then every argument marked required was used on the command line (a default does not count), and a missing required argument makes it throw ParseArgumentRequiredException naming that argument unless a help or version request takes precedence. An argument that is present or not required never causes that exception.",
  ["inputs", "configurations"], "all configurations of required arguments of every kind, all command lines",
  "Requires every argument in an arbitrary list, not the two or three registered in a test.",
  [A], [("required sweep", "Args::parseArguments")])
p("C09", "Validators gate every value and their rewrites are what is reported",
  "If parseArguments returns normally, the validator of every present value-taking argument was called once, on exactly that argument's values in order, and accepted them; the values the validator left in the vector are what the argument reports afterwards, and absent arguments' validators are not called. If a validator returns false or throws ParseArgumentValidException, parseArguments throws ParseArgumentValidException naming that argument.",
  ["inputs", "configurations"], "all argument kinds, any validator behaviour, all command lines",
  "Gate and write-back differ per kind; the tests exercise one or two kinds with one validator.",
  [A], [("validation sweep and write-back switch", "Args::parseArguments")])
p("C10", "dest() targets are written exactly once per parse, from accepted values only",
  "During parseArguments nothing bound with dest() is written before all tokens were consumed, help/version requests and required arguments were handled and that argument's own validator accepted; then each destination is written exactly once (or its custom function called exactly once, with isExists() and the argument's values). A scalar destination of a single-value argument receives its value or default; a vector destination gets one new entry per value in order, a vector-of-vector destination one new row per value or group.",
  ["inputs", "configurations"], "all command lines, all kinds, all destination shapes, custom or default conversion",
  "An early or duplicate write is visible only on failing command lines with a dest() bound, which the tests do not combine.",
  [A, GH], [("dest sweep", "Args::parseArguments"), ("toDest_ overrides", "ArgumentType, ArgumentVectorType, ArgumentVectorVectorType")])
p("C11", "A help or version request is always honoured, help first",
  "If a help option occurs on an otherwise well-formed command line, parseArguments throws HelpException carrying the usage text when help exceptions are enabled and otherwise prints the usage and exits with status 0; likewise for version with the version text when no help option occurs. This takes precedence over required, validation and destination handling, happens only on such a request, and when no help option is configured the free ones of -h and --help act as help options.",
  ["inputs", "configurations"], "all command lines mixing help, version, missing required and invalid values; both exception modes",
  "Precedence between requests and errors is a property of all combinations; exit paths cannot be asserted by the in-process tests.",
  [A], [("help/version handling after the token loop", "Args::parseArguments")])
p("C12", "No hidden effects: only help/version print or exit, and objects are independent",
  "The library never terminates the process, writes to a standard stream or keeps mutable static state, except that parseArguments prints and exits with status 0 for a help or version request whose exception mode is off. Two Args objects therefore never influence each other and may be used from different threads.",
  ["inputs", "programs", "schedules"], "all call sequences, all functions of the library",
  "Absence of an effect on any path of any function cannot be sampled.",
  [A, G, U, V, GH, UT], [("exit/cout sites", "Args::parseArguments"), ("absence of static storage", "whole library")])
p("C13", "Every parse starts from a clean slate",
  "The outcome of parseArguments (presence, counts, values, additional arguments, or exception) depends only on the configuration and the given command line: results of an earlier parseArguments call on the same object, successful or not, leave no trace.",
  ["histories", "inputs"], "all sequences of parses on one object, including ones that ended in an exception",
  "Tests parse once per object.",
  [A, G], [("per-argument reset", "Argument::clear_, Args::parseArguments")])
p("C14", "Surplus positionals: rejected in strict mode, otherwise collected in order",
  "A positional token for which no unused positional argument remains makes parseArguments throw ParseArgumentException naming the token when strict mode is on, and is otherwise appended to getAdditionalArguments() in command-line order; nothing else ever appears there.",
  ["inputs", "configurations"], "all command lines, both modes, before and after \"--\"",
  "Unbounded inputs; tests check two lines.",
  [A], [("additional-argument branch", "Args::parsePositionnalArgument_")])
p("C15", "nargs and action together decide the behaviour of an argument",
  "After any sequence of action() and nargs() calls that does not throw, an argument behaves as documented for its final action and nargs, whatever the order of the calls: STORE_TRUE/STORE_FALSE/HELP/VERSION take no value, NONE takes exactly nargs values (nargs 0 is a boolean), nargs '+' without another action is INFINITE, APPEND accumulates one value or one group per occurrence, EXTEND a variable number per occurrence, and INFINITE a variable number. Positional arguments reject the actions and counts they cannot have, and at most one argument at a time can be the help (or version) option.",
  ["programs", "configurations"], "all sequences of action()/nargs() on options and positionals, all nargs values",
  "Order-dependent misclassification needs particular call pairs.",
  [G, GH], [("kind selection", "Argument::typeConstructor_, Argument::action, Argument::nargs")])
p("C16", "Every accepted name is unique, well formed and resolves to its argument",
  "addArgument and flag accept a name or flag only if it is well formed (a positional name is non-empty and does not start with '-'; a flag is '-' plus one character or '--' plus at least one) and not already in use, and otherwise throw ArgumentException without registering anything. After a successful call every given name resolves to that one argument, appears once in its getNameOrFlags(), and no other name changed its meaning.",
  ["programs", "inputs"], "all lists of names, all prior registries",
  "A clash can be at any position of the list and with any earlier registration.",
  [A, G], [("registration", "Args::addArgument, Argument::flag, Argument::validFormatFlag_")])
p("C17", "removeArguments removes exactly the given names",
  "removeArguments either throws ArgumentException having removed nothing (empty list or unknown name), or afterwards none of the given names exists, every other name still resolves to the same argument, and an argument is removed (from usage, parsing, and as help or version option) exactly if its last name was removed. Repeated names in the list are harmless.",
  ["programs", "inputs"], "all lists of names including duplicates and several names of one argument, all registries",
  "Tests remove one or two distinct names.",
  [A], [("removal", "Args::removeArguments")])
p("C18", "clear() leaves the object as freshly constructed",
  "After clear() every observable state of an Args object (arguments, names, binary name, version, modes, additional arguments, description, epilog, usage and usage widths, help and version options) equals that of a newly constructed object.",
  ["histories", "programs"], "all prior states",
  "One forgotten member shows only when that member was set before clear().",
  [A, U], [("reset", "Args::clear vs Args/Usage constructors")])
p("C19", "Arguments and owned validators are released exactly once",
  "Every Argument created by an Args object and every validator handed over as deletable is destroyed exactly once: by removeArguments, clear(), replacement through valid(), or destruction of the Args object, and never used afterwards; validators handed over as not deletable are never destroyed. A copy of an Argument owns nothing, and dest() and failing calls neither leak nor double-release.",
  ["programs", "histories", "fault_sequences"], "all API call sequences, including calls that throw",
  "Double frees and leaks pass assertions silently unless run under a sanitizer with the right sequence.",
  [A, G, GH], [("ownership", "Argument copy constructor and destructor, Argument::valid, Argument::dest, Args destructor")])
p("C20", "dest() changes where a value goes and nothing else",
  "Calling dest() on an argument leaves all of its other observable state unchanged: its names and their resolution, kind, nargs, action, required flag, help, metavar, defaults, validator and ownership, and its role as help or version option; the reference it returns is the argument that later look-ups return.",
  ["programs", "configurations"], "all prior configurations of the argument, all destination types, repeated dest() calls",
  "The argument object is replaced; a forgotten member shows only for configurations that set it before dest().",
  [G, GH], [("replacement object", "Argument copy constructor, ArgumentType/ArgumentVectorType/ArgumentVectorVectorType constructors")])
p("C21", "Argument and flag orderings are strict weak orders with the documented layout",
  "The orderings used to sort flags of an argument and arguments in the usage are strict weak orders (irreflexive, asymmetric, transitive, transitive incomparability) on all inputs. Short flags come before long ones and alphabetical within; options come before positionals, and required positionals before optional ones while otherwise keeping declaration order.",
  ["inputs", "configurations"], "all pairs and triples of flags and arguments",
  "A non-transitive comparator makes sorting undefined behaviour only for particular triples.",
  [G], [("comparators", "compareFlag, Argument::compareOption_")])
p("C22", "The usage text lists every argument, and values exactly where they are taken",
  "Unless a custom usage text is set, the text of getUsage() names every option with all its flags in the optional section and every positional in the positional section, and both in the synopsis, with non-required ones in brackets; help, a \"(required)\" mark or the default follow. A metavar (custom or generated) is shown for an option exactly if that option takes values.",
  ["configurations", "inputs"], "all sets of arguments of every kind, all width settings, help and metavar texts",
  "Tests compare a few complete usage strings.",
  [U, G], [("usage generator", "Usage::getUsage, Argument::metavarDefault_")])
p("C23", "Failures are reported with the documented exception types, naming the argument",
  "Every exception the library itself throws derives from blet::args::Exception (hence std::exception): configuration errors are ArgumentException, unknown names in look-ups AccessDeniedException, command-line errors ParseArgumentException or its Required/Valid subtype. Those raised by addArgument, flag, action, nargs, defaults, removeArguments and look-ups, and by parseArguments for tokens, required arguments and validators, carry the name of the argument, flag or token in argument().",
  ["inputs", "programs"], "all failing calls and command lines",
  "Each throw site is its own path and the dynamic type matters to every caller's catch clause.",
  [A, G, EH, E, GH], [("throw sites", "whole library")])
p("C24", "Fixed-size and pointer destinations are written memory-safely",
  "A dest() into char[N] never writes outside the N characters and always leaves it NUL-terminated, for values of any length and for booleans, holding the longest prefix of the text that fits; a dest() into const char* (or a container of them) points to text that stays valid until the next parse or the removal of the argument.",
  ["inputs", "configurations"], "all string lengths, all N >= 1, all argument kinds",
  "Off-by-one writes need the value length to equal the buffer size.",
  [GH], [("bounded copies", "strTo/boolTo for char arrays, ArgumentElement::getString")])
p("C25", "Boolean options report the same truth everywhere",
  "For a STORE_TRUE (or nargs 0) option the conversion to bool, getString() and the value written through dest() all say \"true\" exactly when the option is present; for STORE_FALSE all say \"true\" exactly when it is absent. For every other argument the conversion to bool says whether it is present.",
  ["configurations", "inputs"], "all boolean kinds, presence states and destination types",
  "Several independent code sites (one per destination shape and type) must agree.",
  [G, GH], [("boolean views", "Argument::operator bool, Argument::getString, toDest_, boolTo")])
p("C26", "Built-in validators accept a list only if every element qualifies",
  "ValidNumber, ValidMinMax, ValidChoise and ValidPath return true only after having checked every element: it is a complete number, starts with a number within the closed interval between the two bounds (given in either order), is equal to one of the choices, or an existing path of the requested type. Otherwise they throw ParseArgumentValidException, and they never modify the values.",
  ["inputs"], "all lists of values of any length, all bounds, choices and modes",
  "A skipped element or flipped comparison shows only for particular positions or boundary values.",
  [V, VH], [("validator loops", "ValidNumber/ValidMinMax/ValidChoise/ValidPath::isValid")])
p("C27", "Numeric view: getNumber() only when isNumber(), and from the current value",
  "After a successful parse, for every value of a non-boolean argument (each element and nested element of lists included), isNumber() is true exactly if the text starts with a number and then getNumber() is that number; otherwise getNumber() throws Exception. The text examined is the final value after validation and defaults.",
  ["inputs", "configurations"], "all kinds and all values",
  "Stale or skipped elements appear only in nested or repeated-parse configurations.",
  [G, GH, A], [("number conversion sweep", "Argument::toNumber_, ArgumentElement::getNumber")])
p("C28", "Look-ups reach exactly the registered argument or throw",
  "argumentExists(n) is true exactly for registered names; getArgument, operator[] and updateArgument return the argument registered under that name or throw AccessDeniedException, never creating an entry. An Args object cannot be copied or assigned, and look-ups through a const object or operator[] only give read access.",
  ["programs", "inputs"], "all programs using the look-up API, all names",
  "Compile-time guarantees and absence of side effects are not observable by a passing test.",
  [AH], [("look-ups and access", "Args::getArgument, Args::updateArgument, Args private copy")])
p("C29", "Name-list builders keep every item in order",
  "args.vector(s1, ..., sN), for each supported N from 0 up, and every way of building or extending a name list with constructors and operator+ yields exactly the given strings in the given order.",
  ["programs", "inputs"], "every overload, all strings",
  "Sixteen hand-written overloads times all strings; tests use one or two.",
  [TOP, VE], [("vector overloads", "blet::Args::vector, Vector constructors and operator+")])
p("C30", "defaults() become the value of an absent argument, in matching number",
  "defaults(list) on a value-taking argument makes the argument report exactly these values (grouped by nargs where it takes groups) while it is absent, also through getDefault() text and list elements, and also if action() or nargs() follow; if the number of defaults does not fit the kind, ArgumentException is thrown. Setting defaults again replaces the previous ones completely.",
  ["programs", "configurations"], "all kinds, all default lists, all orders of defaults/nargs/action",
  "Kind by list-length by call-order combinations.",
  [G, GH], [("default construction", "Argument::defaultsConstructor_, Argument::defaults")])
p("C31", "List conversions deliver every value once, in order, or throw",
  "Converting an argument to vector<string> gives every value exactly once in order (groups flattened), converting a grouped argument to vector<vector<string>> gives one row per group, and getString() joins all values; conversions a kind does not support throw Exception instead of returning partial data.",
  ["configurations", "inputs"], "all kinds, all list shapes and lengths",
  "Each kind is a separate branch over unbounded lists.",
  [G], [("conversion operators", "Argument::operator std::vector<...>, Argument::getString, ArgumentElement::operator std::vector<std::string>")])
p("C32", "The single header offers the same public API as the split headers",
  "A program written against the public API of include/blet/args.h (types, functions, overloads, default arguments, enumerator values, exception hierarchy) compiles with the same meaning against single_include/blet/args.h, and vice versa; the single header can be included in several translation units of one program.",
  ["programs"], "all client programs",
  "No test includes both variants or includes the single header twice.",
  [S, TOP, AH, GH, UH, EH, VH, VE], [("amalgamated header", "single_include/blet/args.h")])
p("C33", "Parsing always terminates and advances",
  "parseArguments terminates for every command line and configuration: each step of its loops consumes at least one token or strictly approaches its bound, also for extreme nargs values.",
  ["inputs", "configurations"], "all command lines, all configurations including nargs up to the maximum of its type",
  "Non-termination needs wrap-around or zero-progress inputs that tests avoid.",
  [A], [("loop progress", "Args::parseArguments and its helpers")])
p("C34", "Numeric destinations receive the mathematically exact value when representable",
  "A dest() of arithmetic type receives exactly the number written in the text whenever that number is representable in the type.",
  ["inputs"], "all numeric texts, all arithmetic destination types",
  "Quantifies over all numeric texts.",
  [GH], [("numeric conversion", "strTo")])
p("C35", "Long texts in the usage are broken at spaces and keep every word",
  "Description, epilog and help texts longer than the configured width are broken at runs of spaces only: no other character is lost, added or reordered, every line break of the text is kept, every line that is broken off fits the width, and breaking ends without an error for every text and every width of at least one.",
  ["configurations", "inputs"], "all texts and widths",
  "Whether a text survives depends on where its spaces lie relative to the width; tests see a few texts.",
  [U], [("wrapping", "s_multilineWrap, Usage::getUsage")])
p("C36", "Arguments and flags stay sorted",
  "After every call that registers or removes arguments or changes what their order depends on (addArgument, flag, required, removeArguments, dest) the list of arguments and the flags of each argument are in their documented order again, so the usage and getNameOrFlags() show the documented order however the registry was built.",
  ["histories", "programs"], "all sequences of registry calls",
  "Leaving out a sort shows only for sequences of calls whose order happens to matter.",
  [A, G, GH], [("sorting", "Args::addArgument, Args::removeArguments, Argument::flag, Argument::required")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
