#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))

p("C01", "Match returns the boolean meaning of the expression",
  "For every expression built from AND, OR, NOT, EXISTS, IS MISSING, constants and comparisons over document paths (object keys and [i] array indexes), matching a JSON document returns true exactly when the expression is true of that document. A comparison with a field the document does not have is false (except !=, which is the negation of = and so true), NOT is the exact negation of its condition, and EXISTS is true for any present value including null, {}, [] and \"\". The result does not depend on which fields the expression happens to reference or on where in the document they are.",
  ["inputs","programs"], "all expressions of those forms over any set of paths (including a path and its own sub-path, and comparisons between two fields) and all well-formed JSON documents without duplicate keys",
  "The tests run a fixed document set through a few dozen expressions; the outcome depends on the joint shape of expression, path overlap and document, which a handful of pairs cannot cover.",
  ["transform.go","fastMatcher.go","bintree.go","expression_utils.go"],
  [("expressions compiled to a parse tree, slots, after-nodes and a bucket tree","transform.go"),("single-pass streaming evaluation with early exit","fastMatcher.go"),("unresolved buckets forced to false at the end","bintree.go Resolve")],
  ["Matcher.Match after Transformer.Transform"])
p("C02", "ANY, EVERY and ANY AND EVERY quantify over array elements",
  "ANY v IN a is true exactly when some element satisfies the body, EVERY when no element fails it (so true for an empty array), ANY AND EVERY when the array is non-empty and no element fails; all three are false when the target is absent or is not an array. Each element is judged on its own, so nothing seen in one element, one iteration or another part of the document leaks into the judgement of another. This holds for nested loops, bodies with NOT, bodies that relate the element to other fields or to outer variables, and loops combined with any other condition on the same array.",
  ["inputs","programs"], "all loop expressions, nested up to three deep, whose inner loops iterate over a path of the document or of any enclosing loop variable, over all documents (elements of any type, arrays of any length, missing and non-array targets)",
  "The tests contain one nested loop example and no loop over heterogenous or partly-missing elements.",
  ["fastMatcher.go","transform.go","bintree.go"],
  [("stall index and node reset per iteration","fastMatcher.go matchLoop / bintree.go SetStallIndex, ResetNode"),("variable contexts resolved at compile time","transform.go getContext"),("after-loops over stored slots","fastMatcher.go matchAfter")],
  ["Matcher.Match"])
p("C03", "Several expressions: OR result and per-expression results",
  "When several expressions are compiled together, Match returns true exactly when at least one of them is true of the document, and ExpressionMatched(i) then tells exactly whether expression i on its own is true. Constant true and false expressions take part like any other, in any position and even when all expressions are constants.",
  ["inputs","programs"], "all lists of 1..n expressions (constants mixed in, duplicates allowed, sharing paths) and all documents",
  "Only a couple of two-expression lists are tested, never checking the individual results against separate compilation.",
  ["transform.go","fastMatcher.go","bintree.go"],
  [("NEOR merge node that never short-circuits","transform.go transformMergePiece / bintree.go checkNode"),("constant identifiers","transform.go Transform"),("bucket lookup","fastMatcher.go ExpressionMatched")],
  ["Matcher.Match","FastMatcher.ExpressionMatched"])
p("C04", "A reset matcher behaves exactly like a new one",
  "Whatever sequence of documents a matcher has processed - matching, non-matching, truncated or malformed - after Reset the next Match, its status flags and its per-expression results are exactly those a freshly created matcher would give. Matchers made from the same compiled definition do not influence each other when their calls are interleaved, and matching never modifies the document, the definition or the expressions.",
  ["histories","inputs"], "all sequences of Match/MatchWithStatus/Reset over one or several matchers sharing a definition, over all documents including invalid ones",
  "The tests use one matcher per document, or reuse it over a fixed sequence of valid documents without comparing with a fresh one.",
  ["fastMatcher.go","bintree.go","fastval.go"],
  [("slot and bucket reset","fastMatcher.go Reset"),("stall index reset","bintree.go Reset"),("per-matcher state only","fastMatcher.go NewFastMatcher")],
  ["Matcher.Match, MatchWithStatus, Reset, ExpressionMatched","MatchDef.String"])
p("C05", "Matchers sharing a definition can run concurrently",
  "Any number of goroutines may each use their own matcher created from one shared compiled definition at the same time, and may meanwhile parse, compile, scan and match expressions of their own and remove items from objects: every result equals the sequential result and no memory is accessed in a racy way.",
  ["schedules","inputs"], "all schedules of 2..n goroutines each matching a list of documents with its own matcher from a shared definition; all supported expressions including string, number, time, regex and function comparisons",
  "No existing test starts a goroutine.",
  ["fastMatcher.go","fastval.go","transform.go"],
  [("definition is read only at match time","fastMatcher.go NewFastMatcher"),("no shared buffers in value conversion","fastval.go")],
  ["Matcher.Match results under the race detector"])
p("C06", "The result does not depend on how the JSON is written",
  "Reordering object keys, adding or removing insignificant whitespace, adding fields the expression does not mention, and writing string characters or object keys as escape sequences instead of literally leave the result of Match, the per-expression results and the status flags of single comparisons unchanged.",
  ["inputs","programs"], "all pairs of encodings of the same JSON value (no duplicate keys), for all expressions; whole-object/array comparisons are excluded because those are defined on the raw text",
  "Every test document is written in one fixed way.",
  ["jsontokenizer.go","fastlitparse.go","fastlitescape.go","fastMatcher.go"],
  [("whitespace skipping and token start tracking","jsontokenizer.go Step"),("key unescaping before lookup","fastMatcher.go matchObjectOrArray"),("slots evaluated after their common ancestor","fastMatcher.go matchAfter")],
  ["Matcher.Match"])
p("C07", "Matching is total on arbitrary bytes and accepts all valid JSON",
  "For every byte string, Match returns a result or an error: it never panics, hangs or reads outside the input. It returns no error for any well-formed JSON document, and it does return an error for a truncated object or array document whenever the expression cannot be decided before the truncation point (a number that reaches the end of the input counts as complete).",
  ["inputs","fault_sequences"], "all byte strings: valid documents, every truncation of them, single and multiple byte edits, token soup and random bytes; all supported expressions, with and without Reset in between",
  "No test passes malformed input to a matcher.",
  ["fastMatcher.go","jsontokenizer.go"],
  [("errors returned by the tokenizer and propagated","fastMatcher.go matchExec, skipValue, leaveValue"),("lexical errors","jsontokenizer.go Step")],
  ["Matcher.Match error value"])
p("C08", "The tokenizer splits JSON exactly at token boundaries",
  "For every well-formed JSON text the token stream is exactly the text's lexical tokens in order - types, byte ranges (without surrounding whitespace) and the integer/number and plain/escaped-string distinction - followed by an end token that repeats, and stepping again after seeking back to any position reported earlier reproduces the same tokens. Text containing a malformed literal, number, string or stray character yields an error at that token, never a panic or an endless sequence of tokens.",
  ["inputs"], "all well-formed JSON texts with arbitrary whitespace, and all mutations of them",
  "The tests tokenize a handful of fixed strings.",
  ["jsontokenizer.go"],
  [("state machine","jsontokenizer.go Step"),("position bookkeeping","jsontokenizer.go Position, Seek")],
  ["jsonTokenizer.Step, Position, Seek, Reset"])
p("C09", "Strings are compared by their decoded characters",
  "Equality and ordering of two strings - document against literal or document against document, however either is escaped in its source, and of any length - are exactly equality and byte order of the decoded strings. (In the filter language the quoted words true, TRUE, false and FALSE are the boolean values, not strings.)",
  ["inputs"], "all pairs of strings including control characters, quotes, backslashes, non-ASCII, astral characters, prefixes of each other, empty and longer than 64 bytes, in every escaping; literals given as Go values, JSON expressions or filter text",
  "The tests compare a few short ASCII strings.",
  ["fastval.go","fastlitescape.go","fastlitparse.go"],
  [("escape decoding","fastlitescape.go unescapeJsonString"),("comparison on a common form","fastval.go compareStrings")],
  ["Matcher.Match on =, !=, <, <=, >, >=", "FastVal.Compare"])
p("C10", "Numbers are compared by numeric value",
  "Comparing two numbers gives the order of their mathematical values whatever their representation: signed, unsigned and JSON-text integers exactly over the whole 64-bit range, and comparisons involving floating point within the documented tolerance of 1e-7. Integers in documents beyond 64 bits are never taken for a different small number, and integer conversions of integer values report success exactly when the value is in range (floating-point values never convert to integers).",
  ["inputs"], "all pairs of int64, uint64, float64 and their JSON text forms, including 0, negatives, 2^53 and 2^63 boundaries, exponents and over-long integers, on either side of every comparison",
  "The tests use small positive integers only.",
  ["fastval.go","fastlitparse.go"],
  [("typed comparison","fastval.go compareNumerics, compareInt, compareUint, compareFloat"),("integer parsing","fastlitparse.go ParseInt"),("conversions","fastval.go AsInt, AsUint, AsFloat")],
  ["FastVal.Compare, Equals, AsInt, AsUint, AsFloat","Matcher.Match"])
p("C11", "Cross-type comparison, collation order and status flag are consistent",
  "Comparing values of different types follows one fixed rule table: the stated implicit conversions toward the user-given literal when they are possible, otherwise the N1QL-like collation order null < false < true < numbers < strings < times < arrays < objects, under which equality is false. Whether the result of a function of a literal still counts as user-given is left open. Swapping the operands always negates the order, and the collation status flag is reported exactly when an executed comparison had to fall back to collation.",
  ["inputs"], "all pairs of value types and values, with neither or one side being a user literal, all six comparison operators",
  "The tests check a few type pairs one way round.",
  ["fastval.go","fastMatcher.go"],
  [("implicit conversion table","fastval.go ImplicitConvTable, checkCompatibility"),("collation","fastval.go Collate"),("user-defined literals","fastval.go compareUserDefined"),("status flag","fastMatcher.go MatchWithStatus")],
  ["FastVal.Compare, Equals","Matcher.MatchWithStatus"])
p("C12", "Math functions compute the mathematical function and never crash",
  "Every arithmetic operator and math function applied to numbers yields the mathematical result (exact integer arithmetic where both operands are integers and operands and result fit signed 64 bits, or fit unsigned 64 bits with an unsigned operand; integer division truncates; IEEE floating point otherwise), and yields an invalid value - not a crash and not a wrong number - for non-numeric arguments, for integer division or modulo by zero, and for modulo of a non-integer. The same holds when they are used inside expressions and nested in each other.",
  ["inputs","programs"], "all functions, all combinations of int, uint, float and JSON-text numeric arguments in either order including zeros, negatives and 64-bit boundaries whose exact result fits, and all non-numeric arguments",
  "The tests evaluate a few positive examples per function.",
  ["fastval_math.go","fastMatcher.go"],
  [("type dispatch per operand pair","fastval_math.go"),("function resolution","fastMatcher.go resolveFunc")],
  ["FastValMath* functions","Matcher.Match with FuncExpr"])
p("C13", "Dates are compared chronologically, whatever their notation",
  "Two dates written in any accepted notation (RFC 3339 with any zone and fraction, YYYY, YYYY-MM, YYYY-MM-DD, and for the date function also 'YYYY-MM-DD HH:MM:SS') compare in the order of the instants they denote. A date literal is accepted if and only if it denotes a real instant in an accepted notation; document strings that are no date never equal one.",
  ["inputs"], "all pairs of instants 1900-2099 in all accepted notations and time zones, leap days, invalid calendar dates and near-miss strings, via date literals, the date function and JSON time expressions",
  "The tests use a handful of dates in one zone.",
  ["fastval_date.go","fastval.go","expression_json.go","filterExprParser.go","simpleParser.go"],
  [("normalisation to RFC3339","fastval_date.go isoToRfc, FastValDateFunc"),("chronological comparison","fastval.go compareTime"),("literal validation","fastval_date.go validTimeChecker")],
  ["Matcher.Match with TimeExpr / DATE()", "GetNewTimeFastVal"])
p("C14", "Regex matching sees the decoded string",
  "A regular-expression condition is true exactly when the field is a string and the regular expression (Go syntax) matches somewhere in its decoded content; it is false for missing fields and non-strings. A syntactically invalid pattern is reported as an error when the expression is parsed, never as a crash.",
  ["inputs"], "all valid patterns and all strings including quotes, backslashes, control characters, escapes and non-ASCII; all invalid patterns",
  "The tests match plain ASCII words.",
  ["fastval.go","filterExprParser.go","expression_json.go","simpleParser.go"],
  [("matching","fastval.go Matches, matchStrings"),("compilation","transform.go makeDataRefRecurse"),("pattern validation","filterExprParser.go OutputRegexExpression, expression_json.go parseJsonRegex")],
  ["Matcher.Match with LikeExpr","parsers' error value"])
p("C15", "A filter expression means what its grammar says",
  "A filter accepted by the filter-expression parser matches exactly the documents its text denotes: AND binds tighter than OR, NOT applies to the one condition it precedes, parentheses group, and literals, backquoted and indexed paths, IS [NOT] NULL/MISSING, EXISTS, REGEXP_CONTAINS, DATE, arithmetic and functions have their stated meaning, arithmetic chains with the usual precedence. Every text generated by the documented grammar is accepted, and a text with leftovers or unbalanced parentheses is rejected.",
  ["inputs","programs"], "all filter texts of the documented grammar (any depth, keyword spelling and spacing that the grammar allows) and all documents, with a field or function of one in every comparison and no boolean literal left of a comparison; arithmetic chains in the forms the grammar documents",
  "The tests check syntax trees of some forty expressions, mostly without evaluating them.",
  ["filterExprParser.go","transform.go"],
  [("participle grammar","filterExprParser.go struct tags"),("conversion to expressions","filterExprParser.go OutputExpression methods")],
  ["GetFilterExpressionMatcher(...).Match"])
p("C16", "The filter parser never crashes",
  "For every string, building a matcher from it either returns an error or a matcher that can be used on every document; it never panics and terminates promptly for inputs of moderate length.",
  ["inputs"], "all strings: grammar-generated, mutated, truncated, token soup and random text up to a few hundred bytes",
  "The tests contain a few malformed expressions.",
  ["filterExprParser.go","transform.go"],
  [("error returns","filterExprParser.go GetFilterExpressionMatcher, NewFilterExpressionParser")],
  ["GetFilterExpressionMatcher error value"])
p("C17", "A simple-parser expression means what its grammar says",
  "An expression accepted by the simple (FSM) parser matches exactly the documents its text denotes: the comparison, LIKE, EXISTS, IS [NOT] NULL/MISSING operators in all their spellings, AND/OR chains, nested parentheses, dotted, backquoted and indexed paths, literals, DATE and math functions including nested ones have their stated meaning. Incomplete texts (unbalanced parentheses, dangling operators, leftovers) are rejected.",
  ["inputs","programs"], "all expressions of the grammar documented in the parser with whitespace-separated tokens (symbol operators also unspaced between plain fields and numbers), chains of one operator or explicit parentheses, keywords within names only in backticks, and all documents",
  "The tests check some fixed expressions, mostly on a single document.",
  ["simpleParser.go","transform.go"],
  [("token state machine","simpleParser.go getCurrentToken, advanceToken"),("tree building","simpleParser.go insertNode, merge"),("expression output","simpleParser.go outputExpression"),("function arguments","simpleParser.go funcOutputHelper")],
  ["ParseSimpleExpression + Matcher.Match"])
p("C18", "The simple parser never crashes",
  "For every string, the simple parser either returns an error or an expression that can be compiled and matched; it never panics or hangs.",
  ["inputs"], "all strings: grammar-generated, mutated, truncated, token soup and random text",
  "The tests contain a few malformed expressions.",
  ["simpleParser.go"],
  [("error returns","simpleParser.go ParseSimpleExpression")],
  ["ParseSimpleExpression error value"])
p("C19", "JSON-encoded expressions parse faithfully and reject bad input",
  "Parsing the JSON encoding of an expression yields exactly that expression, for every expression form. Any other JSON or non-JSON input - unknown operators, missing, extra-typed or ill-typed operands, invalid patterns or dates, empty lists - is rejected with an error or yields an expression that can be compiled, never a panic. Encodings of no expression are rejected: an unknown operator or function, a missing operand, a wrong number of function parameters, a condition where a value belongs, a loop over something other than a field, a reference to a variable outside its loop, an invalid pattern or date.",
  ["inputs","programs"], "all expressions of the documented JSON forms, and all structural mutations of their encodings, arbitrary JSON and arbitrary bytes",
  "The tests only ever parse well-formed encodings.",
  ["expression_json.go"],
  [("per-operator parsers","expression_json.go parseJsonSubexpr")],
  ["ParseJsonExpression"])
p("C20", "Removing items yields the rest of the object, unchanged",
  "Removing a list of keys from a JSON object produces a well-formed object with exactly the members, at every depth, whose keys are not listed (keys written without escapes), in order and with their values otherwise unchanged, and hands out the removed members' raw values; the returned counts and the any-left flag agree with that. The source is not modified.",
  ["inputs"], "all JSON objects (nested, with whitespace, escapes, arrays of strings, empty containers) and all lists of keys, with nil or preallocated buffers at least as large as the source",
  "The tests use a fixed set of small objects.",
  ["jsonComposer.go","jsontokenizer.go"],
  [("token copying and skipping","jsonComposer.go MatchAndRemoveItemsFromJsonObject"),("separator fixing","jsonComposer.go Write")],
  ["MatchAndRemoveItemsFromJsonObject results"])
p("C21", "Removing items from bad input fails cleanly",
  "For any byte string starting with { and ending with } and any destination size, item removal returns an error or a result but never panics, never writes beyond the destination and never changes the source; a destination as large as the result suffices, a destination too small for it yields the insufficient-memory error, and truncated or depth-unbalanced objects yield an error.",
  ["inputs","fault_sequences"], "all byte strings of that form (mutated, truncated and random), all key lists, all destination sizes from 0 up",
  "The tests cover a few malformed inputs with large buffers.",
  ["jsonComposer.go"],
  [("bounds checks","jsonComposer.go Write"),("depth tracking","jsonComposer.go MatchAndRemoveItemsFromJsonObject")],
  ["MatchAndRemoveItemsFromJsonObject error value"])
p("C22", "Compacting an expression never changes its meaning",
  "For every expression, the compacted expression is true of exactly the same documents, compaction does not modify the expression it is given, compacting again changes nothing, and no constant remains directly within an AND or OR that is reached through ANDs and ORs only.",
  ["programs","inputs"], "all expressions, with constants at any depth under AND, OR, NOT and loops, and all documents",
  "Compaction has no test.",
  ["expression_compact.go"],
  [("constant folding","expression_compact.go CompactExpression")],
  ["CompactExpression result evaluated by Matcher.Match"])
p("C23", "The result tree computes the formula in any marking order",
  "For every tree of and/or/not/neor/loop nodes, marking leaves true or false in any order and then resolving the rest gives every still-meaningful node - the root in particular - the value of its formula with unmarked leaves false, a node counts as resolved only when its value no longer depends on unmarked leaves, and resetting a sub-tree or the whole tree makes it behave as new.",
  ["histories","inputs"], "all valid trees up to a bounded size, all marking orders and values, with stalled sub-trees and resets interleaved",
  "One fixed tree is tested with a few orders.",
  ["bintree.go"],
  [("upward propagation","bintree.go MarkNode, checkNode"),("final resolution","bintree.go Resolve"),("stall index","bintree.go SetStallIndex"),("reset","bintree.go Reset, ResetNode")],
  ["binTreeState.IsResolved, IsTrue"])
p("C24", "Expression statistics count what is in the expression",
  "Scanning an expression reports exactly the number of loops, fields, values, ANDs and ORs in it, its greatest loop nesting depth and how many loops are directly inside an outermost loop (patterns, times and constants are no values), for every expression form, and never crashes.",
  ["programs"], "all expressions",
  "Statistics have no test.",
  ["expressionstats.go"],
  [("recursive scan","expressionstats.go scanOne")],
  ["ExpressionStats fields after Scan"])
p("C25", "The reference matcher and the fast matcher agree",
  "On lists of expressions and documents both support (same-type comparisons of present fields, null as the smallest value on the left of any, AND, OR, ANY), the slow matcher returns the same answer as the expression's meaning and therefore as the fast matcher, without an error, for the list (true when any of its expressions is) and for each expression of it, also when it is reset and reused; after a Reset none of its expressions counts as matched.",
  ["inputs","programs","histories"], "all expressions of AND, OR, ANY IN and the six comparisons over paths present with a type comparable to the literal, and documents of that shape",
  "The slow matcher is only used as a benchmark partner on fixed data.",
  ["slowmatcher.go","fastMatcher.go"],
  [("tree-walking evaluation","slowmatcher.go matchOne"),("loop variables","slowmatcher.go matchAnyInExpr")],
  ["SlowMatcher.Match"])
p("C26", "Compilation is deterministic, total and side-effect free",
  "Compiling the same list of expressions always produces a definition with the same behaviour and the same printed form, whether with a new or an already used transformer, leaves the expressions unmodified, and succeeds for every expression of the supported forms; the definition does not depend on what is done to the expressions afterwards.",
  ["programs","histories"], "all lists of supported expressions, compiled repeatedly by fresh and reused transformers in any order",
  "The tests compile each expression once with a fresh transformer.",
  ["transform.go","fastMatcherDef.go","expression_utils.go"],
  [("transformer state initialisation","transform.go Transform"),("field reference collection","expression_utils.go")],
  ["Transformer.Transform, MatchDef.String, Matcher.Match"])
p("C27", "Values convert between representations without loss",
  "A value made from a Go value or from JSON text reports its kind through exactly the matching predicates and gives back what it was made of. Converting it to an integer, float, boolean, string or time either fails or gives the same value: integers exactly and only when in range, numbers as booleans by being non-zero, booleans as 0 and 1 or true and false, strings as what they spell (a JSON string in any letter case for booleans), and never a number, boolean or string for what is none. The binary and the JSON form of any string decode to that string and compare equal to it. Converting never changes the value, and Go values of unsupported types become the invalid value.",
  ["inputs"], "all values of every constructor: int, uint, float and JSON-text numbers over the whole range, strings of any content in every form and escaping, booleans, null, times, patterns, containers, and Go values of every supported and some unsupported types",
  "Only a few conversions are tested, on one or two values each.",
  ["fastval.go","fastlitescape.go"],
  [("conversions","fastval.go AsInt, AsUint, AsFloat, AsBoolean, AsString, AsTime"),("string forms","fastval.go ToBinString, ToJsonString"),("constructors","fastval.go NewFastVal")],
  ["FastVal predicates, getters and conversions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
ids = set()
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert x["id"] not in ids; ids.add(x["id"])
        f.write(json.dumps(x) + "\n")
