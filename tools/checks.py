"""The registered checks: which test group decides a property and how it is run."""
CHECKS = {c: dict(group="api") for c in (
    "C01", "C02", "C03", "C04", "C06", "C07", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C24", "C25", "C26", "C27")}
CHECKS["C05"] = dict(group="api", race=True)
CHECKS["C23"] = dict(group="tree")
CHECKS["C08"] = dict(group="tok")

# technique and level note of each check, for the manifest
GEN = "Random search (rapid, shrinking), 8 shards, in the thorough tier also coverage-guided (Go fuzzing): no violation in the explored cases is evidence, not proof. Trusts the harness's "
TECH = {
    "C01": ("property-based testing against a reference evaluator", GEN + "own JSON reader, evaluator and comparison table."),
    "C02": ("property-based testing against a reference evaluator", GEN + "own evaluator of quantifiers; loop nesting up to 11."),
    "C03": ("property-based testing against a reference evaluator", GEN + "own evaluator; lists of up to some hundred expressions."),
    "C04": ("stateful property-based testing, differential against fresh matchers", GEN + "comparison of a reused with a fresh matcher, which shares its bugs by design."),
    "C05": ("generated concurrent histories under the race detector, sequential oracle", "Random search (rapid, shrinking), 8 shards: no violation in the explored cases is evidence, not proof. Trusts the " + "race detector, which only sees the interleavings that happened."),
    "C06": ("metamorphic property-based testing (re-encodings of one value)", GEN + "own JSON writer."),
    "C07": ("structured fuzzing (mutations, truncations) with a totality and acceptance oracle", GEN + "own JSON reader to tell valid from truncated."),
    "C08": ("property-based testing against a reference lexer", GEN + "own lexer."),
    "C09": ("property-based testing against byte order of decoded strings", GEN + "own string writer."),
    "C10": ("property-based testing against math/big", GEN + "math/big."),
    "C11": ("property-based testing against a comparison table, algebraic laws", GEN + "own comparison table."),
    "C12": ("property-based testing against math/big and math", GEN + "math/big and the math package."),
    "C13": ("property-based testing against an own date parser", GEN + "own date parser."),
    "C14": ("property-based testing against package regexp on decoded strings", GEN + "package regexp."),
    "C15": ("grammar-based generation with a reference evaluator", GEN + "own evaluator and the generator's reading of the grammar."),
    "C16": ("structured fuzzing of filter texts with a totality oracle", GEN + "mutators to reach unusual texts; only panics, hangs and unusable matchers are judged."),
    "C17": ("grammar-based generation with a reference evaluator", GEN + "own evaluator and the generator's reading of the documented language."),
    "C18": ("structured fuzzing of simple expressions with a totality oracle", GEN + "mutators to reach unusual texts; only panics, hangs and unusable expressions are judged."),
    "C19": ("round trip through JSON and structured fuzzing of encodings", GEN + "own writer of JSON expressions."),
    "C20": ("property-based testing against an own JSON reader and writer", GEN + "own JSON reader."),
    "C21": ("structured fuzzing (mutations, truncations, small buffers) with a totality oracle", GEN + "mutators; only panics, hangs and writes outside the buffers are judged."),
    "C22": ("metamorphic property-based testing (compacted against original)", GEN + "own evaluator."),
    "C23": ("stateful property-based testing against a brute-force formula", GEN + "own formula evaluator."),
    "C24": ("property-based testing against counts over the generated tree", GEN + "own counting."),
    "C25": ("differential property-based testing of both matchers and the reference evaluator", GEN + "own evaluator."),
    "C27": ("property-based testing against the converted value, round trips", GEN + "strconv and own string reader."),
    "C26": ("metamorphic property-based testing (repeated compilation)", GEN + "comparison of compilations with each other, which shares their bugs by design."),
}
