"""What is claimed, and which harnesses decide it. gen_meta.py writes properties.jsonl, MANIFEST.json and a table in DESIGN.md from here."""


class H:
    """one harness: one symbolic execution over a whole domain"""

    def __init__(self, name, what, timeout=120, path=False, reps=1, random=40, reach=(), env=None):
        self.name, self.what, self.timeout, self.reps, self.random, self.reach = name, what, timeout, reps, random, reach
        self.env = dict(env or {})
        if path:
            self.env["MIRSYM_MERGE"] = "0"


class P:
    def __init__(self, title, statement, over, qtext, why, files, mechanism, observe, quick, thorough=(), outside="", assumptions=()):
        self.__dict__.update(locals())
        self.quick, self.thorough, self.assumptions = list(quick), list(thorough), list(assumptions)


ASSUMPTIONS = [
    "rustc's MIR construction and the executor's model of MIR, integer arithmetic, strings and the standard collections are right "
    "(the executor runs the code after monomorphisation; it is compared with the native build on solver models and random inputs in every run, "
    "and on the repository's own test cases when it changes)",
    "z3 answers unsat only for unsatisfiable formulas",
    "the regex crate matches as documented (the patterns are compiled to automata by the executor's own model)",
    "log macros have no effect on the output",
]
A, B = ["src/avro.rs", "src/ast.rs", "src/jsonschema.rs"], ["src/bigquery.rs", "src/ast.rs", "src/jsonschema.rs"]
AB = ["src/avro.rs", "src/bigquery.rs", "src/ast.rs", "src/jsonschema.rs", "src/lib.rs"]
OBS = ["jst::convert_avro", "jst::convert_bigquery"]
OUT = "schemas deeper or wider than the stated trees, property names other than those stated, and option combinations fixed by the harness"
D1 = "every schema of one composite (or none: object with 0..2 properties and any required list, nullable object, array, map, pattern map, oneOf of two, tuple) over any of 26 schemas and, as second child, any of 9"
M2 = "two composites (or fewer: the 7 kinds) around any of 9 schemas, second children any of 4"
W2 = "two composites (or fewer: the 7 kinds) around any of 26 schemas, second children any of 9"
CTX = "all resolve methods and options"

PLAN = {}

PLAN["C01"] = P(
    "Every JSON Schema atom maps to its documented column type at every position",
    "A boolean, integer, number or string (and a string with format date-time or bytes) becomes boolean, long, double, string, string, bytes in Avro and BOOL, INT64, FLOAT64, STRING, TIMESTAMP, BYTES in BigQuery, "
    "wherever in the schema it stands and whatever other format or options are given. Objects, arrays, maps, tuples and unions around it become records, arrays (repeated columns), maps and the common type.",
    ["inputs", "configurations"], "all type/format combinations at all positions of bounded schema trees, all options",
    "The tests sample a few dozen fixed schemas; each atom is tested at the root and at one or two positions only.",
    AB, [("atom tables", "src/avro.rs TranslateFrom<ast::Tag> for Type"), ("atom tables", "src/bigquery.rs TranslateFrom<ast::Tag> for Tag"), ("type and format", "src/jsonschema.rs Tag::get_type")], OBS,
    [H("c01_avro", "10 types or type lists x 6 formats for both children of one composite (8 kinds), resolve method cast, all other options", reach=["avro"]),
     H("c01_bq", "as c01_avro, for BigQuery", reach=["bigquery"]),
     H("c01_deep_avro", "6 atoms below 3 composites (object, array, map, oneOf, tuple) each over (deeper, integer or null)", reach=["avro"]),
     H("c01_deep_bq", "as c01_deep_avro, for BigQuery", reach=["bigquery"]),
     H("x_bq1", D1 + "; " + CTX + "; whole output compared", reach=["bigquery"]),
     H("x_avro1", D1 + "; " + CTX + "; whole output compared", reach=["avro"]),
     H("x_avro_m2", M2 + "; " + CTX + "; whole output compared", 300, reach=["avro"]),
     H("x_bq_m2", "as x_avro_m2, for BigQuery", 300, reach=["bigquery"])],
    [H("x_avro2", W2 + "; all options; whole output", 3600, reach=["avro"]), H("x_bq2", "as x_avro2, for BigQuery", 3600, reach=["bigquery"])], OUT)

PLAN["C02"] = P(
    "A column is nullable exactly when the schema lets its value be absent or null",
    "A column is nullable if and only if its property is not required, its type admits null (directly, in a type list or in any alternative of a oneOf), it is an optional tuple element, or nullability is forced; "
    "otherwise it is required. In BigQuery arrays and maps are repeated whatever their nullability, and the columns inside them follow the same rule.",
    ["inputs", "configurations"], "all required lists and null positions in bounded schema trees, force-nullable on and off",
    "Nullability is computed in four places that must agree (parsing, union collapse, inference, output); the tests fix one required list per shape.",
    AB, [("nullability inference", "src/ast.rs Tag::infer_nullability"), ("union collapse", "src/ast.rs Union::collapse"), ("optional tuple elements", "src/jsonschema.rs atom_into_ast")], OBS,
    [H("c02_avro", "one composite (7 kinds) over 14 schemas (atoms, null, nullable atoms, records, lists, maps, unions with null); every required list, and none; cast; all options", reach=["avro"]),
     H("c02_bq", "as c02_avro, for BigQuery", reach=["bigquery"]),
     H("c02_deep_avro", "3 nested composites (object, nullable object, array, map, oneOf), leaf nullable or not, every required list; force-nullable on/off", reach=["avro"]),
     H("c02_deep_bq", "as c02_deep_avro, for BigQuery", reach=["bigquery"]),
     H("c02_m2_avro", M2 + "; all options but the resolve method", 300, reach=["avro"]),
     H("c02_m2_bq", "as c02_m2_avro, for BigQuery", 300, reach=["bigquery"]),
     H("c02_tuple", "as c15_long_avro, well bounded; cast; force-nullable on and off; both formats", reach=["avro", "bigquery"]),
     H("c02_many", "2..5 properties of 4 types, any required list, at the root or in an array; both formats", reach=["avro", "bigquery"])],
    [], OUT)

PLAN["C03"] = P(
    "Avro output is always a valid Avro schema",
    "Whenever a conversion to Avro succeeds, the result is a valid Avro schema: known types, well-formed names and namespaces, no nested or degenerate unions, distinct field names, no two records with one full name. "
    "A nullable field has null first in its union and null as its default, and no other field has a default.",
    ["inputs", "configurations"], "all bounded schema trees, all property names up to 3 printable ASCII characters, all options",
    "Tests compare a few outputs literally; none checks Avro validity over unusual names, nullable lists or dropped columns.",
    A, [("type translation", "src/avro.rs TranslateFrom<ast::Tag> for Type"), ("names", "src/ast.rs normalize_name, recurse_infer_name")], ["jst::convert_avro"],
    [H("c03_shapes", D1 + "; " + CTX, reach=["avro"]),
     H("c03_names", "a property whose name is any string of 0..3 printable ASCII characters, next to a property x, as a leaf or a record; " + CTX, path=True, reach=["avro"]),
     H("c03_deep", "3 nested composites (object, nullable object, array, map, oneOf, tuple) over integer, null, unspecified; cast and drop, all options", 240, reach=["avro"]),
     H("c03_m2", M2 + "; cast and drop, all options", 300, reach=["avro"])],
    [], OUT)

PLAN["C04"] = P(
    "BigQuery output is always an acceptable BigQuery schema",
    "Whenever a conversion to BigQuery succeeds, the result is a non-empty list of columns with well-formed distinct names, known types and modes, records with at least one column, and descriptions of at most 1024 characters.",
    ["inputs", "configurations"], "all bounded schema trees, all property names up to 3 printable ASCII characters, all options",
    "Tests compare a few outputs literally; none checks acceptability over unusual names, dropped columns or long texts.",
    B, [("column translation", "src/bigquery.rs TranslateFrom<ast::Tag> for Tag"), ("root", "src/bigquery.rs TranslateFrom<ast::Tag> for Schema"), ("names", "src/ast.rs normalize_name")], ["jst::convert_bigquery"],
    [H("c04_shapes", D1 + "; " + CTX, reach=["bigquery"]),
     H("c04_names", "a property whose name is any string of 0..3 printable ASCII characters, next to a property x, as a leaf or a record; " + CTX, path=True, reach=["bigquery"]),
     H("c04_deep", "3 nested composites (object, nullable object, array, map, oneOf, tuple) over integer, null, unspecified; cast and drop, all options", 300, reach=["bigquery"]),
     H("c04_m2", M2 + "; cast and drop, all options", 300, reach=["bigquery"]),
     H("c17_long", "descriptions, titles and both of 1, 1020..1025, 1100 characters of one, two or four bytes", reach=["bigquery"])],
    [], OUT)

PLAN["C05"] = P(
    "Casting never fails and keeps every column",
    "With the cast method every well-formed schema converts, and every property with a valid column name has a column; what is under-specified or inconsistent (no type, empty objects, arrays without items, "
    "incompatible unions, unsupported keywords) becomes a string column in its place.",
    ["inputs", "configurations"], "all bounded schema trees with under-specified parts at any position, all options but the resolve method",
    "The tests have some ten schemas with one under-specified part each, not combinations below maps, arrays, tuples and unions.",
    AB, [("fallback to string", "src/avro.rs handle_error"), ("fallback to string", "src/bigquery.rs handle_error")], OBS,
    [H("c05_avro", "one composite (8 kinds) over 23 leaves most of which are or contain something under-specified, second child any of 6; cast, all options", reach=["avro"]),
     H("c05_bq", "as c05_avro, for BigQuery", reach=["bigquery"]),
     H("c05_tuple", "as c15_long_avro, well bounded; both formats", reach=["avro", "bigquery"]),
     H("c05_m2_avro", M2 + "; all options but the resolve method", 300, reach=["avro"]),
     H("c05_m2_bq", "as c05_m2_avro, for BigQuery", 300, reach=["bigquery"]),
     H("c05_deep", "3 nested composites over under-specified leaves, both formats, default options", reach=["avro", "bigquery"]),
     H("c05_odd", "12 leaves with unsupported or contradictory keywords (allOf, anyOf, $ref, not, enum, boolean additionalProperties, empty patternProperties, ...) below 4 composites; whole output", reach=["avro", "bigquery"])],
    [], OUT + "; tuple descriptions that the tuple option does not support")

PLAN["C06"] = P(
    "Dropping removes exactly the under-specified columns and nothing else",
    "With the drop method a column is absent if and only if it is under-specified or inconsistent, or is a record, array, map or tuple left with nothing; every column that remains is the one that casting gives. "
    "A schema of which nothing remains does not convert.",
    ["inputs", "configurations"], "all bounded schema trees with under-specified parts at any position, all options but the resolve method",
    "The tests cover a handful of dropped columns; not what happens to their siblings and parents at depth, or in unions.",
    AB, [("drop", "src/avro.rs handle_error and filter on is_ok"), ("drop", "src/bigquery.rs handle_error and filter on is_ok"), ("maps", "allow_maps_without_value")], OBS,
    [H("c06_avro", "one composite (8 kinds) over 23 leaves most of which are or contain something under-specified, second child any of 6; columns and types against the reference", reach=["avro", "avro-fails"]),
     H("c06_bq", "as c06_avro, for BigQuery", reach=["bigquery", "bigquery-fails"]),
     H("c06_deep_avro", "3 nested composites over under-specified leaves; columns and types against the reference", reach=["avro", "avro-fails"]),
     H("c06_deep_bq", "as c06_deep_avro, for BigQuery", reach=["bigquery", "bigquery-fails"]),
     H("c06_sub_avro", "same domain: the dropped schema is part of the cast one, attributes included", reach=["avro"]),
     H("c06_sub_bq", "as c06_sub_avro, for BigQuery", reach=["bigquery"]),
     H("c06_tuple", "as c15_long_avro, well bounded; both formats", reach=["avro", "bigquery"]),
     H("c06_m2_avro", M2 + "; map option on and off; columns and types against the reference", 300, reach=["avro", "avro-fails"]),
     H("c06_m2_bq", "as c06_m2_avro, for BigQuery", 300, reach=["bigquery", "bigquery-fails"])],
    [], OUT)

PLAN["C07"] = P(
    "The panic method refuses exactly the schemas that are not fully specified",
    "With the panic method a conversion fails if and only if some column of the output is under-specified or inconsistent. When it succeeds the output is the one that casting and dropping give.",
    ["inputs", "configurations"], "all bounded schema trees with and without under-specified parts, all options but the resolve method",
    "The tests exercise panics on three schemas; a resolve method that misses one position keeps passing.",
    AB, [("panic", "src/avro.rs handle_error"), ("panic", "src/bigquery.rs handle_error")], OBS,
    [H("c07_avro", "one composite (8 kinds) over 23 leaves most of which are or contain something under-specified, second child any of 6; all options", reach=["avro", "avro-fails"]),
     H("c07_bq", "as c07_avro, for BigQuery", reach=["bigquery", "bigquery-fails"]),
     H("c07_deep_avro", "3 nested composites over under-specified leaves", reach=["avro", "avro-fails"]),
     H("c07_deep_bq", "as c07_deep_avro, for BigQuery", reach=["bigquery", "bigquery-fails"]),
     H("c07_m2_avro", M2 + "; map option on and off", 300, reach=["avro", "avro-fails"]),
     H("c07_m2_bq", "as c07_m2_avro, for BigQuery", 300, reach=["bigquery", "bigquery-fails"])],
    [], OUT)

PLAN["C08"] = P(
    "The order, repetition and nesting of union alternatives do not matter",
    "Reordering the alternatives of a oneOf or the names in a type list, repeating an alternative, or grouping alternatives into a nested oneOf leaves the output unchanged.",
    ["inputs"], "all permutations of three alternatives out of twenty, all type lists of three names, both formats",
    "Collapsing is a left fold over the alternatives; the tests give each union in one order.",
    ["src/ast.rs", "src/jsonschema.rs"], [("union collapse", "src/ast.rs Union::collapse"), ("type lists", "src/jsonschema.rs type_into_ast")], OBS,
    [H("c08_perm_avro", "3 of 20 alternatives (atoms, null, objects, nullable object, arrays, maps, nested unions, unspecified) in all 6 orders; all resolve methods", reach=["avro"]),
     H("c08_perm_bq", "as c08_perm_avro, for BigQuery", reach=["bigquery"]),
     H("c08_dup", "two alternatives, and the first again", reach=["avro", "bigquery"]),
     H("c08_four", "four of 6 alternatives, rotated, reversed, shuffled or grouped and repeated", reach=["avro", "bigquery"]),
     H("c08_types", "type lists of 3 of 7 names in all orders", reach=["avro", "bigquery"]),
     H("c08_nest_avro", "three of 20 alternatives nested in 8 ways, with unions of one, against oneOf [a, b, c], at the root, in a record, a map and an array", reach=["avro"]),
     H("c08_nest_bq", "as c08_nest_avro, for BigQuery", reach=["bigquery"])],
    [], OUT)

PLAN["C09"] = P(
    "A union becomes the common type of its alternatives",
    "Alternatives of one atom type give that type, integer and number give number, objects merge property by property with a property required only if every alternative requires it, arrays and maps merge their items and values, "
    "null alternatives only make the column nullable, and anything else is a string (under-specified). Alternatives nested at any depth, in oneOf or type lists, collapse the same way.",
    ["inputs", "configurations"], "all unions of up to three of the listed alternatives at the root and in records, maps and arrays; all pairs of objects over two properties",
    "The tests list about fifteen unions; the rules interact (nesting, nullability, required lists, merged properties).",
    ["src/ast.rs", "src/jsonschema.rs"], [("union collapse", "src/ast.rs Union::collapse"), ("recursion", "src/ast.rs Tag::collapse")], OBS,
    [H("c09_atoms", "one or two of 10 atoms at 4 positions", reach=["avro", "bigquery"]),
     H("c09_three", "3 of 20 alternatives at 4 positions, BigQuery", reach=["bigquery"]),
     H("c09_objects_avro", "two objects over properties a, b of 6 types each, any required lists, one possibly nullable", reach=["avro"]),
     H("c09_objects_bq", "as c09_objects_avro, for BigQuery", reach=["bigquery"]),
     H("c09_nested_avro", "two composites (object, array, map, oneOf, leaf) over 3 leaves", reach=["avro"]),
     H("c09_nested_bq", "as c09_nested_avro, for BigQuery", reach=["bigquery"]),
     H("c09_containers", "two objects whose property is one of 8 containers or unions", reach=["avro", "bigquery"]),
     H("c09_types", "type lists of 1..3 of 7 names with object, array and format keywords", reach=["avro", "bigquery"]),
     H("c09_five", "1..5 of 10 alternatives; all resolve methods; both formats", reach=["avro", "bigquery"]),
     H("c09_m2_avro", "union of two composites (5 and 3 kinds) over 4 schemas, at the root, of the items of two arrays or of the property of two objects", 300, reach=["avro"]),
     H("c09_m2_bq", "as c09_m2_avro, for BigQuery", 300, reach=["bigquery"])],
    [H("c09_w2_avro", "as c09_m2_avro, 7 kinds of composites over 9 schemas", 3600, reach=["avro"]), H("c09_w2_bq", "as c09_w2_avro, for BigQuery", 3600, reach=["bigquery"])], OUT)

PLAN["C10"] = P(
    "The output is a function of the schema and the options",
    "Converting one schema with one set of options always gives the same output, in whatever order hash tables happen to be traversed, and whatever the same process converted before; properties whose names collide after normalisation are resolved the same way every time.",
    ["inputs", "schedules", "histories"], "all iteration orders of hash tables that deviate from the insertion order or its reverse in one traversal, over bounded schemas with colliding names, maps, tuples and merged objects; all pairs of an earlier and a later conversion over 15 schemas and 8 sets of options each",
    "Hash orders are random per process: a test that fails once in a hundred runs looks flaky, collisions are not tested at all, and the tests convert one schema at a time.",
    ["src/ast.rs", "src/avro.rs", "src/bigquery.rs", "src/jsonschema.rs"], [("sorting of columns", "src/avro.rs fields.sort_by_key"), ("sorting of columns", "src/bigquery.rs fields_as_vec"), ("collisions", "src/ast.rs normalize_properties")], OBS,
    [H("c10_avro", "objects, pattern maps, maps, tuples over 3 leaves; cast and drop; one traversal in any order", path=True, reps=64, reach=["avro"]),
     H("c10_bq", "as c10_avro, for BigQuery", path=True, reps=64, reach=["bigquery"]),
     H("c10_names_avro", "two of 11 names of which some collide, required or not, with and without normalize-case", path=True, reps=64, reach=["avro"]),
     H("c10_names_bq", "as c10_names_avro, for BigQuery", path=True, reps=64, reach=["bigquery"]),
     H("c10_union_avro", "two merged objects", path=True, reps=64, reach=["avro"]),
     H("c10_union_bq", "two merged objects", path=True, reps=64, reach=["bigquery"]),
     H("c10_history_avro", "a conversion (15 schemas, 8 sets of options) after any other one in the same process", reach=["avro"]),
     H("c10_history_bq", "as c10_history_avro, for BigQuery", reach=["bigquery"])],
    [], "orders that deviate in two or more traversals at once")

PLAN["C11"] = P(
    "Column names are the normalised property names, and required follows them",
    "A property becomes a column named after it with dots and dashes replaced by underscores, an underscore before a leading digit, and snake_case if asked for; a property whose name has no such form is omitted, and nothing else is. "
    "A required entry applies to the column that its name normalises to.",
    ["inputs", "configurations"], "all property names of up to 3 printable ASCII characters, all pairs (property, required entry) and pairs of properties of up to 2 characters, normalize-case on and off",
    "Tests use some twenty names; leading digits, lone symbols, digits after snake-casing and required entries are string properties.",
    ["src/ast.rs", "src/casing.rs"], [("normalisation", "src/ast.rs normalize_name, normalize_properties")], OBS,
    [H("c11_name", "one property, any name of 0..3 printable ASCII characters; whole output of both formats", path=True, reach=["avro", "bigquery"]),
     H("c11_required", "any name and any required entry of 0..2 printable ASCII characters", path=True, reach=["bigquery"]),
     H("c11_pair", "two properties with names of 0..2 characters of -, ., _, $, letters, digits that do not collide", path=True, timeout=240, reach=["bigquery"]),
     H("c11_odd", "one of 24 longer names, 4 required entries, a leaf or a record, at 5 positions; whole output of both formats", path=True, timeout=300, reach=["avro", "bigquery"]),
     H("c11_three", "three of 9 names that do not collide, any of them required; whole output of both formats", path=True, timeout=300, reach=["avro", "bigquery"])],
    [], "names longer than 3 characters other than those of c11_odd, control characters; which of two colliding names wins (C10 covers that it is always the same)")

PLAN["C12"] = P(
    "snake_case conversion follows its documented word boundaries",
    "snake_case conversion splits words at symbols, between a lower and an upper case letter, and before the last capital of a run followed by a lower case letter, where a digit has the case of the letter before it; "
    "it yields only lower case letters, digits and single inner underscores, keeps every letter and digit, and is idempotent.",
    ["inputs"], "all strings of up to 6 printable ASCII characters",
    "The csv tests hold word lists and three-character strings; the boundary rules look at unbounded context.",
    ["src/casing.rs"], [("heck", "src/casing.rs to_snake_case")], ["jst::casing::to_snake_case"],
    [H("c12_snake", "every string of 0..6 printable ASCII characters against the rule", path=True),
     H("c12_props", "every string of 0..5 printable ASCII characters: alphabet, underscores, idempotence, characters kept", path=True),
     H("c12_long", "every string of 0..8 of a, b, A, B, 1 and the underscore against the rule", path=True, timeout=300)],
    [], "longer strings, non-ASCII characters, the oniguruma feature (a C library)")

PLAN["C13"] = P(
    "Arrays become arrays of their item type, nested lists get a level of their own",
    "An array with one item schema becomes an Avro array (a repeated BigQuery column) of the items' type; an array directly inside an array is wrapped in a record with the single column list. "
    "An array without items, or whose items have no type, is resolved by the resolve method.",
    ["inputs", "configurations"], "all item schemas of the listed kinds, up to four levels of lists, nullable or not, at the root, in records and maps, all resolve methods",
    "Tests have five arrays; nested, nullable and untyped lists interact with nullability and the resolve method.",
    AB, [("arrays", "src/avro.rs and src/bigquery.rs, ast::Type::Array arm"), ("items", "src/jsonschema.rs atom_into_ast")], OBS,
    [H("c13_avro", "34 item schemas, nullable or not, at 4 positions; whole output", reach=["avro", "avro-fails"]),
     H("c13_bq", "as c13_avro, for BigQuery", reach=["bigquery", "bigquery-fails"]),
     H("c13_nested", "1..4 levels of lists, each nullable or not, over 4 leaves, at 4 positions; whole output of both", reach=["avro", "bigquery"]),
     H("c13_chain", "5 nested composites (array, object, oneOf with null) over 3 leaves; all resolve methods; whole output of both", 300, reach=["avro", "bigquery"]),
     H("c13_of", "arrays and nullable arrays of arrays of one composite (7 kinds) over 26 schemas, second child any of 4; all resolve methods; whole output of both", 300, reach=["avro", "bigquery"])],
    [], OUT)

PLAN["C14"] = P(
    "Objects without properties become maps of the common value type",
    "An object with additional or pattern properties and no properties becomes a map whose values have the common type of all those schemas; BigQuery shows it as a repeated record of a required string key and a value. "
    "A value that cannot be typed is resolved by the resolve method; when dropped, the map goes too, or keeps its key if maps without value are allowed (BigQuery only).",
    ["inputs", "configurations"], "all combinations of type, additionalProperties and patternProperties over 26 value schemas, at four positions, all resolve methods and map options",
    "Tests have eight maps; the branches on additional and pattern properties are a product.",
    AB, [("maps", "src/jsonschema.rs atom_into_ast"), ("maps", "src/avro.rs and src/bigquery.rs, ast::Type::Map arm")], OBS,
    [H("c14_avro", "type object/nullable/absent x additionalProperties absent/false/true/schema x patternProperties absent/empty/schema over 26 values, at 4 positions; whole output", reach=["avro", "avro-fails"]),
     H("c14_bq", "as c14_avro, for BigQuery", reach=["bigquery", "bigquery-fails"]),
     H("c14_union", "two patterns and possibly additional properties over 6 values; both formats", reach=["avro", "bigquery"]),
     H("c14_deep", "1..3 levels of maps and maps in records over 4 leaves; both formats", reach=["avro", "bigquery"]),
     H("c14_of", "maps and pattern maps of one composite (7 kinds) over 26 schemas, second child any of 4; all resolve methods and map options; whole output of both", 300, reach=["avro", "bigquery"]),
     H("c14_many", "0..4 patterns and possibly additional properties over 6 values; all resolve methods and map options; whole output of both", 300, reach=["avro", "bigquery"])],
    [], OUT)

PLAN["C15"] = P(
    "Tuples become records f0_, f1_, ... with the right optional elements",
    "With the tuple option an array with a list of item schemas becomes a record with one column per element, f0_ onwards; elements at and beyond minItems and additional elements up to maxItems are nullable, and descriptions that do not bound the tuple are refused. "
    "Without the option a tuple is under-specified.",
    ["inputs", "configurations"], "all combinations of minItems, maxItems, additionalItems and one or two items, at four positions, all resolve methods",
    "Tests have seven tuples; the arithmetic of minItems, maxItems and additional items is a product of cases.",
    AB, [("tuples", "src/jsonschema.rs atom_into_ast, ArrayType::TagTuple"), ("tuples", "src/avro.rs and src/bigquery.rs, ast::Type::Tuple arm")], OBS,
    [H("c15_avro", "1 or 2 items of 4 types, minItems absent or 0..3, maxItems absent or 0..4, additionalItems absent/false/true/schema, at 4 positions; whole output", reach=["avro", "avro-fails"]),
     H("c15_bq", "as c15_avro, for BigQuery", reach=["bigquery", "bigquery-fails"]),
     H("c15_off", "the same domain without the tuple option; both formats", reach=["avro", "bigquery"]),
     H("c15_nested", "tuples in tuples, lists, maps and a single-alternative oneOf, at 4 positions", reach=["avro", "bigquery"]),
     H("c15_long_avro", "tuples of 3, 4, 10 or 12 elements of which one is any of 4 types, minItems 0, 1, 2, 9, 11, 13 or absent, additionalItems false, absent or a schema, as root and as property; all resolve methods", reach=["avro", "avro-fails"]),
     H("c15_long_bq", "as c15_long_avro, for BigQuery", reach=["bigquery", "bigquery-fails"]),
     H("c15_many", "0..4 items of 3 types, minItems, maxItems, additionalItems; all resolve methods; whole output of both", reach=["avro", "bigquery"]),
     H("c15_of", "tuples and additional items of one composite (7 kinds) over 26 schemas, second child any of 4; all resolve methods; whole output of both", 300, reach=["avro", "bigquery"])],
    [], OUT + "; tuples that can have more than 14 elements")

PLAN["C16"] = P(
    "Exactly the under-specified columns at matching paths become JSON columns",
    "In BigQuery an under-specified column has type JSON if and only if its path from the top-level column down, in terms of normalised column names, matches the configured pattern from its start, under every resolve method; "
    "typed columns never do, and a pattern in the schema's own metadata replaces the configured one. Avro output does not depend on the pattern.",
    ["inputs", "configurations"], "ten patterns (prefixes, alternatives, suffixes, anchors) over bounded schemas with under-specified parts in records, maps and arrays",
    "Three tests with one pattern each; anchoring, alternatives and paths through lists and maps are untested.",
    ["src/lib.rs", "src/bigquery.rs", "src/ast.rs"], [("matching", "src/lib.rs Context::is_json_object_path"), ("metadata", "src/lib.rs into_ast"), ("paths", "src/ast.rs fully_qualified_name, infer_name")], ["jst::convert_bigquery"],
    [H("c16_match", "11 patterns (and none) x one composite over 4 leaves x 3 positions; whole output", reach=["bigquery"]),
     H("c16_resolve", "4 patterns, all resolve methods, force-nullable; Avro unaffected", reach=["bigquery", "avro"]),
     H("c16_meta", "option and metadata patterns, malformed metadata, metadata below the root", reach=["bigquery"]),
     H("c16_m2", "11 patterns (and none) x " + M2, 300, reach=["bigquery"]),
     H("c16_chain", "11 patterns (and none) x 4 nested composites (5 kinds) over an under-specified leaf; all resolve methods", 300, reach=["bigquery"]),
     H("c16_names", "5 names that normalise, 4 patterns, normalize-case on and off", path=True, reach=["bigquery"])],
    [], OUT + "; patterns are a fixed list")

PLAN["C17"] = P(
    "BigQuery columns carry the title and description of their schema",
    "A column's description is 'title - description', or whichever of the two is given, cut to 1024 characters without breaking one; a column whose schema has neither has none, and neither do columns merged from several alternatives. Avro output carries no descriptions.",
    ["inputs"], "all titles and descriptions of up to 2 printable characters, all combinations over six kinds of nesting, lengths around the limit with one-, two- and four-byte characters",
    "Tests have four descriptions and one long ASCII text.",
    ["src/bigquery.rs", "src/jsonschema.rs", "src/ast.rs"], [("description", "src/bigquery.rs TranslateFrom<ast::Tag> for Tag"), ("propagation", "src/jsonschema.rs type_into_ast, src/ast.rs collapse")], ["jst::convert_bigquery"],
    [H("c17_text", "any title and description of 0..2 printable ASCII characters, present or not, at the root or in a record", path=True, reach=["bigquery"]),
     H("c17_pos", "title/description present or not on a leaf (5 kinds) and on the composite around it (6 kinds); whole output of both formats", reach=["bigquery", "avro"]),
     H("c17_long", "1, 1020..1025, 1100 characters of one, two or four bytes as title, description or both", reach=["bigquery"]),
     H("c17_m2", "title/description present or not at three levels of two nested composites (7 kinds) over 3 leaves", 300, reach=["bigquery"]),
     H("c17_union", "title/description on both alternatives, their properties and the union", reach=["bigquery"])],
    [], OUT)

PLAN["C18"] = P(
    "Avro and BigQuery describe the same table",
    "With the cast method both formats give the same columns in the same order with corresponding types and nullability, at every depth: records, arrays with repeated columns, maps with repeated key/value records, tuples, nested lists.",
    ["inputs", "configurations"], "all bounded schema trees without null-only types and without arrays of maps, all options but force-nullable and the pattern, all names of up to 2 characters",
    "The two outputs are compared with literals separately; the intermediary use (load Avro into the BigQuery table) needs them to agree everywhere.",
    AB, [("two translations of one tree", "src/avro.rs, src/bigquery.rs TranslateFrom<ast::Tag>")], OBS,
    [H("c18_shapes", "one composite (8 kinds) over 17 schemas, all required lists; normalize-case, tuple option", reach=["avro", "bigquery"]),
     H("c18_deep", "2 nested composites, possibly below an array of records", reach=["avro", "bigquery"]),
     H("c18_m2", M2 + ", without null-only types and arrays of maps", 300, reach=["avro", "bigquery"]),
     H("c18_many", "2..5 properties of 4 types, any required list, at the root or in an array", reach=["avro", "bigquery"]),
     H("c18_names", "a record whose name is any string of 0..2 characters, normalize-case on and off", path=True, reach=["avro", "bigquery"])],
    [], OUT + "; null-only types (null in Avro, a string column in BigQuery); arrays of maps (see the known finding of C21)")

PLAN["C19"] = P(
    "The full name of every Avro record is its path",
    "Every record in Avro output has as its full name the path of its column from root (items are list, map values value, tuple elements f0_ onwards, a nested-list wrapper is named after the outer list), so no two records share a full name.",
    ["inputs", "configurations"], "all bounded schema trees with records at any position, all property names up to 2 characters, all options",
    "Namespaces are inferred top-down and re-inferred after unions collapse; tests fix a few paths.",
    ["src/ast.rs", "src/avro.rs"], [("names", "src/ast.rs infer_name, recurse_infer_name, set_name"), ("records", "src/avro.rs Record")], ["jst::convert_avro"],
    [H("c19_shapes", "one composite (8 kinds) over records of one and two levels; all options", reach=["avro"]),
     H("c19_deep", "3 nested composites over records", 240, reach=["avro"]),
     H("c19_m2", M2 + "; cast and drop", 300, reach=["avro"]),
     H("c19_chain", "5 nested composites (object, nullable object, array, map, tuple) over a record of two levels", 300, reach=["avro"]),
     H("c19_names", "nested records below a property with any name of 0..2 characters", path=True, reach=["avro"])],
    [], OUT)

PLAN["C20"] = P(
    "A column depends on its own schema only",
    "The column of a property is the same whatever its sibling properties are; keywords that only constrain values (enum, default, minimum, pattern, definitions, metadata, ...) or are unknown change nothing; columns are ordered by name.",
    ["inputs", "configurations"], "all pairs of 28 sibling schemas and required lists; 28 keywords at the root and in a property of bounded trees; all names of 1..2 characters",
    "Tests have no pair of schemas that differ in one irrelevant part.",
    AB, [("flattened keywords", "src/jsonschema.rs Tag"), ("per-column translation", "src/avro.rs, src/bigquery.rs"), ("sorting", "src/bigquery.rs fields_as_vec, src/avro.rs sort_by_key")], OBS,
    [H("c20_sibling_avro", "property a next to any b of 28 schemas, any required list; cast and drop", reach=["avro"]),
     H("c20_sibling_bq", "as c20_sibling_avro, for BigQuery", reach=["bigquery"]),
     H("c20_m2_avro", "properties a and b, each a composite (7 and 5 kinds) over 9 schemas and 4; with and without b; cast and drop", 300, reach=["avro"]),
     H("c20_m2_bq", "as c20_m2_avro, for BigQuery", 300, reach=["bigquery"]),
     H("c20_many", "2..5 properties of 4 types, any required list, at the root or in an array; whole output of both", reach=["avro", "bigquery"]),
     H("c20_extra_avro", "one composite over 6 leaves; 28 keywords, at the root or in property a; all resolve methods", reach=["avro"]),
     H("c20_extra_bq", "as c20_extra_avro, for BigQuery", reach=["bigquery"]),
     H("c20_order", "two properties with any names of 1..2 letters and underscores", path=True, reach=["avro", "bigquery"])],
    [], OUT)

PLAN["C21"] = P(
    "Every document that the JSON Schema accepts fits the produced schema",
    "A document that validates against the JSON Schema can be stored under the Avro and BigQuery schemas produced for it with cast or drop: no required column is missing or null, and every value has its column's type, "
    "where string columns for under-specified parts hold any value as text.",
    ["inputs", "configurations"], "all bounded schemas together with all documents of up to two levels over five scalars",
    "The tests never relate a document to an output; this is what the transpiler is for.",
    AB, [("whole conversion", "src/lib.rs convert_avro, convert_bigquery")], OBS,
    [H("c21_avro", "one composite (6 kinds) over 8 leaves x documents: scalar, object over a, b, list of up to 2; cast, drop, options", reach=["avro"]),
     H("c21_bq", "as c21_avro, for BigQuery", reach=["bigquery"]),
     H("c21_deep_avro", "objects and arrays of one composite x documents of two levels", reach=["avro"]),
     H("c21_deep_bq", "as c21_deep_avro, for BigQuery", reach=["bigquery"]),
     H("c21_tuple", "tuples of two items, minItems, additional items x documents; both formats", reach=["avro", "bigquery"]),
     H("c21_union_avro", "oneOf of two objects over a, b, any required lists x documents with the properties of one alternative", reach=["avro"]),
     H("c21_union_bq", "as c21_union_avro, for BigQuery", reach=["bigquery"]),
     H("c21_array_of_maps", "arrays of maps in BigQuery have a level for the list")],
    [], OUT + "; null where nothing is specified; maps whose patterns do not cover the keys; properties that no alternative describes")

PLAN["C22"] = P(
    "The root becomes the table",
    "An object at the root becomes the columns of the table (in Avro a record named root without namespace); any other root (atom, array, map, under-specified, or a union that collapses to one of these) becomes the single BigQuery column root with its own mode and description, and its plain Avro type.",
    ["inputs", "configurations"], "all bounded schema trees as roots, with and without text, all options; all unions of two of twenty alternatives",
    "Tests convert a few kinds of roots; unions at the root collapse in another place than elsewhere.",
    ["src/bigquery.rs", "src/avro.rs", "src/lib.rs"], [("root", "src/bigquery.rs TranslateFrom<ast::Tag> for Schema"), ("root", "src/avro.rs is_root")], OBS,
    [H("c22_avro", "one composite (8 kinds) over 26 schemas, second child any of 9, text or not; all options", reach=["avro"]),
     H("c22_bq", "as c22_avro, for BigQuery", reach=["bigquery"]),
     H("c22_m2_avro", M2 + "; cast and drop, map option, tuples", 300, reach=["avro"]),
     H("c22_m2_bq", "as c22_m2_avro, for BigQuery", 300, reach=["bigquery"]),
     H("c22_union", "oneOf of 2 of 20 alternatives; whole output of both", reach=["avro", "bigquery"])],
    [], OUT)

PLAN["C23"] = P(
    "Forcing nullability changes nothing but nullability",
    "With force-nullable every column and nested type is nullable, and the output is otherwise the one without it: BigQuery has no required column (repeated ones stay repeated), and in Avro every type but null is a union with null and every field has the default null.",
    ["inputs", "configurations"], "all bounded schema trees, all other options",
    "Tests check four schemas.",
    AB, [("nullability", "src/ast.rs infer_nullability")], OBS,
    [H("c23_avro", D1 + "; all other options; with against without", reach=["avro"]),
     H("c23_bq", "as c23_avro, for BigQuery", reach=["bigquery"]),
     H("c23_m2_avro", M2 + "; cast and drop, map option; with against without", 300, reach=["avro"]),
     H("c23_m2_bq", "as c23_m2_avro, for BigQuery", 300, reach=["bigquery"]),
     H("c23_deep", "2 nested composites (6 kinds); both formats", reach=["avro", "bigquery"])],
    [], OUT)

PLAN["C24"] = P(
    "Malformed schemas are refused",
    "A schema that is not an object, names a type that does not exist, or has a structural keyword of the wrong kind, at any position, is refused by both conversions under every resolve method; it never yields a table.",
    ["inputs", "configurations"], "all type names of up to 4 letters, sixteen malformed schemas at seven positions, all options",
    "Tests have no malformed schema at depth; drop must not turn a malformed part into a missing column.",
    ["src/jsonschema.rs", "src/lib.rs"], [("parsing", "src/jsonschema.rs Tag, get_type"), ("errors", "src/lib.rs into_ast")], OBS,
    [H("c24_type", "every type name of 0..4 ASCII letters but null, alone or in a list, at the root or in a property", path=True, reach=["avro-fails", "bigquery-fails"]),
     H("c24_shape", "six values that are no schema", reach=["avro-fails", "bigquery-fails"]),
     H("c24_nested", "16 malformed schemas at 7 positions; all options", reach=["avro-fails", "bigquery-fails"])],
    [], "other malformed values; keywords the code ignores")

PLAN["C25"] = P(
    "Every option changes only what it is documented to change",
    "The tuple option changes nothing without tuples, allowing maps without value only adds key-only maps to BigQuery output under drop, snake-casing changes nothing when names are in snake case already, the JSON pattern only turns string columns into JSON in BigQuery, "
    "and the resolve method changes nothing when everything is specified.",
    ["inputs", "configurations"], "all bounded schema trees, all settings of the other options",
    "Tests run each option on schemas made for it.",
    AB, [("options", "src/lib.rs Context")], OBS,
    [H("c25_tuple", D1 + "; all other options", reach=["avro", "bigquery"]),
     H("c25_maps", D1 + "; all other options", reach=["avro", "bigquery"]),
     H("c25_case", D1 + "; all other options", reach=["avro", "bigquery"]),
     H("c25_regex", D1 + "; 10 patterns, all other options", reach=["avro", "bigquery"]),
     H("c25_m2_tuple", M2 + ", no tuples; cast and drop, map option", 300, reach=["avro", "bigquery"]),
     H("c25_m2_maps", M2 + "; cast and drop", 300, reach=["avro", "bigquery"]),
     H("c25_m2_case", M2 + "; cast and drop", 300, reach=["avro", "bigquery"]),
     H("c25_m2_regex", M2 + "; 4 patterns", 300, reach=["avro", "bigquery"]),
     H("c25_resolve", "one composite over 8 specified leaves; all options", reach=["avro", "bigquery"])],
    [], OUT)

PLAN["C26"] = P(
    "A schema means the same wherever it stands",
    "The column made from a subschema as a required property, array item or map value is the one made from it as a root: the same nested columns, types and modes, with Avro names moved below the new path.",
    ["inputs", "configurations"], "all bounded schema trees as root and as property, item and value, cast and drop, force-nullable",
    "Tests never relate two conversions.",
    AB, [("recursive translation", "src/avro.rs, src/bigquery.rs TranslateFrom<ast::Tag>"), ("names", "src/ast.rs infer_name")], OBS,
    [H("c26_bq", "one composite (8 kinds) over 26 schemas, second child any of 9, as root and as required property", reach=["bigquery"]),
     H("c26_avro", "as c26_bq, for Avro", reach=["avro"]),
     H("c26_m2_bq", M2 + "; cast; as root and as required property", 300, reach=["bigquery"]),
     H("c26_m2_avro", "as c26_m2_bq, for Avro", 300, reach=["avro"]),
     H("c26_below_avro", "as c26_bq, as the items of an array and the values of a map, for Avro", reach=["avro"]),
     H("c26_below_bq", "as c26_bq, as the values of a map", reach=["bigquery"]),
     H("c26_items", "records as array items and map values", reach=["bigquery"])],
    [], OUT)

NOT_APPLICABLE = []
