#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
I = "nom-derive-impl/src/"

prop("C01", "Primitive types decode with the requested byte order and width",
 "For every primitive integer and float type, parse_be reads exactly the type's size in bytes as big-endian, parse_le reads exactly that many bytes as little-endian, and parse behaves as parse_be. The unread bytes are returned as the remainder, and an input that is too short yields Incomplete, whatever the input and the error type.",
 ["inputs", "configurations"], "all input slices, all error types, all twelve primitive types and all three entry points, in every feature configuration",
 "Tests sample u8/u16/u32/u64 on one or two byte strings, almost always big-endian; i128, f32, f64, signed and little-endian variants are never executed.",
 ["src/traits.rs"], [("impl_primitive_type! table of big- and little-endian parsers", "src/traits.rs")],
 ["return value of <T as Parse>::parse, parse_be, parse_le"])

prop("C02", "Option, Vec, pair and array parse their elements with the same byte order",
 "Each of parse, parse_be and parse_le on a container parses its elements with that same entry point of the element type: a pair parses its first then its second member, an array [T; N] parses exactly N elements in order, a Vec parses elements until one cannot be parsed, and an Option yields None without consuming anything when its element cannot be parsed. A truncated element counts as not parseable (never Incomplete) inside Option, Vec and arrays, and the result does not depend on which crate features are enabled.",
 ["inputs", "configurations"], "all element types implementing Parse, all inputs, all error types, all N, with and without the alloc feature",
 "Tests run containers of u8/u16/u32 in big-endian with default features only; little-endian forwarding, user element types with order-dependent layouts, and the no-alloc array implementation are never built or run.",
 ["src/traits.rs"], [("impl Parse for Option/Vec/(T1,T2)/[T;N]", "src/traits.rs"), ("complete() wrapping of the element parser", "src/traits.rs")],
 ["return value of the three Parse entry points of each container"])

prop("C03", "Length-prefixed data: prefix decoded first, then exactly that many bytes",
 "LengthData reads its length prefix with the byte order of the entry point called, then yields exactly that many following bytes and leaves the rest as remainder; if fewer bytes remain it reports Incomplete instead of panicking or returning short data. String reads a big-endian u32 length through every entry point, then that many bytes, and rejects bytes that are not valid UTF-8.",
 ["inputs", "configurations"], "all inputs (in particular all length values versus remaining bytes), all length-prefix types and error types",
 "Two tests parse one well-formed 4-byte message; truncated data and little-endian prefixes are never tried.",
 ["src/helpers.rs", "src/traits.rs"], [("impl Parse for LengthData", "src/helpers.rs"), ("impl Parse for String", "src/traits.rs")],
 ["return value of the three Parse entry points"])

prop("C04", "Derived structs parse fields in order, thread the input, build faithfully",
 "A derived parser parses the fields in declaration order, starting each field where the previous one stopped, stores each parsed value in the field it was declared for, and returns the input left after the last field. Nothing is parsed twice, skipped or reordered, for named, tuple, unit and generic structs and for any number of fields and any field names the language allows.",
 ["programs", "inputs"], "all struct definitions accepted by the derive (field count, kind, names, types, generics, lifetimes) and all inputs",
 "Each test is one struct with a handful of fields and one input.",
 [I + "structs.rs", I + "gen/structs.rs", I + "parsertree.rs"],
 [("field list to parser list", I + "structs.rs parse_fields"), ("function body template", I + "gen/structs.rs gen_fn_body")],
 ["result and remainder of the generated parse/parse_be/parse_le"])

prop("C05", "Byte order: field attribute beats object attribute beats entry point",
 "Every inferred field parser uses the byte order of the field's own BigEndian/LittleEndian attribute if present, otherwise the one fixed for the object (BigEndian/LittleEndian attribute, NomBE or NomLE), otherwise the one of the entry point that was called, parse meaning big-endian. This holds however deeply the field parser is nested in other attributes (Count, Cond, Map, Verify, Complete, Into, LengthCount, Debug), in structs, enum variants and fieldless enums alike; when the object's order is fixed all three entry points agree.",
 ["programs", "inputs"], "all combinations of derive, object attribute, field attribute, wrapping attributes, item kind and entry point; all inputs",
 "Tests call parse on six structs; parse_le on derived types is barely exercised and never through wrapping attributes.",
 [I + "endian.rs", I + "structs.rs", I + "parsertree.rs", I + "gen/generator.rs", I + "gen/fieldless_enums.rs"],
 [("endianness lookup", I + "endian.rs get_local_endianness"), ("propagation into nested parsers", I + "parsertree.rs with_endianness"), ("entry point generation", I + "gen/generator.rs")],
 ["which byte order each field of the result was decoded with"])

prop("C06", "SetEndian switches byte order at run time from its position onward",
 "After SetEndian(expr), every inferred parser of that field and of all following fields of the item (all fields when used on the item) decodes big-endian when expr evaluates to Endianness::Big and little-endian otherwise, independent of the entry point called. expr is evaluated exactly once, at the position of the attribute, earlier fields are unaffected, a later SetEndian replaces it, and a field's own BigEndian/LittleEndian attribute takes precedence.",
 ["programs", "inputs"], "all positions and numbers of SetEndian attributes, all runtime values of the expression, all wrappers, structs and enum variants",
 "One struct puts a constant SetEndian on every field, and one doc-test uses it at top level; no test checks fields following a field-level SetEndian.",
 [I + "structs.rs", I + "endian.rs"], [("dynamic order selection", I + "structs.rs get_type_parser"), ("evaluation of the attribute argument", I + "structs.rs get_pre_post_exec")],
 ["which byte order each field of the result was decoded with, for both values of the expression"])

prop("C07", "Parser attributes keep their documented meaning and nest in order of appearance",
 "Cond, Count, LengthCount, Map, Into, Verify, Complete, Debug, Tag, Take, Value, Parse and Ignore/Default each produce exactly the documented parser, built from their own argument whatever expression that is (converted to usize as a whole where a number is expected). When several are given they nest in order of appearance, the first being outermost, over the parser inferred for the innermost type.",
 ["programs", "inputs"], "all attribute sequences on a field, all argument expressions, both argument syntaxes, all inputs",
 "Tests use each attribute once with a trivial argument and two attribute combinations; order-dependent stacks and compound expressions are not covered.",
 [I + "structs.rs", I + "parsertree.rs", I + "meta/attr.rs"],
 [("attribute list to nested parser", I + "structs.rs get_parser"), ("parser templates", I + "parsertree.rs ToTokens for ParserExpr")],
 ["parsed value, remainder and error of the field"])

prop("C08", "Complete turns Incomplete into Error exactly where it applies",
 "With Complete on a field, or on the whole struct or enum (selector-based or fieldless), an Incomplete result of the covered field parsers becomes an Error of kind Complete positioned where that parser started; every other result is unchanged. Fields not covered by Complete keep streaming behaviour: their Incomplete is returned unchanged.",
 ["programs", "inputs"], "all placements of Complete, all field parsers and wrappers, all truncation points of the input",
 "One truncated input for two structs; enums and nested placements are not tested.",
 [I + "structs.rs", I + "config.rs", I + "enums.rs", I + "gen/fieldless_enums.rs", I + "parsertree.rs"],
 [("object-level flag", I + "config.rs"), ("wrapping of field parsers", I + "structs.rs parse_fields")],
 ["kind of error returned on truncated input"])

prop("C09", "PreExec, PostExec and ErrorIf run exactly once, in order, at their position",
 "PreExec statements and ErrorIf checks of a field run before that field is parsed and after everything before it, PostExec statements right after it, several on one field or item in order of appearance, each exactly once per parse that reaches them and never when an earlier step failed. Item-level PreExec runs before the first field and item-level PostExec after the value is built, and the same holds for enum variants; ErrorIf fails with kind Verify at the current position, consuming nothing, exactly when its condition is true.",
 ["programs", "inputs"], "all placements, numbers and orders of the attributes in structs and enums, all inputs",
 "Tests have one PostExec and one ErrorIf, and only look at the value, not at order or multiplicity.",
 [I + "structs.rs", I + "enums.rs", I + "gen/structs.rs", I + "gen/enums.rs", I + "gen/fieldless_enums.rs"],
 [("collection of pre/post code", I + "structs.rs get_pre_post_exec"), ("placement in the body", I + "gen/structs.rs gen_fn_body, " + I + "gen/enums.rs gen_variants")],
 ["sequence of effects of user statements, result"])

prop("C10", "Align, Skip, Move and MoveAbs land on the documented offset or fail cleanly",
 "AlignBefore/AlignAfter(n) advance by the fewest bytes that make the offset from the start of the parser's input a multiple of n, SkipBefore/SkipAfter(n) advance by n, Move(d) goes to current offset plus d (d may be negative), and MoveAbs(n) goes to offset n. A target before the start fails with TooLarge and a target beyond the end with Incomplete, with no panic and no out-of-range access for any value; a target exactly at either end is valid, and several directives apply in order of appearance.",
 ["programs", "inputs"], "all directive sequences in structs and enum variants, all runtime argument values including extremes, all offsets and input lengths",
 "Tests run five structs on one 16-byte input; boundaries, negative moves past the start, extreme values, and enum variants are not tested.",
 [I + "structs.rs"], [("alignment", I + "structs.rs quote_align"), ("relative move", I + "structs.rs quote_move"), ("absolute move", I + "structs.rs quote_move_abs"), ("skip", I + "structs.rs quote_skip")],
 ["offset at which the next field is parsed, error kind"], [("start-of-input binding", "offset origin for alignment and moves", I + "config.rs orig_input_name")])

prop("C11", "Exact accepts only fully consumed input",
 "A parser derived with Exact succeeds only if no input is left after the whole item was parsed, and otherwise fails with an error of kind Verify positioned at the leftover input. It changes nothing else: an input that fails without Exact fails identically with it, and an input consumed entirely yields the same value.",
 ["programs", "inputs"], "structs, selector enums and fieldless enums, with any other attributes and any input length",
 "One struct, two inputs.",
 [I + "structs.rs", I + "gen/structs.rs", I + "gen/enums.rs", I + "gen/fieldless_enums.rs"], [("emptiness check after the item", I + "structs.rs get_pre_post_exec")],
 ["result for inputs with and without trailing bytes"])

prop("C12", "Selector enums dispatch to the first matching variant, default last",
 "A derived enum parser parses the fields of the first variant, in declaration order, whose selector pattern (including any guard) matches the selector value; a variant whose selector is the wildcard is tried only after all others, wherever it is declared, without changing the order of the others. If nothing matches and there is no wildcard the result is an Error of kind Switch at the current input, and fields inside a variant are parsed exactly like struct fields.",
 ["programs", "inputs"], "all variant counts and orders, overlapping patterns and guards, wildcard positions, named/tuple/unit variants, all selector values and inputs",
 "Enums in tests have two or three variants with disjoint selectors; overlapping guards combined with an early wildcard are never tried.",
 [I + "gen/enums.rs", I + "enums.rs"], [("match arm generation and default placement", I + "gen/enums.rs gen_variants"), ("variant parsing", I + "enums.rs parse_variant")],
 ["variant chosen, value, error"])

prop("C13", "Fieldless enums map exactly their discriminants",
 "A fieldless enum parser reads one integer of the enum's repr type with the applicable byte order and returns the variant whose discriminant equals that value, for implicit, explicit, negative and sparse discriminants alike. Any other value is rejected with an Error of kind Switch positioned at the start of the input, and the remainder starts right after the integer.",
 ["programs", "inputs"], "all repr integer types, all discriminant assignments and variant counts, all inputs and entry points",
 "Two enums with three variants are tested on four byte values.",
 [I + "gen/fieldless_enums.rs", I + "enums.rs"], [("discriminant comparison chain", I + "gen/fieldless_enums.rs"), ("repr lookup", I + "enums.rs get_repr")],
 ["variant chosen, remainder, error"])

prop("C14", "All three entry points exist, agree, and forward every extra argument",
 "The derive always provides parse, parse_be and parse_le; parse equals parse_be, and without a selector or ExtraArgs they are an implementation of the Parse trait, otherwise public inherent functions taking the input, then the selector if any, then the extra arguments in declared order. Every argument reaches the fields unchanged through each entry point, and a manual Parse implementation that defines only parse behaves identically through all three.",
 ["programs", "inputs"], "all combinations of item kind, selector, ExtraArgs lists, generic errors, generics and lifetimes; all argument values",
 "Tests call parse almost exclusively, with at most one extra argument list.",
 [I + "gen/generator.rs", "src/traits.rs"], [("entry point generation", I + "gen/generator.rs gen_parse, gen_parse_be, gen_parse_le"), ("argument lists", I + "gen/generator.rs get_call_args, get_fn_args"), ("default methods", "src/traits.rs trait Parse")],
 ["signatures and results of the three functions"])

prop("C15", "Errors of sub-parsers are returned unchanged, in the caller's error type",
 "When a field parser fails, the derived parser stops there and returns that very error (same Incomplete/Error/Failure class, same payload), with only the conversions the user asked for (Complete, Into, conditional and repetition attributes). Errors the derived code raises itself are built through the error type's own constructor, so with GenericErrors every error reaches the caller in the error type it chose, and without it in nom's default error type.",
 ["programs", "inputs"], "all item definitions, all failing positions and error classes, all error types with GenericErrors",
 "Tests look at a few error kinds with the default error type; propagation of Failure and of payloads from later fields is not checked.",
 [I + "gen/structs.rs", I + "gen/enums.rs", I + "gen/fieldless_enums.rs", I + "gen/generator.rs", I + "structs.rs"],
 [("question-mark propagation in body templates", I + "gen/structs.rs gen_fn_body"), ("error type plumbing", I + "gen/generator.rs gen_impl, gen_fn_decl")],
 ["error value returned"])

prop("C16", "Contradictory or misplaced attributes are refused at compile time",
 "Definitions with conflicting byte orders (on the item, between item and NomBE/NomLE, or on one field), attributes at a level where they are not allowed or unknown, missing or malformed arguments, Cond on a non-Option, Count or LengthCount on a non-Vec, selector enums with a variant lacking a selector, data enums without selector, fieldless enums without integer repr, unions, and types no parser can be inferred for are all rejected during compilation. No such definition ever compiles into a parser, while the same definition without the offending element does.",
 ["programs"], "all derive inputs with one of these mistakes, in structs, enum variants and enums",
 "Compile-fail tests cover about ten definitions.",
 [I + "meta/mod.rs", I + "meta/attr.rs", I + "config.rs", I + "endian.rs", I + "structs.rs", I + "enums.rs", I + "gen.rs"],
 [("attribute level checks", I + "meta/mod.rs"), ("byte order validation", I + "endian.rs, " + I + "config.rs"), ("type checks", I + "structs.rs get_item_subtype_parser")],
 ["compiler diagnostics of a crate using the derive"])

prop("C17", "Library and derived parsers never panic on any input",
 "No input bytes, length fields, offsets or selector values can make a provided Parse implementation or a derived parser panic, overflow or index out of range; every failure is reported as an error value. Only code supplied by the user in attributes can panic.",
 ["inputs", "programs"], "all inputs and runtime values reaching attribute arguments, all item definitions, debug and release arithmetic",
 "Panics need inputs no test has: truncated length-prefixed data, extreme offsets, zero alignment.",
 ["src/helpers.rs", "src/traits.rs", I + "structs.rs", I + "gen/enums.rs", I + "gen/structs.rs", I + "gen/fieldless_enums.rs"],
 [("bounds checks before slicing", I + "structs.rs quote_move, quote_move_abs"), ("streaming take for skips", I + "structs.rs quote_skip, quote_align"), ("length-prefixed data", "src/helpers.rs")],
 ["absence of unwinding"])

prop("C18", "Expansion is a pure function of the annotated item",
 "The parser derived for an item depends only on that item's own definition and attributes: not on other items or earlier expansions, nor on environment, files, time, addresses, hash seeds or threads, so the same definition always yields the same parser. Expanding has no effect besides the generated code, except printing that code when DebugDerive asks for it.",
 ["programs", "histories", "configurations"], "all sequences of expansions in one or several compiler processes, all environments",
 "Tests expand each item once per build in one environment; order- or state-dependence cannot show.",
 [I + "lib.rs", I + "gen.rs", I + "gen/generator.rs", I + "structs.rs", I + "config.rs", I + "meta/mod.rs"],
 [("per-item configuration value, no globals", I + "config.rs Config::from_meta_list"), ("sole output channel", I + "gen/generator.rs gen_impl")],
 ["generated code", "process-wide effects of the macro"])

prop("C19", "Derived code needs no std and only the documented imports",
 "The library builds without default features, and derived parsers (apart from Debug) compile in a no_std crate and in a module that imports only the derive macro and the Parse trait (plus whatever the attribute arguments themselves name), for structs, selector enums and fieldless enums, with or without extra arguments and generic errors.",
 ["programs", "configurations"], "all item kinds and attributes, all feature configurations, all user scopes",
 "Tests always use std, default features and a glob import of the whole crate.",
 ["src/lib.rs", "src/traits.rs", "src/helpers.rs", I + "gen/generator.rs", I + "gen/enums.rs", I + "gen/fieldless_enums.rs", I + "parsertree.rs"],
 [("absolute paths in templates", I + "parsertree.rs"), ("feature gates", "src/traits.rs, Cargo.toml")],
 ["whether the user crate type-checks"])

prop("C20", "No unsafe code; borrowed results cannot outlive the input",
 "Neither the library, nor the macro crate, nor any derived parser contains unsafe code, so no input can cause undefined behaviour. A parsed value that borrows (slices, length-prefixed data, generic parameters with lifetimes) borrows from the given input and a program that lets it outlive that input, or that changes the input while it is alive, is rejected by the compiler.",
 ["programs", "inputs"], "all derive inputs, all uses of parsed values, all inputs",
 "Whether ill-lifetimed programs are refused and whether unsafe code exists are not run-time facts; no test looks at them.",
 ["src/lib.rs", "src/traits.rs", "src/helpers.rs", I + "gen/generator.rs"], [("lifetime bounds of generated impls", I + "gen/generator.rs gen_impl"), ("safe slicing only", "src/helpers.rs, src/traits.rs")],
 ["compiler verdict on user programs", "absence of unsafe blocks in source and generated code"])

prop("C21", "Debug aids and parsing have no influence on results and no hidden effects",
 "Adding Debug to fields or to the item, or DebugDerive, changes no result: same value, remainder and error for every input. Parsers have no side effects (no output, no global state, no modification of arguments) besides the user's own statements and the diagnostics that Debug prints when a parser fails.",
 ["programs", "inputs"], "all placements of Debug/DebugDerive among other attributes, all inputs",
 "One test enables Debug on one struct and checks one success value.",
 [I + "structs.rs", I + "parsertree.rs", I + "gen/generator.rs", "src/traits.rs"], [("Debug wrapper", I + "parsertree.rs DbgDmp"), ("DebugDerive printing", I + "gen/generator.rs gen_impl")],
 ["result with and without Debug", "effects of generated parsers"])

prop("C22", "Streaming results are stable under appending more input",
 "If a derived streaming parser (no Complete, Exact, Option or Vec) succeeds on a prefix of the data, it succeeds with the same value on any extension of that prefix, and if it returned Incomplete, resuming with more data can still succeed.",
 ["inputs", "histories"], "all prefixes and extensions of all inputs",
 "Tests never parse growing prefixes of one message.",
 [I + "parsertree.rs", "src/traits.rs"], [("streaming combinators", I + "parsertree.rs")], ["results on prefix and extension"])

prop("C23", "Derived parsers cost no more than handwritten nom parsers",
 "A derived parser allocates and computes no more than the equivalent handwritten nom parser on any input.",
 ["inputs", "programs"], "all inputs and item definitions",
 "No test measures time or memory.",
 ["src/traits.rs", I + "parsertree.rs"], [("direct calls to nom combinators", I + "parsertree.rs")], ["time and memory per parse"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P))
