#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (committed output)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
V, F, P, U = "src/validate.rs", "src/flatten.rs", "src/parser/mod.rs", "src/util.rs"
PT = "src/parser/*.rs"
P = "src/parser/mod.rs"
props = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, technique="", note=""):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    props.append((d, technique, note))
OBS = ["validate_cbor_bytes", "validate_json_str", "validate_cbor / validate_json with a lookup context"]

prop("C01", "Prelude types and literals accept exactly the values they denote",
 "A prelude type name accepts exactly the values of its kind over the whole range of the data formats (all 64-bit unsigned and negative integers, all floats, all strings), and a literal accepts exactly its own value, of its own kind. Integers and floats are never confused, nor text and bytes. This holds wherever in a schema the type stands.",
 ["inputs", "programs"], "every prelude name and literal, every value, every surrounding context",
 "Tests sample a few values per type; the statement ranges over the full value domain and over every position a type may take.",
 [V, F, "src/value.rs", "src/cbor.rs", "src/json.rs"],
 [("literal and prelude comparison", V), ("prelude name table", F), ("conversion of data", "src/cbor.rs, src/json.rs")], OBS,
 technique="property-based testing against an executable reference model (boundary-weighted values, enumerated prelude table)",
 note="Explores boundary-weighted random values of all kinds, bare and in random surroundings; the oracle is the harness's own table of kinds.")
prop("C02", "Array schemas accept exactly the item sequences their entries describe",
 "An array matches when its items, taken in order, are consumed by the entries in order: each entry takes one matching item, occurrence markers take as many as they can within their bounds, groups splice in, group choices are tried in order, and nothing is left over. Keys in an array schema are documentation and change nothing.",
 ["inputs", "programs"], "every array schema over the supported syntax, every array value",
 "Tests fix some forty schema/value pairs; combinations of occurrences, nested groups, choices and names are unbounded.",
 [V, F], [("array member matching over a working copy of the items", V)], OBS,
 state=[("working array", "items not yet consumed, with marks for going back", V)],
 technique="property-based testing against an executable reference model (random schema, value sampled from it and mutated)",
 note="Random nested array schemas up to depth 3 with values sampled from the schema, mutated, or random; verdict must equal the model's.")
prop("C03", "Map schemas accept exactly the maps whose entries can all be claimed",
 "A map matches when every entry of the schema's members claims its required number of matching key/value pairs and no pair is left over; unknown keys, missing required keys and wrong values are rejected. The verdict does not depend on the order in which the data lists its pairs, nor, where members do not compete for pairs, on the order of the members.",
 ["inputs", "programs"], "every map schema over the supported syntax, every map value and every order of its pairs",
 "Tests fix a few maps with few members; member/pair combinations, key kinds and orders are unbounded.",
 [V, F], [("map member matching over a working copy of the pairs", V)], OBS,
 state=[("working map", "pairs not yet claimed, with marks for going back", V)],
 technique="property-based testing against an executable reference model, plus order-permutation metamorphic relation",
 note="The model follows every possible claim; where the verdict depends on which of several pairs a member takes, only absence of panics is checked.")
prop("C04", "A cut key commits its member and an uncut key does not",
 "When a member with a cut key (name: or ^ =>) meets a pair with that key and a value that does not match, the enclosing map alternative fails even if a later, wider member would accept the pair; without a cut the pair stays available to later members. The effect ends with the group or map the member is written in: other alternatives and outer maps go on.",
 ["inputs", "programs"], "every map schema with cut and uncut members, every map value",
 "Tests hold a handful of cut examples at top level; nesting in groups, choices, occurrences and inner maps is not reached.",
 [V, F], [("cut handling of key/value members", V), ("cut flag of member keys", P)], OBS,
 technique="property-based testing against an executable reference model, plus directed generator and cut/no-cut metamorphic pairs",
 note="Generator weighted towards overlapping keys; direct cases state the expected verdict in closed form.")
prop("C05", "A failed alternative leaves no trace on what is matched next",
 "When a group choice, an optional or repeated group, a spliced container or a type alternative fails part of the way through, everything it had consumed is available again, so the alternatives that follow decide exactly as if the failed one had not been written.",
 ["inputs", "programs", "histories"], "every nesting of choices, occurrences and groups; every value that makes an alternative fail late",
 "Tests cover one or two shallow rewinds; state saved and restored at several levels needs nested failures.",
 [V], [("snapshot / rewind / commit of working arrays and maps", V)], OBS,
 state=[("snapshot stacks", "what to restore when an alternative fails", V)],
 technique="property-based testing: dead-alternative insertion (metamorphic) and an executable reference model",
 note="Alternatives that consume some items and then fail are inserted at random places; verdict must not change.")
prop("C06", "Occurrence bounds are respected exactly",
 "An entry marked ?, *, + or n*m accepts between its lower and upper number of repetitions, inclusive and no others, in arrays and maps, for single types, keyed members and groups alike. An upper bound of zero forbids the entry and a missing bound means none.",
 ["inputs", "programs"], "every occurrence form and bound, every repetition count, every kind of repeated entry",
 "Tests try a few counts for a few bounds; the statement ranges over all bounds, counts and entry kinds.",
 [V, P], [("occurrence loops", V), ("occurrence limits", P)], OBS,
 technique="property-based testing against the closed-form expected count, and enumeration of small bounds",
 note="Direct templates with known repetition counts from 0 to beyond the bound, plus model comparison.")
prop("C07", "Generic arguments are substituted with lexical scope",
 "Using a generic rule with arguments means its body with each parameter replaced by the argument, where an argument keeps the meaning it has at the place it is written, through any number of nested generic uses. Consistently renaming parameters never changes a verdict, even to names of other rules or of other rules' parameters.",
 ["inputs", "programs"], "every schema with generic rules, every value",
 "Tests have a few single-level generics; capture and wrong-scope errors need nested uses and colliding names.",
 [V, F], [("parameter binding per lookup", V), ("generic parameters in flattened rules", F)], OBS,
 state=[("generic parameter map", "name to argument, with the scope of the argument", V)],
 technique="property-based testing: monomorphisation and alpha-renaming metamorphic relations, and a reference model with lexical environments",
 note="Schemas with nested generic types, arrays, maps and groups; parameter names collide with rule names on purpose.")
prop("C08", "Verdicts depend on what rules mean, not on names or layout of rules",
 "Renaming rules consistently, reordering them, adding rules that are not used, giving a part of a schema a name of its own, or replacing a name by its definition never changes the verdict. A rule may have any valid identifier, including ones that begin with or contain the name of a prelude type, keyword or operator.",
 ["inputs", "programs"], "every schema, every such rewriting, every value",
 "Tests compare no schema with a rewritten one; the identifier space and the rewriting space are unbounded.",
 [V, F, P], [("rule lookup by name", "src/context.rs"), ("identifier parsing", P), ("prelude lookup", F)], OBS,
 technique="property-based testing: schema-rewriting metamorphic relations",
 note="1-5 random rewritings per case, verdict before equals verdict after and the model's.")
prop("C09", "Unwrapping a named array or map equals writing its entries in place",
 "Splicing ~name into an array or map gives the verdict of the same container with the entries of the named array or map written there, whether the name leads there directly, through other names or through a generic rule, and also when the splice is optional or repeated. A name that leads to no such container matches nothing there.",
 ["inputs", "programs"], "every named container, every place and occurrence of the splice, every value",
 "Tests hold a few fixed splices; interaction with occurrences, neighbours and cuts is not reached.",
 [V, F], [("array and map unwrap", V)], OBS,
 technique="property-based testing: splice-in-place metamorphic relation and a reference model",
 note="Both schemas are run on the same value; the model judges too.")
prop("C10", "A group turned into a choice accepts exactly its members' values",
 "&name accepts a value exactly when some member of the named group has a type that accepts it, whatever the keys, the number or the order of the members, and however the name leads to the group.",
 ["inputs", "programs"], "every group, every value",
 "Tests hold three fixed groups; the relation to the plain choice is never tested.",
 [V, F], [("group-to-choice matching", V)], OBS,
 technique="property-based testing: equivalence with the plain type choice, and a reference model",
 note="Groups of 2-40 members in random surroundings. Group choices inside &(...), and members that are the bare name of a type, are excluded (unsupported).")
prop("C11", "Ranges contain exactly the numbers between their end points",
 "a..b accepts exactly the numbers n of the end points' kind with a <= n <= b, and a...b those with a <= n < b, over the whole range of integers and floats; values of any other kind mismatch. End points may be literals, names of constants or generic arguments; end points of different kinds are an error of the schema.",
 ["inputs", "programs"], "every pair of end points, every value",
 "Tests check a few points of a few ranges; off-by-one, sign and width errors sit at boundaries of a 2^65-value domain.",
 [V, F, P], [("range check", V), ("range end points", F)], OBS,
 technique="property-based testing against a closed-form oracle, boundary-weighted",
 note="Boundary-weighted ends and values, also in random surroundings.")
prop("C12", "Comparison operators bound integers exactly",
 ".lt, .le, .gt and .ge on an integer type accept exactly the values of that type that compare accordingly with the limit, over the whole integer range, and no value of another kind. The limit and the type may be named directly, through rules or as generic arguments.",
 ["inputs", "programs"], "every operator, integer type and limit, every value",
 "Tests check a few points; each operator/type pair is separate code with its own boundary.",
 [V, F], [("comparison controls per integer type", V)], OBS,
 technique="property-based testing against a closed-form oracle, boundary-weighted",
 note="All twelve operator/type pairs with boundary-weighted limits and values.")
prop("C13", "Size limits count bytes, and bound unsigned integers by powers of 256",
 "On text and byte strings .size N accepts exactly the strings of N bytes, and .size with a range those whose byte length lies in it; text is measured in UTF-8 bytes. On unsigned integers .size N accepts exactly 0 <= x < 256^N, and a range bounds the number of bytes needed.",
 ["inputs", "programs"], "every limit, range and value, including multi-byte text and limits far beyond any value",
 "Tests check small limits and ASCII text; shifts, huge limits and multi-byte text are at the edges.",
 [V, "src/normalize.rs", F], [("size checks", V), ("size argument normalisation", "src/normalize.rs")], OBS,
 technique="property-based testing against a closed-form oracle, boundary-weighted",
 note="Strings up to 70000 bytes, limits up to 2^64-1, integers around powers of 256.")
prop("C14", "Regular expressions accept exactly the texts they match",
 "tstr .regexp P accepts exactly the text strings in which P, read from the schema with its escapes undone, finds a match (unanchored), and mismatches every value of another kind.",
 ["inputs", "programs"], "every pattern of the common subset, every text",
 "Tests hold a few patterns; escapes, non-ASCII text and anchoring multiply.",
 [V, F, P], [("regexp control", V)], OBS,
 technique="property-based testing: differential against the harness's own backtracking matcher",
 note="Patterns over a common subset (classes, repetition, alternation, anchors, scoped case-insensitivity).")
prop("C15", "Embedded CBOR has the verdict of the data it holds",
 "bstr .cbor T accepts a byte string exactly when its bytes are one complete well-formed CBOR item that T accepts; bytes that are not well-formed, are cut short or have something after the item are a mismatch like any other, so alternatives are still tried.",
 ["inputs", "programs"], "every type T, every byte string",
 "Tests hold a few well-formed payloads; malformed payloads, alternatives and nesting are not reached.",
 [V, "src/cbor.rs"], [("cbor control", V)], OBS,
 technique="property-based testing: equivalence with direct validation, fault injection on the embedded bytes, independent CBOR decoder as oracle",
 note="Payloads encoded in every valid way and then damaged. Payloads with tags, undefined or duplicate keys are excluded.")
prop("C16", "JSON and CBOR forms of the same data get the same verdict",
 "For data both formats can express, validating the JSON text, the CBOR bytes, and either in parsed form gives one and the same verdict for every schema.",
 ["inputs", "programs"], "every schema, every value expressible in JSON",
 "Tests run separate cases per format; no test compares them.",
 ["src/json.rs", "src/cbor.rs", "src/value.rs", V], [("conversion to the common value type", "src/json.rs, src/cbor.rs")], OBS + ["conversion into the crate's value type"],
 technique="property-based testing: four-way differential between the entry points, and a reference model",
 note="Floats that serde_json itself reads inexactly are excluded.")
prop("C17", "The verdict depends on the data, not on how it is encoded",
 "Any valid encoding of the same data (CBOR head widths, indefinite lengths, chunked strings, float widths, order of map pairs; JSON whitespace, escapes, exponents and member order) gets the same verdict and is read as the same value. Input that is malformed, cut short, followed by more data, or outside the data model (tags) is reported as a value error, never as a match or mismatch.",
 ["inputs", "fault_sequences"], "every schema, every value, every valid encoding of it and every damage to it",
 "Tests use one encoding per value and hardly any malformed input.",
 ["src/cbor.rs", "src/json.rs", "src/value.rs"], [("decoding and conversion", "src/cbor.rs, src/json.rs")], OBS,
 technique="property-based testing: alternative-encoding metamorphic relation and fault injection, independent CBOR decoder as oracle",
 note="The harness's own encoder and decoder; for JSON well-formedness serde_json is the reference.")
prop("C18", "Layout of the schema text has no effect",
 "Adding, changing or removing whitespace, line ends, comments and optional commas wherever the grammar allows them gives the same syntax tree and the same verdicts.",
 ["inputs", "programs"], "every schema, every layout of it",
 "Tests parse each construct in one or two layouts; whitespace handling is separate at each of dozens of places.",
 [P, "src/ast.rs"], [("whitespace handling in each parser", P)], ["parse_cddl", "validate_cbor_bytes"],
 technique="property-based testing: re-layout metamorphic relation on syntax trees and verdicts",
 note="Every token gap is varied among spaces, tabs, LF, CRLF and comments that contain brackets, quotes and operators.")
prop("C19", "Literals in schema text denote exactly the value written",
 "Every notation of a literal is read as exactly the value it denotes: integers in decimal, hexadecimal and binary over the full range, floats with fractions and exponents, text with every escape and every character, byte strings in text, hexadecimal (with whitespace) and base64url form. Notations of the same value are interchangeable, and literals out of range or ill-formed are rejected, not altered.",
 ["inputs", "programs"], "every literal value and every notation of it",
 "Tests sample a few literals per notation; range limits, escapes and digit handling sit at edges.",
 [P, "src/ast.rs"], [("literal parsers", P)], ["parse_cddl", "validate_cbor_bytes"],
 technique="property-based testing: print-parse round trip in random notations, and rejection of damaged literals",
 note="Round trip through the harness's own printer of literals; also verdicts at the value and beside it.")
prop("C20", "Parsing recovers exactly the structure that was written",
 "For every schema over the supported grammar, parsing its text gives exactly the syntax tree it was written from: precedence of choices, ranges, operators, occurrences, keys and cuts, group choices, generics and nesting are all preserved, nothing is dropped, merged or reordered.",
 ["inputs", "programs"], "every schema over the supported grammar",
 "Tests compare some hundred fixed snippets; combinations are unbounded.",
 [P, "src/ast.rs"], [("parser combinators", P)], ["parse_cddl"],
 technique="property-based testing: print-parse round trip on random syntax trees",
 note="Random trees with all constructs, literal and identifier shapes; printed by the harness.")
prop("C21", "No input makes the library panic or misreport the kind of error",
 "Whatever the schema text, the rule name, the bytes or the JSON text, every entry point returns: it does not panic, overflow or abort. Text that does not parse is reported as a parse error and only that is.",
 ["inputs", "fault_sequences"], "every schema text (valid, damaged, random), every data bytes, every rule name",
 "Tests feed a few wrong inputs; the input space is all strings and bytes.",
 [P, F, V, U, "src/cbor.rs", "src/json.rs"], [("error values throughout", "src/util.rs")], ["parse_cddl", "flatten_from_str"] + OBS,
 technique="fuzzing: structured mutation of valid schemas and data, random bytes, dictionary; overflow checks and debug assertions on",
 note="Known finding: tens of thousands of nested brackets overflow the stack; generated nesting stays well below that.")
prop("C22", "Validation always ends, and recursive schemas are decided exactly",
 "Validation ends for every schema and value: rules that only refer to themselves, directly or through others, end in an error, and repetition of something that takes nothing ends. Recursive schemas that consume data are decided exactly on data nested as deeply as the schema nests, and chains of names up to 40 long resolve.",
 ["inputs", "programs"], "every cyclic or recursive schema, every nested value",
 "Tests hold one infinitely recursive rule; cycles through groups, generics, splices and operators are not reached.",
 [V], [("nesting depth limit", V), ("occurrence loops", V)], OBS,
 state=[("depth", "how many names have been followed", V)],
 technique="property-based testing with work budgets (lookup and allocation counters), random reference cycles and deep data",
 note="Time is measured in allocations and lookups, which are deterministic.")
prop("C23", "Schema errors are reported as such, never as a verdict on the data",
 "When deciding a value requires a part of the schema that is in error (an undefined name, a wrong number of generic arguments, an unusable operand, an unsupported feature), or meets data that has no counterpart (a tag inside embedded CBOR), validation reports that error and its kind, from any depth; it is never turned into a match or a mismatch by an enclosing choice, occurrence, group, key or operator.",
 ["inputs", "programs"], "every kind of schema error, every position that must be evaluated, every value",
 "Tests check each error at top level; swallowing happens in the constructs around it.",
 [V, U, F], [("distinction of mismatches from fatal errors", U)], OBS,
 technique="property-based testing: error injection into random surroundings, and a reference model with error propagation",
 note="Errors placed where evaluation must reach them.")
prop("C24", "Parsed schemas can be reused and shared, and all entry points agree",
 "The one-call and the two-step interfaces give the same verdict; a parsed schema gives the same verdict on the same value every time, in any order and from several threads at once. Rules may come from a lookup context of the caller's own, such as several contexts stacked, with the verdict of the merged schema.",
 ["inputs", "histories", "schedules"], "every schema, every sequence of validations, every split of the rules over contexts",
 "Tests run each validation once on a fresh context.",
 ["src/context.rs", "src/cbor.rs", "src/json.rs", V], [("lookup context trait", "src/context.rs")], OBS,
 technique="stateful property-based testing: histories of validations on shared contexts against fresh ones, with threads and stacked contexts",
 note="Threads run the same history concurrently; interleavings are the scheduler's (the code has no shared mutable state to schedule around).")
prop("C25", "Unsupported and invalid syntax is rejected, not misread",
 "Schema text that uses CDDL features the library does not support, or that is not CDDL, is rejected with an error; it is never accepted with the unsupported part ignored or read as something else. Unsupported prelude types are an error when used, and unknown operators are an error.",
 ["inputs", "programs"], "every supported schema with an unsupported or damaged construct put in",
 "Tests reject a few snippets; silent acceptance shows only in combination with other rules.",
 [P, F], [("complete-input check and parse errors", P), ("unsupported prelude types and operators", F)], ["parse_cddl", "flatten_from_str"] + OBS,
 technique="property-based testing: injection of unsupported and malformed constructs into random valid schemas",
 note="Each injected construct is one the harness knows to be outside the supported grammar.")
prop("C26", "The verdict does not depend on which features are compiled in",
 "With only JSON support, only CBOR support, or both, the entry points that exist give the same verdict on the same schema and data; without CBOR support, only the embedded-CBOR operator differs, and it reports that it is unsupported.",
 ["inputs", "configurations"], "every feature configuration, every schema and value",
 "Tests run under the default features only.",
 ["Cargo.toml", "src/lib.rs", V, "src/json.rs", "src/cbor.rs"], [("feature gates", "src/lib.rs, src/validate.rs")], OBS,
 technique="property-based testing: differential between separately built feature configurations",
 note="The same generated cases run in four binaries.")
prop("C27", "A type choice accepts exactly what some alternative accepts",
 "A / B / ... accepts a value exactly when at least one alternative alone accepts it, whatever the order, number, duplication, grouping or naming of the alternatives.",
 ["inputs", "programs"], "every list of alternatives, every value",
 "Tests hold a few two- and three-way choices; the relation to the alternatives alone is never tested.",
 [V, F], [("choice matching", V), ("flattening of choices", F)], OBS,
 technique="property-based testing: metamorphic relation to the verdicts of the alternatives alone",
 note="2-60 alternatives, permuted, grouped, duplicated, named and placed in random surroundings.")
prop("C28", "Parsing a schema takes work in proportion to its text",
 "The work of parsing and preparing a schema grows no faster than about the square of the length of its text, for every construct, repeated or nested.",
 ["inputs", "programs"], "every construct repeated or nested to growing sizes",
 "Tests parse small schemas and measure nothing.",
 [P, F], [("ordered alternatives in the parsers", P)], ["parse_cddl", "flatten_from_str"],
 technique="property-based testing: growth measurement with a counting allocator over random nesting and repetition patterns",
 note="Work is counted in allocations. Known finding: parenthesised groups alternating with arrays or maps take exponential time.")
prop("C29", "Rule texts kept with a schema are the rules' own source",
 "When rules are kept with their source text, each rule's text is the exact part of the input that defines it and parses back to the same rule; the rules and verdicts are those of ordinary parsing.",
 ["inputs", "programs"], "every schema, every layout of it",
 "Tests check a few short rules without varied layout.",
 [P, F], [("slice parsing", P), ("slice flattening", F)], ["slice_parse_cddl", "slice_flatten_from_str"],
 technique="property-based testing: round trip of each rule's text and differential against ordinary parsing",
 note="Random layouts with comments between and inside rules.")

prop("C30", "Validation takes work in proportion to data and schema",
 "Where the alternatives and members of a schema do not compete for the same data, the work of a validation grows no faster than about the square of the size and of the nesting depth of data and schema, whether the data matches, is wrong at the innermost or last place, or has something left over: nothing is validated again at each level. Large data (thousands of items) gets the same verdict as small data.",
 ["inputs", "programs"], "every construct, nested or repeated, over data of every size",
 "Tests use data of a few items at one or two levels; repeated work per level is only visible at depth.",
 [V, "src/context.rs"], [("recursive validation and map/array matching", V), ("rule lookup", "src/context.rs")], OBS,
 technique="property-based testing: growth of allocations, lookups and bytes over doubling sizes of generated nestings and breadths, verdict known by construction",
 note="Growth is judged over doublings (at most a factor of 5 per doubling), never absolute speed, except a bound of 5 s processor time per validation that normally takes milliseconds. Schemas that re-try alternatives on the same data are outside.")
prop("C31", "Errors name what they are about",
 "A missing-rule error carries exactly the undefined name; the mismatch of a prelude type, literal, range or choice that the schema requires names it (`expected int`, `expected 1..5`, `expected choice of 3`), through any arrays, maps, names and generic rules around it; items or pairs left over are reported as `shorter array` or `shorter map`; a parse error quotes a part of the schema text (or, for a bare key with arguments, says so), and a literal that is malformed or cannot be represented is reported as an error of its kind (integer, float, text, hexadecimal, base64) wherever it stands; and every entry point and format gives the same text for the same data.",
 ["inputs", "programs"], "every type, every surroundings that require it, every value it rejects; every damaged schema text",
 "Tests compare a dozen fixed messages at top level.",
 [V, U, F, P], [("mismatch messages", V), ("error types", U), ("parse errors", "src/parser/parse_err.rs")], OBS,
 technique="property-based testing: message predicted from the generated type and surroundings, invariants on the message, differential between entry points",
 note="Only the texts for scalar types, integer and float literals and ranges, choices, leftovers, missing rules and parse errors are predicted; other texts only have to agree between entry points.")

claimed = set(subprocess.run([ROOT + "/harness/target/release/vh", "list"], capture_output=True, text=True).stdout.split())
with open(ROOT + "/properties.jsonl", "w") as f:
    for d, _, _ in props:
        f.write(json.dumps(d) + "\n")
man = {"version": 1,
 "setup_cmd": "./setup.sh",
 "checks": [{"property": d["id"], "quick_cmd": "./run.sh check " + d["id"],
   "thorough_cmd": "./run.sh check " + d["id"] + " thorough",
   "technique": t, "level": "exploration",
   "level_note": n + " Random search: absence of a violation is evidence, not proof. Trusts the harness's model and encoders."}
   for d, t, n in props if d["id"] in claimed],
 "not_applicable": [{"property": d["id"], "reason": "the check is not built yet"} for d, _, _ in props if d["id"] not in claimed],
 "notes": "No hooks: every check uses the public interface of the crate. See DESIGN.md."}
with open(ROOT + "/MANIFEST.json", "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
