#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B, AF, DS, HR = "src/builder.rs", "src/builder/affordance.rs", "src/builder/data_schema.rs", "src/builder/human_readable_info.rs"
T, EX, HL = "src/thing.rs", "src/extend.rs", "src/hlist.rs"
PROTO = ["src/protocol/coap.rs", "src/protocol/http.rs", "src/protocol/mqtt.rs"]

MODEL = ("The reference model (harness/src/model.rs) interprets the same finite description; every description of the space is also "
         "run on the real crate and verdict, reported fault and whole content are compared step result by step result.")
JSON = ("An independent writer and strict reader of the W3C vocabulary (harness/src/json.rs) is the oracle; every document of the space "
        "is also written / parsed by the real crate.")

props = []
def P(id, title, statement, over, text, why, files, mech, observe, bounds_note, level_extra=MODEL, state=None):
    p = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        p["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    props.append((p, bounds_note, level_extra))

BUILD = ["result of building a Thing", "public content of the built Thing", "reported error"]

P("S01", "Every reference to a security definition resolves, or building fails",
  "A Thing is built only if every security name it uses, at thing level, in any form of the Thing or of any affordance, and inside any combination of schemes, names one of its declared security definitions. A description with an undefined name is rejected with an error about an undefined name of that description, and one whose names are all defined is not rejected because of them, whatever the order of declarations and references. The built Thing keeps all references in order.",
  ["programs", "inputs"], "all sequences of security declarations, requirements, combinations and form references, at every place, in every order, with names that differ by a character",
  "The tests build one valid and a few invalid descriptions; the rule quantifies over all places, orders and multiplicities of references.",
  [B, AF], [("security names of the Thing and of its forms checked in build", B + " ThingBuilder::build"), ("forms of affordances checked", AF + " check_form_builders"), ("combo references", B + " ThingBuilder::build")], BUILD,
  "declaration sequences <= 4 (5) over 21 declarations, combinations of <= 4 (6) references, <= 5 references in each of <= 3 forms at 4 sites, names at edit distance one, 4 thousand pairs of similar names in every place of two names, all triples of 314 members, every fault beside every two members")
P("S02", "Security definitions are kept exactly, and names are unique",
  "Every security definition declared is found in the built Thing under its name (by default the name of its scheme) with exactly the kind, members and defaults declared. Declaring two definitions with the same name is always rejected, and definitions with different names are never rejected as duplicates.",
  ["programs", "inputs"], "all setter sequences for each of the ten kinds of schemes, and all sequences of declarations with explicit and default names",
  "Tests show one setter sequence per scheme; they cannot show that no setter overwrites another's value in some other order or combination, nor all name collisions.",
  [B, T], [("security builders", B + " SecuritySchemeBuilder and builder of each subtype"), ("duplicate detection", B + " ThingBuilder::build"), ("default names", B + " SecuritySchemeBuilder")], BUILD,
  "ten schemes, setter sequences <= 3 (4) of 9 common and <= 13 own setters, <= 3 (4) declarations of 29")
P("F01", "Forms only carry the operations their context allows",
  "A Thing is built only if each form has exclusively operations that belong to where it is (Thing, property, action or event), and each form of the Thing itself has at least one operation set explicitly. Otherwise building fails with an error naming an offending operation and its context, and a description obeying the rule is never rejected because of its operations. Properties, actions and events without explicit operations keep the default.",
  ["programs", "inputs"], "every list of the 18 operations in every context, and every distribution over several forms",
  "Unit tests try a handful of operation sets; the rule quantifies over 18 operations, four contexts, all lists and all positions of a fault among valid forms.",
  [B, AF, T], [("FormContext check", AF + " check_form_builders"), ("thing forms", B + " ThingBuilder::build, build_form_from_builder")], BUILD,
  "lists of <= 3 (4) of the 18 operations x 4 sites, <= 5 (6) forms, wrong operations beside every two of 314 other members")
P("F02", "Forms keep what was declared",
  "Each form of the built Thing, of a property, of an action or of an event appears in the order of declaration with exactly the target, media type, coding, subprotocol, operations, security, scopes, response and additional responses declared for it, regardless of the order of the calls. Members not declared are absent.",
  ["programs", "inputs"], "all setter sequences at every place a form may occur and before or after its target is given",
  "Tests check a few setters in one order in one context; equal treatment in four contexts and any order is a statement about all sequences.",
  [B, AF, T], [("FormBuilder setters", B + " FormBuilder"), ("conversion", B + " From<FormBuilder> for Form")], BUILD,
  "setter sequences <= 4 (5) of 15 setters x 3 positions of the target x 4 sites, all triples of 314 members")
P("A01", "Affordances are kept under their names, which are unique per kind",
  "Every property, action and event declared is found in the built Thing under its name and kind with exactly the content declared, however many and in whatever order they are declared. A name used twice within a kind is always rejected with an error giving that kind and name; the same name in different kinds, or different names, are never rejected as duplicates.",
  ["programs", "inputs"], "all sequences of affordance declarations, all setter sequences inside each kind",
  "Tests declare one or two affordances with distinct names; collisions and contents over all sequences are out of reach.",
  [B, AF], [("try_build_affordance", B), ("affordance builders", AF)], BUILD,
  "declaration sequences <= 5 (6) of 3 kinds x 4 names, <= 4 affordances of 16 contents, setter sequences <= 3 (4), properties converted before and after the extension phase; all triples of 314 members")
P("D01", "No built Thing has an unsatisfiable or ill-formed bound in a data schema",
  "A Thing is built only if each data schema in it, at any nesting depth and wherever it occurs (property, action, event, URI variable, shared definition), has lower and upper bounds (of numbers, integers, lengths and counts) with some value between them, no bound that is not a number, and a positive divisor. A description obeying this is not rejected for its bounds, and one violating it is rejected with an error of the right kind.",
  ["programs", "inputs"], "all pairs of kinds of bounds with ordinary and extreme values, in schemas of all kinds, nested in all containers at all places",
  "The tests check a few bounds at top level; the rule must hold through every container and every place a schema can be attached to, and for extreme floats and integers.",
  [DS, B, AF, T], [("check_data_schema_subtype, CheckableDataSchema::check", DS), ("callers for each place", B + " ThingBuilder::build, " + AF + " CheckableInteractionAffordanceBuilder"), ("comparison of bounds", T + " Minimum / Maximum PartialOrd")], BUILD,
  "16 integers, 19 floats, 11 lengths in every pair of bound kinds; all pairs of 110 numbers with each other member; setter sequences <= 5 (6); chains of <= 3 (4) of 10 containers x 12 sites")
P("D02", "Data schemas keep what was declared",
  "Every data schema of the built Thing has exactly the kind and members declared for it, regardless of the order of the calls, of the stage of the declaration they are made in, of the nesting and of the place. A later value for the same member replaces the earlier, and nested schemas and object members keep their order, names and requiredness.",
  ["programs", "inputs"], "all setter sequences for each of the eleven kinds of schemas in every stage of the builders, all nestings and places",
  "There are dozens of builder types forwarding to each other; tests call each setter about once, while a value lost when forwarding shows only for some sequence of stages.",
  [DS, HR, T], [("typestate builders and their conversions to schemas", DS)], BUILD,
  "setter sequences <= 3 (4) per kind over 16 common and <= 8 own setters in every stage; chains <= 3 (4); <= 3 (4) children of 19; 12 sites; all triples of 314 members")
P("D03", "Read-only and write-only restrictions and constants are kept",
  "A schema declared read-only (write-only) is so in the built Thing, any other is neither, and marking it changes nothing else of it or of the schemas around and inside it. Constants, enumerations and alternatives are exactly those declared, for every JSON value.",
  ["programs", "inputs"], "all kinds with every restriction, all setter sequences before and after it, nested restrictions, every JSON value of an alphabet as constant",
  "Tests mark few schemas; forwarding through restriction wrappers over all kinds and nestings is not sampled.",
  [DS, T], [("ReadOnly / WriteOnly wrappers", DS), ("constants and enumerations", DS)], BUILD,
  "11 kinds with every restriction; setter sequences <= 3; nesting <= 2 (3) of 10 containers; 150 JSON values")
P("D04", "Data schemas built on their own are those built within a Thing",
  "A data schema finished on its own, without a Thing, has exactly the members declared, and is the same as the schema the same declaration gives inside a Thing. If it has an ill-formed language tag it is refused, and a description without fault is never refused.",
  ["programs", "inputs"], "all setter sequences, nestings, children and bounds of the eleven kinds of schemas",
  "The conversion of a single schema is a separate code path per kind; tests convert few of them.",
  [DS, T], [("TryFrom of each schema builder for a schema", DS)], ["result and content of the conversion to a schema"],
  "setter sequences <= 2 (3) per kind and stage, nesting and children <= 2 (3), all bounds")
P("U01", "URI variables are never arrays or objects and are kept exactly",
  "A Thing is built only if no URI variable, of the Thing or of any affordance, is an array or an object; otherwise it is rejected with an error about URI variables. All other URI variables are kept under their names with the schema declared, the last declaration of a name winning, and are never rejected for their kind.",
  ["programs", "inputs"], "schemas of every kind and nesting as variables at the four places, in all sequences",
  "Tests try one object variable; the rule quantifies over places, kinds, access restrictions and multiplicities.",
  [B, AF, DS], [("uri variable check", B + " ThingBuilder::build"), ("of affordances", AF + " CheckableInteractionAffordanceBuilder / TryFrom<UncheckedInteractionAffordance>")], BUILD,
  "41 schemas x 4 sites; sequences <= 2 (3) of 11 kinds x 3 names; 11^4 kinds over four sites; faulty variables anywhere in lists of up to 1025 and beside every two of 314 other members")
P("R01", "Every schema an additional response refers to is defined",
  "A Thing is built only if each schema named by an additional response, in a form of the Thing or of any affordance, is one of the shared schema definitions; otherwise it is rejected with an error naming an undefined one. Descriptions whose responses all name defined schemas, or none, are not rejected for it, whatever the order of declarations.",
  ["programs", "inputs"], "all sequences of schema definitions, forms and responses at the four places",
  "Tests exercise one form at thing level; all places, orders and multiplicities are not reachable by examples.",
  [B, AF], [("schema references", B + " ThingBuilder::build"), ("in affordances", AF + " check_form_builders")], BUILD,
  "declaration sequences <= 4 (5) of 18; <= 5 forms x <= 5 responses x 4 sites")
P("L01", "Language tags are well-formed and translations are kept",
  "A Thing is built only if every language tag in it, wherever translated titles or descriptions or link languages may be given, is well-formed according to BCP 47; otherwise it is rejected with an error quoting an ill-formed one. Well-formed tags are never rejected, and each translation is kept under its tag, the last one winning for the same tag in whatever case.",
  ["programs", "inputs"], "every tag over a subtag alphabet at every place that takes a tag; all lists of translations",
  "Tests use a few tags at a few places; there are fourteen places, nested schemas included.",
  [B, AF, DS, HR], [("MultiLanguageBuilder::build", B), ("conversions that check the tags", B + " TryFrom<UncheckedSecurityScheme>, TryFrom<UncheckedLink>; " + AF + ", " + DS)], BUILD,
  "all tags of <= 3 (4) subtags of 26, 40 special tags x 14 places; translation lists <= 4 (5) over 8 tags")
P("L02", "Links are kept, and only icons have sizes",
  "The links of the built Thing are those declared, in order, with exactly the members declared regardless of the order of the calls. A link with sizes whose relation is not exactly \"icon\" is always rejected, and no other link is rejected for its sizes.",
  ["programs", "inputs"], "all setter sequences of a link and all lists of links",
  "Tests show one icon and one wrong relation; order of calls and position among other links are not varied.",
  [B, T], [("LinkBuilder", B), ("TryFrom<UncheckedLink> for Link", B)], BUILD,
  "setter sequences <= 4 (5) of 13 x 3 positions of the target; <= 5 (6) links of 10")
P("T01", "Thing metadata is kept exactly",
  "The built Thing has exactly the identifier, types, titles, descriptions, version, creation and modification dates, support, base, profiles and contexts declared, in whatever order and stage they are given, and nothing that was not declared. The standard context always comes first, followed by the others in order.",
  ["programs", "inputs"], "all setter sequences before and after the extension phase; all context lists; extreme date-times",
  "Tests set each member alone; the many combinations (contexts in particular) are not covered.",
  [B, HR, T], [("ThingBuilder setters", B), ("context list", B + " ContextBuilder / ThingBuilder::build")], BUILD,
  "setter sequences <= 3 (4) of 29 x 3 positions; 320 date-times; context lists <= 6 (7) of 5 entries; all triples of 314 members")
P("B01", "The order of independent declarations does not matter",
  "Permuting independent declarations of a description, at the level of the Thing or inside any declaration, changes neither whether it is accepted nor the content of the Thing built, apart from the order of ordered members. Building the same description again gives an equal result, and if it is rejected a fault it really has is reported.",
  ["programs", "histories"], "all permutations of sets of independent calls, valid and faulty",
  "Each test is a single order of calls; the claim is about all of them.",
  [B, AF, DS], [("builders collect, build validates", B + " ThingBuilder::build")], BUILD,
  "all permutations of every 7 (8) of 8-9 thing level calls, 4-6 declarations with one or two faults, 5-8 setters of each kind of declaration, lists of up to 3 elements among every other call of five kinds of declarations")

J = ["serialized JSON", "result of parsing", "public content of the parsed Thing"]
P("J01", "Writing a Thing and parsing it back gives the same Thing",
  "Any Thing the builder can make, with finite numbers, can be serialized, and parsing the JSON (as a value, as text or from a reader) yields a Thing with the same content and the same JSON. No member is lost, duplicated, changed or invented.",
  ["programs", "inputs"], "every Thing built by the descriptions of all other checks, extended or not",
  "Round trips in tests cover a few documents; optional members, defaults and flattened parts interact in combinations no test writes.",
  [T, EX, HL], [("derived and manual (de)serialization of each type", T)], J,
  "22 families of descriptions: setter sequences <= 2-4, all schemas and bounds, all operations, all pairs of 314 members, all sets of members of each part, 370 texts at 1100 places, 300k extended Things", JSON)
P("J02", "The JSON of a Thing is what the W3C vocabulary says",
  "The JSON of any Thing the builder can make, with finite numbers, is a W3C Thing Description: every member has the name, place and JSON type the standard gives it, and it says exactly what the Thing holds, members that are absent or have no content being left out. Reading the JSON with the standard's rules recovers exactly the content of the Thing.",
  ["programs", "inputs"], "every Thing built by the descriptions of all other checks, extended or not",
  "Round trips cannot show it (a wrong name is wrong both ways) and tests compare few documents with literals.",
  [T], [("serde names and defaults of each type", T)], J,
  "22 families of descriptions, read by an independent strict reader", JSON)
P("J03", "Parsing a W3C document loses nothing",
  "Any well-formed W3C Thing Description made of the supported vocabulary is parsed, whichever of the allowed spellings is used for a member (scalar or list, defaults written out or left out, integers or floats) and in whatever order members come, into a Thing that holds exactly what the document says. Writing that Thing again gives a document that says the same; members outside the vocabulary are ignored.",
  ["inputs", "configurations"], "every content of all other checks in every spelling, free combinations of members the builder cannot make, every place for an unknown member",
  "The tests parse a few literal documents in one spelling each.",
  [T, HL], [("deserialization and defaults of each type", T)], J,
  "20 families of contents x 8 spellings x 3 member orders; 69984 free schemas, 3307 free documents, unknown members at every object", JSON)
P("J04", "Ill-formed documents are refused, and parsing never panics",
  "Parsing any JSON document made from a Thing Description by a few changes ends with a Thing or an error, the same for text and value, and never panics. A document that lacks a mandatory member or has a member of the wrong JSON type or an unknown enumerated name is refused, except inside the type specific part of a data schema or in a security definition; a document that stays well-formed is parsed to exactly what it says.",
  ["inputs", "fault_sequences"], "every single change, and pairs of changes, of documents that together have every member: deleting, replacing or adding a member or element at every place",
  "Tests hold a handful of ill-formed documents; faults at every place, and their interplay with flattened members, are not sampled.",
  [T, HL], [("deserialization of each type", T)], J,
  "17 documents; every single change (delete, 28 replacements, 34 additions, every member under every name of the vocabulary and of other standards, 15 similar names, 16 similar values, moving a member up) at every place; 7 thousand spellings of enumerated values at every scalar; 8 million pairs", JSON)
P("J05", "Each part of a Thing is written and read alone as within the Thing",
  "Each part of a Thing (affordance, form, response, link, security scheme and its subtype, data schema and its subtype, version, operation), serialized on its own, is the same JSON it is inside the document of its Thing, and that JSON parsed on its own gives the same part, with nothing lost, changed or added. Copies of forms are the same as the originals, and operations are displayed under the name they are written with.",
  ["inputs", "programs"], "every part at every depth of every Thing of the round trip families, with and without extensions",
  "Every part type is public and has its own serialization, which tests exercise only through a whole Thing or for one value.",
  [T], [("Serialize / Deserialize of each type", T), ("flattened parts", T)], J,
  "the Things of J01 (1.7 million), all their parts at every depth, as value and as text in two layouts",
  "The JSON of the whole and the contents of the real part are compared with the JSON and contents of the part alone, for every part of every Thing of the space.")
P("J06", "A document means the same however it is laid out and carried",
  "The Thing read from a document, and whether it is refused, depend only on what the document says: not on the order of its members, on white space or on how characters are escaped, nor on whether it comes as a string, bytes, a stream in pieces of any size, a borrowed or owned value, or one of several texts. A document that is cut off, or whose stream fails, is refused and never taken for a whole one. A Thing is written as the same document as text, indented text, bytes, value or to a stream, and a stream that fails is reported.",
  ["inputs", "fault_sequences", "configurations"], "orders of members, layouts, escapes, every point at which a document is cut or its stream fails, every size of pieces",
  "The tests read each document from one string in one order of members; the readers of flattened and untagged types buffer members, and what they do with order, borrowed strings and cut documents depends on each member.",
  [T, HL], [("Serialize / Deserialize of each type", T), ("flattened and untagged types", T)], J,
  "documents with every member, plain and extended: all orders of up to 6 (8) members of every object, rotations, reversals and single moves of more; every prefix of the texts; a failure after every byte read or written; 9 carriers, 4 kinds of white space, escapes in names and values, over 9 families of Things",
  "Each document of the space is laid out and carried in each way and read by the real crate; all results are compared with the contents the document was made from.")
P("E01", "Extensions travel with the Thing and do not disturb it",
  "Whatever extension data are given to any of the ten places that take one (the Thing, affordances, schemas, forms, responses), the built Thing, its JSON and the Thing parsed from it hold exactly those data at exactly those places, in the order of the extension types. The rest of the Thing is what it would be without extensions, a Thing without them reads the extended document, and an extension member that is missing or ill-typed is refused.",
  ["programs", "inputs", "configurations"], "two extensions with 16 payloads at all ten places over all descriptions; eight stacks of extension types",
  "The tests extend few places with one or two types; the generic plumbing through every builder is one path per place and stage.",
  [EX, HL, B, AF, DS, T], [("ExtendableThing for lists", EX), ("Extend", EX), ("flattened extension members", T)], BUILD + J,
  "setter sequences <= 1 (2), nesting <= 1 (2), combinations of rich declarations; 8 stacks; every extension member deleted and replaced", MODEL + " " + JSON)
P("E02", "Heterogeneous lists behave like lists",
  "Adding an element, looking at or changing the first or last one, splitting it off, and converting to references preserve all other elements, their order and their number, for lists of every length and of any element types. Serializing and parsing a list preserves every element.",
  ["inputs", "histories"], "lists of up to six elements of different types, every operation and composition of two",
  "Tests use lists of two or three elements and one value each.",
  [HL, EX], [("Cons, Nil, HListRef, HListMut, NonEmptyHList", HL)], ["elements of the lists"],
  "lists up to 6 elements with 3 (5) values each, every operation and pairwise compositions", "A list of values is the model; each operation is performed on the real list and on it.")
P("O01", "Bounds compare as the ranges they describe",
  "Comparing two minimum or maximum bounds, inclusive or exclusive, is consistent: equality agrees with the order, swapping operands mirrors the answer, chains of bounds of the same side are transitive, and only bounds that are not a number compare with nothing on that account. The order of each pair is the documented one, and each bound is written and read with its limit and kind.",
  ["inputs"], "all pairs and triples of bounds over all 8-bit integers and extreme 64-bit integers and floats",
  "Tests compare selected pairs; order laws are statements about all pairs and triples.",
  [T], [("PartialOrd for Minimum and Maximum", T)], ["results of comparisons", "serialized JSON"],
  "all pairs over 128 (256) 8-bit integers; 18-25 extreme integers and floats in pairs and triples", "The table of comparisons is spelled out independently; every pair and triple is evaluated by the real implementation.")
P("P01", "Protocol bindings are written and read with their vocabulary",
  "Every CoAP, HTTP and MQTT form and response, alone, inside a form and stacked together in a Thing, is written with exactly the members and values of the binding vocabulary, and read back unchanged. Each enumerated name stands for exactly one value and nothing else is accepted in its place, and numbers out of range or members of the wrong type are refused.",
  ["inputs", "configurations"], "all combinations of members over all enumerated values and extreme numbers; all 16-bit numbers; all near misses of names",
  "Tests show one document per protocol.",
  PROTO, [("serde names of the bindings", "src/protocol/*.rs"), ("flattening into forms and responses", T)], J,
  "570 thousand (10.8 million) CoAP, 4716 (56 thousand) HTTP, 5120 (46 thousand) MQTT combinations, 111 thousand (1 million) Things with all three, names within one edit, every member under every other name, numbers up to 66400 (2^20)",
  "The binding vocabulary is spelled out independently; each combination is built, written and read by the real crate.")
P("Q01", "Things are equal exactly when their content is",
  "Two Things compare equal exactly when all their members, extensions included, are the same, whichever way they were made, and comparison is symmetric. Copies of forms, links, schemas and security definitions equal their originals.",
  ["inputs"], "all pairs of variants of documents at every place; all pairs of Things of eight families; every extension member changed",
  "Equality of several types is written by hand, member by member; tests compare few unequal Things.",
  [T], [("PartialEq / Clone of Thing, affordances and forms", T)], ["results of comparisons"],
  "all pairs of <= 62 variants at every place of 17 documents; all pairs of <= 1200 (4000) Things in each of 8 families",
  "The model compares complete contents; every pair is compared by the real implementation.")
P("Q02", "Printing and hashing agree with content",
  "What the debug format prints for a Thing (in both layouts) shows its whole content: Things with different content, extensions included, never print alike apart from the order of unordered members. Equal values of every hashable part (versions, links, security schemes, integer schemas, operations) have equal hashes, copies and values read back from JSON included.",
  ["inputs"], "all pairs of variants of documents at every place, with and without extensions; all pairs of Things of eight families; hashes of every hashable part of these",
  "Printing is written by hand for several types, member by member, and no test looks at it.",
  [T], [("Debug of Thing and affordances", T), ("Hash of parts", T)], ["printed text", "hashes"],
  "all pairs of <= 62 variants at every place of 57 documents; all pairs of <= 500 (2000) Things in each of 8 families; 14 hashable types",
  "The model holds complete contents; the printed text of the real Things, brought to a form independent of layout and map order, has to tell them apart.")
P("N01", "However a description is started, only what is declared is in it",
  "A description started with any of the constructors, with no extension or with the default ones, and followed by the same calls is accepted or rejected alike and gives the same Thing. The default value of each type holds nothing beyond the defaults the standard gives (such as the place of credentials), and a version made from text or a flow scheme made from its flow hold only that.",
  ["programs", "inputs"], "all programs of nine families from each constructor; the default value of each type",
  "Tests start almost all descriptions in one way; equality of the ways is a statement about every description that follows.",
  [B, T], [("ThingBuilder::new, new_empty, Thing::builder", B), ("Default of each type", T)], BUILD,
  "493 thousand (1 million) programs from three constructors, without and with two extensions; defaults of 36 types", MODEL)
P("M01", "Errors say which part of the description is at fault",
  "When a description is rejected, the error is about a fault it has, and its message quotes the name, language tag, operation or context concerned, whatever characters the name has. Operation names in messages and in JSON are the same standard names.",
  ["inputs", "programs"], "rejected descriptions of every kind with ordinary and odd names",
  "Tests compare error variants of a few cases and never the text.",
  [B, T], [("Error", B), ("Display for FormOperation", T)], ["error value and message"],
  "<= 2 (3) operations per form in every context, 100 odd names at every place with a name, all sites of language tags")

exec(open(os.path.join(ROOT, "tools", "more_properties.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "more_properties.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, _, _ in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")

checks = []
for p, bounds, extra in props:
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check.sh {p['id']} quick",
        "thorough_cmd": f"./check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "explicit-state bounded model checking: exhaustive enumeration of a finite space of programs / documents on a reference model, each replayed on the real crate",
        "level": "model_checking",
        "level_note": f"Exhaustive within: {bounds}. {extra} Trusts serde / serde_json, the compiler and the harness model; nothing is claimed beyond the bounds.",
    })
manifest = {
    "version": 1,
    "setup_cmd": "./check.sh setup",
    "checks": checks,
    "not_applicable": [],
    "notes": "One harness crate (harness/, binary wotmc) with a path dependency on /repo. Replay a counterexample with: target/release/wotmc replay replays/<id>.json. Known findings: known_findings.txt. See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1, ensure_ascii=False)
    f.write("\n")
