#!/usr/bin/env python3
"""Write properties.jsonl (kept as a script so that the text stays readable)."""
import json, pathlib

P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(
            files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))


PYG = "mapry/py/generate/"
GOG = "mapry/go/generate/"
CPG = "mapry/cpp/generate/"

prop("C01", "Every well-formed schema is accepted and understood exactly as written",
     "Every schema that obeys the documented rules is accepted, and the resulting model holds exactly the classes, "
     "embeddable structures, properties, types, constraints, defaults, plurals, JSON names and language settings "
     "written in the schema, in the order written.",
     ["inputs", "configurations"],
     "all well-formed schemas: any nesting of arrays/maps, any mix of classes, embeds, bounds, patterns, formats, settings",
     "The unit tests parse a few hand-written schemas; they reach a handful of type/constraint/default combinations.",
     ["mapry/parse.py", "mapry/validation.py", "mapry/schemas.py", "mapry/__init__.py", "mapry/naming.py", "docs/source/schema.rst"],
     [("schema parsing", "mapry/parse.py:schema_from_mapping"), ("defaults of formats", "mapry/__init__.py:Date/Time/Datetime"),
      ("plural inference", "mapry/naming.py:plural")],
     ["mapry.parse.schema_from_mapping", "mapry.parse.schema_from_json_file"])

prop("C02", "Every rule violation in a schema is rejected with a reference to it",
     "A schema that breaks a documented rule anywhere (names, duplicate names, unknown types, bounds, sizes, patterns, formats, "
     "misplaced or unknown keys, conflicts with registries, missing keys) is rejected with a schema error whose reference leads "
     "to the offending definition, and no code is generated for it.",
     ["inputs"],
     "every single-rule violation injected at every position of every well-formed schema, including values nested in arrays and maps",
     "Tests check one fixed broken schema per rule, always at a shallow fixed position.",
     ["mapry/validation.py", "mapry/schemas.py", "mapry/strftime.py", "mapry/parse.py", "mapry/main.py"],
     [("structural validation", "mapry/validation.py:validate"), ("recursive type validation", "mapry/validation.py:_validate_type_recursively"),
      ("format directives", "mapry/strftime.py:tokenize")],
     ["mapry.parse.schema_from_mapping", "command line exit code and output directory"])

prop("C03", "Any schema file is either accepted or cleanly rejected",
     "For any file content, reading it as a schema either yields a schema or fails with a schema error or a message about invalid JSON "
     "naming the file; it never fails with an internal error.  Whatever is accepted can be turned into code, or is refused with listed "
     "errors, by every one of the language generators.",
     ["inputs"],
     "arbitrary JSON documents, well-formed schemas with arbitrary mutations of keys and values, and arbitrary text",
     "Tests only read files that are JSON and nearly valid.",
     ["mapry/parse.py", "mapry/validation.py", "mapry/main.py"],
     [("JSON errors", "mapry/parse.py:schema_from_json_file"), ("validation before parsing", "mapry/parse.py:schema_from_mapping")],
     ["mapry.parse.schema_from_json_file", "mapry.main.generate_*"])

prop("C04", "Identifier clashes in a target language are refused, others are not",
     "For each target language, the generator refuses a schema exactly when its names translate to identifiers which are reserved words, "
     "are reserved for generated code or clash with each other in that language; the refusal names the offending definition and "
     "nothing is written.",
     ["inputs"],
     "all names of graphs, classes, embeds, plurals and properties, including names that differ only in case or underscores",
     "Tests try a few fixed clashes per language.",
     ["mapry/py/validation.py", "mapry/go/validation.py", "mapry/cpp/validation.py", "mapry/naming.py", "mapry/py/naming.py", "mapry/cpp/naming.py"],
     [("per-language validation", "mapry/{py,go,cpp}/validation.py:validate_schema"), ("case conversion", "mapry/naming.py:ucamel_case")],
     ["mapry.{py,go,cpp}.validation.validate_schema", "mapry.main.generate_*"])

prop("C05", "Generation is a pure function of the schema and writes exactly its files",
     "Running a generator writes exactly the documented files of the language into the output directory, replacing earlier versions completely "
     "and touching nothing else; their content depends only on the schema, not on what was generated before, on the place of the "
     "files, on hash seeds or on settings of other languages.",
     ["inputs", "histories", "configurations"],
     "all schemas, all sequences of runs into the same or different directories, all interpreter hash seeds",
     "Tests run each generator once per schema in one process with one hash seed.",
     ["mapry/main.py", "mapry/parse.py", "mapry/__init__.py"] + [PYG, GOG, CPG],
     [("file writing", "mapry/main.py:generate_*"), ("sorted references", "mapry/__init__.py:references")],
     ["command line", "output directory"])

prop("C06", "Generated Python code always loads and exposes the documented interface",
     "For every schema accepted for Python, the generated package compiles, imports and offers one class per composite plus the parsing and "
     "serializing functions, with any indention, module name, description, pattern, format or JSON name.",
     ["programs", "configurations"],
     "all schemas accepted by the Python generator",
     "Golden files pin the text for 64 schemas; nothing says that other combinations give valid code.",
     [PYG + "types.py", PYG + "parse.py", PYG + "fromjsonable.py", PYG + "tojsonable.py", PYG + "__init__.py", "mapry/indention.py"],
     [("imports", PYG + "fromjsonable.py:_imports"), ("type annotations", PYG + "__init__.py:type_repr")],
     ["import of the generated package"])

prop("C07", "Generated Python code parses every valid document into exactly its content",
     "For every schema and every document valid under it, the generated Python code reports no error and returns an object graph with exactly the "
     "values of the document: absent optionals are None, references to one ID are the one registered object (cycles included), and "
     "ordered input mappings stay ordered.",
     ["programs", "inputs"],
     "all schemas accepted for Python and all valid documents, boundary values included",
     "The live tests parse one or two example documents of the 64 fixed schemas.",
     [PYG + "fromjsonable.py", PYG + "parse.py", PYG + "types.py"],
     [("pre-allocation of instances", PYG + "fromjsonable.py:_PARSE_GRAPH_TPL"), ("value parsing", PYG + "fromjsonable.py:_parse_value")],
     ["<graph>_from of the generated package"])

prop("C08", "Generated Python code rejects every invalid document at the right place",
     "For every schema and every document violating it (wrong type, missing property, bound, pattern, size, format, dangling reference, bad ID), "
     "the generated Python code returns no graph and reports errors whose references are exactly the places of the violations.",
     ["programs", "inputs"],
     "all schemas accepted for Python, all combinations of faults at all places of a document",
     "The live tests feed one faulty example per fixed schema.",
     [PYG + "fromjsonable.py", PYG + "parse.py"],
     [("constraint checks", PYG + "fromjsonable.py:_PARSE_*_TPL"), ("reference paths", PYG + "fromjsonable.py:_parse_property")],
     ["Errors of the generated package"])

prop("C09", "Generated Python code serializes to a document that parses back the same",
     "For every schema and object graph, serializing with the generated Python code yields a JSON-able document with exactly the content of the graph "
     "under the schema's JSON names, ordered as in the schema when ordered output is requested; parsing it gives an equal graph, and a graph whose "
     "registry key disagrees with an instance's ID is refused.",
     ["programs", "inputs"],
     "all schemas accepted for Python, all object graphs (built by hand or parsed)",
     "The live tests serialize one example of each fixed schema.",
     [PYG + "tojsonable.py", PYG + "fromjsonable.py"],
     [("value serialization", PYG + "tojsonable.py:_serialize_value")],
     ["serialize_<graph> of the generated package"])

prop("C10", "Generated Python parsers survive any JSON value and respect the error cap",
     "Given any JSON value and any cap on errors, a generated Python parser returns either a graph without errors or nothing with at least one and at most cap "
     "errors; with a smaller cap it reports exactly the first errors it would report with a larger one.",
     ["programs", "inputs"],
     "all schemas accepted for Python, all JSON values (including valid documents with subtrees replaced by arbitrary values), all caps",
     "Tests never feed values of unexpected shape at arbitrary places nor caps that are reached.",
     [PYG + "parse.py", PYG + "fromjsonable.py"],
     [("error container", PYG + "parse.py"), ("early exit when full", PYG + "fromjsonable.py")],
     ["<graph>_from and Errors of the generated package"])

prop("C11", "Generated Go code always compiles",
     "For every schema accepted for Go, the generated package compiles, whatever combination of types, nesting, optionality, constraints, "
     "patterns, formats, descriptions and JSON names the schema uses.",
     ["programs", "configurations"], "all schemas accepted by the Go generator",
     "Golden files pin the text for 64 schemas, which are compiled; other combinations are never compiled.",
     [GOG + "types.go".replace(".go", ".py"), GOG + "fromjsonable.py", GOG + "tojsonable.py", GOG + "parse.py", GOG + "__init__.py"],
     [("imports", GOG + "fromjsonable.py:_imports"), ("type representation", GOG + "__init__.py:type_repr")],
     ["go build of the generated package"])

prop("C12", "Generated Go code parses every valid document into exactly its content",
     "For every schema and every document valid under it, the generated Go code reports no error and fills a graph with exactly the values of the "
     "document: absent optionals are nil and references to one ID are the one registered instance.",
     ["programs", "inputs"], "all schemas accepted for Go and all valid documents, boundary values included",
     "The live tests parse one or two example documents of the fixed schemas.",
     [GOG + "fromjsonable.py", GOG + "types.py", "mapry/go/timeformat.py"],
     [("value parsing", GOG + "fromjsonable.py:_parse_value"), ("pre-allocation", GOG + "fromjsonable.py:_PARSE_GRAPH_TPL")],
     ["<Graph>FromJSONable of the generated package"])

prop("C13", "Generated Go code rejects every invalid document at the right place",
     "For every schema and every document violating it, the generated Go code reports errors whose references are exactly the places of the violations "
     "and, with a cap on errors, never collects more than the cap.",
     ["programs", "inputs"], "all schemas accepted for Go, all faults at all places of a document, all caps",
     "The live tests feed one faulty example per fixed schema.",
     [GOG + "fromjsonable.py", GOG + "parse.py"],
     [("constraint checks", GOG + "fromjsonable.py:_PARSE_*_TPL"), ("error container", GOG + "parse.py")],
     ["Errors of the generated package"])

prop("C14", "Generated Go code serializes to a document that parses back the same",
     "For every schema and object graph, the generated Go code serializes exactly the content of the graph under the schema's JSON names, absent optionals "
     "omitted; parsing the output gives an equal graph, and an instance registered under a foreign ID is refused.",
     ["programs", "inputs"], "all schemas accepted for Go and all object graphs",
     "The live tests serialize one example of each fixed schema.",
     [GOG + "tojsonable.py"], [("value serialization", GOG + "tojsonable.py:_serialize_value")],
     ["<Graph>ToJSONable of the generated package"])

prop("C15", "Generated C++ code always compiles",
     "For every schema accepted for C++, all the generated headers and sources compile as C++17, whatever combination of types, nesting, optionality, "
     "constraints, patterns, formats, names and C++ settings the schema uses.",
     ["programs", "configurations"], "all schemas accepted by the C++ generator, all its settings",
     "The test suite never compiles any generated C++.",
     [CPG + "types_header.py", CPG + "jsoncpp_header.py", CPG + "jsoncpp_impl.py", CPG + "parse_header.py", CPG + "parse_impl.py", CPG + "__init__.py"],
     [("includes", CPG + "types_header.py:_includes"), ("type representation", CPG + "__init__.py:type_repr")],
     ["compilation of the generated files"])

prop("C16", "Generated C++ code parses every valid document into exactly its content",
     "For every schema and every document valid under it, the generated C++ code reports no error and fills a graph with exactly the values of the document: "
     "absent optionals are empty and references to one ID point to the one registered instance.",
     ["programs", "inputs"], "all schemas accepted for C++ and all valid documents, boundary values included",
     "The test suite never runs any generated C++.",
     [CPG + "jsoncpp_impl.py"], [("value parsing", CPG + "jsoncpp_impl.py:_parse_value"), ("pre-allocation", CPG + "jsoncpp_impl.py:_PARSE_GRAPH_TPL")],
     ["<graph>_from of the generated code"])

prop("C17", "Generated C++ code rejects every invalid document at the right place",
     "For every schema and every document violating it, the generated C++ code reports errors whose references are exactly the places of the violations; "
     "it never throws nor crashes, and never collects more errors than the cap.",
     ["programs", "inputs"], "all schemas accepted for C++, all faults at all places of a document, all caps",
     "The test suite never runs any generated C++.",
     [CPG + "jsoncpp_impl.py", CPG + "parse_impl.py"], [("constraint checks", CPG + "jsoncpp_impl.py:_PARSE_*_TPL"), ("error container", CPG + "parse_impl.py")],
     ["parse::Errors of the generated code"])

prop("C18", "Generated C++ code serializes to a document that parses back the same",
     "For every schema and object graph, the generated C++ code serializes exactly the content of the graph under the schema's JSON names, absent optionals "
     "omitted; parsing the output gives an equal graph, and an instance registered under a foreign ID is refused.",
     ["programs", "inputs"], "all schemas accepted for C++ and all object graphs",
     "The test suite never runs any generated C++.",
     [CPG + "jsoncpp_impl.py"], [("value serialization", CPG + "jsoncpp_impl.py:_serialize_value")],
     ["serialize_<graph> of the generated code"])

prop("C19", "Python, Go and C++ code of one schema agree on every document",
     "The codes generated from one schema for the three languages accept the same documents, report violations at the same places, and a document "
     "serialized by any one of them is parsed by the others to the same content.",
     ["programs", "inputs"], "all schemas accepted by the three generators, all documents valid or not",
     "No test compares the languages with each other.",
     [PYG + "fromjsonable.py", GOG + "fromjsonable.py", CPG + "jsoncpp_impl.py", PYG + "tojsonable.py", GOG + "tojsonable.py"],
     [("one schema, three generators", "mapry/main.py")], ["parsers and serializers of the three generated codes"])

prop("C20", "Durations are read and written exactly, in every language",
     "Every ISO 8601 duration text (signs, fractions, weeks, average months and years included) is read as the time span it denotes (exactly; years, months and fractions of units longer than seconds to the accuracy of a float) or refused as malformed, "
     "too fine or too large for the language's resolution, and every representable time span is written as a text that reads back as the same span.",
     ["inputs"], "all duration texts and all representable spans, as standalone values, nested in aggregates and optional",
     "Tests try around a dozen fixed texts.",
     [PYG + "fromjsonable.py", PYG + "tojsonable.py", GOG + "fromjsonable.py", GOG + "tojsonable.py", CPG + "jsoncpp_impl.py"],
     [("duration parsing", PYG + "fromjsonable.py:_duration_from_string"), ("duration writing", PYG + "tojsonable.py:_duration_to_string")],
     ["generated parsers and serializers"])

prop("C21", "Date and time formats mean the same in the schema and in every language",
     "For every combination of format directives which the language's library supports, every generated code writes a date, time or date-time as the strftime directives "
     "prescribe, reads every text it writes as the same value (in the fields which the format contains), and refuses texts which do not follow the format or contain "
     "values out of range; formats which a language can not handle are refused when the code is generated.",
     ["inputs", "configurations"], "all formats built from the supported directives and literal text, all dates and times, three languages",
     "Tests use two or three fixed formats and one or two fixed dates.",
     ["mapry/strftime.py", "mapry/go/timeformat.py", PYG + "fromjsonable.py", GOG + "fromjsonable.py", CPG + "jsoncpp_impl.py"],
     [("format tokenization", "mapry/strftime.py:tokenize"), ("translation to Go layouts", "mapry/go/timeformat.py:convert")],
     ["mapry.go.timeformat.convert", "generated parsers and serializers"])

prop("C22", "Descriptions and layout settings never change what generated code does",
     "Two schemas that differ only in descriptions or in the indention settings generate the same program in every language, up to comments, documentation and "
     "white space; string literals in the code are unaffected, and every description appears in the code as a comment or documentation.",
     ["inputs", "configurations"], "all schemas, all description texts (multi-line, quotes, comment markers, backslashes), all indentions",
     "Tests use benign one-line descriptions and default indention.",
     ["mapry/indention.py", PYG + "__init__.py", GOG + "__init__.py", CPG + "__init__.py"],
     [("comments and docstrings", "mapry/{py,go,cpp}/generate/__init__.py:comment/docstring"), ("re-indentation", "mapry/indention.py:reindent")],
     ["generated files"])

prop("C23", "Extending a schema or document compatibly keeps old documents readable",
     "Adding an optional property, a class, an embeddable structure or a looser constraint to a schema keeps every document that was valid valid, with the same content; "
     "adding only optional properties, classes and structures also keeps every rejected document rejected at the same places, and lets the original schema read the documents of the extended one; "
     "keys unknown to the schema are ignored, and removing an optional value from a document changes nothing else.",
     ["programs", "inputs", "histories"], "all schemas, all compatible extensions in sequence, all valid documents",
     "Tests never relate two versions of one schema.",
     [PYG + "fromjsonable.py", PYG + "tojsonable.py", "docs/source/design_decisions.rst"],
     [("optional properties", PYG + "fromjsonable.py:_PARSE_PROPERTY_TPL")], ["generated parsers and serializers"])

prop("C24", "Parsing and serializing have no side effects and share no parts",
     "The generated parsers and serializers (Python, Go, C++) change neither the document nor the graph which they are given and keep no state: "
     "the same call gives the same outcome whatever was parsed or serialized before or is at the same time in other threads; "
     "a graph shares no mutable part with the document it was parsed from, nor a document with the graph it was serialized from, nor two results with each other.",
     ["inputs", "histories", "schedules"], "all schemas, documents (valid or not) and histories of calls, calls in threads",
     "Tests parse a document once and throw the results away.",
     [PYG + "fromjsonable.py", PYG + "tojsonable.py", GOG + "fromjsonable.py", GOG + "tojsonable.py", CPG + "jsoncpp_impl.py"],
     [("copying of containers", PYG + "tojsonable.py:_SERIALIZE_ARRAY_TPL,_SERIALIZE_MAP_TPL")], ["generated parsers and serializers"])

prop("C25", "The command line succeeds exactly when it has written the code",
     "For every language, schema file, output directory and form of the arguments, the command line exits with zero exactly if it wrote the complete files of the language "
     "(creating the output directory with its parents, following links and overwriting older files); otherwise it exits with another code, tells on the standard error "
     "what is wrong (the missing schema file, the missing settings of the language, the offending definition) and leaves all existing files as they were.",
     ["inputs", "configurations"], "all invocations: languages, states of the schema file, output directories, spellings and orders of the options, both entry points",
     "Tests call the generators directly and never the command line.",
     ["mapry/main.py", "mapry/__main__.py", "docs/source/command_line_usage.rst"],
     [("dispatch", "mapry/main.py:run"), ("entry point", "mapry/main.py:entry_point")], ["mapry.main.run", "mapry.main.entry_point", "python -m mapry"])

prop("C26", "Generated Python code passes a strict type check",
     "For every schema accepted for Python, the generated package passes a strict static type check (apart from the placeholders which the code itself marks to be ignored): "
     "the annotations of attributes, arguments, variables and results are complete, name only what is defined and imported, and agree with each other and with the code.",
     ["programs"], "all schemas accepted for Python, all settings",
     "Only a live test checks a handful of schemas; goldens compare text.",
     [PYG + "types.py", PYG + "fromjsonable.py", PYG + "tojsonable.py", PYG + "parse.py", "tests/py/live_test_generate_jsonable.py"],
     [("types", PYG + "__init__.py:type_repr"), ("imports", PYG + "fromjsonable.py:_imports")], ["generated Python package"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
