"""Source of /verif/properties.jsonl (run me after editing)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})

prop("C01", "Generated client modules always import and are fully resolved",
 "For every valid GraphQL schema and every set of named operations and fragments valid against it that stays within the supported query shapes, generation succeeds and produces a Python module that imports without error, whatever order types, fields, fragments and operations are written in. Every name the module uses is imported or defined, every model is fully resolved and usable immediately (recursive and mutually referencing types included), and every operation, fragment, referenced enum and referenced input yields its class. Unsupported query shapes (anonymous operations, fragments spread at the root, inline fragments on plain object positions, inline fragments nested in each other) are refused with an error rather than turned into wrong code.",
 ["inputs", "programs", "configurations"], "all schemas x documents x definition orders x (plugins, stylers, pydantic options) in the supported subset",
 "The tests generate code for about twenty fixed schemas in one definition order each; naming collisions, missing imports, wrong ordering or unresolved forward references only show for particular shapes and orders.",
 ["turms/run.py", "turms/registry.py", "turms/recurse.py", "turms/plugins/fragments.py", "turms/plugins/operations.py", "turms/plugins/inputs.py", "turms/plugins/enums.py"],
 [("class registry, imports and forward references", "turms/registry.py ClassRegistry"), ("fragment topological order", "turms/plugins/fragments.py"), ("field recursion", "turms/recurse.py")],
 ["turms.run.generate_ast output, executed as a module"])

prop("C02", "Every spec-conforming response is parsed without loss",
 "For every operation and every response a conforming server can return for it, the generated operation model accepts the response, and every value in it (nested objects, lists in order, nulls, enums, scalars, aliased fields, fields that @skip or @include leave out) is readable from the parsed model and survives serialisation back to the wire names unchanged. At union and interface positions the parsed object is the class generated for the object's actual type, exposing the fields the query selects for that type.",
 ["inputs", "programs"], "all valid (schema, document) pairs x all responses the GraphQL execution algorithm allows for them, including type unions, interfaces, fragments, aliases and nested lists",
 "Tests instantiate a handful of hand-written payloads; the guarantee ranges over all selection shapes and all responses, in particular combinations of null positions, list nesting and concrete runtime types.",
 ["turms/recurse.py", "turms/plugins/operations.py", "turms/plugins/fragments.py", "turms/registry.py"],
 [("field recursion per selection", "turms/recurse.py recurse_annotation"), ("typename discriminators", "turms/recurse.py, turms/utils.py")],
 ["<Operation>(**response), attributes, model_dump(by_alias=True)"])

prop("C03", "Response models are exactly as strict as the schema",
 "A response that violates the schema's declared nullability or types at a selected position - a null or missing value at a non-null position, an unknown enum value, a scalar, list or object of the wrong kind, an object of a type that cannot occur there - is rejected by the generated operation model, unless the position is below an interface and a catch-all for unknown types is enabled. Null is accepted at every nullable position, at every level of list nesting.",
 ["inputs", "programs"], "all valid (schema, document, response) triples x all single-point corruptions of the response",
 "Tests almost never feed invalid payloads; which positions must reject depends on the full type wrapping of each selected field.",
 ["turms/recurse.py", "turms/utils.py", "turms/plugins/operations.py", "turms/plugins/fragments.py"],
 [("list/non-null handling", "turms/recurse.py"), ("optional wrapping", "turms/registry.py reference_optional/list")],
 ["validation error or acceptance when constructing the operation model"])

prop("C04", "The document a client sends is valid, complete and means what was written",
 "The document attached to each generated operation and fragment parses, and an operation's document validates against the schema on its own, containing exactly that operation plus every fragment it uses directly or transitively, each once. Apart from the added __typename selections below the root, it selects exactly the fields, arguments, aliases, directives and variables the user wrote, and __typename is selected wherever a nested object, interface or union is selected.",
 ["inputs", "programs"], "all valid documents incl. nested fragment spreads, inline fragments, string/block/list/object arguments, directives, any fragment names",
 "Tests check presence of substrings for a few documents; completeness is a closure over arbitrary fragment graphs and literals.",
 ["turms/utils.py", "turms/plugins/operations.py", "turms/plugins/fragments.py", "turms/registry.py"],
 [("typename insertion and fragment collection", "turms/utils.py auto_add_typename_field_to_fragment_str, fragment_searcher, replace_iteratively")],
 ["<Operation>.Meta.document, <Fragment>.Meta.document"])

prop("C05", "Operation variables reach the wire exactly as given",
 "For every operation, building its arguments from any valid assignment of variables and serialising it the documented way yields a wire object with exactly the provided variables under their GraphQL names and values a server coerces to the intended input. Variables left out stay absent (schema or operation defaults are never sent on the client's behalf), an explicit null stays null, and omitting or nulling a required variable is rejected.",
 ["inputs", "programs"], "all variable definitions (any input type wrapping, defaults of any literal kind) x all valid assignments, omissions and nulls",
 "Tests cover a few hand-written calls; presence/absence/null combinations and type wrappings multiply.",
 ["turms/plugins/operations.py", "turms/plugins/inputs.py", "turms/utils.py"],
 [("argument models", "turms/plugins/operations.py"), ("no baked defaults", "turms/utils.py / operations.py")],
 ["<Operation>.Arguments(...) and its by_alias/exclude_unset serialisation"])

prop("C06", "Input objects serialise to the wire form the schema declares",
 "Every generated input model accepts every value valid for its GraphQL input type, by wire name and (where population by name is enabled) by Python name, and serialises to exactly the fields that were set, under their GraphQL names, recursively through nested and self-referencing inputs, lists and enums. Fields that are required without default must be given and non-null; all others may be omitted or null, and defaults are never filled in by the client.",
 ["inputs", "programs"], "all input type graphs (recursive, nested lists, defaults, deprecated fields, reserved field names) x all values of them",
 "Tests exercise a few input types with a few values; aliasing, recursion and optionality have to be right for every field and combination.",
 ["turms/plugins/inputs.py", "turms/registry.py", "turms/stylers/base.py"],
 [("input model generation", "turms/plugins/inputs.py"), ("field aliasing", "turms/registry.py generate_node_name")],
 ["<Input>(...), validation errors, model_dump(by_alias=True, exclude_unset=True, mode='json')"])

prop("C07", "@oneOf inputs send exactly one tagged field",
 "For a oneOf input type, every member can be supplied and is serialised on the wire as an object with exactly the one chosen field under its GraphQL name and with the caller's payload inside, at every position such an input may occupy (variable, nested field, list element, inside another oneOf). Client-side values that set no field are rejected. A oneOf type that breaks the specification (non-null field, default value) is refused at generation time.",
 ["inputs", "programs"], "all oneOf shapes (distinct input members, scalars, enums, lists, duplicates, nested oneOf, recursion) x positions x members x values",
 "Tests check two schemas; the tagging has to be right for every member at every position, including overlapping member shapes.",
 ["turms/plugins/inputs.py", "turms/utils.py"],
 [("oneOf union / wrapper generation", "turms/plugins/inputs.py")],
 ["wire dump of Arguments and input models containing oneOf values"])

prop("C08", "Discriminated input unions select and emit the right member",
 "For input types combined into a union by directive, every member value serialises with the discriminator key its declaration names, even though callers never set it and unset values are dropped, and raw data carrying a discriminator is parsed into exactly the member with that key. Members of several unions work in each, non-members and unknown keys are rejected.",
 ["inputs", "programs"], "all unions x members x keys x positions (nullable, list, nested) x values",
 "Tests check one schema; membership and discriminators are per-declaration data.",
 ["turms/plugins/inputs.py", "turms/utils.py"],
 [("unionElementOf handling", "turms/plugins/inputs.py")],
 ["parsing and wire dump of inputs and Arguments"])

prop("C09", "Generated functions forward exactly what the caller passed",
 "Calling the generated function of an operation invokes the configured executor exactly once with that operation's class, a variables mapping holding exactly the arguments the caller provided (omitted ones absent, explicit None kept) keyed so that the operation's arguments model accepts them, and the configured extra arguments in order. The result returned or yielded is the executor's result, or its only field when single-field results are collapsed; sync, async and subscription functions behave alike, and parameters required by the schema are required.",
 ["inputs", "programs", "configurations"], "all operations x all call patterns (positional, keyword, omitted, None) x function definitions (sync/async, global and per-definition extra args, collapse, expanded inputs, prefixes)",
 "Tests compile functions and call few of them; argument subsets and configuration combinations are not enumerated.",
 ["turms/plugins/funcs.py"],
 [("function generation", "turms/plugins/funcs.py"), ("UNSET sentinel", "turms/registry.py / funcs.py")],
 ["calls recorded by an executor stub passed as the proxy"])

prop("C10", "Input factories are equivalent to building the model",
 "For every generated input factory and every subset of its parameters, the factory returns a model equal in content and set-fields to the input model built directly with those fields; parameters left out stay unset, None stays null, and fields the schema requires are mandatory. Expanding an input type into an operation function's parameters gives the same wire variables as passing that input.",
 ["inputs", "programs", "configurations"], "all input types x parameter subsets x values x prefix/coercion configuration",
 "Tests call a few factories; equivalence must hold for every field subset.",
 ["turms/plugins/input_funcs.py", "turms/plugins/funcs.py"],
 [("factory generation", "turms/plugins/input_funcs.py"), ("expand_input_types", "turms/plugins/funcs.py")],
 ["factory results vs. model construction"])

prop("C11", "Enums carry every value and only the schema's wire names",
 "Each generated enum has exactly one distinct member per value of the GraphQL enum, whose value is the GraphQL name, in order of definition, whatever the names are (Python keywords and builtins included). Enum fields accept exactly those wire values, from strings or members, and always serialise back to the wire name.",
 ["inputs", "programs", "configurations"], "all enum definitions (incl. Python keywords, soft keywords, dunder-free awkward names) x stylers x prefix options",
 "Tests use a few enums; name handling depends on the actual names.",
 ["turms/plugins/enums.py", "turms/registry.py", "turms/stylers/base.py"],
 [("enum generation", "turms/plugins/enums.py"), ("keyword escaping", "turms/registry.py")],
 ["members of the generated enum classes, parse/serialise through models"])

prop("C12", "Styling changes Python names only, never the wire",
 "Applying any stack of name stylers leaves the behaviour on the wire unchanged: the same responses are accepted with the same values, the same variables serialise to the same wire objects and documents are semantically identical to unstyled generation. Names that are Python keywords, builtins or attributes of pydantic models stay reachable under their GraphQL name on the wire, as long as the styled names of one type's fields are distinct.",
 ["inputs", "programs", "configurations"], "all styler stacks x all GraphQL names x all values",
 "Tests run a styler or two on fixed names and compare nothing with unstyled output.",
 ["turms/stylers/base.py", "turms/stylers/snake_case.py", "turms/stylers/capitalize.py", "turms/stylers/default.py", "turms/stylers/appender.py", "turms/registry.py"],
 [("name styling and aliasing", "turms/registry.py, turms/stylers/*")],
 ["differential run: styled vs. unstyled module"])

prop("C13", "Only-referenced generation yields exactly the reachable types",
 "With skipping of unreferenced types on, the enums and inputs generated are exactly those reachable from the documents - through variables (transitively through input fields) and through selected fields, including fields selected in fragments and inline fragments at any depth; with skipping off, all of the schema's are generated. The two modes never differ in behaviour for the types they share.",
 ["inputs", "programs", "configurations"], "all schemas x documents x skip settings",
 "One test on one schema; reachability is a transitive closure over arbitrary type graphs and nested selections.",
 ["turms/referencer.py", "turms/plugins/enums.py", "turms/plugins/inputs.py", "turms/plugins/input_funcs.py"],
 [("reference registry", "turms/referencer.py")],
 ["set of generated classes vs. an independent closure computation"])

prop("C14", "Generation is deterministic",
 "The same schema, documents and configuration always give byte-identical output: across repeated runs in one process, across processes with different hash seeds, and independent of the order the file system lists document files in.",
 ["inputs", "programs", "schedules"], "all inputs x hash seeds x file listing orders x preceding generations in the same process",
 "Tests run generation once per process with one hash seed and never compare two outputs.",
 ["turms/run.py", "turms/registry.py", "turms/utils.py", "turms/plugins/*.py"],
 [("sorted file globbing and sorted emission", "turms/utils.py parse_documents, turms/registry.py")],
 ["generated source text"])

prop("C15", "Freeze and model options take effect exactly where configured",
 "When freezing is configured, instances of every generated model of the selected kinds - narrowed and widened by excluded and included type names - reject attribute assignment and, with list conversion, hold tuples, are hashable and equal by value; models not selected (and not inheriting from a selected one) stay mutable. Model options (extra fields policy, assignment validation, enum values, population by name) take effect on exactly the selected kinds. Neither setting changes which valid responses or variables are accepted or how they serialise, beyond what the option itself says.",
 ["inputs", "programs", "configurations"], "all freeze/options settings x all generated model kinds x values",
 "The freeze tests need the network and sample one configuration; the matrix of kinds, include and exclude lists is not covered.",
 ["turms/config.py", "turms/utils.py", "turms/recurse.py", "turms/plugins/inputs.py", "turms/plugins/fragments.py", "turms/plugins/operations.py", "turms/plugins/objects.py"],
 [("pydantic config generation", "turms/utils.py generate_pydantic_config"), ("list to tuple conversion", "turms/registry.py reference_list, turms/config.py FreezeConfig")],
 ["setattr, hash, equality, validation on generated models"])

prop("C16", "Merging regenerated code keeps hand-written work and is idempotent",
 "Merging newly generated code into an existing file keeps every hand-written definition, member and function body of the existing file, adds every newly generated import, definition, class member and enum value exactly once, and refreshes the signatures and decorators of functions and the annotations and values of class attributes that were generated again, while class headers and module-level assignments stay as they are. The result is valid Python, and merging the same code again changes nothing.",
 ["inputs", "histories"], "all pairs (existing module, regenerated module) and sequences of merges",
 "One file pair is compared with a stored result.",
 ["turms/processors/merge.py"],
 [("class/function level merge", "turms/processors/merge.py merge_code")],
 ["merge_code output, MergeProcessor on a project's output file"])

prop("C17", "Post-processing never changes what the generated code means",
 "Formatting, sorting imports, linting fixes, target-version rewriting and the disclaimer leave the generated module's behaviour unchanged: same classes, same validation, same wire results, with the disclaimer on top, and code rewritten for an older Python no longer uses typing names that version lacks. An external formatting command receives the code on its input and its output is used verbatim; if it fails, the run fails and no output is written.",
 ["inputs", "programs", "configurations", "fault_sequences"], "all generated modules x processor and parser stacks x command outcomes",
 "Tests run processors on one file and look at exit status.",
 ["turms/processors/black.py", "turms/processors/isort.py", "turms/processors/ruff.py", "turms/processors/disclaimer.py", "turms/processors/command.py", "turms/parsers/polyfill.py", "turms/run.py"],
 [("processor pipeline", "turms/run.py generate_code")],
 ["AST and behaviour of processed vs. unprocessed module"])

prop("C18", "Generated Strawberry schemas reproduce the source schema",
 "For every supported schema, the generated Strawberry module executes and the schema it builds has the same object, interface, union, enum and input types, with the same fields, arguments, defaults, type wrappings, interface implementations, descriptions, deprecations and applied custom directives as the source (identifiers when ID is mapped to Strawberry's). Names keep their GraphQL spelling whatever the Python names are.",
 ["inputs", "programs"], "all SDL schemas in the supported subset (objects, interfaces, unions, enums, inputs, scalars, directives, descriptions, deprecation, root types)",
 "Tests only compile the module for a couple of schemas.",
 ["turms/plugins/strawberry.py"],
 [("SDL to strawberry translation", "turms/plugins/strawberry.py")],
 ["strawberry.Schema(...).as_str() parsed back and compared with the source schema"])

prop("C19", "Object models mirror the schema's object types",
 "The models generated straight from schema types have, for every object and interface type, a field for each schema field with its wire name, accept every value valid for the type and serialise it back unchanged, reject null at non-null fields, and resolve interface- and union-typed fields to concrete types that fit the data. Inheritance mirrors the schema's interface implementations.",
 ["inputs", "programs"], "all schemas (recursive objects, multiple interfaces, unions, lists) x values",
 "Tests generate them for fixed schemas and rarely instantiate them.",
 ["turms/plugins/objects.py", "turms/registry.py"],
 [("object type generation", "turms/plugins/objects.py")],
 ["generated object classes"])

prop("C20", "Equivalent configurations mean the same, bad ones are refused",
 "A project configuration expressed as YAML, JSON or TOML, in the single- or multi-project layout, from a named or an auto-discovered file, yields the same project settings. Unknown keys, wrong types, missing or several discovered files, unknown projects and unimportable components are reported as errors instead of being ignored. Environment variables (TURMS_* and the TURMS_FREEZE_*, TURMS_OPTIONS_*, TURMS_PLUGINS_*, TURMS_STYLERS_*, TURMS_PROCESSORS_* groups) fill settings the file leaves out and never override what it states.",
 ["inputs", "configurations"], "all configurations x encodings x layouts x single mutations x environment settings",
 "Tests load a few stored files; equivalence and rejection range over all settings.",
 ["turms/run.py", "turms/config.py", "turms/cli/main.py", "turms/helpers.py"],
 [("config scanning and loading", "turms/run.py scan_folder_for_configs, load_projects_from_configpath"), ("strict settings", "turms/config.py")],
 ["loaded project objects, CLI exit status"])

prop("C21", "A failing project never damages outputs or stops the others",
 "When generating several projects, each project whose inputs are valid is written exactly as if it were generated alone, regardless of which other projects fail, why and in which order. A project that fails leaves its previously generated files byte-for-byte unchanged and writes nothing, is reported, and makes the run exit non-zero when configured to exit on error. Once its fault is repaired it is generated as if it had never failed.",
 ["configurations", "fault_sequences", "histories"], "all sets of projects x failure causes (schema, document, scalar, component, processor errors) x orders x repeated runs",
 "Tests generate one or two projects that succeed or fail at load time; no test checks prior output after a failure.",
 ["turms/cli/main.py", "turms/run.py"],
 [("per-project error handling and writing", "turms/cli/main.py generate_projects")],
 ["files in the output directories, exit status and output of 'turms gen'"])

prop("C22", "Every way of supplying a schema or documents gives the same result",
 "A schema given as one SDL file, as several files through a glob or a list, or as an introspection result from an endpoint (with the configured headers sent) yields the same generated code, apart from what introspection cannot carry (applied custom directives, deprecated inputs); documents may likewise be split over any number of files in any order, with comments, byte-order or line-ending variations, without changing which classes are generated or what they mean. Downloading a schema writes SDL that builds an equivalent schema.",
 ["inputs", "configurations"], "all schemas/documents x partitions into files x source kinds",
 "Tests load each source kind once.",
 ["turms/run.py", "turms/helpers.py", "turms/utils.py", "turms/cli/main.py"],
 [("schema building", "turms/run.py build_schema_from_schema_type"), ("document parsing", "turms/utils.py parse_documents")],
 ["generated code / schema for each variant"])

prop("C23", "Invalid documents are refused, omitted rules relax only themselves",
 "A document that breaks any GraphQL validation rule makes generation fail with an error instead of producing code, as does a schema with syntax errors, unresolvable type references or (where documents are used or the schema is assembled from several sources) invalid definitions, and a custom scalar without a Python type wherever the code needs one. Omitting a validation rule by name relaxes only that rule: documents breaking another rule are still refused and valid documents generate the same code.",
 ["inputs", "configurations"], "all single-fault mutations of valid documents and schemas x sets of omitted rules",
 "Tests contain two invalid documents and one omitted rule.",
 ["turms/run.py", "turms/utils.py", "turms/rules.py", "turms/registry.py"],
 [("validation with configurable rules", "turms/rules.py, turms/utils.py parse_documents")],
 ["exception or code from generation"])

prop("C24", "Configured bases and unknown implementations work everywhere",
 "Every configured base class - global, per GraphQL object, interface or input type, per interface position, per operation kind, per fragment - appears in the ancestry of every model generated for that kind or type, nested selections and fragments included, and takes precedence over default bases. With catch-all enabled, an interface value of a type the local schema does not know is still parsed, with its shared fields readable, instead of being rejected.",
 ["inputs", "programs", "configurations"], "all base settings x all places a type is selected x unknown runtime types",
 "Tests apply one or two bases and one catch-all.",
 ["turms/config.py", "turms/recurse.py", "turms/registry.py", "turms/plugins/fragments.py", "turms/plugins/operations.py", "turms/plugins/objects.py", "turms/plugins/inputs.py"],
 [("base class retrieval", "turms/utils.py / turms/registry.py get_additional_bases"), ("catch-all class", "turms/recurse.py")],
 ["method resolution order of generated classes; parsing of unknown __typename"])

prop("C25", "Schema metadata is preserved and never alters behaviour",
 "Schema defaults and deprecation reasons are attached to the generated fields and arguments as introspectable markers with the exact reason or text of the default, descriptions become documentation, and fields without them carry none. Any description text - quotes, backslashes, newlines, unicode - is harmless, and generating with and without such metadata gives models with identical validation and wire behaviour.",
 ["inputs", "programs", "configurations"], "all descriptions/default literals/deprecation reasons x marker configuration",
 "Tests check a few markers with plain text.",
 ["turms/plugins/inputs.py", "turms/plugins/operations.py", "turms/plugins/objects.py", "turms/recurse.py", "turms/registry.py", "turms/utils.py"],
 [("Annotated markers", "turms/registry.py / turms/utils.py")],
 ["field metadata and docstrings of generated classes"])

prop("C26", "Configured scalars drive parsing and serialisation at every position",
 "A custom scalar mapped to a Python type is parsed into that type wherever it occurs - response fields, lists, fragments, variables and input fields - refuses what the type refuses and serialises back to an equivalent wire value; built-in scalars parse to their Python counterparts and can be remapped in the same way. A coercible type configured for a scalar (or input type) is accepted by generated functions and factories, annotates their parameters and arrives on the wire as the scalar's value.",
 ["inputs", "programs", "configurations"], "all scalar mappings (builtin and dotted types) x positions x values",
 "Tests map scalars to str/Any and instantiate little.",
 ["turms/registry.py", "turms/config.py", "turms/plugins/funcs.py", "turms/plugins/input_funcs.py"],
 [("scalar resolution", "turms/registry.py reference_scalar"), ("coercible scalars", "turms/plugins/funcs.py, input_funcs.py")],
 ["python types of parsed values, wire dumps, parameter annotations"])

prop("C27", "A watched project is kept up to date with its documents",
 "While a project is watched, after every reported change to a file its documents pattern matches - whatever the file's name, and whether it was added, edited, renamed or removed - the generated file is what a plain generation from the present files writes. A change that makes generation fail leaves the generated file as it was and does not end the watching: the next valid state is generated again. Nothing but the generated file is touched.",
 ["histories", "fault_sequences"], "all histories of valid and invalid document, schema and unrelated file edits x documents patterns x plugin and processor stacks",
 "No test runs watch mode.",
 ["turms/cli/main.py", "turms/cli/watch.py", "turms/run.py"],
 [("filter of changes", "turms/cli/watch.py GraphQLFilter, stream_changes"), ("regeneration loop", "turms/cli/main.py watch_projects")],
 ["the generated file after each batch of changes; turms watch staying alive"])

prop("C28", "Starter templates give working projects",
 "Whatever optional tools are installed, every starter template that init offers writes a configuration using only those, from which generation from any supported schema and documents in the places it names gives an importable module: models for every operation, with client templates functions that execute each operation through the project's executors and the given client. A configuration that is already there is replaced only after confirmation. The server template's module builds the source schema, and as the schema grows, regenerating keeps the resolver bodies and other code written by hand, follows the new schema and repeats without changes.",
 ["programs", "histories", "configurations"], "all templates x installed formatters x schemas and documents x histories of resolver edits and additive schema changes",
 "Tests check the keys of the templates' configurations and generate from one example.",
 ["turms/cli/main.py", "turms/processors/merge.py", "turms/plugins/strawberry.py", "turms/plugins/funcs.py", "turms/processors/disclaimer.py"],
 [("templates", "turms/cli/main.py build_*_template, init"), ("merge on regenerate", "turms/processors/merge.py")],
 ["files written by turms init and turms gen, generated modules executed"])

prop("C29", "Annotations of the generated client are true",
 "Every parameter, result and attribute of the generated code is annotated, the annotations resolve, and they say what the schema says: optional exactly where null is allowed (results and attributes also where @skip or @include may leave the field out), lists where it has lists, the configured Python type of a scalar, the generated class of an enum or input; never a bare Any for these. What generated functions return or yield (whole results, the only field under collapse_lonely, iterators of subscriptions, sync and async), the attributes of parsed responses and of input models, including those left out, and all defaults of parameters (the unset marker included) are values of their annotations, also for expanded inputs, factories and list-to-tuple conversion.",
 ["inputs", "programs", "configurations"], "all schemas x documents x function definitions x responses and calls",
 "Tests run the generated code but never compare its annotations with the schema or with the values.",
 ["turms/plugins/funcs.py", "turms/plugins/input_funcs.py", "turms/plugins/inputs.py", "turms/utils.py", "turms/recurse.py", "turms/plugins/operations.py"],
 [("parameter and result annotations", "turms/plugins/funcs.py generate_parameters, get_return_type_annotation; turms/utils.py recurse_type_annotation, recurse_outputtype_annotation"), ("single-field operations", "turms/registry.py register_operation_single")],
 ["typing.get_type_hints and inspect.signature of generated functions, model_fields, returned values"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
