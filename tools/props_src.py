COMMON_WHY = ("The existing tests parse about 300 hand-written schemas and check that the seven generators exit 0 on 57 "
              "schemas; the contents of what is generated is neither compiled nor compared, because the COMMS library is not available here. ")

prop("C01", "Generated C++ messages use exactly the wire format the schema declares",
 "For every schema the tool accepts, the generated C++ definition of a message decodes any byte sequence to the field values, status and "
 "consumed length the schema's serialization attributes (types, lengths, endianness, offsets, bit positions, count/length prefixes, element lengths, "
 "termination suffixes, padding, trimming and fixed sizes) prescribe, and encodes any field values to exactly the prescribed bytes. A default-constructed message holds and serializes the "
 "declared default values, and the generated minimal and maximal length constants equal the true ones.",
 ["inputs", "programs"], "every accepted schema (bounded attribute alphabets, exhaustively combined per field kind and nesting) x every input byte string over a bounded alphabet and length",
 COMMON_WHY + "A wrong option, width or constant in generated code compiles into nothing and stays unnoticed.",
 ["app/commsdsl2comms/src/CommsIntField.cpp", "app/commsdsl2comms/src/CommsEnumField.cpp", "app/commsdsl2comms/src/CommsSetField.cpp", "app/commsdsl2comms/src/CommsFloatField.cpp",
  "app/commsdsl2comms/src/CommsBitfieldField.cpp", "app/commsdsl2comms/src/CommsBundleField.cpp", "app/commsdsl2comms/src/CommsStringField.cpp", "app/commsdsl2comms/src/CommsDataField.cpp",
  "app/commsdsl2comms/src/CommsListField.cpp", "app/commsdsl2comms/src/CommsVariantField.cpp", "app/commsdsl2comms/src/CommsOptionalField.cpp", "app/commsdsl2comms/src/CommsField.cpp", "app/commsdsl2comms/src/CommsMessage.cpp",
  "lib/src/parse", "lib/src/gen"],
 mechanisms=[("option lists emitted per field", "app/commsdsl2comms/src/Comms*Field.cpp (field options)"), ("parsed attributes", "lib/src/parse/Parse*FieldImpl.cpp")],
 observe=["generated headers compiled and executed", "read/write/length/default values of every message"])

prop("C02", "Generated C++ reports a value valid exactly when the schema says it is valid",
 "For every accepted schema and every field value, the generated validity check of a field or message answers true exactly for the values the schema declares valid "
 "(valid values, ranges, minima/maxima, enum values, reserved bits, version-dependent ranges and valid conditions), and reading an invalid value fails exactly when the schema asks it to. "
 "Special values, enum value names, set bit names, fixed values, units, scaling and display names exposed by the generated code equal the declared ones.",
 ["inputs", "programs"], "every accepted schema over bounded validity/special/metadata attribute alphabets x every value of the (small) fields",
 COMMON_WHY + "No test evaluates a generated validity function or name table on any value.",
 ["app/commsdsl2comms/src/CommsIntField.cpp", "app/commsdsl2comms/src/CommsEnumField.cpp", "app/commsdsl2comms/src/CommsSetField.cpp", "app/commsdsl2comms/src/CommsFloatField.cpp",
  "app/commsdsl2comms/src/CommsStringField.cpp", "app/commsdsl2comms/src/CommsDataField.cpp", "app/commsdsl2comms/src/CommsOptionalField.cpp", "app/commsdsl2comms/src/CommsField.cpp",
  "lib/src/parse/ParseIntFieldImpl.cpp", "lib/src/parse/ParseEnumFieldImpl.cpp", "lib/src/parse/ParseSetFieldImpl.cpp", "lib/src/parse/ParseFloatFieldImpl.cpp"],
 mechanisms=[("valid ranges parsing and merging", "lib/src/parse/ParseIntFieldImpl.cpp"), ("valid options / valid() bodies", "app/commsdsl2comms/src/Comms*Field.cpp")],
 observe=["valid(), read status, specials and names of the compiled generated code"])

prop("C03", "Conditions and versions decide field presence exactly as declared",
 "In the generated code an optional field is read, written and refreshed as present exactly when its declared condition over sibling, interface and transport fields holds, and message-level construct/read/valid conditions "
 "accept exactly the messages they describe. Fields introduced or removed in some protocol version are present exactly for the peer versions in which they exist, for every combination of reported peer version, forced schema version and minimal remote version.",
 ["inputs", "programs", "configurations"], "every condition expression over a bounded grammar x every assignment of the small fields it mentions; every (since, deprecated, removed) assignment x every peer version x forced version x minimal remote version",
 COMMON_WHY + "Condition code and version checks are generated text that no test executes.",
 ["app/commsdsl2comms/src/CommsOptionalField.cpp", "app/commsdsl2comms/src/CommsBundleField.cpp", "app/commsdsl2comms/src/CommsMessage.cpp", "app/commsdsl2comms/src/CommsInterface.cpp",
  "lib/src/parse/ParseOptCondImpl.cpp", "lib/src/parse/ParseOptionalFieldImpl.cpp", "lib/src/parse/ParseMessageImpl.cpp", "lib/src/gen/GenSchema.cpp"],
 mechanisms=[("condition parsing", "lib/src/parse/ParseOptCondImpl.cpp"), ("condition code generation", "app/commsdsl2comms/src/CommsOptionalField.cpp"), ("version existence rules", "lib/src/gen/GenSchema.cpp")],
 observe=["optional modes after read()/refresh(), written bytes, construction and validity of messages"])

prop("C04", "Generated frames wrap and unwrap messages exactly as the declared layers say",
 "For every declared sequence of framing layers, the generated frame encodes a message to exactly the declared prefix/suffix fields (sync, id, size, value, checksum, payload) around its payload and decodes every byte string to the corresponding message or error. "
 "Encoding then decoding any message yields an equal message with everything consumed, and a corrupted sync, size, id or checksum is never accepted as a valid message.",
 ["inputs", "programs", "fault_sequences"], "every layer sequence accepted by the tool (bounded count and attribute alphabets) x every message x every truncation and single-byte corruption of the encoding",
 COMMON_WHY + "Frame code is never compiled or run by the tests.",
 ["app/commsdsl2comms/src/CommsFrame.cpp", "app/commsdsl2comms/src/CommsLayer.cpp", "app/commsdsl2comms/src/CommsChecksumLayer.cpp", "app/commsdsl2comms/src/CommsSizeLayer.cpp",
  "app/commsdsl2comms/src/CommsIdLayer.cpp", "app/commsdsl2comms/src/CommsSyncLayer.cpp", "app/commsdsl2comms/src/CommsValueLayer.cpp", "app/commsdsl2comms/src/CommsPayloadLayer.cpp", "app/commsdsl2comms/src/CommsCustomLayer.cpp",
  "lib/src/parse/ParseFrameImpl.cpp", "lib/src/parse/ParseLayerImpl.cpp", "lib/src/parse/ParseChecksumLayerImpl.cpp", "lib/src/parse/ParseSyncLayerImpl.cpp", "lib/src/parse/ParseValueLayerImpl.cpp"],
 mechanisms=[("layer parsing and ordering", "lib/src/parse/ParseFrameImpl.cpp"), ("layer stack generation", "app/commsdsl2comms/src/CommsFrame.cpp")],
 observe=["compiled frame read/write"])

prop("C05", "Every message is listed, created and dispatched by its id in the right bundles",
 "The generated message identifiers, input message lists (all, server, client, platform specific and extra bundles), message factories and dispatch functions of every namespace contain exactly the messages that are defined in it, selected for the bundle and travel in the corresponding direction, in ascending order of id and of the order attribute. "
 "For every id (and every index among messages sharing an id) the factories create and the dispatchers hand over exactly the message type that owns it, and any other id is reported as unknown.",
 ["inputs", "programs", "configurations"], "every assignment of ids, directions, platforms and selection options to a bounded set of messages x every id/index",
 COMMON_WHY + "Lists, factories and dispatch switches are generated text whose contents no test examines.",
 ["app/commsdsl2comms/src/CommsInputMessages.cpp", "app/commsdsl2comms/src/CommsDispatch.cpp", "app/commsdsl2comms/src/CommsMsgFactory.cpp", "app/commsdsl2comms/src/CommsMsgId.cpp", "lib/src/gen/GenGenerator.cpp", "lib/src/gen/GenNamespace.cpp", "lib/src/parse/ParseMessageImpl.cpp"],
 mechanisms=[("message sorting/selection", "lib/src/gen/GenGenerator.cpp"), ("bundles", "app/commsdsl2comms/src/CommsInputMessages.cpp")],
 observe=["compiled factories, dispatchers and tuples"])

prop("C06", "Whatever the tool accepts compiles, under every option combination",
 "When the C++ generator exits successfully, every header it wrote is self-contained, valid C++11 and compiles without diagnostics against the COMMS library API, whatever the schema contents and the command line options (customization level, main namespace override, "
 "forced version, minimal remote version, version-independent code, multiple schemas, extra bundles, forced namespace in options), as long as the names in the schema are not C++ keywords, standard macros or identifiers the generated code reserves for itself. The options structures shipped with the code apply to every field they claim to customize.",
 ["programs", "configurations"], "bounded schema families covering every field kind, nesting, naming, text and reference form x every combination of generator options",
 COMMON_WHY + "Nothing compiles the generated code.",
 ["app/commsdsl2comms/src", "lib/src/gen/comms.cpp", "lib/src/gen/util.cpp", "lib/src/gen/GenSchema.cpp", "lib/src/gen/GenNamespace.cpp"],
 mechanisms=[("include and scope computation", "lib/src/gen/comms.cpp"), ("default options generation", "app/commsdsl2comms/src/CommsDefaultOptions.cpp")],
 observe=["compiler verdict on every generated header"])

prop("C07", "Parsed model equals the schema: every attribute is reported as declared",
 "For every schema accepted by the parsing library, every element reports exactly the attribute values the schema gives it, with the documented defaults and inheritance (from parent, reused or referenced element) for those it does not give, numbers in any notation keeping their exact value over the full 64-bit range. "
 "A schema is accepted exactly when all its values are legal for their element (in range for the type, well formed, consistent with each other and with the schema and DSL version).",
 ["inputs", "programs"], "every combination of attribute values from boundary-value alphabets, per element kind",
 "The library tests sample about 300 schemas; they do not cover combinations of attributes, boundary values of each type/length, or inheritance chains.",
 ["lib/src/parse"],
 mechanisms=[("per-kind parsing", "lib/src/parse/Parse*FieldImpl.cpp"), ("number conversion", "lib/src/parse/parse_common.cpp")],
 observe=["public parse API: accept/reject and every getter"])

prop("C08", "Malformed schemas are rejected by every tool; no crash and no success",
 "A schema that breaks a rule (duplicate or illegal names and ids, missing required attributes, unresolvable or circular references, out-of-range or ill-formed values, wrong element in a place, unsupported by the requested DSL version) makes every generator print an error, exit with a failure status and generate nothing from it. "
 "No input file or command line, however malformed, makes a tool crash, hang or report success without having generated the complete output.",
 ["inputs", "programs"], "every single (and selected pairs of) mutation of a set of seed schemas: removing, duplicating, emptying or replacing each attribute and element with each value of a hostile alphabet; every command-line option error",
 "Tests give the generators only valid schemas, and the parser a fixed sample of invalid ones.",
 ["lib/src/parse", "lib/src/gen", "app"],
 mechanisms=[("validation on parse", "lib/src/parse"), ("exit status", "app/*/src/main.cpp, lib/src/gen/GenGenerator.cpp")],
 observe=["exit status, stderr, output directory"])

prop("C09", "Reuse, references and replacement equal the spelled-out definition",
 "An element defined by reusing, referencing, aliasing or copying from another one (fields, bundles, messages, interfaces, value constants; with overridden properties and replaced members) behaves in the parsed model and in the generated code exactly like the same element written out in full with its overrides applied. "
 "This holds for chains of reuse, across namespaces and schemas, and independently of unrelated elements; what the written-out form may not contain (dangling references between members, clashing names, a wrong validated length) is not accepted in the reusing form either. "
 "Versions (sinceVersion, deprecated, removed) are not reused, the type and length of a field cannot be overridden, valid ranges and values add to the reused ones, and what the bits of a set or the open ends of a range default to is settled where they are defined.",
 ["programs", "histories"], "every bounded schema using reuse/ref/copy constructs, paired with its expanded form",
 "Tests contain a few dozen reuse examples with direct expectations; combinations with overrides, chains and replacement are not covered, and no generated output is compared.",
 ["lib/src/parse/ParseFieldImpl.cpp", "lib/src/parse/ParseRefFieldImpl.cpp", "lib/src/parse/ParseMessageImpl.cpp", "lib/src/parse/ParseInterfaceImpl.cpp", "lib/src/parse/ParseBundleFieldImpl.cpp", "lib/src/parse/ParseNamespaceImpl.cpp", "lib/src/parse/ParseProtocolImpl.cpp"],
 mechanisms=[("reuse/replace", "lib/src/parse/ParseFieldImpl.cpp"), ("reference resolution", "lib/src/parse/ParseProtocolImpl.cpp, ParseNamespaceImpl.cpp")],
 observe=["parsed model dump of both forms", "generated code of both forms"])

prop("C10", "How a schema is spelled and split over files does not change the protocol",
 "Writing a property as an attribute or as a child element (with value attribute or text), changing the order of properties, wrapping elements in or out of their grouping elements, writing numbers in another notation, adding comments or whitespace, or splitting a schema over several files never changes the parsed model or the generated output. "
 "Nor does the order of definitions, as long as everything is defined before it is referenced.",
 ["programs", "inputs"], "every rewriting step applied at every applicable place of a set of seed schemas, to bounded depth",
 "Tests fix one spelling per schema.",
 ["lib/src/parse/ParseXmlWrap.cpp", "lib/src/parse/ParseFieldImpl.cpp", "lib/src/parse/ParseMessageImpl.cpp", "lib/src/parse/ParseNamespaceImpl.cpp", "lib/src/parse/ParseProtocolImpl.cpp", "lib/src/parse/ParseSchemaImpl.cpp", "lib/src/parse/parse_common.cpp"],
 mechanisms=[("properties collection", "lib/src/parse/ParseXmlWrap.cpp"), ("multi file merging", "lib/src/parse/ParseProtocolImpl.cpp")],
 observe=["parsed model dump", "generated files"])

prop("C11", "Generation is a deterministic function of the schema and the options",
 "Running any generator again on the same inputs - into a fresh directory, over its own previous output, from another working directory, with another absolute or relative spelling of the paths, locale or environment - produces byte-identical files. "
 "Nothing outside the output directory is created or modified, and files of the output directory that are not part of the output are left alone.",
 ["histories", "configurations"], "every generator x every history of up to 3 generation runs over a bounded set of schemas/options/locations",
 "Each test runs one generator once into an empty directory and ignores the contents.",
 ["lib/src/gen/GenGenerator.cpp", "lib/src/gen/util.cpp", "lib/src/gen/GenProgramOptions.cpp", "app"],
 mechanisms=[("file writing", "app/*/src/*.cpp genWrite"), ("directory creation", "lib/src/gen/GenGenerator.cpp")],
 observe=["file tree snapshots"])

prop("C12", "A failed write never goes unnoticed",
 "If any operation on the output (creating a directory, opening, writing, closing or copying a file) or reading of an input fails at any point of a generation run, the tool reports an error and exits with a failure status. A run that exits with success has written every output file completely.",
 ["fault_sequences", "crash_points"], "every file-system operation of the run, failed one at a time with each plausible error (and short writes), per generator",
 "Tests run only on a healthy file system.",
 ["lib/src/gen/GenGenerator.cpp", "lib/src/gen/GenProgramOptions.cpp", "app"],
 mechanisms=[("stream state checks after write", "app/*/src/*.cpp")],
 observe=["exit status and output tree under injected errors"])

prop("C13", "Custom code is injected exactly where it is documented to go",
 "Given a custom code directory, each file with an injection suffix (replace, extend, append, inc, public, protected, private, construct, read, write, length, valid, refresh, name, value and the _body forms) changes only the generated file it is named after, its content appears in it exactly once at the documented place and the default code it overrides is gone, and "
 "every other file is copied unchanged to the same relative place. Without such a file the output is identical to the one generated without a custom code directory, and namespace renaming does not disturb the injection.",
 ["inputs", "configurations"], "every element kind x every injection suffix, singly and in pairs, with and without main namespace override, per generator",
 "Two test schemas use injection and the result is never inspected.",
 ["lib/src/gen/GenGenerator.cpp", "lib/src/gen/util.cpp", "lib/src/gen/comms.cpp", "app/commsdsl2comms/src/CommsField.cpp", "app/commsdsl2comms/src/CommsMessage.cpp", "app/commsdsl2comms/src/CommsInterface.cpp"],
 mechanisms=[("snippet lookup", "lib/src/gen/GenGenerator.cpp"), ("placement", "app/commsdsl2comms/src/CommsField.cpp")],
 observe=["generated files"])

prop("C14", "The C interface behaves like the C++ definition it wraps",
 "For every accepted schema the C interface generated for it compiles as C and C++ against the generated C++ definition, exposes every selected message, field, interface and frame, and each C function (value access, validity, length, read/write via frame, dispatch to handler callbacks) has the same effect as the wrapped C++ operation. "
 "C enumerations, special values and error codes have the same numeric values as the C++ ones.",
 ["inputs", "programs"], "every schema of the bounded families x every C function x bounded argument alphabets",
 COMMON_WHY + "The C code is generated by the tests but never compiled.",
 ["app/commsdsl2c/src"],
 mechanisms=[("wrapper generation", "app/commsdsl2c/src/C*Field.cpp, CMessage.cpp, CFrame.cpp, CMsgHandler.cpp")],
 observe=["compiled C wrapper called next to the C++ definition"])

prop("C15", "Bindings cover the whole protocol and name only what exists in the C++ code",
 "The SWIG interface, the emscripten bindings, the CommsChampion tools plugin and the fuzz-test program generated for a schema mention every selected message, field, interface, frame and their operations, and every C++ entity they name exists in the C++ definition generated from the same schema with the signature they assume. "
 "Constant values they repeat (enum values, versions, ids) equal the declared ones.",
 ["programs", "configurations"], "every schema of the bounded families x the four generators x their options",
 COMMON_WHY + "Bindings are generated and thrown away by the tests.",
 ["app/commsdsl2swig/src", "app/commsdsl2emscripten/src", "app/commsdsl2tools_qt/src", "app/commsdsl2test/src"],
 mechanisms=[("wrapper generation", "app/commsdsl2swig/src, app/commsdsl2emscripten/src, app/commsdsl2tools_qt/src, app/commsdsl2test/src")],
 observe=["generated bindings compiled against the generated definition with recording stand-ins"])

prop("C16", "The LaTeX document describes the protocol completely and correctly",
 "The generated LaTeX lists every message, field, interface and frame of the schema with its id, type, length, endianness, default, valid values, enum values, bits, units and availability as declared, every cross reference resolves to exactly one label, and text taken from the schema is escaped so that it appears literally.",
 ["programs", "inputs"], "every schema of the bounded families x hostile text in every name/description position",
 "Tests check that pdflatex succeeds on 57 documents, not what they say.",
 ["app/commsdsl2latex/src"],
 mechanisms=[("escaping and labels", "app/commsdsl2latex/src/LatexGenerator.cpp"), ("tables", "app/commsdsl2latex/src/LatexField.cpp")],
 observe=["generated .tex files"])

prop("C17", "Command line options mean what their documentation says, in every combination",
 "Every documented option has its documented effect and no other, in short and long form, in any order, with any number of input files listed directly or through a list file with or without prefix; unknown options, missing values and malformed numbers are errors. "
 "Diagnostics respect the quiet and debug switches, and warnings turn into failures exactly when asked.",
 ["configurations", "inputs"], "every sequence of up to 4 option tokens from the option alphabet, per tool",
 "Tests use one fixed option set per generator.",
 ["lib/src/gen/GenProgramOptions.cpp", "lib/src/gen/GenLogger.cpp", "lib/src/gen/GenGenerator.cpp", "app/*/src/*ProgramOptions.cpp", "app/*/src/*Generator.cpp"],
 mechanisms=[("option parsing", "lib/src/gen/GenProgramOptions.cpp"), ("warnings as errors", "lib/src/gen/GenLogger.cpp")],
 observe=["exit status, stdout/stderr, output tree"])
