"""Single source for properties.jsonl and MANIFEST.json (python3 tools/meta.py rewrites both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    PROPS.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe or [], "hook_needed": None},
    })


L = "edk2toollib/"
BIN = [L + x for x in ("acpi/ivrs_parser.py", "acpi/dmar_parser.py", "uefi/authenticated_variables_structure_support.py",
                       "uefi/wincert.py", "uefi/fmp_capsule_header.py", "uefi/fmp_auth_header.py",
                       "uefi/uefi_capsule_header.py", "uefi/edk2/fmp_payload_header.py", "uefi/edk2/variable_format.py",
                       "uefi/edk2/variable_policy.py", "uefi/edk2/ftw_working_block_format.py",
                       "uefi/pi_firmware_volume.py", "uefi/pi_firmware_file.py", "uefi/bmp_object.py",
                       "uefi/device_path.py", "windows/policy/firmware_policy.py", "tpm/tpm2_stream.py")]

prop("B01", "ACPI remapping tables: every field sits at its published offset",
     "For every ACPI DMAR and IVRS table, remapping structure, device scope and device entry the library handles, decoding takes each field from its published offset, width and little-endian order, and encoding (where offered) puts that same field back at that same place. No field is dropped, swapped or narrowed by a decode/encode round trip.",
     ["inputs"], "all byte strings accepted by the decoders, all values of every field",
     "Tests decode a few captured tables whose fields are mostly zero or equal, so swapped, narrowed or shifted fields of equal value stay invisible; the layout must hold for every value.",
     BIN[:2], [("IVRS header/IVHD/IVMD/DTE Decode and Encode", "edk2toollib/acpi/ivrs_parser.py"), ("DMAR header/DRHD/RMRR/ATSR/RHSA/ANDD/DeviceScope construction", "edk2toollib/acpi/dmar_parser.py")],
     ["decoded attributes", "Encode() bytes"])
prop("B02", "Firmware, capsule and variable-store structures have one wire layout",
     "For every UEFI capsule, FMP, firmware-volume, firmware-file, variable-store, variable, fault-tolerant-write, variable-policy, device-path and bitmap structure, decoding takes each field from its published offset, width and byte order, and encoding emits the same fields in the same places. Decoding the encoder's output gives back every field.",
     ["inputs"], "all field values and all byte strings accepted by the decoders",
     "Unit tests round-trip one or two instances; a symmetric swap, a sign or width change or an offset error for a field that is zero in the sample passes them.",
     BIN[4:15], [("Encode/Decode, write/load_from_file, serialize/populate pairs", "the anchored modules")],
     ["decoded attributes", "encoded bytes"])
prop("B03", "Security structures (auth variables, WinCert, TPM, policy) have one wire layout",
     "For every authenticated-variable, signature-list, certificate, TPM command/response and Windows firmware-policy structure, decoding takes each field from its published offset, width and byte order (TPM big-endian, all others little-endian), and encoding emits the same fields in the same places. Decoding the encoder's output gives back every field.",
     ["inputs"], "all field values, all nesting of lists, all byte strings accepted by the decoders",
     "The samples in the tests cover a handful of certificates and policies; the guarantee is for every field value and list shape.",
     [BIN[2], BIN[3], BIN[15], BIN[16]], [("encode/decode pairs, TPM2_COMMAND.marshal, TpmStream, FirmwarePolicy serialize/deserialize", "the anchored modules")],
     ["decoded attributes", "encoded bytes"])
prop("B04", "Decoding into a used object leaves nothing of its earlier content",
     "After a decode, load or populate call on an object that already held data has succeeded, every field, flag and child list observable on that object is determined by the newly decoded bytes and constructor configuration alone. Nothing of the previous content survives or is accumulated.",
     ["histories", "inputs"], "every sequence of decode calls on one object",
     "Tests decode once into a fresh object; reuse after a richer input is a history they never run.",
     BIN, [("Decode/decode/load_from_file/populate functions assigning every attribute", "the anchored modules")])
prop("B05", "Size, length, count and checksum fields track every mutation",
     "After any public operation that adds, removes or replaces children or payload of a binary structure, the structure's size, length, count, offset and checksum fields are exactly those of the bytes it would now encode to. Decoding and then mutating gives the same bookkeeping as building from scratch.",
     ["histories", "inputs"], "every sequence of add/remove/update/encode/dump calls on one structure",
     "Tests build one structure with one or two children; the bookkeeping must hold after every history of mutations.",
     [BIN[0], BIN[1], BIN[2], BIN[3], BIN[4], BIN[5], BIN[6], BIN[7], BIN[8], BIN[15], BIN[16]],
     [("AddIVMDEntry/AddDTEEntry/updateACPISum, EfiSignatureList.append_*, WinCert.add_cert_data, FmpCapsuleHeader.Add*, TPM2_COMMAND.update_size, variable set_name/set_data, policy set_name", "the anchored modules")])
prop("B06", "Malformed binary input is rejected, not misread",
     "When a signature, GUID, type, version, revision, checksum, reserved field or length field of the input contradicts the format, or the input is shorter than the structure it announces, decoding raises an error or reports invalid before any value derived from it is used. No malformed header is silently accepted as a valid structure.",
     ["inputs"], "all byte strings, including truncated and corrupted ones",
     "Tests feed a few malformed samples; the rejection must hold for each field and each boundary length.",
     BIN, [("guards that raise in the decoders", "the anchored modules")])
prop("B07", "Parsing terminates on every input",
     "Every loop that consumes untrusted bytes or lines makes strict progress in each iteration or leaves the loop, and every walk up a directory tree stops at the root. No input, however corrupted, can make the library loop or recurse forever.",
     ["inputs", "configurations"], "all inputs of every decoder and parser; all directory layouts",
     "A hang shows only for inputs such as a zero length field or a path at the root that the tests do not contain.",
     BIN + [L + "uefi/edk2/path_utilities.py", L + "uefi/edk2/parsers/fdf_parser.py", L + "uefi/edk2/parsers/dsc_parser.py", L + "uefi/edk2/parsers/base_parser.py"],
     [("while loops and recursion of the decoders and parsers", "the anchored modules")])
prop("B08", "Observing an object never changes it",
     "Encoding, writing out, printing, dumping, comparing, hashing, measuring, converting to text or calling a getter leaves the object, its children and the caller's arguments unchanged, apart from the derived size, count, offset and re-encoded payload fields that encoding recomputes. Repeating an observation gives the same result.",
     ["histories"], "every interleaving of observer calls with other operations on one object",
     "Tests observe once and never compare the object before and after; a hidden mutation only shows on the second call.",
     BIN + [L + "uefi/edk2/build_objects/dsc.py", L + "uefi/edk2/guid_list.py", L + "log/junit_report_format.py", L + "uefi/edk2/path_utilities.py"],
     [("Encode/encode/write/Print/DumpInfo/get_*/__eq__/__str__ functions", "the anchored modules")])
prop("B09", "Separate objects and calls share no mutable state",
     "Two objects of the same class, or two calls of the same function, never influence each other: no mutable default argument, class-level or module-level container is changed by one instance or call and seen by another, and no default computed from a clock or random source is frozen at import time. Lists handed to or returned from shared tables are copies.",
     ["histories"], "every sequence of object creations and calls in one process",
     "Each test uses fresh processes or unrelated objects; leakage between instances needs a specific history.",
     [L + "uefi/authenticated_variables_structure_support.py", L + "uefi/edk2/guid_list.py", L + "uefi/device_path.py", L + "uefi/edk2/parsers/inf_parser.py", L + "uefi/edk2/parsers/base_parser.py", L + "uefi/edk2/build_objects/dsc.py", L + "acpi/ivrs_parser.py", L + "acpi/dmar_parser.py", L + "database/edk2_db.py"],
     [("default arguments, class attributes and module tables", "all modules")])
prop("S01", "What is signed, hashed or authorised is exactly what is emitted",
     "The data handed to a signature or digest computation for an authenticated variable covers name, vendor GUID, attributes, time and payload in the specified order, encoded exactly as the emitted structure encodes them, whatever was set before or after. TPM policy digests extend the running digest with the command code and arguments in the order and byte order the TPM specification prescribes, and signature-presence queries compare like with like.",
     ["inputs", "histories"], "all names, payloads, times, attributes and policy trees",
     "Tests compare a few golden digests; the coverage of every field for every input and the update order after set/replace is a claim about all of them.",
     [L + "uefi/authenticated_variables_structure_support.py", L + "tpm/tpm2_policy_calc.py", L + "uefi/fmp_auth_header.py", L + "tpm/tpm2_simulator.py"],
     [("digest construction, set_payload/update_payload, PolicyTree digests, IsSigned", "the anchored modules")])
prop("T01", "Constant tables agree with the specifications and with each other",
     "Status codes, TPM command/response/algorithm/handle codes, variable attribute bits, GUIDs, signatures, structure sizes and device-path type tables carry their specified values, and tables meant to be inverse or injective are. Every symbolic name a converter accepts or prints maps to the right number in both directions.",
     ["inputs"], "every entry of every table",
     "Tests look up two or three entries of tables with hundreds.",
     [L + "uefi/status_codes.py", L + "tpm/tpm2_defs.py", L + "uefi/uefi_multi_phase.py", L + "uefi/device_path.py", L + "uefi/wincert.py", L + "uefi/edk2/variable_format.py", L + "uefi/edk2/ftw_working_block_format.py", L + "acpi/ivrs_parser.py", L + "acpi/dmar_parser.py", L + "windows/policy/firmware_policy.py", L + "uefi/uefi_types.py"],
     [("module-level and class-level constant tables", "the anchored modules")])
prop("P01", "Lines in an inactive conditional block have no effect",
     "In DSC, FDF and the other conditional-aware formats, a line inside a branch whose condition is false changes nothing: no define, section, component, library, include, error or output comes from it. Conditional directives themselves are still tracked while inactive, so nesting is never lost.",
     ["inputs"], "all files and all nestings of conditionals and sections",
     "Tests contain a few hand-written conditionals around some of the statement kinds; the rule must hold for each statement kind and nesting.",
     [L + "uefi/edk2/parsers/base_parser.py", L + "uefi/edk2/parsers/dsc_parser.py", L + "uefi/edk2/parsers/fdf_parser.py"],
     [("InActiveCode gate in each line loop, ProcessConditional", "the anchored modules")])
prop("P02", "Conditional nesting follows strict stack discipline",
     "Every opening conditional pushes exactly one level, else and elseif switch the innermost level only, and endif pops exactly one level; a level nested in an inactive one is never active. At most one branch of an if/elseif/else chain is active, and an else, elseif or endif without an open conditional is reported as an error.",
     ["inputs"], "all sequences of conditional directives",
     "Tests use nesting depth two or three with fixed truth values; the discipline must hold for every directive sequence.",
     [L + "uefi/edk2/parsers/base_parser.py"],
     [("PushConditional/PopConditional/ProcessConditional/InActiveCode", L + "uefi/edk2/parsers/base_parser.py")])
prop("P03", "Each parser fills every result from the right section and starts clean",
     "Each line of an INF, DEC, DSC, FDF, GUID, override, build-report or target.txt file affects only the results of the section or record it stands in, and comments and blank lines affect none. Resetting a parser clears all conditional, section and position state, and section state never leaks past the next section header.",
     ["inputs", "histories"], "all files and all sequences of parses with one parser",
     "Tests parse one small file per feature with a fresh parser.",
     [L + "uefi/edk2/parsers/" + x for x in ("base_parser.py", "dsc_parser.py", "fdf_parser.py", "inf_parser.py", "dec_parser.py", "targettxt_parser.py", "override_parser.py", "buildreport_parser.py", "guid_parser.py")],
     [("section flags and ResetParserState in the parsers", "the anchored modules")])
prop("P04", "Missing or malformed text input raises the documented error or default",
     "A file that cannot be found, a truncated record or a malformed line makes a parser raise a descriptive error or apply its documented default; it never continues with an unset value, an unrelated exception, or a half-updated result. Include files that cannot be found are reported and never silently dropped unless configured so.",
     ["inputs", "configurations"], "all lines and all missing-file configurations",
     "Tests feed well-formed lines; each accessor of an optional match, split part or lookup needs its absent case.",
     [L + "uefi/edk2/parsers/" + x for x in ("base_parser.py", "dsc_parser.py", "fdf_parser.py", "inf_parser.py", "dec_parser.py", "targettxt_parser.py", "override_parser.py", "buildreport_parser.py", "guid_parser.py")] + [L + "gitignore_parser.py", L + "uefi/edk2/path_utilities.py", L + "database/tables/instanced_inf_table.py"],
     [("None checks, split-arity checks and index guards in the parsers", "the anchored modules")])
prop("D01", "A table parse is recorded all or nothing and its session always ends",
     "Each table parse of a database run works in one session that is committed exactly once, after that table's parser has returned, and is rolled back when it raises; the error then reaches the caller. Sessions are closed on every path and table code never commits, rolls back or closes a session it was lent.",
     ["fault_sequences", "crash_points", "histories"], "every point at which a table parser or a query can raise",
     "Tests only run parses that succeed; a partial commit shows only when a failure falls between two writes.",
     [L + "database/edk2_db.py", L + "database/tables/source_table.py", L + "database/tables/instanced_inf_table.py", L + "database/tables/instanced_fv_table.py", L + "database/tables/inf_table.py", L + "database/tables/package_table.py", L + "database/tables/environment_table.py"],
     [("Edk2DB.parse/session", L + "database/edk2_db.py")])
prop("D02", "Database rows belong to their own parse and are reused, not duplicated",
     "Every row that depends on the build configuration carries the id of the environment of the parse that produced it, and rows shared between parses are looked up before a new one is created. Every column of a row is filled from the matching datum, and a library instance is chosen from overrides, module, arch and common scopes in their documented precedence.",
     ["histories", "inputs"], "every sequence of parses into one database and all DSC library scopes",
     "Tests parse one small tree per database; mix-ups between environments or scopes need a second parse or a competing scope.",
     [L + "database/__init__.py", L + "database/edk2_db.py", L + "database/tables/instanced_inf_table.py", L + "database/tables/instanced_fv_table.py", L + "database/tables/inf_table.py", L + "database/tables/source_table.py", L + "database/tables/package_table.py", L + "database/tables/environment_table.py"],
     [("table parse methods and _get_or_create helpers", "the anchored modules")])
prop("U01", "External commands report their true outcome and never wedge the caller",
     "Running an external command returns the exit status of that command, delivers all of its output to the requested sinks, waits for its output reader to finish, and an exception in the reader reaches the caller. No pipe is left unread, and a failed tool is never reported as success.",
     ["schedules", "fault_sequences", "inputs"], "all commands, outputs, exit codes and thread schedules",
     "Tests run short commands that succeed; blocked pipes, reader failures and non-zero exits need particular timing and output sizes.",
     [L + "utility_functions.py", L + "windows/locate_tools.py", L + "windows/capsule/cat_generator.py", L + "uefi/edk2/path_utilities.py", L + "database/tables/package_table.py"],
     [("RunCmd, reader, PropagatingThread, callers checking the return code", "the anchored modules")])
prop("U02", "Files, streams and handles are released on every path",
     "Every file, stream, connection, lock or log handler the library opens for its own use is closed, released or restored on normal return and on every exception. Temporary changes to process-wide or shared state are undone on every path.",
     ["fault_sequences"], "every point at which the code between acquire and release can raise",
     "Tests exercise only the paths without an exception between acquire and release.",
     [L + "utility_functions.py", L + "log/junit_report_format.py", L + "log/file_handler.py", L + "log/string_handler.py", L + "log/ansi_handler.py", L + "uefi/edk2/guid_list.py", L + "uefi/edk2/variablestore_manipulations.py", L + "uefi/edk2/build_objects/dsc_translator.py", L + "uefi/edk2/parsers/dsc_parser.py", L + "uefi/edk2/parsers/fdf_parser.py", L + "gitignore_parser.py", L + "tpm/tpm2_simulator.py", L + "windows/capsule/inf_generator.py"],
     [("with statements and try/finally blocks", "all modules")])
prop("U03", "No input text is ever executed as code or shell syntax",
     "Values that come from files, variables, paths or callers are never evaluated as program text, unpickled, or passed through a shell by the library's own code; they only reach external commands as quoted or separate arguments. Text placed into generated XML or INF files is escaped or validated first.",
     ["inputs"], "all attribute values, names, messages and paths, including hostile ones",
     "Tests use friendly strings; injection needs metacharacters.",
     [L + "utility_functions.py", L + "os/uefivariablesupport.py", L + "log/junit_report_format.py", L + "windows/capsule/inf_generator.py", L + "windows/capsule/inf_generator2.py", L + "windows/capsule/cat_generator.py", L + "uefi/edk2/parsers/base_parser.py", L + "database/edk2_db.py"],
     [("escape calls, validators, argument quoting", "the anchored modules")])
prop("U04", "No failure is silently swallowed",
     "An exception raised inside the library is either propagated, converted to a documented error, return value or default for that specific exception type, or logged; no handler discards arbitrary exceptions. An error code a helper returns is looked at by its caller.",
     ["fault_sequences", "inputs"], "every raising point in every function",
     "Failure paths are mostly not executed by tests, so an over-broad handler or an ignored error code changes nothing they see.",
     [L + x for x in ("utility_functions.py", "database/edk2_db.py", "uefi/authenticated_variables_structure_support.py", "uefi/edk2/parsers/base_parser.py", "uefi/edk2/parsers/dsc_parser.py", "uefi/edk2/path_utilities.py", "uefi/uefi_multi_phase.py", "windows/locate_tools.py", "tpm/tpm2_policy_calc.py")],
     [("except clauses and return-code checks", "all modules")])
prop("G01", "Equality, hashing and ordering are consistent for every value type",
     "For every value type of the library, equal objects have equal hashes, equality compares every field that distinguishes two values and nothing else, it is symmetric and never raises or answers true for a foreign type, and ordering agrees with equality. Sets and dictionaries of these objects therefore never lose or duplicate an entry.",
     ["inputs"], "all pairs and triples of objects of each type",
     "Tests compare a few equal and unequal pairs; contract violations need pairs that differ in one particular field or in case.",
     [L + "uefi/edk2/build_objects/dsc.py", L + "uefi/authenticated_variables_structure_support.py", L + "uefi/edk2/path_utilities.py", L + "gitignore_parser.py", L + "uefi/edk2/guid_list.py"],
     [("__eq__/__hash__/__lt__ definitions", "the anchored modules")])
prop("G02", "Every name, attribute, argument and format used on any path exists and fits",
     "On every path of every library function, each name is bound before use, each attribute or method read from an object of a library type is one that type defines, each call matches the parameters of the function it reaches, and each format string matches its arguments. No error path or rarely used option fails with an unrelated internal error.",
     ["inputs", "configurations"], "all paths of all functions, including error and option paths",
     "Rare paths are not executed by any test and Python checks none of this before it runs them.",
     [L + "uefi/device_path.py", L + "uefi/bmp_object.py", L + "uefi/wincert.py", L + "uefi/fmp_auth_header.py", L + "acpi/ivrs_parser.py", L + "acpi/dmar_parser.py", L + "windows/locate_tools.py", L + "utility_functions.py", L + "tpm/tpm2_simulator.py", L + "uefi/authenticated_variables_structure_support.py"],
     [("all function bodies", "all modules")])
prop("G03", "Deprecated entry points behave exactly like their replacements",
     "Every deprecated method or alias forwards all of its arguments to its replacement and returns the replacement's result, and tells the caller it is deprecated. Library code itself never depends on a deprecated entry point.",
     ["inputs"], "all deprecated entry points and all argument combinations",
     "Tests call some old names with default arguments; a dropped argument or result only shows with others.",
     [L + "uefi/authenticated_variables_structure_support.py", L + "uefi/wincert.py", L + "uefi/fmp_auth_header.py", L + "uefi/edk2/path_utilities.py"],
     [("wrappers calling warnings.warn", "the anchored modules")])
prop("G04", "Generated INF and catalog inputs contain only validated values",
     "Every value stored for an INF or catalog generation is checked by its validator before it can be stored, so that no value its validator rejects, and no name, key, tag, version or file name with line breaks or quoting characters, reaches a generated file. Required values that are missing stop the generation with an error, and each value lands in the field it was given for.",
     ["inputs", "histories"], "all values of every settable property and every order of setting them",
     "Tests set a few good and bad values; the rule is for every property and every character.",
     [L + "windows/capsule/inf_generator.py", L + "windows/capsule/inf_generator2.py", L + "windows/capsule/cat_generator.py"],
     [("property setters and regular-expression validators", "the anchored modules")])
prop("G05", "Log handlers deliver every accepted record once and leave it as it was",
     "Each log handler handles exactly the records its level and filters accept, emits each once under its lock, and routes internal failures to the handler's error hook; formatting for a terminal leaves the shared record unchanged for other handlers, on normal return and on error.",
     ["schedules", "histories"], "all records, handler combinations and concurrent loggers",
     "Tests log a few records to one handler in one thread.",
     [L + "log/ansi_handler.py", L + "log/file_handler.py", L + "log/string_handler.py"],
     [("emit/handle/format methods", "the anchored modules")])
prop("X01", "Path translation never invents, loses or corrupts a location",
     "Looking up a path in the workspace or package paths returns an existing location under one of the configured roots or the documented 'not found' value, the most specific root wins, and translation to relative form and back names the same location. A lookup that finds nothing is checked by every caller before its result is used as a path.",
     ["inputs", "configurations"], "all workspaces, package-path orders and inputs",
     "Tests use one or two small trees; nested roots, root-level and missing paths are configurations they do not build.",
     [L + "uefi/edk2/path_utilities.py", L + "uefi/edk2/parsers/base_parser.py", L + "database/tables/inf_table.py", L + "database/tables/instanced_inf_table.py", L + "database/tables/instanced_fv_table.py", L + "database/tables/source_table.py"],
     [("Edk2Path lookups and their callers", "the anchored modules")])
prop("X02", "The DSC translator writes back exactly the objects it was given",
     "For every DSC object tree the translator emits every define, SKU, build option, PCD, library, component and default store it holds exactly once, under the section header that carries its own arch, module type and SKU scope, in the syntax the library's parser reads back to the same value. Nothing else is written, and flags, offsets, limits and overrides are kept.",
     ["inputs"], "all object trees: every object kind, scope and optional field",
     "The tests translate one small tree; a dropped field, a merged section or a separator that is wrong for one object kind shows only for trees with that combination.",
     [L + "uefi/edk2/build_objects/dsc_translator.py", L + "uefi/edk2/build_objects/dsc.py"],
     [("DscTranslator.dsc_to_file and its per-kind writers", L + "uefi/edk2/build_objects/dsc_translator.py"), ("section and object types", L + "uefi/edk2/build_objects/dsc.py")])
prop("N01", "gitignore matching agrees with git for every pattern and path",
     "For every ignore pattern and path the matcher gives the answer git gives.",
     ["inputs"], "all patterns and paths", "Tests sample patterns.", [L + "gitignore_parser.py"], [("fnmatch_pathname_to_regex", L + "gitignore_parser.py")])
prop("N02", "Conditional expressions evaluate to the value the EDK II build gives",
     "For every expression and macro environment the evaluated truth value equals that of the EDK II build tools.",
     ["inputs"], "all expressions and variable environments", "Tests sample expressions.", [L + "uefi/edk2/parsers/base_parser.py"], [("EvaluateConditional/ComputeResult", L + "uefi/edk2/parsers/base_parser.py")])
prop("N03", "Concurrent database users never lose or corrupt each other's data",
     "Any interleaving of parses and queries by several processes leaves the database equal to some serial order.",
     ["schedules"], "all interleavings of database users", "Tests use one process.", [L + "database/edk2_db.py"], [("SQLAlchemy session over SQLite", L + "database/edk2_db.py")])
prop("N04", "Tool discovery finds the newest installed tool that matches the request",
     "For every machine configuration the discovered compiler or SDK tool is the newest that satisfies product, version and architecture constraints.",
     ["configurations"], "all Windows installations", "Tests need a Windows host.", [L + "windows/locate_tools.py"], [("vswhere and vcvarsall queries", L + "windows/locate_tools.py")])

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    try:
        import manifest_meta
        manifest_meta.write(PROPS, HERE)
    except ImportError:
        pass
