"""The properties: source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""

P = []


def prop(id, title, statement, qtext, why, files, mech, note, over=("inputs",), state=None, observe=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=list(over), qtext=" ".join(qtext.split()),
                  why=" ".join(why.split()), files=["edk2toollib/" + f for f in files],
                  mech=[dict(name=n, where="edk2toollib/" + w) for n, w in mech], note=" ".join(note.split()),
                  state=state, observe=observe))


NA = []


def na(id, title, statement, qtext, why, files, mech, reason, over=("histories",)):
    prop(id, title, statement, qtext, why, files, mech, "", over)
    NA.append((id, " ".join(reason.split())))


prop("P01", "UEFI variable record: load, fields and serialize are one layout",
     """A UEFI variable record decoded from bytes yields exactly the attributes, vendor GUID, name and data stored in it, and serializing it again
     yields the same bytes (with the requested alignment padding). A record built from parts has the documented layout, its reported sizes are the sizes
     written, and truncated or inconsistent records are refused rather than misread.""",
     "every value of every header field, every name (any code points, surrogates and BOM-like characters included) and data content, up to the stated lengths",
     "tests decode one or two literal records; names with non-BMP or BOM-like characters, odd paddings and arbitrary sizes are never sampled",
     ["uefi/edk2/variable_format.py"],
     [("VariableHeader load/serialize", "uefi/edk2/variable_format.py"), ("set_name/set_data keep size fields", "uefi/edk2/variable_format.py")],
     "all field values at fixed name/data lengths; larger lengths outside the claim", observe=["VariableHeader"])

prop("P02", "Variable store update keeps the variables and only rewrites the variable region",
     """Reading a variable store image, changing its variables and flushing, then reopening the image yields exactly the variables that were flushed, in order, and no byte outside the
     variable region changes. A set of variables that does not fit is refused before the image is modified.""",
     "every content of the image headers and variables and every set of new variables within the stated sizes",
     "tests use one image and check a handful of fields; full-store, refused and repeated updates are not exercised",
     ["uefi/edk2/variablestore_manulipulations.py", "uefi/edk2/variable_format.py", "uefi/pi_firmware_volume.py"],
     [("flush_to_file size check and erase", "uefi/edk2/variablestore_manulipulations.py"), ("variable walk on open", "uefi/edk2/variablestore_manulipulations.py")],
     "stores of up to a few variables; file modelled as an in-memory byte array behind open()", over=("inputs", "histories"), observe=["image file bytes"])

prop("P03", "Firmware volume, firmware file and fault-tolerant-write headers round trip",
     """Loading a firmware-volume header, firmware-file header, FTW working block or FTW write record from bytes gives every field the value the specification places there, leaves the stream at the start of the header and, where it can be serialized, serializes to the same bytes; an edited field appears at its place and nothing else changes.
     Headers with a wrong signature and truncated headers are refused, and reloading an object replaces every field.""",
     "every byte content of each header",
     "tests cover a few literal headers, mostly that bad signatures raise",
     ["uefi/pi_firmware_volume.py", "uefi/pi_firmware_file.py", "uefi/edk2/ftw_working_block_format.py"],
     [("load_from_file/serialize", "uefi/pi_firmware_volume.py"), ("write header/record iteration", "uefi/edk2/ftw_working_block_format.py")],
     "all byte values of each header, two sizes of surrounding data", over=("inputs", "histories"))

prop("P04", "UEFI and FMP capsules: decode(encode(x)) == x, bad sizes refused",
     """A UEFI capsule header and the firmware-management capsule inside it encode to the specified layout (offsets, counts, sizes, versions), and decoding that encoding restores every header, driver and payload.
     Decoding bytes whose sizes or offsets are inconsistent is refused and nothing of an earlier decode survives in a reused object.""",
     "every field value, embedded-driver/payload content and malformed size within the stated counts",
     "tests use one or two capsules with fixed small payloads and never decode into a used object",
     ["uefi/uefi_capsule_header.py", "uefi/fmp_capsule_header.py"],
     [("encode/decode of headers and item offsets", "uefi/fmp_capsule_header.py"), ("CapsuleImageSize/HeaderSize checks", "uefi/uefi_capsule_header.py")],
     "up to 2 drivers and 2 payloads of a few bytes each", over=("inputs", "histories"))

prop("P05", "Signed firmware payload headers and certificates round trip",
     """The FMP authentication header, the WIN_CERTIFICATE it carries and the FMP payload header encode to the specified layout and decode back to the same values and payload bytes.
     A certificate or header whose declared length does not fit the data is refused, and signedness is reported from the certificate type.""",
     "every field value and payload/certificate content at the stated lengths, every declared length",
     "tests use a single fixed header; declared lengths are never varied",
     ["uefi/fmp_auth_header.py", "uefi/wincert.py", "uefi/edk2/fmp_payload_header.py"],
     [("dwLength bookkeeping", "uefi/wincert.py"), ("MonotonicCount/AuthInfo split", "uefi/fmp_auth_header.py")],
     "payloads and certificates of up to a few bytes", over=("inputs", "histories"))

prop("P06", "Variable policy entries decode exactly what is stored",
     """A variable policy entry decoded from bytes yields exactly the stored namespace, name, size limits, attribute requirements and lock policy, and its rendering for reports shows those values.
     Entries whose sizes or offsets are inconsistent are refused and no value of an earlier entry survives a decode.""",
     "every field value, name and lock-on-state value within the stated lengths",
     "tests decode three literal entries", ["uefi/edk2/variable_policy.py"],
     [("VariablePolicyEntry.decode offsets", "uefi/edk2/variable_policy.py")], "names of a few characters", over=("inputs", "histories"))

prop("P07", "Variable attributes: number, text and bytes are one value",
     """Converting variable attributes between their number, short names, long names and bytes never loses, adds or reorders a flag, and converting back gives the original.
     Unknown or malformed names are refused.""",
     "every combination of attribute flags; every short attribute text over the stated alphabet",
     "tests sample a few combinations", ["uefi/uefi_multi_phase.py"],
     [("EfiVariableAttributes conversions", "uefi/uefi_multi_phase.py")], "all flag subsets; texts of bounded length")

prop("P08", "Status, command and response codes map to the specified names",
     """Every UEFI status value, TPM command code and TPM response code converts to the name and text the specifications give that number and vice versa;
     an unassigned number is reported as unknown or refused and never as some other code.""",
     "all 2^64 status values, all 2^32 TPM command codes and all 12-bit response codes", "tests look up a handful of codes",
     ["uefi/status_codes.py", "tpm/tpm2_defs.py"],
     [("status code table lookup", "uefi/status_codes.py"), ("command code / response code lookup", "tpm/tpm2_defs.py")], "complete over the number ranges; names against a table restated in the harness")

prop("P09", "Signature lists and databases: encode/decode identity, bad sizes refused",
     """Decoding a signature list or database (db, dbx, KEK) and encoding it again gives the same bytes, and each signature keeps its owner and data.
     Lists whose list, header or signature sizes are inconsistent with each other or with the data are refused rather than read beyond their end.""",
     "every signature content and every value of the size fields within the stated buffer lengths",
     "tests use a few literal databases", ["uefi/authenticated_variables_structure_support.py"],
     [("EfiSignatureList decode size validation", "uefi/authenticated_variables_structure_support.py")], "up to 3 lists of up to 3 signatures")

prop("P10", "Canonical signature database: sorted, deduplicated, nothing lost",
     """The canonical form of a signature database contains every distinct signature exactly once, merged per type and in sorted order, and the reported duplicates are exactly the remaining copies.
     Canonicalizing does not modify its input and is idempotent, and two databases with the same signatures in a different order have the same canonical form.""",
     "every content and order of the signatures within the stated counts",
     "tests use fixed databases; input mutation and content-equality of certificates are not observed", ["uefi/authenticated_variables_structure_support.py"],
     [("get_canonical_and_dupes", "uefi/authenticated_variables_structure_support.py"), ("signature ordering and merge", "uefi/authenticated_variables_structure_support.py")],
     "up to 4 digests/certificates", over=("inputs", "histories"))

prop("P11", "Authenticated variables: what is signed is what is sent",
     """A time-based authenticated variable decodes to its timestamp, certificate and payload and encodes back to the same bytes, and the bytes given to the signer are exactly name, GUID, attributes, timestamp and payload.
     A timestamp is accepted exactly when it is a valid date and time, and a replaced payload replaces the old one everywhere.""",
     "every 16-byte timestamp; every name, GUID, attribute value, payload and certificate within the stated lengths",
     "tests use one signed sample; calendar corner cases, empty replacement payloads and non-BMP names are not sampled",
     ["uefi/authenticated_variables_structure_support.py", "uefi/wincert.py"],
     [("EfiTime decode", "uefi/authenticated_variables_structure_support.py"), ("builder digest", "uefi/authenticated_variables_structure_support.py")],
     "PKCS#7 signing itself (cryptography FFI) is outside the claim", over=("inputs", "histories"))


prop("P12", "TPM commands and policy digests are what the specification prescribes",
     """Every TPM 2.0 command stream built from its fields has the specified bytes, with a size field equal to the stream's length.
     A policy digest extended with policy commands is the specified hash chain over exactly those commands, in order.""",
     "every field value and authorization content within the stated lengths; every order of policy terms within the stated count",
     "tests compare two or three literal streams and policies",
     ["tpm/tpm2_stream.py", "tpm/tpm2_policy_calc.py", "tpm/tpm2_defs.py"],
     [("command stream marshalling", "tpm/tpm2_stream.py"), ("policy digest extension and OR-trees", "tpm/tpm2_policy_calc.py")],
     "hash functions are replaced by an injective stand-in, so the claim is about what is hashed")

prop("P13", "TPM simulator transport sends whole requests and returns whole responses",
     """A request to the TPM simulator is framed as command, locality, length and data, and the caller gets exactly the response's bytes however the connection splits them.
     A connection that closes in the middle of a response is an error, never a shortened response.""",
     "every request and reply content and every splitting of the reply within the stated sizes",
     "there is no test of the simulator; unit tests cannot choose how the network splits a reply",
     ["tpm/tpm2_simulator.py"], [("send_data framing and read loops", "tpm/tpm2_simulator.py")],
     "sockets are stand-ins that split and close arbitrarily", over=("inputs", "fault_sequences"))

prop("P14", "Device paths: one node per encoded node, specified values, always terminates",
     """Decoding a UEFI device path yields one node per encoded node in order, with the values and names the UEFI specification gives that node type.
     Nodes of unknown type keep their raw data, nodes whose length is smaller than a header or larger than the data are refused, and decoding always terminates.""",
     "every node content, node length and node type within the stated sizes", "tests decode literal paths with a few node types",
     ["uefi/device_path.py"], [("DevicePathFactory.from_binary walk", "uefi/device_path.py"), ("node classes", "uefi/device_path.py")],
     "paths of up to three nodes of up to tens of bytes")

prop("P15", "DMAR tables: one structure per encoded one, invalid lengths refused",
     """Parsing a DMAR table yields one remapping structure per encoded structure, with its values, device scopes and paths, and the XML shows those values.
     A structure or device scope with an unknown type or with a length that does not fit is refused, and parsing always terminates; the RMRR check passes exactly when every RMRR path is in the golden file.""",
     "every field value, structure length, scope length and type within the stated sizes", "tests parse two literal tables",
     ["acpi/dmar_parser.py"], [("structure walk by Length", "acpi/dmar_parser.py"), ("device scope walk", "acpi/dmar_parser.py"), ("CheckRMRRCount", "acpi/dmar_parser.py")],
     "up to 3 structures with up to 2 scopes (8 in the thorough tier)")

prop("P16", "IVRS tables: encode/decode identity, lengths and checksum always right",
     """Decoding an IVRS table and encoding it again gives the same bytes, every block and device entry keeps its values, and decoding into a used object keeps nothing of the earlier table.
     Adding blocks keeps the table length right and its checksum zero, and a table with a wrong checksum, table length, block length or type is refused.""",
     "every field value, checksum, length field and type; every kind of block and entry within the stated counts", "tests decode and rebuild literal tables",
     ["acpi/ivrs_parser.py"], [("Decode length and checksum validation", "acpi/ivrs_parser.py"), ("addIVHDEntry/addIVMDEntry/updateACPISum", "acpi/ivrs_parser.py")],
     "up to 3 blocks with up to 2 entries (6 blocks with all 13 entry kinds in the thorough tier)", over=("inputs", "histories"))

prop("P17", "Conditionals and macros: one branch active, expressions as written",
     """In EDK2 files, code is active exactly when at every nesting level its branch is the first one whose condition holds, and every directive is recognized and closed by its own !endif.
     A condition has the value of the expression as written (numbers by value, strings exactly, relational operators binding tighter than AND/OR, parentheses first), and malformed ones are refused.
     A macro reference is replaced by the value that is set for it and nothing else in the line changes; comments outside quotes are removed.""",
     "every well-formed sequence of directives and every value, operand text and macro value within the stated sizes",
     "tests sample a list of expressions and branch shapes; nested mixes, unusual operands and values that look like operators or macros are not covered",
     ["uefi/edk2/parsers/base_parser.py"],
     [("ProcessConditional/PushConditional/InActiveCode", "uefi/edk2/parsers/base_parser.py"), ("EvaluateConditional and the expression evaluator", "uefi/edk2/parsers/base_parser.py"),
      ("ReplaceVariables, StripComment", "uefi/edk2/parsers/base_parser.py")],
     "up to 4 directives (5 in the thorough tier), expressions of up to 4 operands, texts of a few characters", over=("inputs", "histories"))

prop("P18", "GUID text: registry form, C form and uuid denote the same value",
     """A GUID written in registry form or as a C initializer (any letter case, with or without leading zeros, with any spacing) denotes the same 128-bit value everywhere: converting between the forms and uuid objects, in
     DEC declarations and in ParseGuid, never changes it. Text that is not exactly one GUID is refused, not misread.""",
     "every 128-bit value, every digit count within the stated shapes, and every character at a given place",
     "tests use one GUID in a few spellings", ["uefi/edk2/parsers/guid_parser.py", "uefi/edk2/parsers/base_parser.py", "uefi/edk2/parsers/dec_parser.py"],
     [("GuidParser conversions", "uefi/edk2/parsers/guid_parser.py"), ("BaseParser.ParseGuid", "uefi/edk2/parsers/base_parser.py"), ("GuidedDeclarationEntry", "uefi/edk2/parsers/dec_parser.py")],
     "ASCII text; the listed spacings")

prop("P19", "Firmware policy blobs: documented layout, decode(encode(x)) == x",
     """A firmware policy built from rules is written in the documented layout, and reading it back (by bytes or by stream) restores the header and every key, name and value whatever their text, including entries shared between rules.
     A rule is added exactly when no rule with the same key and value is there, decoding into a used policy keeps nothing, and a blob that is newer, truncated or has offsets outside its data is refused.""",
     "every header field, key, text, DWORD/QWORD value, entry count and offset within the stated sizes",
     "tests read three literal blobs and round trip one policy with ASCII text", ["windows/policy/firmware_policy.py"],
     [("Rule/PolicyString/PolicyValue serialize and load", "windows/policy/firmware_policy.py"), ("FirmwarePolicy.FromFileStream bounds", "windows/policy/firmware_policy.py"), ("AddRule", "windows/policy/firmware_policy.py")],
     "up to 3 rules (6 in the thorough tier), texts of a few characters and one case of 130-300; Reserved1 and unsupported value types excluded", over=("inputs", "histories"))

prop("P20", "BMP images: every part read from its place and written back unchanged",
     """Loading a BMP file gives every header field, the colors, the padding and the pixel data from ImageOffset on exactly as stored, and writing it gives the same bytes; a new or built image can be written and read back.
     Loading into a used object keeps nothing of the earlier image, and files whose sizes, offsets or color map do not fit are refused.""",
     "every field, color, padding and pixel value, and every wrong size or offset, within the stated shapes", "tests load four literal images and never write one",
     ["uefi/bmp_object.py"], [("PopulateFromFileStream", "uefi/bmp_object.py"), ("Write", "uefi/bmp_object.py")],
     "listed pixel depths, up to 256 colors, up to 300 bytes of pixel data", over=("inputs", "histories"))

prop("P21", "DEC files: every declaration reported once, in order, with its values",
     """Parsing a DEC file reports every protocol, PPI, GUID, PCD, library class, include path and definition exactly once, in file order, in the list of its own section, with its name, value, type, token and package
     exactly as written, whatever sections surround it. Comments, blank lines, unknown sections and the fields of structured PCDs declare nothing, and a GUID or PCD declaration that lacks its parts is refused.""",
     "every sequence of sections and every name, value and quoted text within the stated sizes",
     "the tests parse one literal file and count the entries", ["uefi/edk2/parsers/dec_parser.py", "uefi/edk2/guid_list.py"],
     [("DecParser._Parse", "uefi/edk2/parsers/dec_parser.py"), ("PcdDeclarationEntry._parse", "uefi/edk2/parsers/dec_parser.py"), ("GuidList.parse_guids_from_dec", "uefi/edk2/guid_list.py")],
     "up to 3 sections of up to 3 entries with names of 1-2 characters; quoted values of up to 3 arbitrary printable characters")

prop("P22", "INF files: entries per section, sources and libraries per architecture",
     """Parsing an INF file reports every package, library, protocol, PPI, GUID, PCD, source and binary once, in file order, in the list of its own section, with macros replaced and anything behind '|' removed.
     The libraries and sources of an architecture are those of the common sections and of the sections naming that architecture, each once, and the library class and supported phases are those defined.""",
     "every sequence of sections, architectures and names within the stated sizes", "the tests parse one literal file",
     ["uefi/edk2/parsers/inf_parser.py", "uefi/edk2/guid_list.py"],
     [("InfParser.ParseFile", "uefi/edk2/parsers/inf_parser.py"), ("get_sources/get_libraries", "uefi/edk2/parsers/inf_parser.py"), ("GuidList.parse_guids_from_inf", "uefi/edk2/guid_list.py")],
     "up to 3 sections of up to 2 entries with names of 1-2 arbitrary characters in fixed shapes")

prop("P23", "DSC files: modules, libraries, overrides and PCDs of exactly the active lines",
     """Parsing a DSC reports exactly the libraries, components, library overrides, PCDs and definitions of its active lines, in order: each component once per architecture with the overrides of its own block, and
     for each library class and scope every instance listed, the last one first. Macros and PCDs stand for their values, and the lines of an included file (looked up next to the file that includes it) count where the include is.""",
     "every sequence of sections, scopes, overrides and conditions, and every name and value within the stated sizes",
     "tests look at a few definitions and one component; scopes, overrides, repeated entries and includes from subfolders are not checked",
     ["uefi/edk2/parsers/dsc_parser.py", "uefi/edk2/parsers/base_parser.py"],
     [("__ParseLine and __ParseDefineLine", "uefi/edk2/parsers/dsc_parser.py"), ("_parse_libraries and _parse_components", "uefi/edk2/parsers/dsc_parser.py"),
      ("ReplacePcds/RegisterPcds", "uefi/edk2/parsers/dsc_parser.py"), ("include handling", "uefi/edk2/parsers/dsc_parser.py")],
     "up to 3 sections of up to 3 entries, one override block per component, one or two included files", over=("inputs", "programs"))

prop("P24", "FDF files: FVs, INFs, files and definitions of exactly the active lines",
     """Parsing an FDF reports, for each firmware volume, exactly the INFs and files of its active lines in order, and for each file its type and the sections of its own block.
     Definitions have the value written and stand for it in later sections, those made inside a section end with it, and the lines of an included file count where the include is.""",
     "every sequence of FVs, INF, FILE, SECTION and other lines within the stated sizes, every condition value and every name and value",
     "tests read definitions, one GUIDED section and a few RAW sections; order, scope, conditions inside FVs and other section kinds are not checked",
     ["uefi/edk2/parsers/fdf_parser.py", "uefi/edk2/parsers/base_parser.py"],
     [("GetNextLine and include", "uefi/edk2/parsers/fdf_parser.py"), ("FV and FILE parsing", "uefi/edk2/parsers/fdf_parser.py"), ("StripComment", "uefi/edk2/parsers/base_parser.py")],
     "up to 4 sections of up to 6 entries, one or two included files, runs of 1200 skipped lines", over=("inputs", "programs"))
prop("P25", "Edk2Path: EDK2 paths, absolute paths, packages and modules of any tree",
     """For any directory tree and any workspace and package paths: the EDK2 path of a file is what follows the deepest package path that holds it (or else the workspace), an EDK2 path is found in the workspace and then in the package paths in order, and the package and the modules of a path are those of the closest folder above it, below its root, that has a DEC or INF file.
     Roots are taken as absolute, workspace relative or current-folder relative, invalid ones are refused or dropped, and every query returns.""",
     "every tree of up to 5 folders and files and every workspace, package path and query path within the stated depths, with all coincidences and nestings of their names",
     "tests build about twenty fixed trees; nesting of several roots, roots that share names or prefixes and queries for the roots themselves are not covered",
     ["uefi/edk2/path_utilities.py"],
     [("Edk2Path.__init__", "uefi/edk2/path_utilities.py"), ("GetEdk2RelativePathFromAbsolutePath", "uefi/edk2/path_utilities.py"),
      ("GetAbsolutePathOnThisSystemFromEdk2RelativePath", "uefi/edk2/path_utilities.py"), ("GetContainingPackage and GetContainingModules", "uefi/edk2/path_utilities.py")],
     "up to 3 package paths of depth 3, query paths of depth 5, 3 files", over=("inputs", "configurations"))

prop("P26", "UEFI variables on Linux behave as a map from (name, GUID) to attributes and data",
     """After any sequence of set and delete calls, get returns exactly the attributes and the bytes that were set last for that name and GUID, an error for a variable that does not exist, and the listing names every variable once.
     A set touches no other variable and runs no other command, whatever characters the name has.""",
     "every name, attribute word and data of the stated sizes and every short sequence of operations",
     "tests cannot use a real efivarfs and mock one call each; sequences, name characters and data bytes are not explored",
     ["os/uefivariablesupport.py"],
     [("GetUefiVar", "os/uefivariablesupport.py"), ("GetUefiAllVarNames", "os/uefivariablesupport.py"), ("SetUefiVar", "os/uefivariablesupport.py")],
     "names up to 4 characters, data up to 8 bytes, 3 operations", over=("inputs", "histories", "configurations"))
prop("P27", "A JUnit report gives back what was recorded, in well-formed XML",
     """For any suites, cases, outcomes and texts, the report that Output writes is well-formed XML whose suites, cases, counts, states, messages and captured output are exactly those recorded.
     Characters XML cannot hold are the only ones that may be replaced.""",
     "every text of the stated sizes at every position of a report, and every combination of outcomes of up to three cases",
     "tests write one report of each kind and never read it back; markup, quotes and control characters inside the texts are not covered",
     ["log/junit_report_format.py"],
     [("JunitReportTestCase", "log/junit_report_format.py"), ("JunitReportTestSuite", "log/junit_report_format.py"), ("JunitTestReport.Output", "log/junit_report_format.py")],
     "texts up to 4 symbolic characters of all Unicode, 3 cases in 2 suites", over=("inputs", "histories"))
prop("P28", "Hex dumps and C arrays give back exactly the bytes that were written",
     """For any bytes, the text that hexdump writes shows each byte once, at the offset stated, with its printable character in the ASCII column; the text that export_c_type_array writes initializes an array of the declared length with exactly those bytes.
     This holds for every combination of the options and for full, partial and empty last lines.""",
     "every byte value at every position, for lengths around the line length and every combination of options",
     "tests compare a handful of fixed dumps; lengths around a line end and the options are not crossed with the byte values",
     ["utility_functions.py"],
     [("hexdump", "utility_functions.py"), ("export_c_type_array", "utility_functions.py"), ("PrintByteList", "utility_functions.py")],
     "lengths up to 49 bytes of which up to 4 are symbolic at a time, 8 option sets")
prop("P29", "Versions are ordered part by part as numbers; the right SDK tool is found",
     """version_compare and the Windows SDK comparison order any two versions by the first part that differs, as numbers, with missing parts zero, and are antisymmetric; a complete SDK version is newer than an incomplete one.
     FindToolInWinSdk returns the tool of the configured SDK if there is one, or else that of the newest SDK, and never one for another architecture.""",
     "every pair of versions with the stated number of parts and digits, and every set of installed SDKs up to the stated number",
     "tests compare about ten version pairs; the search on Windows is not tested at all on other systems",
     ["utility_functions.py", "windows/locate_tools.py"],
     [("version_compare", "utility_functions.py"), ("_CompareWindowVersions", "windows/locate_tools.py"), ("FindToolInWinSdk", "windows/locate_tools.py"), ("_CheckArchOfMatch", "windows/locate_tools.py")],
     "parts up to 120 (thorough 99999), 4 parts, up to 2 (thorough 4) installed SDKs", over=("inputs", "configurations"))

prop("P30", "Ignore files: the last matching rule decides, by git's wildcard rules",
     """For any rules and any path below the base folder, the matcher of parse_gitignore_file / parse_gitignore_lines answers true exactly if the last rule matching the path or one of its parent folders is not negated.
     *, ?, [..], **, a leading or trailing /, a leading !, backslash escapes and trailing spaces mean what git's documentation says; comments and paths outside the base folder are never ignored.""",
     "every path of the stated number of components and characters, for some 700 patterns and their combinations to up to three rules",
     "tests check about thirty pattern and path pairs; which rule wins, escapes, character classes and path characters are not crossed",
     ["gitignore_parser.py"],
     [("rule_from_pattern", "gitignore_parser.py"), ("fnmatch_pathname_to_regex", "gitignore_parser.py"), ("IgnoreRule.match", "gitignore_parser.py"), ("parse_gitignore_lines", "gitignore_parser.py")],
     "paths up to 3 components and 4 (thorough 6) symbolic characters, up to 3 rules; listed exclusions (e.g. '//' and '^' in patterns)", over=("inputs", "configurations"))

prop("P31", "Log handlers: each accepted message once, in order, unchanged but for color",
     """ColoredFormatter adds only color or Azure markers for the record's level and leaves the record as it was for other handlers; ColoredStreamHandler writes every other character of a message unchanged and turns color sequences into console attributes, restored afterwards.
     FileHandler, StringStreamHandler and ColoredStreamHandler write each record that passes level and filters once, in order (the one a filter put in its place, if any); reading a StringStreamHandler gives back the lines written.""",
     "every message text of the stated sizes, every level and every color sequence",
     "tests check a few messages per level on one handler; sequences broken in the middle, records shared by handlers and filters are not covered",
     ["log/ansi_handler.py", "log/file_handler.py", "log/string_handler.py"],
     [("ColoredFormatter.format", "log/ansi_handler.py"), ("ColoredStreamHandler.emit", "log/ansi_handler.py"), ("FileHandler.handle", "log/file_handler.py"), ("StringStreamHandler", "log/string_handler.py")],
     "messages up to 4 symbolic characters, up to 3 records, colors up to 255", over=("inputs", "histories"))

prop("P32", "DSC model: one entry per identity, one section per scope, and it reads back",
     """In the DSC model entries of each kind are equal exactly if they have the same identity (with equal hashes); a restricted set keeps the entry added last for each identity, a restricted dictionary one section per scope in order, and both refuse what does not belong there.
     Models are equal if they define the same things, and the file DscTranslator writes for a model reads back as exactly its sections, entries, components and overrides.""",
     "every identity and text of the stated sizes, every short sequence of additions and every combination of sections",
     "tests add a few entries and never look at what is written; identities that differ in one field, collisions and reading back are not covered",
     ["uefi/edk2/build_objects/dsc.py", "uefi/edk2/build_objects/dsc_translator.py"],
     [("dsc_set.add", "uefi/edk2/build_objects/dsc.py"), ("dsc_dict.__setitem__ and __missing__", "uefi/edk2/build_objects/dsc.py"), ("__eq__ and __hash__ of the entries", "uefi/edk2/build_objects/dsc.py"),
      ("DscTranslator._GetDscLinesFromDscObj and _FormatComponent", "uefi/edk2/build_objects/dsc_translator.py")],
     "up to 3 entries (4 SKUs in thorough) per set, 2 sections, texts of 1 or 2 symbolic characters", over=("inputs", "histories"))

prop("P33", "INF and CAT files: what Windows reads is exactly what was given",
     """Read by the INF rules (sections, %strings%, quoted texts), a generated INF lists exactly the firmware given: each with its description, GUID, 32-bit version, files to copy, integrity file and, only if asked for, rollback policy, under the given name, date, architecture and OS version.
     Names, tags, files, versions, GUIDs, architectures and systems that do not qualify are refused with ValueError, and a catalog counts as made only if Inf2Cat ran for the right system in the right folder and made it.""",
     "every text, name, file name, GUID and version of the stated sizes and every combination of the options",
     "tests compare a few fixed files; special characters in texts, unusual forms of values and several firmware with options are not covered",
     ["windows/capsule/inf_generator.py", "windows/capsule/inf_generator2.py", "windows/capsule/cat_generator.py"],
     [("InfGenerator.MakeInf", "windows/capsule/inf_generator.py"), ("InfFirmware, InfStrings and InfSourceFiles", "windows/capsule/inf_generator2.py"),
      ("InfHeader", "windows/capsule/inf_generator2.py"), ("CatGenerator.MakeCat", "windows/capsule/cat_generator.py")],
     "up to 2 (thorough 3) firmware, texts and names of 1 or 2 symbolic characters, all GUIDs and 36-bit versions", over=("inputs", "configurations", "fault_sequences"))

prop("P34", "target.txt and override records give each setting and record as written",
     """Parsing target.txt gives one setting per key, with the value of its last line exactly as written (quotes around the value removed as documented), and nothing for comments, blank lines and lines without '='.
     Parsing override records gives one record per #OVERRIDE line, in order, with its version, path, hash, time, line and line number; a record that is incomplete, of another version or with a date that does not exist is refused with an error that names the line and the field.""",
     "every key, value, path, hash and date of the stated sizes, and every free line up to the stated length",
     "tests parse one target.txt and a few records; values with separators, repeated keys, damaged fields and line numbers in longer files are not covered",
     ["uefi/edk2/parsers/targettxt_parser.py", "uefi/edk2/parsers/override_parser.py"],
     [("TargetTxtParser.ParseFile", "uefi/edk2/parsers/targettxt_parser.py"), ("OverrideParser.parse_override_line", "uefi/edk2/parsers/override_parser.py"),
      ("OverrideParser.__init__", "uefi/edk2/parsers/override_parser.py"), ("OpParseError", "uefi/edk2/parsers/override_parser.py")],
     "up to 6 lines, free lines up to 5 (thorough 7) characters, texts up to 16 (64) characters; quoted values without backslash")

prop("P35", "Build reports: every module once, with its own libraries, PCDs and volume",
     """BasicParse of a build report gives one module per module summary, with the name, GUID, INF path, type, libraries (by EDK2 path), PCD values and dependency expression that its own region states, and the firmware volume that lists it, wherever lines are wrapped and regions end.
     FindComponentByInfPath finds exactly the module of an INF, ignoring case, and protected words are put back in every line.""",
     "every name, path, GUID and value of the stated sizes, for every listed combination of sections, line forms and volumes",
     "tests parse one report and check counts; regions that end early, values with separators or braces and modules outside of the workspace are not covered",
     ["uefi/edk2/parsers/buildreport_parser.py"],
     [("BuildReport.BasicParse", "uefi/edk2/parsers/buildreport_parser.py"), ("BuildReport._GetNextRegionStart and _GetEndOfRegion", "uefi/edk2/parsers/buildreport_parser.py"),
      ("ModuleSummary.Parse", "uefi/edk2/parsers/buildreport_parser.py"), ("BuildReport.FindComponentByInfPath", "uefi/edk2/parsers/buildreport_parser.py")],
     "up to 3 modules and 3 volumes, texts of 1-2 (long cases 10-20) symbolic characters; Edk2Path is a stand-in", over=("inputs", "configurations"))

prop("P36", "Database of a build: each component once with its libraries, sources and FV",
     """For a DSC and its INFs, the database gets one row per component, target architecture and library INF the component reaches, linked to exactly the library instances the DSC rules give (component override, then the most specific scope whose instance supports the module; NULL libraries), to the sources of its architecture, and to its package and repository.
     Each volume of an FDF gets one row with exactly the components of its own run that it lists, whatever the form of the INF statement or root its path is relative to.""",
     "every library class name of two characters, every presence, support and use of the stated number of libraries in every scope, and every combination of architectures, roots and repositories listed",
     "tests build one small platform per rule; precedence between scopes that do not support the module, cycles, NULL libraries, several runs and overlapping roots are not crossed",
     ["database/tables/instanced_inf_table.py", "database/tables/instanced_fv_table.py"],
     [("InstancedInfTable._lib_to_instance", "database/tables/instanced_inf_table.py"), ("InstancedInfTable._parse_inf_recursively", "database/tables/instanced_inf_table.py"),
      ("InstancedInfTable._insert_db_rows", "database/tables/instanced_inf_table.py"), ("InstancedFvTable.parse", "database/tables/instanced_fv_table.py")],
     "up to 8 instances of a class, 2 (thorough 3) libraries in any graph, 2 components, 2 architectures, 2 runs; parsers and session are stand-ins, replays use the real ones", over=("inputs", "configurations", "histories"))

prop("P37", "Workspace tables: each package, INF, source and run once; failures leave nothing",
     """However often a workspace is read, the database has one row per package (with the submodule or repository that holds it), per EDK2 INF (with its class, package, libraries and sources) and per source file outside of the build folder (with the license and line counts it has now), and one environment row per run with its own variables and the commit.
     Edk2DB.parse runs the registered tables in order with one id per run; if a table fails, the error is passed on, nothing that table wrote is kept and everything written before is.""",
     "every license text, name, url and variable of the stated sizes, every listed combination of files, folders, submodules and remotes, and every table that fails in each of two runs",
     "tests parse small trees once; repeated runs, changed files, shared sources and libraries, similar folder names and failing tables are not covered",
     ["database/edk2_db.py", "database/tables/source_table.py", "database/tables/package_table.py", "database/tables/inf_table.py", "database/tables/environment_table.py"],
     [("Edk2DB.parse and session", "database/edk2_db.py"), ("SourceTable.parse and _parse_file", "database/tables/source_table.py"), ("PackageTable.parse", "database/tables/package_table.py"),
      ("InfTable.parse and _parse_file", "database/tables/inf_table.py"), ("EnvironmentTable.parse", "database/tables/environment_table.py")],
     "up to 2 (thorough 3) packages and INFs, sources of up to 4 lines with texts up to 12 symbolic characters, 2-3 runs; git, line counting and, apart from replays, the session are stand-ins", over=("inputs", "configurations", "histories", "fault_sequences"))

prop("P38", "External commands run as given; output and outcome reach the caller, no hangs",
     """RunCmd runs exactly the program and parameters given, once, in the folder and environment given; every byte of its output, decoded, reaches the file, stream and log asked for, once and in order; its exit code is returned, or raised if asked for; output that cannot be decoded or written is reported.
     No amount or kind of output makes the caller hang. RunPythonScript runs the first script found as given, in the current folder or on the path, with this interpreter; the signtool wrappers sign the given file with the given key and deliver the signature where asked, or report failure.""",
     "every output of the stated sizes in every byte value, every exit code, parameter text, name, environment value, and combination of options",
     "tests run a few well-behaved commands; undecodable or large output, quoted names, file errors, script search order and tool failures are not covered",
     ["utility_functions.py"],
     [("RunCmd", "utility_functions.py"), ("reader", "utility_functions.py"), ("RunPythonScript", "utility_functions.py"), ("DetachedSignWithSignTool and CatalogSignWithSignTool", "utility_functions.py")],
     "outputs of up to 3 (thorough 6) symbolic bytes, alone or after 66000 fixed ones; the process is a stand-in except in replays, which run real processes and threads", over=("inputs", "configurations", "fault_sequences"))

prop("P39", "Visual Studio and SDK tools: the right vswhere, installs, variables and tool",
     """vswhere is the library's own, else the first on the path, else downloaded; a file is only kept and used if its whole SHA-256 is the expected one, also when the download breaks off. Installs are all those vswhere lists, newest first, for exactly the product and version asked for; unsupported versions are refused and failures of vswhere reported.
     QueryVcVariables runs the batch file of the newest install that has one, for the architecture and compiler given, and returns the values it set, exactly, for exactly the variables asked for, or reports what is missing. FindToolInWinSdk finds a tool this host can run: that of the current SDK, or else the newest. GetHostInfo names the host or reports that it does not know it.""",
     "every installed, downloaded and reported content of the stated sizes, failure of the network and of the tools, exit code, combination of options, and presence of installs, folders and files",
     "tests mock one vswhere answer, and most run on Windows only",
     ["windows/locate_tools.py", "utility_functions.py"],
     [("_DownloadVsWhere", "windows/locate_tools.py"), ("GetVsWherePath", "windows/locate_tools.py"), ("FindAllWithVsWhere", "windows/locate_tools.py"), ("QueryVcVariables", "windows/locate_tools.py"), ("FindToolInWinSdk", "windows/locate_tools.py"), ("GetHostInfo", "utility_functions.py")],
     "downloads of 2 free bytes, up to 3 installs, 3 variables of 4 characters, 4 SDK tools; Windows, the network, vswhere and cmd are stand-ins, in replays as well", over=("inputs", "configurations", "fault_sequences"))

prop("P40", "Plug-in classes, file lookup and the GUIDs of a tree are the right ones",
     """locate_class_in_module finds the most specific class a module has, whatever the names are, and reports several unrelated ones; a file is imported as a module of its own. FindPath looks below the root, then beside the file parsed, then in the package paths in their order, and finds a file if and only if it is in one of them.
     WriteLinesToFile writes each line once. The GUIDs of a tree are those of its INF and DEC files that the given ignore rules do not exclude, each once, with its name and file; rules given are not changed.""",
     "every hierarchy of up to 3 (thorough 4) classes, every presence of a file in four places, every text of the stated sizes, every subset of the files and rules",
     "tests use a handful of modules, files and rules, each in one order",
     ["utility_functions.py", "uefi/edk2/parsers/base_parser.py", "uefi/edk2/guid_list.py"],
     [("locate_class_in_module", "utility_functions.py"), ("import_module_by_file_name", "utility_functions.py"), ("BaseParser.FindPath and WriteLinesToFile", "uefi/edk2/parsers/base_parser.py"), ("GuidList.guidlist_from_filesystem", "uefi/edk2/guid_list.py")],
     "up to 4 classes, 4 places, 3 lines of 3 characters, trees of 5 files with up to 2 rules", over=("inputs", "configurations"))

na("N01", "Signed variables and capsules verify with the certificate they were signed with",
   """The PKCS#7 signature that pkcs7-based signing of authenticated variables attaches verifies, with the given certificate, over exactly the digest handed to the signer.""",
   "every key, certificate and payload",
   "tests sign a few payloads with one key",
   ["uefi/authenticated_variables_structure_support.py"],
   [("EfiVariableAuthentication2Builder.sign", "uefi/authenticated_variables_structure_support.py")],
   """The signature is computed by OpenSSL through cryptography's native extension: there is no Python code or intermediate representation to execute symbolically, and the arithmetic is out of an SMT solver's reach. What is handed to the signer is decided under P11.""", over=("inputs",))
na("N02", "RemoveTree removes the whole tree or reports that it did not",
   """After RemoveTree returns, nothing of the folder is left; if that fails three times it raises.""",
   "every tree and every failure of the file system calls",
   "tests remove one read-only tree",
   ["utility_functions.py"],
   [("RemoveTree", "utility_functions.py")],
   """The function is a retry loop around shutil.rmtree; what is removed is decided by shutil's and the kernel's treatment of the tree, which cannot be encoded here without replacing it by a model that is the property itself.""", over=("fault_sequences",))
na("N03", "A committed parse of the workspace survives a crash",
   """Rows of a table whose parse was committed are in the database file after a crash at any later point, and no part of an uncommitted one is.""",
   "every crash point of a parse",
   "tests never interrupt a parse",
   ["database/edk2_db.py"],
   [("Edk2DB.session", "database/edk2_db.py")],
   """What survives a crash is decided inside SQLite's C code and the file system's write order; the Python code only issues BEGIN, COMMIT and ROLLBACK, whose order is decided under P37.""", over=("crash_points",))
na("N04", "UEFI variables on Windows act as a map from (name, GUID) to their data",
   """The Windows half of UefiVariable reads, writes and deletes variables as the firmware stores them and restores the privileges it took.""",
   "every name, GUID, size and error of the system calls",
   "tests run with a mocked kernel32 only",
   ["os/uefivariablesupport.py"],
   [("UefiVariable", "os/uefivariablesupport.py")],
   """The code calls kernel32 through ctypes (WinError, windll), which do not exist on this system, so neither the symbolic run nor a replay on the real code is possible; the Linux half is P26.""", over=("inputs",))
