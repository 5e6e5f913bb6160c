"""Writes properties.jsonl and MANIFEST.json (run from /verif: python3 tools/properties.py)."""
import json

X, K, N, M = "ccsds_ndm/ndm_xml_io.py", "ccsds_ndm/ndm_kvn_io.py", "ccsds_ndm/ndm_io.py", "ccsds_ndm/models/ndmxml2"
MODELS = [M + "/" + f for f in ("ndmxml_2_0_0_common_2_0.py", "ndmxml_2_0_0_aem_1_0.py", "ndmxml_2_0_0_apm_1_0.py", "ndmxml_2_0_0_cdm_1_0.py",
                               "ndmxml_2_0_0_oem_2_0.py", "ndmxml_2_0_0_omm_2_0.py", "ndmxml_2_0_0_opm_2_0.py", "ndmxml_2_0_0_rdm_1_0.py",
                               "ndmxml_2_0_0_tdm_2_0.py", "ndmxml_2_0_0_ndm_2_0.py", "ndmxml_2_0_0_master_2_0.py")]
KVN_READ = [("line pre-processing (comments, units, key=value)", K + ":_pre_process_kvn_data"),
            ("section boundaries found by keyword", K + ":_get_min_max_indices"),
            ("object tree built section by section", K + ":_build_object")]
KVN_WRITE = [("recursive line output", K + ":_collate_str_out_subclasses"), ("structure words", K + ":_collate_special_header_str_out"),
             ("data lines", K + ":_collate_special_data_str_out")]

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


TESTS = "The tests read about one sample file per message type"
prop("C01", "Reading an XML message yields exactly the contents of the file",
     "Reading any schema-valid NDM/XML message (AEM, APM, CDM, OEM, OMM, OPM, RDM, TDM) gives an object of that message's type whose every field holds exactly the value in the file: numbers by exact decimal value, texts character by character, enumerated values and units as the corresponding enumeration members, repeated elements all there and in file order. Nothing in the file is dropped, moved to another field, or altered, and nothing that is not in the file appears.",
     ["inputs"], "all schema-valid messages of the eight types: any combination of optional elements and units, any allowed enumeration value, any number of repeated elements",
     TESTS + " and compare with a re-serialisation or a few spot values, so most optional fields, enumeration values and combinations are never read.",
     [X] + MODELS, [("element, attribute and type declarations of every message part", M), ("XML parsing into the declared classes", X + ":NdmXmlIo.from_string")],
     "property-based testing: generated message trees, independent XML renderer, field-by-field oracle", "generated search; oracle is a frozen copy of the schema, so a wrong declaration is seen")
prop("C02", "Writing XML says exactly what the object holds, in schema order",
     "Writing any valid message object as XML gives well-formed XML with exactly one element or attribute for every value the object holds, under its schema name, with its units, in the order and nesting the schema prescribes, and nothing else. The root element carries exactly the schema location attributes requested in that call.",
     ["inputs", "configurations"], "all valid objects of the eight message types, with any combination of the two schema location options",
     "The tests write the objects read from a few samples; fields and enumeration values absent from the samples are never written, and schema locations are tried once.",
     [X] + MODELS, [("serialiser set up for each call", X + ":NdmXmlIo.to_string"), ("element names and order", M)],
     "property-based testing: objects built from generated trees, written XML re-parsed with an independent parser", "generated search against a frozen schema")
prop("C03", "XML read, write, read is the identity and rewriting is stable",
     "Reading an XML message, writing the object and reading the result again gives an equal object with the same contents as the original file. Writing a second time gives the identical text.",
     ["inputs"], "all schema-valid XML messages of the eight types in any layout",
     "A round trip is tested on a handful of files, each with one layout and one set of optional fields.",
     [X] + MODELS, [("reader and writer share the declarations", M), ("string input and output", X)],
     "property-based round trip with an independent oracle on the final object", "generated search")
prop("C04", "XML that is not an NDM message is refused, never read in part",
     "XML input that is not well-formed (truncated, broken tag, stray markup), whose root is not one of the eight messages or the combined message, or that has an unknown, misplaced, misnamed, namespace-qualified or illegally repeated element anywhere in it, raises an exception. It is never read with the offending part silently dropped.",
     ["inputs"], "all single illegal structural edits of valid messages, plain or inside a combined message",
     "One unparsable string is tested; an unknown element or a truncated file is not.",
     [X], [("unknown elements are errors", X + ":NdmXmlIo.__init_parser"), ("well-formedness check", X + ":NdmXmlIo.from_string")],
     "property-based testing: valid messages with one generated illegal edit, refusal expected", "generated search over 14 kinds of edits")
prop("C05", "XML layout does not change what is read",
     "Two XML texts with the same content read as equal objects, whatever the indentation, white space around numbers and elements, line endings, comments, processing instructions, CDATA sections, character references, quoting, attribute order, empty-element form, XML declaration or schema location attributes.",
     ["inputs"], "all pairs of layouts of schema-valid messages",
     "Each sample has one layout.", [X, N], [("XML parsing", X + ":NdmXmlIo.from_string")],
     "metamorphic property-based testing: plain against random layout of the same generated message", "generated search")
prop("C06", "Reading KVN OPM, OMM, APM and RDM yields the contents of the file",
     "Reading any conforming KVN orbit parameter, orbit mean-elements, attitude parameter or re-entry message gives an object of that type in which every keyword's value and unit is in its own field (numbers exact, texts verbatim, enumeration members by name), blocks that are absent from the file are absent from the object, repeated blocks such as manoeuvres and user defined parameters are all there in order. All comments are kept, in order, before the data they precede.",
     ["inputs"], "all conforming messages: any optional keywords and blocks, any values, units given or not, comments wherever the standard allows them at the start of blocks",
     TESTS + "; which optional blocks are present decides how the file is cut into sections, and only a few of the combinations occur in the samples.",
     [K] + MODELS, KVN_READ, "property-based testing: generated messages, independent KVN renderer, field-by-field oracle", "generated search")
prop("C07", "Reading a KVN CDM yields both objects and the conjunction data exactly",
     "Reading any conforming KVN conjunction data message gives the relative data and the two objects, each with exactly its own metadata, orbit determination, force-model, state vector, covariance and comment values and units. No value of one object appears in the other, even where an optional value is present in only one of them.",
     ["inputs"], "all conforming CDMs with any optional keywords present in either object",
     "One CDM sample, in which both objects carry the same keywords.",
     [K, M + "/ndmxml_2_0_0_cdm_1_0.py"], KVN_READ + [("segments limited to their own lines", K + ":_find_segment_starts")],
     "property-based testing: generated CDMs, independent renderer and oracle", "generated search")
prop("C08", "Reading a KVN OEM yields every segment, ephemeris line and covariance",
     "Reading any conforming KVN orbit ephemeris gives its segments in order, each with its own metadata, comments, all ephemeris lines in order (epoch, position, velocity and, where present, acceleration in the right components) and all covariance matrices with their epochs, frames, comments and 21 elements in the right places.",
     ["inputs"], "all conforming OEMs: one or more segments, with or without accelerations, optional metadata and covariance blocks",
     "Two OEM samples; sections of one segment can be confused with those of the next only in combinations the samples do not have.",
     [K, M + "/ndmxml_2_0_0_oem_2_0.py"], KVN_READ + [("segments limited to their own lines", K + ":_find_segment_starts")],
     "property-based testing: generated OEMs, independent renderer and oracle", "generated search")
prop("C09", "Reading a KVN AEM yields every attitude state with the right meaning",
     "Reading any conforming KVN attitude ephemeris gives its segments in order with their metadata, comments and all attitude lines in order, each number in the component that the attitude type, the quaternion type (scalar part first or last) and the rotation sequence of that segment prescribe.",
     ["inputs"], "all conforming AEMs: seven attitude types in either case, both quaternion orders, all twelve rotation sequences, mixed segments",
     "Two samples with one attitude type each (out of seven), so most layouts of the data line are never read.",
     [K, M + "/ndmxml_2_0_0_aem_1_0.py"], KVN_READ + [("attitude line decoding by type", K)],
     "property-based testing: generated AEMs, independent renderer and oracle", "generated search")
prop("C10", "Reading a KVN TDM yields every observation under its own keyword",
     "Reading any conforming KVN tracking data message gives its segments in order with their metadata and comments, and all observations in file order, each with its own epoch and its value under its own data type.",
     ["inputs"], "all conforming TDMs: every observation keyword, any mix and order, repeated keywords, any number of segments",
     "Two TDM samples use a few of the observation keywords in regular patterns.",
     [K, M + "/ndmxml_2_0_0_tdm_2_0.py"], KVN_READ + [("observation line decoding", K)],
     "property-based testing: generated TDMs, independent renderer and oracle", "generated search")
prop("C11", "KVN layout does not change what is read",
     "Two KVN texts with the same lines of content read as equal objects, whatever the blanks and tabs around keywords, equals signs, values, units and data columns, the blank lines, the line endings, the alignment, an equals sign after COMMENT, or a missing final line ending.",
     ["inputs"], "all pairs of layouts of conforming KVN messages of the eight types",
     "Each sample has one layout.", [K, N], [KVN_READ[0]],
     "metamorphic property-based testing: plain against random layout of the same generated message", "generated search")
prop("C12", "Writing KVN OPM, OMM, APM, RDM and CDM says exactly what the object holds",
     "Writing any valid object of these types as KVN gives one line per value, in the order of the standard, with its keyword, its exact value and its unit where the object has one, the comments at the start of their blocks, and user defined parameters under their prefix. Nothing else is written but blank lines.",
     ["inputs"], "all valid objects of the five types", "The tests write the objects read from the samples and compare with stored output, so absent fields are never written.",
     [K] + MODELS, KVN_WRITE, "property-based testing: objects built from generated trees, written KVN tokenised independently", "generated search")
prop("C13", "Writing KVN OEM, AEM and TDM says exactly what the object holds",
     "Writing any valid ephemeris, attitude or tracking object as KVN gives for every segment its metadata between META_START and META_STOP and its data lines, in order, with their columns in the order prescribed by the data type (between DATA_START and DATA_STOP for AEM and TDM), covariance matrices in lower triangular form between COVARIANCE_START and COVARIANCE_STOP, and comments at the start of their blocks. All values are exact; nothing else is written but blank lines.",
     ["inputs"], "all valid objects of the three types: any number of segments, all attitude types and observation types, with or without units in the data",
     "The tests write a few samples with one attitude type each, so most data lines are never written.",
     [K] + MODELS, KVN_WRITE, "property-based testing: objects built from generated trees, written KVN tokenised independently", "generated search")
prop("C14", "KVN write then read is the identity, also on rewriting",
     "Writing any valid message object as KVN and reading the text back gives the same contents, with every value, unit and comment that KVN can express. Writing that object and reading once more gives an equal object.",
     ["inputs"], "all valid objects of the eight types, as far as KVN can express them",
     "Round trips are tested on a few samples.", [K] + MODELS, KVN_READ[:1] + KVN_WRITE,
     "property-based round trip with an independent oracle", "generated search")
prop("C15", "KVN and XML forms of a message agree and convert into each other",
     "The KVN form and the XML form of the same message read as objects with the same contents. Converting KVN to XML or XML to KVN through the object keeps every value, unit and comment.",
     ["inputs"], "all messages of the eight types that both formats can express",
     "Pairs of samples are compared for a few files only.", [K, X] + MODELS, KVN_READ + KVN_WRITE[:1],
     "differential property-based testing of the two readers and writers on generated messages", "generated search")
prop("C16", "All ways of reading agree; formats are recognised or refused as stated",
     "A message read from a string, from UTF-8 bytes or from a file (given as text, path or path-like), through the unified interface or the one for its format, gives equal objects of the right type, also with white space before or after it. Input that is none of the formats raises ValueError, a path that is not a file raises an exception, JSON input and JSON output raise NotImplementedError, and refused output creates no file.",
     ["inputs", "configurations"], "all messages in both formats and all texts that do not start as KVN, XML or JSON, through all entry points",
     "Entry points are tried with a few files each, mostly one per format.", [N, X, K],
     [("format detection", N + ":_identify_data_format"), ("dispatch", N + ":NdmIo.from_string"), ("data type by the header line", K + ":_identify_data_type"), ("data type by the root tag", X + ":_identify_data_type")],
     "differential property-based testing of all entry points on generated messages; generated junk", "generated search")
prop("C17", "Combined messages keep every message; a single one is unwrapped",
     "Reading a combined message gives every message in it, complete, in the list of its type in file order and of the same type as when read alone, with the message id and comments; if it holds exactly one message, that message itself is returned. Writing a combined object as XML says exactly what it holds. Writing it as KVN gives the KVN of its only message, and raises NotImplementedError without touching any file if it holds more.",
     ["inputs"], "all combined messages of one to four messages of any of the eight types in any order, with or without id and comments",
     "Two combined samples.", [X, K, M + "/ndmxml_2_0_0_ndm_2_0.py"],
     [("downcast of list members", X + ":NdmXmlIo.from_string"), ("unwrapping", X + ":_strip_multi_ndm"), ("KVN refusal", K + ":NdmKvnIo.to_string")],
     "property-based testing: generated combined messages, independent renderer, parser and oracle", "generated search")
prop("C18", "Files hold exactly the UTF-8 text of the message in any environment",
     "Writing a message to a file leaves in it exactly the UTF-8 encoding of the text that string output gives, whatever the locale, the kind of path given (text, path or path-like, absolute or relative) and the previous contents, and creates no other file; reading a UTF-8 file gives its contents under any locale. The name of the file and its suffix make no difference. Output that is refused leaves the target file as it was, and output that cannot be written in full raises an exception.",
     ["inputs", "configurations", "fault_sequences"], "all messages in both formats, three locales, five kinds of paths, three kinds of refused output, new and existing targets",
     "The tests write ASCII samples to new files under one locale.", [N, X, K],
     [("text made before the file is opened", X + ":NdmXmlIo.to_file"), ("explicit encoding", K + ":NdmKvnIo.to_file"), ("explicit encoding", N + ":NdmIo.from_path")],
     "property-based testing over messages, locales, path kinds and refused writes in a scratch folder", "generated search")
prop("C19", "A reused reader or writer behaves like a new one",
     "In any sequence of reads, refused reads, string and file writes with different options on the same interface objects, every call gives the same result as on a new interface object. Objects returned earlier are never changed by later calls, and changes the user makes to one of them never show in another result.",
     ["histories"], "all sequences of operations on several interface objects shared by messages of all types and formats",
     "The tests make a new interface object for nearly every call.", [K, X, N],
     [("parser state of the KVN reader", K + ":NdmKvnIo"), ("kept parser and serialiser", X + ":NdmXmlIo")],
     "stateful property-based testing: generated operation sequences against the frozen-schema oracle", "generated histories of 4-12 operations")
prop("C20", "Writing never changes the object; results share nothing",
     "Writing an object in any format leaves it as it was and gives the same text every time, and for every equal object. Reading the same text twice gives equal objects that have no mutable part in common with each other or within themselves, and newly constructed objects do not share lists.",
     ["inputs", "histories"], "all valid messages, both formats, repeated and alternated writes and reads",
     "The tests never look at an object after writing it.", [K, X] + MODELS,
     [("output by traversal only", K + ":_collate_str_out"), ("list defaults made per object", M)],
     "property-based testing: snapshots, identity scan and scrambling of earlier results", "generated search")
prop("C21", "Numbers keep their exact decimal value everywhere",
     "Every number keeps its exact decimal value through reading, writing and conversion between the formats, whatever its number of digits, exponent, sign or notation: nothing is rounded, truncated, or passed through binary floating point.",
     ["inputs"], "decimal values with up to 80 significant digits and exponents to +-324, integers to 31 digits, in every numeric field of the eight types",
     "The numbers of the samples have at most some 16 digits.", [K, X] + MODELS,
     [("decimal number types", M), ("numbers written as the decimal prints itself", K + ":_fill_str_out_kvn")],
     "property-based testing with extreme numbers in generated messages, exact decimal oracle", "generated search")
prop("C22", "Segments are read and written independently of their neighbours",
     "A segment of an OEM, AEM or TDM is read, and written to KVN, the same way whether it is alone in the file or among any other segments in any order or number; a segment that lacks a line, and is refused alone for that, is refused among others too and never takes anything from them. The two objects of a CDM read the same when they change places.",
     ["inputs"], "all selections, repetitions and orders of generated segments",
     "The samples have at most a few similar segments in one order.", [K],
     [("segments limited to their own lines", K + ":_find_segment_starts"), ("list sections", K + ":_identify_segments")],
     "metamorphic property-based testing: segments alone, together, permuted, repeated", "generated search")
prop("C23", "Changing one value in a file changes exactly that value in the object",
     "If one value (or several) of a message text is replaced by another valid value, exactly that field of the object read changes, to exactly the new value; if an optional value is removed, exactly that field becomes empty. Objects that differ in a value do not compare equal.",
     ["inputs"], "all single value edits of generated messages and digit edits of the sample files, both formats",
     "The tests never compare two files that differ in one value.", [K, X] + MODELS, KVN_READ,
     "metamorphic property-based testing: edit scripts on generated messages and on sample files", "generated search, oracle knows no schema")
prop("C24", "Damaged input is refused or read without inventing anything",
     "Reading a damaged KVN or XML text always ends: with an exception, or with an object of the message type that the text names, in which every value occurs in the text. It never hangs and never affects how later messages are read.",
     ["inputs", "fault_sequences"], "all texts got from valid messages and samples by deleting, repeating, moving, cutting, joining and corrupting lines and characters",
     "Three junk strings are tested.", [K, X, N], KVN_READ + [("format detection", N + ":_identify_data_format")],
     "mutation fuzzing of generated messages and samples with a no-invention oracle", "generated search; which of the two outcomes occurs is not prescribed")
prop("C25", "Large messages keep every item in order",
     "Messages with hundreds of data lines, segments, covariance matrices, manoeuvres, user defined parameters or comments, or with texts of many megabytes, are read, written and read back with every item there, in order, with its own values, and every text in full.",
     ["inputs"], "messages of all types with 12 to 10100 repeats of each repeatable item, or texts of up to 14 million characters, in both formats",
     "The samples have at most some dozens of lines.", [K, X], KVN_READ + KVN_WRITE,
     "property-based testing with generated messages blown up to hundreds of distinguishable items", "generated search")
prop("C26", "Edits of an object show in the output, and nothing else does",
     "After assigning, adding, removing or reordering fields, blocks and list members of an object that was read or constructed, even if it was written before, each format written says exactly what the edited object holds.",
     ["histories", "inputs"], "all sequences of up to four edits of objects of the eight types read from KVN, from XML, or constructed",
     "One field of one CDM is edited in the tests.", [K, X] + MODELS, KVN_WRITE + [("serialiser", X + ":NdmXmlIo.to_string")],
     "stateful property-based testing: generated edit sequences applied to the object and to the model", "generated search")

prop("C27", "No line of a KVN file is silently left out",
     "A KVN text with a line that has no place in its message (an unknown keyword, a keyword of another message type, free text, a stray or surplus column of numbers, a structure keyword with a value, a keyword given twice where it may stand once) is refused with an exception. If a text is read at all, every value, unit, comment and data column of it is in the object.",
     ["inputs"], "all single insertions and repetitions of lines and columns in valid messages, moved lines, and all kinds of damage to messages and samples",
     "No test reads a KVN file with a line too many.", [K], [("every line claimed by a section", K + ":_build_object"), ("column counts of data lines", K + ":_zip_columns")] + KVN_READ,
     "property-based testing and mutation fuzzing with a nothing-lost oracle (multiset of values)", "generated search")
prop("C28", "Values of the wrong type never pass silently",
     "Where a number, a unit or one of a fixed set of words is expected and the text holds something else, reading either raises an exception or gives a warning and keeps the very text of the file in that field. Such a text never becomes another value, never disappears without notice, and changes no other field. A valid message is read without a warning.",
     ["inputs"], "all replacements of one typed value by a text that is not of the type, both formats, all message types",
     "The samples have no wrong value.", [X, K] + MODELS, [("typed fields", M), ("conversion with warnings", X + ":NdmXmlIo.__init_parser")],
     "property-based testing: generated messages with one ill-typed value", "generated search")
prop("C29", "Threads with their own readers and writers do not disturb each other",
     "Messages that are read and written at the same time in several threads, each with its own interface object, give the same results as when read and written alone.",
     ["schedules", "inputs"], "two to four threads with any messages, formats and operations, with strings and files, switched at the lines of the library, the calls of its XML parser and the calls that open or move files",
     "The tests have one thread.", [K, X, N], [("parser state held in the interface object", K + ":NdmKvnIo"), ("parser made for each object", X + ":NdmXmlIo")],
     "property-based testing with a deterministic seeded scheduler of thread switches", "generated schedules; switches inside C code are not explored")
prop("C30", "Incomplete objects are refused or written as they are",
     "If values of an object are missing, the XML written says exactly what is left. The KVN output is refused where a data line (ephemeris, covariance, attitude, observation) would lack a column or leave out a second value, and otherwise says exactly what is left. Missing values never shift others, appear as None, or are replaced by values from elsewhere.",
     ["inputs"], "all objects of the eight types with one to three values removed, or a second value in a data line", "No test writes an object with a missing value.",
     [K, X] + MODELS, KVN_WRITE, "property-based testing: generated objects with removed values, independent tokenisers", "generated search")
prop("C31", "Texts cannot break or forge the structure of the output",
     "Whatever the texts of an object contain (line breaks, markup, keywords, control characters, lone surrogates, blanks), the output reads back with exactly these texts and nothing else changed, or is refused. In KVN, comments with line breaks become several comments, white space around a text and the case of user defined names are not kept; a text with line breaks, a data epoch with white space or a name with an equals sign is refused. Texts made of the printable characters of a format are never refused.",
     ["inputs"], "all objects with one to four hostile texts in any text field, both formats, strings and files", "The texts of the samples are plain words.",
     [K, X], [("line break check", K + ":NdmKvnIo.to_string"), ("comments split in lines", K + ":_split_comment"), ("single columns", K + ":_to_columns"), ("escaping by the serialiser", X + ":NdmXmlIo.to_string")],
     "property-based testing and fuzzing with hostile texts, round-trip oracle", "generated search")
prop("C32", "Numbers given as int, float or text are written as they are",
     "Objects whose numbers the user has set as Python int, float or str instead of Decimal are written in both formats with exactly the value that Python prints for them, and read back with that value.",
     ["inputs"], "all objects with any of their numbers given as int, float or str", "The tests build objects with Decimal only.",
     [K, X] + MODELS, KVN_WRITE[:1] + [("serialiser", X + ":NdmXmlIo.to_string")],
     "property-based testing: generated objects with plain Python numbers", "generated search")
prop("C33", "Results do not depend on the environment of the process",
     "What is read from a message, which messages are refused, and the KVN and XML texts and files written are the same whatever the environment of the process is: hash seed, locale, time zone, UTF-8 mode, optimisation level, standard stream encoding, home folder, and the precision, rounding and exponent limits of the decimal context. In particular every number keeps all its digits.",
     ["inputs", "configurations"], "all messages, valid or damaged, and all environments of these kinds", "The tests run in one environment.",
     [K, X, N] + MODELS, [("text of a file", K + ":NdmKvnIo.from_path"), ("numbers in KVN", K + ":_fill_str_out_kvn"), ("numbers in XML", X + ":NdmXmlIo.from_string")],
     "property-based testing: generated messages and environments, differential between processes", "generated search over messages and environments")
prop("C34", "Message objects can be copied, pickled and compared",
     "Every message object, read or built, can be copied (copy, deepcopy, dataclasses.replace) and pickled with any protocol; the copy is equal to the original, holds exactly the same values and is written as the same text. A deep or unpickled copy shares nothing with the original: changing the one does not change the other, and after a change they are not equal. A message is never equal to an object of another type.",
     ["inputs"], "all objects of all message types and the combined message, all ways of copying", "No test copies a message.",
     MODELS + [X], [("dataclass declarations", M), ("enumerations", "ccsds_ndm/models")],
     "property-based testing: generated objects, metamorphic relation between copy and original", "generated search")
prop("C35", "Entities and document types in XML neither lose values nor read other files",
     "A value of an XML message that comes in part or in full from an entity declared in the message itself is read like the same value written out, and declarations that are not used change nothing. An entity that would need another file or address, is undeclared, refers to itself, or expands without bounds is refused, promptly. The contents of other files never appear in a message, and no part of a value is silently left out.",
     ["inputs"], "all XML messages of all types and the combined message, with any entities and document type declarations", "No sample has a document type declaration.",
     [X], [("well-formedness check", X + ":_check_well_formed"), ("parsing", X + ":NdmXmlIo.from_string")],
     "property-based testing and fuzzing: generated messages whose values are moved into generated entities, metamorphic oracle", "generated search over 15 kinds of declarations")

prop("C36", "Named constants and constructors of the message model mean what they say",
     "Every enumerated value and every unit that is read from a message is the constant of the package with the name for that text (TimeSystemType.UTC for UTC, PositionUnits.KM for km), and a constant given by name is written as that text. All classes and constants of the eight messages are importable from ccsds_ndm.models.ndmxml2. A message built with keywords, positionally in the order of the schema, or step by step from empty objects (in any order, appending to their lists) holds exactly the values given, is equal to the same message built in another way, and is written as the same text.",
     ["inputs"], "all objects of the eight message types, all ways and orders of building them", "The tests build one object and name few constants.",
     MODELS, [("dataclass declarations and enumerations", M)],
     "property-based testing: generated messages and ways of building, against the tree they are generated from", "generated search")

with open("properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}, ensure_ascii=False) + "\n")
json.dump({"version": 1, "setup_cmd": "true",
           "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"./check {p['id']}", "technique": p["technique"],
                       "level": "exploration", "level_note": p["note"]} for p in P],
           "not_applicable": []}, open("MANIFEST.json", "w"), indent=1)
