#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

PY = "flatdata-py/flatdata/lib/"
GEN = "flatdata-generator/flatdata/generator/"
CPP = "flatdata-cpp/include/flatdata/"
SRC = "flatdata-cpp/src/"

prop("B01", "Reading a bit field returns exactly the number stored in its bits",
 "For every bit offset, every width from 1 to 64 bits and both signednesses, the Python, C++, Rust and Go field readers return the number whose (two's complement, for signed types) little-endian binary representation occupies exactly those bits; a one-bit field reads as 0 or 1. The surrounding bits and bytes never influence the result, and the result always fits the field's width.",
 ["inputs"], "all bit offsets x widths 1..64 x signedness x memory contents",
 "Unit tests use single-bit-set patterns at small offsets with empty neighbours, so wrong masks, wrong carry-over bytes or wrong sign extension for other (offset, width, neighbour) combinations go unseen.",
 [PY+"data_access.py", CPP+"internal/Reader.h", CPP+"internal/BitHelpers.h", "flatdata-rs/lib/src/bytereader.rs", "flatdata-go/flatdata/reader.go"],
 [("read_value", PY+"data_access.py"), ("Reader", CPP+"internal/Reader.h"), ("flatdata_read_bytes!", "flatdata-rs/lib/src/bytereader.rs"), ("Read*", "flatdata-go/flatdata/reader.go")])

prop("B02", "Writing a bit field stores the value and touches no other bit",
 "For every bit offset, every width from 1 to 64 bits and both signednesses, writing a value that fits the field through the Python, C++ or Rust field writers makes a subsequent read return that value, whatever the field held before. Every bit outside the field keeps its previous value.",
 ["inputs", "histories"], "all offsets x widths x signedness x previous memory contents x representable values",
 "Tests write into zeroed memory in increasing field order; overwriting old values and preserving non-zero neighbours on both sides is hardly ever exercised.",
 [PY+"data_access.py", CPP+"internal/Writer.h", CPP+"internal/BitHelpers.h", "flatdata-rs/lib/src/bytewriter.rs"],
 [("write_value", PY+"data_access.py"), ("Writer", CPP+"internal/Writer.h"), ("flatdata_write_bytes!", "flatdata-rs/lib/src/bytewriter.rs")])

prop("B03", "Struct layout follows from the schema and agrees between Python and C++",
 "For every valid struct definition the fields occupy consecutive bits in declaration order starting at bit 0, with the declared (or default) width and signedness, and the struct occupies the total width rounded up to whole bytes. The generated C++ and Python code both read and write every field, including enumeration and boolean ones, at exactly those positions, so bytes produced by one are read as the same values by the other.",
 ["programs", "inputs"], "all struct definitions (field types, widths, enum-typed fields) x field values",
 "The tests compare generated text for a few fixed schemas; the mapping from schema to bytes is not exercised for arbitrary definitions nor between languages.",
 [GEN+"tree/nodes/trivial/structure.py", GEN+"tree/nodes/trivial/field.py", GEN+"tree/helpers/basictype.py", GEN+"tree/builder.py", GEN+"templates/py/python.jinja2", GEN+"templates/cpp/structure.jinja2", PY+"structure.py"],
 [("field offsets and struct sizes", GEN+"tree/nodes/trivial/structure.py"), ("structure template", GEN+"templates/cpp/structure.jinja2"), ("python template", GEN+"templates/py/python.jinja2")])

prop("R01", "Stored resources are framed by their exact size, padding and schema",
 "Every resource stored through the C++ or Python archive builders (struct, vector, growing vector, multivector and its index, raw data) is a file of an 8-byte little-endian payload size, the payload, and 8 zero bytes, accompanied by a schema file holding exactly the resource's schema text, and the archive itself gets a signature with an empty payload and the archive's schema. The payload is the concatenation of the encoded elements in the order they were given (for a multivector, each preceded by its type's position, with an index of byte offsets that ends with the total size), and an archive written by either language opens in the other with the same contents.",
 ["histories", "inputs"], "all archive contents written through the builders, both writers x both readers",
 "Tests check a handful of small archives against binary dumps or against the same library's reader.",
 [SRC+"ResourceStorage.cpp", CPP+"internal/ResourceHandle.h", CPP+"internal/ResourceStorageCommon.h", CPP+"internal/ResourceStorage.inl", PY+"archive_builder.py", PY+"resource_storage.py", PY+"flatdata_writer.py"],
 [("write_to_stream / ResourceHandle", SRC+"ResourceStorage.cpp"), ("ArchiveBuilder.set / add_size / add_padding", PY+"archive_builder.py")])

prop("R02", "The Python reader rejects missing, damaged or mismatching resources",
 "Opening an archive in Python succeeds exactly when the signature and every mandatory resource (recursively through subarchives, with a multivector's index) are present together with their schemas, every present schema of a signature or resource equals the expected text, and the recorded size of every present resource agrees with its file length and its elements' size; otherwise it raises the missing-resource, schema-mismatch or corrupt-resource error that applies, never another exception. A resource that is returned holds exactly the values stored in its file. An optional resource whose data, schema or index file is absent is reported as none, while a present one, even an empty one, is returned.",
 ["fault_sequences", "inputs"], "all combinations of removed / truncated / extended / resized / schema-altered files over all resource kinds, mandatory and optional",
 "Tests cover one missing resource, one missing schema and one wrong schema in memory; combinations, truncation and empty resources are not sampled.",
 [PY+"archive.py", PY+"resources.py", PY+"file_resource_storage.py", PY+"tar_archive_resource_storage.py"],
 [("Archive._open_resource", PY+"archive.py"), ("ResourceBase", PY+"resources.py")])

prop("R03", "The C++ reader opens an archive exactly when it is complete and intact",
 "In C++ an archive reports itself open exactly when its signature and every mandatory resource (recursively through subarchives, and for a multivector its index) are present, have file length equal to the recorded payload size plus framing, and carry exactly the expected schema text; every resource it then exposes holds exactly the stored payload. An optional resource that is absent or damaged is simply reported as unavailable and does not affect the rest.",
 ["fault_sequences", "inputs"], "all combinations of removed / truncated / extended / resized / schema-altered files over all resource kinds",
 "Tests remove or alter a few files of one archive.",
 [SRC+"Archive.cpp", SRC+"ResourceStorage.cpp", CPP+"Archive.h", CPP+"internal/ResourceStorage.inl", GEN+"templates/cpp/archive.jinja2"],
 [("read_and_check_schema", CPP+"internal/ResourceStorage.inl"), ("Archive::initialize", SRC+"Archive.cpp")])

prop("R04", "A writer that dies never leaves a readable partial resource",
 "If the process writing a resource through the C++ or Python builder stops at any point between two file operations, a later reader either reports that resource as unavailable or corrupt, or returns it with its complete final contents. It never exposes a truncated, padded or otherwise different resource, and resources completed earlier stay readable in C++.",
 ["crash_points"], "all interruption points between system calls of writing programs over all resource kinds and sizes around the flush limit",
 "No test interrupts a writer.",
 [CPP+"internal/ResourceHandle.h", SRC+"ResourceStorage.cpp", CPP+"internal/ResourceStorage.inl", CPP+"ExternalVector.h", CPP+"MultiVector.h", PY+"resource_storage.py", PY+"file_resource_writer.py"],
 [("size placeholder finalised on close", CPP+"internal/ResourceHandle.h"), ("size check on open", CPP+"internal/ResourceStorage.inl")])

prop("R05", "The C++ archive builder never alters an existing archive",
 "A C++ builder opened where no archive exists creates the signature and accepts each resource; opened where the same archive already exists it accepts no resource (every set or start reports an error) and leaves every stored byte unchanged, while its subarchives can still be created if absent; opened where a signature with a different schema exists it does not open at all. An archive assembled in any order of such operations opens exactly when all mandatory resources have been completed.",
 ["histories"], "all histories of open / set / start / grow / close / subarchive / reopen / read operations",
 "Tests follow a few straight-line histories.",
 [SRC+"ArchiveBuilder.cpp", CPP+"ArchiveBuilder.h", GEN+"templates/cpp/archive.jinja2"],
 [("ArchiveBuilder::initialize / check_created", SRC+"ArchiveBuilder.cpp")])

prop("R06", "The Python archive builder writes each resource at most once, all or nothing",
 "For every sequence of set calls, the Python builder accepts the first valid value for each known resource and rejects unknown resources, repeated sets and values with missing or unknown fields or unknown structures with its documented errors, leaving everything written before intact. After the builder finishes, the Python and C++ readers see exactly the accepted values, and a rejected value leaves nothing that reads as that resource.",
 ["histories", "inputs"], "all sequences of set calls with valid and invalid values over all resource kinds",
 "Tests check each error in isolation and never look at what a failed call left behind.",
 [PY+"archive_builder.py", PY+"resource_storage.py", PY+"file_resource_writer.py", PY+"flatdata_writer.py"],
 [("ArchiveBuilder.set", PY+"archive_builder.py"), ("_Resource", PY+"resource_storage.py")])

prop("R07", "Memory, file and tar storages are interchangeable",
 "The same sequence of C++ builder operations produces byte-identical resources in memory and in files, and reading the finished result through memory, file or tar storage in C++, or through file or tar storage in Python, yields the same archive contents and the same open/not-open outcome, including for nested subarchives, for damaged archives, and for tar files with and without leading './' or directory entries.",
 ["histories", "configurations"], "all archives, intact or damaged, x all storage kinds",
 "Each storage is tested with its own examples; equality across storages is not.",
 [CPP+"FileResourceStorage.h", CPP+"MemoryResourceStorage.h", CPP+"TarArchiveResourceStorage.h", CPP+"MemoryMappedFileStorage.h", CPP+"MemoryMappedTarFileStorage.h", PY+"tar_archive_resource_storage.py", PY+"file_resource_storage.py"],
 [("read_resource / directory / exists", CPP+"FileResourceStorage.h"), ("TarArchiveResourceStorage.get", PY+"tar_archive_resource_storage.py")])

prop("R08", "Tar files are indexed exactly, or rejected",
 "For every well-formed uncompressed GNU or ustar file made of regular files and directories, the C++ tar index lists exactly the regular-file members with their full names, data offsets and sizes (of several members with one name, the last), in spite of long-name records, name prefixes, number formats, padding and trailing blocks. A file with a header whose checksum is wrong, whose member type is unsupported, or whose size field is malformed or overflows is rejected with an error, and no listed member ever gives access to bytes outside the file.",
 ["inputs", "fault_sequences"], "all sequences of tar members and header corruptions",
 "Tests read one tar of the test archive.",
 [SRC+"TarReader.cpp", CPP+"internal/TarReader.h", CPP+"MemoryMappedTarFileStorage.h", CPP+"TarArchiveResourceStorage.h"],
 [("TarReader", SRC+"TarReader.cpp"), ("member lookup", CPP+"MemoryMappedTarFileStorage.h")])

prop("C01", "C++ vectors behave as sequences of fixed-size records",
 "Under every history of growing, indexing, resizing, copying, assigning field values and closing, C++ in-memory vectors, single structs and growing (external) vectors hold exactly the sequence of element values that was written: elements never disturb one another, new elements start zeroed, sizes and byte sizes match the element count, and closing a growing vector of any length (including across its internal flush limit) stores and returns exactly that sequence.",
 ["histories"], "all operation histories, element sizes and lengths around the flush boundary",
 "Tests use fixed short histories with one or two struct types.",
 [CPP+"Vector.h", CPP+"ExternalVector.h", CPP+"Struct.h", CPP+"ArrayView.h"],
 [("Vector", CPP+"Vector.h"), ("ExternalVector::grow/flush/close", CPP+"ExternalVector.h")])

prop("C02", "Multivectors return every item's elements in order with their types",
 "For every history of growing a multivector and adding elements of any of its types (including empty items), the closed result has exactly one item per grow, and each item yields exactly its elements, in order, with their type and field values, in C++ and in Python, by index, by iteration and by typed visiting. The stored index starts at 0, is non-decreasing, and ends with the total data size. A multivector with more data than its index type can address is refused when it is closed, and nothing can be read from it.",
 ["histories"], "all histories of grow/add over up to several element types, empty items and sizes around the flush boundary",
 "Tests use a few fixed item sequences.",
 [CPP+"MultiVector.h", CPP+"MultiArrayView.h", PY+"resources.py", PY+"archive_builder.py", GEN+"templates/cpp/resource.jinja2"],
 [("MultiVector::grow/flush/close", CPP+"MultiVector.h"), ("MultiArrayView", CPP+"MultiArrayView.h"), ("Multivector", PY+"resources.py")])

prop("C03", "C++ array views and their slices behave as immutable sequences",
 "For every array view, slicing by position and length or by range, skipping from either end, indexing, front, back, iteration and iterator arithmetic, distance and comparison in C++ agree with the same operation on the abstract sequence of elements, and slices of slices compose. Two elements written through the library compare equal exactly when all their fields are equal, whatever memory they live in.",
 ["inputs", "histories"], "all lengths, slice bounds and compositions of view operations",
 "Tests use one view length and a few slices.",
 [CPP+"ArrayView.h", CPP+"internal/ArrayViewIterator.h", GEN+"templates/cpp/structure.jinja2"],
 [("ArrayView", CPP+"ArrayView.h"), ("ArrayViewIterator", CPP+"internal/ArrayViewIterator.h")])

prop("C04", "Range fields delimit consecutive elements and hide the sentinel",
 "For a struct with a field annotated as range, the generated C++ accessor for element i returns exactly the pair (value of element i, value of element i+1), and views opened from or closed into an archive expose one element fewer than are stored, so that every exposed element has a valid range; an empty or sentinel-only resource exposes no element. Python reads the same stored values with the sentinel as the last element.",
 ["inputs", "histories"], "all vectors of range structs, field positions and widths",
 "Tests use one range struct with a few values.",
 [GEN+"templates/cpp/structure.jinja2", CPP+"ArrayView.h", CPP+"internal/Reader.h"],
 [("range field generation", GEN+"templates/cpp/structure.jinja2"), ("sentinel hiding", CPP+"ArrayView.h")])

prop("C05", "Optional fields are absent exactly when they hold their sentinel",
 "For a field declared optional with a constant, the generated C++ reader reports no value exactly when the stored bits equal that constant and otherwise the stored value; assigning no value stores the constant and assigning a value stores the value, for every width, signedness, position and constant. Neighbouring fields are unaffected.",
 ["inputs"], "all field types, widths, offsets, constants and values",
 "Tests use one optional field at one position.",
 [CPP+"internal/Reader.h", CPP+"internal/Writer.h", GEN+"templates/cpp/structure.jinja2"],
 [("optional reader", CPP+"internal/Reader.h"), ("optional writer", CPP+"internal/Writer.h")])

prop("C06", "Resources too large for their references do not open in C++",
 "When explicit references with a field narrower than 64 bits point at a resource, the generated C++ reader does not open an archive whose stored resource has more elements (items for a multivector, bytes for raw data) than the narrowest referring field can address, while every size up to and including that limit opens and reads normally. The limit is the smallest 2^width over all referring fields of all reference declarations in the schema that name the resource, from whichever archive, a range vector's sentinel not counting as an element; resources that no such reference names, single structs and subarchives are never limited.",
 ["programs", "inputs"], "all reference declarations and resource sizes around the limit",
 "Tests check one archive with one limit.",
 [GEN+"tree/builder.py", GEN+"tree/nodes/resources/base.py", GEN+"templates/cpp/archive.jinja2", CPP+"Archive.h"],
 [("max_size of resources", GEN+"tree/nodes/resources/base.py"), ("size checks on opening", GEN+"templates/cpp/archive.jinja2")])

prop("P01", "Python resource access agrees with the stored bytes",
 "For every stored vector, instance and multivector, Python length, indexing (including negative indexes), slices with any start, stop and step, iteration, per-field columns, and conversion to tuples, lists, dictionaries, numpy arrays and data frames all return exactly the decoded elements in sequence order and fields in declaration order. Out-of-range indexes raise IndexError rather than returning data.",
 ["inputs"], "all element counts, indexes, slices and struct shapes",
 "Tests read a few elements of fixed data.",
 [PY+"resources.py", PY+"structure.py"],
 [("Vector / Multivector / Instance / _VectorSlice", PY+"resources.py"), ("Structure", PY+"structure.py")])

prop("P02", "Python raw data access respects the payload bounds",
 "For every raw data resource, Python length, indexing, slicing and the substring helpers return exactly the bytes (or strings) of the payload at those positions: slices follow Python sequence semantics over the payload, substrings end at the first separator at or after the start or at the end of the payload, and framing bytes are never returned.",
 ["inputs"], "all payloads, positions, slice bounds and separators",
 "Tests read two strings from one payload.",
 [PY+"resources.py"], [("RawData", PY+"resources.py")])

prop("P03", "An archive on disk describes itself to the Python inspector",
 "Any archive written by the C++ or Python builder for any accepted schema, in a directory or packed in a tar file, can be opened by the Python inspector from its path alone, without the schema file, and exposes the same resources and values as opening it with code generated from the original schema. Ambiguous or missing archive names are reported as errors.",
 ["programs", "histories"], "all schemas and archives, directory and tar",
 "Tests open one archive directory.",
 [PY+"inspector.py", GEN+"engine.py", GEN+"generators/python.py", GEN+"templates/py/python.jinja2"],
 [("open_archive", PY+"inspector.py"), ("render_python_module", GEN+"engine.py")])

prop("P04", "A Python archive describes itself truthfully",
 "For every schema and intact archive (in a directory or a tar file, optional resources present or not, also inside subarchives) opened in Python, the table of resources lists the signature and then every declared resource in declaration order with its container type, whether it is optional, the bytes of its file (of all files of its table for a subarchive, without a multivector's index) and its number of elements, and no sizes for absent ones; the archive's size is the sum of these bytes and its length the number of rows; dir() lists the resources; the archive's name and the schemas it returns are the stored ones; and the representation of each resource tells its container, element count, bytes, and for every element type (and a multivector's index) the name, first bit, width and signedness of every field.",
 ["programs", "inputs"], "all schemas and archive contents, optional resources present and absent, subarchives",
 "The tests compare the representation and table of one fixed archive.",
 [PY+"archive.py", PY+"resources.py", PY+"structure.py", GEN+"templates/py/python.jinja2", GEN+"generators/python.py"],
 [("to_data_frame / size_in_bytes / __len__", PY+"archive.py"), ("_repr_attributes", PY+"resources.py"), ("Structure._repr_attributes", PY+"structure.py"), ("archive_definition", GEN+"templates/py/python.jinja2")])

prop("G01", "Names in a schema resolve to the innermost visible definition",
 "For every schema, a type, constant, resource or archive name used in a field, decoration or resource refers to the definition found by searching first inside the struct or archive that uses it and then in that one's own namespace, or, written with a leading dot, to exactly the definition with that full path. A name that resolves to nothing or to the wrong kind of definition, and a name that is defined twice in the same scope (also across several blocks of one namespace, or as a namespace and a definition), is rejected. Resolution, acceptance and the meaning of the stored schemas do not depend on the order of definitions and blocks or on unrelated definitions.",
 ["programs"], "all schemas: nesting of namespaces, definitions, local and qualified references, orders",
 "Tests contain a few dozen fixed schemas.",
 [GEN+"tree/resolver.py", GEN+"tree/builder.py", GEN+"tree/traversal.py"],
 [("resolve_references", GEN+"tree/resolver.py")])

prop("G02", "Schemas are accepted exactly when they obey the type and value rules",
 "The generator accepts a schema exactly when every constant fits its type; field widths do not exceed their type's width; enumerations have distinct names and numbers that fit the declared width, which is not much larger than they need (2n+256 >= 2^width for n values), and an enumeration field repeats no other width; @const and @optional name constants of exactly the field's type that fit the field, with at most one @optional; a range's name differs from the struct's fields, is not optional, and structs with ranges are used in vectors only; a multivector lists distinct structs; each explicit reference names a struct of that resource, a field of the struct and an existing resource, and is given once; bound resources exist; and archives do not contain themselves, directly or through others. Otherwise it reports an error and generates nothing.",
 ["programs"], "all schemas over these constructs with values at and around every limit",
 "Tests sample single values per rule.",
 [GEN+"tree/builder.py", GEN+"tree/errors.py", GEN+"grammar.py"],
 [("build_ast checks", GEN+"tree/builder.py")])

prop("G03", "Stored schemas are self-contained, canonical and change only with meaning",
 "For every accepted schema, the schema stored with an archive consists of exactly the archive's own definition, every definition its resources depend on (structs, their enumerations and constants, archives inside it and theirs) and the constants no field refers to, and the one stored with a resource of the archive reduced to that resource and the definitions its types depend on; all with names fully resolved, numbers and widths explicit, and each definition after the ones it needs. The archive's schema is itself accepted and yields the same stored definitions again. Stored texts do not depend on comments, whitespace, spelling of names and numbers, hash seeds, the order of definitions other than constants, or definitions the archive does not use, and they differ whenever a field, width, type, order, enumeration value, decoration or used constant differs.",
 ["programs"], "all schemas and all semantic and non-semantic edits of them",
 "Tests compare fixed schemas to fixed normalised output.",
 [GEN+"generators/flatdata.py", GEN+"templates/flatdata", GEN+"tree/syntax_tree.py", GEN+"tree/traversal.py"],
 [("SyntaxTree.schema / extracted schema", GEN+"tree/syntax_tree.py"), ("flatdata templates", GEN+"templates/flatdata")])

prop("G04", "Enumeration and constant values are the same in every language",
 "For every accepted enumeration, values without an explicit number continue from the previous one, and each name has the same number in the generated C++ and Rust code and in the stored schema; every pattern of bits a field of the enumeration can hold reads in C++, Rust and Python as its number, whether the schema names it or not (unnamed ones are called UNKNOWN_VALUE_n), writing an enumerator stores its number's bits, and C++ to_string gives each its name. Every constant, up to the limits of its type, has its number in generated C++ and Rust code and in stored schemas.",
 ["programs", "inputs"], "all enumerations: explicit, implicit, negative, sparse values, widths and base types; all constants",
 "Tests sample a few enumerations.",
 [GEN+"tree/nodes/trivial/enumeration.py", GEN+"tree/nodes/trivial/enumeration_value.py", GEN+"tree/builder.py", GEN+"templates/cpp/enumeration.jinja2", GEN+"templates/rust/enumeration.jinja2", GEN+"templates/cpp/constant.jinja2", GEN+"tree/helpers/enumtype.py"],
 [("value assignment", GEN+"tree/nodes/trivial/enumeration.py")])

RS = "flatdata-rs/lib/src/"
RT = GEN+"templates/rust/"

prop("G05", "What the generator makes depends on schema and language alone",
 "For every accepted schema and every language the generator offers, the text it makes is the same whenever and wherever it is made: whatever was opened or rendered before, in whatever order, by the same engine or another one, in whatever process and hash seed, through the engine or the command line. The command line writes exactly this text into the named file, creating missing directories and replacing what was there, and succeeds exactly when there is one; a refused schema, a language that is not offered or that cannot express the schema leaves files untouched and ends with an error.",
 ["programs", "histories"], "all schemas, languages, sequences of openings, renderings and command lines, hash seeds",
 "Tests render each fixed schema once in a fresh engine.",
 [GEN+"engine.py", GEN+"app.py", GEN+"generators/__init__.py", GEN+"tree/builder.py", GEN+"tree/traversal.py"],
 [("Engine.render", GEN+"engine.py"), ("_run", GEN+"app.py")])

prop("G06", "The graph of a schema shows what the schema declares",
 "For every accepted schema, the graph drawn by the generator (dot) is well-formed and consists of exactly: a cluster for every namespace, in it one for every archive, in it one for every resource that no resource of the archive binds implicitly, with its name, kind and whether it is optional; in each resource the structures it holds (for a bound resource those of what it binds, for a multivector also its index), each with its fields in order, their types (enumerations by their name relative to the structure's namespace, or in full) and widths; and an arrow from the field of every explicit reference, wherever its resource is shown, to the resource it refers to, wherever that is shown. Structures outside of archives are not shown. (What it means to bind a bound resource again is left open.)",
 ["programs"], "all schemas",
 "One test asserts that a structure outside of archives is not shown.",
 [GEN+"generators/dot.py", GEN+"templates/dot", GEN+"tree/syntax_tree.py"],
 [("DotGenerator", GEN+"generators/dot.py"), ("_render_edge", GEN+"templates/dot/references.jinja2"), ("binding_resources_or_self", GEN+"tree/syntax_tree.py")])

prop("G07", "Comments in a schema change nothing but documentation",
 "For every accepted schema, putting a comment of any text, in line or block form, in front of any of its definitions, structure fields, enumeration values or resources leaves it accepted, and changes nothing in what is generated except comments and documentation: the C++, Rust, Go and Python code without its comments and documentation strings is the same, character by character outside of blanks, every generated comment ends where it should and stands where its language lets it stand, and the stored schema and the graph are the same texts. In Python, the documentation of every structure and resource is exactly the comment in front of it.",
 ["programs"], "all comments in front of anything in a schema",
 "Tests have a few friendly comments; quotes, backslashes, comment delimiters, lines without asterisks and the like are not tried.",
 [GEN+"generators/rust.py", GEN+"generators/python.py", GEN+"generators/cpp.py", GEN+"generators/go.py", GEN+"generators/flatdata.py", GEN+"grammar.py"],
 [("rust_doc", GEN+"generators/rust.py"), ("to_python_doc / safe_py_string_line", GEN+"generators/python.py"), ("to_go_doc", GEN+"generators/go.py")])

prop("X01", "Rust writes and reads the same archives as C++ and Python",
 "For every schema the Rust generator supports and all contents, an archive written by the generated Rust builder, to files or to memory, consists of exactly the files and bytes the format prescribes (size, payload, padding, schema, signature, multivector index; a vector of structs with ranges includes its closing element) and shows the same contents in Rust, C++ and Python; an archive written by C++ or Python shows the same contents in Rust.",
 ["programs", "inputs"], "all schemas, archive contents, writers and readers",
 "The library's tests compare a few fixed archives within one language.",
 [RS+"storage.rs", RS+"filestorage.rs", RS+"memstorage.rs", RS+"structs.rs", RT+"archive.jinja2", RT+"structure.jinja2", GEN+"generators/rust.py"],
 [("create_archive / read_resource", RS+"storage.rs"), ("archive template", RT+"archive.jinja2")])

prop("X02", "Rust vectors, external vectors and multivectors store what was put in",
 "For every history of creating, growing, reserving, clearing and setting elements, a Rust vector holds exactly the elements it was given, its size and view agree with them (a view of structs with ranges leaves out the closing element and the range of every element ends where the next one begins), new elements are zero, and its bytes are the concatenation of the elements. Every external vector and multivector, of any size, including those larger than the 32 MB write buffer, stores exactly the elements in the order and with the types they were given, and the view returned on closing shows the same; a multivector with more data than its index type can address is refused, not before, and cannot be read.",
 ["histories"], "all operation histories, element sizes and counts, crossing the write buffer's limit at any position",
 "The library's tests push a few elements into one or two structs and never fill the write buffer.",
 [RS+"vector.rs", RS+"multivector.rs", RS+"arrayview.rs", RS+"multiarrayview.rs", RS+"structs.rs"],
 [("Vector / ExternalVector", RS+"vector.rs"), ("MultiVector", RS+"multivector.rs")])

prop("X03", "The Rust reader opens intact archives and reports the fault of others",
 "Opening an archive in Rust succeeds exactly when the signature and every mandatory resource are present (recursively through subarchives, with a multivector's index), every file that is present, of mandatory and optional resources alike, carries the expected schema and a recorded size that agrees with its length and its elements' size. Otherwise it returns an error naming a fault that exists - missing, wrong size or wrong schema - and never panics. An optional resource is none exactly when it is completely absent; all resources it exposes hold exactly the stored payload.",
 ["fault_sequences", "inputs"], "all combinations of removed / truncated / extended / resized / schema-altered files over all resource kinds",
 "The library's tests open complete archives.",
 [RS+"storage.rs", RS+"filestorage.rs", RS+"error.rs", RS+"structs.rs", RT+"archive.jinja2"],
 [("read_and_check_schema", RS+"storage.rs"), ("open", RT+"archive.jinja2")])

prop("X04", "The Rust builder never alters an existing archive nor leaves partial ones",
 "A Rust builder is created only where no archive of that name exists, otherwise it reports an error and changes no stored byte; each resource it accepts is stored completely. Whatever the order of set, start, grow, close and subarchive operations, the archive opens exactly when all mandatory resources have been completed. If the writing process stops between any two file operations, later readers in Rust, C++ and Python report the unfinished resource as unavailable or corrupt, or see its complete final contents, never something else.",
 ["histories", "crash_points"], "all histories of builder operations in files and memory; all interruption points between file operations",
 "The library's tests write each resource once in a straight line and never stop.",
 [RS+"storage.rs", RS+"filestorage.rs", RS+"memstorage.rs", RS+"vector.rs", RS+"multivector.rs", RT+"archive.jinja2"],
 [("create_archive, create_external_vector", RS+"storage.rs"), ("ResourceHandle", RS+"storage.rs")])

prop("X05", "Generated Rust accessors agree with the schema's layout",
 "For every valid struct the generated Rust type has the schema's size, and its getters and setters read and write exactly the bits of their field (with enumerations, booleans, optional values that are None exactly when the field holds the invalid value, and ranges delimited by the next element) without touching any other bit; filling one struct from another copies all fields, equality holds exactly when all fields are equal. Slices of bytes are viewed as elements exactly when they are a whole number of them. Raw data substrings end at the first zero byte or the end of the data and are decoded as UTF-8, lossily or as bytes.",
 ["programs", "inputs"], "all struct definitions, field values, neighbouring bits, raw bytes and positions",
 "The library's tests compare generated text and use a few hand-written structs.",
 [RT+"structure.jinja2", GEN+"generators/rust.py", RS+"structs.rs", RS+"rawdata.rs", RS+"bytereader.rs", RS+"bytewriter.rs"],
 [("structure template", RT+"structure.jinja2"), ("RawData", RS+"rawdata.rs")])

prop("X06", "Resources too large for their references do not open in Rust",
 "Rust opens an archive only if every resource that explicit references limit (vectors, multivectors and raw data; through bound resources too) has no more elements or bytes than the narrowest referencing field can address; otherwise opening reports that the resource is too big. Archives whose resources are within all limits open and show their sizes.",
 ["programs", "inputs"], "all reference declarations and resource sizes around every limit",
 "The library's tests have no archive at such a limit.",
 [GEN+"tree/builder.py", GEN+"tree/nodes/resources/base.py", RT+"archive.jinja2", RS+"storage.rs", RS+"error.rs"],
 [("max_size of resources", GEN+"tree/nodes/resources/base.py"), ("size checks on opening", RT+"archive.jinja2")])

prop("X07", "Rust storages can be read from several threads",
 "Several threads may open the same archive, read resources of the same storage (files or memory), or set different resources through one builder at the same time, in any interleaving. Each sees exactly the stored contents (or that a resource is missing), for as long as the storage lives, and never data that has been unmapped or freed; what they write is complete.",
 ["schedules", "histories"], "all interleavings of threads that read or write through one storage",
 "The library's tests use one thread.",
 [RS+"filestorage.rs", RS+"memstorage.rs", RS+"storage.rs"],
 [("MemoryMappedFileStorage::read", RS+"filestorage.rs"), ("MemoryResourceStorage::read_resource", RS+"memstorage.rs")])

prop("C07", "C++ storages can be used from several threads",
 "Several threads may write different resources, read, ask for existence or schemas, and create or enter directories through one C++ storage or through storages of its directories (files or memory; tar files for reading), set resources of one builder or open one archive at the same time, in any interleaving. Every answer is one that some order of the calls explains, no resource is lost or mixed up, what is read stays valid while the storage lives, and no data race occurs.",
 ["schedules", "histories"], "all interleavings of threads calling one storage or the storages of its directories",
 "The tests use one thread.",
 [CPP+"MemoryResourceStorage.h", CPP+"FileResourceStorage.h", CPP+"TarArchiveResourceStorage.h", CPP+"ResourceStorage.h"],
 [("m_storage_mutex", CPP+"MemoryResourceStorage.h"), ("read_resource", CPP+"FileResourceStorage.h")])

prop("C08", "describe() of a C++ archive tells the truth",
 "For whatever files a C++ archive was opened from, describe() reports an uninitialised storage or a signature mismatch exactly when that is so, and otherwise shows every resource (also of subarchives that open) with whether it is optional, too large or loaded and, for non-empty loaded ones, its true number of elements and bytes; initialisation is reported as failed exactly when the archive does not open. On a mismatch the difference shown turns the expected schema into the one found with as few removed and added lines as possible, leaving out lines far from any change.",
 ["inputs"], "all schemas, archive contents, damages and altered schemas",
 "The tests compare a few descriptions of one intact archive.",
 [SRC+"Archive.cpp", GEN+"templates/cpp/archive.jinja2", CPP+"Archive.h"],
 [("describe", SRC+"Archive.cpp"), ("describe_resources", GEN+"templates/cpp/archive.jinja2")])

prop("C09", "Elements are found wherever they lie, however large the resource",
 "Whatever the size of a resource, far beyond 4 GiB and 2^32 elements, readers in C++, Rust, Python and Go report its true number of elements, items or bytes, and every element, slice, range, multivector item and piece of raw data they show is decoded from exactly the bytes at its position, by whichever way it is reached (indexes from both ends, iterators and their distances, slices), in directories and, in C++ and Python, in tar files.",
 ["programs", "inputs"], "all struct sizes, resource sizes, index widths and positions around every power of two of bytes, bits and elements",
 "The tests' resources are a few bytes.",
 [CPP+"ArrayView.h", CPP+"internal/ArrayViewIterator.h", CPP+"MultiArrayView.h", CPP+"internal/TarReader.h", RS+"rawdata.rs", RS+"multiarrayview.rs", RS+"bytereader.rs", PY+"resources.py", PY+"structure.py", PY+"data_access.py", GEN+"templates/go/vector.jinja2", GEN+"templates/go/multivector.jinja2", GEN+"templates/cpp/structure.jinja2"],
 [("positions of elements", CPP+"internal/ArrayView.inl"), ("_item_offset, _bucket_offset", PY+"resources.py")])

prop("C10", "Access statistics report exactly what was read",
 "With data access statistics compiled in (C++), everything read from archives is the same as without them. The report at the end of the process names, ordered by pages, every resource of a directory or memory storage that was closed and of which more than its size was read, with the number of distinct bytes and pages its readers touched, their shares and, when reads were of structures of one size, the bytes of the structures that went unread in at least a quarter of those read. Repeated registrations are counted, resources still open are listed apart, and so are the bytes read outside registered ones. clear() starts over without forgetting which resources are registered. Reads may come from any number of threads in any order.",
 ["histories", "inputs", "schedules"], "all histories of opening, closing, reading and clearing, all layouts of fields",
 "No test looks at the report; the statistics are off in the default build.",
 [CPP+"DebugDataAccessStatistics.h", CPP+"internal/Reader.h", CPP+"MemoryMappedFileStorage.h", CPP+"MemoryResourceStorage.h"],
 [("DebugDataAccessStatistics::read", CPP+"DebugDataAccessStatistics.h"), ("Reader::operator T", CPP+"internal/Reader.h")])

prop("X08", "Generated Go code shows what is stored",
 "For every schema generated Go code can express (one namespace with a simple name, no enumerations, subarchives named like their archive) and any files of an archive, in a directory or in memory, opening fails exactly when some resource that is there is shorter than its frame or its schema is missing, empty or not the one of the schema, with the error of the first such resource in declaration order; resources whose file (or index) is missing are reported as not open. Every open resource shows its true length, bytes of its file, optional flag, elements (by index, by inclusive slices with a step, items of multivectors with their types), field values, raw bytes and a truthful description; an archive the sum of the bytes, the description of all its resources and, once closed, no open resource; constants have the schema's values.",
 ["programs", "inputs", "fault_sequences"], "all such schemas, archive contents, missing, short and altered files",
 "The Go tests read single fields of one fixed archive; generated code is only compared with expected text.",
 ["flatdata-go/flatdata/resource.go", "flatdata-go/flatdata/reader.go", "flatdata-go/flatdata/test_memory_descriptor.go", GEN+"generators/go.py", GEN+"templates/go/archive.jinja2", GEN+"templates/go/vector.jinja2", GEN+"templates/go/multivector.jinja2", GEN+"templates/go/structure.jinja2"],
 [("GetMemoryDescriptor", "flatdata-go/flatdata/resource.go"), ("Open*Archive", GEN+"templates/go/archive.jinja2"), ("GoGenerator", GEN+"generators/go.py")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        for f2 in p["anchors"]["files"] + [m["where"] for m in p["anchors"]["mechanism"]]:
            assert os.path.exists(os.path.join("/repo", f2)), f2
        f.write(json.dumps(p) + "\n")
print(len(P))
