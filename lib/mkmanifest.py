#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed checks below and properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.realpath(__file__))
TECH = {
 "B01": ("TLA+ spec of batched bit access model-checked with TLC; recorded accesses of Python, C++, Rust and Go validated by a TLC trace spec",
         "TLC exhausts the access algorithm for small byte/word sizes; the real readers are bound by validating recorded reads for every offset mod 8, width 1..64 and sign with adversarial neighbours. Memory contents are sampled (seeded)."),
 "B02": ("TLA+ spec of batched bit writes model-checked with TLC; recorded writes of Python, C++ and Rust validated by a TLC trace spec",
         "As B01 for writes: stored value and every foreign bit are judged after each write on dirty memory."),
 "R01": ("TLA+ spec of the archive format (layout, framing, multivector index, file set); archives written by C++ and Python and what both readers present are judged by a TLC trace spec",
         "Format.tla prescribes every byte of an archive; contents are sampled (seeded) over all resource kinds, both writers and both readers."),
 "R02": ("TLA+ spec of damaged archives model-checked with TLC (every single damage exhaustively, random combinations); every case TLC emits is replayed against the Python reader",
         "Exhaustive over single damages of each file of the sampled archives; combinations of up to 4 are simulated."),
 "R03": ("TLA+ spec of damaged archives model-checked with TLC (every single damage exhaustively, random combinations); every case TLC emits is replayed against the generated C++ reader under AddressSanitizer",
         "As R02 for the C++ reader."),
 "R05": ("TLA+ state machine of the archive builder; TLC enumerates all short histories and simulates long ones, the real builder is driven through them and every result and stored byte is judged by a TLC trace spec",
         "Exhaustive over all histories of up to 5 operations on a small archive in file and memory storage and 3 operations on every damaged start; longer histories (28 operations) are simulated."),
 "R04": ("TLA+ spec of the two writers' file-operation protocols with a kill after every step, model-checked with TLC; the real writers are killed at every system call and what is left is judged by a TLC trace spec",
         "TLC exhausts all kill points of the modelled protocols; every kill point of real C++ and Python writers over all resource kinds is replayed with an LD_PRELOAD shim, with stops around the 32 MB flush limit. Reordering by the operating system after power loss is outside the property."),
 "R06": ("TLA+ state machine of the Python archive builder; call sequences drive the real builder and every result, file and what both readers see is judged by a TLC trace spec",
         "Sequences of valid and invalid set calls are sampled (seeded) over all resource kinds."),
 "R07": ("TLA+ specs of the storage interface, the builder and damaged archives; each behaviour is replayed on memory, file and tar storage in C++ and file and tar in Python and judged by the same specification",
         "Interface histories of length 3 exhaustively and random long ones; contents, damage and tar packing (folders, './', order, GNU and ustar, long names) are sampled."),
 "R08": ("TLA+ spec of tar headers and the tar index model-checked with TLC; generated member sequences and header corruptions are replayed against the real reader",
         "Every single header corruption of the generated files, all number formats and name encodings; longer member sequences are sampled."),
 "B03": ("TLA+ spec of struct layout model-checked with TLC; random schemas are generated into C++ and Python code, and every offset, size, encoding and decoding of both is judged by a TLC trace spec",
         "TLC proves on small structs that a layout's encodings are disjoint and invertible; real code is bound on random structs (seeded) covering all widths, types, enumerations and booleans, with random memory and values."),
 "C01": ("TLA+ state machine of vectors, structs and growing vectors; TLC generates operation histories, the generated C++ containers are driven through them under AddressSanitizer and every observation is judged by a TLC trace spec",
         "All short histories exhaustively, long ones simulated; growing vectors are driven over their 32 MB flush limit."),
 "C02": ("TLA+ state machine of multivectors and the payload/index encoding; TLC generates grow/add histories, C++ builders are driven through them and what C++ and Python read back is judged by a TLC trace spec",
         "All short histories exhaustively, long ones simulated, several crossing the flush limit at different element sizes."),
 "C03": ("TLA+ spec of views as sequences with slices and iterators, model-checked with TLC; generated compositions of operations are replayed on real C++ views and judged by a TLC trace spec",
         "All compositions of two slices on short views exhaustively; longer chains simulated over random struct layouts."),
 "C04": ("TLA+ spec of struct layout with ranges; random schemas with range fields are generated, C++ views and Python vectors opened on random stored values are judged by a TLC trace spec",
         "Range fields of all widths and positions are sampled; lengths 0, 1, 2 and more in every run."),
 "C05": ("TLA+ spec of struct layout with optional fields; random schemas with optional fields of all widths and constants are generated, and reads, writes and neighbours in C++ are judged by a TLC trace spec",
         "Widths, signedness, positions and constants are sampled (seeded), values include the constant, its neighbours and sign/width boundaries."),
 "C06": ("TLA+ spec of reference limits model-checked with TLC; random reference declarations are generated into C++ and archives of sizes around every limit are opened and judged by a TLC trace spec",
         "Limits of 1..20, 31..36 and 40 bits are crossed by real (sparse) files."),
 "C07": ("TLA+ spec of threads calling storages model-checked with TLC; TLC emits programs of threads and the orders in which their calls begin, real C++ threads run them under ThreadSanitizer, and a TLC trace spec searches an order of the calls that explains every answer",
         "Meetings of two calls are enumerated; longer programs are simulated. Races are detected when both accesses happen in one run, whatever their timing."),
 "C09": ("TLA+ spec of resources of any size (numbers as digit sequences, bytes as a few written parts); real sparse files and tars are looked at in C++, Rust, Python and Go around every power of two and judged by a TLC trace spec",
         "The digit arithmetic and the reading of elements by position are checked exhaustively in small bases; the real resources go up to some tens of GiB."),
 "C10": ("TLA+ state machine of registrations, reads, ends and clears whose report is compared, by a TLC trace spec, with the one the real code prints for histories enumerated and simulated by TLC and for reads of real archives; answers are compared with those of a build without statistics",
         "Mappings do not overlap; all histories of up to 4 (quick) or 5 steps over two mappings, random ones of up to 60 over four; some histories run on several threads under ThreadSanitizer; optional fields and multivector items are not read; members of tar files are not registered by the code."),
 "C08": ("TLA+ spec of what describe() tells (over the specs of openability and limits) and of differences of texts; archives, damages TLC enumerates and altered schemas are described by C++ and judged by a TLC trace spec",
         "Every single damage exhaustively (sampled in the quick tier), schemas of random edits, sizes around limits; details of empty views are not judged."),
 "X08": ("TLA+ spec of what Go shows of an archive's files (over the specs of layout, framing and descriptions); random archives of random schemas, intact and damaged, are opened through freshly generated Go code and everything shown is judged by a TLC trace spec",
         "Schemas, contents, damages, slices and storages are sampled (seeded); memory mapping is replaced by a stand-in that reads the file; multivector length, elements of one type in one item and descriptions of archives with missing resources are known findings."),
 "P01": ("TLA+ spec of sequences, slices, columns and conversions over stored bytes, model-checked with TLC; random archives are accessed through every Python interface and each result is judged by a TLC trace spec",
         "Lengths, indices, slice starts/stops/steps around every boundary exhaustively for short resources; schemas and contents are sampled (seeded)."),
 "P02": ("TLA+ spec of raw data indexing, slicing and substring search, model-checked with TLC; random payloads are accessed through the Python interface and each result is judged by a TLC trace spec",
         "All positions of short payloads with separators at and across every boundary; longer payloads sampled."),
 "P03": ("TLA+ spec of which archive a directory or tar file describes, model-checked with TLC; archives written by C++, Python and the writer tool are opened by the inspector from their path and judged by a TLC trace spec",
         "Schemas (several and nested namespaces, subarchives, shared definitions), contents, missing files, storages and paths are sampled (seeded)."),
 "P04": ("TLA+ spec of what an archive tells about itself over the specs of layout and stored schemas; random archives of random schemas are opened in Python and everything they tell is judged by a TLC trace spec",
         "Schemas, contents and absent optional resources are sampled (seeded); texts of documentation comments are not judged."),
 "G01": ("TLA+ spec of scopes and name resolution; TLC enumerates all small schemas around one reference and checks laws of the specification; every schema and random larger ones are given to the generator, whose verdict and stored definitions are judged by a TLC trace spec",
         "All schemas of up to 2 definitions around a reference exhaustively, up to 4 simulated; larger schemas are random (seeded)."),
 "G02": ("TLA+ spec of the schema rules; schemas at every limit and random valid and faulty ones are given to the generator and its verdicts judged by a TLC trace spec; the command line is run for a sample",
         "Limits of every rule and type are crossed on both sides; combinations are random (seeded)."),
 "G03": ("TLA+ spec of what is stored for each archive and resource; stored texts of random schemas, of what was stored again, and of pairs of schemas a small edit apart are judged by a TLC trace spec",
         "Random schemas (seeded) and 17 kinds of edits, with eight hash seeds."),
 "G04": ("TLA+ spec of enumeration numbering; enumerators, all bit patterns read, names and writes of generated C++, Rust and Python code and stored schemas are judged by a TLC trace spec",
         "Random enumerations (seeded) of all types and widths; every bit pattern of each is read; constants at the limits of every type."),
 "G05": ("TLA+ state machine of engines, renderings and command lines; TLC enumerates all short histories and simulates long ones over all languages, the generator is driven through them in processes with different hash seeds and every result is judged by a TLC trace spec",
         "All histories of 3 steps over two languages (a sample of them in the quick tier), histories of 14 steps over all six languages simulated; schemas are random (seeded)."),
 "G06": ("TLA+ spec of the graph of a schema over the spec of scopes and names; the generator's dot output for random schemas, and schemas at the limits of every rule, is read back and judged by a TLC trace spec",
         "Schemas are random (seeded); colours, sizes and order are not judged."),
 "G07": ("TLA+ state machines scanning each target language for comments and strings, over which TLC enumerates comments; the texts generated from schemas with those comments are judged by a TLC trace spec against the texts without them",
         "All comments of up to 2 (quick) or 3 (thorough) of 23 fragments plus random ones of up to 9; Rust and C++ texts of a sample are compiled, too; no tabs, trigraphs, or line comments ending in a backslash."),
 "X01": ("TLA+ spec of the archive format and of what Rust makes of files; archives written by generated Rust, C++ and Python code and what each shows of the others' are judged by a TLC trace spec",
         "Schemas and contents are sampled (seeded) over all resource kinds, writers and readers; opening a vector of ranges another language left empty is a known finding."),
 "X02": ("TLA+ state machines of vectors and multivectors; TLC generates operation histories, the generated Rust containers are driven through them and every observation is judged by TLC trace specs",
         "All short histories exhaustively, long ones simulated; external vectors and multivectors of several element sizes are driven over the 32 MB write buffer's limit, in files and in memory."),
 "X03": ("TLA+ spec of damaged archives with the errors Rust may report, model-checked with TLC (every single damage exhaustively, random combinations); every case TLC emits is replayed against the generated Rust reader",
         "As R03 for the Rust reader; a single struct stored too short is a known finding."),
 "X04": ("TLA+ state machine of the archive builder and spec of its file-operation protocols with a kill after every step; TLC enumerates histories and kill points, the generated Rust builder is driven through them and every result, stored byte and reader's view is judged by TLC trace specs",
         "All short histories in file and memory storage exhaustively, long ones simulated; every kill point of sampled writers is replayed with an LD_PRELOAD shim."),
 "X05": ("TLA+ spec of struct layout, optional values, ranges and substrings; random schemas are generated into Rust code and its sizes, getters, setters, equality, slices and substrings are judged by a TLC trace spec",
         "Struct definitions, values and surrounding bits are sampled (seeded); TLC proves the layout's laws on small structs."),
 "X06": ("TLA+ spec of reference limits model-checked with TLC; random reference declarations are generated into Rust and archives of sizes around every limit are opened and judged by a TLC trace spec",
         "Limits of 1..20, 31..36 and 40 bits are crossed by real (sparse) files."),
 "X07": ("TLA+ spec of threads sharing a storage model-checked with TLC; TLC enumerates the orders in which they can meet, the generated Rust code is driven through them by delaying file opens, and what every thread sees is judged by TLC trace specs",
         "All orders of two and three threads on two files; replay steers threads by delays, so a particular order is likely, not certain. Contents are sampled."),
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(HERE, "..", "properties.jsonl"))]
checks = []
na = []
for p in props:
    i = p["id"]
    if i in TECH:
        checks.append({"property": i, "quick_cmd": "bin/check %s --tier quick" % i,
                       "thorough_cmd": "bin/check %s --tier thorough" % i, "technique": TECH[i][0],
                       "level": "model_checking", "level_note": TECH[i][1]})
    else:
        na.append({"property": i, "reason": NA.get(i, "The check for this property is not built yet.")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
