"""What each check runs, and what its evidence and the manifest say about it."""

PUBLIC = ("the library is used through its public API, compiled from /repo with address and "
          "undefined-behaviour sanitizers and the deepest validation level; x86-64 Linux, one thread")

CHECKS = {}


def check(prop, harness, level, technique, note, bounds, rule="", assumptions=(), variants=None):
    CHECKS[prop] = {"harness": harness, "level": level, "technique": technique, "note": note,
                    "bounds": bounds, "rule": rule, "assumptions": [PUBLIC] + list(assumptions)}
    if variants:
        CHECKS[prop]["variants"] = variants


check("P01", "p01_records.cpp", "exploration",
      "bounded exhaustive enumeration of write histories on the real code, compared with the values given",
      "Complete within the stated bounds: every enumerated history of write calls is executed on the "
      "real library and read back. Values inside a range are boundary and patterned values, not all "
      "values; larger vectors and longer histories are not covered.",
      {"fields": "every bit width 0..64 with 5 kinds of range, scaled, single/double, string",
       "histories": "all compositions of 4 (thorough 6) records into blocks for all pairs of 15 field "
                    "kinds, all compositions of 7 (9) for mixed records with empty blocks anywhere",
       "counts": "0..280 (1100) records, and every count around the packet limits",
       "strings": "every length 0..300 (1100) and around the packet limits",
       "buffers": "all orders of three buffers, replaced or not, strided or not",
       "streams": "every kind of field beside long strings and in wide records, so that one step of the "
                  "writer exceeds a packet"},
      "a case is one history; distinct outcomes are the pairs (records, size of the file)")

check("P03", "p03_format.cpp", "exploration",
      "bounded exhaustive enumeration of documents, decoded by an independent strict decoder",
      "Complete within the stated bounds; the decoder shares no code with the library and was "
      "written from the format description, so an error common to both is possible only if the "
      "format was misread in the same way.",
      {"fields": "every bit width with 5 kinds of range, all pairs of 15 kinds",
       "alignment": "padding of 0..1040 bytes before each kind of section",
       "trees": "all trees of up to 3 (thorough 4) elements over 10 kinds",
       "streams": "every kind of field beside long strings and in wide records",
       "sizes": "0..300 (1200) records, blobs of 0..1100 (5000) bytes, XML of every length over a page"},
      "a case is one document written twice; distinct outcomes are the tuples (pages, sections, "
      "packets, length of the XML)")

check("P02", "p02_reading.cpp", "model_checking",
      "explicit enumeration of all scripts of read calls, followed step by step by a model of the reader",
      "Complete within the stated bounds: every enumerated script is executed on the real reader and "
      "each step is compared with the model (a position in the list of records).",
      {"scripts": "all sequences of capacities {1,2,3,9} (thorough {1,2,3,4,9}) that reach the end of "
                  "0..5 (0..7) records and go on behind it, buffers replaced before every read",
       "fields": "all ordered subsets of the fields of 5 prototypes",
       "memory": "15 fields, every adequate memory type, strides of 1, 2, 3 and 5 elements",
       "rereads": "all pairs of 24 ways to read, one after the other in the same open file",
       "layouts": "files of the library and 3 packet layouts of an independent writer; up to 5000 "
                  "(60000) records"},
      "a state is (fields, records, position, capacity); a transition is one read call",
      ["a vector for which no writer was ever opened has no section and cannot be read, by design"])

check("P04", "p04_layouts.cpp", "exploration",
      "bounded exhaustive enumeration of file layouts produced by an independent writer, read by the real code",
      "Complete within the stated bounds: every enumerated layout is written by a writer that shares "
      "no code with the library and read by the real reader. Layouts with more packets than the bound "
      "are covered only by the families named below.",
      {"cuts": "all ways to cut the streams of all pairs of 15 kinds of field into up to 4 (thorough 5) "
               "packets, where there are at most 350 (6000) of them",
       "packets": "all sequences of data, empty and index packets up to length 5 (7); one stream ahead "
                  "of the other by 0..70 packets; packets of every size near the limit of 64 KiB",
       "placement": "sections at every offset of a page, XML before or behind them",
       "xml": "64 styles of equivalent XML, 8 styles of attributes and 5 prologs for all trees of up to 2 (3) elements; all "
              "spellings of a number in a list; text cut at every place by comments, sections and references",
       "excess": "every number of records up to 20 of streams that go on behind the last record, for every kind of field"},
      "a case is a group of up to 40 layouts of one document; distinct outcomes are the layouts read")

check("P05", "p05_corruption.cpp", "exploration",
      "exhaustive enumeration of page corruptions of a file, each read by the real code under the checksum policies",
      "Every single-bit change of the file is enumerated; longer changes are covered by the families "
      "named below. The page number is not part of the checksum, so exchanging two whole pages cannot "
      "be seen and is not claimed.",
      {"bits": "every bit of every page of a file with a blob, records and XML",
       "bursts": "bursts of 9 and 32 bits (thorough 2..32) with 3 patterns at every fourth (every) byte",
       "fills": "every page replaced by every constant byte, with and without its checksum",
       "policies": "every value -3..103 with each page damaged; share of pages verified by the named ones",
       "scripts": "all scripts of 3 reads of 4 items with each page damaged"},
      "a case is a group of changes to one file; distinct outcomes are (kind and place of the change, "
      "result)")

check("P06", "p06_blobs.cpp", "model_checking",
      "explicit enumeration of all scripts of blob accesses, followed step by step by a byte-array model",
      "Complete within the stated bounds: every enumerated script is executed on the real library and "
      "every access is compared with the model (one array of bytes per blob), while the file is written "
      "and after it is opened again. Contents are patterns that differ at every position.",
      {"sizes": "every size 0..2100 (thorough 0..4200) at 3 positions in the page",
       "accesses": "every start with 4 lengths; all triples of writes and all pairs of reads of intervals "
                   "around a page boundary, under 4 checksum policies",
       "scripts": "all scripts of 5 (6) operations on up to 3 blobs with records between them",
       "limits": "all pairs of extreme starts and counts, on blobs being written, unattached and reopened",
       "place": "4 places in the element tree"},
      "a state is the content of the blobs; a transition is one access")

check("P07", "p07_conversion.cpp", "exploration",
      "exhaustive enumeration of memory type, field, option and boundary-value combinations on the real code, "
      "compared with an exact-arithmetic oracle",
      "Every combination of field, memory type and option is executed; the values are all boundary values "
      "of both sides and their neighbours, not all values. Where the rounding of double arithmetic decides, "
      "both results are accepted.",
      {"combinations": "all fields of every bit width and sign, scaled with 9 scalings, single, double, string; "
                       "11 memory types; both options on and off; writing and reading",
       "values": "limits of the field and of every memory type, with their neighbours and halves, infinities, "
                 "NaN, denormals, powers of two",
       "history": "the value that does not fit comes after 0..n values that do",
       "elements": "integer, float and scaled elements with all pairs of boundary limits"},
      "a case is one combination with all its values; distinct outcomes are (combination, value, result)")

check("P08", "p08_tree.cpp", "exploration",
      "bounded exhaustive enumeration of element trees, attribute values and strings, written and read by the real code",
      "Complete within the stated bounds: every enumerated tree is built with the real library, written, "
      "reopened and compared element by element, by index, name and absolute path. Values are boundary "
      "values; trees with more elements are covered only by the families named below.",
      {"trees": "all trees of up to 3 (thorough 4) elements over 10 kinds, alone and 20 in one file",
       "numbers": "all ordered triples (minimum, value, maximum) of 8 integers and of 10 single and double "
                  "values; 9 scales x 11 offsets; every combination of NaN and infinities is refused or kept",
       "strings": "all strings up to length 3 (4) over 16 classes of characters, all strings of 4..7 (9) "
                  "over the characters of a CDATA end, every character of Unicode (thorough; quick: all of "
                  "the first two planes), every ill-formed byte, lengths around 12 sizes up to 128 KiB",
       "shapes": "depth up to 120 (400), up to 1001 children, long and non-ASCII names",
       "vectors": "all pairs of 8 field kinds in 6 shapes of prototype with 0..3 records; 0..3 codecs"},
      "a case is one document; distinct outcomes are the documents that came back")

check("P09", "p09_building.cpp", "model_checking",
      "explicit-state enumeration of the reachable states of a model of the tree-building rules; in every state "
      "every call is made on the real code and compared with the model",
      "Complete within the stated bounds: every state of the model reachable in the stated number of accepted "
      "calls is rebuilt with the real library, every call of the alphabet is made in it, and the whole "
      "observable tree is compared with the model after each. Where a call breaks several rules, the error of "
      "any of them is accepted.",
      {"pools": "5 pools of 5..9 elements (structures; vectors; vectors of structures; prototypes; two files)",
       "depth": "3..6 (thorough 4..9) accepted calls; refused calls tried at every step",
       "homogeneity": "all ordered pairs of 45 descriptions and of grids of attributes of numbers, appended and set by path",
       "paths": "all strings up to length 5 (6) over 7 characters, looked up and set"},
      "a state is a state of the model; a transition is one call on the real code")

check("P10", "p10_writefaults.cpp", "fault_enumeration",
      "exhaustive enumeration of the failure of every operating-system call of a set of write histories, on the real code",
      "Every call that a history makes (open, seek, read, write, close, remove) is made to fail in every way "
      "listed, one at a time, permanently, and together with a failure of the clean-up. Pairs of unrelated "
      "failures are covered within a window. Loss of data inside the operating system after a successful "
      "write is out of reach of the library and not covered.",
      {"histories": "10 histories: trees, blobs written in parts, records in one and several packets, mixed "
                    "sections, a scan and an image of the Simple API",
       "failures": "error, no space, interrupted, half/one/all but one of the bytes, nothing written, closing that loses the last write; failures of reads also "
                   "without verification of checksums",
       "afterwards": "closed, cancelled, destroyed, or the failed call repeated"},
      "an evaluation is one run of a history with its failure; distinct outcomes are (history, call that "
      "reported, error, clean-up)")

check("P11", "p11_readfaults.cpp", "fault_enumeration",
      "exhaustive enumeration of the failure of every operating-system call of a set of read scripts, on the real code",
      "Every call that a script of reads makes (open, seek, read, close) is made to fail in every way listed, one "
      "at a time and permanently; pairs of failures are covered within a window. Whatever is delivered is "
      "compared with the undisturbed content.",
      {"scripts": "15 scripts over 10 files: tree, blobs in parts, records in small and large blocks, "
                  "scan and image with the Simple API; with and without verification of checksums",
       "failures": "error, interrupted, half/one/all but one of the bytes, end of file",
       "afterwards": "the failed call repeated or not, read again with new objects, closed"},
      "a case is one call with all its failures; distinct outcomes are (script, calls that reported, errors)")

check("P12", "p12_crash.cpp", "fault_enumeration",
      "exhaustive enumeration of the points at which the process stops in a set of write histories; every state left "
      "on disk is opened by the real code",
      "The state on disk after every write call of every history, and within calls at the listed lengths (every "
      "length for the last one), is rebuilt from the recorded calls and opened under three checksum policies. The "
      "recorded calls are shown to make up the finished file. What an operating system may do to writes it has "
      "accepted (reordering at a power failure) is not covered: the library never syncs.",
      {"histories": "10 named histories and all sequences of up to 3 (thorough 4) of 6 parts (blob, writes to blobs, "
                    "records in one and several pages, long string, structure)",
       "torn": "1, 47, 48, 49, 512, 1019, 1020, 1021, 1023 bytes; every length for the last write",
       "giving up": "cancel or destroy after every step, over an existing file or not, and after the failure of every call"},
      "a case is a history with all its crash points; distinct outcomes are (history, result of opening)")

check("P13", "p13_malformed.cpp", "exploration",
      "exhaustive enumeration of single changes (and of pairs of changes to fields) of well-formed files, each read "
      "in every way by the real code under sanitizers",
      "Every enumerated change is made, checksums are made valid again, and the file is opened, walked and read with "
      "the foundation API, the Simple API and from memory. Only success and library exceptions are accepted; memory, "
      "undefined behaviour, descriptors, live heap blocks and time are monitored. Files that differ in more places "
      "from a well-formed one are not covered.",
      {"fields": "every field of the header, section and packet headers, with about 130 boundary values (all 256 for "
                 "bytes), pairs of neighbouring fields with 12 values each (thorough: all pairs)",
       "bytes": "every byte of the binary part with 13 values (thorough all 256); every character of the XML "
                "replaced by 22 others, deleted, doubled, last",
       "length": "every truncation; every number of pages with and without the header agreeing",
       "xml": "every element removed, doubled, replaced by every type, renamed, moved; every text and attribute "
              "replaced by about 50 hostile values; about 150 strange documents; nesting up to 100000"},
      "a case is a group of changes; distinct outcomes are (kind of change, result of opening)")

check("P14", "p14_lifecycle.cpp", "model_checking",
      "explicit-state enumeration of all reachable states of a life-cycle model with every call made on the real code "
      "in every state, and all call sequences of a bounded length",
      "A model of one image file (two handles, two writers, two readers, three vectors, a blob, elements) gives the "
      "documented result of every call. Its reachable states are enumerated completely; every state is reached on the "
      "real library, every call is made there, and results, counts, open states, invariants, delivered records and the "
      "closed file (decoded independently) are compared with the model. Destroying an open writer may keep or drop its "
      "records, but always the same.",
      {"objects": "1 file being written or read, 2 handles, 2 writers, 2 readers, 3 vectors",
       "sequences": "all of 4 calls (thorough 5)", "states": "all reachable ones, at most 2 blocks per writer"},
      assumptions=["one thread"])

check("P15", "p15_metadata.cpp", "exploration",
      "exhaustive enumeration of header contents (each value of each item, all pairs of items, all items and all but "
      "one, sequences of scans) written and read back on the real code",
      "About 110 items of the file, scan and image headers are listed with distinguishing and boundary values. Every "
      "value alone, every pair of items, every set with one item missing and files of several different scans and "
      "images are written with the Simple API; the Simple API reader (into headers with old content) has to return "
      "them, and the elements in the file have to have the names and values of the standard.",
      {"items": "all of WriterOptions, Data3D and Image2D with 1 to 40 values each",
       "combinations": "each value alone (thorough: pairs of two values each), all pairs of items, all items, all but "
                       "one with each image representation",
       "limits": "all listed limits with every node type, with and without the fields", "scans": "1 to 4 per file"},
      "a case is one file; distinct outcomes are the sets of headers read")

check("P16", "p16_points.cpp", "exploration",
      "exhaustive enumeration of field sets, node types, buffer types, block sizes, orders of scans, groups and image "
      "pieces, written and read back on the real code",
      "Every single field, every pair, all fields and all but one are written with every node type from float and "
      "double buffers (one call, blocks, allocated buffers) and read into both; every value is compared with the "
      "rounding given by its representation. Limits calculated by the writer, every order of three scans, groups and "
      "images in pieces are enumerated too.",
      {"fields": "all 23 single fields, 253 pairs, all, all but one; reading every pair of them",
       "types": "double, single, scaled integer, integer; float and double buffers for writing and reading",
       "counts": "0 to 800 points (thorough 3000) in blocks of 1 to 801, every combination of block sizes",
       "limits": "all 127 sets of coordinates, angles and time", "groups": "1 to 300", "images": "1 to 3000 bytes"},
      "distinct outcomes are (field set, node type, buffer type, way of writing)")

check("P17", "p17_numbers.cpp", "exploration",
      "exhaustive enumeration of exponents, mantissa patterns, integers around powers of two and ten and pairs of "
      "locales, written and read back on the real code",
      "Every exponent of double and single precision with every mantissa of an enumerated set, and all integers around "
      "the powers of two and the multiples of powers of ten, are written as value, limit, scale and offset and read "
      "back bit for bit. A reduced set and a document with every other kind of number (counts, lengths, offsets, "
      "positions in vectors) is written and read under every pair of locales.",
      {"double": "2047 exponents x all one-bit, all-but-one-bit and run mantissas (thorough: all two-bit ones)",
       "single": "255 exponents x all one- and two-bit and run mantissas (thorough: all mantissas of two exponents)",
       "integer": "within 3 of every power of two and every multiple 1..9 of a power of ten, both signs",
       "locales": "36 pairs: three C++ number punctuations x two C locales for writing and for reading"},
      "a case is a file with up to some hundred numbers; outcomes are the (kind, exponent) classes",
      ("the C locale fr_FR is installed as here; without it the C++ locales still vary",))

check("P18", "p18_extensions.cpp", "model_checking",
      "exhaustive enumeration of registration sequences against a list as the model, and of prefixes, URIs and "
      "element names over alphabets of character classes, executed on the real code",
      "After every step of every sequence of registrations the whole registry and every look-up is compared with a "
      "list of pairs, every prefix is tried in a name, and the file is closed and reopened. Prefixes, URIs and names "
      "over alphabets of character classes, and every Unicode character in a name, are either refused or survive "
      "reopening; in ASCII and Latin-1 the accepted names are exactly those of the grammar.",
      {"sequences": "all sequences of 3 (thorough 5) registrations out of 16",
       "prefixes and URIs": "all strings up to length 2 (thorough 3) over 17 and 22 characters",
       "names": "all strings up to length 4 (thorough 5) over 15 characters, every character up to U+11000 "
                "(above it, one block of 512 of every 16; thorough: all)"})

check("P19", "p19_interleave.cpp", "model_checking",
      "exhaustive enumeration of all interleavings of scripts on objects of one file and on several files, executed on "
      "the real code",
      "Each script writes or reads one blob, one compressed vector, a part of the tree or a whole file; all merges of "
      "pairs and some triples of scripts are executed. Each script checks what it reads against content that depends "
      "on the script alone, and the files are read again afterwards.",
      {"objects": "all interleavings of all 21 pairs of 6 scripts writing to one file, a triple (thorough: 7)",
       "reading": "all interleavings of all 21 pairs of 6 scripts reading one file, two triples (thorough: all)",
       "files": "all interleavings of all 21 pairs of 6 scripts with a file each, a triple (thorough: 4)"},
      assumptions=("one thread: the library documents no thread safety",
                   "orders in which the API refuses a second writer or reader, or a blob while records are being "
                   "written, end there"))

check("P20", "p20_refused.cpp", "model_checking",
      "exhaustive enumeration of refused calls at all positions of legal scripts, and of all positions of a record that "
      "cannot be converted, executed on the real code and compared with the run without them",
      "Every call of a catalogue of illegal calls is made at every position of a script that uses every kind of object; "
      "everything observable must be the same before and after it, the rest of the script must behave as without it, "
      "and the file must have the same bytes. Separately a value that cannot be stored or converted is placed at every "
      "record of every block written or read.",
      {"calls": "catalogue of illegal calls x 18 positions, singly, each between all others at the same position, all "
                "together, and everywhere (thorough: all ordered pairs at a position, and the same call at any two "
                "positions)",
       "writing": "6 kinds of value x first or last field x 5 continuations x every record of blocks 3+4, 1+49+60; every "
                  "7th record (thorough: every record) of 100+100 long records that fill packets",
       "reading": "3 kinds of value x every record of 5 and 120 x 4 block sizes x 3 continuations",
       "simple": "catalogue of refused Simple API calls x 6 positions, and pairs (thorough: at all positions)"})

check("P21", "p21_touch.cpp", "exploration",
      "exhaustive enumeration of hostile documents, call sequences on files opened for reading and interrupted writing "
      "histories, with every file-system and network call recorded",
      "Calls that open, remove, rename, truncate or write files and network calls go through recording stand-ins; the "
      "directory (names, inodes, times, bytes) is compared before and after. In the read-only sequences every modifying "
      "call has to be refused with the read-only error and everything else has to work as before.",
      {"hostile": "19 ways to refer to something outside x 16 references x 5 ways to read",
       "ordinary": "10 histories x 4 kinds of damage x 5 ways to read",
       "sequences": "all sequences of up to 4 (thorough: 5) of 16 calls on a file opened for reading",
       "writing": "10 histories stopped after every step, cancelled or destroyed, over a new and an existing file; 9 file "
                  "names"},
      rule="one document and way of reading, one sequence of calls, or one history with its end",
      assumptions=("calls are observed at the C library boundary", "reading the clock and memory mapping without opening a "
                   "file are not observed"))

check("P22", "p22_memory.cpp", "exploration",
      "exhaustive enumeration of documents, damages, checksum policies and read scripts, each run on the real code against "
      "the file and against the same bytes in memory",
      "Everything that can be read (tree, extensions, records, blobs) and the code of every error is written down for both "
      "sources and compared. The memory is a heap block of exactly the size of the file under address sanitizer and is "
      "compared afterwards.",
      {"trees": "all documents of up to 3 (thorough: 4) elements",
       "scenes": "10 histories x all 6 policies x 3 block sizes",
       "damage": "every length in pages and odd lengths near both ends, 5 places in every page, 14 values of every header "
                 "field, 20 values of every offset, length and record count (files of more than 200 pages: every n-th "
                 "page, all in thorough)",
       "scripts": "all sequences of 4 (thorough: 5) of 12 reading calls"},
      rule="one document with one damage, or one sequence of reading calls")

check("P23", "p23_far.cpp", "exploration",
      "exhaustive enumeration of placements of content around the 31- and 32-bit limits of offsets, sizes and counts, written "
      "and read by the real code in sparse files",
      "Documents of an independent writer lie behind a gap that ends at every page around each limit; blobs and record "
      "counts have sizes around each limit; the library itself extends a file over all four limits and writes records, "
      "blobs and XML across each. Pages of zeros are kept as holes by stand-ins for read and write.",
      {"limits": "2^31 and 2^32 as physical and as logical offset, 2^33, 2^40 (thorough: all powers up to 2^42)",
       "placement": "4 documents x 8 pages before each limit x XML before or behind x 2 packet layouts, under 3 checksum policies and from memory",
       "blobs": "11 sizes around each limit, read around each limit inside",
       "records": "5 counts around every power of two from 2^15 to 2^62, the first 20 blocks read",
       "written": "one file with records, blobs and XML across each limit (thorough: up to 2^34), one with a blob and one with a section "
                  "longer than 2^32"},
      rule="one file")

check("P24", "p24_navigate.cpp", "exploration",
      "exhaustive enumeration of trees, with every element looked up from every structure and vector by every path, executed on "
      "the real code",
      "The elements of each tree are collected by index; then every accessor of every element, every downcast, every comparison "
      "of two elements and every look-up of every relative and absolute path (and of paths that lead nowhere) from every structure "
      "and vector is compared with the tree. Trees not attached to a file, trees being written and trees read back are covered.",
      {"trees": "all trees of up to 2 (thorough 3) elements over 10 kinds; all trees of up to 5 (6) structures, vectors and integers "
                "over 3 sets of names (names that contain each other and names with a prefix: one element fewer)",
       "paths": "relative and absolute paths of every element and of every part of it, with a component added, lengthened or "
                "shortened",
       "special": "vectors of up to 101 children, depth up to 25, nested prototypes"},
      rule="one tree in its three states")

check("P26", "p26_bytesonly.cpp", "exploration",
      "exhaustive enumeration of well-formed and damaged files, each read by the real code under several contents of fresh memory "
      "and after other files",
      "Each file is read twice, with new memory filled with zeros and with ones; all that is delivered "
      "and every error must be the same, and the number of records must fit into the file. Pairs of files are read one after the "
      "other, also after a damaged and an incomplete one.",
      {"files": "all documents of up to 2 (thorough 3) elements; 10 histories under 4 policies and 3 block sizes, cut at every page",
       "damage": "4 sets of fields x 2 packet layouts x 2 (thorough 3) record counts (right, 9000 too many, one too many) x about "
                 "40 values of every field of the headers, and 3 (4) values of every byte of the sections",
       "xml": "every attribute removed or replaced by 18 values, every text replaced by 9, with and without explicit defaults",
       "order": "all ordered pairs of 10 histories"},
      rule="one file with one damage, or one pair of files")
check("P25", "p25_buffers.cpp", "exploration",
      "exhaustive enumeration of lists of buffers, of pairs of buffers used one after the other, and of partial transfers, run on "
      "the real code against a list of rules",
      "Every list of buffers is offered to a writer and a reader; which lists are refused, and with which errors, follows from the "
      "documented rules. Accepted ones must transfer the right records, refused ones leave nothing behind. All memory around and "
      "between the described elements, and the elements not transferred, must not be read or changed.",
      {"lists": "8 prototypes; all ordered lists of up to 3 (thorough 4) buffers of all fields in relative and absolute form, "
                "undefined paths and inner nodes, with 2 capacities (lists of 3: at most one of another capacity)",
       "replacement": "4 types of field; all ordered pairs of 3 representations x conversion x scaling x 2 strides x 2 capacities "
                      "x 2 forms of the path",
       "again": "the same buffer objects used for all sequences of 3 writes and reads of several vectors",
       "partial": "4 types of field x all representations x capacities up to 5 (8) x 3 strides, all record counts up to two more "
                  "than the capacity",
       "object": "all representations x 3 capacities x 4 strides x conversion x scaling x 5 paths; 7 bad paths, no memory, closed file"},
      rule="one list of buffers, one pair, one partial transfer or one kind of buffer")

check("P27", "p27_refuse.cpp", "exploration",
      "exhaustive enumeration of files made by an independent writer and broken in exactly one rule, in every place where it "
      "applies, opened and read by the real code",
      "Complete within the stated bounds. Every broken file has valid checksums and a sound twin, which must be accepted. The "
      "error is compared for signature, version and length; elsewhere any error of the library is a refusal.",
      {"header": "every value of every signature byte, 11 x 12 versions, 15 lengths, pages added and removed, page sizes, offset and "
                 "every length of the XML, each from file and memory under 5 policies",
       "xml": "all trees of up to 2 (thorough 3) elements over 10 kinds and 4 larger documents; at every element every one of up to "
              "120 ways to break a rule; all pairs of kinds in homogeneous and heterogeneous vectors",
       "bounds": "all triples of value, minimum and maximum from 9 integers or 8 reals, or absent, in 4 surroundings",
       "binary": "4 sets of fields x 3 packet layouts: every section id, section offsets and lengths, every packet type, packet and "
                 "stream lengths, read in 3 block sizes"},
      rule="one element of one document with all its breaks, or one triple, field or packet")

check("P28", "p28_foreign.cpp", "exploration",
      "exhaustive enumeration of legal scans, images and file headers made by an independent writer, read with the real Simple API",
      "Complete within the stated bounds. What the Simple API returns is compared with what was put into the file; an element that "
      "is absent has the value a new header has.",
      {"elements": "about 90 forms of the optional elements of a scan, 90 of an image and 15 of a file: each alone, each pair, all, "
                   "and all but one, in 3 orders of the elements and 2 styles of file, with unknown elements between them",
       "fields": "23 point fields in every numeric type, with and without limits: each alone with 5 numbers of points, with each "
                 "kind of limits, each pair in both orders, all, and all but one; float and double buffers; unknown fields between them",
       "groups": "every subset and order of the three group items, with and without limits, 3 numbers of groups, 4 index bounds",
       "several": "3 scans or images in one file, read in both orders"},
      rule="one file")

check("P29", "p29_conditions.cpp", "exploration",
      "exhaustive enumeration of API calls over object kinds, argument classes and states of the file, executed on the real code",
      "Complete within the stated bounds. The documented conditions of a call are evaluated on a plain description of the state: "
      "the call has to succeed exactly when all hold, and otherwise to fail with the error of one that does not.",
      {"states": "file being written, read, read from memory; each with nothing else open, writer or reader open, done, file closed, "
                 "cancelled, closed or cancelled under a reader or writer",
       "calls": "every getter, downcast and class invariant on every kind of element, attached and not; get, isDefined, set and append "
                "with every class of path, index and child; constructors with every class of value and limits; blobs; readers, writers "
                "and buffers; functions of the file; calls of the Simple API reader and writer with every index around the count; node types of "
                "coordinates, angles and times",
       "errors": "code, text and copy of every error"},
      rule="one call in one state")
