import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=False,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Records written to a compressed vector are the records read back",
"Every record written through a compressed-vector writer and closed without error is returned, unchanged and in order, by reading the closed file. This holds for every combination of field types, declared ranges and precisions, number of records, and way of splitting the records into write calls.",
["configurations","inputs","programs"],
"All field descriptions (integer and scaled integer of every bit width 0 to 64, signed and offset ranges, single and double floats, strings of every length class), all pairs of them, record counts around every packet, page and register boundary, and all ways to split a write into blocks.",
"The encoders carry bits over register, buffer, packet and page boundaries; an error shows up only for particular widths at particular alignments and block splits, and the product of these is far beyond hand-picked examples.",
["src/Encoder.cpp","src/Decoder.cpp","src/CompressedVectorWriterImpl.cpp","src/CompressedVectorReaderImpl.cpp","src/DecodeChannel.cpp","src/SourceDestBufferImpl.cpp"],
[("bit packing of integers into registers","src/Encoder.cpp BitpackIntegerEncoder::processRecords"),("string length prefixes and partial strings","src/Encoder.cpp BitpackStringEncoder::processRecords"),("choosing how many bytes of each stream go in a packet","src/CompressedVectorWriterImpl.cpp packetWrite"),("constant fields","src/Encoder.cpp ConstantIntegerEncoder")],
["CompressedVectorWriter::write","CompressedVectorReader::read","CompressedVectorNode::childCount"])

p("P02","How records are read does not change what is read",
"Reading a compressed vector delivers the same sequence of values whatever the capacity of the buffers, whichever subset of the fields is requested, in whatever order they are listed, with whatever stride and adequate memory type, and however often it is re-read. Every read call fills the buffers completely unless the end is reached, returns the exact number of records delivered, then returns zero at the end, and writes nothing outside the delivered elements.",
["programs","configurations","inputs"],
"All sequences of read calls over all small capacities, all subsets and orders of the fields, strides and memory types, including replacing the buffers between two reads.",
"Whether a block boundary falls inside a packet, a register or a string depends on widths, counts and capacities together; tests read everything in one call.",
["src/CompressedVectorReaderImpl.cpp","src/DecodeChannel.cpp","src/Decoder.cpp","src/Packet.cpp","src/SourceDestBufferImpl.cpp"],
[("feeding packets to channels that are not yet full","src/CompressedVectorReaderImpl.cpp read, feedPacketToDecoders"),("decoder state kept between reads","src/Decoder.cpp"),("buffer cursors and strides","src/SourceDestBufferImpl.cpp"),("packet cache shared by streams at different positions","src/Packet.cpp PacketReadCache")],
["CompressedVectorReader::read","SourceDestBuffer"])

p("P03","Files written by the library conform to the E57 file format",
"Every file closed without error can be decoded by an independent reader that follows the ASTM E2807 layout: fixed header, page checksums, XML section, binary section headers, packets and bit-packed streams are all well formed and inside the file, and they contain exactly the content given to the library. Writing the same content with the same calls gives the same bytes.",
["configurations","programs","inputs"],
"All element trees, point records, and blobs from the enumerated spaces of small documents, with every binary section placed at every alignment relative to the page.",
"Round-trip tests through the same library cannot see an error made symmetrically by writer and reader; agreement with the format must hold for every content and alignment.",
["src/ImageFileImpl.cpp","src/CheckedFile.cpp","src/SectionHeaders.cpp","src/Packet.cpp","src/CompressedVectorWriterImpl.cpp","src/BlobNodeImpl.cpp","src/CompressedVectorNodeImpl.cpp"],
[("file header","src/ImageFileImpl.cpp close"),("page checksum","src/CheckedFile.cpp checksum, writePhysicalPage"),("section headers and section lengths","src/CompressedVectorWriterImpl.cpp close"),("index packet","src/CompressedVectorWriterImpl.cpp close"),("XML text","src/*NodeImpl.cpp writeXml")],
["bytes of the closed file"])

p("P04","Every legal layout of a file decodes to the same content",
"Given a well-formed file from any producer, what is read depends only on its content: not on how the producer cut the bytestreams into data packets, aligned and padded them, interleaved index and empty packets, placed the sections in the file, or which of the equivalent ways of writing the XML it used (order of attributes, explicit default values, white space around numbers, CDATA or escaped text, comments).",
["inputs","configurations"],
"All ways to cut the bytestreams of small vectors into packets, including packets with no bytes for some streams, interleaved empty and index packets, all section alignments relative to the page, and packets of every size up to the maximum; all combinations of XML style for all small trees.",
"The library's own writer produces only one layout, so its tests never reach the decoder states that other producers' files reach.",
["src/CompressedVectorReaderImpl.cpp","src/DecodeChannel.cpp","src/Decoder.cpp","src/Packet.cpp","src/SectionHeaders.cpp"],
[("finding the next data packet","src/CompressedVectorReaderImpl.cpp findNextDataPacket"),("partial words at packet ends","src/Decoder.cpp BitpackDecoder::inputProcess"),("strings split over packets","src/Decoder.cpp BitpackStringDecoder")],
["CompressedVectorReader::read"])

p("P05","Corruption of a page is detected when its checksum is verified",
"With checksums verified on every page, reading through a page in which any bits were changed after writing raises the checksum error and never delivers data from that page. With a partial policy, the pages the policy selects are verified in the same way and intact files always read without error under every policy.",
["inputs","fault_sequences","configurations"],
"Every single-bit change of every page of a file (payload and checksum), bursts up to 32 bits and pages overwritten with constant bytes at the enumerated places, under every checksum policy.",
"Detection must hold for every corrupted position; a test flips one or two bytes.",
["src/CheckedFile.cpp","src/CheckedFile.h"],
[("verification on page read","src/CheckedFile.cpp verifyChecksum, readPhysicalPage"),("policy","src/CheckedFile.cpp read")],
["ImageFile constructor","CompressedVectorReader::read","BlobNode::read"])

p("P06","A blob behaves as a fixed-size array of bytes",
"A blob starts as zeros, and a read returns for every byte the last value written to it, for every sequence of writes and reads at any offsets and sizes within the blob, before and after the file is closed and reopened. Accesses not entirely inside the blob are rejected and change nothing.",
["histories","inputs"],
"All sequences of writes and reads over offsets and lengths around page boundaries, blob sizes around multiples of the page, alone and next to other sections.",
"Page read-modify-write depends on the offset and length modulo the page size and on what was written before; tests write whole blobs sequentially.",
["src/BlobNodeImpl.cpp","src/CheckedFile.cpp","src/BlobNode.cpp"],
[("page read-modify-write and extension","src/CheckedFile.cpp write, extend"),("bounds checks","src/BlobNodeImpl.cpp read, write"),("logical/physical offsets","src/CheckedFile.h")],
["BlobNode::read","BlobNode::write","BlobNode::byteCount"])

p("P07","Values that do not fit are reported, never altered",
"When a value being written is outside the declared range of its Integer or ScaledInteger field, or a value being written or read cannot be represented in the target type, the call fails with the documented error for that situation; when the value fits it is transferred exactly (correctly rounded for floating point and scaled targets, without its fraction when a real value is converted to an integer on request). Otherwise no combination of memory type, field type, conversion and scaling option silently changes a value.",
["inputs","configurations"],
"All combinations of buffer memory type, field type and declared range, conversion and scaling flags, with every boundary value of each (range limits and one beyond, type limits and one beyond, signed zero, infinities, NaN, halves).",
"There are several hundred type/flag combinations, each with its own boundary code; tests touch a few.",
["src/SourceDestBufferImpl.cpp","src/Encoder.cpp","src/Decoder.cpp","src/IntegerNodeImpl.cpp","src/FloatNodeImpl.cpp","src/ScaledIntegerNodeImpl.cpp"],
[("conversion on write","src/SourceDestBufferImpl.cpp getNextInt64, getNextFloat, getNextDouble"),("conversion on read","src/SourceDestBufferImpl.cpp setNextInt64, setNextFloat, setNextDouble"),("range check on write","src/Encoder.cpp processRecords"),("range check of element values","src/*NodeImpl.cpp validateValue")],
["CompressedVectorWriter::write","CompressedVectorReader::read","IntegerNode, ScaledIntegerNode, FloatNode constructors"])

p("P08","The element tree read back equals the tree that was written",
"For every element tree attached to the root of a file that is closed without error, reopening the file yields the same tree: same paths and order, types, values, declared bounds, precision, scale, offset, byte counts, record counts, prototypes, codecs and vector homogeneity.",
["inputs","programs"],
"All trees up to a bounded number of elements over all eight element types, with boundary values for every attribute and strings over every class of character, including markup characters, delimiters, white space, multi-byte characters and long strings.",
"Escaping, default-value elision and nesting interact; tests store a few plain strings and numbers.",
["src/StructureNodeImpl.cpp","src/VectorNodeImpl.cpp","src/CompressedVectorNodeImpl.cpp","src/IntegerNodeImpl.cpp","src/ScaledIntegerNodeImpl.cpp","src/FloatNodeImpl.cpp","src/StringNodeImpl.cpp","src/BlobNodeImpl.cpp","src/E57XmlParser.cpp"],
[("serialisation","src/*NodeImpl.cpp writeXml"),("parsing","src/E57XmlParser.cpp startElement, endElement, characters"),("omitted defaults","src/*NodeImpl.cpp writeXml")],
["ImageFile::root","node accessors after reopening"])

p("P09","Tree-building calls keep the element tree well formed",
"After every sequence of calls that create elements and add them to structures and vectors, accepted or refused, the tree satisfies the class invariants and equals what the documented rules give: names unique and legal, vector children numbered from zero, each element has one parent, homogeneous vectors hold children of one shape, set-once, attachment inherited from the root. Calls the rules forbid are refused with the documented error.",
["programs","histories"],
"All sequences up to a bounded length of set and append calls over a small population of elements of all types, with relative and absolute, existing and missing, legal and illegal path names.",
"Errors need a particular order of attaching subtrees and particular paths; the space of call sequences is exponential.",
["src/NodeImpl.cpp","src/StructureNodeImpl.cpp","src/VectorNodeImpl.cpp","src/ImageFileImpl.cpp"],
[("set and lookup by path","src/StructureNodeImpl.cpp set, lookup"),("append","src/VectorNodeImpl.cpp append, set"),("attachment","src/NodeImpl.cpp setAttachedRecursive, setParent"),("element name grammar","src/ImageFileImpl.cpp elementNameParse, pathNameParse"),("type equivalence","src/*NodeImpl.cpp isTypeEquivalent")],
["StructureNode::set","VectorNode::append","Node::pathName","Node::isAttached","checkInvariant"])

p("P10","A failed write to storage never goes unnoticed",
"If any operating-system call made while a file is being written fails or completes only partly, then either the library reports an error from a call no later than the close of the file, or the file closed is nevertheless complete and correct. After a reported error the file can still be closed, cancelled or destroyed without crash or leaked descriptor.",
["fault_sequences","crash_points"],
"Every system call (open, seek, read, write, close) of each writing scenario made to fail, each with every failure mode (error code, short count), singly, in all pairs, and persistently from each point on.",
"Disk-full, short-write and I/O-error paths are never executed by tests, and each of the hundreds of call sites has to be hit.",
["src/CheckedFile.cpp","src/ImageFileImpl.cpp","src/CompressedVectorWriterImpl.cpp","src/BlobNodeImpl.cpp"],
[("physical write","src/CheckedFile.cpp writePhysicalPage"),("close","src/CheckedFile.cpp close; src/ImageFileImpl.cpp close"),("clean-up after failure","src/ImageFileImpl.cpp cancel, destructor")],
["return or exception of each API call","bytes of the file"])

p("P11","A failed read from storage never yields wrong data",
"If any operating-system call made while a file is being opened or read fails or returns fewer bytes than asked, then the library reports an error or delivers exactly the right data, never other data. After a reported error, the objects involved can be closed and destroyed without crash or leaked descriptor, and a repeated read either fails or delivers the right data.",
["fault_sequences"],
"Every system call of each reading scenario made to fail with each failure mode, singly and in pairs, under every checksum policy, followed by retries of the failed call.",
"Read errors in the middle of a file cannot be produced by ordinary tests, and stale caches show only after a failure followed by a retry.",
["src/CheckedFile.cpp","src/Packet.cpp","src/CompressedVectorReaderImpl.cpp","src/ImageFileImpl.cpp","src/E57XmlParser.cpp"],
[("physical read","src/CheckedFile.cpp readPhysicalPage"),("packet cache fill","src/Packet.cpp readPacket"),("constructor clean-up","src/ImageFileImpl.cpp construct2")],
["ImageFile constructor","CompressedVectorReader::read","BlobNode::read"])

p("P12","An unfinished file is never mistaken for a complete one",
"If the writing process stops at any instant before the close of the file completes, whatever is on disk either is refused when opened or reads back exactly the content of the finished file. Cancelling, or destroying a file that was not closed, removes it from disk.",
["crash_points","histories"],
"Every prefix of the sequence of writes to storage of each writing scenario, and every partial completion of the last write, plus cancel and destruction at every point of the scenario.",
"Crashes between two particular writes cannot be provoked by unit tests.",
["src/ImageFileImpl.cpp","src/CheckedFile.cpp"],
[("header written last","src/ImageFileImpl.cpp close"),("removal on cancel","src/ImageFileImpl.cpp cancel; src/CheckedFile.cpp unlink"),("header verification","src/ImageFileImpl.cpp readFileHeader")],
["bytes on disk at each write","ImageFile constructor on them","ImageFile::cancel"])

p("P13","Malformed input is refused cleanly",
"Opening and reading any sequence of bytes, however malformed, ends in finite time with success or a library exception, and never with a memory error, a crash, undefined behaviour or any other kind of exception. All resources are released afterwards and the library remains usable.",
["inputs"],
"All truncations, all single-field substitutions by boundary values in the header, section headers, packets and XML attributes with checksums made valid again, deletions and substitutions of XML elements, and every single-byte change of small files.",
"The set of malformed files is unbounded; each parser field needs its own hostile values with valid checksums around them.",
["src/ImageFileImpl.cpp","src/E57XmlParser.cpp","src/SectionHeaders.cpp","src/Packet.cpp","src/CompressedVectorReaderImpl.cpp","src/BlobNodeImpl.cpp","src/CheckedFile.cpp","src/ReaderImpl.cpp"],
[("file header verification","src/ImageFileImpl.cpp readFileHeader"),("XML element handling","src/E57XmlParser.cpp"),("packet verification","src/Packet.cpp verify"),("section verification","src/SectionHeaders.cpp verify"),("standard elements of Data3D and Image2D","src/ReaderImpl.cpp")],
["ImageFile constructor","tree walk","CompressedVectorReader::read","BlobNode::read","Reader"])

p("P14","Objects follow their documented open and close life cycle",
"For every order of opening, using, closing, cancelling and destroying image files, compressed-vector readers and writers, each call does what the documentation of the object's state says: closing twice is harmless, using a closed object is refused with the documented error, a second writer or a writer beside a reader is refused, and counts of open readers and writers are exact. The invariants of all objects hold after every call.",
["programs","histories"],
"All sequences up to a bounded length over the calls of one image file with up to two readers and two writers, for files opened for writing and for reading.",
"Each unit test follows one ordinary order of calls; the defects are in unusual orders such as close twice or destroy before close.",
["src/ImageFileImpl.cpp","src/CompressedVectorReaderImpl.cpp","src/CompressedVectorWriterImpl.cpp","src/CompressedVectorNodeImpl.cpp","src/NodeImpl.cpp"],
[("open/close state","src/ImageFileImpl.cpp isOpen, close, cancel"),("reader and writer counts","src/ImageFileImpl.cpp incrReaderCount, incrWriterCount"),("use after close","src/NodeImpl.cpp checkImageFileOpen")],
["ImageFile::isOpen, readerCount, writerCount","CompressedVectorReader::isOpen","CompressedVectorWriter::isOpen","exceptions"])

p("P15","Scan and image metadata survive the Simple API round trip",
"Every header given to the Simple API writer (file root, 3D scan, 2D image, with each optional item present or absent and each numeric item at any legal value) is returned by the Simple API reader with the same content, apart from the documented additions of missing identifiers and required limits.",
["inputs","configurations"],
"All combinations of presence of header groups pairwise, each item of each header set to distinguishing and boundary values one at a time and all together, every point-field set, node type and image representation.",
"There are over a hundred items, each with its own conditional on writing and on reading; tests set a handful.",
["src/WriterImpl.cpp","src/ReaderImpl.cpp","src/E57SimpleData.cpp","include/E57SimpleData.h"],
[("writing headers","src/WriterImpl.cpp NewData3D, NewImage2D"),("reading headers","src/ReaderImpl.cpp ReadData3D, ReadImage2D, GetE57Root")],
["Reader::GetE57Root","Reader::ReadData3D","Reader::ReadImage2D","Reader::GetData3DSizes","Reader::GetImage2DSizes"])

p("P16","Scan points, groups and images survive the Simple API round trip",
"Point attributes, line groups and image bytes written with the Simple API are returned by the Simple API reader with every value in the right attribute, the right element and the right scan, for every set of point fields, node types, float or double buffers and block sizes. Attributes are exact, except that coordinates stored as scaled integers or single floats are rounded to that representation.",
["inputs","configurations","programs"],
"All single point fields and all pairs, all numeric node types, float and double buffers, point counts and block sizes around the boundaries, several scans and images in one file.",
"A crossed field or wrong conversion flag shows only for a specific field, node type and buffer type.",
["src/WriterImpl.cpp","src/ReaderImpl.cpp","src/E57SimpleReader.cpp","src/E57SimpleWriter.cpp","src/E57SimpleData.cpp"],
[("binding buffers to fields","src/WriterImpl.cpp SetUpData3DPointsData; src/ReaderImpl.cpp SetUpData3DPointsData"),("image data","src/WriterImpl.cpp WriteImage2DData; src/ReaderImpl.cpp ReadImage2DData"),("groups","src/WriterImpl.cpp WriteData3DGroupsData")],
["Writer::WriteData3DData, SetUpData3DPointsData, WriteData3DGroupsData, WriteImage2DData","Reader counterparts"])

p("P17","Numbers stored as text are read back exactly, in any locale",
"Every finite floating-point number (single and double precision) and every integer stored as an element value, bound, scale or offset is read back bit for bit (a zero may lose its sign), independently of the locale of the writing and the reading process.",
["inputs","configurations"],
"Every exponent with enumerated mantissas for single and double precision, all integers around every power of two and ten, under locales with other decimal points and digit grouping, chosen independently for writing and reading.",
"The decimal precision needed depends on the number; examples that happen to be short decimals all pass.",
["src/StringFunctions.cpp","src/CheckedFile.cpp","src/E57XmlParser.cpp","src/FloatNodeImpl.cpp","src/ScaledIntegerNodeImpl.cpp","src/IntegerNodeImpl.cpp"],
[("floating point to text","src/StringFunctions.cpp floatingPointToStr; src/CheckedFile.cpp operator<<"),("text to number","src/StringFunctions.cpp strToDouble; src/E57XmlParser.cpp")],
["FloatNode::value, minimum, maximum","ScaledIntegerNode::scale, offset","IntegerNode::value, minimum, maximum"])

p("P18","Extension prefixes form a consistent one-to-one registry",
"After every sequence of extension registrations and look-ups, prefixes and URIs map to each other one to one in order of registration, duplicates are refused, element names with a prefix are accepted exactly when the prefix is registered and the name is legal, and the registry and the prefixed elements are the same after the file is reopened.",
["histories","inputs"],
"All sequences up to a bounded length of registrations, look-ups, and uses of prefixed names over a small set of prefixes and URIs, with URIs containing markup characters, and all element names over an alphabet of character classes up to a bounded length.",
"Conflicts depend on the order of registrations; the name grammar has many one-character edge cases.",
["src/ImageFileImpl.cpp","src/E57XmlParser.cpp","src/StructureNodeImpl.cpp"],
[("registry","src/ImageFileImpl.cpp extensionsAdd, extensionsLookupPrefix, extensionsLookupUri"),("name grammar","src/ImageFileImpl.cpp elementNameParse, isElementNameExtended"),("namespace declarations","src/StructureNodeImpl.cpp writeXml; src/E57XmlParser.cpp")],
["ImageFile::extensionsAdd and look-ups","StructureNode::set"])

p("P19","Objects in one file and files in one process do not interfere",
"The content of each blob, compressed vector and element of a file is the same whatever else is written to or read from the same file in between, in any order the API allows, and the content of one image file does not depend on operations on any other image file interleaved with it.",
["programs","schedules"],
"All interleavings of the operations of two or three scripts, each script writing or reading one blob or one compressed vector in the same file or one whole file.",
"Interference through a shared file position, cache or allocation offset needs a particular interleaving.",
["src/ImageFileImpl.cpp","src/CheckedFile.cpp","src/BlobNodeImpl.cpp","src/CompressedVectorWriterImpl.cpp","src/CompressedVectorReaderImpl.cpp","src/Packet.cpp"],
[("space allocation","src/ImageFileImpl.cpp allocateSpace"),("shared file position","src/CheckedFile.cpp seek"),("reader positions","src/CompressedVectorReaderImpl.cpp")],
["all read calls","file content after close"])

p("P20","A refused call leaves everything as it was",
"When a call is refused because of its arguments or the state of the object, no observable state changes: the element tree, extension registry, blobs and counts are as before and later legal calls behave as if the refused call had not been made. When writing records fails part way, the rest of the file stays usable and correct, and the vector of the closed file has no records or exactly those of the write calls that succeeded.",
["programs","inputs","histories"],
"All refused calls of an enumerated catalogue of illegal calls inserted at every position of legal scripts, singly and in pairs; conversion or range failures at every record of every block.",
"Tests check that the error is thrown, not that nothing else happened afterwards.",
["src/StructureNodeImpl.cpp","src/VectorNodeImpl.cpp","src/ImageFileImpl.cpp","src/CompressedVectorWriterImpl.cpp","src/CompressedVectorReaderImpl.cpp","src/BlobNodeImpl.cpp","src/CompressedVectorNodeImpl.cpp"],
[("validate before modify","src/StructureNodeImpl.cpp set; src/VectorNodeImpl.cpp append"),("writer construction","src/CompressedVectorWriterImpl.cpp constructor"),("failed write","src/CompressedVectorWriterImpl.cpp write")],
["file content after close","accessors"])

p("P21","Reading a file touches nothing but that file and never changes it",
"Opening, reading and closing a file, whatever its content, opens only that file, opens it read-only, and changes no file on disk; every modifying call on a file opened for reading is refused with the read-only error. Writing a file touches only that file.",
["programs","inputs"],
"All sequences up to a bounded length of reading and modifying calls on a file opened for reading, over files with ordinary and hostile content (references to external entities and other documents), with every file-system call recorded.",
"A stray write or an external reference shows only for particular content or call sequences, and tests do not watch the file system.",
["src/CheckedFile.cpp","src/ImageFileImpl.cpp","src/E57XmlParser.cpp","src/BlobNodeImpl.cpp","src/CompressedVectorNodeImpl.cpp"],
[("open flags","src/CheckedFile.cpp constructor"),("read-only checks","src/BlobNodeImpl.cpp write; src/CompressedVectorNodeImpl.cpp writer; src/NodeImpl.cpp"),("XML entity handling","src/E57XmlParser.cpp")],
["file-system calls","file bytes","exceptions"])

p("P22","Reading from memory equals reading from a file",
"Opening the bytes of a file from a memory buffer gives the same result as opening the file itself: the same tree, records, blobs and errors for every sequence of reads, for well-formed and for damaged content, and under every checksum policy. No byte outside the buffer is accessed and the buffer is not modified.",
["inputs","programs","configurations"],
"All documents of the enumerated spaces, all truncations and single-page corruptions of them, all checksum policies and all short read scripts, each run against both sources.",
"The two sources have separate code for position, length and short reads that tests exercise with one file.",
["src/CheckedFile.cpp","src/ImageFileImpl.cpp","src/E57XmlParser.cpp"],
[("memory source","src/CheckedFile.cpp BufferView"),("length checks","src/CheckedFile.cpp constructors")],
["ImageFile( const char *, uint64_t, ... )","ImageFile( ustring, ... )"])
p("P23","Size and position in the file do not matter",
"Elements, records and blobs are written and read in the same way wherever they lie in the file and however large they are: behind 2 GiB and 4 GiB, across these limits, in blobs longer than 32-bit sizes and in vectors with more records than 32 bits can count.",
["inputs","programs"],
"Documents behind gaps that end at every page around the 31- and 32-bit limits of physical and logical offsets, blobs and record counts around the same limits, and one file extended by the library over all of them.",
"No test writes a file of more than some megabytes, so offsets, lengths and counts narrowed to 32 bits go unnoticed.",
["src/CheckedFile.cpp","src/CheckedFile.h","src/ImageFileImpl.cpp","src/BlobNodeImpl.cpp","src/CompressedVectorWriterImpl.cpp","src/CompressedVectorReaderImpl.cpp","src/E57XmlParser.cpp","src/Decoder.cpp","src/Packet.cpp"],
[("offset arithmetic","src/CheckedFile.h logicalToPhysical, physicalToLogical"),("extension","src/CheckedFile.cpp extend"),("offsets in XML","src/E57XmlParser.cpp; src/BlobNodeImpl.cpp writeXml; src/CompressedVectorNodeImpl.cpp writeXml")],
["all read calls","file content after close"])
p("P24","Every way to reach an element leads to the same element",
"An element of the tree is the same object with the same name, path, parent and root whether it is reached by index, by name, by a relative path from any structure or vector above it, by its absolute path from any element, or through its parent; a path is defined exactly when an element is there; downcasts succeed exactly for the type of the element; and two nodes are equal exactly when they are the same element. This holds in trees not attached to a file, in trees being written, and in trees read back.",
["inputs","programs"],
"All trees up to a bounded size over all kinds of elements and several sets of names, with every element looked up from every structure and vector by every relative and absolute path, and by paths with parts added, removed or changed.",
"A wrong step of the path walk shows only for a particular shape of tree, starting point and name; tests look up a few top-level names.",
["src/StructureNodeImpl.cpp","src/VectorNodeImpl.cpp","src/NodeImpl.cpp","src/ImageFileImpl.cpp","src/Node.cpp"],
[("path walk","src/StructureNodeImpl.cpp lookup"),("path syntax","src/ImageFileImpl.cpp pathNameParse"),("names and parents","src/NodeImpl.cpp pathName, parent, getRoot"),("downcasts and equality","src/Node.cpp; src/*Node.cpp")],
["StructureNode::get, isDefined","VectorNode::get","Node::pathName, parent, elementName, operator=="])

p("P25","Buffers are accepted exactly when they fit, and only their memory is touched",
"A list of buffers is accepted by a writer exactly when it names every field of the prototype once, in relative or absolute form, and by a reader when it names fields at most once; all capacities have to be equal. Other lists are refused with the documented errors and leave nothing behind. Buffers given to a later read or write are accepted exactly when they differ from the former ones in nothing but their memory and capacity, and the former ones stay in use when they are refused. A write of n records looks at the first n elements only, changes nothing in memory, and is refused when n exceeds the capacity; a read changes only the elements it delivers. A buffer object reports what it was constructed with, and construction without memory, with a malformed path or for a closed file is refused.",
["inputs","programs"],
"All lists of up to three buffers over all fields, forms of path names, wrong paths and capacities; all pairs of kinds of buffers used one after the other; all record counts around the capacity for all types and strides.",
"Tests use one matching list of buffers each; which combinations are refused, and that memory beside the elements stays untouched, is not tested.",
["src/NodeImpl.cpp","src/SourceDestBufferImpl.cpp","src/SourceDestBuffer.cpp","src/CompressedVectorWriterImpl.cpp","src/CompressedVectorReaderImpl.cpp","src/CompressedVectorNodeImpl.cpp"],
[("list of buffers","src/NodeImpl.cpp checkBuffers; checkLeavesInSet of all nodes"),("replacement","src/SourceDestBufferImpl.cpp checkCompatible; setBuffers of reader and writer"),("element access","src/SourceDestBufferImpl.cpp getNext*, setNext*")],
["CompressedVectorNode::writer, reader","CompressedVectorWriter::write","CompressedVectorReader::read","SourceDestBuffer"])

p("P26","What is read depends on nothing but the bytes of the file",
"For every sequence of bytes, well formed or damaged, the tree, records, blobs and errors delivered are a function of these bytes and the calls made, not of the content of uninitialised or reused memory or of what was read before; a damaged file never yields bytes that are not in it, nor more records than it has room for.",
["inputs","histories","configurations"],
"Well-formed and systematically damaged files, each read under different contents of fresh memory and after other files.",
"Stale memory only shows when a length is wrong or a page is missing, and then differs from run to run; tests read well-formed files once.",
["src/Packet.cpp","src/CompressedVectorReaderImpl.cpp","src/DecodeChannel.cpp","src/Decoder.cpp","src/E57XmlParser.cpp","src/CheckedFile.cpp","src/BlobNodeImpl.cpp"],
[("packet cache and lengths","src/Packet.cpp"),("decoder state","src/Decoder.cpp"),("parser state","src/E57XmlParser.cpp ParseInfo"),("pages","src/CheckedFile.cpp read")],
["all read calls"])

p("P27","A file that breaks a rule of the format is refused",
"A file is opened only if its header has the right signature, a known version, its own length and the page size of the format, and its XML section is a complete well-formed document whose elements follow the rules: known types, required attributes, well-formed numbers, values within their bounds, names used once and with declared prefixes, children only where they are allowed and of one shape in homogeneous vectors, prototypes and codecs of the right kind. Records are delivered only from sections and packets whose types and lengths are consistent. Every other file is refused with an error (the documented one for signature, version and length), under every checksum policy, from a file and from memory; and no file that follows the rules is refused.",
["inputs","configurations"],
"Documents of bounded size made by an independent writer, each broken in exactly one rule in every place where the rule applies, with valid checksums, beside the unbroken document.",
"Tests have a few broken files; a rule that is no longer enforced in one kind of place or for one type shows only with a file that breaks just this rule there.",
["src/ImageFileImpl.cpp","src/E57XmlParser.cpp","src/SectionHeaders.cpp","src/Packet.cpp","src/StringFunctions.cpp","src/IntegerNodeImpl.cpp","src/ScaledIntegerNodeImpl.cpp","src/FloatNodeImpl.cpp","src/CompressedVectorNodeImpl.cpp","src/VectorNodeImpl.cpp"],
[("header","src/ImageFileImpl.cpp readFileHeader"),("elements","src/E57XmlParser.cpp startElement, endElement, characters"),("bounds","validateValue of numeric nodes"),("sections","src/SectionHeaders.cpp verify"),("packets","src/Packet.cpp verify")],
["ImageFile constructors","CompressedVectorNode::reader","CompressedVectorReader::read"])

p("P28","The Simple API reads every legal scan and image, whoever wrote it",
"Reading a file with the Simple API returns what is in the file, also if another program wrote it: file header, scan and image headers contain the value of every optional element that is present, and the default value of every one that is absent (nothing is left over from an earlier call); the point fields reported are those of the prototype, with its types, scales and limits, unless the scan has limits of its own for intensities or colours, which come first; points, groups and image bytes are delivered completely and with their numeric values, whether a field is stored as integer, scaled integer, single or double, in buffers of float or double. The order of elements and fields does not matter, and neither do unknown elements, fields and extensions.",
["inputs","histories"],
"Files made by an independent writer: each form of each optional element alone, in pairs, all together and all but one, in several orders; 23 point fields in every numeric type alone, in ordered pairs and all together; all kinds of groups and images; up to three scans and images in a file. Azimuths stored as plain integers, and the reported range of coordinates stored as plain integers, are excluded.",
"The tests read what the Simple API itself wrote, which has one order and one form of each element; files by others combine optional elements, orders and numeric types in thousands of ways.",
["src/ReaderImpl.cpp","src/E57SimpleReader.cpp","src/E57SimpleData.cpp","src/SourceDestBufferImpl.cpp"],
[("headers","src/ReaderImpl.cpp GetE57Root, ReadData3D, ReadImage2D"),("points","src/ReaderImpl.cpp SetUpData3DPointsData"),("groups","src/ReaderImpl.cpp GetData3DSizes, ReadData3DGroupsData"),("images","src/ReaderImpl.cpp GetImage2DSizes, ReadImage2DData")],
["Reader::GetE57Root","Reader::ReadData3D","Reader::ReadImage2D","Reader::SetUpData3DPointsData","Reader::ReadData3DGroupsData","Reader::GetData3DSizes","Reader::GetImage2DSizes","Reader::ReadImage2DData"])

p("P29","A call is refused exactly when a documented condition does not hold",
"Every function of the API succeeds if the conditions its documentation names all hold (file open, opened for writing, element attached, no other reader or writer open, value within its limits, path well formed and defined, index in range, no parent yet, same file, right type, ...), and otherwise fails with an E57Exception whose code is the one documented for a condition that does not hold. This is so in every state: while a reader or writer is open, after it was closed, and after the file was closed or cancelled (no function of an element then delivers a value). Errors carry a code, a text of their own for each code and the context, and copies of them too. The Simple API reports success exactly for a scan, image or group that exists in an open file; a refused call of its writer leaves nothing behind.",
["programs","histories","inputs"],
"Every API call on every kind of element with every class of argument, in every combination of mode (writing, reading, memory) and state of file, reader and writer. Where several conditions fail any of their errors is accepted. Not claimed: dump() and compressedVectorNode() of closed files, isOpen() of readers and writers of closed files, element constructors on files opened for reading.",
"Tests call a few functions with bad arguments in one state; whether each of about 200 functions checks each of its conditions in each state is not tested.",
["src/NodeImpl.cpp","src/StructureNodeImpl.cpp","src/VectorNodeImpl.cpp","src/CompressedVectorNodeImpl.cpp","src/CompressedVectorReaderImpl.cpp","src/CompressedVectorWriterImpl.cpp","src/BlobNodeImpl.cpp","src/ImageFileImpl.cpp","src/E57Exception.cpp","src/ReaderImpl.cpp"],
[("conditions of elements","src/NodeImpl.cpp checkImageFileOpen and its callers; constructors and downcasts of all node classes"),("conditions of trees","src/StructureNodeImpl.cpp set, append; src/ImageFileImpl.cpp pathNameCheckWellFormed"),("conditions of transfer","src/CompressedVectorNodeImpl.cpp writer, reader"),("error objects","src/E57Exception.cpp")],
["all functions of E57Format.h","E57Exception","Reader"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
