import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","Sequential reading delivers every element exactly once, in file order",
 "Reading a conforming file sequentially hands the caller every node, way and relation of every data blob exactly once, in file order, with its kind (plain node, dense node, way, relation) and id as stored, and then succeeds. Nothing is lost, duplicated, invented or reordered, however many blobs, groups or elements there are, whether payloads are stored raw or zlib-compressed, and wherever header blobs, unknown blobs, empty groups or empty blocks are interleaved. Within one group of mixed kinds only the order of elements of the same kind is promised.",
 ["inputs"],"all conforming files: any number of blobs/groups/elements of any kind, raw or compressed, with any interleaving of header and unknown blobs",
 "Existing tests read five fixed tiny files with one data blob and five elements; they never see empty groups, several data blobs, thousands of elements, interleaved unknown blobs or repeated headers.",
 ["src/reader.rs","src/block.rs","src/blob.rs","src/dense.rs"],
 [("sequential blob loop dispatching on blob type","src/reader.rs ElementReader::for_each"),("per-block element walk","src/block.rs PrimitiveBlock::for_each_element, BlockElementsIter::step")],
 observe=["ElementReader::for_each","PrimitiveBlock::elements","PrimitiveBlock::groups"])

p("C02","Dense nodes decode to exactly the nodes that were encoded",
 "For every group of densely stored nodes, the nodes delivered are, position by position, the encoded ones: the running id, the running raw coordinates, that node's own tags and that node's own metadata, never a neighbour's. This holds for any group length, any delta sizes and signs, any mix of tagged and untagged nodes, with the tag column present or entirely absent and with or without metadata and visibility columns. A node stored densely therefore reads the same as the same node stored plainly, and decoding of one group never depends on another group.",
 ["inputs"],"all conforming dense groups (lengths, deltas, tag layouts, metadata columns) in any position of a block",
 "Tests have a single dense group of three untagged nodes, ids increasing by 1-2; no tagged dense node, no negative delta, no second group, no missing column.",
 ["src/dense.rs","src/block.rs"],
 [("delta accumulation over parallel columns","src/dense.rs DenseNodeIter::next, DenseNodeInfoIter::next"),("tag column split on delimiter 0","src/dense.rs DenseNodeIter::next"),("fresh iterator per group","src/block.rs BlockElementsIter::step, PrimitiveGroup::dense_nodes")],
 state=[("cid/clat/clon, ctimestamp/cchangeset/cuid/cuser_sid","running sums of the deltas","src/dense.rs"),("keys_vals_index","start of the next node's tags","src/dense.rs")],
 observe=["DenseNode::id/nano_lat/nano_lon/tags/raw_tags/info"])

p("C03","Coordinates are exact for every granularity and offset",
 "Every coordinate in nanodegrees, for plain nodes, dense nodes and node locations stored on ways, equals offset + granularity * stored value using the block's own granularity and its own latitude/longitude offset (100 and 0 when absent), with latitude and longitude never exchanged. The decimicrodegree value is that number divided by 100 truncated toward zero, and the degree value is that number times 1e-9 up to floating-point rounding. Blocks with different settings in one file do not influence each other.",
 ["inputs"],"all stored coordinates, granularities and offsets whose nanodegree value fits in 64 bits (decimicro: whose result fits in 32 bits)",
 "All test files use the default granularity and zero offsets, positive coordinates, one block.",
 ["src/elements.rs","src/dense.rs","src/proto/osmformat.proto"],
 [("nano_lat/nano_lon formula per representation","src/elements.rs Node, WayNodeLocationsIter; src/dense.rs DenseNode"),("default granularity 100 / offsets 0","src/proto/osmformat.proto PrimitiveBlock")],
 observe=["Node::*lat/*lon","DenseNode::*lat/*lon","WayNodeLocation::*lat/*lon"])

p("C04","Ways keep their node references and locations exactly",
 "For every way, the node references delivered are exactly the encoded sequence of node ids, in order and with repetitions, however long and whatever the signs and sizes of the steps, and the raw references are exactly the stored differences. Node locations stored on a way are delivered completely, in order, each with its own latitude and longitude, and a way without stored locations yields none. Every way starts afresh: nothing carries over from another way.",
 ["inputs"],"all ways: any reference count, any id sequence, with and without stored locations, any number of ways per group",
 "Tests contain one way with four references (105,106,108,105) and one file with four locations.",
 ["src/elements.rs","src/proto/osmformat.proto"],
 [("delta accumulation","src/elements.rs WayRefIter::next, WayNodeLocationsIter::next")],
 observe=["Way::refs","Way::raw_refs","Way::node_locations"])

p("C05","Relations keep every member with its type, id and role",
 "For every relation, the members delivered are exactly the encoded ones, in order: member type (node, way or relation), member id and role string all belonging to the same member. This holds for any number of members, any mix of types, repeated members, empty roles and any signs and sizes of id steps. Every relation starts afresh: nothing carries over from another relation.",
 ["inputs"],"all relations with any member list whose types are the three defined ones",
 "Tests contain one relation with one member.",
 ["src/elements.rs","src/block.rs","src/proto/osmformat.proto"],
 [("zip of roles, id deltas and types","src/elements.rs RelMemberIter::next"),("enum mapping","src/elements.rs RelMemberType::from"),("role lookup","src/elements.rs RelMember::role, src/block.rs str_from_stringtable")],
 observe=["Relation::members","RelMember::role"])

p("C06","Tags and strings resolve to exactly the stored strings",
 "The tags delivered for a node, dense node, way or relation are exactly its stored key/value pairs, in order, each string being the entry its index names in the string table of the element's own block, and the raw tag indices and the raw string table are exactly the stored ones. A user name or role whose index is outside the table or whose bytes are not valid UTF-8 is reported as an error naming that index, never as some other string. Tag iteration over undecodable entries never yields a pair that was not stored and always yields the pairs before the first undecodable one.",
 ["inputs"],"all string tables (any size, duplicates, any bytes including invalid UTF-8) and all index assignments",
 "Tests look up two way tags, one relation tag and one role in a table of a few ASCII strings.",
 ["src/block.rs","src/elements.rs","src/dense.rs"],
 [("string table lookup","src/block.rs str_from_stringtable, get_stringtable_key_value"),("tag iterators","src/elements.rs TagIter, RawTagIter; src/dense.rs DenseTagIter, DenseRawTagIter")],
 observe=["tags()","raw_tags()","raw_stringtable()","user()","role()"])

p("C07","Element metadata is faithful, including what is absent",
 "For every element, version, changeset, user id, user name, timestamp and visibility are exactly the stored ones, with the timestamp scaled by the block's own date granularity (1000 ms when absent) to milliseconds. A field, or a whole metadata record, that is not stored is reported as absent (never as zero or as another element's value), and an element without a visibility flag counts as visible and not deleted. Deleted is always the inverse of visible.",
 ["inputs"],"all metadata records on plain nodes, ways and relations (any subset of fields present) and all dense metadata with any subset of its columns, with or without the visibility column",
 "Tests check only uid 17 and the visible flag on three nodes and two history nodes.",
 ["src/elements.rs","src/dense.rs","src/proto/osmformat.proto"],
 [("optional field accessors","src/elements.rs Info"),("delta-coded dense metadata","src/dense.rs DenseNodeInfoIter, DenseNodeInfo")],
 observe=["info() on every element type"])

p("C08","File headers are reported exactly",
 "For every header blob, the required features, optional features, writing program, source, replication timestamp, replication sequence number and replication URL are exactly the stored values, list order included, and each one that is not stored is reported as absent or empty. The bounding box is present exactly when stored, and its left, right, top and bottom are the respective stored nanodegrees times 1e-9, up to floating-point rounding, regardless of any block granularity.",
 ["inputs"],"all header blocks: any subset of fields, any strings, any 64-bit values",
 "Tests compare only the feature lists (unordered) of five files; no bbox, program, source or replication field is ever checked.",
 ["src/block.rs","src/proto/osmformat.proto"],
 [("field accessors with presence checks","src/block.rs HeaderBlock")],
 observe=["Blob::to_headerblock","Blob::decode","MmapBlob::decode"])

p("C09","Parallel map-reduce equals the sequential result",
 "For any file, any mapping and any associative and commutative reduction with its identity, the parallel map-reduce returns the same value as folding the sequentially read elements, for every number of threads and every scheduling: each element is mapped exactly once and no partial result is lost or counted twice. It returns an error exactly when sequential reading of the same file returns an error. The number of blobs without elements (headers, unknown, empty) does not change the result.",
 ["inputs","schedules"],"all files (conforming or with defective blobs), all commutative monoids, all worker counts and interleavings of the worker pool",
 "The one test counts five elements of a single-blob file, where no combination across blobs happens at all.",
 ["src/reader.rs"],
 [("parallel bridge over the blob iterator, per-blob fold, error-aware reduce","src/reader.rs ElementReader::par_map_reduce")],
 observe=["ElementReader::par_map_reduce under pools of 1..8 threads"])

p("C10","All ways of accessing a file agree with each other",
 "The buffered stream reader, the seekable reader, the memory map, the element reader and the header-skipping iteration, opened from a path, a file handle or any reader, see the same sequence of blobs in the same file: same number, same types, same start offsets (where offsets are known at all), same decoded content. Decoding a blob is repeatable, is consistent with its reported type, and gives the same content as asking for that block kind directly. Walking a block through its groups, through its element iterator or through its element callback yields the same elements.",
 ["inputs"],"all files, and all pairs of access paths",
 "Tests run each path on three fixed files and compare only counts and types; offsets are asserted only in doc examples for the first blob.",
 ["src/blob.rs","src/mmap_blob.rs","src/reader.rs","src/block.rs"],
 [("stream framing","src/blob.rs BlobReader"),("mmap framing","src/mmap_blob.rs MmapBlobReader::next"),("shared payload decoding","src/blob.rs decode_blob")],
 observe=["BlobReader","MmapBlobReader","ElementReader","next_header_skip_blob"])

p("C11","Any sequence of seeks and reads lands on the right blobs",
 "After any sequence of reading, header-skipping, seeking to blob offsets (absolute or relative), reading from an offset, hitting the end of the file or hitting an error, the next blob returned is the one that starts at the current position, carrying its true byte offset. A blob read from its reported offset is the same blob again, and leaves the reader positioned at the following blob. The end of the file or an earlier error never prevents a later seek to a valid offset from working; seeking to or past the end yields no blob. Skipping blobs by position, or consuming the iterator as a whole, sees the same blobs as reading them one at a time.",
 ["histories","inputs"],"all operation sequences over seekable stream readers (starting at any stream position) and memory-map readers, on all files",
 "Doc examples perform exactly one seek back to the first blob; no test interleaves operations, reaches the end before seeking, or seeks after an error.",
 ["src/blob.rs","src/mmap_blob.rs"],
 [("offset bookkeeping","src/blob.rs read_blob_header, next, seek, seek_raw, next_header_skip_blob, blob_from_offset"),("mmap cursor","src/mmap_blob.rs seek, next")],
 state=[("offset","current byte offset if known","src/blob.rs BlobReader"),("last_blob_ok","iteration stops after an error","src/blob.rs BlobReader, src/mmap_blob.rs MmapBlobReader")],
 observe=["BlobReader, MmapBlobReader public operations"])

p("C12","Indexed queries return exactly the matching ways and their nodes",
 "A query for ways and their dependencies consults the filter once for every way in the file, delivers exactly the ways it accepts, in file order, and delivers every stored node (plain or dense, every occurrence) whose id is referenced by an accepted way, in file order, and nothing else. Iterating nodes through the index delivers every node of the file exactly once, in file order. This holds for any distribution of ways and nodes over blobs and groups, sorted or unsorted, with negative, duplicate or missing ids.",
 ["inputs"],"all files and all way filters",
 "The test file has one data blob, one way and three nodes, all of them referenced.",
 ["src/indexed.rs"],
 [("two-pass query with per-blob id ranges","src/indexed.rs read_ways_and_deps, update_element_id_ranges, range_included"),("node iteration","src/indexed.rs for_each_node")],
 state=[("id_ranges","min/max id per element kind per blob, learned lazily","src/indexed.rs BlobInfo")],
 observe=["IndexedReader::read_ways_and_deps","IndexedReader::for_each_node"])

p("C13","An indexed reader's answers do not depend on its history",
 "Whatever sequence of index building, node iteration and way queries (with different filters) was performed before on the same indexed reader, each further operation returns exactly what a fresh reader on the same file would return. This includes histories in which earlier operations failed because of a temporary read or seek error: a failed operation reports the error, and a later successful one is complete, never silently partial. Where the underlying stream was positioned when the reader was created makes no difference.",
 ["histories","fault_sequences","inputs"],"all operation histories, with transient I/O faults at any point, on all files",
 "Every test and example performs exactly one operation on a fresh reader and never injects a fault.",
 ["src/indexed.rs","src/blob.rs"],
 [("index creation guarded by emptiness","src/indexed.rs create_index"),("cached id ranges deciding which blobs are skipped","src/indexed.rs nodes_available, ways_available, node_range_included"),("error flag of the underlying reader","src/blob.rs last_blob_ok")],
 state=[("index","list of blobs, built once","src/indexed.rs IndexedReader"),("last_blob_ok","stops iteration after an error","src/blob.rs BlobReader")],
 observe=["IndexedReader operations on a fault-injecting reader"])

p("C14","A truncated file is never mistaken for a complete one",
 "If a conforming file is cut anywhere other than exactly between two blobs, reading it to the end, sequentially, in parallel, blob by blob or through a memory map, reports an error instead of finishing normally. Everything delivered before the error is exactly the content of the complete blobs in front of the cut (in parallel: nothing is returned). Indexed queries report an error too whenever the cut falls inside a blob's framing or inside a data blob they must read.",
 ["crash_points","inputs"],"all cut positions of all conforming files",
 "No test reads an incomplete file.",
 ["src/blob.rs","src/mmap_blob.rs","src/reader.rs","src/indexed.rs"],
 [("length prefix, header and payload reads","src/blob.rs read_blob_header, BlobReader::next"),("length checks","src/mmap_blob.rs MmapBlobReader::next")],
 observe=["ElementReader, BlobReader, MmapBlobReader, IndexedReader on every prefix of a file"])

p("C15","Damaged compressed data is rejected, never delivered as other content",
 "If the zlib stream of a blob is damaged in any way (bytes changed, removed, inserted, cut off, checksum missing or wrong), decoding that blob either reports an error or delivers exactly the original content; it never delivers different, partial or empty content as if it were valid. A stream that is cut off, or whose checksum is missing or does not match, is always an error. This is the same through every access path. Other blobs of the same file are unaffected.",
 ["fault_sequences","inputs"],"all damages of the compressed payload of all conforming blobs that a strict zlib decoder would reject",
 "No test reads a damaged payload.",
 ["src/blob.rs","src/mmap_blob.rs"],
 [("inflate to end of stream with checksum verification before accepting the message","src/blob.rs decode_blob")],
 observe=["Blob::decode/to_primitiveblock/to_headerblock, MmapBlob::decode, ElementReader::for_each"])

p("C16","Format size limits are enforced exactly, on every access path",
 "A blob header of 64 KiB or more and a blob content of 32 MiB or more (the stored bytes if raw, the inflated bytes if zlib) are rejected with an error no matter what they contain or how well they compress: an oversized header when it is read, an oversized header or data block content when it is decoded; it is never delivered in part. Anything smaller is accepted and delivered completely. The content of blobs of unknown type is not examined. Stream reading, seeking, header skipping, indexed and memory-mapped access apply the same limits.",
 ["inputs"],"all header sizes and content sizes around and beyond the limits, raw and zlib",
 "Test files are a few hundred bytes; no limit is ever approached.",
 ["src/blob.rs","src/mmap_blob.rs"],
 [("MAX_BLOB_HEADER_SIZE comparison","src/blob.rs read_blob_header, src/mmap_blob.rs MmapBlobReader::next"),("MAX_BLOB_MESSAGE_SIZE comparison and bounded inflate","src/blob.rs decode_blob")],
 observe=["BlobReader, MmapBlobReader, IndexedReader, Blob::decode"])

p("C17","No input can make the reader panic, loop forever or exhaust memory",
 "For any byte sequence whatsoever, every reading operation (stream, seek, skip, index, memory map, decode and every accessor of every decoded block and element) ends in a finite number of steps with data or an error, without panicking, in debug as well as release builds. Iterations yield a number of items bounded by the size of the input. Memory use is bounded by the input actually present and the format's documented limits, not by lengths that the input merely claims; reading one blob after another (sequentially, blob by blob, by headers, with an index or by memory map) takes no more memory at a time for many blobs than for few, apart from a small entry per blob in an index.",
 ["inputs"],"all byte strings, including structured files with hostile values (negative or huge sizes, out-of-range indices, unequal parallel arrays, undefined enum values, extreme deltas)",
 "Tests only read well-formed files.",
 ["src/blob.rs","src/mmap_blob.rs","src/block.rs","src/dense.rs","src/elements.rs","src/indexed.rs"],
 [("size checks before reading","src/blob.rs, src/mmap_blob.rs"),("checked string table lookups and zipped columns","src/block.rs, src/elements.rs, src/dense.rs")],
 observe=["every public operation"])

p("C18","Read errors surface and fragmented reads change nothing",
 "If the underlying reader fails at any point, the operation in progress reports an error: no operation ever finishes normally having seen only part of the data, and sequential reading has by then delivered exactly the elements of the blobs completely read before. How the reader splits the data over read calls (down to one byte at a time) never changes any result. After an error, blob iteration ends rather than yielding further items.",
 ["fault_sequences","inputs"],"all placements of an I/O failure (any error kind except the retryable 'interrupted') and all fragmentations of the byte stream, on all conforming files",
 "Tests read only healthy regular files through a standard buffered reader.",
 ["src/blob.rs","src/reader.rs","src/indexed.rs"],
 [("error mapping in framing reads","src/blob.rs read_blob_header, BlobReader::next"),("error propagation","src/reader.rs for_each, par_map_reduce; src/indexed.rs")],
 state=[("last_blob_ok","iteration stops after an error","src/blob.rs BlobReader")],
 observe=["ElementReader, BlobReader, IndexedReader over fault-injecting readers"])

p("C19","Failures carry their documented error kind and details",
 "Each documented cause of failure is reported as its documented kind with correct details: a file that cannot be opened as the I/O error of opening it, an oversized header or raw content with its actual size, a blob without raw or zlib data as empty, an undecodable header, blob or payload as a protobuf error, an invalid or out-of-range string index with that index. Displaying an error mentions those details, and the I/O, protobuf or UTF-8 error behind it is available as its cause. Converting it to a standard I/O error keeps the original error available inside.",
 ["inputs"],"all files carrying exactly one such defect, with any details, on every access path that can meet it",
 "Tests assert at most that some error occurs (decoding to the wrong block kind).",
 ["src/error.rs","src/blob.rs","src/mmap_blob.rs","src/block.rs"],
 [("error constructors and kinds","src/error.rs"),("error sites","src/blob.rs, src/mmap_blob.rs, src/block.rs str_from_stringtable")],
 observe=["Error::kind, Error::into_kind, Display, Error::cause, From<Error> for io::Error"])

p("C20","Equivalent encodings of the same data read identically",
 "What is delivered depends only on the data encoded, not on how a writer laid it out: storing a payload raw or zlib-compressed at any level, packed or unpacked number arrays, any field order, split repeated fields, non-minimal integers, unknown extra fields, index data on blob headers, a different order or duplication of string table entries, a different distribution of elements over groups and blobs. Blobs of unknown type, empty blocks, empty groups and obsolete changesets add nothing and disturb nothing, whatever they contain or however they are compressed. Blobs are interpreted by their declared type only, independent of their position.",
 ["inputs"],"all pairs of legal encodings of the same data",
 "Five fixed files from two writers; no test compares two encodings beyond element counts.",
 ["src/blob.rs","src/block.rs","src/reader.rs","src/mmap_blob.rs","src/proto/osmformat.proto","src/proto/fileformat.proto"],
 [("protobuf schema","src/proto/*.proto"),("payload selection","src/blob.rs decode_blob"),("blob dispatch by type string","src/blob.rs get_type, decode; src/mmap_blob.rs decode")],
 observe=["everything delivered by all access paths"])

p("C21","Iterator lengths are exact and cloned iterators resume in place",
 "On conforming data, every iterator over groups, nodes, dense nodes, ways, relations, tags, raw tags, references, node locations and members announces at every step exactly the number of items it will still deliver, and keeps returning nothing once it is exhausted. A clone taken at any step delivers exactly the items the original has still to deliver, and advancing one does not affect the other. Skipping items (by position, last or count) delivers the same items as stepping one at a time.",
 ["inputs","histories"],"all conforming blocks and all points of interruption in every iterator",
 "Tests only ever collect iterators completely.",
 ["src/block.rs","src/elements.rs","src/dense.rs"],
 [("size_hint/ExactSizeIterator and Clone implementations","src/block.rs, src/elements.rs, src/dense.rs")],
 observe=["len, size_hint, clone, nth, last, count on each iterator"])

p("C22","A defective blob affects only itself and what follows it in a scan",
 "If one blob's payload cannot be decoded while its framing is intact, iterating blobs still yields every blob and every other blob decodes to its true content, before and after the defective one. Scanning elements sequentially delivers exactly the elements of all blobs before the defective one and then returns an error, without delivering any of its or later blobs' elements. If a blob's framing itself (length prefix, header, declared size) is broken, stream and memory-map iteration deliver all blobs before it, then exactly one error, and then end.",
 ["inputs","fault_sequences"],"all files with one defective blob of any kind at any position",
 "No test contains a defective blob among good ones, and none continues after an error.",
 ["src/reader.rs","src/blob.rs","src/mmap_blob.rs"],
 [("early return on error","src/reader.rs for_each"),("iteration stop flag","src/blob.rs last_blob_ok; src/mmap_blob.rs last_blob_ok"),("lazy payload decoding","src/blob.rs Blob::decode")],
 observe=["ElementReader::for_each, BlobReader, MmapBlobReader"])

p("C23","The choice of zlib backend does not change any result",
 "Built with any one of the three selectable zlib implementations, the library delivers the same blobs, headers and elements from every conforming file, at every compression level and block type, and enforces the same content size limit. Damaged compressed data is never delivered as different content under any of them.",
 ["configurations","inputs"],"the three zlib features x all conforming files and damaged compressed payloads",
 "The suite is run here with the default backend only, on three tiny compressed files.",
 ["src/blob.rs","src/lib.rs","Cargo.toml"],
 [("flate2 abstraction with feature-selected backend","src/blob.rs decode_blob, Cargo.toml features")],
 observe=["all reading operations in three builds of the library"])

p("C24","Operations in use at the same time do not influence each other",
 "Any number of readers, memory maps, blobs, blocks and elements may be in use at the same time: held while others are created, used and dropped, advanced in turn, used inside each other's callbacks (element callbacks, way filters, map operations), and shared between threads. Each operation delivers exactly what it would deliver on its own, on the same file or on different ones, and the order in which blobs are decoded, or how often, changes nothing. Each time a path is opened, what it holds then is what counts. An operation given up half way, because an iteration is dropped or because a callback panics, leaves nothing behind: the panic reaches the caller as it is, and readers that remain usable deliver afterwards what they always deliver.",
 ["histories","schedules","inputs"],"all interleavings, nestings and thread assignments of read-only operations over any conforming files",
 "Tests use one reader at a time, on one thread (except one parallel count), and never from inside a callback.",
 ["src/reader.rs","src/blob.rs","src/mmap_blob.rs","src/block.rs","src/elements.rs","src/dense.rs","src/indexed.rs"],
 [("no state shared between readers or blocks","src/blob.rs Blob::decode, decode_blob; src/mmap_blob.rs MmapBlob::decode"),("borrowed views of a block","src/block.rs, src/elements.rs, src/dense.rs")],
 observe=["all reading operations, interleaved, nested and from several threads"])

p("C25","No operation reads more of a file than it needs",
 "How much of a file is read is bounded by what is asked for. Creating a reader, seeking, skipping a blob by its header and building an index never read the data of any blob, only (at most) blob headers. Reading a blob, next in sequence or from an offset, reads that blob and no other, and decoding it reads nothing. Sequential and parallel passes read every blob once. Operations of an indexed reader read only data blobs, never header or unknown ones: node iteration reads each at most once, and not if an earlier operation on this reader has decoded it and it holds no nodes; a way query reads a data blob once in search of ways, unless an earlier operation has decoded it and it holds none, and once more only if a node id referenced by an accepted way lies between the smallest and the largest node id in it. Reading ahead by a buffer (some KiB) is allowed.",
 ["histories","inputs"],"all histories of operations on blob readers and indexed readers over any conforming files with blobs of any size",
 "Tests read tiny files and look only at results, which stay right if every operation reads everything.",
 ["src/blob.rs","src/indexed.rs","src/reader.rs"],
 [("payloads skipped by seeking","src/blob.rs next_header_skip_blob, blob_from_offset"),("id ranges remembered per blob","src/indexed.rs update_element_id_ranges, nodes_available, ways_available, node_range_included")],
 state=[("index.id_ranges","once known, blobs without what is sought are not read again","src/indexed.rs IndexedReader")],
 observe=["the reads made on the underlying reader"])

with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,s)
