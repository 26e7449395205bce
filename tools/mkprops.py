import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":mech,"where":", ".join(files)}],"observe_at":[observe],"hook_needed":"none: everything needed is reachable through the public API, or by splicing contracts into a scratch copy of the source"}
    if state: a["state"]=[{"name":n,"meaning":m,"where":files[0]} for n,m in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":qtext},why_tests_cant=why,anchors=a))
p("C01","Imported files read back exactly",
 "Importing any byte content and then reading the produced blocks from the root yields exactly the original bytes in order, and reports the original length as the file size at every step of the read. The root is the last block the importer emits, and every block the read asks for is one of the emitted blocks.",
 ["inputs","configurations","histories"],
 "All contents (including empty), every chunk size of at least 1, every branching factor of at least 2, every way of splitting the content into pushes.",
 "The tests import one short text, one 10 kB constant buffer and a 45 MB one with a handful of chunk sizes and compare hashes; a defect which needs a specific relation of length, chunk size, branching factor and push boundary is not sampled, and no test reads back what it imported.",
 ["src/file/adder.rs","src/file/reader.rs","src/file/visit.rs","src/pb.rs"],
 "chunker accept + leaf flush keep every accepted byte; link flush keeps every pending link in order; the reader concatenates leaves depth-first",
 "blocks yielded by FileAdder::push/finish, bytes and sizes yielded by IdleFileVisit::start and FileVisit::continue_walk",
 [("block_buffer","accepted bytes which have not become a leaf yet"),("unflushed_links","links not yet covered by a parent")])
p("C02","Import result does not depend on how the content is pushed",
 "The sequence of blocks an importer produces depends only on the content, chunk size and branching factor, never on how the content was split into pushes. A push reports a consumed amount that is never larger than its input and is non-zero for non-empty input, takes exactly a prefix of the input, and yields a leaf block exactly when the chunk being filled becomes full.",
 ["inputs","histories"],
 "All contents and all sequences of pushes (including empty pushes) followed by finish.",
 "Tests use equal sized pushes of at most a few sizes over one text; the buffered and unbuffered import paths only differ for push boundaries that do not line up with the chunk size.",
 ["src/file/adder.rs"],
 "Chunker::accept takes min(input, space left); the direct path is taken only with an empty buffer and a complete chunk",
 "return values of FileAdder::push and FileAdder::finish")
p("C03","Imported file trees are balanced, ordered and carry correct sizes",
 "In an imported file tree every leaf is at the same depth, every leaf but the last holds exactly one full chunk, every node has at most as many links as the branching factor and all nodes but the last of a level are full, and there are no single-link intermediate nodes except the trailing one of a level. Every link's recorded block size equals the number of file bytes under it, every node's file size equals the sum of those, and every link's total size equals the sum of the lengths of all blocks in the linked subtree, counted once per occurrence. Blocks are emitted children first.",
 ["inputs","configurations"],
 "All contents, every chunk size of at least 1 and every branching factor of at least 2.",
 "Existing tests compare a few root hashes; sizes and shape for a different number of leaves (exact powers of the branching factor, one more, trailing single links) are not observed.",
 ["src/file/adder.rs"],
 "pending links keep the order of the file with non-increasing depth; the level-by-level compaction replaces runs of equal depth",
 "decoded blocks yielded by FileAdder",
 [("unflushed_links","pending links, a run of depth one followed by at most branching-factor depth zero links between pushes")])
p("C04","Emitted identifiers are the hash of the emitted bytes",
 "Every block emitted by the file importer and by the directory builder comes with a version 1 content identifier with the dag-pb codec and the SHA2-256 digest of exactly the emitted bytes. Every link inside an emitted block that refers to another emitted block uses that block's identifier.",
 ["inputs","histories"],
 "All file contents, all directory trees, all configurations, both the owned and the borrowed way of consuming directory blocks.",
 "Tests check a few fixed hashes; the buffer used to build directory blocks is reused between blocks of growing and shrinking size, which only specific sequences of directories exercise.",
 ["src/file/adder.rs","src/dir/builder/iter.rs","src/dir/builder/custom_pb.rs"],
 "the digest is taken over the same buffer that is handed out, after it has been cut to the encoded size",
 "(Cid, block) pairs yielded by FileAdder and PostOrderIterator")
p("C05","Range reads return exactly the requested part of the file",
 "Visiting a well-formed file with a target byte range yields, in order, exactly the bytes of the file inside the range: nothing before, nothing after, nothing twice, and nothing at all for an empty range or a range past the end. The visit never asks for a block whose bytes lie entirely outside of the range and not even touching it, and without a range the whole file is returned.",
 ["inputs"],
 "All well-formed file trees of any shape (balanced or not, raw or file typed leaves, single block), all target ranges.",
 "Tests exercise a single multi-block file with a few hand picked ranges; the slicing code itself carries a comment that it must have bugs.",
 ["src/file/visit.rs","src/file/reader.rs","src/pb.rs"],
 "links are filtered by their file offsets, and content is cut by the intersection of block range and target range",
 "bytes and pending links of IdleFileVisit / FileVisit",
 [("pending","reversed stack of links with the file offsets they cover")])
p("C06","Inconsistent file trees are rejected, consistent ones accepted",
 "A file visit fails with an error as soon as it meets a block that is not a file or raw node, has a different number of links and block sizes, has links but no file size, claims a size without having content or links, carries directory-only properties, or defines metadata while not being the root. It also fails when the next block's file offsets leave a hole, overlap, go backwards or reach over the end of the covering tree relative to the block before it. A tree without any of these faults is visited to the end without an error, whatever its shape.",
 ["inputs"],
 "All file trees made of arbitrary blocks, visited in order from the root.",
 "Unit tests check about ten hand-written offset pairs and no malformed blocks.",
 ["src/file/reader.rs","src/file/visit.rs","src/pb.rs"],
 "each block yields an ending (leaf end or covered end) the next block's offsets are compared with",
 "results of IdleFileVisit::start and FileVisit::continue_walk",
 [("last_ending","where the block before ended, as a leaf or as the coverage of a subtree")])
p("C07","Untrusted blocks never cause a panic",
 "Reading operations (visiting a file, resolving a name, continuing a sharded lookup, walking a tree, viewing node data) return a value or an error for every sequence of input blocks, and never panic, overflow an integer or index out of bounds. This holds for blocks which are not valid at all as well as for well-formed blocks with absurd field values, as long as the caller stops after an error or when nothing is pending.",
 ["inputs","histories"],
 "All byte strings as blocks, in any order, for every reading entry point and any target range.",
 "Tests feed only well-formed fixtures; malformed input is sampled by two tests.",
 ["src/file/reader.rs","src/file/visit.rs","src/pb.rs","src/dir.rs","src/dir/sharded_lookup.rs","src/dir/directory.rs","src/walk.rs","src/dagpb.rs"],
 "every unwrap, slice, index and addition on values read from a block is guarded by a check which turns into an error",
 "results of the public reading API")
p("C08","Encoding is exact, canonical and lossless",
 "For every node the announced encoded size equals the number of bytes written, decoding the written bytes gives back an equal node, and the bytes are those of the dag-pb / UnixFS wire format with links before data and fields in ascending order. The specialised directory encoder and the symlink encoder produce the very same bytes as the general encoder would for the same node.",
 ["inputs"],
 "All values of the node types: any number of links, names, hashes, sizes, block sizes, types, modes and times including negative ones; version 0 and version 1 target identifiers.",
 "Tests decode and encode a few fixtures whose fields have one-byte lengths.",
 ["src/pb.rs","src/pb/unixfs.rs","src/pb/merkledag.rs","src/dir/builder/custom_pb.rs","src/symlink.rs"],
 "get_size and write_message of each message must agree field by field",
 "MessageWrite::get_size / write_message output, blocks emitted by the builders")
p("C09","Built directory trees contain exactly the put entries",
 "For every sequence of put entries the built tree contains exactly the accepted entries: each accepted path leads from the root through directories to the given target with the given total size, every directory on the way is emitted exactly once with its full path, after all of its subdirectories, with entries sorted by name, and nothing else is emitted. A wrapping root is emitted last, and only when requested. A rejected put (rooted, empty segment, trailing slash, duplicate, entry used as directory, second root entry without wrapping) is reported as such and leaves the tree as it was.",
 ["inputs","histories","configurations"],
 "All sequences of put and metadata operations with arbitrary paths, with and without the wrapping directory.",
 "Tests build about ten small fixed trees; interleavings of deep and shallow siblings, shared prefixes and rejected puts in between are not covered.",
 ["src/dir/builder/buffered.rs","src/dir/builder/dir_builder.rs","src/dir/builder/iter.rs"],
 "BTreeMap of entries per directory; post-order stack with per-directory leaf slots filled by index",
 "results of put_link/set_metadata and the nodes yielded by PostOrderIterator",
 [("persisted_cids","slots of directories waiting for their subdirectories"),("full_path","path of the directory being rendered")])
p("C10","Directory sizes and the block size limit are honoured",
 "Every emitted directory reports a total size equal to the length of its own block plus the total sizes of all its entries, and its parent records exactly that size in its link. No emitted directory block is longer than the configured limit: a directory which would be longer is reported as too large with its exact size, and nothing is emitted after that; without a limit nothing is refused.",
 ["inputs","configurations"],
 "All directory trees and all limits, including limits exactly at, below and above the encoded size.",
 "Two tests look at total sizes of fixed trees and one at a fixed limit.",
 ["src/dir/builder/iter.rs","src/dir/builder.rs","src/dir/builder/custom_pb.rs"],
 "encoded size compared with the limit before rendering; sizes summed over the same links that are encoded",
 "TreeNode.total_size, TreeNode.block and TooLargeBlock yielded by PostOrderIterator")
p("C11","A path segment resolves to the one link with that exact name",
 "Resolving a segment in a plain directory or bare dag-pb node returns the target of the only link whose whole name equals the segment; it returns not found when there is none, and an error when there are several. Files, symlinks and other node kinds, directories with file-only or shard-only properties, and targets which are not valid identifiers give an error instead of a target.",
 ["inputs"],
 "All directory blocks (any number, order and names of links, absent names, non-directory kinds) and all segments.",
 "Tests resolve a handful of names in fixtures without near-duplicate names.",
 ["src/dir.rs","src/dir/directory.rs"],
 "linear scan of links comparing names, looking for a second match after the first",
 "result of resolve")
p("C12","Sharded lookup finds an entry exactly when some bucket holds it",
 "Looking a name up in a sharded directory, feeding the asked-for blocks in the asked-for order, ends with the target of the entry whose name is the looked up one when a reachable bucket holds it, and with not found only after every reachable bucket has been loaded. Entry names are compared in full without their two-character prefix; two matching entries in one bucket, unsupported hash or fan-out parameters, file-only properties, non-shard buckets and invalid targets are errors. Owning the name does not change the result.",
 ["inputs","histories"],
 "All sharded directory trees, all names, any earlier content of the reused queue.",
 "Tests use one kernel-tree fixture with two buckets.",
 ["src/dir/sharded_lookup.rs","src/dir.rs"],
 "a FIFO queue of bucket identifiers; each loaded bucket is partitioned to match / bucket / other",
 "results of resolve and ShardedLookup::continue_walk, pending_links",
 [("links","queue of buckets still to be loaded")])
p("C13","A tree walk visits every entry exactly once, with its right path",
 "Walking a tree visits each file, directory, symlink and bucket exactly once in depth-first link order, asking for exactly the identifiers the visited nodes link to, and reports for each its own identifier, its kind, its full path below the given root name, its metadata and, for files, its total size. File content is reported in order, with the first segment marked first and only the final one marked last, and the walk says it can continue exactly as long as there is something left to load.",
 ["inputs","histories"],
 "All trees of directories, sharded directories (nested buckets, empty directories next to buckets), files of any shape and symlinks, any root name.",
 "Tests walk about eight fixture trees; combinations of siblings such as an empty directory before a bucket do not occur in them.",
 ["src/walk.rs","src/file/visit.rs"],
 "stack of pending links with name and depth; the path is cut to the depth before a name is appended",
 "ContinuedWalk values, pending_links and should_continue of Walker",
 [("pending","stack of links to visit with name and depth"),("path/depth","path of the current entry and its number of components plus one")])
p("C14","Mode and modification time survive unchanged",
 "The mode and modification time stored at the root of a file, directory, sharded directory or symlink are reported unchanged (absent as absent, missing nanoseconds as zero, negative seconds included) by visits and walks, for every block of the entry. Metadata set on a directory in the directory builder is what reading the built directory reports.",
 ["inputs","histories"],
 "All modes, all seconds and nanoseconds, all kinds of entries, single and multi block.",
 "One fixture carries metadata; all others are without.",
 ["src/lib.rs","src/file/visit.rs","src/file/reader.rs","src/walk.rs","src/dir/builder/iter.rs","src/pb/unixfs.rs"],
 "Metadata is converted once from the root block and carried through traversal state",
 "Metadata returned by IdleFileVisit::start, FileVisit, ContinuedWalk")
p("C15","Symlink targets round-trip byte for byte",
 "Serializing a symlink for any target appends exactly one block to the buffer, leaving earlier content of the buffer alone, and walking that block reports a symlink with exactly the target's bytes. The block is the canonical encoding of a symlink node without links.",
 ["inputs"],
 "All UTF-8 targets of any length including empty ones, any earlier content of the output buffer.",
 "Tests hash a block for a one-character target.",
 ["src/symlink.rs","src/walk.rs"],
 "the target is written as the data field of a symlink typed node",
 "bytes appended by serialize_symlink_block, ContinuedWalk::Symlink")
p("C16","The node data view is exactly the data field of the block",
 "For every block which parses as dag-pb, viewing or wrapping it gives exactly the bytes of its data field (empty when there is none or it is empty), equal to the bytes the plain view gives, and unwrapping returns the unchanged block. A block which does not parse is an error, and comparing a view with a byte string compares exactly the data field with it.",
 ["inputs"],
 "All blocks, with the data field anywhere in the block, at its end, empty or absent; any owner type of the bytes.",
 "Tests cover two fixtures and two slices of an array.",
 ["src/dagpb.rs"],
 "the subslice is turned to an index range of the owning block by address arithmetic",
 "node_data, wrap_node_data, NodeData::node_data/into_inner/get_ref/eq")
p("C17","Reused caches never influence a result",
 "File visits, tree walks, name resolution and sharded lookups give the same results, ask for the same blocks and end the same way whether they are given no cache, a fresh cache, or a cache left over from any earlier operation, including ones which ended in an error or were abandoned.",
 ["histories","inputs"],
 "All sequences of operations sharing the caches, in any interleaving of finished, failed and abandoned operations.",
 "Tests nearly always pass an empty cache.",
 ["src/file/visit.rs","src/dir/sharded_lookup.rs","src/dir.rs","src/walk.rs"],
 "a cache is only ever created from an emptied queue",
 "results of resolve, ShardedLookup::continue_walk, FileVisit::continue_walk and Walker::next",
 [("Cache.buffer / Cache.inner","always empty between operations, only the allocation is reused")])
p("C18","A refusal names a fault the block really has",
 "When starting or continuing a file visit, resolving a name, continuing a sharded lookup or walking refuses a block, the error it returns is true of that block: an unexpected-type error carries the type of the node and tells directories and files apart from the rest, an invalid-target error carries the index, identifier bytes and name of a link whose target is not an identifier, an invalid-name error the index of a link of the bucket whose name is unusable, a several-matches error the indices and identifiers of two different links bearing the looked-up name in link order (the first is what it turns into), and an error about properties or metadata carries the values the node has. Each kind of error is returned only for a block, or a block at that place of the operation, which has the fault the kind names, and a walk refuses every directory or shard which has unsupported properties or a link with an unusable target or name.",
 ["inputs","histories"],
 "All blocks, at every point of every operation.",
 "The tests assert that some operation fails, sometimes with which kind; what the error says about the block is looked at for a handful of blocks, and an index, a name or a pair of swapped values is seen only with several links, some of them good.",
 ["src/file.rs","src/file/reader.rs","src/file/visit.rs","src/dir.rs","src/dir/sharded_lookup.rs","src/walk.rs"],
 "the error is built where the fault is found, from the link or field looked at, and converted into the error of the operation",
 "errors of IdleFileVisit::start, FileVisit::continue_walk, resolve, ShardedLookup::continue_walk and Walker::next, and their public fields and methods")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80; assert x['statement'].count('. ')<=2,(x['id'])
print(len(P))
