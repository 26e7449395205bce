CODEC = "the protobuf codec is under contract too (what is written is sp_enc_*, what is read back is equal, lm_roundtrip); assumed below it: the writer and reader primitives of quick_protobuf 0.8, its glue around nested messages, that parsing a block is a function of its bytes, the identifier crate, SHA2-256"
for k in ["C%02d" % i for i in range(1, 18)]:
    T[k] = ("exploration", "bounded: executable contract on the real crate; parts of it are discharged as Verus obligations (see evidence)")
B_ASSUMED = "assumed below the builder: BTreeMap (ordered by the bytes of the names, one entry per name) and HashMap, str::split and other str functions, String; preconditions: what a directory and everything below it adds up to fits 64 bits, fewer than 2^64 path segments; "
T["C01"] = ("proof", "Verus discharges the importer (push, finish, chunker, leaf and link blocks, collector), the visit, and a driver which imports any content in pieces of any lengths and reads any range of it back (v_roundtrip); preconditions: branching factor at least 2, sizes of the tree fit 64 bits, blocks below 2 GiB, no hash collision among the emitted blocks; " + CODEC)
T["C02"] = ("proof", "Verus discharges that the blocks which come out are sp_import(content, chunk size, branching factor) for every way to cut the content into pushes, and what one push consumes and yields; precondition: branching factor at least 2, sizes fit 64 bits; " + CODEC)
T["C03"] = ("proof", "Verus discharges that what comes out are the blocks of sp_trees (children first), whose root has the shape of the property (lm_tree_shape, lm_order) and carries the sizes (tr_view, tr_total); precondition: branching factor at least 2, sizes fit 64 bits; " + CODEC)
T["C04"] = ("proof", "Verus discharges that every block of the importer (flush_buffered_leaf, flush_buffered_links, finish, sp_trees) and of the directory builder (render_directory, rd_self, v_all, v_built) comes with sp_block_cid of exactly its bytes, and that links to emitted blocks carry that identifier (tr_view, bt_leaves); assumed: Code::Sha2_256.digest and Cid::new_v1 compute that identifier (executed against an independent implementation); "+B_ASSUMED+CODEC)
T["C05"] = ("proof", "Verus discharges the contracts of the reader and the visit for all blocks and ranges, and a driver which reads any range of any well-formed tree (v_read_all); " + CODEC)
T["C06"] = ("proof", "Verus discharges which blocks the reader and the visit accept and refuse (sp_node_ok, sp_refuses, sp_started, sp_continued), for all blocks and ranges, and that a tree without a fault is read to the end (v_read_all); " + CODEC)
T["C07"] = ("proof", "every function of this crate on the reading side is under contract without a precondition on the block: each unwrap, expect, assert, unreachable, index, slice and arithmetic operation is an obligation Verus discharges, as is the end of every loop; preconditions are the caller's part of the property (nothing fed after an error or when nothing is pending) and a nesting depth below usize::MAX; assumed not to panic: quick_protobuf's reader primitives (with one recorded finding) and the identifier crate, which the bounded executable contract fuzzes; Display and Debug of the errors are executed only")
T["C08"] = ("proof", "Verus discharges the general encoder, the directory encoder, the symlink encoder and their get_size against one specification of the wire format (sp_enc_*), the generated decoders against the field by field reading (sp_read_*), and that reading what was written gives an equal node (lm_roundtrip and its parts); precondition: the encoded size fits usize; assumed: the writer and reader primitives of quick_protobuf 0.8 and its glue around nested messages; the decoders end (a skipped length near 2^64 apart, the known finding)")
T["C09"] = ("proof", "Verus discharges put_link, set_metadata, modify_with, the directory nodes, build and the iteration, and drivers over any history of calls: every call gets the verdict the model gives (v_history, sp_verdict), the tree is the model of the accepted calls (sp_is_model, lm_exactly), and what comes out is every directory once, after everything below it, with its full path and sorted entries, the root only when wrapped (v_built, sp_emitted, bt_sorted), to the end of the iteration; "+B_ASSUMED+CODEC)
T["C10"] = ("proof", "Verus discharges render_directory (limit, exact size when too large, total) and the whole iteration: sizes of rd_self up the tree, stop at the first directory which is too large and nothing after it (next_borrowed, v_all, v_built); "+B_ASSUMED+CODEC)
T["C11"] = ("proof", "Verus discharges the contract of resolve (sp_resolved) for every block, name and cache; assumed besides the parser: str::get and Cow conversions; " + CODEC)
T["C12"] = ("proof", "Verus discharges resolve, lookup_or_start, continue_walk, partition, pending_links and with_owned_needle for all blocks, and a driver which looks a name up over any tree of buckets of any size (v_lookup); assumed besides the parser: str::get and Cow conversions; " + CODEC)
T["C13"] = ("proof", "Verus discharges one step of the walk for all blocks (sp_walked) and a driver which walks any tree by the documented loop (v_walk): it reports exactly wt_seen, ends, asks for the linked identifiers in order, marks first and last segments, and can continue exactly while something is left; preconditions: the root name is empty or one path segment, nesting depth below usize::MAX; assumed besides the parser: std::path (a path is the sequence of its pushed names) and str functions; " + CODEC)
T["C14"] = ("proof", "Verus discharges that visits and walks report the metadata of the root at every step (v_read_all, v_walk), that set_metadata on any history leaves the metadata at its path (v_history, sp_model), that the directory is emitted with it (v_built, rd_self, sp_dir_data) and that reading it gives the same (lm_dir_metadata); "+B_ASSUMED+CODEC)
T["C15"] = ("proof", "Verus discharges that serializing appends the canonical block to the buffer and that a walk of a symlink reports the bytes of its data field (sp_walked, v_walk); " + CODEC)
T["C16"] = ("proof", "Verus discharges node_data, wrap_node_data, the methods of NodeData and its comparison for all blocks, including that the view is the sub-slice the parser found (sp_part); assumed: addresses of slices into one allocation compare as their offsets (v_addr, v_addr_in), AsRef of the wrapped bytes is a function; " + CODEC)
T["C17"] = ("proof", "the contracts of every operation which takes a cache determine its result without mentioning what is in the cache (any value satisfying sp_cache_ok, which every operation re-establishes also on error): sp_started, sp_continued, sp_walked, sp_resolved, sp_shard; v_walk and v_lookup take an arbitrary cache; " + CODEC)
T["C18"] = ("proof", "the contracts of the visit, resolve, the sharded lookup and the walk say for every error which fault of the block, or of the place it comes at, it stands for and what it carries (sp_block_fault, sp_place_fault, sp_resolve_fault, sp_bucket_fault, sp_walk_fault), through every conversion from one error into the next; assumed: the ? operator converts by From (ax_question), copying of names and bytes into an error; not under contract: the text of the messages; " + CODEC)
