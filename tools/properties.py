#!/usr/bin/env python3
"""Writes properties.jsonl (source of the property texts)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism], observe_at=list(observe), hook_needed=None)))


M, PR, H, HI = "src/merkle.rs", "src/proof.rs", "src/hash.rs", "src/hash_impl.rs"
ST, V, D, MM, L = "src/store/mod.rs", "src/store/vec.rs", "src/store/disk.rs", "src/store/mmap.rs", "src/store/level_cache.rs"

p("C01", "A built tree is exactly the hash tree over its leaves",
  "A tree built over arity^k leaves, by any base-tree constructor and in any kind of store, consists of exactly the leaves in order "
  "(hashed or as given, as that constructor promises), then row by row the hash of each group of arity consecutive nodes taken at that row's height, "
  "and finally the root. Every reader of single nodes or ranges returns those nodes, and the reported root, length, leaf count and row count are those of that tree. "
  "This holds for trees of every size, including those large enough to be built by the chunked algorithms.",
  ["inputs", "configurations"], "all leaf values; all constructors, stores (in-memory, disk, memory-mapped, level-cache), arities 2/4/8 and sizes within the bounds",
  "Tests build a few trees from fixed or pseudo-random leaves and mostly compare roots; they do not compare every node for every constructor, store and size, and never for all leaf values.",
  [M, ST, V, D, MM, L], [("build / build_small_tree / process_layer", ST), ("DiskStore build and process_layer", D), ("LevelCacheStore build and process_layer", L), ("constructors", M)],
  [("rows", "nodes laid out row by row, leaves first", "store contents")], ["read_at", "read_range", "read_into", "root", "len", "leafs", "row_count"])
p("C02", "The built tree does not depend on threads or scheduling",
  "Building the same leaves gives the same tree, node for node, whatever the number of worker threads and in whatever order the parallel pieces of work run. "
  "This includes trees whose leaves are supplied by a parallel iterator and trees so large that rows are processed in several chunks.",
  ["schedules", "inputs", "configurations"], "all orders of the parallel tasks within the scheduling budget, all leaf values, several thread counts",
  "Tests run whatever schedule the thread pool happens to take, on one machine.",
  [M, ST, V, D, L], [("chunked process_layer with disjoint write ranges", ST), ("populate_data_par: chunk index times block size", M)],
  observe=["read_at", "root"])
p("C03", "Every leaf has a valid proof that is its authentication path",
  "For every leaf of a base tree a proof is generated; it contains the leaf, its siblings row by row in order, the root, and the leaf's position within each group. "
  "The proof's item and root are that leaf and the tree's root, and the proof validates.",
  ["inputs", "configurations"], "all leaf values, all leaf positions, all hash functions that may use the node height; stores, arities and sizes within the bounds",
  "Tests validate generated proofs with hash functions that ignore the height, for sampled leaves; they rarely look at the contents of the proof.",
  [M, PR], [("gen_proof", M), ("Proof::validate", PR)], observe=["gen_proof", "validate", "item", "root", "path", "lemma"])
p("C04", "Proofs of compound trees are complete and valid",
  "For every leaf of a tree made of base trees, or of a tree made of such trees, a proof is generated; it nests the base tree's proof of that leaf inside one layer per level, "
  "each layer listing the other roots in order, the layer's root and the position. Its item is the leaf, its root is the compound root, and it validates.",
  ["inputs", "configurations"], "all leaf values and leaf positions of compound trees with the listed arities",
  "Tests cover a few arity combinations with fixed leaves and height-independent hashes and check only that validation succeeds.",
  [M, PR], [("gen_sub_tree_proof", M), ("validate_sub_tree_proof", PR)], observe=["gen_proof", "validate", "item", "sub_tree_root"])
p("C05", "An accepted proof is a proof of the leaf at its position",
  "If the hash function has no collisions, a proof of the tree's shape whose root is the tree's root validates only if its item is the leaf at the position the proof names "
  "and all its siblings are the tree's. Any proof with a wrong item, sibling, position or a position outside the tree is rejected, for base and compound trees, and validation never panics on it.",
  ["inputs"], "all contents of proofs of the tree's shape (every lemma element and every path entry arbitrary), all leaf values",
  "Tests corrupt a handful of proofs in fixed ways.",
  [PR], [("Proof::validate", PR), ("validate_sub_tree_proof", PR)], observe=["validate"])
p("C06", "Validation against leaf data accepts exactly that leaf's data",
  "A generated proof validated together with some data is accepted if and only if that is the data from which the proof's leaf was made (hash function without collisions), for base and compound trees. "
  "For an arbitrary proof, data is accepted if and only if the proof validates and its item is the leaf hash of that data.",
  ["inputs"], "all data values, all leaf values and positions, arbitrary proofs of the tree's shape",
  "Tests try the right data and one or two wrong values.",
  [PR, H], [("validate_with_data", PR)], observe=["validate_with_data"])
p("C07", "Proofs made from cached rows equal proofs made from the full tree",
  "A proof generated from the base data plus the cached top rows is identical to the one the full tree generates, for every leaf and for every number of discarded rows, "
  "whether the store is full, compacted with its base data, or compacted with the base data in an external file; compound trees included. "
  "It is an error only when the proof would need rows the store has discarded.",
  ["inputs", "configurations"], "all leaf values and positions, all numbers of rows to discard (explicit or default), both compaction formats",
  "Tests use the default number of rows and a few sizes and check validation only.",
  [M, L, ST], [("gen_cached_proof / gen_proof_with_partial_tree", M), ("default_rows_to_discard", ST), ("store_read_range with cache offsets", L)], observe=["gen_cached_proof"])
p("C08", "Compaction keeps exactly the promised nodes",
  "Compacting a disk tree leaves a file holding exactly the kept nodes in order (the base row only in format 1, then the rows above the discarded ones); root, leaf count and rows are unchanged. "
  "After reopening, every kept node reads back through every reader as it was, and reading any discarded node or a range touching one is an error rather than another node's value. "
  "Discarding every row above the base is refused and leaves the tree and its file untouched.",
  ["inputs", "configurations"], "all node positions and ranges, all legal and illegal numbers of rows to discard, both formats, all leaf values",
  "Tests compact a few trees and then validate proofs; discarded nodes and ranges are never read.",
  [D, L, M], [("DiskStore::compact", D), ("LevelCacheStore readers", L), ("get_merkle_tree_cache_size", M)], [("cache_index_start", "byte position of the first cached node", L)], ["compact", "read_at", "read_range", "read_range_into", "read_into", "file contents"])
p("C09", "A persisted tree reopens as the same tree or not at all",
  "The file of a persisted disk or memory-mapped tree is the concatenation of its nodes, and every way of opening it yields the same tree: nodes, root, shape and proofs; building again under its name never alters it. "
  "This includes a file that may only be read (which a memory-mapped store refuses). A file whose size is not that of the expected (full or compacted) store is refused, a missing file is an error and is not created, and the consistency tests report true exactly for the right size.",
  ["inputs", "configurations"], "all leaf values, all file sizes in bytes, all ways of opening, all discard counts",
  "Tests reopen a few intact stores; wrong sizes are sampled once or never.",
  [D, L, MM, M], [("new_from_disk / new_with_config / new_from_disk_with_path", D), ("size checks, is_consistent, is_consistent_v1", L)], observe=["new_from_disk", "is_consistent", "file contents"])
p("C10", "Compound trees compose their base trees in order",
  "Every way of making a tree of trees (from trees, sub-trees, slices, stores or store configurations) yields the tree whose root is the hash of the component roots in the given order, "
  "whose leaves are the components' leaves in order, and whose length, leaf and row counts add up accordingly. Components of different shapes or in the wrong number are refused.",
  ["inputs", "configurations"], "all leaf values and positions, the listed arities, all constructors",
  "Tests check a few combinations and mostly only that a proof validates.",
  [M], [("from_trees / from_sub_trees / from_sub_trees_as_trees / from_slices / from_stores / from_store_configs", M)], observe=["root", "len", "leafs", "row_count", "read_at"])
p("C11", "Size arithmetic agrees with the shape of real trees",
  "For every arity that is a power of two (at least 2) and every leaf count, the functions for tree length, row count, leaf count from length, proof length, cache size and default rows to discard agree with the perfect tree of that arity: "
  "they are mutually inverse where they should be, a leaf count is valid exactly if it is a power of the arity, and lengths that belong to no tree are refused.",
  ["inputs"], "all leaf counts and lengths up to 2^40, all arities up to 64 that are powers of two, all discard counts",
  "Tests check a table of values.",
  [M, ST], [("get_merkle_tree_len / _leafs / _row_count / _cache_size / _proof_lemma_len, is_merkle_tree_size_valid", M), ("default_rows_to_discard", ST)], observe=["the functions' results"])
p("C12", "Invalid input is an error, never a panic or a wrong tree",
  "Building or reading with input that denotes no tree or no node - a leaf count that is not a power of the arity, an arity that is not a power of two above one, a byte slice or store of the wrong length, an index or range outside the tree, a proof of the wrong shape, "
  "fewer replica offsets than trees - returns an error. It neither panics nor yields a tree, node or proof.",
  ["inputs", "configurations"], "all leaf counts up to the bound, all slice lengths, all 64-bit indices and ranges, all stores",
  "Tests try one or two invalid values for some constructors.",
  [M, PR, V, D, MM, L], [("ensure! guards in constructors and readers", M), ("bounds checks of the stores", D)], observe=["Err results"])
p("C13", "A store is an array: what is written is what is read",
  "Whatever sequence of appends, element writes and slice writes is made to a store of any kind, each read of an element or range returns the value last written there, the length is one past the highest written position, "
  "writes beyond the capacity of a store that has one are refused, and a refused operation changes nothing.",
  ["histories", "inputs"], "all operation sequences up to the bound, all positions and values, every kind of store",
  "Tests exercise stores almost only through tree building.",
  [V, D, MM, L], [("write_at / copy_from_slice / push / read_*", V), ("store_copy_from_slice / store_read_range", D)], [("len", "number of used elements", D)], ["read_at", "read_range", "read_into", "len", "is_empty"])
p("C14", "Iterating a store in parallel yields every element once, in order",
  "The parallel iterators of the in-memory and disk stores, and any way of splitting or reversing them, yield exactly the store's elements at their positions, each once. "
  "Their reported lengths are exact, and a failed read ends the iteration without repeating or adding an element.",
  ["inputs", "schedules"], "all sizes up to the bound, all split positions and all consumption orders from both ends, all element values",
  "Tests do not cover splitting or reverse iteration of store producers.",
  [ST], [("producer and iterator macros: split_at, next, next_back, len", ST)], observe=["par_iter", "collect"])
p("C15", "Hash inputs are domain separated and encode values faithfully",
  "Leaves are hashed with prefix 0 and interior nodes with prefix 1 followed by their children in order, the hasher being reset in between, so the input of one can never equal that of the other; "
  "binary and general node hashing agree for two children. Hashing of integers, booleans, characters, strings, slices, vectors, arrays, tuples and references writes their complete fixed encoding, and elements convert to and from bytes without loss.",
  ["inputs"], "all values of each supported type within the length bounds",
  "Tests hash a few fixed values.",
  [H, HI, M], [("Algorithm::leaf/node/multi_node defaults", H), ("Hashable implementations", HI), ("Element for [u8; 32]", M)], observe=["bytes given to the hasher"])
p("C16", "I/O failures surface as errors and never corrupt results",
  "If a read, write, open, resize or sync of a store file fails, or is interrupted or transfers fewer bytes than asked, the operation either returns an error or completes with the correct result. "
  "A sync that fails is an error. No operation panics or returns a tree, node or proof that differs from the true one, and after a failed read the store still answers correctly.",
  ["fault_sequences", "inputs"], "every placement of one (thorough: two) failing, short or interrupted system call in each operation, all leaf values",
  "Tests run on a healthy file system.",
  [D, L, MM, M, ST], [("read_exact_at / write_all_at", D), ("error propagation", M)], observe=["Result of each operation", "nodes read afterwards"])
p("C17", "Base data from an external file is read at the right place",
  "A level-cache tree whose base data lies in an external file at a given offset reads exactly the bytes at that offset plus the node's position, for single nodes, ranges and proofs; "
  "in a compound tree each component uses its own offset. An external file that is too short, or a source that delivers fewer bytes than asked, is an error, and the number of offsets must match the number of components.",
  ["inputs", "configurations"], "all offsets, positions, ranges and file contents within the bounds; one- and two-layer compounds",
  "Tests use offset 0 or one layout with equal spacing.",
  [ST, L, M], [("ExternalReader::read", ST), ("from_store_configs_and_replica", M), ("reader calls", L)], observe=["read_at", "read_range", "gen_cached_proof"])
p("C18", "An error from the leaf source aborts the build and is returned",
  "If the iterator supplying leaves yields an error at any position, building fails with that error and no further leaf is taken from the iterator. "
  "If it yields only values, building succeeds and every leaf is used exactly once, in order.",
  ["inputs", "histories"], "every error position, all leaf values, all stores",
  "Tests check one error position.",
  [M], [("populate_data: item? short circuit", M)], observe=["Result of try_from_iter", "number of items taken"])
p("C19", "Stores with different names never touch each other",
  "Two stores with different names in one directory use different files; building, compacting or deleting one leaves the other's nodes unchanged, and deleting a named store removes exactly that store's file. "
  "Unnamed stores are private: they leave no file behind in the directory of named ones and do not share data.",
  ["inputs", "histories", "configurations"], "all names up to the length bound, all leaf values, sequences of operations on two stores",
  "Tests use one or a few fixed names and never look at other files.",
  [ST, D, MM, L], [("StoreConfig::data_path", ST), ("delete", D)], observe=["files in the directory", "nodes of the other store"])
p("C20", "Concurrent readers of one tree see what a single reader sees",
  "Any number of threads may read nodes, ranges and proofs of the same tree at once; in every interleaving each gets exactly the result it would get alone.",
  ["schedules", "inputs"], "all interleavings of two readers at their file accesses, all positions, all leaf values",
  "Tests read from one thread, or in whatever interleaving happens.",
  [D, L, MM, ST], [("positional reads without a shared file cursor", D)], observe=["read_at", "read_range", "gen_proof", "gen_cached_proof"])
p("C21", "A process killed in the middle leaves persisted trees whole",
  "If the process is killed at any point of a compaction, the store's file is afterwards either that of the full tree or that of the compacted one, byte for byte; it opens accordingly, and the compaction can be repeated. "
  "Killed while opening a persisted tree, building again under its name, reading, proving or syncing, it leaves the tree's file as it was; killed while deleting a store, it leaves that file whole or gone. Other stores' files are never touched.",
  ["crash_points", "inputs", "configurations"], "every system call of those operations (a write also half-done), all leaf values, every discard count, both formats",
  "Tests never die in the middle of an operation.",
  [D, L, MM, M], [("compact", D), ("delete", D), ("new_with_config", D)], observe=["file contents", "nodes of the reopened tree"])

if __name__ == "__main__":
    f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(f, "w") as o:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            o.write(json.dumps(x) + "\n")
