#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p("C01", "Merkle roots follow the SSZ hash-tree-root rules",
  "For every supported value (booleans, unsigned integers up to 256 bits, 32- and 64-byte hashes, fixed arrays, bounded and unbounded lists, bit vectors and bit lists, tuples, options, boxes, derived structs and enums, nested in any way) the merkle root equals the SSZ hash-tree-root computed independently. That means little-endian 32-byte chunks, compact element packing where asked for, padding with empty subtrees up to the declared maximum length, and the length or variant number mixed in as a right-hand sibling. With the unit-empty construct the same holds with every empty subtree replaced by the zero value.",
  ["inputs"], "all values of all supported types, all lengths up to and around chunk and power-of-two boundaries, all declared maxima",
  "The spec test samples about 25 small literal values and most of the SSZ vectors in it are commented out; the root is a function of unbounded inputs.",
  ["le/src/basic.rs","le/src/elemental_fixed.rs","le/src/elemental_variable.rs","le/src/fixed.rs","le/src/variable.rs","le/src/utils.rs","le/derive/src/lib.rs","src/utils.rs","src/memory.rs"],
  [("chunk packing","le/src/elemental_fixed.rs"),("level-by-level tree building","src/utils.rs vector_tree"),("length/type mix-in","le/src/utils.rs"),("derived field order","le/derive/src/lib.rs")],
  ["root returned by into_tree / tree_root"])
p("C02", "Decoding an encoded tree gives back the same value",
  "For every supported value, writing it as a merkle tree into a backend and decoding the resulting root from that backend yields a value equal to the original. This holds for compact and plain encodings, for both empty-subtree constructs, and when the backend already stores any number of other trees.",
  ["inputs","histories"], "all values of all decodable types; all prior contents of the backend",
  "Round trips are tested on a handful of literals, never for 256-bit integers in compact form, 64-byte hashes, VecArray, Option, tuples, or with a shared backend.",
  ["le/src/basic.rs","le/src/elemental_fixed.rs","le/src/elemental_variable.rs","le/src/fixed.rs","le/src/variable.rs","le/derive/src/lib.rs","src/packed.rs"],
  [("FromTree / From*VectorTree / From*ListTree implementations","le/src"),("derived decoders","le/derive/src/lib.rs"),("packed element extraction","src/packed.rs coverings, PackedVector::get")],
  ["value returned by from_tree"])
p("C03", "The root does not depend on the backend, and stored nodes are genuine",
  "Encoding a value gives the same root whether nodes are discarded, stored in an empty or already populated memory backend, recorded by a proving backend or passed through the error-stripping wrapper, and the root-only helper agrees. In a storing backend, every node written is keyed by the hash of its two children, and the whole tree is present and readable by generalized index with exactly the values of the independent reference tree.",
  ["inputs","configurations"], "all values x all backends",
  "Tests check one backend at a time and never inspect the stored nodes.",
  ["src/memory.rs","src/utils.rs","src/proving.rs","src/traits.rs","le/src/lib.rs","le/src/basic.rs"],
  [("insert of every intermediate","src/utils.rs vector_tree, le/src/basic.rs"),("NoopBackend","src/memory.rs"),("tree_root","le/src/lib.rs"),("DynBackend","src/traits.rs")],
  ["roots; contents of the in-memory backend"])
p("C04", "Vectors and lists behave like a plain growable array",
  "Under any sequence of get, set, push, pop and length queries, a vector or list returns exactly what an ordinary array of the same elements would, with or without a maximum length and for owned and dangling handles. Any index at or beyond the length, and any push beyond the maximum length, is refused with the overflow error; popping an empty one yields nothing. A refused operation changes neither the root, nor the length, nor any element.",
  ["histories","inputs"], "all operation sequences, initial lengths and maximum lengths (also ones that are not powers of two)",
  "Tests push 100 values and pop them once, in order, without a maximum length; no interleaving, no bounds, no refused operation.",
  ["src/vector.rs","src/list.rs","src/length.rs","src/raw.rs"],
  [("growth and shrinking of the tree","src/vector.rs push/pop"),("bounds checks","src/vector.rs get/set/push"),("length mix-in after each change","src/length.rs with_mut")],
  ["results of every call; root; len"])
p("C05", "Packed vectors and lists behave like an array of fixed-size elements",
  "Under any sequence of get, set, push, pop and length queries, a packed vector or packed list returns exactly what an ordinary array of the same fixed-size byte elements would, for element sizes smaller than, equal to, larger than and not dividing the chunk size, with or without a maximum length. Any index at or beyond the element count (even inside an allocated chunk) and any push beyond the maximum element count is refused with the overflow error, changing nothing. Operations on one element never alter a neighbour that shares its chunk.",
  ["histories","inputs"], "all operation sequences, element sizes, chunk sizes, initial and maximum lengths",
  "Tests use one element size (64 bytes, twice the chunk size) in push-all/pop-all order, so no two elements ever share a chunk.",
  ["src/packed.rs","src/length.rs","src/vector.rs","src/utils.rs"],
  [("coverings","src/packed.rs"),("read-modify-write of host chunks","src/packed.rs set/push/pop"),("host length computation","src/utils.rs host_len")],
  ["results of every call; root; len"])
p("C06", "In-place editing and whole-value merkleization give the same root",
  "After any history of edits, the root of a vector, list, packed vector or packed list depends only on its current elements and declared maximum length, and equals the root obtained by merkleizing those elements in one go. In particular removed elements leave no trace, and growing, shrinking, popping then re-pushing, or rewriting an element with its old value returns to the earlier root.",
  ["histories"], "all pairs (edit history, resulting contents), both empty-subtree constructs",
  "The list tests compare roots only along one push-all/pop-all path and never against whole-value merkleization.",
  ["src/vector.rs","src/list.rs","src/packed.rs","src/length.rs","src/utils.rs","src/memory.rs"],
  [("empty subtree used when popping and growing","src/vector.rs, src/memory.rs empty_at"),("vector_tree","src/utils.rs")],
  ["root after every step"])
p("C07", "Raw trees read back what was written at each generalized index",
  "Under any sequence of writes at generalized indices, reads at any generalized index of a raw tree agree with an explicit binary tree edited the same way: a write replaces exactly the addressed subtree, expands a leaf on the path into a pair of zero leaves, and leaves every other subtree as it was. Reading below a leaf reports absence, subtrees taken at an index denote the value there, and the root is the hash of the explicit tree.",
  ["histories","inputs"], "all sequences of writes, reads, subtree grafts and whole-root replacement over arbitrary indices",
  "Tests write one full level in two orders; overlapping depths, grafts and rewrites of inner nodes are not explored.",
  ["src/raw.rs","src/index.rs","src/memory.rs"],
  [("path collection and rebuild","src/raw.rs set"),("route walking","src/raw.rs get")],
  ["get / subtree / root"])
p("C08", "Garbage collection never removes a node a live tree needs",
  "With any number of owned trees (raw trees, vectors, lists, packed ones) and stored values sharing one in-memory backend, and any interleaving of creating, editing, sharing, re-opening and dropping them, every owned tree that has not been dropped stays completely readable with its expected contents and root. Identical subtrees shared between trees, or occurring twice in one tree, survive until their last owner is gone, however many owners or parents they have. Trees recorded as permanent entries (populated proofs), before or in between, stay readable for good.",
  ["histories"], "all interleavings of operations on several trees over one backend, with few distinct values so that subtrees coincide",
  "No test has two live owned trees in one backend; reclamation is checked on two fixed raw-tree scripts.",
  ["src/memory.rs","src/raw.rs","src/vector.rs","src/length.rs","src/packed.rs"],
  [("reference counting","src/memory.rs insert/rootify/unrootify/remove"),("rootify-before-unrootify order","src/raw.rs set")],
  ["get on every live tree after every step"],
  [("reference count","number of parents in the backend plus roots held","src/memory.rs InMemoryBackend")])
p("C09", "Garbage collection reclaims everything that is no longer owned",
  "At every moment the in-memory backend's count for each counted node equals the number of stored parent links to it plus the number of owned roots held on it. Creating, editing and dropping owned raw trees, vectors, lists and packed ones leaves no unreferenced node behind, so that after the last one is dropped the backend contains exactly what it contained before.",
  ["histories"], "all interleavings of operations on several owned trees over one backend",
  "Two fixed raw-tree scripts check the number of nodes; lists, vectors and packed trees are never checked for leaks.",
  ["src/memory.rs","src/raw.rs","src/vector.rs","src/length.rs","src/packed.rs"],
  [("reference counting and recursive removal","src/memory.rs"),("unrootify of the previous root","src/raw.rs set, drop")],
  ["contents of the backend (as_ref) after every step"],
  [("reference count","parents plus roots","src/memory.rs InMemoryBackend")])
p("C10", "Recorded proofs suffice to replay the operations that produced them",
  "If any sequence of reads and writes is run on a tree through the proving backend, then a fresh in-memory backend populated only with the recorded proofs (directly, or through their compact form and the tree's root) replays the same sequence with identical results, errors and final root. This also holds when the recording is suspended and resumed from its saved state.",
  ["histories"], "all operation sequences on raw trees, vectors, lists, packed ones, partial values and decoders",
  "One test proves two reads on one list; no writes are replayed.",
  ["src/proving.rs","src/memory.rs","src/raw.rs"],
  [("recording of reads that were not inserted by the session","src/proving.rs get/insert"),("populate","src/memory.rs"),("compact conversion","src/proving.rs")],
  ["results of the replayed operations"])
p("C11", "Compact proofs are lossless and bound to their root",
  "Converting recorded proofs to compact form for a root and back restores that root and exactly the recorded nodes reachable from it; leaf count and folded root are those of the denoted tree, and writing the compact form into a backend makes precisely that partial tree readable. Changing any value, swapping two different siblings or altering the shape so that it denotes another tree changes the computed root, whereas replacing a combined node by its hash does not.",
  ["inputs"], "all partial trees and proofs, all single modifications of them",
  "One proof of two reads is converted back and forth.",
  ["src/proving.rs","le/src/basic.rs"],
  [("into_compact/from_compact/fold","src/proving.rs"),("IntoTree for compact values","le/src/basic.rs")],
  ["CompactValue root, len, from_compact"])
p("C12", "A plain branch proof verifies exactly its leaf at its index",
  "For every tree, every index in it and the list of sibling values from the leaf up to the root, the compact proof built from them has the tree's root and shows the leaf at that index. A list of siblings that is too short or too long is refused, and a wrong leaf, wrong index of the same depth or wrong sibling gives a different root (unless it denotes the same tree).",
  ["inputs"], "all indices up to the deepest supported, all leaves and branches",
  "Construction from plain branches has no test at all.",
  ["src/proving.rs","src/index.rs"],
  [("from_plain","src/proving.rs"),("route","src/index.rs")],
  ["CompactValue::from_plain, root"])
p("C13", "Partial struct updates equal re-encoding the whole struct",
  "For every derived struct (nested to any depth, any number of fields, placed at any subtree) reading a field partially yields that field's value, and after assigning any subset of fields and flushing, the tree's root equals the root of the fully re-encoded updated struct. Unassigned fields, and everything outside the struct's subtree, are unchanged, flushing twice or with nothing assigned changes nothing, and only the needed path is read.",
  ["inputs","histories"], "all struct values, subsets of fields, assignment/flush sequences, owned and dangling roots",
  "One test updates one field of one nested struct.",
  ["le/src/partial.rs","le/derive/src/lib.rs","src/raw.rs","src/index.rs"],
  [("index resolution","le/src/partial.rs resolve"),("flush","le/src/partial.rs, le/derive/src/lib.rs")],
  ["partial get, root after flush"])
p("C14", "Partial list updates equal re-encoding the whole list",
  "For a list without maximum length stored at any subtree, partially assigned elements and pushed elements take effect on flush exactly as if the updated list had been re-encoded, including its length, and a partial read of element i yields element i. Accessing an element at or beyond the stored length is an error that changes nothing outside; it never reads or writes another node.",
  ["inputs","histories"], "all lists, positions, sequences of assignments, pushes and flushes",
  "Partial lists have no test at all.",
  ["le/src/partial.rs"],
  [("list index resolution","le/src/partial.rs resolve"),("pushed values","le/src/partial.rs PartialVec::flush")],
  ["partial get, root after flush"])
p("C15", "Leaked and deconstructed handles reopen to the same collection",
  "Taking the metadata of a raw tree, vector, list, packed vector or packed list and reopening it, turning it into a raw tree and back, or deconstructing a list to its single root and reconstructing it, gives a collection with the same length, maximum, root and elements, and all later operations behave as if it had never been closed. Reconstruction takes the length from the tree, and fails with an error when the nodes it needs are absent.",
  ["histories","crash_points"], "all histories with a close/reopen at any point",
  "One list is deconstructed and reconstructed once and only read afterwards.",
  ["src/length.rs","src/list.rs","src/vector.rs","src/packed.rs","src/raw.rs"],
  [("Leak implementations","src/*.rs"),("reconstruct/deconstruct","src/length.rs"),("from_raw/into_raw","src/*.rs")],
  ["len, root, get after reopening"])
p("C16", "Decoding hostile or incomplete trees fails cleanly",
  "Decoding any type from any root over any backend contents returns a value or an error; it never panics. If nodes are merely missing, the result is the true value or an error, never a wrong value. A list length above the declared maximum, an option or enum variant number out of range and a non-zero node where an empty one is required are always refused.",
  ["inputs","fault_sequences"], "all decodable types x all corruptions (missing nodes, replaced leaves, changed lengths, trees of another type)",
  "Every test decodes a tree it has just encoded.",
  ["le/src/basic.rs","le/src/elemental_variable.rs","le/src/elemental_fixed.rs","le/src/fixed.rs","le/src/utils.rs","le/derive/src/lib.rs","src/vector.rs","src/packed.rs"],
  [("length and type checks","le/src/utils.rs, le/src/elemental_variable.rs"),("corrupted-database errors","src/vector.rs get")],
  ["result of from_tree"])
p("C17", "Generalized index arithmetic is consistent",
  "For every generalized index of any representable depth: children, parent, route, zero/one-based and by-depth constructors and sub-index composition agree with the binary path they denote. Composition is associative with the root as identity, the route of a composition is the concatenation of routes, and the descendant test holds exactly for proper extensions of the path.",
  ["inputs"], "all indices up to the machine word size, all pairs and triples whose composition is representable",
  "Six literal routes and two descendant queries are tested.",
  ["src/index.rs"],
  [("bit arithmetic on one-based indices","src/index.rs")],
  ["Index methods"])
p("C18", "Serialized proofs and bounded lists survive the wire formats",
  "Compact proofs, tree values, bounded lists and compact wrappers decode from both supported wire formats (serde and parity-codec) to exactly what was encoded. Decoding a bounded list longer than its maximum is refused, and decoding arbitrary or truncated bytes never panics; whatever is accepted re-encodes to a value that decodes to itself.",
  ["inputs"], "all values; all byte strings",
  "Serialization has no test at all.",
  ["src/proving.rs","le/src/variable.rs","le/src/lib.rs"],
  [("derived codecs","src/proving.rs, le/src/lib.rs"),("length limit on decode","le/src/variable.rs")],
  ["serde_json / parity-codec encodings"])
p("C19", "Depth and chunk-count arithmetic is exact",
  "The depth required for n leaves is the smallest d with 2^d >= n for every 64-bit n, and the number of chunks for a number of packed elements is the exact ceiling of total bytes over chunk size. A vector's reported depth and current maximum agree with these for every length and maximum, and a tree built for a declared maximum has exactly that depth.",
  ["inputs"], "all 64-bit lengths, all element and chunk sizes",
  "No test calls these with anything but small implicit values.",
  ["src/utils.rs","src/vector.rs"],
  [("required_depth, host_max_len, host_len","src/utils.rs"),("depth, current_max_len","src/vector.rs")],
  ["returned numbers"])
p("C20", "Declared maximum lengths are enforced, never silently truncated",
  "Creating a collection longer than its declared maximum, or merkleizing a list or leaf sequence with more elements than its declared maximum, is refused; no element is ever dropped from the root. A collection with a maximum can be created empty (and at any length up to it), filled exactly up to its maximum, and a stored list claiming more elements than its maximum is refused on decoding. Converting a plain vector into a bounded one and back keeps every element.",
  ["inputs","configurations"], "all lengths and maxima, below, at and above every chunk and power-of-two boundary",
  "No test creates a collection with a maximum length or encodes at or over a maximum.",
  ["src/vector.rs","src/packed.rs","src/list.rs","src/utils.rs","le/src/elemental_variable.rs"],
  [("create parameter check","src/vector.rs create"),("capacity check when building","src/utils.rs vector_tree, le/src/elemental_variable.rs")],
  ["result of create / into_tree / from_tree"])
p("C21", "Storage failures are reported and leave collections unchanged",
  "If the storage backend fails at any single call during any operation (reading, editing, encoding, decoding, proving, partial flush, dropping), that operation reports exactly that failure; it neither panics nor claims success. After a failed edit, a raw tree, vector, list, packed list, and packed vector whose elements never lie across two chunks keeps its previous length, root and elements, and retrying the operation once storage works gives the result it would have given without the failure.",
  ["fault_sequences","histories"], "every operation x every backend call at which it can fail",
  "No test has a failing backend.",
  ["src/raw.rs","src/vector.rs","src/packed.rs","src/length.rs","src/traits.rs","src/proving.rs","src/utils.rs"],
  [("error propagation","all of src"),("state assigned only after the last backend call","src/raw.rs, src/vector.rs, src/length.rs")],
  ["results, len, root after the failure"])
p("C22", "Recording proofs is transparent and records only genuine old nodes",
  "Running operations through the proving or error-stripping backend gives the same results, roots and final backend contents as running them directly. Every recorded proof entry is a node that existed before the session with exactly the recorded children; nodes first created by the session are never recorded, and every pre-existing node that was read is recorded unless the session had itself written it first.",
  ["histories"], "all operation sequences through the proving backend compared with the bare backend",
  "One proof is checked by size only.",
  ["src/proving.rs","src/traits.rs"],
  [("get/insert interception","src/proving.rs"),("delegation","src/proving.rs, src/traits.rs DynBackend")],
  ["proving state; backend contents"])

p("C23", "Touching one element touches only the path to it",
  "Reading, writing, pushing or popping one element of a vector, list, packed vector or packed list reads no stored node off the way from the root to the chunks that hold the element (plus the list's length), in the tree before or after the operation; the proof recorded for it therefore contains only nodes of that way, and the number of backend calls grows with the depth of the tree and never with the number of elements. Likewise reading or writing a raw tree at an index reads only the nodes above that index, and reading, assigning or pushing one element of a partial list works, with the right result, on a backend that holds nothing but the way to it and to the length.",
  ["inputs","histories"], "all collection kinds, sizes from one element to 2^62, maxima and positions",
  "Only the size of one proof is tested; operations that look at far too much still give the right answers, and no test counts backend calls.",
  ["src/raw.rs","src/vector.rs","src/packed.rs","src/list.rs","src/length.rs","le/src/partial.rs"],
  [("path walk","src/raw.rs get, set"),("growing and shrinking by one level","src/vector.rs extend, shrink"),("chunks an element lies in","src/packed.rs coverings"),("index resolution of partial elements","le/src/partial.rs")],
  ["keys asked of the backend; recorded proofs"])

p("C24", "The crates behave the same without the standard library",
  "Built without the standard library (where the in-memory backend, recorded proofs and partial lists keep their entries in maps ordered by key instead of hashed ones) the crates build with the same other features, and every operation gives the same results, errors, roots, stored nodes and proofs as with it; everything the other properties promise holds there, too.",
  ["configurations","inputs","histories"], "all inputs and histories of the other properties, in the second build configuration",
  "The tests are only ever built with the standard library.",
  ["src/memory.rs","src/proving.rs","src/lib.rs","le/src/partial.rs","le/src/lib.rs"],
  [("map type by feature","src/memory.rs, src/proving.rs, le/src/partial.rs Map"),("order of values","le/src/lib.rs Value")],
  ["results of all operations in the no_std build"])

p("C25", "Updates of length-mixed trees happen as a whole or not at all",
  "Any sequence (vector, list, packed vector, packed list, also a list inside another length-mixed tree) can be kept in a length-mixed tree. All operations performed on it within one update call take effect together; if one of them is refused and the caller reports it, if the caller gives up for its own reasons, or if storage fails at any point, none of them does: root, length and elements are as before the call, and remain readable. After every update the root is the hash of the sequence's root and its length, whatever the sequence; a read-only call changes nothing, and closing the tree (metadata, raw tree, single root) and opening it again gives the same root, length and elements.",
  ["histories","fault_sequences"], "all inner sequences, all batches of operations, all points at which a batch ends early",
  "Tests only ever make one change at a time, through lists, and none ends early.",
  ["src/length.rs","src/list.rs","src/packed.rs"],
  [("update and rollback","src/length.rs with_mut, update"),("opening and closing","src/length.rs reconstruct, deconstruct, from_leaked")],
  ["root, len, elements after each update"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
