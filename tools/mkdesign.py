text = r'''# Verification of sorpaas/bm by property-based testing and fuzzing

## Shape of the machinery

One Rust crate, `/verif/pbt` (path dependencies on `/repo` and `/repo/le`, its own `[workspace]`), builds
one binary; `bin/check.sh <ID> [quick|thorough]` rebuilds it from the current tree and runs `pbt check <ID>`.
A property consists of *parts*. A part is either

* a `proptest` strategy producing plain, serialisable data (values, operation histories, corruptions, fault
  positions) together with a checking function that runs the case on the real library against an explicit
  oracle, or
* an exhaustively enumerated small space with the same checking function.

Cases are generated on eight threads from `VERIF_SEED` alone; the amount of work is fixed by case counts, not by
time. The first failure is shrunk by proptest and written as JSON; `bin/replay.sh FILE` (`pbt replay`) runs such a
file again without proptest. Panics, endless loops (a watchdog with the running case in a slot) and stack overflows or
aborts (the worker runs in a child process that leaves a trace of the case it is in) are failures of the property
being checked, not of the harness. The library is compiled with optimisation *and* overflow checks and debug
assertions, so arithmetic that wraps in a release build is reported as well.

Evidence (`evidence/<id>.json`) states for each part how many cases were run, how many different non-trivial ones
(by the rule printed there), labels that show which regions were reached, and samples.

No hook in /repo is needed: everything is observable through the public API (`InMemoryBackend: AsRef<Map>`
exposes the stored nodes and counts).

Oracles do not share code with /repo: `base.rs` has its own SHA-256 (the `sha2` 0.10 crate; /repo uses 0.8), a
symbolic tree `T`, padded merkleization over it, generalized-index walking, and 128-bit arithmetic for depths and
chunk counts. Four "kits" instantiate everything: 32-byte values with inherited and with unit empties (the
`bm_le::Value`), and 8-byte values (a truncated digest) with both, so chunk-size dependence is seen.

## Properties, generators and oracles

| id | generated | oracle | bounds |
|---|---|---|---|
| C01 | values of about 180 concrete types (all widths, arrays, bounded/unbounded lists, bit lists, tuples, options, boxes, derived structs/enums/generics), lengths around chunk and power-of-two boundaries; `zoo.rs`, `ssz.rs` | independent SSZ hash-tree-root, inherited and unit | lists to ~600 elements (a "large" part: to 8,194, packed 65,538), maxima to 2^40 and beyond; enums of 272 variants, structs of 35 fields |
| C02 | the same values in empty, populated and later extended backends, and trees built by the reference; the same values read as types that ignore parts, with and without the nodes of those parts | equality with the original | same |
| C03 | the same values through noop, memory, populated, proving and error-stripping backends | equal roots; every stored node re-hashed; complete comparison with the reference tree by index | same |
| C04 | get/set/push/pop histories on vectors and lists (`hist.rs`), all 4-operation words over a 4-letter alphabet, sparse collections of up to 2^64-1 elements (`far.rs`) | plain `Vec` / sparse map, nothing changes on refusal | 40 operations |
| C05 | the same for packed ones, 12 element/chunk size pairs, elements spanning chunks | array of byte strings, all neighbours re-read | 40 operations |
| C06 | edit histories of all four kinds, root after every edit; sparse ones too | reference tree over the current elements; the batch function of the code | same |
| C07 | set/get/graft/root-replace histories at indices up to depth 63 (`raw.rs`) | explicit binary tree; root and reads around every written place | 30 operations, all short histories at depth <= 3 |
| C08 | interleaved histories of many owned trees of all kinds in one backend: create, edit, share, graft, leak/reopen, drop, nodes with hundreds of parents and owners, permanent (populated) entries in between (`gc.rs`) | every live tree completely readable and equal to its model after every step | 60 operations |
| C09 | the same | exact recount of parents and roots after every step, nothing unreferenced, back to the initial contents at the end | same |
| C10 | recorded sessions (raw, all collections, partial values) with suspensions (`prove.rs`) | replay on a backend populated with the proofs only, directly and via the compact form | 30 operations |
| C11 | compact values and node maps, nine kinds of modification | explicit partial tree | 40 leaves, depth 60 |
| C12 | branches of depth 0 to 63, every place of stored trees, mutated branches | explicit hash chain | |
| C13 | partial reads/assignments/flushes/fresh handles/other handles over 17 partial types at random places (`part.rs`) | re-encoding of the updated value; the same on a backend holding only the needed paths | nested five deep |
| C14 | partial list reads/assignments/pushes/flushes, also past the end, also by another handle in between | re-encoding of the updated list; in a "far" part a sparse list of up to 2^62 elements, or one too long for its place, which must be refused; lists in structs in lists | 35 + pushes |
| C15 | a history on two copies, one closed and reopened (metadata, raw tree, single root) at random points; sparse collections to 2^64-1; missing nodes | the copy that stays open; the array model | 40 operations |
| C16 | encoded trees x hidden/replaced/tampered nodes x type confusion; arbitrary and cyclic contents | no panic; the true value or an error; refused classes always refused | read budget per decode |
| C17 | one, two, three bit paths up to depth 63; all small ones (`misc.rs`) | lists of bits | |
| C18 | values and byte strings for 21 types, two wire formats (`wire.rs`) | round trip, refusal, no panic, accepted bytes are stable | serde_json nesting limit |
| C19 | 64-bit lengths around every boundary, 140 size pairs; trees built for random maxima | 128-bit arithmetic; the reference tree | |
| C20 | every create/encode/reconstruct/decode entry point below, at, above the maximum, reopened on the way | refuse iff over; root covers every element | maxima to 2^62 |
| C21 | every operation of C04-C15 x every backend call it makes failing once (`fault.rs`) | that error is reported; state unchanged; retry gives the undisturbed result | |
| C22 | the same sessions direct, recorded, suspended/resumed, error-stripped, nested | equal answers, roots, contents; recorded set = log of reads minus own writes | |
| C23 | one operation on filled, sparse (to 2^62 elements) and pruned collections, raw trees and partial values, with every backend read logged (`local.rs`) | the reads lie on the path of the touched element in the reference tree (plus the one being created or removed, the length, and the new root); the operation works on storage pruned to that path; the number of calls stays below a bound quadratic in the depth | |
| C25 | batches of get/set/push/pop in one `with_mut` on `LengthMixed` over vectors, lists, packed vectors and packed lists (chunk-spanning too), ended by a refusal, by the caller, or by a storage failure at a random call; another sequence put in place; reopening (`mix.rs`) | the array model and reference tree after each batch: everything or nothing | up to 12 batches of 14 operations (30 of 30 when thorough) |
| C24 | all cases of all other checks, run on the crates built with `default-features = false` | the oracles of the other checks; a failing case is reported only if the same case passes on the ordinary build (so that a defect of both is the other check's) | every eighth case when quick, all when thorough |

Tests cannot settle these because each quantifies over values, histories or fault points: defects found so far needed
for example a packed element sharing a chunk with a popped one, a maximum that is not a power of two, a node that is both
old and rewritten in a session, or a backend failing between two writes.

Nothing is listed under `not_applicable`: every property has an executable oracle, so generated-input search decides
all of them. C21 enumerates every fault position of each generated operation (level `fault_enumeration`).

## Findings

All are listed in `known-findings.txt`. Repaired with one `fix:` commit each: 20 entries. Recorded, not repaired:

* C04/C05 (unit construct): a vector created with a length under the *unit* construct has the zero value as root, and
  its elements cannot be read back (`CorruptedDatabase`). The unit construct has no subtree to read; making `get` answer
  zero would change what "absent" means in `Raw::get` for everything else. The generators exclude exactly "created non-empty
  under the unit construct".
* C09 packed lists whose elements span chunks leave nodes behind: the inner vector of a list is dangling, so intermediate
  versions written within one list operation are never owned. A repair needs ownership of the intermediate roots.
* C15 `List::from_raw`/`Raw::into_list` take the length-mixed root for the items root; their signature has no backend to
  read the items root from, so a repair changes the public API.
* C18 `CompactValue`'s derived parity-codec decoder recurses once per byte of hostile input and overflows the stack; a
  repair means replacing the derive by a hand-written iterative or depth-limited decoder.

### Observations that are not claimed as properties

Padding bits and bytes of booleans, integers and bit lists are ignored when decoding, as are padding elements of vectors
and lists beyond their length, and the items root of empty structs and zero-length lists. `Raw::set` treats missing nodes
as zero pairs. `Value: Into<usize>` ignores the upper 24 bytes of a length (list decoders do check them). Hostile lengths
over zero chains make decoders loop for as long as asked (C16 bounds reads by a budget). `Index` is a machine word, so at most
2^63 chunks can be addressed although larger maxima can be encoded; there is no overflow check on composition. `into_compact`
is exponential on chains of equal nodes. A packed vector whose elements span chunks is not atomic under storage failures (C21
excludes it in its statement). `vector_tree`/`empty_at` leave unowned nodes (encoded trees are not owned by anyone).
`max_len` 0 is refused by `Vector::create`. `PartialValue::get` caches and its value is written back by the next flush, so it
overrides a write by another handle in between; `PartialVec` loses pending values when a flush fails, and several pushes leave
unowned intermediate lists. `populate` makes nodes permanent. `tree_root` panics for lists over their maximum. A list handle
made from metadata starts at the items root, so replaying a session that only reads elements needs the items root, not the
list root. `ProvingBackend` over `NoopBackend` cannot write. `#[derive(Partialable)]` does not support generics, tuple structs
or enums. serde_json refuses nesting above 127.

### False alarms corrected during development

* C20 expected compact booleans to be one byte each; they are bits.
* C18 expected serde_json to decode arbitrarily deep proofs; its nesting limit is not the library's.
* C14: after a failed flush pending values are gone; the model now starts a fresh handle, as the assumption says.
* C03: nodes of a *populated* backend were required to be keyed by their hash even where the harness had put arbitrary nodes
  itself.

## Mutation testing

`tools/mutate` rewrites a copy of the library into one with 1014 mutations selected at run time (operators, comparisons, constants,
conditions, removed statements, early results). 382 of them survive the 22 tests of the repository; the checks detect all of these
but the ones that change no behaviour, with these exceptions that led to new parts: conversion of a bounded vector into a
plain one (C20), equality of proofs (C11), and the depth limits of partial lists (C14 "far"). Macro bodies and the derives, which
that tool cannot reach, were mutated textually (36 hand-chosen replacements).

## Refactorings

Two copies of the library with some fifteen behaviour-preserving rewrites each (loops for recursion, arithmetic for loops,
helpers extracted, reads before writes and the other way round, nodes inserted from the top or from the bottom, fewer reads
and fewer empty nodes, decoding by chunk) leave all checks quiet. One did raise an alarm and led to a correction: C12
gave `from_plain` an endless list of siblings, which a version that collects them first cannot refuse.

## Planted bugs

`tools/plants.py` defines them, `tools/plant.py make|verify|catch` writes `seeded/`, verifies (compiles, 22 tests pass, demo
0/nonzero) and runs a check against them. All were written from the property texts and the code.

CATCHES
'''
import sys,re,glob,json
sys.path.insert(0,'/verif/tools')
from plants import PLANTS
rows=["| bug | property | needs |","|---|---|---|"]
for k,p in sorted(PLANTS.items(), key=lambda x:(x[1]['property'],x[0])):
    rows.append(f"| {k} | {p['property']} | {p['needs']} |")
text=text.replace("CATCHES", f"Each of the {len(PLANTS)} bugs below is caught by the quick check of its property. Missed at first, and what was\nstrengthened: `length-32-bits` (C15 now reopens sparse collections through every route), `partial-keeps-value` (C13/C14 now\nlet another handle write between flushes), `reconstruct-rounds-max` (C20 now closes and reopens while filling),\n`populate-in-order` (proofs are now populated in stages).\n\n"+"\n".join(rows))
open('/verif/DESIGN.md','w').write(text)
