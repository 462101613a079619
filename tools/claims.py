X = "exploration"
TRUST = " Trusts the harness's reference model and sha2 0.10; bounded by the sizes in the evidence file's rule."
CLAIMS = {
 "C01": ("differential property testing against an independent SSZ merkleization", X, "About 170 concrete types; every leading length/variant selector and random values, with and without storage." + TRUST),
 "C02": ("round-trip property testing", X, "About 170 concrete types in empty, populated and later extended backends, and from independently built trees." + TRUST),
 "C03": ("differential property testing of backends with a full-tree invariant", X, "The same value encoded through every backend; stored nodes re-hashed and read by key and by index." + TRUST),
 "C16": ("structured fuzzing of decoders with hostile trees and explicit refusal oracles", X, "Hidden, replaced and tampered nodes of trees of about 170 types, type confusion, arbitrary and cyclic contents." + TRUST),
 "C04": ("stateful model-based property testing against a plain array", X, "Random and short-exhaustive histories, and sparse collections of up to 2^64-1 elements; every answer and every element compared with a Vec or sparse map." + TRUST),
 "C05": ("stateful model-based property testing against an array of byte strings", X, "Random and short-exhaustive histories over twelve element/chunk size pairs; all elements read back after every operation." + TRUST),
 "C06": ("stateful property testing with an independent reference tree as oracle", X, "Root compared with a reference tree after every edit of random and short-exhaustive histories." + TRUST),
 "C15": ("metamorphic (twin) stateful property testing", X, "A handle closed and reopened at random points must be indistinguishable from one that stays open." + TRUST),
 "C07": ("stateful model-based property testing against an explicit binary tree", X, "Random and short-exhaustive write histories at depths up to 62; root and reads around every written place compared." + TRUST),
 "C08": ("stateful model-based property testing of many owned trees in one backend", X, "After every step every live tree is walked completely against its reference tree." + TRUST),
 "C09": ("stateful property testing with a recount of all references as invariant", X, "Counts recomputed from scratch after every step; backend compared with its initial contents after the last drop." + TRUST),
 "C10": ("property testing of recorded sessions: record, replay on the proofs, compare (differential)", X, "Random sessions, suspensions, owned and dangling handles, direct and compact replay." + TRUST),
 "C11": ("property testing: round trips and metamorphic single modifications against an explicit tree", X, "Random compact trees and partial node maps; nine modifications each." + TRUST),
 "C12": ("property testing with generated branches and mutations against an explicit tree", X, "Random branches of depth 0-62 with all too short lengths, and every place of random stored trees." + TRUST),
 "C22": ("differential property testing of backends with a call log", X, "The same session direct, recorded, suspended, error-stripped and nested." + TRUST),
 "C13": ("differential and model-based property testing of partial values against explicit trees", X, "Derived partial structs at random places of random trees, with missing parts of the storage." + TRUST),
 "C14": ("stateful model-based property testing of partial lists against a plain list", X, "Random element reads, writes, pushes and flushes of partial lists of fifteen element types, with another handle writing in between." + TRUST),
 "C17": ("property testing of index arithmetic against lists of bits", X, "Random and small-exhaustive paths, pairs and triples up to depth 63."),
 "C18": ("round-trip property testing and mutation fuzzing of wire formats", X, "Random values of 21 types, truncated and altered encodings. Trusts serde_json and parity-codec."),
 "C19": ("property testing against exact 128-bit arithmetic", X, "Random lengths around every boundary for 140 size pairs; trees built for random maxima." + TRUST),
 "C20": ("boundary-focused property testing against an independent reference tree", X, "All collection kinds and encoders below, at and above their maximum." + TRUST),
 "C21": ("property testing with enumeration of every fault position", "fault_enumeration", "Each backend call of each generated operation fails once." + TRUST),
 "C24": ("differential property testing: all generators and oracles on the no_std build, failures compared with the std build", X, "One case in eight of every other check's generators (all of them in the thorough tier)." + TRUST),
 "C23": ("property testing with a backend that logs every read, against the path in an independent reference tree", X, "Single operations on filled and sparse collections of up to 2^62 elements, raw trees, and partial lists on pruned storage." + TRUST),
 "C25": ("stateful model-based property testing with injected refusals and storage failures", X, "Batches of operations on six kinds of inner sequences in four constructs." + TRUST),
}
