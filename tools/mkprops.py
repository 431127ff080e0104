#!/usr/bin/env python3
# Writes /verif/properties.jsonl.
import json, os
P = []
def p(id, title, stmt, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))

p("S01", "A one-time signature index is never used twice",
  "No two signatures of a private key ever carry the same sequence number: every sequence number a signing call uses was unused before and is within the range of the scheme, whatever the interleaving of signing, borrowing and closing calls, and whatever storage failure or crash happens in between. Before a sequence number is used, the container durably records a first unused number beyond it, so that reloading the key after a crash at any point never hands it out again. The stored number is only ever lowered to give back numbers that were borrowed and not used.",
  ["schedules", "crash_points", "fault_sequences", "histories"],
  "all interleavings and sequences of Sign, Borrow*, Close and reloads; every storage call may fail in either way or be the last one before a crash",
  "Reuse shows only for particular orders of failures, crashes and borrow changes; the tests run one fault-free history.",
  ["core.go", "api.go", "container.go"],
  [("take the next sequence number", "core.go: PrivateKey.getSeqNo"), ("borrowing", "api.go: PrivateKey.borrowExactly"), ("durable counter", "container.go: fsContainer.SetSeqNo, BorrowSeqNos")],
  [("next sequence number of the key", "first number no signature uses yet", "api.go: PrivateKey.seqNo"), ("borrowed numbers", "numbers the container already counts as used", "api.go: PrivateKey.borrowed"), ("stored sequence number", "what a reload starts from", "container.go: fsContainer.seqNo")],
  ["Signature.SeqNo", "PrivateKeyContainer.GetSeqNo"])

p("S02", "The key file is replaced atomically and durably",
  "Whenever an operation that changes the stored key, sequence number or borrow count reports success, a complete new key file has been written aside, synced, renamed over the old one, and the directory synced, in that order and each without error. At no point is the file holding the only copy of the key truncated or written in place, so a crash at any moment leaves either the old or the new complete file.",
  ["crash_points", "fault_sequences"],
  "a crash after, or a failure of, any of the file operations",
  "Tests neither crash the process nor make a file operation fail.",
  ["container.go"], [("write aside, sync, rename, sync directory", "container.go: fsContainer.writeKeyFile")])

p("S03", "Storage errors are never swallowed",
  "If a file operation on which the durability of the key, the sequence number or the subtree cache rests fails, the operation that needed it returns a non-nil error and does not report success. After a failed change of the stored sequence number the container's own view is as before the call. When a signing, borrowing, key generation, loading or closing call gets an error from its container for something it needs (anything but dropping old subtrees and filling the cache in advance), it returns an error too.",
  ["fault_sequences"], "any file, mapping or lock operation may fail at any time",
  "The tests inject no storage failures at all.",
  ["container.go", "api.go", "core.go"], [("error returns and rollback", "container.go: fsContainer methods"), ("propagation", "api.go, core.go: PrivateKey methods")])

p("S04", "At most one open container per key, and the lock is always released",
  "At most one container for a key path is open at any time, among all processes and within one process; opening it a second time fails with an error that says it is locked. Every way in which opening, loading, deriving or one-shot signing fails releases the lock, as does closing the container, and nothing else releases it.",
  ["schedules", "fault_sequences", "histories"], "all sequences and interleavings of opening and closing, with failures anywhere in between",
  "One test tries one second open; error paths while opening are never taken.",
  ["container.go", "api.go"], [("lock", "container.go: OpenFSPrivateKeyContainer, fsContainer.Close"), ("ownership of the container", "api.go: Derive, LoadPrivateKeyFrom, Sign")])

p("S05", "Close gives back, waits and releases",
  "Closing a private key waits for its background work, records the number of borrowed sequence numbers that were not used, and closes the container exactly once, even if recording them fails. It cannot deadlock with background work, and no background work touches the container once it has been closed. Errors on the way are reported.",
  ["schedules", "fault_sequences"], "all interleavings of Close with background subtree generation, with storage failures",
  "The tests close keys that have nothing left to do.",
  ["api.go", "core.go"], [("Close", "api.go: PrivateKey.Close"), ("background work", "core.go: PrivateKey.getSeqNo; api.go: EnableSubTreePrecomputation")])

p("S06", "The concurrent API is free of data races and deadlocks",
  "The methods of a private key may be called from several goroutines at once: its mutable state and its container are only touched while its lock is held, the lock is released on every path and never acquired twice by one goroutine. What is shared without the lock (parameters, precomputed hashes, seeds, global tables) is not modified after it has been created.",
  ["schedules"], "all interleavings of the exported methods and the goroutines they start",
  "Tests exercise one schedule and few pairs of methods.",
  ["api.go", "core.go", "container.go"], [("lock of the private key", "api.go: PrivateKey.mux")],
  [("mutable key state", "sequence numbers, subtree tables, heap", "api.go: PrivateKey")])

p("S07", "Only complete and checked subtrees are used",
  "A cached subtree and the signature on its root are only used after they have been generated completely or their stored checksum has been found to match; what fails the check is generated again. A subtree is announced as ready only once its nodes, its signature and the checksum over both are in place, never before, and never stays announced when that failed. Waiting goroutines are woken whenever the state of a subtree changes.",
  ["schedules", "crash_points", "fault_sequences"], "all interleavings of concurrent requests, failing ancestors and corrupted or half-written caches",
  "Tests corrupt one byte of one subtree in one history.",
  ["core.go"], [("getSubTree", "core.go: PrivateKey.getSubTree")],
  [("ready/checked tables", "state of every cached subtree", "api.go: PrivateKey.subTreeReady, subTreeChecked")])

p("S08", "Keys and signatures do not alias the memory of the caller or the cache",
  "What a signature, a public key, a private key or a container keeps is independent of the byte slices the caller passed in and of the cache of subtrees: changing or reusing those buffers afterwards, or unmapping a cached subtree, never changes or invalidates it. Buffers handed out are copies, too.",
  ["histories"], "all later uses of buffers passed in or handed out, and all evictions of subtrees",
  "A test would need to change every buffer after every call.",
  ["api.go", "core.go", "container.go"], [("copies", "api.go: UnmarshalBinary, DeriveInto, SignFrom; core.go: newPrivateKey")])

p("S09", "Only subtrees that no future or pending signature needs are dropped",
  "A subtree is dropped from the cache only when every sequence number below it has been used and its signing call has finished; every signing call retires the number it took exactly once, also when it fails. The count of unretired numbers stays exact for all sequence numbers the scheme allows.",
  ["schedules", "histories"], "all orders in which concurrent signing calls finish, over the full range of sequence numbers",
  "Tests use small trees and sequence numbers, and retire in a handful of orders.",
  ["core.go", "misc.go"], [("retireSeqNo, incLeastSeqNoInUse", "core.go")])

p("S10", "Cache slots never mix up or leak subtrees between addresses or keys",
  "Every cached subtree has its own slot, disjoint from all others and from the header and entirely inside the cache file; a slot is handed out again only after it was given up. What an earlier subtree, or an earlier key in the same container, left in a slot or in the cache file is never taken for the subtree stored under another address or key, also after a crash.",
  ["histories", "crash_points", "configurations"], "all histories of allocating, dropping and resetting, for all parameters and page sizes, with a crash anywhere",
  "Tests fill a few slots of small trees without crashing.",
  ["container.go"], [("slot allocation", "container.go: GetSubTree, DropSubTree, Reset, ResetCache, subTreeOffset, mmapSubTree")])

p("S11", "The cache is disposable",
  "A missing or truncated subtree cache never makes the key unusable: opening the container succeeds with the cache marked as not initialised, and loading the key then creates a new one. A key file that is truncated, has a wrong magic or invalid parameters is refused, with no key returned.",
  ["inputs", "crash_points"], "all prefixes of the cache file and key file",
  "The tests open only intact files.",
  ["container.go", "api.go"], [("openCache, open", "container.go"), ("LoadPrivateKeyFrom", "api.go")])

p("V01", "Verification accepts only a full match of the root",
  "Verify returns true only if the root recomputed from the whole signature equals the whole root of the public key, where the recomputation hashes the message with the signature's randomizer, its sequence number and the public root, and walks every layer and every level of the authentication path at the positions given by the sequence number. In all other cases it returns false and a non-nil error, also if reading the message fails or the signature has other parameters than the key.",
  ["inputs", "configurations"], "all messages, signatures, public keys and parameter sets",
  "Tests try a few valid and a few damaged signatures; a forgery-accepting path is not reached by sampling.",
  ["api.go", "core.go", "wots.go"], [("VerifyFrom", "api.go"), ("lTreeInto", "core.go"), ("wotsPkFromSigInto", "wots.go")])

p("V02", "Signing produces the signature of the specification",
  "For every key, sequence number, message and parameter set, the signature consists of the sequence number, the randomizer derived from the secret for that number, and for every layer the one-time signature at the leaf selected by the number and its authentication path, in which layer 0 signs the keyed hash of the whole message and the other layers sign the root of the subtree below. Hence it is the signature RFC 8391 prescribes and verifies under the matching public key.",
  ["inputs", "configurations"], "all messages, sequence numbers, heights and numbers of layers",
  "Tests sign a handful of sequence numbers of small trees.",
  ["api.go", "core.go"], [("SignFrom", "api.go"), ("subTreePathForSeqNo, getSubTree", "core.go")])

p("V03", "Untrusted bytes never crash the library",
  "Decoding or verifying arbitrary bytes as a public key, signature, parameters, text or algorithm name, and opening arbitrary key and cache files, never panics, never reads outside the buffers and never allocates a size from the input that is not checked against the input's length: it returns a value or an error.",
  ["inputs"], "all byte strings given to the decoders, Verify and the file readers",
  "The input space cannot be sampled; the tests decode well-formed data only.",
  ["api.go", "params.go", "misc.go", "container.go", "core.go", "wots.go"], [("length checks", "api.go: UnmarshalBinary"), ("NewContext", "api.go")])

p("C01", "WOTS+ chains, digits and checksum follow the specification",
  "For every parameter set and message, the one-time key, signature and recovered key are computed from exactly the base-w digits of the message and of its checksum, encoded as RFC 8391 prescribes, with every chain started from its own secret and walked from and for exactly the right number of steps at its own address. Hence recovering the public key from a signature gives the one-time public key if and only if the digits agree.",
  ["inputs", "configurations"], "all messages, seeds and addresses, for all hash functions, n, w and PRF constructions",
  "Tests use few messages; a wrong digit of the checksum shows for few messages only.",
  ["wots.go"], [("wotsPkGenInto, wotsSignInto, wotsPkFromSigInto, wotsChainLengths", "wots.go")])

p("C02", "Fourway and portable hashing compute the same function",
  "Whether or not four hashes are computed at once by the vector unit, and for every number of chains left over, the results are identical to those of the portable code for all inputs; the vector code is only selected for parameter sets and processors it implements. The vector permutation itself is Keccak-f[1600] on each of its four lanes.",
  ["inputs", "configurations"], "all inputs of all parameter sets, with and without the vector unit",
  "Tests compare few random inputs, on the processor at hand.",
  ["hash.go", "wots.go", "internal/f1600x4"], [("fX4Into, prfAddrX4Into", "hash.go"), ("assembly", "internal/f1600x4")])

p("C03", "Every keyed hash has the layout of the specification",
  "For every parameter set, each of the functions PRF, PRF for key generation, F, H and the message hash applies the configured hash function to exactly the prefix, key, address and data that RFC 8391 or NIST SP 800-208 prescribe, and truncates to n bytes; uses with different roles can never have the same input. Precomputed prefixes and scratch space do not change the result.",
  ["inputs", "configurations"], "all keys, addresses, messages and parameter sets, and every state of the scratch space",
  "Known answers exist for few parameter sets and inputs.",
  ["hash.go", "address.go"], [("hash functions", "hash.go"), ("addresses", "address.go")])

p("T01", "Generated subtrees are independent of the number of threads",
  "For every seed, subtree position and number of worker threads, every node of a generated subtree is the one RFC 8391 prescribes: each leaf is computed from the one-time key at its own position exactly once, and each inner node from its two children. Authentication paths contain exactly the siblings on the way from leaf to root.",
  ["schedules", "inputs", "configurations"], "all interleavings of the workers, all thread counts, subtree positions and seeds",
  "Tests compare few roots; an interleaving that skips or repeats a leaf shows rarely.",
  ["core.go"], [("genSubTreeInto, lTreeInto, AuthPath", "core.go")])

p("E01", "The parameter encoding is exact and unambiguous",
  "Encoding supported parameters and decoding them gives the same parameters, different parameters have different encodings, and every four bytes that decode are the encoding of what they decode to. Parameters that cannot be represented, and bytes that encode none, are refused.",
  ["inputs", "configurations"], "all parameters and all 2^32 encodings",
  "Tests round-trip the named parameters only.",
  ["params.go"], [("Params.WriteInto, UnmarshalBinary", "params.go")])

p("E02", "The signature encoding is exact and unambiguous",
  "Encoding a signature and decoding it gives the same signature; the layout is parameters, sequence number, randomizer, then per layer the one-time signature and the authentication path, each in full, without gaps or overlap. Every byte string of another length than the parameters demand is refused, and every accepted byte string is the encoding of what it decodes to.",
  ["inputs", "configurations"], "all signatures and byte strings of all parameter sets",
  "Tests round-trip a few signatures.",
  ["api.go", "misc.go"], [("Signature.WriteInto, UnmarshalBinary", "api.go")])

p("E03", "The public key encoding is exact and unambiguous",
  "Encoding a public key and decoding it, in binary or as text, gives a public key with the same parameters, root and seed that verifies the same signatures. Every byte string of another length than the parameters demand is refused, and every accepted byte string is the encoding of what it decodes to.",
  ["inputs", "configurations"], "all public keys and byte strings of all parameter sets",
  "Tests round-trip one key.",
  ["api.go"], [("PublicKey.WriteInto, UnmarshalBinary, MarshalText, UnmarshalText", "api.go")])

p("E04", "A reopened container is the container that was stored",
  "Closing a container and opening it again gives the same parameters, private key, sequence number, number of lost signatures and cached subtrees: the reader accepts what the writer wrote, field by field, at the same offsets and with the same alignment. Files of the older cache format keep their meaning.",
  ["inputs", "configurations", "histories"], "all keys, parameters, counters and sets of cached subtrees",
  "Tests reopen a few small containers.",
  ["container.go"], [("writeKeyFile, open, writeCacheHeader, openCache", "container.go")])

p("R01", "The registry of named parameter sets agrees with the specifications",
  "Every named algorithm has the object identifier and the parameters RFC 8391 or NIST SP 800-208 assigns to its name, names and identifiers are unique within their kind, and looking up by name, by identifier or by parameters gives the same algorithm. Whether it is reported as listed in the RFC or by NIST agrees with the document that lists it.",
  ["configurations"], "all registered algorithms and all unregistered names and identifiers",
  "Tests touch a few entries.",
  ["params.go", "api.go"], [("registry and lookup tables", "params.go"), ("NewContextFromOid, NewContextFromName", "api.go")])

p("R02", "Algorithm names are parsed into exactly the parameters they denote",
  "For every supported parameter set, the name printed for it is parsed back into the same parameters, and different parameters have different names. Every other name is refused with an error or denotes exactly the parameters its parts spell out.",
  ["inputs", "configurations"], "all parameter sets and all names",
  "Tests parse a few names.",
  ["params.go"], [("Params.String, parseParamsFromName", "params.go")])

p("R03", "Only sound parameter sets are accepted, with the right derived sizes",
  "A context is only created for parameters whose hash function, PRF, n, w, height and number of layers are supported and fit together, so that no later size or shift overflows; all others are refused with an error. The lengths of signatures, keys, indices and one-time signatures of a context are the ones the specifications give for its parameters.",
  ["configurations"], "all values of the parameters",
  "Tests create contexts for the named parameter sets only.",
  ["api.go", "params.go"], [("NewContext", "api.go"), ("WotsLen, CachedSubTreeSize", "params.go")])

p("K01", "Key material is fresh, independent and full-length",
  "Key generation draws the secret seed, the secret PRF key and the public seed from the cryptographic random source of the operating system: every byte of the three, in their full length, is a byte of its own that a successful read of that source returned. No two bytes of them, and no constant or left-over buffer, are shared. When the source fails, key generation returns an error and stores no key.",
  ["inputs", "fault_sequences"], "every outcome of the random source, for all parameter sets",
  "Randomness of a key cannot be tested from its value.",
  ["api.go"], [("GenerateKeyPair", "api.go")])

p("K02", "Secrets only go where they belong",
  "The secret seed and the secret PRF key go to the key file and into hash functions only: no byte of them is part of a public key or signature, of text, of an error or log message, of the program's output, or of a result of an exported function other than those of a container that give back the key. The files of a container, which hold secrets, are created accessible by their owner only.",
  ["inputs", "histories"], "all flows of secret data through the program",
  "A test sees only the outputs it looks at.",
  ["api.go", "core.go", "container.go"], [("file modes", "container.go"), ("hashing of secrets", "hash.go, wots.go")])

p("B01", "Borrowed and lost signatures are counted exactly",
  "After asking for a number of borrowed signatures the key has exactly that many reserved, or reports an error; every signature made uses up one of them without touching the disk. After a crash the reported number of lost signatures is the number of reserved ones that were not given back, and after closing properly it is zero and the stored sequence number is exactly the next unused one.",
  ["histories", "crash_points", "fault_sequences"], "all sequences of borrowing, signing, closing and crashing",
  "Tests run one sequence without crash or failure.",
  ["api.go", "core.go", "container.go"], [("borrowExactly, BorrowExactlyIfBelow", "api.go"), ("BorrowSeqNos, SetSeqNo, GetSeqNo", "container.go")])

p("P01", "Every build of the library has the same API and semantics",
  "On every platform its dependencies support, with and without the vector unit, the library compiles and exports the same API, with exactly one implementation of every function. Platforms without the vector unit report that it is not available, and then never reach it. Keys, signatures, verification and files are the same on all platforms, whatever their byte order and size of int.",
  ["configurations"], "all platforms and build tags",
  "Tests run on one platform.",
  ["internal/f1600x4", "hash.go", "wots.go"], [("build constraints", "internal/f1600x4")])

d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(d, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
