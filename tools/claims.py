BASE = "Trusted: the Go type checker and SSA builder, the checker's models of the standard library and its term normaliser. "
C["C01"] = ("symbolic value analysis (value numbering) of the SSA form against an independent transcription of RFC 8391",
  BASE + "All seeds, addresses and messages are covered symbolically, per parameter tuple and chain; quick covers the w=16 tuples and representatives of w=4 and w=256, thorough all tuples. Hash functions are uninterpreted.")
C["C02"] = ("symbolic value analysis of portable and fourway code; abstract interpretation of the assembly against Keccak",
  BASE + "Covers all lanes, tail lengths and tuples for which the vector code is selected; the assembly's instructions are interpreted over the same terms.")
C["C03"] = ("symbolic value analysis of the hash wrappers against an independent transcription of the specifications",
  BASE + "Exact input layout for every tuple, symbolic keys, addresses, data and scratch contents.")
C["T01"] = ("symbolic value analysis of tree generation, lockset and claim discipline for its workers",
  BASE + "Subtree heights 1 to 6 are unrolled with symbolic seeds and positions; larger heights run the same loops.")
C["S01"] = ("path-sensitive typestate and relational dataflow of sequence numbers over the call graph of the private key's methods",
  BASE + "All paths of every method and constructor from any state satisfying the invariant, container failures at every call, any interleaving through the key's lock; loops by inductive invariant.")
C["S05"] = ("typestate of container, wait group and lock over all paths of Close and of background work",
  BASE + "All paths of every method, container failures at every call; background work is tied to the wait group at each go statement.")
C["S09"] = ("typestate of retirement and relational dataflow of the drop decision over all paths",
  BASE + "All paths of every method from any state satisfying the invariant; two parameter shapes in quick, four in thorough.")
C["S06"] = ("path-sensitive lockset analysis of every method; flow-insensitive effect analysis of what is shared without the lock",
  BASE + "All paths of every method and background goroutine; deadlock freedom is: one lock, never taken twice, released on every path, every wait in a loop on its own lock.")
C["S07"] = ("path-sensitive typestate analysis of subtree generation with the cache contents as value graphs",
  BASE + "Shapes H/D = 2/1, 4/2, 6/3 (more in thorough), every layer, symbolic positions, nested subtrees and the container failing at every call; the lock forgets whatever other goroutines may change. Generation and one-time signatures are summarised and are compared with the specification by T01 and C01. Checksum collisions are out of reach.")
C["S08"] = ("flow-insensitive origin (escape and alias) analysis with function summaries, to a fixpoint",
  BASE + "All fields of keys, signatures and containers and all exported functions. Containers other than the one in the repository are trusted to hand out their own memory only.")
C["R01"] = ("abstract interpretation of the registry and its lookups against the tables of the specifications",
  BASE + "Every entry of the registry, every lookup by name, identifier and parameters, and unknown ones symbolically.")
C["R02"] = ("abstract interpretation of the name printer and parser over structured strings",
  BASE + "Every supported parameter set with symbolic numbers; names with symbolic decimal and opaque parts, every parsing outcome.")
C["R03"] = ("path-sensitive value analysis of the constructors and size functions on symbolic parameters",
  BASE + "All supported tuples and symbolic unsupported ones; sizes against independently written formulas.")
C["E01"] = ("abstract interpretation of the parameter encoder and decoder over all tuples and headers",
  BASE + "All supported tuples and all 2^32 headers symbolically; also unrepresentable parameters.")
C["V01"] = ("symbolic value analysis of decoding and verification against an independent transcription of RFC 8391",
  BASE + "All positions of small shapes and selected positions of large ones, all key, signature and message bytes symbolic; recovered one-time keys are summarised and compared with the specification separately.")
C["E02"] = ("abstract interpretation of decoder and encoder composed to the identity on symbolic bytes and lengths",
  BASE + "Representative tuples for contents (every byte symbolic), all hash, n, PRF and w for lengths up to 2^33.")
C["E03"] = ("abstract interpretation of decoder and encoder composed to the identity on symbolic bytes, text and lengths",
  BASE + "Representative tuples for contents and all hash, n and PRF for lengths up to 2^33; base64 is trusted.")
C["V02"] = ("symbolic value analysis of key derivation, loading and signing against an independent transcription of RFC 8391",
  BASE + "All sequence numbers of small shapes and selected ones of large shapes, all seeds and messages symbolic, through a model of a container that works; tree nodes and one-time signatures are summarised and compared with the specification separately.")

C["S02"] = ("path-sensitive typestate analysis of the key file against a file system model in which every operation may fail",
  BASE + "Every failure combination of every operation of storing numbers and keys; stored numbers, keys and lengths symbolic; two parameter shapes. A rename is taken to be atomic, and a synced file and directory durable.")
C["E04"] = ("byte-exact value graphs through writer and reader over a file system model",
  BASE + "Key, numbers, subtrees and their addresses symbolic; old formats and alignments 4096 to 65536 written byte by byte; pages of 4096, 16384 and 65536; few slots, the loop over slots treats all alike.")
C["S10"] = ("typestate and region analysis of cache slots over a file system model in which every operation may fail",
  BASE + "Symbolic addresses and contents; all sequences of storing, dropping, storing again and reopening with up to three subtrees, and any number of slots for offsets; every failure in between.")

C["S03"] = ("fault-path analysis of container and key: every file, mapping and lock operation may fail, error results tracked to the returns",
  BASE + "All paths of every container method over a file system model in which each operation may fail, and all paths of every key method and constructor with a container that may fail at every call.")
C["S04"] = ("typestate of the lock and the table of open containers over all paths, ownership of the container in constructors",
  BASE + "All outcomes of opening, closing, closing again and opening again with every operation failing; all paths of the functions that make keys. The lock file library is modelled: it is exclusive among processes.")
C["S11"] = ("abstract interpretation of opening over symbolic damaged files; typestate of the cache while loading",
  BASE + "Cache missing, empty and cut off at every symbolic length in header, slot headers and in between, both formats; key files cut off at every length, with symbolic magic and parameters. Caches with damaged contents of full length are S07's.")
C["B01"] = ("relational dataflow of the reserved and stored numbers through every critical section, and through the container's file",
  BASE + "All paths of every method from any state satisfying the invariant, symbolic amounts and thresholds, container failures at every call; the container's numbers through writing and reading its file.")

C["K01"] = ("origin analysis of key bytes: path-sensitive propagation of the reads of the random source into the stored key",
  BASE + "All outcomes of every read (full, short, failing), n = 16, 24, 32 and 64, one and several layers.")

C["K02"] = ("taint analysis with function summaries; symbolic provenance of public bytes; modes of created files over a file system model",
  BASE + "All flows through all functions of the package, field-based, without regard to order; fields with secrets are found by symbolic key derivation. What hash functions give is not considered secret.")

C["P01"] = ("type-checking and comparing all builds; abstract interpretation against the specification on 32 bit and unit-less platforms",
  BASE + "Twenty platforms and all build tags of the repository; functions without body against assembly; hashing, signing, verification, encodings and container files on linux/386 and linux/arm64 for representative parameters. Subtrees of 2 GB and more cannot exist on 32 bit platforms.")

C["V03"] = ("abstract interpretation with safety obligations: every index, slice, allocation, division, shift, type assertion and map write must be implied to be safe by the path that reaches it, and no path panics",
  BASE + "All byte strings up to 2^33 bytes for the decoders with every hash, n, w and PRF and representative heights; verification on representative shapes with symbolic contents; name templates; arbitrary, cut-off and damaged key and cache files.")
