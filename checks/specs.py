SPECS = {}

def c(name, src, **kw):
    d = dict(kind="c", name=name, src=src if isinstance(src, list) else [src])
    d.update(kw)
    return d

SPECS["C01"] = dict(
    level="model_checking",
    technique="breadth-first search over operation sequences on the real code against an ordered-map reference",
    note="Exhaustive within the stated alphabet and depth, on the real library under ASan/UBSan; every state and refused call compared byte for byte. Values outside the alphabet are not covered.",
    jobs=[c("c01", "harness/c01_meta.c")],
    bounds=dict(quick="op sequences: depth 4 from empty (26-op alphabet), depth 5 from 30/31/32 filled slots, depth 4 from nearly full space; all size triples 0..48 with each deletion; all first sizes 0..1920",
                thorough="depth 5 / 6 / 4; all size triples 0..130"),
    assumptions=["header fields outside the metadata tables are represented by one fixed non-zero pattern"],
)

SPECS["C02"] = dict(
    level="model_checking",
    technique="breadth-first search over part operation sequences on the real code against an ordered-list reference",
    note="Exhaustive within the stated alphabet and depth on the real library under ASan/UBSan; offsets and sizes recomputed independently in every state.",
    jobs=[c("c02", "harness/c02_part.c")],
    bounds=dict(quick="depth 5 from empty (24-op alphabet), depth 5 from 30/31/32 parts", thorough="depth 6"),
    assumptions=["header fields outside the part table are represented by one fixed non-zero pattern"],
)

SPECS["C04"] = dict(
    level="exploration",
    technique="exhaustive enumeration of single-bit and structural tamperings on the real verifier",
    note="Complete over all single-bit flips of the header and hashed payload of one four-part package (all bits for two key kinds, one bit per byte for the rest in quick), all truncations, key pairings and signature sizes. Cryptographic strength of the primitives is assumed.",
    jobs=[c("c04", ["harness/c04_tamper.c", "harness/pu.c"], tool=True)],
    rule="one case per modified package image; every case is verified by the real code and must be rejected (or accepted when unmodified/excluded data); distinct counts outcome codes",
    bounds=dict(quick="4 key kinds x 3 hash kinds; see note; all pairs of 600 contents x 3 hash kinds", thorough="all bits for every key/hash combination, all bits through the tool"),
    assumptions=["SHA-2/ECDSA/RSA primitives of mbedtls are correct"],
)

SPECS["C03"] = dict(
    level="model_checking",
    technique="enumeration of all operation histories to a depth on the real archive code against a list-of-parts reference",
    note="Every history over the alphabet up to the depth from six initial archives, through the library (one open handle, with reopen as an operation) and through the command line tool; the whole file is compared with an independently built archive after each.",
    jobs=[c("c03", ["harness/c03_history.c", "harness/pu.c"], tool=True)],
    bounds=dict(quick="22-op alphabet: depth 3 from a fresh archive, depth 2 from five others; source files of 65535 to 300000 bytes: 8-op alphabet, depth 3; tool depth 2/1", thorough="29 ops depth 4 from all; tool depth 3"),
    assumptions=["file operations succeed (I/O failures are C14)"],
)

SPECS["C07"] = dict(
    level="exploration",
    technique="exhaustive enumeration of small origin/target pairs, compressions and feed splits on the real bsdiff/bspatch",
    note="All pairs of strings over small alphabets up to the bound, each with every two-way split and every fixed chunk size of the delta, plus a fixed family of larger structured edits around the 4096-byte buffers; oracle is byte equality with the target. Larger unstructured inputs are not covered.",
    jobs=[c("c07", ["harness/c07_delta.c", "harness/pu.c"])],
    rule="one case per (origin, target, compression); evaluations count patch applications (one per feed split and buffer size); distinct counts different deltas",
    bounds=dict(quick="alphabet 2: origin<=4, target<=5; alphabet 3: origin<=2, target<=3; structured sizes up to 9000, some of 65535 to 300000, two of 13 and 14 MB", thorough="alphabet 2: <=7/<=7; alphabet 3: <=4/<=4; structured sizes up to 20000; four of 9 to 18 MB"),
    exhaustive=True,
)

SPECS["C06"] = dict(
    level="exploration",
    technique="exhaustive enumeration of part-kind sequences x origin variants through real transport encode and decode",
    note="All sequences of up to 3 (thorough: 4) parts from 17 kinds (every supported algorithm, content relation, exclusion, hash trees), four origin layouts, library and tool; the decoded file must equal the target byte for byte.",
    jobs=[c("c06", ["harness/c06_transport.c", "harness/pu.c"], tool=True)],
    rule="one case per (part kinds, origin variant, hash kind, front end); each is a complete encode, re-encode where listed, decode and verify",
    bounds=dict(quick="library: length 1-2 with 4 origin variants, length 3 with one; parts of up to 135000 bytes alone and with two other kinds; tool: length 1 x 4 variants, length 2", thorough="library length 4, tool length 3"),
)

SPECS["C15"] = dict(
    level="exploration",
    technique="exhaustive enumeration of identity / layout / part combinations against real transport encode and decode",
    note="All combinations of target identity present or not, origin identity absent, equal or differing in each byte, four metadata layouts on each side, part algorithm, lacking part and absent origin, through library and tool, for both encode and decode.",
    jobs=[c("c15", ["harness/c15_origin.c", "harness/pu.c"], tool=True)],
    rule="one case per combination; accepted exactly when the reference rule says so and then the output must equal the target",
    bounds=dict(quick="all library combinations (LZMA only with equal layouts); a quarter of the tool combinations", thorough="all"),
)

SPECS["C08"] = dict(
    level="exploration",
    technique="exhaustive enumeration of hostile control blocks and of all single corruptions of genuine deltas on the real patcher and decoder",
    note="All triples over 25 boundary values for a control block (with and without payload and a following block), every truncation, short extension, bit flip and boundary byte value of genuine deltas in three compressions; judged by an independent patch interpreter under ASan/UBSan. Multi-point corruptions are not covered.",
    jobs=[c("c08", ["harness/c08_hostile.c", "harness/pu.c"], ld=["-llzma"])],
    rule="one case per delta; evaluations count feeds (several chunkings and work-buffer sizes) and transport decodes; distinct counts different outcomes",
    bounds=dict(quick="25^3 control triples x 4 tails (none), half for heatshrink, a seventh for lzma; 4 pairs", thorough="all x 3 compressions; 5 pairs"),
)

SPECS["C13"] = dict(
    level="fault_enumeration",
    technique="enumeration of every interruption, torn write, callback error and short transfer of the real transport decoder",
    note="Every callback operation of five package layouts is the fault point, with crash / error / short transfer, several torn prefixes of each write and five initial output contents; each result is judged by the real verifier and then decoded again. Double faults are covered on a grid.",
    jobs=[c("c13", ["harness/c13_interrupt.c", "harness/pu.c"], ld=[])],
    rule="one case per (layout, initial output content, operation, fault kind); evaluations count outputs judged; distinct counts different output images",
    bounds=dict(quick="5 layouts x 5 initial contents x every operation x 3 fault kinds x 3+ torn prefixes; header tears every 24-136 bytes; double crashes on a ~40x40 grid",
                thorough="torn prefixes every 8 bytes, header tears every byte; double crashes on a 300x300 grid"),
)

SPECS["C09"] = dict(
    level="exploration",
    technique="exhaustive enumeration of data sizes, chunkings and salts against an independent hash-tree construction",
    note="Every block count up to the bound through all level boundaries reachable in memory (3 levels), every two-way split, every salt length; 4-level trees are checked for geometry only. Trees stored by library and tool are compared byte for byte.",
    jobs=[c("c09", ["harness/c09_merkle.c", "harness/pu.c"], tool=True)],
    rule="one case per (size, chunking, salt length, zero-fill, front end); each compares the whole tree and root with the reference; distinct counts different (size, root)",
    bounds=dict(quick="1..135 blocks plus 255-257 and 16383-16513 blocks; geometry of 1..20000 blocks and around every power of two to 2^39 blocks; every failing tree operation for 4 sizes", thorough="1..300 blocks with all chunkings; geometry to 70000 blocks"),
)

SPECS["C10"] = dict(
    level="exploration",
    technique="exhaustive enumeration of single-bit and structural tamperings of hash-tree protected packages on the real verifier",
    note="Every bit of protected parts, trees, root hashes and salts of eight layouts, plus truncations, block swaps and missing pieces. Collision resistance of SHA-256 is assumed.",
    jobs=[c("c10", ["harness/c10_tree.c", "harness/pu.c"], tool=True)],
    rule="one case per tampering; evaluations count verifications by the real code; distinct counts outcome codes",
    bounds=dict(quick="8 layouts; all bits of parts up to 4608 bytes, every third bit of larger ones, every 7919th of the 129-block one; each changed hash or block x each read coming back short in 5 ways; root hashes with a zero at each of 32 positions, every other byte value after and before it", thorough="all bits except the 129-block layout (every 997th)"),
)

SPECS["C17"] = dict(
    level="exploration",
    technique="exhaustive enumeration of short names, CRC splits and of all 2^32 identifiers against a bitwise CRC-32",
    note="All names up to 2 bytes (3 in thorough), all CRC splits up to the bound, every 32-bit identifier through bpak_id_to_string, every slot pair for tree lookup.",
    jobs=[c("c17", ["harness/c17_ids.c", "harness/pu.c"], tool=True)],
    rule="one case per group of names / split family / identifier block; distinct counts identifiers that have a printed name",
    bounds=dict(quick="names to 2 bytes plus 1/17 of 3-byte names; lengths to 600 for 8 patterns; CRC splits to 160 bytes; all 2^32 identifiers", thorough="all 3-byte names; CRC splits to 400 bytes"),
)

SPECS["C24"] = dict(
    level="exploration",
    technique="exhaustive enumeration of value sizes x buffer sizes x entry positions on the real rendering functions",
    note="Every combination of entry kind, entry size, buffer size and position (including the end of the metadata area), run with two different surroundings so that any dependence on bytes outside the entry shows; ASan-exact buffers.",
    jobs=[c("c24", ["harness/c24_text.c", "harness/pu.c"], tool=True)],
    rule="one case per (kind, entry size, buffer size); distinct counts different (text, result) pairs",
    bounds=dict(quick="hex 0..70 x 0..146; uuid 0..60; entries 0..40 (version 0..140) x buffers 0..80 (0..145), thinned", thorough="all combinations"),
)

SPECS["C11"] = dict(
    level="exploration",
    technique="exhaustive enumeration of short strings, splits and token streams on the real encoder/decoder against a reference decoder",
    note="All strings over small alphabets up to the bound with every split, periodic content across window/look-ahead/buffer boundaries, all short arbitrary streams and token sequences; an independent bit-level decoder is the oracle.",
    jobs=[c("c11", ["harness/c11_heatshrink.c", "harness/pu.c"])],
    rule="one case per input; evaluations count encodes/decodes compared; distinct counts different compressed streams",
    bounds=dict(quick="alphabet 2 to 12, 3 to 7, 4 to 5 with all splits; periods 1-300 x lengths to 1100; arbitrary streams: all 2 bytes, 1/32 of 3 bytes, token sequences of 2", thorough="alphabet 2 to 16, 3 to 10, 4 to 8; all 3-byte streams; token sequences of 3"),
)

SPECS["C05"] = dict(
    level="exploration",
    technique="exhaustive enumeration of part sequences, histories, buffer sizes and read faults against an independent digest",
    note="All sequences of up to two parts from 40 kinds (size x excluded x encoded) for each hash kind, a fixed slice of three-part sequences, five ways of building the same content, three read-chunk sizes compiled into the library; every digest recomputed with mbedtls over independently assembled bytes.",
    jobs=[c("c05", ["harness/c05_hash.c", "harness/pu.c"], tool=True),
          c("c05c61", ["harness/c05_hash.c", "harness/pu.c"], variant="san-c61", cflags=["-DBPAK_CHUNK_BUFFER_LENGTH=61"]),
          c("c05c64k", ["harness/c05_hash.c", "harness/pu.c"], variant="san-c64k", cflags=["-DBPAK_CHUNK_BUFFER_LENGTH=65536"])],
    rule="one case per (part sequence or history, hash kind, front end, signature state); distinct counts different header digests",
    bounds=dict(quick="lengths 0-2 complete, length 3: 1/35; tool and history cases thinned", thorough="length 3 complete; all tool and history cases"),
    assumptions=["SHA-2 of mbedtls is correct"],
)

SPECS["C12"] = dict(
    level="fault_enumeration",
    technique="exhaustive enumeration of header field values, byte values, truncations and non-archives through every library and tool operation",
    rule="one case per mutated file; evaluations count (file, operation) pairs, all of which must end with an ordinary exit; distinct counts (operation, exit code)",
    note="Every boundary value of every field of every used table slot, field pairs, table holes, every header byte with several values, truncation at every length in steps, and non-archives, for three archives; each through header functions, file API and 32 tool command lines in a child with CPU and file size limits under ASan/UBSan. Values and combinations outside the lists are not covered.",
    jobs=[c("c12", ["harness/c12_malformed.c", "harness/pu.c"], tool=True)],
    bounds=dict(quick="3 archives: ~6000 structured header mutations with all operations, 6 values of every header byte through the header and file API, every 7th truncation length (all near block boundaries), 72 non-archives",
                thorough="13 values of every header byte through the tool as well, rejected headers through every operation, all lengths up to 4200"),
)

SPECS["C16"] = dict(
    level="exploration",
    technique="enumeration of refused and read-only operations over archive states on the real library and tool, with byte comparison of the file",
    rule="one case per (archive state, group of commands) for the tool and per (state, up to three refused library operations, following valid operation); every execution compares the whole archive file; distinct counts (operation, result)",
    note="Every listed refused operation in 13 archive states through the tool; through the library also every ordered pair (triple in thorough) of refused operations on one open handle followed by each of 8 valid operations, whose result must equal that of the valid operation alone. Arguments outside the list are not covered; I/O errors are C14.",
    jobs=[c("c16", ["harness/c16_refused.c", "harness/pu.c"], tool=True)],
    bounds=dict(quick="about 110 refused and 27 read-only command lines (14 answers to the overwrite question) x 14 states; 33 library operations: all pairs x 8 followers x 11 states", thorough="all triples"),
)

SPECS["C22"] = dict(
    level="exploration",
    technique="exhaustive exploration of sign / external sign / change histories and of all signature sizes on the real library and tool against an independent signature verifier",
    rule="one case per history of operations, signature size or (hash, signature kind, key, format); every execution compares the whole archive and checks the signature with mbedtls; distinct counts signatures stored",
    note="All operation sequences up to the depth over 19 operations (5 keys signed by the tool, 5 signed externally over the exported hash, library variants, 5 modifications) for each hash kind; all raw signature sizes 0..620 and selected larger ones over three earlier signatures; all create options x keys x key formats. Keys are fixed; the correctness of the mbedtls primitives is assumed.",
    jobs=[c("c22", ["harness/c22_sign.c", "harness/pu.c"], tool=True)],
    bounds=dict(quick="depth 3 (RSA only at depth 1 and 2)", thorough="depth 4 (RSA up to depth 3)"),
)

SPECS["C25"] = dict(
    level="exploration",
    technique="exhaustive enumeration of key files, formats, truncations and byte mutations through the real loaders against mbedtls used independently",
    rule="one case per key file, truncation length or (byte, value); every load is compared with the key mbedtls finds in the file; distinct counts result codes",
    note="Eight supported keys in all PEM/DER/PKCS#8/PKCS#1 forms, all private x public pairs x hash kinds, 22 unsupported key files, non-files, every truncation and every byte with several values of 20 key files (RSA private keys thinned in quick), and 4096 bit keys of every encoded length up to 1024 bytes. The oracle is mbedtls' own parser plus the list of supported kinds, so a parser flaw inside mbedtls is outside.",
    jobs=[c("c25", ["harness/c25_keys.c", "harness/pu.c"], tool=True)],
    bounds=dict(quick="4 values per byte; RSA private keys: every 17th byte and every 13th length", thorough="9 values per byte (3 for RSA private keys), all lengths"),
)

SPECS["C18"] = dict(
    level="exploration",
    technique="exhaustive enumeration of package pairs over small universes of metadata and parts, compare output parsed and matched with an independent comparison",
    rule="one case per ordered pair of packages; distinct counts different row sets",
    note="All ordered pairs within four universes (144 metadata sets, 144 part sets, 64 presence sets, 8 full tables), plus one differing byte at every position of parts and metadata of several sizes, at the last 17 positions of encoded parts of 1 to 40 bytes, and along 300 kB of zeroes.",
    jobs=[c("c18", ["harness/c18_compare.c", "harness/pu.c"], tool=True)],
    bounds=dict(quick="two ninths of the pairs left out; large parts every 11th position plus block boundaries", thorough="all pairs and positions"),
)

SPECS["C19"] = dict(
    level="exploration",
    technique="exhaustive exploration of add/set command sequences and of value and length ranges on the real tool against a model of the metadata table",
    rule="one case per command sequence or value; after every command the whole archive is compared with the model and the entry read back with extract; distinct counts (result, expected outcome)",
    note="All sequences up to the depth over 66 commands in four archive states; every string and file length up to 1925 (thinned in quick), integers around zero and all powers of two in four notations, uuid texts with every position changed. Integers above 2^63-1, surrounding blanks and values on the edge of the metadata area may be refused or stored exactly.",
    jobs=[c("c19", ["harness/c19_values.c", "harness/pu.c"], tool=True)],
    bounds=dict(quick="depth 2", thorough="depth 3; all lengths; integers to 70000"),
)

SPECS["C20"] = dict(
    level="exploration",
    technique="exhaustive enumeration of keystores, lookups, damage and verification set-ups on the real loader; generated source is compiled, loaded and compared",
    rule="one case per keystore content, damage or (signer, named key, provider); evaluations count lookups checked; distinct counts result codes",
    note="All key sequences up to the bound from eight keys in two encodings with every id looked up, every bit (three bits per byte in quick) of stored keys, every truncation, size field and provider-id size, all 256 in-memory id assignments, all signer x named-key combinations through verify --keystore.",
    jobs=[c("c20", ["harness/c20_keystore.c", "harness/pu.c"], tool=True, ld=["-ldl"])],
    bounds=dict(quick="sequences up to 3 keys (plus 16 longer ones)", thorough="sequences up to 4 keys, all bits, every sequence generated and compiled"),
)

SPECS["C14"] = dict(
    level="fault_enumeration",
    technique="exhaustive single-fault (and pairwise) enumeration over the file operations of every command and library call, executed on the real code behind interposed stdio streams",
    rule="one case per (scenario, fault point, fault mode) plus pairs of early fault points; every execution compares exit status with the complete resulting file and output; distinct counts (scenario, result)",
    note="Fault points are the open, read, write, seek, close, truncate, map and stat operations beneath stdio and on its descriptors (buffering is glibc's own). Modes: fails once, fails from there on, transfers half and then fails, file ends early; a failing close loses the last write. A file that turns out empty or a shorter text input is not a failure.",
    jobs=[c("c14", ["harness/c14_iofault.c", "harness/scen.c", "harness/pu.c"], tool=True, ld=["-ldl"])],
    bounds=dict(quick="all single faults of 70 scenarios; pairs among the first 24 operations", thorough="pairs among the first 400 operations"),
)

SPECS["C21"] = dict(
    level="fault_enumeration",
    technique="enumeration of every failing heap allocation of every command and library call, executed on the real code with the heap functions supplied by the harness",
    rule="one case per (scenario, allocation, fails once / from there on); every execution checks the heap balance, double and mismatched releases, writes to released memory, and that a reported success is the complete one; distinct counts (scenario, result)",
    note="All heap blocks of the code and of the libraries it calls (mbedtls, lzma, libc) are seen and refused. The scenarios include refused and failing operations (bad keys, damaged and truncated deltas, wrong origins), whose balance is checked as well. Crypto operations make thousands of allocations: there the first and last and a stride in between are refused.",
    jobs=[c("c21", ["harness/c21_memory.c", "harness/scen.c", "harness/pu.c"], tool=True, variant="plain"),
          c("c21s", ["harness/c21_memory.c", "harness/scen.c", "harness/pu.c"], tool=True, variant="san-c21", cflags=["-DC21_SAN"]),
          c("c21io", ["harness/c14_iofault.c", "harness/scen.c", "harness/pu.c"], tool=True, cflags=["-DC14_HEAP"], ld=["-ldl"])],
    bounds=dict(quick="about 150 scenarios; up to 400 + 300 refused allocations per scenario, all where there are fewer; pairs among the first 40; every failing file operation of every scenario, pairs among the first 12", thorough="up to 6000 + 20000 per scenario; pairs among the first 400; file operations: pairs among the first 60"),
)

SPECS["C26"] = dict(
    level="fault_enumeration",
    technique="enumeration of every failing backend call of every command and library call, with a substitute heap-backed hash and crypto backend under the real code",
    rule="one case per (scenario, backend call, fails once / from there on / error with a positive verdict) plus missing backends; every execution checks the life cycle of all hash contexts, the exit status and the complete result; distinct counts (scenario, result, call kind)",
    note="The backend keeps its state on the heap as a hardware or OpenSSL backend would. Runs of identical single-byte hash updates are thinned by a stride; initialisations, finals and crypto calls are all fault points.",
    jobs=[c("c26", ["harness/c26_backend.c", "harness/scen.c", "harness/pu.c"], tool=True)],
    bounds=dict(quick="about 150 scenarios; every init, final and crypto call, 84 of the hash updates inside long runs", thorough="all up to 28000 calls per scenario"),
)

SPECS["C23"] = dict(
    level="model_checking",
    technique="exhaustive exploration of API call sequences on the real extension module (built with ASan and UBSan), every step compared with a byte-level archive model and with the real tool doing the equivalent",
    rule="one case per call sequence (or per argument, damaged header, refused write, transport step sequence, log-function action); every state compares all reported values of the package and of live and stale handles with the archive bytes; transitions count API calls; states counts different archives with their handles",
    note="The interpreter is the installed CPython; garbage collection and threads are not scheduled. Values the wrapper may either accept or refuse (unsupported hash kinds, data positions beyond 2^63) are not compared.",
    jobs=[dict(kind="py", module="pyjob", name="c23", src="py/c23_python.py")],
    bounds=dict(quick="about 110 operations; 20000 calls with arguments of every kind, each repeated 126 times; 85 cycles of calls in five states of the package; all sequences of length 2 from four archives in three modes, core sequences of length 3", thorough="all sequences of length 3, core sequences of length 4"),
)

SPECS["C28"] = dict(
    level="model_checking",
    technique="stateless exploration of the schedules of two threads on the real library under a controlled scheduler, preemption bounded, switching at basic-block granularity, plus all interleavings of API calls",
    rule="one case per schedule; states count different (operations, switch points); transitions count scheduled runs; evaluations count operation results compared with the result of the operation alone; distinct counts result pairs",
    note="Seventeen operations in two data variants (header and metadata, hashing, hash tree, bsdiff and bspatch in three compressions, heatshrink, verification, streaming and file transport coding, archive modification, signing, keystore lookup) run as two threads of which exactly one executes at a time. Control passes at basic blocks of the library (compiled with trace-pc): the first and last executions of every distinct block. Blocks inside mbedtls, lzma and libc are not switch points; memory is sequentially consistent.",
    jobs=[c("c28", ["harness/c28_independent.c", "harness/pu.c"], variant="plain-cov", libflags=["-fsanitize-coverage=trace-pc"])],
    bounds=dict(quick="one preemption at the first and last execution of every block (all for the same operation twice, every second for different operations), two preemptions on a grid of 40 x 40 (6 x 6) points, API interleavings of pairs with up to 1000 (300) orders, every operation abandoned at every API call",
                thorough="one preemption at the first four and the last execution of every block for all pairs and variants, two on a grid of 400 x 400 (60 x 60), API interleavings up to 20000"),
)

SPECS["C27"] = dict(
    level="exploration",
    technique="exhaustive enumeration of a bounded family of archives and queries, the complete output of the real tool compared with an independent renderer",
    rule="one case per archive; states count different archives, transitions count tool runs, evaluations count listings and query answers compared in full, distinct counts different outputs",
    note="The complete standard output of `bpak show` (and -v) and of every query form is predicted from the archive by an independent renderer; hashes are computed with mbedtls directly. Nothing is searched for in the output: every byte must match.",
    jobs=[c("c27", ["harness/c27_show.c", "harness/pu.c"], tool=True)],
    bounds=dict(quick="every pair of 23 metadata entry kinds x 5 slot layouts x 3 reference patterns, every sequence of up to 3 of 12 part kinds, full 32/32 tables with each position in turn, hash x signature kinds x key ids, every byte of the recorded hash, content bytes of every part kind",
                thorough="triples of metadata kinds, queries on all, every bit of the recorded hash, every 61st content byte"),
)

SPECS["C29"] = dict(
    level="exploration",
    technique="exhaustive enumeration of header contents, archives and delta streams written by and read with the real code against byte positions and independent codecs",
    rule="one case per header content, archive or delta; states count different inputs, transitions count calls of the real code, evaluations count compared results, distinct counts different outputs",
    note="The byte layout is written down from the documentation; no structure of the library is used for the expected bytes. Headers with every table fill level and byte patterns in both directions; archives assembled by bytes with every hash and signature kind; every way of writing a short target as up to three control blocks, in every container (plain, four heatshrink tokenisations, nine xz variants); the library's own streams decoded by independent decoders. Little-endian hosts only.",
    jobs=[c("c29", ["harness/c29_format.c", "harness/pu.c"], tool=True)],
    bounds=dict(quick="12 byte patterns x 36 table fill levels x 3 hash kinds; 96 archives; origins and targets to 4 bytes in all block divisions; own deltas of all binary strings to 4/5 bytes; 500 structured pairs to 9000 bytes", thorough="40 patterns; strings to 5/6 bytes; every container of every structured pair"),
)

SPECS["C30"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of the spellings, orders and verbosities of command lines, each executed on the real tool and compared with the plain command",
    rule="one case per command line; exit status, archive, output file, every other file and standard output are compared with those of the plain command; states counts different command lines",
    note="The spellings are those of getopt_long: long, long with =, short, short with the value attached, grouped flags, and the end mark. Abbreviated long options and repeated options are not compared.",
    jobs=[c("c30", ["harness/c30_cmdline.c", "harness/pu.c"], tool=True)],
    bounds=dict(quick="51 commands and, per command, every selection of up to four options; every order of options and file names with every mixture of spellings; five verbosities, wrong options and help at every position; 6 changes at every letter of the command's name; every option listed in a help text", thorough="verbosities in every order"),
)

SPECS["C31"] = dict(
    level="model_checking",
    technique="bounded exploration of operation histories, transfers and streams whose sizes and offsets pass 2^31 and 2^32, on the real library and tool over sparse files and sparse callbacks, against a run-length model of the contents",
    rule="one case per (arrangement, size, operations), (origin offset, output offset, jumps) or payload; every execution compares the file (length, table, data, padding, holes, payload hash) or the callbacks' store with the model; states count different archives",
    note="Big parts are holes with marks at both ends and around the 2 and 4 GiB borders. A substitute hash takes runs of zeros in constant time and fwrite() of zeros into a hole keeps the hole, everything else is the real code. Deltas of big parts (they need several times their size in memory) are not made, only applied.",
    jobs=[c("c31", ["harness/c31_large.c", "harness/pu.c"], tool=True, variant="plain")],
    bounds=dict(quick="16 sizes 2^31-4096 .. 2^42+5 x 5 arrangements x 8 operations and a third of their pairs; 11 histories that copy or read more than 2 GiB; 12 changes in the far part; deltas over 10 x 10 x 10 x 10 offsets; deltas with more than 4 GiB of output; compressed deltas of 18 stored sizes beyond 2 GiB, first 9,000 bytes; hash trees generated behind and over parts of each size; all part tables and tree sizes",
                thorough="all pairs; 17 histories that copy; payloads read through callbacks at nine offsets"),
)

SPECS["C32"] = dict(
    level="fault_enumeration",
    technique="enumeration of every point between two system calls of every operation as the point where the process is killed, with operations continued from each archive left behind, on the real tool and library",
    rule="one case per (archive, operations); every content the archive file has after any system call, and every prefix of a data write, is judged and is the start of the next operation; states count different contents left behind",
    note="The operation runs in a traced child, the file is read after each system call. A block written over the header is taken to arrive whole or not at all; what a power failure does to blocks that were written but not yet on the disk is not covered (the code asks for no flush to the disk).",
    jobs=[c("c32", ["harness/c32_crash.c", "harness/pu.c"], tool=True, variant="plain")],
    bounds=dict(quick="4 archives x all pairs of 27 operations (21 commands, 6 sessions on one package object), the second from every archive a kill in the first leaves; 2 bigger operations; transport coding with 4 sets of algorithms over 3 old outputs", thorough="all triples"),
)
