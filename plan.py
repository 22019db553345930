"""What each check runs: used by check.py and mkmanifest.py.

quick   - cases per build flavour (checked, bare) in the quick tier
rule    - how cases are made, and what makes one count as distinct and non-trivial
monitor - a few words for MANIFEST.json's technique
note    - MANIFEST.json's level_note
need    - what a run must have observed (counters of the harness); fewer is no verdict
"""

COMMON = ("Held on the executions of this run only: the library's current source, built with and without overflow "
          "checks, single deterministic seed. Trusts the reference model in mon/src/model.rs and rustc. ")

P = {}


def prop(pid, quick, rule, monitor, note, need, level="exploration", stages=()):
    P[pid] = dict(quick=quick, rule=rule, monitor=monitor, note=COMMON + note, need=need, level=level, stages=list(stages))


prop("C01", 400000,
     "Each case takes 100 u64 values (every width boundary +-40 first, then boundary-heavy random) through every ILInt encode and decode "
     "entry point, with random trailing bytes; distinct by value.",
     "reference-model monitor of ILInt encode/decode under generated workloads",
     "Widths and boundaries are covered completely, the 2^64 values in between by sampling.",
     ["values"])
prop("C02", 60000,
     "Each case takes 60 byte strings (all of length <= 2, the overflow boundary, truncations, flips, padded forms) through every ILInt "
     "decode entry point; distinct by bytes, non-trivial when not empty.",
     "accept/refuse oracle over ILInt decoders under generated and enumerated byte strings",
     "Strings of up to two bytes are enumerated, longer ones sampled.",
     ["accepted", "refused"])
prop("C03", 600000,
     "Each case takes 100 i64/u64 values through the signed mapping and every signed entry point; distinct by value.",
     "reference-model monitor of the signed ILInt mapping",
     "Boundary values are enumerated, the rest sampled.",
     ["values"])
prop("C04", 100000,
     "Each case writes and reads back values of the ten fixed-width types, strings and byte arrays through every equivalent interface and "
     "feeds invalid UTF-8; distinct by value and type.",
     "bit-exact differential monitor across all typed read/write interfaces",
     "Values are sampled with emphasis on NaN payloads, sign bits, boundary and invalid UTF-8.",
     [])
prop("C05", 40000,
     "Each case builds a tag tree (all standard kinds, raw tags, custom payloads, chains to depth 200, wide nodes, payloads around every "
     "size boundary), serializes it, decodes it by several routes and compares every value; distinct by encoding.",
     "round-trip monitor over generated tag trees with structural observation",
     "Trees are sampled; nesting is relied on to 200 levels.",
     [])
prop("C06", 60000,
     "Each case sizes a tree at every node against the bytes written, between random changes to values; distinct by encoding.",
     "size-conservation monitor (announced against written bytes) over mutation histories",
     "Trees and histories are sampled.",
     [])
prop("C07", 80000,
     "Each case compares the bytes of a generated tree, through every way of writing it, with an independent encoder; distinct by encoding.",
     "differential monitor against an independent wire-format encoder",
     "The encoder in mon/src/model.rs was written from the format description and the documented layouts.",
     [])
prop("C08", 1600,
     "Each case feeds byte strings (enumerated short ones, mutated, structurally tweaked, padded, noise) to every decoding route and compares "
     "verdict and content with an independent decoder; distinct by bytes.",
     "differential monitor against an independent reference decoder on hostile inputs",
     "All strings of up to two bytes (and selected three-byte ones) are enumerated, longer ones sampled.",
     [])
prop("C09", 1400,
     "Each case feeds hostile bytes (damaged messages, nesting to 100,000, extreme sizes and counts, noise, one target decoded into again and "
     "again) to every byte-consuming entry point on a 2 MiB stack; the process must survive within its CPU and memory caps; distinct by bytes.",
     "crash/overflow/stack/hang monitor on hostile inputs in checked and release builds",
     "A hang is a case that twice exceeds a generous CPU limit; memory beyond 3 GiB aborts the worker.",
     [])
prop("C10", 1500,
     "Each case decodes a message with hostile sizes and counts under a counting allocator and bounds the peak by the input and the one size "
     "being read; distinct by bytes.",
     "allocation monitor (counting allocator) on hostile declared sizes",
     "The bound is 64 x input + declared size + slack: growth by a factor within that multiple is not seen.",
     [])
prop("C11", 1800,
     "Each case builds chains and trees of depth up to 200 of every container and counts payload callbacks, source bytes requested and "
     "allocations against polynomial bounds; distinct by shape.",
     "logical work counters over deep generated trees",
     "Bounds are on counted steps, never wall-clock time.",
     [])
prop("C12", 80000,
     "Each case decodes a sequence of tags with trailing data from every kind of source and checks the position after each; distinct by bytes.",
     "stream-position monitor over tag sequences",
     "Sequences are sampled.",
     [])
prop("C13", 4500,
     "Each case cuts a message at every byte (sampled when long) and decodes the prefix by several routes, into an existing tag, and inside "
     "correctly sized parents; distinct by message.",
     "truncation monitor at every cut point of generated messages",
     "Every cut of messages up to 120 bytes, sampled cuts of longer ones.",
     [])
prop("C14", 16000,
     "Each case runs a random history of reads, skips and limits on nested limited views over every reader and compares each step with a "
     "model; distinct by history.",
     "model-based history monitor of limited views",
     "Histories are sampled.",
     [])
prop("C15", 36000,
     "Each case runs a history of dictionary operations against an ordered model and compares content, lookups and bytes for permuted "
     "insertion orders; distinct by history.",
     "model-based history monitor of dictionary tags",
     "Histories are sampled, up to about a thousand entries.",
     [])
prop("C16", 180000,
     "Each case runs a history of register/deregister on a factory and after each step probes creation and decoding of many ids; distinct by "
     "history and id.",
     "model-based history monitor of factory registration",
     "Histories are sampled.",
     [])
prop("C17", 16000,
     "Each case decodes a sequence of messages (valid, damaged, of other ids) into one tag and compares it with a fresh decode; distinct by "
     "history.",
     "differential monitor: decode into a used tag against a fresh decode",
     "Histories are sampled.",
     [])
prop("C18", 80000,
     "Each case compares and clones generated trees, trees with one bit changed and trees of other types, and changes clone and original "
     "independently; distinct by pair.",
     "equality/clone oracle over generated tree pairs",
     "Pairs are sampled.",
     [])
prop("C19", 110000,
     "Each case runs a random history of reads, skips and repositioning on every memory reader against a model; distinct by history.",
     "model-based history monitor of memory readers",
     "Histories are sampled.",
     [])
prop("C20", 120000,
     "Each case runs a random history of writes, repositioning and read-only toggles on every memory writer against a model; distinct by "
     "history.",
     "model-based history monitor of memory writers",
     "Histories are sampled.",
     [])
prop("C21", 9000,
     "Each case decodes or scans the same bytes from every source adapter under random fragmentation and interruption and compares results; "
     "distinct by bytes and schedule.",
     "differential monitor across sources with fragmentation and interruption injected",
     "Fragmentation patterns are sampled.",
     [])
prop("C22", 24000,
     "Each case serializes a tree to every destination adapter with a failure injected at every byte or call position (sampled when long), and "
     "with short and interrupted writes; distinct by message.",
     "write-fault injection at every position with a delivered-prefix oracle",
     "Every fault position of short messages, sampled positions of long ones; single faults, persistent or transient.",
     [], level="fault_enumeration")
prop("C23", 14000,
     "Each case decodes a message with a read failure injected at every byte, request or seek (sampled when long) on every source adapter, and "
     "looks for the injected error in the reported one; distinct by message.",
     "read-fault injection at every position with an error-identity oracle",
     "Every fault position of short messages, sampled positions of long ones; single faults, persistent or transient.",
     [], level="fault_enumeration")
prop("C24", 150000,
     "Each case scans tag sequences, damaged sequences and virtual sources of up to 2^64 bytes and compares every location with a model; "
     "distinct by bytes.",
     "differential monitor of the raw scanner against a reference scanner",
     "Sequences are sampled; huge tags are simulated by a virtual source.",
     [])
prop("C25", 70000,
     "Each case skips by boundary-heavy counts at random positions of every reader and compares position and next byte with reading; distinct "
     "by history.",
     "differential monitor: skip against read-and-discard",
     "Counts and positions are sampled with emphasis on chunk sizes and u64 extremes.",
     [])
prop("C26", 500,
     "Each case lets 2-8 threads decode, serialize, compare and clone with one factory and shared tags, with yields injected in payload "
     "callbacks and sources that fail, stall or panic, and compares every result with the sequential one; distinct by shared workload. "
     "The same workload runs under ThreadSanitizer.",
     "stress monitor of shared factories and tags; ThreadSanitizer",
     "Interleavings are those the scheduler and the injected yields produced; ThreadSanitizer sees the instrumented standard library.",
     [], stages=["tsan"])
prop("C27", 180000,
     "Each case places payloads that read exactly, less or more than declared at any id and nesting position and watches the bytes they see; "
     "distinct by message.",
     "boundary monitor inside custom payloads",
     "Payload behaviours and positions are sampled.",
     [])
prop("C28", 250000,
     "Each case tries every checked access with every type on a tag of every kind and random ids; distinct by tag and access.",
     "exhaustive type-pair monitor of checked downcasts with sampled ids",
     "All (requested, held) type pairs are enumerated; ids are sampled.",
     [])
prop("C29", 180000,
     "Each case runs a history of setters, in-place changes and decodes on a tag of every kind and compares accessors and bytes with a fresh "
     "tag; distinct by history.",
     "model-based history monitor of tag mutation",
     "Histories are sampled.",
     [])
prop("C30", 1400,
     "Each case declares sizes around the limit and elsewhere, at top level, nested and in dictionaries, for every explicit tag kind, and some "
     "deliver the full 512 MiB; distinct by message header.",
     "limit oracle at the exact boundary with an allocation monitor",
     "Full-size values are few per run; the refusal boundary is covered for every kind.",
     [])
prop("C31", 2500,
     "Each case decodes hostile bytes three times over differently poisoned memory and repeats another monitor's case under a leak-counting "
     "allocator; further stages run the monitors under AddressSanitizer with LeakSanitizer and under Miri; distinct by bytes or case.",
     "Miri, AddressSanitizer/LeakSanitizer and a poisoning, leak-counting allocator",
     "A clean sanitizer run is no proof of memory safety; Miri interprets reduced workloads.",
     [], stages=["miri", "asan"])
prop("C32", 38000,
     "Each case injects exactly one defect at a random nesting position and checks the error class by every decoding entry point; distinct by "
     "message.",
     "error-class oracle over single injected defects",
     "Defects and positions are sampled.",
     [])
