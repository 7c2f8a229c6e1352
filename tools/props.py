"""How each property is run: harness, builds, and the events that must be seen."""

ASSUMPTIONS = [
    "Decides the executions that were produced, listed under coverage; nothing is claimed about inputs or schedules that were not run.",
    "Trusted: the Go 1.27 toolchain and runtime, the harness's reference models, and the monitors themselves.",
]


def plain(shards=8, scale=1.0, **kw):
    return dict(shards=shards, scale=scale, **kw)


PROPS = {
    "C01": dict(harness="coll", variants={"plain": plain()}, need=["put", "remove", "get", "unusable"]),
    "C02": dict(harness="coll", variants={"plain": plain()}, need=["range", "iterate", "next", "peek", "hasnext", "exhausted-next"]),
    "C03": dict(harness="coll", variants={"plain": plain()}, need=["comparison", "counted-get", "counted-put", "counted-remove", "iterate"]),
    "C04": dict(harness="coll", variants={"plain": plain()}, need=["put", "remove", "get", "replace", "unusable"]),
    "C05": dict(harness="coll", variants={"plain": plain()}, need=["iterate", "hasnext", "next", "peek", "iterate-empty"]),
    "C06": dict(harness="coll", variants={"plain": plain()}, need=["shared", "pair", "foreign", "nothing"]),
    "C07": dict(harness="coll", variants={"plain": plain(), "asan": plain(4, 0.3), "checkptr": plain(4, 0.3)}, need=["shared", "murmur", "hashed-guarded", "pair"]),
    "C08": dict(harness="coll", variants={"plain": plain()}, need=["conversion", "truncation"]),
    "C09": dict(harness="coll", variants={"plain": plain()}, need=["equality-call", "hash-call", "rehash", "oscillation", "judged"]),
    "C10": dict(harness="coll", variants={"plain": plain()}, need=["extreme", "absent", "present"]),
    "C11": dict(harness="coll", variants={"plain": plain()}, need=["put", "remove", "released", "judged"]),
    "U01": dict(harness="util", variants={"plain": plain(8, 3)}, need=["reused", "add", "held", "encode", "decode", "refused"]),
    "U02": dict(harness="util", variants={"plain": plain(8, 2)}, need=["form-parts", "pair", "triple", "equal", "unequal", "lookup", "form-decoded", "form-copy"]),
    "U03": dict(harness="util", variants={"plain": plain(8, 2)}, need=["reused", "append", "delete", "held", "encode", "decode", "element", "record-element", "refused"]),
    "U04": dict(harness="util", variants={"plain": plain(8, 3)}, need=["reused", "set-key", "set-value", "set-scheme", "set-timestamp", "set-signature", "held", "encode", "decode", "refused"]),
    "U05": dict(harness="util", variants={"plain": plain(8, 3)}, need=["reused", "held", "encode", "decode", "refused"]),
    "U06": dict(harness="util", variants={"plain": plain(8, 3)}, need=["reused", "varint", "uvarint", "varchar", "truncated", "foreign"]),
    "U07": dict(harness="util", variants={"plain": plain(8, 2), "asan": plain(8, 0.3), "checkptr": plain(4, 0.2)}, need=["accepted", "refused", "walked", "accepted-trie", "accepted-hash-table", "accepted-record"]),
    "U08": dict(harness="util", variants={"plain": plain(8, 1), "asan": plain(8, 0.2)}, need=["cut", "unsigned", "reused", "guarded", "suffix", "plain"]),
    "U09": dict(harness="util", variants={"plain": plain()}, need=["copied", "byte-changed", "modified", "unaffected", "copied-trie", "copied-record", "copied-value", "copied-scheme", "copied-key", "wide", "copied-consensus-id"]),
    "U10": dict(harness="util", variants={"plain": plain(8, 3)}, need=["reused", "built", "present", "absent"]),
    "U11": dict(harness="util", variants={"plain": plain(8, 3)}, need=["reused", "pair", "sorted", "foreign", "truncated", "unknown", "decode"]),
    "U12": dict(harness="util", variants={"plain": plain(8, 3)}, need=["reused", "valid", "invalid"]),
    "U13": dict(harness="util", variants={"plain": plain(8, 3)}, need=["encode", "decode", "invalid"]),
    "U14": dict(harness="crypto", variants={"plain": plain()}, overlay=True, need=["key-generated", "verified", "forgery", "rebuilt-public", "rebuilt-private", "coordinate", "digest", "short-coordinate"]),
    "U15": dict(harness="crypto", variants={"plain": plain()}, overlay=True, need=["save", "loaded", "damaged", "truncated", "byte-changed", "forged", "wrong-secret", "malformed-secret", "replaced", "write-failed", "in-the-way", "blocked", "prompted", "file-judged"]),
    "U16": dict(harness="crypto", variants={"plain": plain()}, overlay=True, tool=("pkeygen", ["pkeygen.go"]), need=["tool-run", "key-judged", "alias-judged", "refused", "tool-mismatch", "tool-short", "tool-class", "tool-refused", "tool-interrupted", "alias-is-key", "write-failed"]),
    "U17": dict(harness="util", variants={"plain": plain(8, 2)}, need=["drawn", "full", "small-range", "wide-range", "lag", "bit-pair"]),
    "U18": dict(harness="util", variants={"plain": plain(8, 2)}, need=["set", "replace", "clear", "clear-missing", "get", "absent", "encode"]),
    "U19": dict(harness="util", variants={"plain": plain()}, need=["iterate", "key-iterate", "range", "next", "peek", "hasnext", "exhausted", "yielded", "valueless"]),
    "U20": dict(harness="util", variants={"plain": plain()}, need=["foreign", "reused", "held", "encode", "decode", "truncated", "refused", "yielded", "get"]),
    "U21": dict(harness="util", width=4, variants={"plain": plain(4, 1, procs=4), "race": plain(4, 0.4, procs=4)}, need=["walked", "element-raced", "copy-raced", "read-raced", "map-read", "table-read", "independent", "decoded-concurrently", "switch", "interleaved"]),
    "U22": dict(harness="util", variants={"plain": plain()}, need=["foreign", "encode", "compared", "detour", "filled-later"]),
    "U23": dict(harness="util", variants={"plain": plain()}, need=["put-again", "printed", "claimed-encoded", "claimed-unencoded", "encoded", "decoded", "refused", "magic"]),
    "U24": dict(harness="util", variants={"plain": plain()}, need=["set", "clear", "released", "judged"]),
    "U25": dict(harness="crypto", variants={"plain": plain()}, overlay=True, need=["set", "line", "long-line", "unopenable", "concurrent-lines", "written", "unopenable-file", "padded"]),
    "U26": dict(harness="util", variants={"plain": plain()}, need=["node-judged", "child-put", "child-replaced", "child-removed", "child-back", "child-missing", "remove-missing", "copied", "copy-changed", "iterated", "decoded"]),
    "U27": dict(harness="util", variants={"plain": plain(6)}, need=["measured", "runs"]),
}

MODEL = "runtime monitoring: the real code runs under generated histories while an online oracle (reference model) judges every call"
TECH = {
    "C01": MODEL + " against a finite map",
    "C02": MODEL + " of iterators against the sorted model",
    "C03": "runtime monitoring: comparison counters in caller-supplied keys, judged per operation against the balanced-tree bound under adversarial histories",
    "C04": MODEL + " against a finite map, with hostile hash distributions and parameters",
    "C05": MODEL + " of iterators against the model",
    "C06": "runtime monitoring: reference-order oracle over exhaustive small and random large values",
    "C07": "runtime monitoring with AddressSanitizer, checkptr, guard pages and write-protected memory, plus a reference-hash oracle",
    "C08": "runtime monitoring: round-trip and byte-form oracle over extreme and random values",
    "C09": "runtime monitoring: equality/hash call counters in caller-supplied keys, averaged per phase, with an adversary oscillating around every observed rehash",
    "C10": "runtime monitoring: reference oracle on every pair of corner values of every number type, and on present and absent values of every kind",
    "C11": "runtime monitoring: weak pointers on everything put into a collection and heap measurements along histories of filling and draining",
    "U01": MODEL + " holding the intended content; every encoding is decoded by the real decoder, alone and followed by other bytes, and walked through every accessor; snapshots of all bytes that were given out or decoded, compared at the end of the case",
    "U02": "runtime monitoring: reference-order and reference-equality oracle over every representation of the same keys, and lookups through the real maps, tries and tables",
    "U03": MODEL + " holding the intended content; every encoding is decoded by the real decoder, alone and followed by other bytes, and walked through every accessor; snapshots of all bytes that were given out or decoded, compared at the end of the case",
    "U04": MODEL + " holding the intended content; every encoding is decoded by the real decoder, alone and followed by other bytes, and walked through every accessor; snapshots of all bytes that were given out or decoded, compared at the end of the case",
    "U05": MODEL + " holding the intended content; every encoding is decoded by the real decoder, alone and followed by other bytes, and walked through every accessor; snapshots of all bytes that were given out or decoded, compared at the end of the case",
    "U06": MODEL + " holding the intended content; every encoding is decoded by the real decoder, alone and followed by other bytes, and walked through every accessor",
    "U07": "runtime monitoring: panic, CPU, allocation and consumed-length monitors over hostile bytes (mutated valid encodings, grammar-built frames, random), plain and with AddressSanitizer and checkptr",
    "U08": "runtime monitoring with guard pages and write-protected memory around every decoded buffer, AddressSanitizer, and a suffix-independence oracle",
    "U09": "runtime monitoring: snapshots of the content of original, copy and buffer before and after every kind of later change",
    "U10": "runtime monitoring: lookups judged against the list the table was built from, with a hash-call budget for termination",
    "U11": "runtime monitoring: reference-order oracle over pairs and triples of extreme and random times",
    "U12": "runtime monitoring: reference parser over exhaustive flags and lengths",
    "U13": "runtime monitoring: reference big-number base58 oracle over exhaustive short and random long inputs",
    "U14": "runtime monitoring: an independent ECDSA (math/big, crypto/elliptic) judges keys, signatures and forgeries",
    "U15": "runtime monitoring of the real files and loads (in a scratch root): damage injection over every truncation and byte, file monitors for permissions and plaintext, failing writes, real pseudo terminal prompts",
    "U16": "runtime monitoring of the real tool on a pseudo terminal: file tree snapshots before and after every run, terminal transcript, load of what it left",
    "U17": "runtime monitoring: range oracle on every drawn number and statistical monitors with false-alarm odds below 1e-12",
    "U18": MODEL + " against a finite map",
    "U19": MODEL + " of iterators against the sorted model",
    "U20": MODEL + " of the decoded trie against the encoded one's content; snapshots of all bytes that were given out or decoded, compared at the end of the case",
    "U21": "runtime monitoring: Go race detector and content oracle over concurrent readers with injected scheduling points",
    "U22": "runtime monitoring: byte-by-byte comparison of the encodings of one content reached by different histories, representations and copies",
    "U23": "runtime monitoring: the state an object claims is judged after every step against a new object of the same content; printed output is scanned",
    "U24": "runtime monitoring: weak pointers on everything put into a trie and heap measurements along histories of filling and draining",
    "U25": "runtime monitoring: a process of its own carries out each history of logging, and everything it left on its outputs and in its files is judged against the history",
    "U26": MODEL + " against a tree of maps",
    "U27": "runtime monitoring: processor time of the thread at two sizes, the smallest quotient of several rounds judged against a wide bound",
}
_N = "Sound for the executions produced (no alarm without a concrete failing history); says nothing about inputs not generated. "
NOTE = {
    "C01": _N + "Exhaustive for all insertion x removal orders of 5 keys and single removals over 7; random and patterned histories to thousands of keys, 10 key types.",
    "C02": _N + "All shapes of up to 5 insertions with every bound pair; random contents, all iterator call mixes.",
    "C03": _N + "The bound is the AVL height bound plus one key, and a constant number of calls per key.",
    "C04": _N + "Eight hash distributions, all-equal included, 9 key types, in- and out-of-range parameters.",
    "C05": _N + "The unrepaired empty-iterator defect is recorded as a known finding; anything else is reported.",
    "C06": _N + "Exhaustive over slices of up to 3 elements from 5 extreme values per type; random beyond.",
    "C07": _N + "Telling values apart is judged with four independent hash functions (chance collision 2^-128).",
    "C08": _N,
    "C09": _N + "Bounds: 4 comparisons and 14 hash computations on average over at least 500 operations (observed maxima about half of that).",
    "C10": _N + "Exhaustive for the 8-bit types; about 140 corner values per other type, all pairs.",
    "C11": _N + "Heap bound: 256 KB plus 400 bytes per entry (observed: 183 bytes per entry).",
    "U01": _N + "Lists of up to 300 sub keys, around every length and size limit, all histories of adding and encoding generated.",
    "U02": _N + "Ten representations of each key; all pairs of small universes, triples for transitivity.",
    "U03": _N + "Nesting to depth 5, element counts and sizes around every format limit.",
    "U04": _N + "All 64 subsets of components with several contents each, in any order of setting.",
    "U05": _N + "All subsets, empty components, size limits.",
    "U06": _N + "All bit lengths of integers with neighbours, all truncations, overlong forms.",
    "U07": _N + "Bounds: 64 KB plus 600 bytes per input byte allocated by a decode; 20 s of CPU per case.",
    "U08": _N + "Guard pages catch reads past either end of the buffer (start or end aligned) and any write to it.",
    "U09": _N + "Every byte of originals, copies and buffers is changed for small objects; all exported mutators.",
    "U10": _N + "One known finding: keys colliding under every seed of Murmur3 cannot be built.",
    "U11": _N + "Extreme and random terms, times and counts.",
    "U12": _N + "Exhaustive flags byte and all lengths around the announced ones.",
    "U13": _N + "Exhaustive for byte strings and texts of up to 2; random to some hundred bytes.",
    "U14": _N + "Includes keys with short coordinates.",
    "U15": _N + "The checksum is not keyed, so a public key file rewritten with a right checksum for another curve point is outside what loading can detect.",
    "U16": _N + "Runs the built tool with its fixed directories moved below a scratch directory.",
    "U17": _N + "Statistical part: thresholds of 10 standard deviations.",
    "U18": _N + "Exhaustive short histories over small key universes, random long ones.",
    "U19": _N + "Every start key and bound pair of small tries.",
    "U20": _N + "Tries of 0 to thousands of nodes, all truncations of small encodings.",
    "U21": _N + "Happens-before race detection over the observed schedules.",
    "U22": _N + "At least ten ways to reach each content.",
    "U23": _N + "The wording of what is printed is not judged beyond formatting failures.",
    "U24": _N + "Heap bound: 256 KB plus 4000 bytes per key (observed: 1352 bytes per key).",
    "U25": _N + "Log lines are judged for date, time, place and text; the directories are moved below a scratch directory.",
    "U26": _N + "Decoded nodes cannot be reached from outside; they are judged through tries (U18 to U20).",
    "U27": _N + "Detects growth well beyond proportion (5 times at 16 times the size; linear jobs are observed below 2.5), not constant factors.",
}
NOT_APPLICABLE = {
    "S01": "src/pdb and src/main/poodle.go do not compile at this commit (undefined identifiers), so there is no execution of the SSTable code to monitor.",
}
