#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays consistent)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
C = "src/collection/"; U = "src/util/"; M = "src/main/"

p("C01", "Sorted map and sorted set behave exactly like a finite map and a set",
  "After any sequence of insertions, replacements, removals and lookups, the sorted map and the sorted set answer every lookup, membership test and size query exactly as a mathematical map or set would: each key is stored once, with the value put last. An insertion or removal returns what was stored under that key before, or nothing, and never changes what is stored under any other key. No such operation fails, for any kind of mutually comparable keys, insertion order or size; storing or removing a nil key, or one that cannot be compared with those stored, is refused and changes nothing.",
  ["histories", "inputs"], "every finite sequence of put/get/remove over every set of keys of one type, in every order",
  "TestAVL runs a few insertion orders of integers and checks a handful of lookups; rebalancing after removals, replaced values and return values over arbitrary histories are not reached.",
  [C+"avl.go", C+"sorted_map.go", C+"sorted_set.go"], [("balanced tree insert/remove/lookup", C+"avl.go putR, removeR, getR"), ("map and set facade", C+"sorted_map.go, "+C+"sorted_set.go")],
  "return values of map and set calls")
p("C02", "Sorted iteration is complete, ordered, and respects range bounds",
  "Iterating a sorted map or set yields every entry exactly once, in strictly ascending key order, with its current value. A range iteration yields exactly the entries whose key is at or above the start and below the end; either bound may be absent or not be stored. Asking whether there is a next entry, peeking, and advancing always agree, peeking any number of times does not advance, and an exhausted iterator keeps saying so.",
  ["histories", "inputs"], "every content and shape reached by any history, every pair of bounds with start <= end, every interleaving of has-next, peek and next",
  "TestAVL prints an iteration; no test compares a range iteration with the stored keys.",
  [C+"avl.go", C+"sorted_map.go", C+"sorted_set.go"], [("in-order iterator with bounds", C+"avl.go AVLIterator")], "sequence of entries an iterator returns")
p("C03", "Sorted map operations cost logarithmically many key comparisons",
  "Every single lookup, insertion or removal on a sorted map or set of n entries, and starting an iteration or range iteration, compares keys at most about 1.44*log2(n) times (the height bound of a balanced tree, up to a small constant factor and addend), whatever the order of the operations that built it. A whole iteration costs a number of comparisons at most linear in the entries.",
  ["histories", "inputs"], "every history of insertions and removals, including ascending, descending and adversarial orders",
  "The tests never count comparisons: a tree that degenerates to a list still passes all of them.",
  [C+"avl.go"], [("rebalancing on insert and remove", C+"avl.go putBalance, removeBalance, adjustBalance")], "number of Compare calls on caller supplied keys")
p("C04", "Hash map and hash set behave exactly like a finite map and a set",
  "After any sequence of insertions, replacements, removals and lookups, the hash map and the hash set answer every lookup, membership test and size query exactly as a mathematical map or set would, with distinct keys kept apart even when their hash values collide. An insertion or removal returns what was stored under that key before, or nothing, and never affects another key. This holds through every growth and shrinkage and for every initial capacity, load factor and growth multiplier. Storing a nil key is refused and changes nothing.",
  ["histories", "inputs", "configurations"], "every history, every hash distribution of the keys including all-equal, every construction parameter including out-of-range ones",
  "TestHash inserts and removes random keys with default parameters; collisions, shrinking and custom parameters are left to chance.",
  [C+"hash.go", C+"hash_map.go", C+"hash_set.go"], [("chained buckets", C+"hash.go Get, Put, Remove"), ("rehash on growth and shrinkage", C+"hash.go resize")], "return values of map and set calls")
p("C05", "Hash iteration yields every entry exactly once",
  "Iterating a hash map or hash set yields every stored entry exactly once with its current value, in any order, and nothing else. Asking whether there is a next entry, peeking, and advancing always agree, and an exhausted iterator keeps saying so.",
  ["histories", "inputs", "configurations"], "every content reached by any history and parameters",
  "No test looks at what a hash iterator returns (the only iteration loop in the tests never runs its body).",
  [C+"hash.go", C+"hash_map.go", C+"hash_set.go"], [("bucket walk", C+"hash.go HashIterator")], "sequence of entries an iterator returns")
p("C06", "Comparable values are totally ordered, lexicographically",
  "For every kind of comparable slice, comparing is a total order: reversing the arguments reverses the result, it is transitive, and it says equal exactly when the values are equal. The order is lexicographic by the elements' numeric order over their full range, a proper prefix comes first, and an absent value comes before an empty one, an absent wrapper before all others.",
  ["inputs"], "every pair and triple of slices of every element type, of any lengths, with extreme, negative and absent elements",
  "No test calls the comparison functions on slices of different lengths, on negative or extreme elements, or on nil.",
  [C+"comparable.go", C+"util.go"], [("slice comparison and equality", C+"util.go Compare*Slice, Equal*Slice"), ("comparable wrappers", C+"comparable.go")], "results of compare and equal")
p("C07", "Hashing is a pure function, agrees with equality, and reads only its input",
  "Two hashable values that are equal have the same hash under every hash function, and hashing the same value again gives the same result; a slice of bytes or numbers is told apart, by the hash function it is given, from slices of the same type that differ in length, element order or elements, and a slice of hashable values from the one with a single element replaced by one of another hash. The built-in hash is 32-bit Murmur3 of exactly the given bytes for every seed, length and alignment. Hashing reads no byte outside its input and modifies none.",
  ["inputs"], "every hashable type, every content, length, alignment and seed",
  "TestMurmur checks a few strings; alignment, lengths, out-of-bounds reads and hash/equality agreement need sanitizers and arbitrary inputs.",
  [C+"hash.go", C+"hashable.go"], [("Murmur3", C+"hash.go MurmurSeed.Hash"), ("element hashing through raw memory", C+"hashable.go HashUint32")], "hash results, memory accesses")
p("C08", "Numeric, time and big-integer conversions round trip",
  "Converting an integer, a timestamp, or an unsigned big integer below 2^256 to its fixed-size byte form and back gives the same value; the byte form is big-endian, of fixed size, and for unsigned values ordered like the values. Reading a number ignores any bytes that follow, and too short a timestamp is an error rather than a wrong time.",
  ["inputs"], "every value of each type, including negatives and extremes",
  "No test calls these conversions except through one timestamp sample.",
  [C+"util.go"], [("conversions", C+"util.go Int64ToByteArray ... BigIntToByteArray")], "results of conversions")
p("C09", "Hash map operations compare a constant number of keys on average",
  "With keys whose hashes are well spread, the average number of key comparisons of a lookup, insertion or removal in a hash map or set stays below a small constant independent of the number of entries, and the table neither degenerates nor rehashes on every operation: the average number of key hash computations per operation over any long history is bounded by a small constant too. This holds while growing from empty, after shrinking, and for every admissible load factor and growth multiplier.",
  ["histories", "configurations"], "every long history of growth and shrinkage with well spread hashes, every construction parameter",
  "The tests never count comparisons or rehashes: a table that never grows, or rehashes on every insertion, still passes all of them.",
  [C+"hash.go"], [("growth and shrinkage thresholds", C+"hash.go Put, Remove, resize, NewCustomHash")], "number of equality and hash calls on caller supplied keys")

p("C10", "Minimum, maximum and absence helpers are exact",
  "For each number type, the smaller and the larger of two numbers are exactly that, over the full range and whichever comes first. The absence test says absent for nil and for nil pointers, slices, maps, functions and channels behind an interface, present for every other value, empty and zero ones included, and fails for none.",
  ["inputs"], "every pair of numbers of every type, values of every kind",
  "No test calls the minimum and maximum functions, and absence is tested only through other code.",
  [C+"util.go"], [("Min*, Max*, IsNil", C+"util.go")], "results of the helpers")
p("C11", "Memory follows the content of a collection",
  "A sorted or hash map or set does not hold on to what is no longer in it: keys and values that were removed, and values that were replaced, become collectable, whatever the history, and nothing that is still stored is released. The memory of a collection with default parameters stays within a fixed amount plus a constant per stored entry, also after it was filled and drained many times, or was asked for missing keys.",
  ["histories"], "every history of filling, draining, replacing and looking up",
  "No test looks at memory; a removed node that stays linked, or a table that only ever grows, changes no result.",
  [C+"avl.go", C+"hash.go", C+"sorted_map.go", C+"hash_map.go"], [("removal of nodes, rehashing of tables", C+"avl.go, "+C+"hash.go")], "weak pointers to keys and values, heap size after garbage collection")
p("U01", "Keys survive encoding and decoding",
  "Encoding a key of any number of non-empty sub keys and decoding the bytes gives a key with the same sub keys in the same order, consuming exactly the encoded bytes even when other bytes follow. A key that has changed since is encoded anew, an empty key is the single byte zero, and a key above the size limit is refused, not truncated. Bytes given out earlier, and bytes that are decoded, stay as they are. Decoding an object once more changes nothing.",
  ["inputs", "histories"], "every list of non-empty sub keys, up to and beyond the size limit; every history of adding and encoding",
  "TestSerializeKey/TestKeyRandom round trip random keys with few sub keys of moderate length only.",
  [U+"key_util.go", U+"misc_util.go"], [("key codec", U+"key_util.go Key.Encode, MappedKey.Decode")], "encoded bytes and decoded sub keys")
p("U02", "Key order, equality and hash do not depend on representation",
  "Keys compare lexicographically by sub key (bytewise, a prefix key first), and this is a total order that says equal exactly when the sub key lists are equal. Empty, constructed and decoded keys with the same sub keys are equal, compare as equal, and hash alike under every hash function, so any of them finds the same entry in a sorted map, hash map, trie or perfect hash table. Keys that differ in the order or boundaries of their sub keys are not equal and are told apart by hashing.",
  ["inputs"], "every pair and triple of keys in every mix of representations",
  "TestKey compares a few constructed keys; mixed representations, prefixes and laws over triples are not tested.",
  [U+"key_util.go"], [("Compare, Equal, HashUint32 of each key type", U+"key_util.go")], "results of compare, equal and hash, and lookups by key")
p("U03", "Values survive encoding and decoding",
  "Encoding a primitive value, value array or record list, nested in any way, and decoding the bytes gives the same structure: same kind, same number of elements, same contents element by element in any access order, consuming exactly the encoded bytes even when other bytes follow. A value array or record list that has been appended to or deleted from encodes its new content. Contents or element counts too large for the format are refused, not truncated. Bytes given out earlier, and bytes that are decoded, stay as they are. Decoding an object once more changes nothing.",
  ["inputs", "histories"], "every nesting of primitives, arrays and records, all sizes around the format boundaries (0, 255/256, 65535/65536), every history of append/delete/encode",
  "TestValueRandom round trips arrays of random primitives and reads them back in order; nesting, boundaries and access order are sampled or absent.",
  [U+"value_util.go"], [("value codec", U+"value_util.go Primitive/ValueArray/RecordList.Encode, StandardMappedValue.Decode, ValueAt, RecordAt")], "encoded bytes and decoded elements")
p("U04", "Records survive encoding and decoding for every subset of components",
  "A record with any subset of key, value, scheme, timestamp and signature (which needs a timestamp) decodes from its encoding to the same components, absent ones staying absent or empty, consuming exactly the encoded bytes even when other bytes follow. Changing any component after encoding is reflected by the next encoding. A key, value or scheme above its size limit is refused when encoding. Bytes given out earlier, and bytes that are decoded, stay as they are. Decoding an object once more changes nothing.",
  ["inputs", "histories"], "all subsets of components, all contents, nested values, extreme timestamps and signatures, every history of setters and encodes",
  "No test encodes a record.",
  [U+"record_util.go"], [("record codec", U+"record_util.go Record.Encode, MappedRecord.Decode")], "encoded bytes and decoded components")
p("U05", "Schemes survive encoding and decoding",
  "A scheme with any subset of domain, tablet and buckets decodes from its encoding to the same components, consuming exactly the encoded bytes even when other bytes follow, and encoding the decoded scheme again gives the same bytes. Absent components stay absent and empty ones stay empty. Bytes given out earlier, and bytes that are decoded, stay as they are. Decoding an object once more changes nothing.",
  ["inputs"], "all subsets of components, any lengths and number of buckets",
  "No test touches schemes.",
  [U+"scheme_util.go"], [("scheme codec", U+"scheme_util.go Scheme.Encode, MappedScheme.Decode")], "encoded bytes and decoded components")
p("U06", "Variable-length integers and byte strings round trip",
  "Every signed or unsigned 64-bit integer and every byte string decodes from its variable-length encoding to itself, consuming exactly the encoded bytes whatever follows. Truncated encodings, and ones of more than 64 bits, give an error (no bytes at all read as nothing, with 0 bytes consumed), never a wrong value, and a byte string is never longer than the bytes that are there.",
  ["inputs"], "all integers, all byte strings, all truncations, all following bytes",
  "No test calls these functions directly.",
  [U+"misc_util.go"], [("varint and varchar", U+"misc_util.go")], "results of encode and decode")
p("U07", "Decoding hostile bytes never crashes, hangs or over-allocates",
  "Given any bytes, each decoder (keys, values, records, schemes, tries, perfect hash tables, consensus times and ids, base58, variable-length items) returns an object or an error: it does not panic, loop, or allocate more than a bounded multiple of its input plus a constant. When it returns an object, the number of bytes it reports as consumed is between zero and the input length, and every accessor, copy and lookup on the object completes without panicking.",
  ["inputs"], "every byte string: random, truncated, mutated and spliced valid encodings, and hostile length fields",
  "No test feeds a decoder anything but its own encoder's output.",
  [U+"key_util.go", U+"value_util.go", U+"record_util.go", U+"scheme_util.go", U+"trie_util.go", U+"mph_util.go", U+"consensus_util.go", U+"base58_util.go", U+"misc_util.go"], [("bounds checks of every decoder", "src/util *Decode, NewMapped*, NewMPHTable")], "return values, panics, allocation and CPU use")
p("U08", "Decoders read only their input, never write it, and ignore what follows",
  "Decoding a buffer and using the decoded object never reads outside the buffer and never modifies it. The result depends only on the encoded bytes: appending arbitrary bytes to a valid encoding of a key, value, record, scheme, trie or perfect hash table changes neither the decoded content nor the number of bytes consumed, and the decoded object's buffer is exactly the consumed bytes. A valid encoding of which the end is missing is refused; only the signature of a record may be missing, which is then read without one.",
  ["inputs"], "every valid encoding followed by every suffix; every buffer placed at the end of accessible, read-only memory",
  "The tests hand decoders buffers that end where the encoding ends and never look at the buffer again.",
  [U+"key_util.go", U+"value_util.go", U+"record_util.go", U+"scheme_util.go", U+"trie_util.go", U+"mph_util.go", U+"consensus_util.go"], [("buffer trimming", "src/util Decode methods")], "memory accesses (guard pages, write-protected pages), consumed lengths, decoded content")
p("U09", "Copies are equal to and independent of their originals",
  "A copy or constructed copy of a key, value, record, scheme, trie or consensus id, made from either a constructed or a decoded object, has the same content and encodes to the same bytes. Changing the original, the copy, or the buffer the original was decoded from never changes the other. Where a constructed copy is offered (all of these but tries and consensus ids), it can be modified and encoded.",
  ["inputs", "histories"], "every object of every kind, every later mutation of any of the three",
  "No test copies anything.",
  [U+"key_util.go", U+"value_util.go", U+"record_util.go", U+"scheme_util.go", U+"trie_util.go", U+"consensus_util.go"], [("Copy, CopyConstruct", "src/util")], "content before and after mutation")
p("U10", "Minimal perfect hash table finds every key at its own index",
  "For every set of distinct keys, the built table finds each key and reports its index in the list it was built from, in both verification modes and with keys in any representation. With exact verification any other key is reported as not found; with hash verification a report of found is wrong only about once in 2^32. Serialising and reading back gives a table that answers every lookup alike, and building terminates.",
  ["inputs"], "every list of distinct keys of any size including zero and one, multi-part and similar keys, every absent key",
  "TestBuild_simple/stress build from word lists with single-part keys and look up present keys and few absent ones.",
  [U+"mph_util.go"], [("hash-displace build, lookup, codec", U+"mph_util.go MPHBuild, Lookup, Encode, NewMPHTable")], "lookup results")
p("U11", "Consensus times are totally ordered within a kind and survive encoding",
  "For two times of the same kind, exactly one of less, equal and greater holds, the six comparisons are mutually consistent and transitive, and raft times order by term, then time, then count while ledger times order by epoch, over the full unsigned range. Comparing times of different kinds is an error. A time decodes from its own bytes to an equal time, and truncated or unknown bytes are an error.",
  ["inputs"], "all pairs and triples of times, all truncations",
  "No test touches consensus times.",
  [U+"consensus_util.go"], [("LedgerTime, RaftTime comparisons and codec", U+"consensus_util.go")], "results of comparisons and decode")
p("U12", "Consensus ids are parsed exactly",
  "A consensus id is accepted exactly when it is non-empty, its flags byte is non-zero with no reserved bit set, and the identifiers its flags announce are all there; it then keeps exactly those bytes, whatever follows them. A copy has the same bytes and does not change when the original buffer does.",
  ["inputs"], "all flag bytes, all lengths",
  "No test touches consensus ids.",
  [U+"consensus_util.go"], [("NewMappedConsensusID", U+"consensus_util.go")], "acceptance and retained bytes")
p("U13", "Base58 text round trips and rejects foreign characters",
  "Decoding the base58 text of any byte string gives the same bytes, leading zero bytes included, and encoding what a text decodes to gives the same text. The text uses only the bitcoin base58 alphabet and is the canonical base-58 number; a text with any other character, including control and non-ASCII bytes, is rejected.",
  ["inputs"], "all byte strings, all texts",
  "No test touches base58.",
  [U+"base58_util.go"], [("Base58Encode, Base58Decode", U+"base58_util.go")], "results of encode and decode")
p("U14", "Signatures verify, forgeries do not, and keys survive their byte form",
  "A signature made with a generated private key verifies with its public key and with the public key and private key rebuilt from their bytes, for any non-empty digest. It does not verify for another digest, another key, or altered signature numbers (other than the equivalent N-s every ECDSA signature has). The digest helpers compute SHA-256, double SHA-256 and MD5. The private key rebuilt from its bytes yields the same public key, and the public key rebuilt from its single coordinate is on the curve with that coordinate; a rebuilt key is its owner's, and changing it changes no other.",
  ["inputs"], "all generated keys, digests and alterations",
  "TestECDSAGenerateKey checks one key pair per run and no forgery; defects that affect a fraction of keys escape it.",
  [U+"ecdsa_util.go"], [("key generation, sign, verify, reconstruction", U+"ecdsa_util.go")], "verification results")
p("U15", "Stored keys load only intact and with the right secret",
  "A saved key pair loads back as the same keys with the secret it was saved with, for every class, also when it replaces an earlier one. Loading with another secret, after any truncation, or after any change of the stored bytes is an error, or the same key when the change only alters the case of a digit, never a crash or a different key; a malformed secret is refused and leaves no key behind. A save reports success only if both keys are stored, so that they load. The private key file is readable and writable by its owner only, and the public key file is writable by its owner only. The private key file holds the private key only in encrypted form, differently on every save; classes and ids never share files.",
  ["inputs", "fault_sequences", "configurations"], "all key pairs, secrets and classes, every truncation and byte change of both files",
  "TestLCKeyGen saves and loads one pair; corruption, truncation, permissions and wrong secrets are not tested.",
  [U+"lc_util.go"], [("save/load of encrypted key files with checksum", U+"lc_util.go lc_save_key_pair, lc_load_key_data, lc_load_priv_key, lc_load_pub_key")], "files under the configuration directory, load results")
p("U16", "Key generation tool leaves a complete, usable key or none",
  "Run with a class and matching passphrases of at least 8 characters, the key generation tool exits 0 and leaves a key pair that loads with that passphrase under the id it prints; with an alias, the alias leads to that key. With mismatched or short passphrases, an unknown class, or a refused overwrite or when it is interrupted at a prompt, it exits non-zero and changes nothing: no key files, and an existing alias still leads to its old key. A key file that cannot be written leaves no usable-looking key either. No run damages another key. An existing alias is replaced only when forced or confirmed, and the passphrase is never echoed or stored.",
  ["inputs", "configurations"], "all classes, alias states (absent, existing, dangling), force flag, answers and passphrases",
  "No test runs the tool.",
  [M+"pkeygen.go", U+"lc_util.go"], [("process_key, generate_key_pair", M+"pkeygen.go"), ("passphrase prompts", U+"lc_util.go PromptPassphrase, PromptText")], "exit status, terminal output and files of the real tool run on a pseudo terminal")
p("U17", "Random numbers stay in range and reach all of it",
  "A random number in a range is at least the lower and below the upper bound for every admissible pair of bounds, including negative, extreme and widest ranges. Every value of a small range is produced, and over the full type every bit takes both values independently of the others; successive numbers do not repeat a short pattern.",
  ["inputs"], "all bounds of all types",
  "TestRandInt32 prints a sample.",
  [U+"rand_util.go"], [("Rand*, Rand*Range", U+"rand_util.go")], "returned numbers")
p("U18", "Trie behaves exactly like a finite map from keys to values",
  "After any sequence of setting and clearing values under keys of any number of non-empty sub keys, including the empty key and keys that are prefixes of others, the trie returns for each key the value set last, or nothing. Setting returns what was there before, and never affects another key. Clearing a value never removes values at longer or shorter keys, and looking up or clearing a missing key is harmless.",
  ["histories", "inputs"], "every history of set, clear and get over every set of keys",
  "No test touches the trie.",
  [U+"trie_util.go"], [("Trie.Get, Trie.Set and clean-up", U+"trie_util.go")], "return values")
p("U19", "Trie iteration is complete, ordered, and respects prefixes and ranges",
  "Iterating a trie yields every stored key exactly once with its value in key order; keys without a value appear only as ancestors of stored keys. Iterating from a key yields exactly that key and its descendants, and a range iteration exactly the keys at or above the start and below the end, for any bounds with start <= end, stored or not. Has-next, peek and next always agree, and an exhausted iterator keeps saying so.",
  ["histories", "inputs"], "every content, every start key, every pair of bounds",
  "No test touches the trie.",
  [U+"trie_util.go"], [("TrieKeyIterator, TrieRangeIterator", U+"trie_util.go")], "sequence of entries an iterator returns")
p("U20", "Tries survive encoding and decoding",
  "A trie with any keys and non-empty values decodes from its encoding to a trie that gives the same value for every key, the same iterations, and nothing for keys that were not stored, consuming exactly the encoded bytes even when other bytes follow. A trie changed after encoding encodes its new content. Truncated encodings are refused. In a trie decoded from any bytes, iteration ascends and agrees with lookups. Bytes given out earlier, and bytes that are decoded, stay as they are. Decoding an object once more changes nothing.",
  ["inputs", "histories"], "every trie content and shape, all truncations, every history of set, clear and encode",
  "No test touches the trie.",
  [U+"trie_util.go"], [("Trie.Encode, MappedTrie.Decode", U+"trie_util.go")], "encoded bytes, lookups and iterations of the decoded trie")
p("U21", "Decoded and finished objects can be read concurrently",
  "Any number of concurrent readers of the same decoded key, value, record, scheme, trie, perfect hash table, or of the same sorted or hash map that nobody modifies, see the same content a single reader sees, without data races, deadlocks or crashes. This includes readers that are the first to look at the elements of a decoded array or record list, in any order, and concurrent copies. Independent objects can be used concurrently, also when they were decoded from the same bytes.",
  ["schedules", "inputs"], "all interleavings of concurrent reads over all such objects",
  "No test starts a goroutine, so no schedule is ever explored.",
  [U+"value_util.go", U+"record_util.go", U+"key_util.go", U+"trie_util.go", U+"mph_util.go", C+"avl.go", C+"hash.go"], [("lazily decoded elements under a lock", U+"value_util.go StandardMappedValue.ValueAt, RecordAt")], "race reports, results of concurrent reads")
p("U22", "Equal contents have equal encodings",
  "The encoded bytes of a key, value, record, scheme or trie depend on its content only: not on the order or detours of the operations that built it (elements added and removed, components overwritten, encodings in between, elements filled after they were put in), nor on whether it was constructed, decoded, or copied. Values and tries whose contents differ have different encodings. Whatever bytes a key, value, record or scheme was decoded from, a constructed copy encodes to bytes that decode to the same content, or is refused as too large.",
  ["histories", "inputs"], "every content, and every history, representation and chain of copies that leads to it",
  "No test encodes the same content twice; an encoding that depends on insertion order or leaves traces of removed elements goes unnoticed, though signatures over encoded bytes rely on it.",
  [U+"key_util.go", U+"value_util.go", U+"record_util.go", U+"scheme_util.go", U+"trie_util.go"], [("Encode of every constructed object, copies of decoded ones", "src/util *.Encode, *.Copy, *.CopyConstruct")], "encoded bytes")
p("U23", "Encoding state is told truthfully, and printing harms nothing",
  "A constructed key, value, record or trie says it is encoded only when its buffer holds the encoding of its present content, so never after a change of its own, and gives neither buffer nor first byte otherwise; it can be encoded exactly when a new object of the same content can, is then encoded, and refuses to be decoded. A decoded object stays encoded and decoded, with its buffer unchanged, whatever it is asked. Printing any object, or turning it into a string, works in every state, produces properly formatted text and changes nothing.",
  ["histories", "inputs"], "every object kind and content, at every step of every history of changes and encodes",
  "No test asks for the state of an object or prints a trie; a stale buffer reported as current shows only after particular histories.",
  [U+"key_util.go", U+"value_util.go", U+"record_util.go", U+"scheme_util.go", U+"trie_util.go", U+"consensus_util.go"], [("IsEncoded, IsDecoded, Buf", "src/util IEncodable implementations"), ("Print, ToString", "src/util IPrintable implementations")], "reported state, buffers and printed text")
p("U24", "Memory follows the content of a trie",
  "A trie does not hold on to values that were cleared or replaced: they become collectable, whatever the history, and no stored value is released. The memory of a trie, encoded or not, stays within a fixed amount plus a constant per stored key (of bounded length), also after it was filled and drained many times or was asked to look up or clear missing keys.",
  ["histories"], "every history of setting, clearing, looking up and encoding",
  "No test touches the trie; nodes left behind by clearing change no lookup.",
  [U+"trie_util.go"], [("Trie.Set and its clean-up of empty nodes", U+"trie_util.go")], "weak pointers to values, heap size after garbage collection")
p("U25", "Log lines and written files arrive whole, in order and where directed",
  "Every log line goes to where the log was directed last, standard output or the log file of the process, once, whole, in order, with date, time and place, whatever the history of switching and however many goroutines log at once. The log file keeps what was in it; directing the log to a file that cannot be opened is an error, leaves the log where it was, and can be tried again; directing it again and again holds no more files open. The file helpers empty the named file, add exactly the asked number of zero bytes per write and do not pass over failures; padding gives the last 16 bytes, or all bytes followed by zeros, without changing its input.",
  ["histories", "schedules", "inputs"], "every history of directing the log and logging, any number of concurrent writers",
  "No test directs the log; the file helpers are only used by benchmarks that look at no result.",
  [U+"lc_util.go", U+"fsync.go", U+"ecdsa_util.go"], [("LCSetLoggerStdout, LCSetLoggerFileTmp", U+"lc_util.go"), ("Open, Write, Sync, Close", U+"fsync.go"), ("AESPad", U+"ecdsa_util.go")], "standard output and log file of a process, written files")
p("U26", "A tree of trie nodes holds what was put into it",
  "A node built by hand tells the key, parent and value it was given, and its full key is the sequence of node keys from the root, whatever the history of putting, replacing and removing children and setting values. Its children are those put and not removed since, in the order of their keys; a missing child is told as none. Iterators over the tree yield its nodes in the order of their full keys. The nodes, encoded one after another, are decoded to a trie of the same content. A copy has the same content, and neither changes with the other.",
  ["inputs", "histories"], "every tree of nodes and history of changes",
  "No test touches a node.",
  [U+"trie_util.go"], [("TrieNode", U+"trie_util.go"), ("NewTrieKeyIterator, NewTrieRangeIterator", U+"trie_util.go")], "every accessor of every node")
p("U27", "Work grows in proportion to size",
  "The processor time of filling, reading, walking, draining, encoding, decoding, copying and printing tries, of building, using, encoding and decoding hash tables, of building, encoding, decoding, walking and copying flat arrays and lists, keys and schemes, of filling, reading, walking and draining sorted maps, of filling, reading and draining hash maps, and of hashing, comparing and framing bytes grows in proportion to the number of elements or bytes (up to a logarithm). Walking all prefixes of one key of n parts may take time in proportion to the n times n parts it yields; decoding something small takes no longer in a large buffer, and asking something large for its size, its bytes or a sub key takes no longer.",
  ["inputs"], "all sizes",
  "Tests use a few elements, where quadratic work cannot be noticed.",
  [U+"trie_util.go", U+"value_util.go", U+"key_util.go", U+"mph_util.go", U+"scheme_util.go", "src/collection/avl.go", "src/collection/util.go"], [("StandardMappedValue.ValueAt, RecordAt", U+"value_util.go"), ("FullKey, iterators, Encode, Decode", U+"trie_util.go"), ("MPHBuild", U+"mph_util.go")], "processor time of each job at two sizes")
p("S01", "Loading an SSTable never accepts damaged data",
  "A table loads from its file exactly the records that were written, and a truncated or corrupted file is an error.",
  ["crash_points", "inputs"], "all table contents, truncations and corruptions",
  "The package has a single, empty test.",
  ["src/pdb/sstable.go"], [("SSTable load", "src/pdb/sstable.go")], "loaded records")

for q in P:
    assert len(q["title"]) <= 80, q["id"]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
