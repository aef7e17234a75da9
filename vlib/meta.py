"""Per property: what the check reports and what it must have observed to give a verdict."""

META = {}


def M(pid, technique, rule, monitors, note, assumptions=(), **kw):
    META[pid] = dict(technique=technique, rule=rule, monitors=list(monitors), level_note=note, assumptions=list(assumptions), **kw)


M('I01', 'runtime monitoring: recorded write/read histories on real streams checked against the values written',
  'Seeded histories of typed writes on one to three streams, then the matching reads in random turn; a case is distinct by the set of '
  '(operation, value class: length or bit length, sign, encoding, hex-looking) it exercised, and non-trivial when it has at least one such event.',
  ['write-accepted', 'read-gives-value', 'value-unchanged', 'consumed-exactly', 'nothing-left', 'hexlike-uint-observed'],
  'Held on the recorded histories; every read compared with the value written and with the stream position after the write. Trusts io.BytesIO and the interpreter.',
  ['fixed-length text does not end in NUL bytes (it is NUL padded)', 'NaN is compared as NaN'])
M('I02', 'runtime monitoring: bytes appended by every write compared with an independent wire encoder; refused writes compared with the stream before',
  'Seeded values for every typed write, all lengths around prefix boundaries, and values outside every range; distinct by (operation, value class).',
  ['write-accepted', 'wire-bytes', 'prefix-kept', 'unfit-refused', 'refused-write-leaves-stream', 'hexlike-uint-observed'],
  'Held on the observed writes; the expected bytes come from an encoder of the harness written from the format.')
M('I03', 'runtime monitoring with fault injection: streams cut at every point, limits around every declared length, outcome of each read checked',
  'Every cut point of seeded encodings of every strict type, limits around the declared length, arrays cut at every point; distinct by (type, cut position class, limit relation).',
  ['short-read-refused', 'whole-read-accepted', 'exact-bytes', 'over-maximum-refused', 'at-or-below-maximum-accepted', 'complete-leading-elements', 'nothing-made-up'],
  'Held on the enumerated cuts of the generated values.', level='fault_enumeration')
M('U01', 'runtime monitoring: recorded conversions of 160/256-bit values checked against independent hex and byte forms',
  'Seeded and structured 20/32-byte values through every text and byte form and back; every byte value at every position; malformed text and data. Distinct by (width, leading and trailing byte class, zero count, malformation).',
  ['constructed', 'text-form', 'byte-form', 'parsed', 'parsed-equal', 'bad-text-refused', 'bad-data-refused'],
  'Held on the observed conversions.')
M('U02', 'runtime monitoring: every comparison outcome checked against the integers held; hash and dictionary behaviour observed',
  'Pairs (equal, reversed, differing in one byte at every position, differing oppositely in two), sorted lists, cross-width and foreign operands; distinct by (width, differing positions, byte class, outcome).',
  ['comparison', 'three-way', 'equal-hash', 'one-dictionary-key', 'two-dictionary-keys', 'sorted', 'dictionary', 'widths-never-equal', 'widths-not-ordered', 'other-types-not-equal', 'other-types-not-ordered'],
  'Held on the observed pairs and lists.')
M('U03', 'runtime monitoring: model-based histories; every tracked value is compared with its model after every step',
  'Random histories of construction, buffer and stream reuse, re-reading, failed re-reading, dictionary use and comparison over several values; distinct by the set of (step, operation) pairs.',
  ['bytes-as-modelled', 'text-as-modelled', 'hash-as-fresh-value', 'equal-to-fresh-value', 'found-in-dictionary', 'place-in-dictionary', 're-read', 're-read-consumed', 'short-re-read-refused', 'order-as-modelled', 'handed-out-bytes-kept'],
  'Held on the recorded histories (4 to 25 steps each).', ['callers do not write into the array a value hands out (ToArray)'])
M('F01', 'runtime monitoring: recorded operator calls and running accounts checked against integer arithmetic',
  'Pairs and chains of amounts around 0, whole coins, 2^53, 2^63 and far beyond; distinct by (signs, magnitudes in bytes, exponent, relation).',
  ['exact-result', 'result-is-amount', 'operands-unchanged', 'comparison', 'division-laws', 'division-by-zero-refused', 'sorted', 'constants'],
  'Held on the observed operations.')
M('F02', 'runtime monitoring: parsed amounts checked against exact rational arithmetic under varied ambient decimal contexts',
  'Seeded decimal texts, integers, decimals and floats, consecutive amounts, near-numbers; distinct by (length, sign, exponent, point, magnitude).',
  ['parsed', 'exact-amount', 'negative-refused', 'not-a-number-yields-none'],
  'Held on the observed inputs.', ['text beyond the range of a float (about 1.8e308) is not judged'])
M('F03', 'runtime monitoring: rounding and printed text of amounts checked against exact integer and decimal arithmetic',
  'Amounts over the whole 64-bit range, consecutive bands, whole coins and neighbours; distinct by (bit length, sign, wholeness).',
  ['rounding', 'integer-part', 'printed', 'json-form', 'text-observed', 'text-denotes-amount', 'text-parses-back'],
  'Held on the observed amounts; text above about 6.7e15 units is a known finding (KF2), recognised by its mechanism.')
M('B01', 'runtime monitoring: byte forms checked against digit-by-digit little-endian arithmetic',
  'All integers of +-70000, all values around every power of 2 up to 2^1099, random integers and byte strings; distinct by (sign, bit length or byte length).',
  ['encoded', 'reads-back', 'length', 'unsigned-form', 'decoded', 'value-unchanged'], 'Held on the observed values.')
M('B02', 'runtime monitoring: recorded operator calls and chains checked against integer arithmetic, with result types',
  'Pairs and chains of signed integers up to 500 bits (3000 in chains), equality against other types; distinct by (signs, magnitudes, operation).',
  ['exact-result', 'closed', 'comparison', 'sign', 'printing', 'hashing', 'equals', 'division-by-zero-refused', 'value-unchanged'], 'Held on the observed operations.')
M('H01', 'runtime monitoring: every hashing entry point checked against SHA-256 of the standard library and RIPEMD-160 of pycryptodome',
  'All lengths 0 to 600, larger ones, structured messages, hex in both cases; distinct by (length, first and last byte).',
  ['hash160', 'hash256', 'script-hash', 'redeem-script', 'argument-unchanged'], 'Held on the observed messages; trusts hashlib.sha256 and pycryptodome RIPEMD160.')
M('X01', 'runtime monitoring: helper results checked against digit-wise references',
  'Integers up to 600 bits with all widths around their length, byte strings of all lengths, 32-bit values; distinct by (bit length, width, length).',
  ['base256', 'negative-refused', 'xor', 'xor-undone', 'unequal-refused', 'swap32', 'swap32-undone', 'unfit-refused', 'binary-text'], 'Held on the observed values.')

NOT_APPLICABLE = {}
M('A01', 'runtime monitoring: address conversions by every route recorded and compared with an independent Base58Check encoder',
  'Random and structured script hashes (every byte value at every position on four backgrounds), nine routes each, and back; distinct by hash bytes at the ends, zero runs, position and value.',
  ['address', 'address-shape', 'back-to-hash', 'reported-valid', 'distinct-addresses'], 'Held on the observed hashes.')
M('A02', 'runtime monitoring: acceptance decisions and error kinds recorded and compared with an independent Base58Check decoder',
  'Every version byte, payload lengths 0 to 40, every single-character edit of seeded addresses, checksum variants, foreign and hostile text; distinct by (mutation class, length, position).',
  ['never-fails', 'decision', 'cli-accepts', 'cli-hash', 'cli-refuses'], 'Held on the observed texts.',
  ['white space after an otherwise valid address is not judged for cli.address_to_scripthash (the base58 library strips it)', 'the argument is text'])
M('K01', 'runtime monitoring: key pairs built by the real code, every derived value compared with an independent secp256r1 implementation',
  'Boundary keys (all powers of two, first and last 39), mined keys with leading or trailing zero bytes in the public key or hashes, structured and random keys in all three forms; refused numbers and all other lengths to 210; distinct by (zero runs, key bits, parity, point bytes).',
  ['key-accepted', 'private-key', 'public-key', 'public-key-hash', 'address', 'length-refused', 'number-refused', 'key-pairs-independent'], 'Held on the observed keys.',
  ['96- and 104-byte forms carry the public key that belongs to the private key'])
M('K02', 'runtime monitoring: exports and imports recorded and compared with an independent WIF codec',
  'Keys as for K01, every version and suffix byte, checksum variants, single and multiple edits, all lengths to 120, foreign text; distinct by (layout, length, edit).',
  ['export-standard', 'export-repeats', 'import-accepted', 'import-exact', 'damage-refused'], 'Held on the observed keys and texts.', ['the argument is text'])
M('K03', 'runtime monitoring: NEP-2 exports and decryptions recorded and compared with an independent NEP-2 implementation, with the real scrypt and with a recorded stand-in for it',
  'Keys as for K01 and passphrases of many scripts, lengths and Unicode forms; interleaved histories; distinct by (passphrase class, key class).',
  ['export-given', 'export-standard', 'decryption-given', 'same-key', 'same-text-for-equivalent', 'pair-unchanged', 'wrong-refused'],
  'Held on the observed pairs. Most runs replace the scrypt primitive by a PBKDF2 of all its arguments; the real scrypt (hashlib) is the reference in the rest. Trusts pycryptodome AES and unicodedata.',
  ['passphrases are encodable text; those whose NFC form has fewer than two characters are not judged'])
M('K04', 'runtime monitoring with crafted faults: wrong passphrases, damaged and forged texts; every outcome compared with an independent NEP-2 implementation',
  'Near-miss passphrases (case, space, Unicode forms, cuts), edited text, payloads changed at every byte, forged payloads with a key that does not match or is no key; distinct by (kind of change, position, class).',
  ['wrong-passphrase-refused', 'damage-refused', 'mismatch-refused', 'no-key-in-error', 'short-passphrase-refused', 'two-characters-accepted', 'same-key'],
  'Held on the observed cases; a stand-in replaces scrypt in most of them (see K03).',
  ['scrypt itself ignores trailing NUL characters of a passphrase, so those are one passphrase to the standard'])
M('C01', 'runtime monitoring: signatures recorded in eight processes, judged by an independent ECDSA verification and by offline checks of repeatability and of distinct first numbers',
  'Boundary, mined and random keys and messages, related keys and messages, the same pairs signed in every process, all forms of key and message for verification; distinct by (length, zero bytes, top bits, form).',
  ['signature-given', 'signature-shape', 'standard-signature', 'first-number-not-shared', 'same-signature', 'own-signature-verified', 'first-number-not-shared-anywhere', 'same-in-every-process'],
  'Held on the recorded signatures.', ['private keys from 1 to the group order minus 1'], merge=True)
M('C02', 'runtime monitoring with crafted inputs: verification outcomes compared with an independent ECDSA verification',
  'Signatures crafted for arbitrary points and numbers, out-of-range numbers, altered and re-encoded signatures, malformed keys, a forgery for an off-curve key; distinct by (kind, verdict, length).',
  ['never-fails', 'boolean', 'accepts-valid', 'refuses-invalid', 'malformed-key-refused', 'malformed-message-refused'],
  'Held on the observed verifications.', ['65-byte keys with the 04 prefix and raw bytes given as a hex message are not judged'])
M('M01', 'runtime monitoring: built trees walked node by node and compared with an independent Merkle construction',
  'Every size from 1 to 600 (3000 thorough) and larger ones, repeated and structured hashes, swapped, dropped and repeated leaves; distinct by (size, repetition, depth).',
  ['tree-built', 'root', 'depth', 'leaf-set', 'node-hashes', 'links', 'given-unchanged', 'empty-refused', 'earlier-tree-unchanged'], 'Held on the observed trees.')
M('M02', 'runtime monitoring: trees walked after trimming and compared node by node with the nodes that are needed',
  'All flag vectors of all trees up to 10 leaves (14 thorough), every single flag and single gap up to 40 (200) leaves, shortened flags, random trees to 300 leaves, nested trims; distinct by (size, flags).',
  ['trimmed', 'root-unchanged', 'flagged-leaf-kept', 'sibling-kept', 'proof-chain', 'exactly-what-is-needed', 'hash-array', 'idempotent', 'other-tree-unchanged', 'flags-unchanged'],
  'All flag vectors of the small trees and the observed ones of the rest.', ['no more flags than leaves'])
M('E01', 'runtime monitoring: every point and field operation compared with an independent implementation of the group and field',
  'Pairs with equal, opposite and doubled points, infinity, points with small or large x, boundary, negative and oversized scalars, running sums; field operations with integers on either side; distinct by (curve, relation, scalar).',
  ['operation-given', 'group-law', 'on-curve', 'infinity', 'comparison', 'operands-unchanged', 'parameters', 'on-curve-decision', 'field-arithmetic', 'inverse', 'square-root'],
  'Held on the observed operations.', ['square roots of squares only; division by zero is not judged'])
M('E02', 'runtime monitoring: encodings and decodings by every route compared with independent ones; refusals of malformed encodings observed',
  'Points with zero bytes at either end, extreme x, mined keys; every prefix byte, cut point of a stream, blob length; unreduced and off-curve coordinates; distinct by (prefix, zero runs, malformation, length).',
  ['encoding-given', 'compressed', 'uncompressed', 'own-encoding-decoded', 'same-point', 'stream-form', 'stream-position', 'size', 'refused', 'distinct-encodings'],
  'Held on the observed encodings.', ['the 96- and 104-byte blobs carry a private key and are decoded without the curve check by design; hybrid forms and uncompressed forms in a stream are refused by design',
                                      'FromBytes_Secp256r1 answers None for a length it does not know; that counts as a refusal'])
M('E03', 'runtime monitoring: every comparison outcome and sorted sequence compared with the order of the coordinates',
  'Equal, opposite, neighbouring and random points, from several curve objects; lists in several starting orders; triples; distinct by (relation, differing byte).',
  ['comparison', 'exactly-one', 'sorted', 'transitive', 'operands-unchanged'], 'Held on the observed points.')
M('E04', 'runtime monitoring: signatures, verifications and recoveries compared with an independent ECDSA',
  'Boundary and random keys, secrets and messages on both curves, out-of-range and altered numbers, signatures crafted for wrapped first numbers, shared secrets; distinct by (curve, kind, verdict, size).',
  ['result-given', 'public-key', 'signature', 'own-signature-accepted', 'accepts-valid', 'refuses-invalid', 'recovered-key', 'recovered-other-key', 'recovered-private-key', 'recovered-secret'],
  'Held on the observed operations.', ['public keys are points on the curve other than infinity', 'recovery is judged where the x coordinate of the secret point is below the group order'])
M('T01', 'runtime monitoring: the real command run as a process and its main function in process; output, status and error stream checked for every run',
  'Random and structured script hashes in all accepted forms, both directions; mistyped, cut, lengthened, foreign and hostile arguments; distinct by (route, kind of damage, hash bytes).',
  ['command-ends', 'no-traceback', 'status-0', 'three-forms', 'forms-right', 'address-printed', 'one-address', 'inverse', 'both-in-one-run', 'status-1', 'message', 'no-result'],
  'Held on the observed runs.', ['an argument starting with a dash is given in the --option=value form', 'white space after an address is not judged'])
M('W01', 'runtime monitoring: every key made in many processes recorded; consistency checked online, repetition and bit balance offline over all of them; entropy drawn from the system counted',
  'Wallets and random keys made with the general-purpose generator reseeded to the same state, in processes with clock, process id and random state pinned, in forks of one process and by concurrent runs of the command; distinct by (key bits, way of making).',
  ['created', 'wallet-shape', 'valid-private-key', 'address-of-key', 'keys-differ', 'key-shape', 'program-status', 'keys-differ-across-processes', 'never-repeats', 'parts-never-repeat', 'every-bit-used',
   'neighbouring-bits-independent', 'successive-keys-unrelated'],
  'Unpredictability itself cannot be observed; what is observed is that no key repeats, that all bits are used and balanced (7 standard deviations) and that the system source supplies at least 32 bytes per key.',
  ['entropy-drawn is judged only when the system source is seen to be used'], merge=True)
M('C03', 'runtime monitoring: recorded histories of calls between disturbances by other code, every answer compared with a reference and with every earlier answer to the same arguments, in the same, in other and in fresh processes',
  'Histories of up to 24 steps over 17 kinds of calls, objects made before and used after a switch to each of 9 curve settings (secp256k1, p192, both in use, nonsense, zeros, none, parts), refused calls, seeded random state and '
  'decimal contexts; the same call as the first of a fresh process with only its module imported; long histories asking early arguments again. Distinct by (call, setting when made, setting when asked).',
  ['answered', 'depends-on-arguments-only', 'fresh-process', 'process-ends', 'same-in-every-process', 'export-standard', 'same-key'],
  'Held on the recorded histories.', ['scrypt is replaced by a stand-in depending on all its arguments except in the family `real`', 'the disturbance is over before the call starts (concurrency is C04)'], merge=True)
M('C04', 'runtime monitoring under controlled scheduling: instrumented threads switched at seeded line and instruction points in the real code, every answer compared with a reference and with the answer given alone',
  'Two to six threads with one to eight calls each, over 22 kinds of calls; seven ways of switching (at half of the lines, a few, at single instructions, in the library code only, freely by the interpreter at its shortest interval); '
  'first calls of fresh processes; distinct by (way, threads, calls, sequence of switches).',
  ['alone', 'same-as-alone', 'all-answered', 'threads-end', 'first-calls', 'process-ends'],
  'Held on the observed schedules; the evidence counts switches and distinct pairs of places switched between.',
  ['threads use separate objects', 'other code does not switch the curve while a call is running', 'scrypt is replaced by a stand-in except in the family `real`', 'C code (hashes, scrypt, AES) is not interrupted inside'])
M('I04', 'runtime monitoring with fault injection: streams that fail or deliver less at every one of their calls; outcome, bytes left and recovery of each typed write and read checked',
  'Every stream call of every typed write and read made to fail (ten kinds of error, before or after part of the bytes), or to deliver fewer bytes; then repaired and used again; distinct by (operation, call that fails, bytes let through).',
  ['write-accepted', 'failed-write-reported', 'leading-part-only', 'write-after-repair', 'failed-read-reported', 'read-after-repair', 'complete-leading-elements', 'never-another-value', 'passing-failure', 'fault-met'],
  'Held for every injected fault of the generated values.', ['a stream that has failed goes on failing until it is repaired', 'a single byte that cannot be read reads as zero, as documented (ReadByte)'],
  level='fault_enumeration')
M('R01', 'runtime monitoring of resources: executed lines and jumps counted, peak of allocated memory and CPU time measured for every call on hostile input, calls stopped beyond the bound',
  'Streams whose declared sizes have nothing to do with their contents, long texts, numbers with extreme exponents, oversized keys, signatures and scalars; distinct by (operation, input length, lines, peak, outcome).',
  ['bounded-work', 'bounded-memory', 'bounded-time', 'bounded-observed', 'right-answer'],
  'Held on the observed calls: at most 100000 lines (2000000 where a scalar is multiplied) plus 40 per input byte, 4 MB plus 200 bytes per input byte, 20 s of CPU; inputs of 2 MB: 4 s of CPU plus 1 s per megabyte.', ['streams are in memory', 'the scrypt primitive itself is replaced by a stand-in', 'texts in base 58 up to 20000 characters',
   'an array element type that takes no bytes may be declared any number of times'])
M('G01', 'runtime monitoring: value sanitizer; every argument of every recorded call pictured before and after it, every result pictured and looked at again after later calls and after the caller reused its buffers',
  'The workloads of twenty-five other properties with the sanitizer around each of their calls; distinct by (workload, calls watched, results watched, buffers reused).',
  ['argument-unchanged', 'result-unchanged', 'result-independent-of-buffers'],
  'Held on the observed calls.', ['the object being deserialized, the tree being trimmed and streams change, as is their purpose', 'buffers that belong to an object (Data, PrivateKey) are not the caller\'s'])
M('G02', 'runtime monitoring: process sanitizer; twenty-seven kinds of process state (settings, hooks, files, threads, functions of other modules) compared before and after every recorded call, in host programs with settings of their own',
  'The workloads of twenty-five other properties and a mixture of good and refused calls of every kind, under random host settings; distinct by (workload, calls watched, host settings).',
  ['process-unchanged', 'generator-only-drawn-from'],
  'Held on the observed calls.', ['the curve of the bitcoin library is exempt', 'flags of the decimal context may be raised', 'some state (open files, handlers, functions of modules) is compared once per case and at some of its calls', 'of the calls of one case after the twenty-fifth a twentieth is watched'])
