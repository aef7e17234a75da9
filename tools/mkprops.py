#!/usr/bin/env python3
"""Writes properties.jsonl. One P(...) per property."""
import json, os
OUT = []


def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    OUT.append(d)


W, R = 'neocore/IO/BinaryWriter.py', 'neocore/IO/BinaryReader.py'
UB, U1, U2 = 'neocore/UIntBase.py', 'neocore/UInt160.py', 'neocore/UInt256.py'
F8, BI, KP = 'neocore/Fixed8.py', 'neocore/BigInteger.py', 'neocore/KeyPair.py'
CR, HE = 'neocore/Cryptography/Crypto.py', 'neocore/Cryptography/Helper.py'
EC, MT = 'neocore/Cryptography/ECCurve.py', 'neocore/Cryptography/MerkleTree.py'
CLI, UT = 'neocore/bin/cli.py', 'neocore/Utils.py'

P('I01', 'Typed values written to a stream read back unchanged, in any sequence',
  'Any sequence of values written to a stream (integers of every width in either byte order, floats, booleans, characters, raw bytes, variable-length integers, length-prefixed bytes and text, fixed-length text, 160/256-bit values, hash lists, fixed-point amounts, arrays of serializable objects) is read back by the matching reads, in the same order, as exactly the same values. The reads consume exactly the bytes that were written, so a value never bleeds into its neighbours. This holds for every length and value each type admits, and when several streams are used in turn.',
  ['inputs', 'histories'], 'all sequences of typed writes with all values of each type, and all interleavings over several streams',
  'The tests write one value per stream and compare a handful of outputs; no test writes a sequence and reads it back, and the values that break the code (bytes that look like hex digits, int subclasses, length boundaries) are not sampled.',
  [W, R, UB, F8], [('typed writes over struct and raw streams', W), ('typed reads', R), ('values serializing themselves', UB)],
  ['BinaryWriter.Write*', 'BinaryReader.Read*', 'the underlying stream position'])
P('I02', 'Serialized bytes follow the NEO wire format; unfit values are refused',
  "Every typed write appends exactly the bytes the NEO wire format prescribes: fixed-width two's-complement or IEEE values in the requested byte order, variable-length integers in their shortest form, length prefix then contents, zero-padded fixed-length text, hashes in wire byte order, fixed-point amounts as 64-bit integers. A number or amount outside the range of its type, and text longer than its fixed length or that its encoding has no bytes for, is refused with an error, and a refused write leaves the stream exactly as it was.",
  ['inputs'], 'all values of every type, including those just outside its range',
  'The tests pin about thirty single outputs; boundaries of the variable-length forms, negative and extreme values, refused writes and hex-looking contents are not covered.',
  [W, UB], [('struct formats per type', W), ('prefix selection by value', W)], ['the bytes appended to the stream by each BinaryWriter call'])
P('I03', 'Reads never make up data from short or oversized input',
  "Reading a fixed-width number, a variable-length integer cut after its first byte, a 160/256-bit value, a fixed-point amount, a public key, length-prefixed text cut inside its contents, or an exact number of bytes from a stream that ends too early is refused with an error and never yields a value. A variable-length item that declares more than the caller's maximum is refused and one at or below the maximum is accepted. An array read from a stream that ends early yields exactly the complete leading elements, in order.",
  ['inputs', 'crash_points'], 'all encodings, every cut point in them, and all maxima around the declared length',
  'The tests try three or four truncated inputs; the property quantifies over every prefix of every encoding.',
  [R, UB, EC], [('struct unpacking of exactly the bytes read', R), ('exact-length read', R), ('maximum check on declared lengths', R)],
  ['BinaryReader.Read* on truncated streams', 'Deserialize of 160/256-bit values and public keys'])
P('I04', 'Failing streams are never taken for success',
  'When the underlying stream fails at any point of a typed write, the write ends with an error, at most a leading part of the value\'s bytes has reached the stream, and the same writer writes the same value correctly once the stream works again. When it fails at any point of a typed read (for variable-length items: after their first byte), the read ends with an error, and an array read yields exactly the elements that were complete. When it delivers fewer bytes than asked, a read of a fixed-width number, variable-length integer, exact bytes, 160/256-bit value, amount, public key or length-prefixed text is refused or right, never another value. An element that cannot be written fails its array. A failure that has passed by the next call on the stream ends in an error too, or in the whole and right result.',
  ['inputs', 'crash_points'], 'all values of every type, every call made on the stream, every kind of stream error, full or partial',
  'The tests use in-memory streams that never fail; no test injects a fault, and faults in the middle of multi-part values are what real files and sockets produce.',
  [W, R, UB, EC], [('multi-part writes', W), ('multi-part reads, element loop', R)], ['the outcome of each call and the bytes in the stream when the stream fails'])
P('U01', '160/256-bit values convert between text and bytes without loss',
  'Every 20- or 32-byte value prints as hexadecimal text that parses back to the same value, with or without the 0x prefix and in either letter case. The plain text forms show the bytes in reversed order, the raw text form in stored order, and all forms of one value denote the same bytes. Text that is not exactly 40 or 64 hexadecimal digits, and data that is not exactly 20 or 32 bytes, is refused.',
  ['inputs'], 'all 20- and 32-byte values, and all texts and byte strings of any length',
  'The tests use a few literals; leading zeros, palindromes, mixed case, every wrong length and non-hex text are open.',
  [UB, U1, U2], [('byte reversal between text and storage', U1), ('length check at construction', UB)],
  ['ParseString', 'ToString, ToString2, To0xString, ToBytes, ToArray, str()'])
P('U02', '160/256-bit values: order, equality and hash agree',
  'Two values of the same width compare as the unsigned little-endian integers they hold: exactly one of less, equal and greater is true, every comparison operator and the three-way comparison agree with it, and sorting gives integer order. Equal values have equal hashes and act as one dictionary key. Values of different widths are never equal and refuse to be ordered, as do values and other types.',
  ['inputs'], 'all pairs and triples of 20- and 32-byte values',
  'The tests compare four values that differ in the last stored bytes; pairs differing in one arbitrary byte, and order laws over triples, are open.',
  [UB], [('byte-wise comparison from the most significant byte', UB), ('hash of the leading bytes', UB)],
  ['CompareTo, <, <=, >, >=, ==, !=, hash(), dict and sorted()'])
P('U03', '160/256-bit values stay consistent through every history of use',
  'A value keeps its bytes, text, hash and place in dictionaries whatever later happens to the buffer or stream it was built from and to other values, and byte arrays it gave out earlier keep theirs when it is re-read. Re-reading a value from a stream replaces bytes, text, hash and order together and never changes its width. A re-read from a stream that is too short is refused and leaves the value as it was.',
  ['histories', 'inputs'], 'all sequences of construction, buffer reuse, re-reading, comparison and dictionary use over several values',
  'The tests build a value and look at it once; no test reuses the source buffer or re-reads a value that is in use.',
  [UB, R], [('the value owns its bytes', UB), ('hash refreshed on re-read', UB)], ['constructor, Deserialize, hash(), ==, ToString over a recorded history'],
  [('Data and cached hash', 'the stored bytes and the hash derived from them must change together', UB)])
P('F01', 'Fixed-point amounts: exact arithmetic and total order at any magnitude',
  'Adding, subtracting, negating, multiplying, dividing, taking remainders and non-negative powers of amounts gives exactly the integer result on their underlying units, at any magnitude: division truncates toward zero, floor division rounds down and the remainder matches floor division. In-place forms give the same results as the plain ones and no operation changes its operands. Amounts compare exactly as their underlying units do.',
  ['inputs'], 'all pairs of amounts, small and beyond 64 bits',
  'The tests use single small operands; signs, magnitudes a float cannot hold and operand preservation are open.',
  [F8], [('integer arithmetic on the stored units', F8)], ['Fixed8 operators'])
P('F02', 'Decimal amounts parse exactly',
  'Parsing a decimal amount given as text, integer, decimal number or float yields that number times 10^8 truncated toward zero, without rounding error at any magnitude; a float stands for the decimal number it prints as. Text that is not a finite number yields no amount instead of an error, and so does a negative number when a positive one is required.',
  ['inputs'], 'all decimal texts and numbers',
  'The tests parse six amounts that happen to survive float rounding; most two-decimal prices and all amounts above 2^53 units do not.',
  [F8], [('exact decimal scaling', F8)], ['Fixed8.FromDecimal, Fixed8.TryParse'])
P('F03', 'Amounts round and print exactly',
  'Rounding an amount up or down to whole coins and taking its integer part (toward zero) are exact for every 64-bit amount. The printed text of an amount, plain or for JSON, denotes exactly that amount, so parsing it gives the amount back. The JSON form differs from the plain one only in leaving out a trailing .0.',
  ['inputs'], 'all 64-bit amounts',
  'The tests round and print about ten amounts; negatives, exact multiples, their neighbours and amounts beyond float precision are open.',
  [F8], [('integer rounding', F8), ('text form', F8)], ['Fixed8.Ceil, Floor, ToInt, ToString, ToNeoJsonString'])
P('B01', 'Big integers convert to bytes and back exactly',
  'The byte form of every integer, read back as signed little-endian, is that integer; zero is one zero byte, positive integers take the fewest bytes that keep the sign readable and negative ones carry one sign byte beyond their magnitude. The unsigned byte form of a non-negative integer is its shortest one and reads back unsigned. Bytes of any length convert to exactly the integer they denote, signed or unsigned.',
  ['inputs'], 'all integers and all byte strings',
  'The tests convert five integers; the sign-byte boundaries at every length are open.',
  [BI], [('minimal-length encoding with sign-byte fallback', BI)], ['BigInteger.ToByteArray, BigInteger.FromBytes'])
P('B02', 'Big integer arithmetic is exact and closed',
  'Sum, difference, product, remainder, negation, absolute value, shifts and both divisions (which round down) of big integers equal the exact integer results and are again big integers, so results can be chained. Equality, sign, comparison, hashing and printing agree with the integer the value holds, against any other type too.',
  ['inputs'], 'all pairs of integers and all expression trees over the operators',
  'The tests evaluate about ten expressions with positive operands.',
  [BI], [('operators wrapped around int', BI)], ['BigInteger operators, Equals, Sign, str(), hash()'])
P('H01', 'Message and script hashes are the standard ones, by every route',
  'For every message the 160-bit hash is RIPEMD160(SHA256(message)) and the 256-bit hash is SHA256(SHA256(message)), and the raw and hexadecimal forms agree. The script hash of data is the 160-bit hash of its bytes, whether the data is given raw or as hexadecimal text. Redeem script, public-key hash and script hash helpers are the same composition, and every entry point gives the same answer.',
  ['inputs'], 'all messages and scripts of any length and content',
  'The tests hash two messages; message lengths around block boundaries, empty and one-byte scripts and hex-looking raw data are open.',
  [CR, HE], [('hash compositions', HE), ('hex or raw script input', CR)], ['Crypto.Hash160, Hash160Bytes, Hash256, ToScriptHash, Crypto.Default(), Helper functions'])
P('A01', 'Addresses and script hashes map one to one',
  'Every 20-byte script hash has one address: the Base58Check text of version byte 0x17 and the hash, 34 characters starting with A, and every route to it (library and command-line functions, big- or little-endian hash text) gives that address. Converting the address back gives the same script hash, and the address is reported valid.',
  ['inputs'], 'all 20-byte script hashes',
  'The tests convert three hashes; leading zero or 0xff bytes and hex-looking hashes are open.',
  [HE, CR, CLI, UT], [('Base58Check with version byte', HE)], ['Crypto.ToAddress, Helper.scripthash_to_address, cli conversions, isValidPublicAddress'])
P('A02', 'Only real NEO addresses are accepted',
  'A text is accepted as an address exactly when it is the Base58Check encoding of version byte 0x17 and a 20-byte hash; any mistyped, shortened, lengthened, otherwise versioned, non-Base58 or foreign text is reported invalid, or refused with the documented conversion error. The check never fails in any other way.',
  ['inputs'], 'all texts, in particular all small edits of valid addresses and all well-formed encodings of other versions and lengths',
  'The tests try four wrong addresses; other versions with a valid checksum are not tried.',
  [UT, CLI], [('checksum, version and length checks', UT), ('checksum, version and length checks', CLI)], ['isValidPublicAddress, cli.address_to_scripthash'])
P('R01', 'Hostile input is handled in bounded time and memory',
  'Every decoder, parser and check (typed reads from a stream in memory, arrays, public keys, addresses, WIF and NEP-2 texts, script hashes, decimal amounts, big integers, signatures, Merkle trees) ends, with a result or a refusal, after work and memory bounded by a constant plus a multiple of the size of its input. Sizes, counts and exponents that the input merely declares, and malformed contents, never make it run on or allocate beyond that.',
  ['inputs'], 'all inputs, in particular those whose declared sizes, counts or exponents have nothing to do with their contents',
  'The tests feed small honest inputs; a resource bound is a statement about every input and is invisible to a test that only looks at results.',
  [R, F8, EC, KP, CLI, UT, CR], [('loops over declared counts', R), ('parsing of exponents', F8), ('decoding of points and square roots', EC)],
  ['lines executed, memory allocated and CPU time of each call'])
P('G01', 'Calls leave their arguments alone and results stay what they were',
  'No call changes a value it is given, whether it succeeds or is refused: byte buffers, lists, 160/256-bit values, amounts, big integers, points, field elements, curves and key pairs are the same after every call as before. What a call returned stays the same through all later calls on any objects, and does not change when the caller reuses the buffers it passed in. Only operations whose purpose is to change their object do so (deserializing into an object, trimming a tree, streams).',
  ['inputs', 'histories'], 'all calls of the library with all arguments, and all sequences of calls after a result was returned',
  'Tests look at the result of a call, not at its arguments afterwards, and never look at a result again after later calls; an aliased or reused buffer shows only in a history.',
  [UB, F8, BI, EC, MT, CR, HE, KP, W], [('values and buffers held by objects', UB), ('operators on points and field elements', EC), ('conversions and hashing', CR)],
  ['arguments before and after each call, results at later times'])
P('G02', 'Calls leave the process as they found it',
  "No call, whether it succeeds or is refused, leaves other settings of the process behind, whatever those settings were before: the decimal context of the thread, the environment, working directory, arguments, umask and locale, the recursion and integer-digit limits, trace and exception hooks, the standard streams, signal handlers, the logging, warning and garbage collector settings, open files, threads and child processes, and the functions of the modules it uses. The general-purpose random generator may be drawn from but is never seeded or put into another state. The curve of the bitcoin library, which the library selects for itself, is exempt.",
  ['inputs', 'histories'], 'all calls of the library with all arguments, refused ones included, in host programs with any settings',
  'Tests look at results and run with default settings; a context, limit, file or hook left behind by a refused call shows in the host program, not in the call.',
  [F8, KP, CR, HE, EC, MT, R, W, BI, CLI, UT], [('decimal contexts of amounts', F8), ('curve selection, random draws', HE), ('square roots that draw random numbers', EC), ('the command', CLI)],
  ['settings of the process before and after each call'])
P('K01', 'Private keys determine the right public key and address',
  'For every private key from 1 to the group order minus 1, the public key is that multiple of the secp256r1 base point, the public key hash is the 160-bit hash of the compressed key and the address is that of its single-signature script. The 32-, 96- and 104-byte forms of a key give the same private key, public key and address. A key of zero, at or above the group order, or of any other length is refused.',
  ['inputs'], 'all private keys in all accepted forms, and all refused ones',
  'The tests derive four keys; keys with leading zeros, public keys with leading zero coordinates, both parities and the range limits are open.',
  [KP, CR, HE, EC], [('public key derivation', KP), ('compressed encoding', EC)], ['KeyPair constructor, PublicKey, PublicKeyHash, GetAddress'])
P('K02', 'WIF export and import are exact inverses and reject damage',
  'Exporting any private key gives the standard compressed-key WIF text (52 characters: version 0x80, key, 0x01, checksum in Base58), and importing that text returns exactly the same 32 bytes. Any text that is not such an encoding, because of its length, characters, version, suffix or checksum, is refused with a value error.',
  ['inputs'], 'all private keys and all texts, in particular all small edits of valid WIF texts',
  'The tests use one key and three wrong texts.',
  [KP], [('WIF layout and checksum', KP)], ['KeyPair.Export, KeyPair.PrivateKeyFromWIF'])
P('K03', 'NEP-2 encryption round-trips and follows the standard',
  'Encrypting any private key under any passphrase of at least two characters (Unicode code points as given) and decrypting with that passphrase returns exactly that key, also when the passphrase is typed in another canonically equivalent Unicode form. The encrypted text is exactly what NEP-2 prescribes, so other implementations decrypt it, and texts they produce are decrypted here.',
  ['inputs'], 'all private keys and all Unicode passphrases',
  'The tests use two keys and two passphrases.',
  [KP, HE], [('NFC, scrypt, AES and Base58Check composition', KP)], ['KeyPair.ExportNEP2, KeyPair.PrivateKeyFromNEP2'])
P('K04', 'NEP-2 decryption never yields a key from a wrong passphrase or damaged text',
  'Decrypting with any passphrase that is not canonically equivalent to the right one is refused with an error and yields no key. Any text that is not a NEP-2 encryption under the given passphrase (mistyped, of another length or prefix, with altered contents or a key that does not match its address) is refused likewise. Exporting under a passphrase shorter than two characters (Unicode code points as given) is refused.',
  ['inputs'], 'all wrong passphrases and all damaged, foreign or forged texts, including those with a correct checksum',
  'The tests try one wrong passphrase and two malformed texts.',
  [KP], [('address hash comparison after decryption', KP), ('prefix and checksum checks', KP)], ['KeyPair.PrivateKeyFromNEP2, KeyPair.ExportNEP2'])
P('C01', 'Every signature produced is valid, standard and repeatable',
  'For every private key and message the signature is 64 bytes (two 32-byte big-endian numbers) and is a valid secp256r1 ECDSA signature of the SHA-256 of the message. It is accepted under the matching public key in every accepted form: curve point, 64 raw bytes, 33-byte compressed; message as hex text or raw bytes. Signing the same message with the same key gives the same signature, and two signatures by different keys or of different messages never share their first number.',
  ['inputs'], 'all private keys and messages of any length',
  'The tests sign one message with one key; short components that need padding, message lengths and nonce reuse are open.',
  [CR, KP], [('deterministic signing on secp256r1', CR), ('fixed-width component encoding', CR)], ['Crypto.Sign, Crypto.VerifySignature, Crypto.Default()'])
P('C02', 'Verification accepts exactly the valid signatures and never fails',
  'Verification returns true exactly when the 64-byte signature is a valid secp256r1 ECDSA signature of the SHA-256 of the message under the given public key, and false otherwise: for an altered message, another key, an altered, truncated or extended signature, components that are zero or out of range, and a key that is malformed or not on the curve. It returns a boolean for every such input and never raises.',
  ['inputs'], 'all combinations of message, signature bytes and key bytes',
  'The tests try one altered message and one malformed input.',
  [CR], [('key and signature validation', CR)], ['Crypto.VerifySignature, Crypto.Default().VerifySignature'])
P('C03', 'Crypto results depend only on their arguments, not on history',
  'Every signing, verification, key derivation, import, export, hashing and address call gives a result that depends only on its arguments: the same in a fresh process, after any sequence of other calls including failed ones, and after other code in the process has switched the shared elliptic-curve library to another curve.',
  ['histories'], 'all sequences of crypto calls, starting from a fresh process, interleaved with curve switches by other code',
  'The tests run each call after others have set the curve up; no test makes it the first call of a process or switches the curve between calls.',
  [CR, KP], [('curve parameters set before use', CR), ('curve parameters set before use', KP)], ['Crypto.*, KeyPair.* in recorded call sequences'],
  [('global curve parameters', 'process-wide state of the bitcoin library that these calls depend on', CR), ('default instance', 'lazily created singleton', CR)])
P('C04', 'Concurrent use gives the same results as sequential use',
  'Calls made at the same time from several threads, on objects of their own or on shared keys, values, points and amounts that none of them changes (signing, verifying, deriving and exporting keys, hashing, converting addresses, serializing to separate streams, Merkle trees, amounts), give exactly the results they give one at a time. This includes the first calls of a process being made concurrently.',
  ['schedules'], 'all thread interleavings of calls on separate objects and on shared ones that no call is meant to change',
  'The tests are single threaded.',
  [CR, KP, EC, MT, W, R], [('shared curve parameters only ever set to the same values', CR)], ['per-thread recorded calls and results'],
  [('global curve parameters', 'shared by all threads', CR), ('default instance', 'created on first use', CR)])
P('E01', 'Curve points and field elements obey their arithmetic',
  'On secp256r1, secp256k1 and every other curve y^2 = x^3 + ax + b (b not 0) over a prime field, adding, doubling, negating and subtracting points and multiplying them by any integer agree with the curve group for all points including the identity, and every result is on the curve. Field addition, subtraction, multiplication, division, powers, negation, inverses and square roots agree with arithmetic modulo the prime, with integers on either side.',
  ['inputs'], 'all points, scalars and field elements of all such curves',
  'No test does curve or field arithmetic with this code.',
  [EC], [('affine addition and double-and-add', EC), ('modular arithmetic', EC)], ['EllipticCurve and FiniteField operators'])
P('E02', 'Public keys have exactly one accepted encoding per form',
  'Every secp256r1 point encodes to its 33-byte compressed and 65-byte uncompressed standard form, and decoding either form, as hex text or raw bytes, from a key blob, or (compressed) from a stream, returns the same point; infinity is a single zero byte in a stream. Decoding refuses everything else: wrong length, unknown prefix, coordinates outside the field, and coordinates of no point on the curve.',
  ['inputs'], 'all points and all byte strings',
  'The tests encode four keys and decode none.',
  [EC, KP], [('point compression and decompression', EC), ('on-curve check', EC)], ['encode_point, Serialize, decode_secp256r1, FromBytes_Secp256r1, Deserialize_Secp256r1'])
P('E03', 'Public keys are totally ordered',
  'Any two public keys compare by x coordinate and then by y coordinate: exactly one of less, equal and greater is true, all comparison operators agree, and sorting any list of keys gives the same sequence whatever the starting order. The point at infinity is below every key.',
  ['inputs'], 'all pairs and lists of points, including points that share a coordinate',
  'No test compares points; a point and its negative share x.',
  [EC], [('comparison by coordinates', EC)], ['ECPoint <, <=, >, >=, ==, !=, sorted()'])
P('E04', 'Textbook ECDSA on curve objects: sign, verify and recover agree',
  'On secp256r1, secp256k1 and any other curve group of prime order, a signature made with any private key, secret and message number verifies under the matching public key, and verification accepts exactly the valid pairs: it refuses zero or out-of-range components, altered messages and other keys. The public key recovered from a message and its signature, and the private key and secret recovered from two signatures sharing a secret, are the original ones.',
  ['inputs'], 'all curve groups of prime order, keys, secrets, message numbers and signature pairs',
  'No test calls these operations.',
  [EC], [('ECDSA equations over field and curve objects', EC)], ['ECDSA.calcpub, sign, verify, findpk, findpk2, crack1, crack2'])
P('M01', 'Merkle trees have the right root, depth and leaves',
  'For every non-empty list of 256-bit hashes the root is the NEO Merkle root: hashes paired in order at each level, an odd last one paired with itself, each parent the double SHA-256 of its two children; a single hash is its own root, and an empty list is refused. The depth, the leaf set, and the parent and child links of the tree match the list, and building a tree changes none of the given hashes.',
  ['inputs'], 'all lists of hashes of any length, including repeated hashes',
  'The tests compute roots of one and two hashes only.',
  [MT, CR], [('level-by-level build', MT)], ['MerkleTree, MerkleTree.ComputeRoot, ToHashArray, Depth, Root'])
P('M02', 'Trimming a Merkle tree keeps flagged leaves and the root',
  'After trimming with one flag per leaf (missing flags count as off), every flagged leaf is still in the tree with its sibling and with the chain of hashes that proves it, and the root hash is unchanged. Every subtree without a flagged leaf is reduced to a single node, so nothing unneeded remains. Trimming again with the same flags changes nothing.',
  ['inputs'], 'all tree sizes and all flag vectors, shorter or longer than the tree',
  'The tests trim everything away in four trees; none keeps a leaf.',
  [MT], [('recursive trim by flag index', MT)], ['MerkleTree.Trim and the remaining tree'])
P('T01', 'The np-utils command converts correctly and fails cleanly',
  'Converting an address with np-utils prints the big-endian, little-endian and byte forms of its script hash, and converting a script hash, big-endian with 0x or little-endian without, prints its address; the two conversions are inverse. Any input that is not a valid address or script hash ends with a one-line message and exit status 1, never with a traceback, a result, or status 0.',
  ['inputs'], 'all command-line arguments',
  'The tests run each command on one valid input.',
  [CLI], [('argument handling and conversion errors', CLI)], ['np-utils standard output, standard error and exit status'])
P('W01', 'Created wallets are consistent and unpredictable',
  'Every created wallet holds a private key in WIF and exactly the address of that key. Keys never repeat and use all 256 bits, even across processes started at the same moment or with the same state of the general-purpose random generator; the same holds for the random key helper.',
  ['histories', 'configurations'], 'all sequences of wallet creations in any number of processes, with clock and pseudo-random state the same',
  'The tests create three wallets and look at the field names.',
  [CLI, HE], [('operating-system entropy', CLI)], ['cli.create_wallet, np-utils --create-wallet, Helper.random_key'])
P('X01', 'Byte helpers are exact',
  'Encoding a non-negative integer in base 256 gives its little-endian bytes, padded with zeros up to the requested width and never cut; negative integers are refused. XOR of two byte strings of equal length is exact and undoes itself, and unequal lengths are refused. Swapping the byte order of a 32-bit integer is exact and undoes itself, an integer that does not fit 32 bits is refused, and the binary-text helpers give the last 20 or 32 binary digits.',
  ['inputs'], 'all integers, widths and byte strings',
  'The tests try about eight values.',
  [HE, W], [('byte-level loops', HE)], ['Helper.base256_encode, Helper.xor_bytes, swap32, convert_to_uint160, convert_to_uint256'])

if __name__ == '__main__':
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(p, 'w') as f:
        for d in OUT:
            f.write(json.dumps(d) + '\n')
    print(len(OUT), 'properties')
