"""writes /verif/properties.jsonl"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
         'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if observe:
        d['anchors']['observe_at'] = [observe]
    P.append(d)


SETS = ['%s_%d%s_simple.c' % (f, b, k) for f in ('sha2', 'shake256') for b in (128, 192, 256) for k in 'fs']
CORE = ['tiny_sphincs.c', 'verify.c', 'key_gen.c']
S2 = ['sha256_hash.c', 'sha256_L1_hash.c', 'sha256_L1_hash_simple.c', 'sha512_hash.c', 'sha512_L35_hash_simple.c', 'sha2_simple.c']
SH = ['shake256_hash.c', 'shake256_simple.c']

p('C01', 'Incremental SHA-256 equals FIPS 180-4 for every message and every chunking',
  'For every byte string, however it is cut into pieces (including empty ones), feeding the pieces to the incremental SHA-256 and finalising yields the FIPS 180-4 digest of the whole string, or its leading bytes when a truncated digest of a multiple of four bytes is asked for. A chaining value saved after the first 64 bytes and restored later gives the same digests as hashing those 64 bytes again.',
  ['inputs', 'histories'], 'all messages shorter than 2^61 bytes, all contents, all ways of splitting them into update calls, every truncation length',
  'The tests hash only what signing happens to hash: a handful of lengths and split points; no test exercises other buffer fill levels, splits or lengths, so errors at a particular residue or block boundary pass.',
  ['sha256.c', 'sha2.h', 'endian.c'],
  [('block compression', 'sha256.c compress'), ('buffering of partial blocks', 'sha256.c ts_SHA256_update'), ('padding and truncated output', 'sha256.c ts_SHA256_final_trunc'), ('mid-state', 'sha256.c ts_SHA256_save_state / ts_SHA256_restore_state_after_64')],
  'digest bytes returned to the caller')
p('C02', 'Incremental SHA-512 equals FIPS 180-4 for every message and every chunking',
  'For every byte string, however it is cut into pieces (including empty ones), feeding the pieces to the incremental SHA-512 and finalising yields the FIPS 180-4 digest of the whole string, or its leading bytes when a truncated digest of a multiple of eight bytes is asked for. A chaining value saved after the first 128 bytes and restored later gives the same digests as hashing those 128 bytes again.',
  ['inputs', 'histories'], 'all messages shorter than 2^61 bytes, all contents, all ways of splitting them into update calls, every truncation length',
  'One test program hashes a few fixed strings with a few splits; padding has two block layouts and 128 fill levels, and all of them must be right.',
  ['sha512.c', 'sha2.h', 'endian.c'],
  [('block compression', 'sha512.c sha512_compress'), ('buffering of partial blocks', 'sha512.c ts_SHA512_update'), ('padding and truncated output', 'sha512.c ts_SHA512_final_trunc'), ('mid-state', 'sha512.c ts_SHA512_save_state / ts_SHA512_restore_state_after_128')],
  'digest bytes returned to the caller')
p('C03', 'Incremental SHAKE256 equals FIPS 202 in all three build variants',
  'For every byte string absorbed in any pieces and any output length squeezed in any pieces, the incremental SHAKE256 returns the FIPS 202 output stream. The speed-oriented, the stack-reduced and the small-memory variants of the permutation compute the same function.',
  ['inputs', 'histories', 'configurations'], 'all inputs shorter than 2^61 bytes, all splits into absorb calls, all squeeze sequences, the three permutation variants',
  'The tests compare a few fixed vectors; the permutation has 1600 input bits and the absorb/squeeze position can be at any of 136 places of a block, and only one variant is built at a time.',
  ['fips202.c', 'fips202.h', 'tune.h'],
  [('permutation (three variants)', 'fips202.c KeccakF1600_StatePermute'), ('absorbing', 'fips202.c keccak_inc_absorb'), ('padding', 'fips202.c keccak_inc_finalize'), ('squeezing', 'fips202.c keccak_inc_squeeze')],
  'output bytes returned to the caller')
p('C04', 'PRF, F, H and T of every parameter set equal the SPHINCS+ definition',
  'For every parameter set, every key, every hash address and every sequence of n-byte inputs, the keyed pseudorandom function and the one-input, two-input and many-input tweakable hashes return exactly the n bytes the SPHINCS+ "simple" instantiation defines (address form, zero padding of the public seed to a block, choice of SHA-256, SHA-512 or SHAKE256, truncation). Output may be written over the input without changing the result.',
  ['inputs', 'configurations'], 'all public and secret seeds, addresses and inputs, any number of inputs to T, twelve parameter sets, seed prehashing on and off',
  'Known-answer tests run one key per parameter set; a wrong result for particular addresses, input counts or block boundaries is only seen if such an input is sampled, and the non-default build settings have no vectors of their own.',
  S2 + SH + ['internal.h', 'sha2.h', 'fips202.h'] + SETS,
  [('SHA2 PRF and F', 'sha256_hash.c, sha2_simple.c'), ('SHA2 T', 'sha256_L1_hash_simple.c, sha512_L35_hash_simple.c'), ('SHAKE PRF, F, T', 'shake256_hash.c, shake256_simple.c'), ('prehashed public seed', 'ts_sha2_L1_prehash, ts_sha2_L35_prehash')],
  'node, leaf and signature bytes')
p('C05', 'Message randomiser and message hash equal the SPHINCS+ definition',
  'For every parameter set, key, randomness and message of any length, the message randomiser is HMAC-SHA-256, HMAC-SHA-512 or SHAKE256 keyed with the secret PRF key over optional randomness and message, and the message digest is the MGF1 or SHAKE256 hash of randomiser, public seed, root and message that SPHINCS+ defines.',
  ['inputs', 'configurations'], 'all keys, randomness values and messages shorter than 2^60 bytes, twelve parameter sets',
  'The known-answer tests use a few message lengths; padding and buffering behave differently for each residue of the message length modulo the block, and the long-message path is hardly sampled.',
  ['sha256_L1_hash.c', 'sha512_hash.c', 'shake256_hash.c', 'sha256.c', 'sha512.c', 'fips202.c', 'internal.h'],
  [('SHA2 HMAC and MGF1', 'sha256_L1_hash.c, sha512_hash.c'), ('SHAKE', 'shake256_hash.c')],
  'first n bytes of a signature; FORS and hypertree positions used')
p('C06', 'The message digest selects exactly the specified FORS leaves and tree position',
  'For every digest value, the k FORS leaf indices are the consecutive a-bit big-endian fields of the digest, followed, each starting on a byte boundary, by the bottom-layer tree address and then the leaf index, taken as big-endian integers reduced to their bit lengths. This holds for the bit lengths of all twelve parameter sets, including those where a field ends inside a byte.',
  ['inputs', 'configurations'], 'all digest values, twelve parameter sets',
  'Tests reach a few hundred of the 2^272 digests; an error that shows only for particular high bits (64-bit tree addresses, 9-bit leaf indices, 14-bit FORS indices) need not be hit.',
  ['tiny_sphincs.c', 'internal.h'] + SETS,
  [('digest parsing', 'tiny_sphincs.c ts_convert_message_hash_to_hypertree_position'), ('integer fields', 'tiny_sphincs.c extract_int_from_hash')],
  'signature bytes; verifier decision')
p('C07', 'WOTS+ signatures use the specified digits, checksum and chains',
  'For every n-byte value to be signed, the 2n+3 base-16 digits are its nibbles, high nibble first, followed by the three-digit big-endian checksum; every one-time signature element is the chain start advanced by exactly its digit, and every one-time public key hashes all chains advanced to the end. Verification advances each element by the remaining steps with the same addresses.',
  ['inputs', 'configurations'], 'all values, all digits, all positions in the tree, twelve parameter sets',
  'Each signing run samples some digit values; extreme digits (0, 15) at particular positions, and checksums near their limits, are not systematically reached.',
  ['tiny_sphincs.c', 'verify.c', 'internal.h'],
  [('digits and checksum', 'tiny_sphincs.c compute_wots_digits'), ('signing chain', 'tiny_sphincs.c generate_next_wots_hash'), ('leaf', 'tiny_sphincs.c ts_wots_leaf'), ('verification chain', 'verify.c ts_update_verify')],
  'signature bytes; verifier decision')
p('C08', 'Authentication paths and tree roots equal the Merkle tree definition',
  'For every leaf position, the authentication path produced for a FORS tree or a hypertree layer consists of the sibling nodes of the leaf-to-root path of the full binary tree over all its leaves, and the running root computed next to it is the root of that tree. Every interior node is hashed under the address carrying its own layer, tree, height and index.',
  ['inputs', 'configurations'], 'all leaf positions, tree addresses, keypair addresses and FORS tree numbers, all tree heights from 3 to 14, all keys',
  'A test signs a few messages, each touching one leaf position per tree; heights go to 14, so most positions of most trees are never exercised.',
  ['tiny_sphincs.c', 'verify.c', 'internal.h'],
  [('tree traversal', 'tiny_sphincs.c ts_merkle_path'), ('addresses', 'tiny_sphincs.c ts_set_merkle_adr and the set_*_adr helpers'), ('verification', 'verify.c next_auth_path')],
  'signature bytes; verifier decision')
p('C09', 'Key generation yields the specified key pair or reports failure',
  'When the random source succeeds it is asked once for 3n bytes, and the private key becomes these bytes (secret seed, PRF key, public seed) followed by the root of the top-layer tree, the public key, if asked for, being its second half; the call then returns 1. If a required argument is missing or the random source fails, the call returns 0 without touching the public key.',
  ['inputs', 'fault_sequences', 'configurations'], 'all random strings, success or failure of the random source, optional and missing arguments, twelve parameter sets',
  'Tests generate a few keys per set and never make the random source fail or omit arguments.',
  ['key_gen.c', 'tiny_sphincs.c', 'tiny_sphincs.h'],
  [('key generation', 'key_gen.c ts_gen_key'), ('top tree', 'tiny_sphincs.c ts_merkle_path, ts_wots_leaf')],
  'private and public key bytes, return value')
p('C10', 'The signature produced is the SPHINCS+ signature',
  'For every private key, message and randomness, the bytes delivered are exactly the SPHINCS+ signature: randomiser, k FORS secrets with authentication paths, then d one-time signatures with authentication paths, each signing the root below it. When no random source is given, or it reports failure, the public seed is the optional randomness, so the signature is the deterministic one.',
  ['inputs', 'fault_sequences', 'configurations'], 'all keys, messages and randomness, random source present, absent or failing, twelve parameter sets',
  'Known-answer tests cover one or a few messages per set; the claim is over all keys and messages, that is, over all leaf positions, digits and digests.',
  ['tiny_sphincs.c', 'internal.h'] + S2 + SH + SETS,
  [('signing state machine', 'tiny_sphincs.c ts_init_sign, ts_sign'), ('component functions', 'see C04 to C08')],
  'signature bytes')
p('C11', 'Signature bytes do not depend on how the caller chunks the output',
  'Whatever sequence of request sizes, including zero, is used, each request delivers as many bytes as asked for until the signature is exhausted, the concatenation of all deliveries is always the same signature of exactly the advertised length, and from then on requests return 0 and write nothing. No byte outside the requested range is written.',
  ['histories', 'inputs'], 'all sequences of request sizes, all internal positions, all keys and messages',
  'Tests request a few fixed piece sizes; a fault that needs a request ending or starting at a particular position within a particular kind of element is not sampled.',
  ['tiny_sphincs.c', 'size.c'],
  [('delivery loop and state machine', 'tiny_sphincs.c ts_sign'), ('advertised length', 'size.c ts_size_signature')],
  'return values and output bytes')
p('C12', 'Verification accepts exactly the valid signatures',
  'For every public key, message and byte string, verification succeeds if and only if the string has the advertised signature length and the SPHINCS+ verification computation over it ends in the root stored in the public key. A wrong byte anywhere in root comparison, path order, chain length or address therefore never turns an invalid signature into a valid one or the reverse.',
  ['inputs', 'configurations'], 'all public keys, messages and byte strings, twelve parameter sets',
  'Tests verify genuine signatures and a few single-bit corruptions; acceptance of some forged string, or rejection of some genuine one, is a statement about all inputs.',
  ['verify.c', 'tiny_sphincs.c', 'internal.h'] + S2 + SH,
  [('verification state machine', 'verify.c ts_update_verify'), ('root comparison', 'verify.c my_memcmp'), ('verdict', 'verify.c ts_verify')],
  'return value of the verdict call')
p('C13', 'The verdict does not depend on how the signature is chunked; length is strict',
  'However a byte string is divided into pieces, including empty ones, the final verdict is the same; a truncated signature, or one followed by any further byte in the same or a later piece, is rejected. Once a fatal error has been reported the verdict stays negative whatever follows.',
  ['histories', 'inputs'], 'all divisions into pieces, all lengths, all internal positions',
  'Tests feed a few fixed piece sizes and rarely add trailing bytes; the combination of piece boundaries, buffered bytes and end of signature has to be right for every history.',
  ['verify.c'],
  [('input buffering', 'verify.c ts_update_verify'), ('trailing data', 'verify.c ts_update_verify, ts_verify')],
  'return values and verdict')
p('C14', 'Every signature made with a generated key verifies under its public key',
  'For every key pair produced by key generation, every message and every randomness, the signature delivered by the signer is accepted by the verifier, for any way of chunking on either side.',
  ['inputs', 'histories', 'configurations'], 'all keys, messages, randomness values and chunkings, twelve parameter sets',
  'Round trips are tested for a few messages per parameter set; there are 2^63 and more signing positions, and every digit and direction pattern must match between signer and verifier.',
  CORE + ['internal.h'] + S2 + SH,
  [('signer', 'tiny_sphincs.c'), ('verifier', 'verify.c'), ('key generation', 'key_gen.c')],
  'verdict on a freshly made signature')
p('C15', 'No undefined behaviour or out-of-bounds access in any supported configuration',
  'For every supported build configuration and every valid sequence of API calls with valid buffers, no call reads or writes outside the objects it was given and the fields of its context it addresses, uses an uninitialised value, divides by zero, overflows a signed integer, shifts out of range or dereferences a null pointer. In particular every context array is large enough for every parameter set enabled in that configuration.',
  ['inputs', 'histories', 'configurations'], 'all keys, messages, chunkings; default, single-parameter-set, small-memory and all-sets configurations',
  'Sanitised test runs see only the executed inputs; array sizes depend on configuration macros, and an overflow inside one context field into the next is invisible to address sanitising.',
  ['tiny_sphincs.h', 'tune.h'] + CORE + ['sha256.c', 'sha512.c', 'fips202.c', 'endian.c'] + S2 + SH,
  [('context layout', 'tiny_sphincs.h struct ts_context'), ('configuration', 'tune.h')],
  'memory accesses')
p('C16', 'Calls change only their own context and outputs; contexts are independent',
  'Signing, verification and key generation read and write no mutable global state and allocate nothing, never modify messages, keys, signatures or parameter tables handed to them, and keep all progress in the caller\'s context. Any interleaving of operations on different contexts therefore gives the same results as running them one after another, and the message may be reused as soon as signing has been initialised.',
  ['histories', 'inputs', 'schedules'], 'all interleavings of calls on any number of contexts, all inputs',
  'Tests run one operation at a time; hidden shared state, or a late read of the message, shows only under particular interleavings or reuse.',
  CORE + ['size.c', 'endian.c', 'sha256.c', 'sha512.c', 'fips202.c'] + S2 + SH,
  [('context', 'tiny_sphincs.h struct ts_context'), ('delivery and verification', 'tiny_sphincs.c ts_sign, verify.c ts_update_verify')],
  'contents of caller-owned memory; results under interleaving')
p('C17', 'Contexts in the wrong phase are refused without effect',
  'Requesting signature bytes from a context that is set up for verification, finished or never started returns 0 and writes nothing; feeding signature bytes to a context that is set up for signing, or whose verification has failed, returns 0 and the verdict stays negative. The verdict on any context that has not completed a successful verification is 0.',
  ['histories', 'inputs'], 'every phase of every context, all request sizes',
  'No test calls the functions in the wrong order; each phase needs to be tried.',
  ['tiny_sphincs.c', 'verify.c', 'tiny_sphincs.h'],
  [('phase guard for signing', 'tiny_sphincs.c ts_sign'), ('phase guard for verification', 'verify.c ts_update_verify'), ('verdict', 'verify.c ts_verify')],
  'return values and output memory')
p('C18', 'Parameter tables and advertised sizes are those of the SPHINCS+ sets',
  'Each of the twelve published parameter objects carries the hash length, tree counts, heights and hash family of the SPHINCS+ set it is named after, and the advertised private key, public key and signature sizes are 4n, 2n and the exact signature length of that set. This holds in every configuration that enables the set.',
  ['configurations'], 'twelve parameter sets in every build configuration that enables them',
  'Tests only notice a wrong table when signing and vectors disagree in the configuration they were built for; sizes are compared for the default build.',
  SETS + ['size.c', 'internal.h', 'tiny_sphincs.h'],
  [('tables', 'sha2_*_simple.c, shake256_*_simple.c'), ('sizes', 'size.c')],
  'returned sizes; parameter objects')
p('C19', 'Build settings change memory and speed only, never a result',
  'Enabling or disabling the public-seed prehash, choosing any of the SHAKE256 variants, and restricting the supported parameter sets leave every key, signature and verdict of the remaining sets unchanged.',
  ['configurations', 'inputs'], 'all settings of the tuning header that compile, all inputs',
  'Each test build is one configuration; that two configurations agree on all inputs is not something either build can observe.',
  ['tune.h', 'tiny_sphincs.h', 'fips202.c'] + S2 + SETS,
  [('prehash', 'ts_sha2_L1_prehash, ts_sha2_L35_prehash and the restore functions'), ('SHAKE256 variants', 'fips202.c'), ('context sizes', 'tiny_sphincs.h')],
  'keys, signatures and verdicts')
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
