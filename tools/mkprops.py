#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so the entries stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
G = "circuits/gadgets/"
p("C01", "Packed-lane Keccak gadgets compute Keccak-256 of the selected prefix",
  "For every message that fits the gadget, feeding its padded 64-bit lanes and the index of its last block to the ten-round, normal-transaction or max-transaction hash gadget yields exactly the Keccak-256 digest of that message, whatever is in the blocks after the selected one. The helpers that turn nibbles into lanes are exact for every string of whole lanes (16 nibbles each), and a lane that does not fit 64 bits, a nibble above 15 or a block index outside the gadget's range makes the circuit unsatisfiable.",
  ["inputs"], "all messages up to the capacity of each gadget, all block indices, all contents of unused blocks, all out-of-range lanes/nibbles/indices",
  "Tests hash a handful of fixed messages and never check an out-of-range index, garbage after the selected block, or every block boundary.",
  [G+"keccak/keccak256.go", G+"keccak/periphery.go", G+"keccak/keccakf/keccakf.go", G+"mux/multiplexer.go"],
  [("sponge over fixed rounds and state selection", G+"keccak/keccak256.go"), ("nibble to lane packing", G+"keccak/periphery.go")],
  ["circuit satisfiability and output lanes of the exported hash gadgets"])
p("C02", "Bit-level Keccak gadgets and in-circuit padding agree with Keccak-256",
  "For every message length between the declared minimum and maximum, padding the message in circuit and hashing the bits gives exactly the Keccak-256 digest (bits of each byte least significant first), for any bound on rounds, any input element width and any contents beyond the message end. The variant with a minimum round count gives the same digest whenever the message needs at least that many rounds, and a length outside the declared range, or a round index outside it where more than one round is possible, is unsatisfiable.",
  ["inputs", "configurations"], "all message lengths, contents, element widths (1, 2, 4, 8 bits), minimum/maximum lengths and round bounds",
  "Tests run a few fixed lengths; the padding matrix depends on the length modulo the 136-byte rate, so boundary lengths are never exercised.",
  [G+"keccak/pad.go", G+"keccak/periphery.go", G+"keccak/keccak256_bits.go", G+"keccak/keccak256_bits_optimized.go", G+"keccak/keccakf/keccakf.go", G+"keccak/keccakf/uint64api.go"],
  [("padding matrix and selection by length", G+"keccak/pad.go"), ("bitwise permutation", G+"keccak/keccakf/keccakf.go")],
  ["padded bits, digest bits and satisfiability"])
p("C03", "Host-side Keccak padding and packing helpers are exact and side-effect free",
  "For every byte string, padding yields the message followed by the multi-rate padding up to the next multiple of 136 bytes, and the conversions to little-endian bits, 64-bit words and circuit blocks and the round-index helpers agree with that padded message. Padding never modifies the caller's data, including memory beyond the slice's length, and misaligned lengths are refused by the conversions that need alignment.",
  ["inputs"], "all byte strings, slice capacities and lengths; both copies of the helpers",
  "Tests use a few lengths and never look at memory beyond the slice or at lengths around multiples of the rate.",
  [G+"keccak/periphery.go", "common/circuits/keccak.go"],
  [("multi-rate padding", G+"keccak/periphery.go"), ("second copy", "common/circuits/keccak.go")],
  ["returned slices, the caller's backing array, panics"])
p("C04", "The SHA-256 gadget computes SHA-256 of everything written",
  "For every sequence of writes, resets and digest requests on one hasher, each digest equals SHA-256 of the bytes written since the last reset, however they were split across writes. Requesting a digest does not disturb the hasher, and a written element that is not a byte makes the circuit unsatisfiable.",
  ["inputs", "histories"], "all histories of write/sum/reset calls, all byte contents and split points",
  "There are no tests at all in the package; block-boundary splits and repeated digests are history-dependent.",
  [G+"sha256/sha256.go", G+"sha256/sha256block.go", G+"sha256/bigEndian.go", G+"sha256/uint32api.go", G+"sha256/uint64api.go", G+"sha256/uint8api.go"],
  [("streaming buffer and padding", G+"sha256/sha256.go"), ("compression function", G+"sha256/sha256block.go")],
  ["digest bytes returned by Sum, satisfiability"], [("buffer", "bytes written since the last full block", G+"sha256/sha256.go")])
p("C05", "The SHA-512 gadget computes SHA-512 of everything written",
  "For every sequence of writes, resets and digest requests on one hasher, each digest equals SHA-512 of the bytes written since the last reset, however they were split across writes. Requesting a digest does not disturb the hasher, and a written element that is not a byte makes the circuit unsatisfiable.",
  ["inputs", "histories"], "all histories of write/sum/reset calls, all byte contents and split points",
  "There are no tests at all in the package; block-boundary splits and repeated digests are history-dependent.",
  [G+"sha512/sha512.go", G+"sha512/sha512block.go", G+"sha512/bigEndian.go", G+"sha512/uint64api.go", G+"sha512/uint8api.go"],
  [("streaming buffer and padding", G+"sha512/sha512.go"), ("compression function", G+"sha512/sha512block.go")],
  ["digest bytes returned by Sum, satisfiability"], [("buffer", "bytes written since the last full block", G+"sha512/sha512.go")])
p("C06", "RLP list decoding in circuit returns exactly the encoded fields",
  "For every RLP list within the declared field bounds, the in-circuit decoders report success, the exact total and field lengths and the exact content nibbles of every field. A string that is not an RLP list with the expected number of fields (wrong list length, wrong field lengths, another field count) is reported as invalid or is unsatisfiable (or the reported total exceeds the buffer), and a field outside its declared size is never misread; block headers with any historically valid number of fields decode correctly whatever padding follows them.",
  ["inputs", "configurations"], "all RLP lists, all field-size configurations, all corruptions of prefixes and lengths, all trailing padding",
  "Tests decode a few real headers, accounts and receipts; prefix boundaries (1, 55/56, 255/256 bytes), missing trailing fields and corruptions are not covered.",
  [G+"rlp/rlp.go", G+"rlp/util.go"],
  [("field walk with shifting", G+"rlp/rlp.go"), ("prefix interpretation", G+"rlp/rlp.go"), ("selection helpers", G+"rlp/util.go")],
  ["outputs (validity, lengths, counts, values) of the exported decoders, satisfiability"])
p("C07", "Selection and comparison primitives are exact and reject bad indices",
  "Multiplexers return exactly the selected element or column, sub-array extraction returns exactly the addressed window with zeros elsewhere, left shifts rotate and right shifts fill with zeros, and array equality over a prefix holds if and only if the prefixes agree. An index, start, end or length outside the representable range never selects silently: the circuit is unsatisfiable or the result is exact.",
  ["inputs", "configurations"], "all array widths, contents, indices, start/end pairs and prefix lengths",
  "Tests check single positions; out-of-range indices and boundary windows are never checked.",
  [G+"mux/multiplexer.go", G+"rlp/util.go", G+"mpt/mpt_util.go"],
  [("decoder-based selection", G+"mux/multiplexer.go"), ("barrel shift and sub-array", G+"rlp/util.go")],
  ["outputs and satisfiability of the exported primitives"])
p("C08", "An accepted fixed-key trie proof implies inclusion in the committed trie",
  "Whenever the fixed-length-key inclusion circuit reports full validity for a root, key and value, the trie with that root maps that key to that value: every node on the path hashes to the reference in its parent and the key nibbles consumed by extension, branch and leaf nodes are exactly the key. No choice of prover-controlled inputs (proof nodes, node types, lengths, start positions, depth) makes a wrong key, a wrong value or a broken hash link acceptable.",
  ["inputs", "histories"], "all tries, keys, values and all adversarial assignments of the prover-controlled inputs",
  "Tests feed honest proofs for a few real accounts and slots; no test tries to prove a false statement.",
  [G+"mpt/mpt.go", G+"mpt/mpt_util.go"],
  [("layer walk and validity sum", G+"mpt/mpt.go"), ("leaf, extension and branch checks", G+"mpt/mpt_util.go")],
  ["output code of the inclusion circuit and satisfiability"])
p("C09", "Every real trie entry has an accepted fixed-key proof",
  "For every trie with 32-byte hashed keys whose paths fit the configured depth and node sizes, and for every key in it, the honest proof is accepted with the maximal validity code. This holds for every mix of extension and branch nodes, odd and even path fragments and value length within the configured bound.",
  ["inputs"], "all tries and keys within the circuit bounds, including extension nodes at any level",
  "Tests contain a few main-net proofs; most path shapes (extension at root, odd/even splits, deep branches) never occur.",
  [G+"mpt/mpt.go", G+"mpt/mpt_util.go"], [("layer walk and validity sum", G+"mpt/mpt.go")], ["output code of the inclusion circuit"])
p("C10", "Storage absence is provable exactly when the slot is absent",
  "A storage proof of absence is accepted only if the committed storage trie has no entry for the slot and the claimed value is zero, and the honest proof of absence of every absent slot is accepted, whether the path ends at an empty branch child, at a diverging extension node or at a leaf of another key. A proof built from nodes of an existing slot is never accepted as absence.",
  ["inputs", "histories"], "all storage tries, present and absent slots, divergence positions, adversarial prover inputs",
  "Tests contain three fixed main-net absence proofs and no attempt to prove absence of an existing slot.",
  [G+"mpt/mpt.go", G+"mpt/mpt_util.go", G+"mpt/eth_proof.go"],
  [("non-existence override of the output code", G+"mpt/mpt.go"), ("branch / extension / leaf absence checks", G+"mpt/mpt_util.go")],
  ["output code of the inclusion circuit in storage mode"])
p("C11", "Transaction and receipt inclusion is sound and complete for every index",
  "For every list of transactions or receipts and every index in it, the honest proof of the entry under the RLP-encoded index key is accepted with the maximal validity code (key lengths up to the circuit's seven nibbles; the leaf is given by its hash). No prover input makes a different leaf, a different index or a path that skips or repeats key nibbles acceptable.",
  ["inputs", "histories"], "all list lengths, indices and leaf sizes within bounds; adversarial node types, fragments and starts",
  "Tests check a few fixed transactions; extension nodes on the path (for example indices 128-255 of certain list lengths) and forged paths are not covered.",
  [G+"mpt/mpt.go", G+"mpt/mpt_util.go"],
  [("variable-length key walk", G+"mpt/mpt.go")], ["output code of the no-branch-termination inclusion circuits"])
p("C12", "Account, storage and header gadgets bind the statement to the block hash",
  "The account gadget accepts only if the account encoding is the value under the hashed address in the given state root and its four decoded fields are reported exactly; the storage gadget accepts only if the slot value is what the storage trie stores under the hashed slot; the header gadget accepts only if the header hashes to the given block hash and reports its fields exactly. The honest witness of every account, slot and header within bounds is accepted, including values with leading zeros stripped.",
  ["inputs", "configurations"], "all accounts, slot keys, slot values (0 to 32 significant bytes) and headers of every fork; tampered witnesses",
  "Tests use one or two real accounts, slots and headers.",
  [G+"mpt/eth_proof.go", G+"mpt/mpt.go", G+"rlp/rlp.go"],
  [("account proof", G+"mpt/eth_proof.go"), ("storage proof", G+"mpt/eth_proof.go"), ("header proof", G+"mpt/eth_proof.go")],
  ["circuit satisfiability, reported fields"])
p("C13", "In-circuit encoding of a transaction index is its RLP encoding",
  "For every index from 0 to 65535 the produced key nibbles are exactly the RLP encoding of that integer padded with zeros, so distinct indices have distinct keys. An index that does not fit is unsatisfiable.",
  ["inputs"], "all 65536 indices and out-of-range indices", "The test checks a handful of indices.",
  [G+"index-proof/core/circuit_index_mpt.go"], [("case split on magnitude", G+"index-proof/core/circuit_index_mpt.go")], ["output nibbles, length, satisfiability"])
p("C14", "Merkle root gadgets compute the binary Merkle root of their leaves",
  "For every power-of-two number of leaves, the MiMC, emulated-MiMC and Keccak root gadgets return the root of the balanced binary tree over the leaves in order with the corresponding native hash. A leaf count that is not a power of two is refused.",
  ["inputs", "configurations"], "all leaf values and all power-of-two widths", "Tests check one width per gadget with fixed leaves.",
  [G+"merkle/mimc_root.go", G+"merkle/emulated_mimc_root.go", G+"merkle/keccak_root.go"], [("pairwise folding", G+"merkle/mimc_root.go")], ["returned root"])
p("C15", "The sparse Merkle gadget accepts exactly the authenticated leaf at the index",
  "The gadget is satisfiable if and only if hashing the leaf up the path with the siblings, taking the side given by each bit of the index from the bottom, yields the root. Changing the leaf, the index, any sibling or the root makes it unsatisfiable.",
  ["inputs"], "all leaves, indices, sibling lists and roots, and all single and multiple alterations", "The package's test is unstable and covers one fixed tree.",
  [G+"smt/smt.go"], [("path folding", G+"smt/smt.go")], ["satisfiability"])
p("C16", "The emulated MiMC gadget equals the native MiMC of the emulated field",
  "For every sequence of elements written, the gadget's digest equals the MiMC digest (Miyaguchi-Preneel) of the emulated field's native implementation over those elements in order, for the supported curves. Resetting forgets everything written, and a digest consumes the pending elements exactly as the native hasher does.",
  ["inputs", "histories"], "all write/sum/reset histories and all field elements, including values near the modulus", "Tests hash one fixed pair of elements.",
  [G+"emulated/mimc/mimc.go", G+"emulated/mimc/encrypt.go"], [("round function and constants", G+"emulated/mimc/mimc.go")], ["digest limbs"])
p("C17", "Element packing is the exact big-endian value and its inverse",
  "For every byte or bit-chunk string of the element's width, packing into an emulated element gives the element whose big-endian digits they are and unpacking gives them back unchanged. A chunk outside its width or a wrong number of chunks is refused or counted at its full value: nothing is ever dropped or truncated.",
  ["inputs", "configurations"], "all chunk widths, chunk contents and field choices", "Tests round-trip one fixed string.",
  [G+"emulated/element.go"], [("bit regrouping into limbs", G+"emulated/element.go")], ["limbs, unpacked chunks, satisfiability"])
p("C18", "Limb splitting, merging and rotation preserve the number and its ranges",
  "Splitting, merging, re-splitting and left-rotating limbs yield exactly the bits of the original number regrouped or rotated, with the declared sizes. No prover can make a split limb take a value other than the honest one or exceed its declared size.",
  ["inputs", "configurations", "histories"], "all limb sizes, values, rotation amounts and all hint (prover) choices", "Tests check a few splits with the honest hint only.",
  [G+"limbs/limbapi.go"], [("hinted split with recomposition check", G+"limbs/limbapi.go")], ["limb values and satisfiability under arbitrary hint outputs"])
p("C19", "Bit, byte and nibble regrouping helpers are exact",
  "Every exported regrouping helper (bits to bytes in either order, bits to nibbles, bits to two 128-bit words, element and group flips) returns exactly the regrouped value of its documented bit order, with the right number of outputs, for every input length it accepts. Flips are involutions and never modify their argument.",
  ["inputs"], "all bit strings and lengths", "Tests cover one or two helpers on fixed values.",
  [G+"conv/bits.go", G+"utils/slice.go", "common/utils/binary.go"], [("regrouping", G+"conv/bits.go"), ("flips", "common/utils/binary.go")], ["returned slices"])
p("C20", "32-byte values pack identically on the host and in circuit",
  "For every 32-byte value, the host splitting into a low and a high part, its bit decomposition and the circuit's bit, nibble and two-word recompositions all denote the same value, and packing bits into field elements gives the same elements on both sides. Data that does not fit its declared width is refused rather than truncated.",
  ["inputs", "configurations"], "all 32-byte values, bit strings, widths and chunkings", "Tests check a few values on one side only.",
  ["common/utils/compose.go", "common/utils/binary.go", "common/utils/utils.go"], [("host packing", "common/utils/compose.go"), ("circuit packing", "common/utils/binary.go"), ("recomposition", "common/utils/utils.go")], ["returned values, panics, satisfiability"])
p("C21", "Query commitments bind every custom input in its declared position",
  "For every receipt, storage-slot or transaction query the commitment equals Poseidon over the 253-bit packing of the declared fields in their declared order and widths. Two queries that differ in any committed field have different packings, and a field that does not fit its width is refused.",
  ["inputs"], "all queries, field values at their width limits, numbers of extracted log fields", "Tests compare one or two fixed queries with stored digests.",
  ["common/proof/query_id.go", "common/utils/compose.go", "common/utils/poseidon_bn254.go"], [("field layout", "common/proof/query_id.go"), ("packing", "common/utils/compose.go")], ["commitment bytes, panics"])
p("C22", "Header encoding for the header circuits matches the block hash",
  "For every header whose dynamic fields fit the circuit limits, the encoded bits and round index are those of the padded RLP of that header, so hashing them gives the block hash; headers exceeding a limit are refused. Generated header chains link by parent hash with consecutive numbers, and the tree and hash helpers agree with the native MiMC tree.",
  ["inputs"], "all headers within and just beyond the limits, all batch sizes, all leaf sets", "Tests encode generated headers of a single shape.",
  ["circuits/fabric/smt/utils.go", "common/circuits/keccak.go"], [("encoding and limit checks", "circuits/fabric/smt/utils.go")], ["encoded bits, indices, errors, roots"])
p("C23", "Recovered transaction signers are the real signers",
  "For every signed legacy (replay-protected) or dynamic-fee transaction on any chain, the recovered address is the address of the signing key and the unsigned encoding is the one that was signed. Unsupported transaction types are refused, and altering any signed field changes the recovered signer or fails.",
  ["inputs"], "all keys, chain ids, field values, recipients (including contract creation) and access lists", "Tests use a few fixed main-net transactions, mostly needing the network.",
  ["common/proof/util.go"], [("unsigned encodings", "common/proof/util.go"), ("signature assembly", "common/proof/util.go")], ["recovered address, unsigned encoding, errors"])
p("C24", "Generated transaction and receipt proofs verify against the block's roots",
  "For every block and every index, the generated proof nodes form a path from the block's transaction or receipt root to exactly that entry's encoding under the RLP-encoded index, and the reported leaf prefix is what precedes the entry in the leaf. A block whose list does not match its root is refused, and raw receipt encoding equals the trie entry.",
  ["inputs"], "all list lengths (1 to several hundred), indices, transaction types and sizes", "The tests need the network and cover single transactions.",
  ["common/proof/tx_merkel_proof.go"], [("trie construction and proof extraction", "common/proof/tx_merkel_proof.go")], ["returned nodes, key, prefix, errors"])
p("C25", "The Ed25519 gadget accepts exactly the valid signatures",
  "For every public key, message and signature within the gadget's format, the circuit is satisfied if the signature is valid and unsatisfiable if the message, key or either signature half is altered.",
  ["inputs"], "all keys, messages and signatures, and alterations of each part", "The package's verification test is unstable and covers fixed vectors.",
  [G+"ed25519/ed25519.go", G+"ed25519/curve.go", G+"ed25519/point.go", G+"ed25519/twistededwards.go", G+"ed25519/params.go"],
  [("verification equation", G+"ed25519/ed25519.go"), ("group law", G+"ed25519/point.go")], ["satisfiability"])
p("C26", "Ed25519 curve operations satisfy the group law",
  "Addition, doubling, negation, fixed and double scalar multiplication and the on-curve assertion agree with the twisted Edwards group for every pair of points and every scalar, including the identity, points of small order, equal and opposite points. Points off the curve are rejected.",
  ["inputs"], "all point pairs and scalars including exceptional cases", "Tests check a few generic points.",
  [G+"ed25519/curve.go", G+"ed25519/point.go", G+"ed25519/twistededwards.go", G+"ed25519/params.go"], [("point formulas", G+"ed25519/point.go")], ["resulting coordinates, satisfiability"])
p("C27", "BLS12-381 extension-field and G2 operations are exact",
  "Every exported quadratic, sextic and twelfth-degree extension operation (product, square, inverse, Frobenius, conjugate, sparse products, cyclotomic forms) and G2 point operation equals the mathematical operation on all inputs where it is defined.",
  ["inputs"], "all field elements and points, including zero, one, modulus-adjacent and equal/opposite points", "Tests check one random value per operation and part of them are unstable.",
  [G+"pairing_bls12381/tower.go", G+"pairing_bls12381/g2.go", G+"pairing_bls12381/g1.go", G+"pairing_bls12381/gt.go", G+"pairing_bls12381/params.go"], [("tower arithmetic", G+"pairing_bls12381/tower.go"), ("G2 formulas", G+"pairing_bls12381/g2.go")], ["resulting coordinates"])
p("C28", "The BLS12-381 pairing gadget is the bilinear pairing",
  "For all subgroup points the pairing gadget equals the BLS12-381 optimal ate pairing, and the product check is satisfied if and only if the product of the pairings is one; Miller loop and final exponentiation compose to it.",
  ["inputs"], "all G1/G2 subgroup points and product lists; altered points", "Pairing tests are unstable and use one random pair.",
  [G+"pairing_bls12381/pairing.go", G+"pairing_bls12381/g2.go", G+"pairing_bls12381/tower.go"], [("Miller loop", G+"pairing_bls12381/pairing.go"), ("final exponentiation", G+"pairing_bls12381/pairing.go")], ["GT element, satisfiability"])
p("C29", "Hash-to-curve on G2 follows the standard map",
  "For every message and domain tag of the supported length the gadget's G2 point equals the standard hash-to-curve suite for BLS12-381 G2 (expand, map, isogeny, cofactor clearing). The result is always on the curve and in the prime-order subgroup.",
  ["inputs"], "all messages; intermediate field elements including exceptional ones", "Tests of this file are unstable and use one message.",
  [G+"pairing_bls12381/hash2curve.go"], [("message expansion", G+"pairing_bls12381/hash2curve.go"), ("map, isogeny and cofactor clearing", G+"pairing_bls12381/hash2curve.go")], ["point coordinates, intermediate field elements"])
p("C30", "Proof and public-input encodings preserve every word in order",
  "Encoding a proof with its public inputs for the chain yields exactly the 32-byte big-endian words in the documented order and width, decoding what was encoded returns the same values, and exporting a proof lists every coordinate in contract order. Values wider than a word are refused rather than truncated.",
  ["inputs"], "all coordinate values (with leading zeros, odd-length hex, zero), block numbers and ABI argument lists", "Tests compare fixed vectors.",
  ["common/proof/types.go", "common/proof/agg_exports.go", "common/utils/groth16_util.go", "common/utils/contract_codec.go"], [("word layout", "common/proof/types.go"), ("coordinate order", "common/utils/groth16_util.go")], ["encoded bytes, decoded values, errors"])
p("C31", "Chunk start tables and membership are exact",
  "For every chain the reported start block is the chain's documented one, a multiple of the 128-block chunk, and the reported first chunk is that block's chunk (block/128); chains without an entry start at block and chunk zero. Chunk depth, chunk size and sparse-tree depth agree (2^7 = 128 blocks, 2^18 leaves), and membership of a chunk root or index in a list is true exactly when the list holds it.",
  ["inputs"], "all chain ids, lists and looked-up values", "Tests check a few numbers.",
  ["common/circuits/smt.go", "common/utils/const.go"], [("start table", "common/utils/const.go"), ("membership", "common/circuits/smt.go")], ["returned values"])
p("C32", "Hex, padding and conversion helpers round-trip",
  "Encoding bytes, addresses, hashes and integers to hex and parsing them back returns the same value with or without prefix and for odd lengths, left padding preserves the value and refuses oversized input, hash validity accepts exactly 32-byte hex strings, and list helpers keep order and contents.",
  ["inputs"], "all byte strings, strings and integers", "Tests check a few strings.",
  ["common/utils/hex.go", "common/utils/utils.go", "common/utils/string.go", "common/utils/time.go"], [("hex codec", "common/utils/hex.go")], ["returned values, panics"])
p("C33", "Decoding a transaction leaf in circuit returns the transaction's fields",
  "For every typed transaction whose fields fit the declared bounds, decoding its leaf in circuit reports validity and exactly the field contents, and the numeric conversions of hex fields give the exact number.",
  ["inputs"], "all transactions with any field widths (empty, single byte, full width) and data lengths within bounds", "Tests decode a few fixed transactions.",
  [G+"rlp/rlp.go", G+"rlp/util.go"], [("leaf walk", G+"rlp/rlp.go")], ["reported fields, validity, numbers"])
p("C34", "Stored proving artefacts read back identically",
  "Writing a proving key, verifying key, constraint system or proof to disk and reading it back yields an equivalent object for every supported curve, and a missing or truncated file is reported as an error, never as a silently different object.",
  ["inputs", "fault_sequences", "configurations"], "all artefact kinds, curves and truncation points", "Tests write and read one artefact.",
  ["common/utils/pk-vk-utils.go", "common/utils/utils.go"], [("write and read", "common/utils/pk-vk-utils.go")], ["re-read objects, errors"])
p("C35", "Verifying-key commitments cover every key component",
  "The application key hash is MiMC over every component of the verifying key in the documented order, so that changing any single component changes the hash, and its re-hash to the smaller field splits the digest into halves without loss.",
  ["inputs"], "all verifying keys, single-component changes, digests", "No test changes a component.",
  ["common/utils/plonk_util.go", "common/utils/utils.go"], [("component order", "common/utils/plonk_util.go")], ["digests"])
p("C36", "Host hash helpers are deterministic functions of what was written",
  "The Poseidon hasher's digest depends exactly on the ordered values written since the last reset and equals the library digest of that list; the MiMC helpers pad and split bytes to field blocks losslessly within their limits and equal the native MiMC of those blocks.",
  ["inputs", "histories"], "all write/sum/reset histories and byte strings", "Tests hash fixed inputs once.",
  ["common/utils/poseidon_bn254.go", "common/utils/utils.go"], [("accumulated preimage", "common/utils/poseidon_bn254.go")], ["digests, errors"])
p("C37", "Beacon lookups give the explorer's number or none at all",
  "For every chain, number (of at most 53 bits in answers) and answer of the beacon explorer, a lookup of a slot (with its finality) or of a block makes at most one request, to the chain's own address, and returns exactly the number and finality of a complete, successful answer that holds them; for any other chain, a failed or broken-off request, an unsuccessful status, or an answer of any other shape it returns zero and not final, and it never crashes. BNB chains map a slot to the block of the same number without any request.",
  ["inputs", "environment"], "all chains, numbers, statuses, breaks and answer shapes", "No test reaches the network; answers without the expected fields never occur in tests.",
  ["common/eth/client.go"], [("lookup", "common/eth/client.go")], ["slot, finality, block number, requests"])
p("C38", "The object store client is faithful to the bucket",
  "Over every history of uploads, downloads, deletions, lookups and listings, with requests refused, failing once or broken off, the client reports success exactly when the store has done what was asked: a download gives the object last uploaded under that key, whole; an upload that was refused or whose source failed is reported and leaves the old object; an existence check says whether the key is held; a listing has every held key with the prefix, each once, in order and with its size, however many answers the store spreads it over. Object names are prefix/slot.json.",
  ["histories", "environment"], "all operation histories, page sizes and faults", "No test talks to a store; more objects than one answer holds, faults and broken bodies never occur in tests.",
  ["common/s3api/client.go", "common/s3api/utils.go"], [("object store client", "common/s3api/client.go")], ["results, errors, listings, objects"])
E5 = G + "ed25519/test/"
p("C39", "Host edwards25519 field and scalar arithmetic is exact in every history",
  "Field elements of the host edwards25519 library are integers modulo 2^255-19 and its scalars integers modulo the group order: after every sequence of operations, with any register as receiver and as arguments (the same one included) and starting from any 32-byte strings (reduced or not), every element encodes to the canonical bytes of the exact result, comparisons, signs, selections, inverses and square-root ratios are those of the field, scalars are read exactly (uniform, canonical, clamped), bytes of a wrong length or not canonical are refused and leave the receiver as it was, and nothing given to or taken from the library is shared with it. Both the assembly and the portable build do so.",
  ["inputs", "histories"], "all operation histories, aliasings and encodings", "Tests run single operations on fresh values; unreduced limbs pile up only over histories, and carries fail on rare limbs.",
  [E5 + "field/fe.go", E5 + "field/fe_generic.go", E5 + "scalar.go"], [("field arithmetic", E5 + "field/fe.go"), ("scalar arithmetic", E5 + "scalar.go")], ["encodings, flags, errors"])
p("C40", "Host edwards25519 points form the curve group",
  "Points of the host edwards25519 library are the points of the curve: after every sequence of additions, subtractions, negations, assignments, decodings and multiplications by scalars (of a point, of the generator, of both at once), with any register as receiver and argument, each register encodes the exact point, small-order points included; decoding takes exactly the strings whose ordinate is on the curve (unreduced ones and either sign at zero too), refuses others and leaves the receiver as it was; equality is equality of points, affine coordinates are exact, and a point that was never set is never taken for one.",
  ["inputs", "histories"], "all operation histories, aliasings, scalars and encodings", "Tests multiply a few random scalars and points of large order.",
  [E5 + "edwards25519.go", E5 + "scalarmult.go", E5 + "tables.go"], [("group operations", E5 + "edwards25519.go"), ("scalar multiplication", E5 + "scalarmult.go")], ["encodings, coordinates, flags, errors"])
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ids = set()
with open("properties.jsonl", "w") as f:
    for e in P:
        assert len(e["title"]) <= 80, (e["id"], len(e["title"]))
        assert e["id"] not in ids; ids.add(e["id"])
        for fn in e["anchors"]["files"]: assert os.path.exists("/repo/" + fn), fn
        f.write(json.dumps(e) + "\n")
print(len(P))
