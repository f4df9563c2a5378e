#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the list of properties)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

M2 = "src/v2/mod.rs"; I2 = "src/v2/map/input.rs"; O2 = "src/v2/map/output.rs"; G2 = "src/v2/map/global.rs"
M0 = "src/v0/bitcoin/mod.rs"; I0 = "src/v0/bitcoin/map/input.rs"

prop("C01", "Lock time of a version 2 PSBT is the one BIP-370 prescribes",
 "For a version 2 PSBT, determining the lock time fails exactly when one input requires only a time-based lock and another requires only a height-based lock. Otherwise, if no input has a required lock time the result is the fallback lock time (0 if absent); if any does, the result is the maximum of the required heights when every input that has a requirement has a height, else the maximum of the required times.",
 ["inputs"], "every number of inputs and every combination and value of the per-input required time/height and of the fallback",
 "the BIP-370 vectors sample about ten two-input combinations; the maximum and the choice of kind depend on every input at once",
 [M2, I2], [("determine_lock_time", M2), ("lock time predicates of an input", I2)])
prop("C02", "Roles keep the counts, contents and modifiable flags of a v2 PSBT right",
 "A Creator starts from an empty version 2 PSBT and its setters change only the field they name; each kind of Constructor can be obtained from an existing PSBT exactly when the corresponding modifiable flags are set. Adding an input or output through a Constructor appends exactly that item, increments exactly that count by one, and leaves everything else unchanged, so the stored counts always equal the number of inputs and outputs. Declaring no more inputs/outputs and becoming an Updater clear exactly the corresponding modifiable bits, and setting a sequence through the Updater changes only that field of the addressed input and fails out of bounds.",
 ["programs", "inputs"], "every sequence of builder calls on the Creator/Constructor/Updater and every starting PSBT",
 "tests follow one or two happy-path builder chains and do not check that the rest of the PSBT is unchanged",
 [M2, G2], [("Creator/Constructor/Updater builders", M2), ("modifiable flag setters", G2)],
 [("tx_modifiable_flags", "bit 0 inputs, bit 1 outputs, bit 2 has SIGHASH_SINGLE", G2), ("input_count/output_count", "number of maps that follow", G2)])
prop("C03", "Signed-for and extracted transactions are the one the v2 PSBT describes",
 "The unsigned transaction a Signer sees has the PSBT's transaction version, its determined lock time, for each input in order its previous outpoint, its sequence (0xffffffff when omitted) and empty script fields, and for each output in order its amount and script. The transaction an Extractor produces is that same transaction with only each input's final scriptSig and final witness filled in, and it is refused when any input is not finalized.",
 ["inputs"], "every PSBT, any number of inputs/outputs, with any field values",
 "examples sign with an explicit or default sequence on fixed one- or two-input PSBTs; agreement between what is signed and what is extracted was never tested",
 [M2, I2, O2, "src/v2/extract.rs"], [("unsigned_tx / unsigned_tx_in / tx_out", M2), ("internal_extract_tx / signed_tx_in", "src/v2/extract.rs")])
prop("C04", "The unique id of a v2 PSBT depends only on what BIP-370 says it does",
 "The id of a version 2 PSBT is the txid of its unsigned transaction with every sequence number set to 0. So it is unaffected by sequence updates, signatures, scripts, UTXOs, derivations, finalization, modifiable flags or proprietary/unknown data, and it is the same whichever role reports it.",
 ["inputs", "histories"], "every PSBT and every update of a field other than version, lock times, outpoints, amounts, scripts or the number of inputs/outputs",
 "no test computes the id after an update", [M2], [("Psbt::id and the role id methods", M2)])
prop("C05", "The fee is exact or an error",
 "For both PSBT versions the fee is the sum of the input UTXO values minus the sum of the output values, computed without wrap-around. It is an error if a UTXO is missing or its index is outside the provided previous transaction, if either sum exceeds 64 bits, or if outputs exceed inputs; the witness UTXO is used when both kinds are present.",
 ["inputs"], "every number of inputs/outputs and every amount up to 2^64-1",
 "tests use a handful of small amounts; overflow and the boundary between zero and negative fee need specific values",
 [M2, M0], [("Psbt::fee", M2), ("Psbt::fee", M0)])
prop("C06", "Extraction enforces the fee-rate limit",
 "Extracting with a fee-rate limit (25000 sat/vB by default) returns the transaction exactly when the fee can be computed and the fee in sat times 1000 divided by the transaction's weight (rounded down) does not exceed the limit in sat/kwu; otherwise the matching error is returned. In version 0 a negative fee returns the PSBT unchanged, a missing UTXO or absurd fee rate returns the extracted transaction, and the unchecked extraction never fails.",
 ["inputs"], "every finalized PSBT, fee and limit",
 "the existing test exercises one transaction at a few fee rates around the default limit",
 ["src/v2/extract.rs", M0], [("internal_extract_tx_with_fee_rate_limit", "src/v2/extract.rs"), ("internal_extract_tx_with_fee_rate_limit", M0)])
prop("C07", "Combining v2 PSBTs loses nothing and mixes nothing",
 "Combining two version 2 PSBTs succeeds only if PSBT version, transaction version, input and output counts, and every outpoint, amount and output script agree; the result then has every field and map entry present in either one, with a value that came from one of them for that same field and key. The combined modifiable bits are set only if set in both and the has-SIGHASH_SINGLE bit if set in either; for an xpub present in both, equal key sources are kept, a path that is a proper suffix of the other loses to the longer one, anything else is an error, and no combination panics.",
 ["inputs"], "all pairs of PSBTs, with each of about thirty fields absent, equal or different on either side",
 "no v2 combine test exists beyond a parsing vector; there are thousands of present/absent patterns",
 [M2, I2, O2, G2, "src/macros.rs"], [("combine_with", M2), ("Global/Input/Output::combine", G2), ("v2_combine_option / v2_combine_map", "src/macros.rs")])
prop("C08", "Combining v0 PSBTs loses nothing and mixes nothing",
 "Combining two version 0 PSBTs fails, leaving no partial merge of inputs or outputs, if their unsigned transactions differ; otherwise the result has every field and map entry present in either one with a value that came from one of them for that same field and key, and the higher version number. For an xpub present in both, equal key sources are kept, a path that is a proper suffix of the other loses to the longer one, anything else is an error, and no combination panics.",
 ["inputs"], "all pairs of v0 PSBTs",
 "the BIP-174 vectors combine one pair; commutativity is checked on one pair",
 [M0, I0, "src/v0/bitcoin/map/output.rs", "src/v0/bitcoin/macros.rs"], [("Psbt::combine", M0), ("Input::combine / Output::combine", I0)])
prop("C09", "Serialized v2 PSBTs deserialize to the same PSBT",
 "Every version 2 PSBT whose counts match its inputs and outputs and whose fields are encodable serializes to bytes that deserialize to an equal PSBT, in binary, hex and base64 form; in particular every field of the global, input and output maps survives, including zero amounts, absent optional fields, proprietary and unknown pairs. Each map is a sequence of pairs ended by a single zero byte, with the fields under the key types BIP-174/370/371 assign.",
 ["inputs"], "every PSBT value (all fields in any combination)",
 "tests round-trip a default input, a default output and a few vectors; most of the fields are never set together",
 ["src/v2/mod.rs", I2, O2, G2, "src/v2/map/mod.rs", "src/serialize.rs", "src/macros.rs"],
 [("serialize / serialize_map / get_pairs", "src/v2/map/mod.rs"), ("decode / insert_pair", I2), ("typed value codecs", "src/serialize.rs")])
prop("C10", "Malformed v2 PSBTs are rejected, and what is accepted is complete",
 "Decoding a version 2 PSBT succeeds only if it starts with the magic and separator, its version is 2, transaction version and both counts are present, as many input and output maps as the counts say follow, and every input has a previous txid and output index and every output an amount (and a script, unless silent payments are enabled). A repeated key, key data on a key that takes none, missing key data on a key that needs it, a fixed-length value of the wrong length, an embedded unsigned transaction or truncated data is always an error, whatever the order of the pairs.",
 ["inputs"], "every byte string: every reordering, duplication, deletion and modification of pairs",
 "about 25 invalid vectors from the BIPs; each mutates one valid PSBT in one way",
 [M2, I2, O2, G2, "src/macros.rs", "src/raw.rs"], [("Psbt::deserialize", M2), ("Global/Input/Output::decode and insert_pair", I2)])
prop("C11", "v0 PSBTs round-trip and malformed ones are rejected",
 "Every version 0 PSBT with encodable fields and an unsigned transaction free of scriptSigs and witnesses serializes to bytes that deserialize to an equal PSBT. Decoding and construction reject an unsigned transaction with any scriptSig or witness, a missing or repeated unsigned transaction, repeated keys, key data on keys that take none or missing where required, the keys that only version 2 allows, wrong magic and truncated data.",
 ["inputs"], "every v0 PSBT value and every mutation of its encoding",
 "a few dozen vectors", [M0, "src/v0/bitcoin/map/mod.rs", I0, "src/v0/bitcoin/map/global.rs", "src/v0/bitcoin/map/output.rs", "src/v0/bitcoin/macros.rs", "src/v0/bitcoin/raw.rs", "src/v0/bitcoin/serialize.rs"],
 [("Psbt::serialize/deserialize", M0), ("insert_pair / get_pairs", I0), ("unsigned_tx_checks", M0)])
prop("C12", "Untrusted data never makes the library panic or over-allocate",
 "Deserializing any byte string as a version 0 or 2 PSBT returns a value or an error, without panicking and without allocating memory out of proportion to the input. The same holds for querying, checking, combining, signing, extracting and displaying the result, including PSBTs whose UTXO index, counts, scripts or sighash types are inconsistent.",
 ["inputs"], "every byte string and every operation on the value it decodes to",
 "tests feed well-formed PSBTs to these operations; inconsistent ones only in a few vectors",
 [M2, G2, I2, O2, "src/raw.rs", M0, "src/v0/mod.rs"], [("index and count checks", M2), ("length checks of the raw decoder", "src/raw.rs")])
prop("C13", "Raw key-value pairs and proprietary keys encode and decode exactly",
 "A raw key encodes as the compact-size of one plus its data length, its type byte and its data, a pair as its key followed by its length-prefixed value, and decoding returns exactly what was encoded and consumes exactly those bytes. A zero length byte is reported as the end of a map, a truncated key or value is an error, and a proprietary key (key data up to 1024 bytes) converts to a raw key of type 0xFC and back unchanged, while other types are refused.",
 ["inputs"], "every key type, key data and value",
 "one or two keys are used in tests", ["src/raw.rs", "src/v0/bitcoin/raw.rs"],
 [("Key/Pair/ProprietaryKey codecs", "src/raw.rs"), ("Key/Pair/ProprietaryKey codecs", "src/v0/bitcoin/raw.rs")])
prop("C14", "v2 signatures commit to the right script, amount and sighash type",
 "For a version 2 PSBT the message to sign for an input is the legacy signature hash over the scriptPubkey (bare) or the redeem script (P2SH), or the segwit v0 signature hash over the key-hash script (P2WPKH, nested or not) or the witness script (P2WSH, nested or not), with the amount of the funding UTXO and the input's sighash type (ALL when absent). The funding UTXO is the witness UTXO if present, else the output of the non-witness UTXO at the spent index; an index out of range, missing UTXO or script, non-standard sighash type, taproot or unknown witness program is an error.",
 ["inputs"], "every kind of scriptPubkey/redeem/witness script combination, input index and sighash type",
 "the tests classify a couple of outputs; the signature hash is only exercised for one P2WPKH flow",
 [M2, I2], [("sighash_ecdsa / output_type / checked_input", M2), ("funding_utxo / ecdsa_hash_ty", I2)])
prop("C15", "v0 signatures commit to the right script, amount and sighash type",
 "For a version 0 PSBT the ECDSA message to sign for an input is the legacy signature hash over the scriptPubkey (bare) or the redeem script (P2SH), or the segwit v0 signature hash over the key-hash script (P2WPKH, nested or not) or the witness script (P2WSH, nested or not), with the amount of the spent UTXO and the input's sighash type (ALL when absent). The spent UTXO is the witness UTXO if present, else the output of the non-witness UTXO at the index the unsigned transaction spends; an index out of range, missing UTXO or script, or non-standard sighash type is an error.",
 ["inputs"], "every kind of scriptPubkey/redeem/witness script combination, input index and sighash type",
 "the tests sign a few fixed PSBTs", [M0], [("sighash_ecdsa / output_type / spend_utxo", M0), ("ecdsa_hash_ty", I0)])
prop("C16", "Signing a v2 PSBT adds only its own signatures and restricts modification",
 "Signing adds, for each ECDSA input, one signature per listed derivation key the key provider can serve, stored under that key with the input's sighash type, and it changes nothing else in the inputs and outputs. After a signature was added the inputs-modifiable flag is cleared unless its sighash has ANYONECANPAY, the outputs-modifiable flag is cleared unless it is NONE, and the has-SIGHASH_SINGLE flag is set if it is SINGLE; if no signature was added the flags are unchanged. An input whose message cannot be computed is reported as an error only if a key for it was available.",
 ["inputs"], "every PSBT, key provider and sighash type",
 "one example flow with SIGHASH_ALL", [M2], [("Psbt::sign / bip32_sign_ecdsa / clear_tx_modifiable", M2)])
prop("C17", "Private keys are handed out only for the request they match",
 "An extended private key, or a set of them, answers a derivation request with the key derived along the requested path exactly when its own fingerprint is the requested one, and a map of keys answers a public key request with the stored key for exactly that public key. Unsupported request kinds are reported as not supported, and a request that matches nothing yields no key, in both PSBT versions.",
 ["inputs"], "every key, set of keys, fingerprint, path and request",
 "tests cover an Xpriv hit and a map hit", [M2, M0], [("impls of GetKey", M2), ("impls of GetKey", M0)])
prop("C18", "Finalizing a v2 PSBT keeps what extraction needs and clears the rest",
 "A Finalizer is only created if every input has a funding UTXO, the lock time can be determined and all partial signatures have the declared sighash type. Finalizing an input sets its final scriptSig and final witness, keeps its outpoint, UTXOs, sequence, required lock times, proprietary and unknown data, and clears every other field; the global map and the outputs are unchanged, so the finalized PSBT is extractable and describes the same transaction. An input counts as finalized exactly when both final fields are present.",
 ["inputs"], "every PSBT that can be finalized and every combination of its fields",
 "there is no v2 finalizer test with lock times, sequences or extra fields",
 ["src/v2/miniscript/finalize.rs", I2, "src/v2/extract.rs"], [("Finalizer::new / finalize", "src/v2/miniscript/finalize.rs"), ("Input::finalize / is_finalized", I2)])
prop("C19", "Sighash type conversions are exact",
 "A PSBT sighash type made from an ECDSA or taproot sighash type converts back to exactly that type, keeps its 32-bit value through serialization, and prints to a string that parses back to it. Any 32-bit value converts to an ECDSA type only if it is one of the six standard values and to a taproot type only if it is one of the seven valid ones, with the value itself reported otherwise.",
 ["inputs"], "all 2^32 values", "tests enumerate the standard values and a few others",
 ["src/sighash_type.rs", "src/serialize.rs"], [("conversions", "src/sighash_type.rs")])
prop("C20", "Partial signatures with another sighash type are refused for finalizing",
 "The version 2 finalizer accepts a PSBT only if for every input every partial signature's sighash type equals the input's declared standard ECDSA sighash type (ALL when absent). The first offending input is reported with its index, and for a mismatch the required type, the found type and the public key.",
 ["inputs"], "every number of inputs and partial signatures and every sighash type",
 "no test", [M2, "src/v2/miniscript/finalize.rs"], [("check_partial_sigs_sighash_type", M2)])
prop("C21", "Finalization only relies on lock times and preimages the input really has",
 "When satisfying an input's script, an absolute lock is considered met only if the transaction's lock field for that input is of the same kind and at least as large, and a relative lock only if the input's sequence implies it (and, for version 0, the transaction version is at least 2 and the sequence is not final). A hash preimage is offered only if it is 32 bytes and recorded for that hash, and a signature only if it is recorded for that key (and leaf).",
 ["inputs"], "every lock time, sequence, preimage length and recorded signature",
 "tests only finalize scripts without locks in v2; one or two in v0",
 ["src/v2/miniscript/satisfy.rs", "src/v0/miniscript/mod.rs"], [("InputSatisfier", "src/v2/miniscript/satisfy.rs"), ("PsbtInputSatisfier", "src/v0/miniscript/mod.rs")])
prop("C22", "The v0 signer checks accept exactly consistent inputs",
 "The version 0 signer checks fail if any input has a witness UTXO with a bare scriptPubkey, a non-witness UTXO whose txid is not the spent one, a redeem script whose P2SH script is not the spent scriptPubkey, or a witness script whose P2WSH script is not the spent P2WSH scriptPubkey (or, for P2SH with a redeem script, not that redeem script). They fail if a redeem or witness script is present without a usable UTXO, and succeed otherwise.",
 ["inputs"], "every PSBT and every combination of UTXO kinds and scripts on any input",
 "four invalid BIP-174 vectors and no valid one", ["src/v0/mod.rs"], [("signer_checks", "src/v0/mod.rs")])
prop("C23", "Silent payment fields are paired, sized and preserved",
 "With silent payments enabled, decoding accepts ECDH shares only together with DLEQ proofs (in the global map and in each input) and an output label only together with the silent payment info, accepts only 33-byte valid compressed keys as scan keys and shares, 64-byte proofs, 66-byte info and 4-byte labels, and rejects duplicates and unexpected key data. These fields round-trip through serialization and are merged by combining like any other.",
 ["inputs", "configurations"], "every combination, length and duplication of the fields, in all three map kinds",
 "the BIP-375 vectors cover a few combinations", ["src/v2/dleq.rs", "src/macros.rs", G2, I2, O2], [("v2_impl_psbt_insert_sp_pair", "src/macros.rs"), ("pairing checks in decode", G2)])
prop("C24", "Recorded hash preimages always match their hash",
 "Decoding an input of either PSBT version accepts a RIPEMD160, SHA256, HASH160 or HASH256 preimage only if hashing it with that algorithm gives the key it is stored under, and records exactly that preimage under exactly that hash; any other pair, an empty key or a repeated hash is an error.",
 ["inputs"], "every hash kind, key and preimage", "the invalid vectors do not cover every hash kind or a repeated hash",
 [I2, I0], [("psbt_insert_hash_pair", I2), ("psbt_insert_hash_pair", I0)])
prop("C25", "Updating a v0 PSBT from a descriptor requires the descriptor to match",
 "Updating a version 0 input or output from an output descriptor succeeds only if the UTXO's (or output's) scriptPubkey is the descriptor's and, for a non-witness UTXO, its txid is the spent one; it then records the descriptor's redeem/witness scripts and key origins.",
 ["inputs"], "every descriptor and PSBT", "a handful of descriptors", ["src/v0/miniscript/mod.rs"], [("update_input_with_descriptor / update_output_with_descriptor", "src/v0/miniscript/mod.rs")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
    assert all(len(p["title"]) <= 80 for p in P), [p["id"] for p in P if len(p["title"]) > 80]
print(len(P))
