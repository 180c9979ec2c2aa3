#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is easier to edit here than as JSON lines)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Transaction wire encoding round-trips",
 "Serialising any transaction (any version, inputs, outputs, scripts, amounts, locktime) yields exactly the Bitcoin wire encoding, with minimal compact-size counts and lengths, and parsing that encoding, as bytes or as hex, returns a transaction with identical fields. A single input or output parses from the front of a longer buffer and reports exactly how many bytes it occupied.",
 ["inputs"], "all transactions: 0 to thousands of inputs and outputs, scripts of any length across every compact-size boundary, all 32- and 64-bit field values",
 "The tests parse seven fixed transactions with one or two inputs and short scripts; no test compares re-serialised bytes, none reaches a length prefix above one byte.",
 ["transaction/Transaction.go", "transaction/input/Input.go", "transaction/output/Output.go", "utils/VarInt.go"],
 [("serialiser", "transaction/Transaction.go toBytesHelper, Input.ToBytes, Output.ToBytes"), ("parser", "transaction.NewFromBytes, input.NewFromBytes, output.NewFromBytes"), ("length prefix", "utils/VarInt.go")],
 ["Transaction.ToBytes/ToString", "transaction.NewFromBytes/NewFromString", "input.NewFromBytes", "output.NewFromBytes"])

prop("C02", "Malformed transaction bytes are rejected cleanly",
 "Parsing any byte string or hex string as a transaction, an input or an output terminates with a value or an error, never a crash or runaway work, whatever counts and lengths the bytes claim. Every truncation of a valid encoding, every transaction followed by trailing bytes and every non-hex string is an error. Whatever is accepted re-serialises to the bytes it came from, up to length prefixes that were not minimal.",
 ["inputs"], "all byte strings, in particular truncations, extensions, and corruptions of valid encodings and hostile 64-bit counts and lengths",
 "The tests only ever parse valid transactions; the space of malformed encodings is unbounded.",
 ["transaction/Transaction.go", "transaction/input/Input.go", "transaction/output/Output.go", "utils/VarInt.go"],
 [("bounds checks", "transaction.NewFromBytes, input.NewFromBytes, output.NewFromBytes"), ("length prefix decoding", "utils.DecodeVarInt")],
 ["transaction.NewFromBytes/NewFromString", "input.NewFromBytes", "output.NewFromBytes"])

prop("C03", "Transaction id, totals and coinbase classification",
 "A transaction's id is the hex of the byte-reversed double SHA-256 of its serialisation, its input and output counts and lists reflect its contents in order, and its total output value is the 64-bit sum over all its outputs. A transaction is classified as a coinbase whenever its only input spends the null outpoint (zero id, index 0xffffffff), and never when it has a different number of inputs or its input spends a non-zero transaction id.",
 ["inputs"], "all transactions, including zero and many outputs, coinbase-like inputs with arbitrary index and sequence",
 "One fixed txid, one two-output total and three coinbase cases are tested.",
 ["transaction/Transaction.go", "crypto/Hash.go", "utils/ByteManipulation.go"],
 [("id", "Transaction.GetTxID"), ("totals", "Transaction.GetTotalOutputSatoshis"), ("coinbase test", "Transaction.IsCoinbase")],
 ["Transaction.GetTxID", "InputCount/OutputCount/GetInputs/GetOutputs", "GetTotalOutputSatoshis", "IsCoinbase"])

prop("C04", "Signature hash equals the replay-protected digest",
 "For every transaction, input index and fork-id signature-hash flag, the signature hash equals the replay-protected digest of the Bitcoin SV specification (double SHA-256 of version, hash of prevouts, hash of sequences, outpoint, script code, value, sequence, hash of outputs, locktime and flag, with the omissions the flag prescribes), in reversed byte order. Asking for an input that does not exist, or one without its previous transaction id or script, is an error. Computing it does not change the transaction.",
 ["inputs"], "all transactions x input index x the 128 flag bytes that carry the fork-id bit (all base types, with and without ANYONECANPAY), including SINGLE with more inputs than outputs",
 "Three vectors, all SIGHASH_ALL|FORKID (the loop even ignores the table's flag); a TODO says the other flags are untested.",
 ["transaction/SignatureHash.go", "transaction/output/Output.go", "transaction/signature/sighash/SigHashFlag.go"],
 [("digest", "Transaction.GetInputSignatureHash, getPrevoutHash, getSequenceHash, getOutputsHash"), ("output serialisation", "Output.GetBytesForSigHash"), ("flags", "sighash constants")],
 ["Transaction.GetInputSignatureHash"])

prop("C05", "Signed inputs are accepted by a script interpreter",
 "Signing an input that spends a P2PKH output with the matching key under any defined fork-id signature type gives it an unlocking script, a low-S DER signature with the flag byte followed by the compressed public key, that a Bitcoin script interpreter accepts for that output and amount, and changes nothing else. Signing is deterministic; changing anything the flag commits to makes the interpreter reject the signature, and changing what it does not commit to leaves it accepted. Signing an input that does not exist or lacks its previous id or script is an error that leaves the transaction as it was.",
 ["inputs", "histories"], "all keys, transactions, input indexes and the six defined fork-id flag combinations (plus the default flag), with one mutation of the signed transaction",
 "One signing test, one key, SIGHASH_ALL only, compared with a recorded hex string; no signature is ever verified.",
 ["transaction/signature/InternalSigner.go", "transaction/SignatureHash.go", "script/UnlockingScript.go", "transaction/Transaction.go"],
 [("signing", "InternalSigner.Sign"), ("unlocking script", "script.NewP2PKHUnlockingScript"), ("application", "Transaction.Sign, ApplyUnlockingScript")],
 ["Transaction.Sign", "InternalSigner.Sign", "Transaction.ToBytes", "bsvd/txscript engine verdict"])

prop("C06", "Automatic signing signs exactly the signer's inputs",
 "Automatic signing gives a valid unlocking script to every input that spends a P2PKH output of the signer's key and leaves every other input, and everything else in the transaction, exactly as it was; several signers applied one after the other, in any order, complete the transaction. A transaction takes over whatever transaction a custom signer returns, and is left unchanged with the error reported when the signer fails.",
 ["inputs", "histories"], "transactions mixing inputs of several keys and non-P2PKH or missing previous scripts, sequences of signers, failing and substituting custom signers",
 "One test: one input, one key, success only.",
 ["transaction/signature/InternalSigner.go", "transaction/Transaction.go", "script/Script.go"],
 [("input selection", "InternalSigner.SignAuto, Script.GetPublicKeyHash"), ("delegation", "Transaction.Sign, Transaction.SignAuto")],
 ["Transaction.SignAuto", "Transaction.Sign", "bsvd/txscript engine verdict"])

prop("C07", "Push-data encoding is minimal and round-trips",
 "Any list of non-empty data items encodes as pushes that each use the shortest length prefix for the item's size (a direct length up to 75 bytes, then 1-, 2- and 4-byte lengths), and decoding the result returns exactly those items in order; an empty item encodes as the single zero byte. Appending the items to a script one at a time, as one batch, as hex or as text adds the same bytes and leaves the script's earlier bytes alone.",
 ["inputs"], "all lists of byte strings, with lengths around every prefix boundary (75/76, 255/256, 65535/65536) and item sizes up to hundreds of kilobytes",
 "Two decode-then-encode examples with 5-byte and 2-byte items; one 290-byte output. The boundaries are untested (and 65533..65535-byte items crashed the decoder).",
 ["script/OpPushdata.go", "script/Script.go"],
 [("prefix", "script.GetPushDataPrefix"), ("encoder", "script.EncodeParts"), ("decoder", "script.DecodeParts"), ("appenders", "Script.AppendPushData*")],
 ["script.EncodeParts/DecodeParts/GetPushDataPrefix", "Script.AppendPushData, AppendPushDataHexString, AppendPushDataString, AppendPushDataArray, AppendPushDataStrings"])

prop("C08", "Script decoding is total and faithful",
 "Decoding any byte string as a script, given as bytes or hex, terminates without crashing: it returns the script's elements in order, each either a single opcode byte or the exact pushed data, with nothing lost or invented, or an error exactly when a push opcode or its length field claims more bytes than remain. Hex and byte forms agree and non-hex text is an error.",
 ["inputs"], "all byte strings, including truncated pushes, non-minimal pushes, maximal 2- and 4-byte lengths, and scripts with every opcode",
 "Seven example scripts; two truncations. Lengths near the 16- and 32-bit limits are not reached.",
 ["script/OpPushdata.go"],
 [("decoder", "script.DecodeParts, script.DecodeStringParts")],
 ["script.DecodeParts", "script.DecodeStringParts"])

prop("C09", "ASM text and script bytes correspond",
 "Rendering any decodable script as ASM and assembling that text again gives a script with the same opcodes and the same pushed data, push prefixes becoming minimal, and a script whose pushes are already minimal comes back byte for byte. Opcodes and their names correspond in both directions as in Bitcoin's opcode table, and pushed data appears as hex whatever its length. Text with a word that is neither an opcode name nor hex is an error, as is rendering a script that does not decode.",
 ["inputs"], "all scripts over every opcode and push form (including one-byte, empty and long pushes) and all ASM texts over opcode names and hex words",
 "One P2PKH script in each direction; 5 of about 250 opcode names.",
 ["script/Script.go", "script/Opcodes.go", "script/OpPushdata.go"],
 [("renderer", "Script.ToASM"), ("assembler", "script.NewFromASM"), ("name tables", "opCodeStrings, opCodeValues, Op* constants")],
 ["Script.ToASM", "script.NewFromASM", "script.Op* constants"])

prop("C10", "Script predicates match their templates exactly",
 "The P2PKH, P2PK, P2SH, data-output and multisig predicates answer true for exactly the scripts of their template (for multisig: small-integer opcode, pushed keys, small-integer opcode, OP_CHECKMULTISIG) and false for every other byte string, including empty, truncated and near-miss scripts, never mistaking pushed data for an opcode and never crashing. Extracting the public key hash returns the 20 hash bytes of a P2PKH script and an error for every other script.",
 ["inputs"], "all byte strings; in particular template instances and every single-element change, deletion, insertion or re-encoding of one",
 "One positive example per predicate; no negative example except the empty script for hash extraction.",
 ["script/Script.go", "script/OpPushdata.go"],
 [("predicates", "Script.IsP2PKH, IsP2PK, IsP2SH, IsData, IsMultisigOut"), ("extraction", "Script.GetPublicKeyHash")],
 ["Script.IsP2PKH/IsP2PK/IsP2SH/IsData/IsMultisigOut", "Script.GetPublicKeyHash"])

prop("C11", "All ways of paying a key give the same locking script",
 "Building a P2PKH locking script from a public key, from its 20-byte hash, or from the key's mainnet or testnet address gives the same standard 25-byte script, from which the hash can be extracted again; outputs and payments built from the hash or address carry that script and the requested amount. Malformed hex, hashes that are not 20 bytes long and invalid addresses are errors, and a failed payment adds no output.",
 ["inputs"], "all public keys, 20-byte hashes, amounts and networks; malformed hex, wrong-length hashes and invalid addresses",
 "One fixed key, one hash and one address, each against a recorded script; no error case.",
 ["script/Script.go", "script/address/Address.go", "transaction/output/Output.go", "transaction/Transaction.go"],
 [("builders", "script.NewP2PKHFrom*, output.NewP2PkhFromPubKeyHash, output.NewP2PKHFromAddress"), ("payment", "Transaction.PayTo")],
 ["script.NewP2PKHFromPubKeyStr/PubKeyBytes/PubKeyHashStr/Address", "output.NewP2PKH*", "Transaction.PayTo"])

prop("C12", "Addresses and key hashes correspond one to one",
 "For any public key or 20-byte hash the mainnet and testnet addresses are the Base58Check strings of version byte 0x00 or 0x6f and the hash, the three constructors agree, and parsing an address returns that hash and the string itself. A string that is not the Base58Check form of a mainnet or testnet P2PKH address, whether through a mistyped, dropped, added or swapped character, a wrong checksum, a wrong length or another version byte, is rejected with an error.",
 ["inputs"], "all 20-byte hashes (including ones with leading zero bytes), both networks, all strings and in particular all small edits of valid addresses",
 "Two valid addresses of one hash, one short string and one unsupported version; the checksum is never exercised (the parser ignored it).",
 ["script/address/Address.go"],
 [("parser", "address.NewFromString"), ("constructors", "address.NewFromPublicKey, NewFromPublicKeyHash, NewFromPublicKeyString"), ("checksum", "address.Base58EncodeMissingChecksum")],
 ["address.NewFromString", "address.NewFromPublicKey*", "address.Base58EncodeMissingChecksum"])

prop("C13", "Address validation accepts exactly valid addresses",
 "Address validation reports valid exactly for canonical Base58Check mainnet and testnet P2PKH addresses and for bitcoin-script BIP276 strings with a correct checksum, and reports everything else invalid with an error, without crashing. On strings that are not BIP276 it agrees with the address parser.",
 ["inputs"], "all strings: valid addresses and their small edits, other versions and lengths, extra or missing leading 1s, non-base58 characters, intact and damaged BIP276 strings",
 "Three valid strings; not one invalid string is tested.",
 ["script/address/AddressValidation.go", "script/address/BIP276.go"],
 [("validator", "address.ValidateAddress, validA58, set58")],
 ["address.ValidateAddress", "address.NewFromString"])

prop("C14", "BIP276 strings round-trip and detect damage",
 "Encoding any non-empty prefix, data, network and version from 1 to 255 and decoding the text returns the same prefix, version, network and data; a network or version outside that range yields the text ERROR. The named prefixes, networks and version have the values BIP276 gives them. A text that differs from a produced one in any decoded field or in its checksum is rejected, and any text not of the BIP276 form is an error, never a crash.",
 ["inputs"], "all prefixes, data, networks, versions; all single-character edits of valid strings; arbitrary text",
 "One encoding and one decoding with network = version = 1, where swapping the two or mixing decimal and hex cannot be seen; no damaged text.",
 ["script/address/BIP276.go"],
 [("encoder", "address.EncodeBIP276"), ("decoder", "address.DecodeBIP276")],
 ["address.EncodeBIP276", "address.DecodeBIP276"])

prop("C15", "Output builders encode exactly the given data",
 "A data output carries zero satoshis and a script of OP_FALSE OP_RETURN followed by minimal pushes of exactly the given parts in order, and is recognised as a data output; a hash-puzzle output locks the given amount to the HASH160 of the secret and then to the given key hash. Decoding a built script, before or after a trip through the wire encoding, returns the data it was built from.",
 ["inputs"], "all lists of data parts (empty, single, many, sizes across the push boundaries), all secrets, key hashes and amounts",
 "One 290-byte data output, one four-part output, one puzzle.",
 ["transaction/output/Output.go", "script/Script.go", "script/OpPushdata.go"],
 [("data outputs", "output.NewOpReturn, NewOpReturnParts"), ("hash puzzle", "output.NewHashPuzzle")],
 ["output.NewOpReturn/NewOpReturnParts/NewHashPuzzle", "Output.GetLockingScriptHexString", "script.DecodeParts"])

prop("C16", "Multisig redeem scripts are canonical",
 "For any threshold from 2 to 16 and any keys, the redeem script is the threshold opcode, the compressed keys in ascending byte order, the key-count opcode and OP_CHECKMULTISIG; it, its hash and its address do not depend on the order keys were added in nor on how often they are asked for. Keys are the two-level children of the given extended keys; a derivation path of another length or an invalid key is an error that adds nothing; thresholds outside 2 to 16 are refused. The address is the Base58Check P2SH address of the script's HASH160.",
 ["inputs", "histories"], "all sets of up to 16 extended keys, derivation paths, insertion orders and interleavings of adding keys with asking for the script",
 "Two keys in two orders at path 0/0, threshold 2, one recorded address.",
 ["script/RedeemScript.go", "utils/ByteManipulation.go"],
 [("construction", "script.NewRedeemScript, AddPublicKey, GetRedeemScript"), ("ordering", "utils.SortByteArrays"), ("address", "RedeemScript.GetAddress, GetRedeemScriptHash")],
 ["RedeemScript.GetRedeemScript/GetRedeemScriptHash/GetAddress", "AddPublicKey"],
 [("PublicKeys", "compressed keys collected so far, re-sorted when the script is produced", "script/RedeemScript.go RedeemScript")])

prop("C17", "Electrum redeem scripts convert faithfully",
 "An Electrum partial redeem script (threshold, ff-prefixed extended keys with two-level derivation paths, key count, OP_CHECKMULTISIG) converts to the same redeem script and address as adding those extended keys and paths one by one. Any other text, including truncated, non-hex, wrong-count, wrong-threshold or wrong-terminator scripts, is an error, never a crash.",
 ["inputs"], "all thresholds 2 to 15, key sets and 16-bit path elements; all corruptions and truncations of such scripts and arbitrary bytes",
 "One recorded script; no error case.",
 ["script/RedeemScript.go", "script/OpPushdata.go", "script/address/Address.go"],
 [("conversion", "script.NewRedeemScriptFromElectrum")],
 ["script.NewRedeemScriptFromElectrum"])

prop("C18", "Coinbase merkle branches lead to the block's merkle root",
 "For any non-empty list of transaction ids, combining the first transaction's hash with the merkle branches computed from the list gives the merkle root of the whole list (the last hash of an odd level being paired with itself). The branches do not depend on the first id, so a miner can change the coinbase without recomputing them, and there is exactly one branch per level of the tree.",
 ["inputs"], "all lists of 1 to thousands of 32-byte ids, every parity pattern of tree levels",
 "No test computes merkle branches at all (the test file of that name only checks a recorded proof).",
 ["block/GetMerkleBranches.go", "block/BuildMerkleRootFromCoinbase.go", "utils/ByteManipulation.go"],
 [("branches", "block.GetMerkleBranches"), ("root", "block.BuildMerkleRootFromCoinbase")],
 ["block.GetMerkleBranches", "block.BuildMerkleRootFromCoinbase"])

prop("C19", "Merkle proofs verify at every position",
 "For any list of transaction ids and any position in it, recomputing the root from that transaction's id, its position and its merkle path gives the list's merkle root, and any change to the id, a path element or the position's low bits gives a different root unless the change makes no difference to the tree. A position that the path's length cannot address, including a negative one, and non-hex ids or path elements are errors.",
 ["inputs"], "all trees, all positions, all single changes to a proof, all out-of-range positions",
 "One recorded proof of depth 6.",
 ["block/GetMerkleBranches.go"],
 [("proof evaluation", "block.MerkleRootFromBranches")],
 ["block.MerkleRootFromBranches"])

prop("C20", "Block headers have the 80-byte wire layout",
 "A built block header is the little-endian version, the byte-reversed previous block hash, and then the given merkle root, time, bits and nonce in that order: 80 bytes which a Bitcoin header parser reads back as the same fields and whose double SHA-256 is the block's hash.",
 ["inputs"], "all versions, hashes, roots, times, bits and nonces",
 "Building a header is not tested.",
 ["block/BuildBlockHeader.go"],
 [("layout", "block.BuildBlockHeader")],
 ["block.BuildBlockHeader", "bsvd/wire BlockHeader decoding"])

prop("C21", "Assembled coinbase transactions are valid and complete",
 "For any height below 2^24, value, text, P2PKH address, optional witness-commitment and miner-id outputs, and extra nonces of 12 bytes in total, the two coinbase parts joined around the nonces form a transaction that parses and is a coinbase. Its input script is at most 100 bytes and holds the height push, as much of the text as fits, and the nonces in order; its outputs are the full value to the address, then each optional script with zero value. An invalid address or commitment is an error.",
 ["inputs"], "all heights < 2^24, values, texts of any length (including ones that must be truncated), addresses, commitments and miner ids of any length, splits of the 12 nonce bytes",
 "Coinbase assembly is not tested at all.",
 ["block/GetCoinbaseParts.go", "transaction/output/Output.go", "utils/VarInt.go"],
 [("parts", "block.GetCoinbaseParts, makeCoinbase1, makeCoinbase2, makeCoinbaseOutputTransactions"), ("assembly", "block.BuildCoinbase")],
 ["block.GetCoinbaseParts", "block.BuildCoinbase", "transaction.NewFromBytes"])

prop("C22", "Compact targets and difficulty are computed exactly",
 "Expanding compact bits gives mantissa times 256^(exponent-3), as an integer and as 64 hex digits when it is a non-negative number of at most 256 bits; text that is not eight hex digits' worth of bits, or a target beyond 256 bits asked for as 64 digits, is an error, never a crash. The difficulty of bits with a positive target is the genesis target divided by that target to floating-point precision, so that equal targets have equal difficulty and a larger target never has a larger one.",
 ["inputs"], "all 2^32 compact values (all exponents 0 to 255, sign bit included) and arbitrary text",
 "Two expansions, one malformed text, three difficulties; exponents below 3 and above 32 are never used.",
 ["block/Difficulty.go"],
 [("expansion", "block.ExpandTargetFrom, ExpandTargetFromAsInt"), ("difficulty", "block.DifficultyFromBits")],
 ["block.ExpandTargetFrom", "block.ExpandTargetFromAsInt", "block.DifficultyFromBits"])

prop("C23", "Hashrate estimates and their display are consistent",
 "The estimated hashrate is difficulty times 2^256 divided by the chain's difficulty-one target (the regtest target for coins whose ticker starts with R, the main one for every other) and by the block time, to floating-point precision. Its display picks the largest unit from H/s to ZH/s not exceeding the value and shows the value in that unit to two decimals.",
 ["inputs"], "all tickers, difficulties, positive block times and all finite non-negative rates across every unit boundary",
 "Two hashrates, displayed in two of the eight units.",
 ["block/Difficulty.go", "utils/HumanHash.go"],
 [("estimate", "block.DifficultyToHashrate"), ("display", "utils.HumanHash")],
 ["block.DifficultyToHashrate", "utils.HumanHash"])

prop("C24", "Compact-size integers encode minimally and round-trip",
 "Every 64-bit value encodes to the shortest of the 1-, 3-, 5- and 9-byte compact-size forms with its bytes little-endian, and decoding that encoding, alone or followed by other bytes, returns the value and the number of bytes used. Longer-than-needed forms decode to their value as well.",
 ["inputs"], "all 2^64 values, all four forms, any trailing bytes",
 "No direct test; only one-byte forms are reached through transaction tests.",
 ["utils/VarInt.go"],
 [("codec", "utils.VarInt, utils.DecodeVarInt")],
 ["utils.VarInt", "utils.DecodeVarInt"])

prop("C25", "Hash functions equal their standards",
 "For every input the SHA-256, double SHA-256, RIPEMD-160 and HASH160 functions return the digests defined by the standards, for any length and content.",
 ["inputs"], "all byte strings of every length modulo the block size, up to megabytes",
 "Three fixed inputs for each of three functions.",
 ["crypto/Hash.go"],
 [("hashes", "crypto.Sha256, Sha256d, Ripemd160, Hash160")],
 ["crypto.Sha256/Sha256d/Ripemd160/Hash160"])

prop("C26", "Encryption round-trips and leaves its input intact",
 "Decrypting what was encrypted with the same AES key returns the original bytes, for every key size and every plaintext including the empty one, as often as one likes, because decryption does not alter the ciphertext it is given nor encryption the plaintext. The ciphertext is a fresh random 16-byte IV followed by the AES-CFB encryption of the base64 text, so encrypting twice differs; a ciphertext shorter than an IV is an error and a damaged one never crashes.",
 ["inputs", "histories"], "all AES-128/192/256 keys and plaintexts of any length, repeated decryptions, truncations and bit flips of ciphertexts",
 "Neither function has a test.",
 ["crypto/Encryption.go"],
 [("encryption", "crypto.Encrypt"), ("decryption", "crypto.Decrypt")],
 ["crypto.Encrypt", "crypto.Decrypt"])

prop("C27", "Calls do not disturb their arguments or each other",
 "No function (but the in-place sort) modifies the byte slices, lists or transactions handed to it as data, neither within their length nor in spare capacity behind it, and a result already returned is never changed by later calls. Repeating a call with equal arguments gives an equal result, whatever was called or written into earlier results in between.",
 ["histories"], "all sequences of library calls over shared argument buffers with spare capacity (excluding the in-place sort helper, methods that append to their receiver, and the random IV of encryption)",
 "Tests use each buffer once and never look at it again.",
 ["utils/ByteManipulation.go", "utils/VarInt.go", "crypto/Hash.go", "crypto/Encryption.go", "block/BuildMerkleRootFromCoinbase.go", "block/GetMerkleBranches.go", "block/GetCoinbaseParts.go", "block/BuildBlockHeader.go", "script/OpPushdata.go", "script/Script.go", "transaction/Transaction.go"],
 [("fresh buffers", "every constructor and serialiser builds its result in a new slice")],
 ["results and argument buffers of every exported data function"])

prop("C28", "Independent objects can be used concurrently",
 "Calls on distinct objects and buffers made concurrently from many goroutines return the same results as when made one after the other, without a data race: the library keeps no hidden mutable state shared between callers.",
 ["schedules", "histories"], "all interleavings of parsing, serialising, signing, hashing, address, script, merkle, coinbase and encryption calls from up to 16 goroutines on separate data",
 "All tests are sequential and the suite is not run with the race detector.",
 ["utils/VarInt.go", "crypto/Hash.go", "transaction/Transaction.go", "script/OpPushdata.go", "script/address/BIP276.go", "block/Difficulty.go"],
 [("no shared state", "package variables are written only during initialisation")],
 ["results of concurrent versus sequential execution", "Go race detector reports"])

prop("C29", "Byte and hex helpers obey their laws",
 "Reversing bytes or the bytes of a hex string reverses exactly their order, is its own inverse and leaves the argument unchanged (odd-length hex being left-padded with a zero digit); sorting byte strings yields the same multiset in ascending lexicographic order; equality is bytewise equality. A 32-bit value converts to little-endian bytes of the requested length (at least 4), zero-padded; decoding 32 bytes from hex returns exactly those bytes, and text that is not hex of exactly 32 bytes is an error, never a crash.",
 ["inputs"], "all byte strings, lists of byte strings and hex strings of every length and parity",
 "Three reversals of fixed strings.",
 ["utils/ByteManipulation.go"],
 [("helpers", "utils.ReverseBytes, ReverseHexString, SortByteArrays, Equals, GetLittleEndianBytes, Decode32Byte")],
 ["utils.ReverseBytes/ReverseHexString/SortByteArrays/Equals/GetLittleEndianBytes/Decode32Byte"])

prop("C30", "Building a transaction step by step yields what was asked for",
 "After any sequence of adding inputs (from UTXO details, from fields or parsed), adding outputs and payments, and applying unlocking scripts or signing, the transaction holds exactly the requested inputs and outputs in order, new transactions starting as version 1 with locktime 0 and new inputs with final sequence numbers unless told otherwise, and its serialisation, id, counts and totals are those of that content. A step that fails (invalid address, script hex or input index) reports an error and leaves the transaction unchanged. What the caller changes in one input or output afterwards changes that one only. Any input or output can be printed without crashing.",
 ["histories"], "all sequences of building, signing and editing operations with valid and invalid arguments",
 "Only fresh transactions and parsed ones are inspected; From, AddInput, AddOutput, PayTo, ApplyUnlockingScript have no test.",
 ["transaction/Transaction.go", "transaction/input/Input.go", "transaction/output/Output.go"],
 [("builders", "transaction.New, From, AddInput, AddOutput, PayTo, ApplyUnlockingScript, input.New, input.NewFromUTXO")],
 ["Transaction.ToBytes, GetTxID, counts, totals after every step", "Input.String, Output.String"],
 [("Inputs, Outputs", "ordered contents of the transaction under construction", "transaction/Transaction.go Transaction")])

prop("C31", "Parts of a parsed transaction are independent",
 "Editing one script of a parsed transaction or input or output (appending opcodes or data, or overwriting its bytes) changes that script and nothing else: every other script and field, and the bytes it was parsed from, keep their values. Changing the bytes after parsing does not change the transaction. Appending to an element decoded from a script, or to the key hash extracted from one, leaves the script as it was.",
 ["histories"], "all parsed transactions, sequences of edits to any of their scripts and to the source buffer",
 "No test edits a parsed transaction (parsed scripts shared one buffer, so appending to one script overwrote the next).",
 ["transaction/input/Input.go", "transaction/output/Output.go", "transaction/Transaction.go", "script/Script.go"],
 [("parsing", "input.NewFromBytes, output.NewFromBytes")],
 ["Transaction.ToBytes after edits", "source buffer"])

prop("C32", "Cleared-input serialisation blanks exactly the input scripts",
 "Serialising with cleared inputs for a given input index and script gives the wire encoding of the same transaction in which every input's unlocking script is empty except that of the given index, which is replaced by the given script; everything else, outpoints and sequences included, is kept. The transaction itself is not changed.",
 ["inputs"], "all transactions, input indexes (also ones beyond the inputs) and non-nil scripts of any length",
 "The function has no test and no caller.",
 ["transaction/Transaction.go", "transaction/input/Input.go"],
 [("serialiser", "Transaction.ToBytesWithClearedInputs, toBytesHelper, Input.ToBytes(clear)")],
 ["Transaction.ToBytesWithClearedInputs"])

prop("C33", "Work stays in proportion to the input",
 "Parsing, validating, decoding, rendering and building from data of n bytes takes processor time and memory at most proportional to n (times a logarithm for sorting), whatever the data: a transaction, script, address, extended key, text form, merkle list or coinbase of a megabyte supplied by someone else is dealt with or refused in well under a second or two, never in minutes, and never by allocating far more than it holds. Not covered: signing all n inputs (each signature hash covers the whole transaction), base58-encoding long data, and reversing hex text far longer than a hash.",
 ["inputs"], "all inputs up to megabytes: heads, units repeated to any length, and tails, for every function that takes outside data",
 "Tests use inputs of a few hundred bytes, where quadratic work does not show.",
 ["transaction/Transaction.go", "transaction/input/Input.go", "transaction/output/Output.go", "transaction/SignatureHash.go", "script/OpPushdata.go", "script/Script.go", "script/RedeemScript.go", "script/address/Address.go", "script/address/AddressValidation.go", "script/address/BIP276.go", "block/GetMerkleBranches.go", "block/BuildMerkleRootFromCoinbase.go", "block/GetCoinbaseParts.go", "block/Difficulty.go", "crypto/Encryption.go", "utils/ByteManipulation.go"],
 [("linear work", "each pass handles each byte once; buffers grow by doubling; overlong addresses and keys are refused before base58 decoding")],
 ["processor time of the call", "bytes allocated by the call"])

prop("C34", "Calls leave nothing behind",
 "However many calls a process makes, on whatever data, valid or refused, the library keeps at most a fixed amount of memory (2 MB) once the results are let go, leaves no goroutine running and no file open, and changes no process-wide setting. It never writes to standard output, and a call that succeeds writes nothing to standard error.",
 ["histories"], "all long histories of calls on ever different data, with results dropped",
 "Tests make a handful of calls; a growing cache, a goroutine left waiting or a forgotten print shows only over many calls or on rare data.",
 ["crypto/Hash.go", "crypto/Encryption.go", "transaction/Transaction.go", "transaction/signature/InternalSigner.go", "script/Script.go", "script/OpPushdata.go", "script/RedeemScript.go", "script/address/Address.go", "script/address/BIP276.go", "block/GetMerkleBranches.go", "block/Difficulty.go", "block/GetCoinbaseParts.go", "utils/ByteManipulation.go"],
 [("no hidden state", "package variables are tables set at initialisation; nothing is memoised"), ("no background work", "every call runs to its end on the caller's goroutine")],
 ["live heap after collection", "runtime.NumGoroutine", "open descriptors", "standard output and standard error", "log settings, environment, directory"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
