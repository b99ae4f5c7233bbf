#!/usr/bin/env python3
"""Writes properties.jsonl (the list lives here so that it can be edited as Python)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
              "why_tests_cant":why,"anchors":a})
E1="sia/src/encoding/v1.rs";E2="sia/src/encoding/v2.rs";T1="sia/src/types/v1.rs";T2="sia/src/types/v2.rs"
CO="sia/src/types/common.rs";CU="sia/src/types/currency.rs";SP="sia/src/types/spendpolicy.rs";CN="sia/src/consensus.rs"
ME="sia/src/merkle.rs";RH="sia/src/rhp.rs";SE="sia/src/seed.rs";SI="sia/src/signing.rs";UT="sia/src/types/utils.rs"
MA="sia/src/macros.rs";SC="sia/src/types/specifier.rs";WO="sia/src/types/work.rs";DE="sia_derive/src/lib.rs"

p("C01","v2 binary encoding: exact protocol bytes and lossless round trip",
 "For every representable value of every type with a v2 (current protocol) binary form, encoding produces exactly the bytes the Sia v2 protocol prescribes for that value. Decoding those bytes, alone or as part of a longer stream, returns an equal value and consumes exactly the bytes that were written.",
 ["inputs","histories"],"every value of every v2-encodable type (integers, options, lists, ids, currencies, outputs, elements, contracts, revisions, renewals, storage proofs, resolutions, policies, attestations, transactions, chain state), and every sequence of values written to and read from one stream",
 "Unit tests pin a handful of fixed vectors per type; optional fields, field masks, empty/non-empty combinations and boundary integers are combinatorial and mostly never encoded.",
 [E2,T2,CO,CU,SP,CN,SI,WO,DE],[("derive(SiaEncode/SiaDecode)",DE),("SiaEncodable/SiaDecodable primitives",E2),("Transaction field mask",T2)],
 ["bytes written by encode","value and remaining input after decode"])
p("C02","v1 binary encoding: exact protocol bytes and lossless round trip",
 "For every representable value of every type with a v1 (legacy protocol) binary form, including whole blocks, encoding produces exactly the bytes the Sia v1 protocol prescribes for that value. Decoding those bytes, alone or as part of a longer stream, returns an equal value and consumes exactly the bytes that were written.",
 ["inputs","histories"],"every value of every v1-encodable type (integers, currencies as minimal big-endian, outputs with claim start, unlock conditions, contracts, revisions, storage proofs, covered fields, signatures, transactions, blocks) and every stream of them",
 "Tests encode one or two fixed transactions; currency byte lengths, covered-field combinations and list-length combinations are not sampled.",
 [E1,T1,CO,CU,SC,DE],[("derive(V1SiaEncode/V1SiaDecode)",DE),("V1SiaEncodable/V1SiaDecodable primitives",E1),("Currency::encode_v1",CU),("Block::encode_v1",CO)],
 ["bytes written by encode_v1","value and remaining input after decode_v1"])
p("C03","Decoding untrusted bytes is total, bounded and strict",
 "Decoding any byte string as any type, in either protocol version, terminates with a value or an error: it never panics, aborts, exhausts the stack or allocates memory out of proportion to the input. Every truncation of a valid encoding is an error, and so are malformed booleans, option and variant tags, unsupported versions, out-of-range integers and timestamps, over-long currencies and non-UTF-8 strings.",
 ["inputs","fault_sequences"],"every byte string (truncations, bit flips, hostile length prefixes, deep nesting, random bytes) for every decodable type",
 "Tests decode only well-formed inputs; no test feeds a hostile length, an out-of-range timestamp or nested policies.",
 [E1,E2,T1,T2,CO,CU,SP,CN],[("Vec/String/Option decoders",E2),("SpendPolicy decode",SP),("Currency::decode_v1 length check",CU)],
 ["result of decode/decode_v1","peak allocation during the call","process survival"])
p("C04","I/O faults and fragmentation during encode/decode are faithful",
 "If the destination fails after any number of bytes, encoding returns an error and what was written is exactly the corresponding prefix of the full encoding; if it does not fail, the whole encoding is written. Decoding gives the same result however the source fragments or interrupts its reads, reads no byte beyond the value, and returns an error if the source fails or ends before the value is complete; no I/O fault ever causes a panic.",
 ["fault_sequences","crash_points","inputs"],"every crash point (byte offset) of the writer or reader, every fragmentation of reads and writes, for every encodable type",
 "Tests only use in-memory buffers that never fail and never fragment.",
 [E1,E2,T1,T2,CO,CN,SP,CU,DE],[("? on every write_all/read_exact",E2),("State::encode",CN)],
 ["error vs success","bytes accepted by the writer","bytes pulled from the reader"])
p("C05","JSON forms are exact and round-trip",
 "For every representable value of every type with a JSON form, serialization yields exactly the Sia JSON API document for it (field names, string/number/base64/hex/RFC 3339/nanosecond forms, omission of empty optional fields). Deserializing that document returns an equal value.",
 ["inputs"],"every value of every JSON-serializable type, all combinations of empty and non-empty optional members",
 "Tests compare a few fixed documents; omission combinations, policy nesting and extreme numbers are not covered.",
 [T1,T2,CO,CU,SP,CN,UT,SI,WO,SC],[("serde derives and hand-written impls",T2),("base64/duration/timestamp helpers",UT)],
 ["JSON document from serde_json","value decoded back"])
p("C06","Malformed JSON and text are rejected without panicking",
 "Parsing any text or JSON document as any type terminates with the value it denotes or with an error, never with a panic or an abort. Wrong lengths, non-hex digits, wrong checksums, missing required members, unknown variants, out-of-range numbers and overflowing amounts are all errors; serialization of any value likewise ends in a document or an error.",
 ["inputs"],"every string and every JSON document offered to every parser",
 "No test feeds malformed text or JSON to any parser except a few currency units.",
 [MA,CO,CU,SP,T1,T2,UT,SI,CN,WO],[("parse_string functions",CO),("Deserialize impls",SP),("Currency::parse_string",CU)],
 ["result of parse/deserialize","absence of panics"])
p("C07","Textual forms of ids, addresses, keys and signatures round-trip",
 "Displaying any hash, id, address, unlock key, public key, signature, leaf or chain index yields its canonical text, and parsing that text, in either letter case and with or without an id type prefix where one is allowed, yields the same value. An address is accepted only if its text is its 32 bytes followed by the matching 6-byte checksum, so any altered address text either denotes the same address or is rejected; the compile-time literals denote the same values as runtime parsing, and a specifier made from a text of up to 16 bytes is that text followed by zeros.",
 ["inputs"],"every value of every type with a textual form, every corruption of an address text",
 "Tests parse a few constant strings.",
 [MA,CO,T1,SI,SC],[("impl_hash_id!",MA),("Address::parse_string / Display",CO),("UnlockKey::parse_string",T1)],
 ["Display output","parse_string result"])
p("C08","v1 transaction and child ids commit to everything but signatures",
 "The id of a v1 transaction, and the ids of the siacoin outputs, siafund outputs and file contracts it creates, are the BLAKE2b-256 hashes the protocol prescribes over its v1 encoding without signatures (available by itself as well). They change whenever any non-signature part changes, never change when only signatures change, and differ between kinds and between indices.",
 ["inputs","histories"],"every v1 transaction, every edit of it, every index",
 "Three fixed ids are tested.",
 [T1,E1],[("Transaction::id / derive_child_id / encode_no_sigs",T1)],["returned ids"])
p("C09","v2 transaction id commits to exactly the semantic content",
 "The id of a v2 transaction is the domain-separated hash the protocol prescribes over its semantic content: spent element ids, outputs, contracts, revisions, resolutions, attestations, arbitrary data, foundation address and fee. It changes whenever any of these changes, never changes when only Merkle proofs, spend-policy witnesses or contract signatures change, and can never equal the id of a v1 transaction.",
 ["inputs","histories"],"every v2 transaction and every edit of it; every pair of a v1 and a v2 transaction",
 "The v2 id is not tested at all.",
 [T2,CO],[("Transaction::encode_semantics / id",T2)],["returned id"])
p("C10","Derived output, contract and attestation ids are exact and distinct",
 "Every id derived from another id - siafund claims, miner and foundation payouts, v2 outputs, contracts and attestations, contract proof outputs and renewals - is the hash the protocol prescribes over its domain prefix, parent id and index. Different kinds, parents or indices never yield the same id.",
 ["inputs"],"every parent id, kind and index (including indices beyond 32 bits)",
 "Only some derivations are tested, each with one parent and small indices; v2 contract output, renewal, attestation and valid/missed proof output ids are untested.",
 [CO],[("derive_v2_child_id, derive_proof_output_id, derive_v2_proof_output_id, v2_renewal_id",CO)],["returned ids"])
p("C11","v1 whole-transaction signature hash binds content, key and chain",
 "The whole-transaction signature hash of a v1 transaction is the hash the protocol prescribes: every part except signatures, the replay-protection prefix of the current chain height before every siacoin and siafund input, and the parent id, key index and timelock being signed. It changes whenever any of these changes and never when only the transaction's signatures change.",
 ["inputs","configurations","histories"],"every v1 transaction, chain height and network, parent id, key index, timelock",
 "One fixed transaction at a few heights is tested.",
 [T1,CN],[("Transaction::whole_sig_hash",T1),("ChainState::replay_prefix",CN)],["returned hash"])
p("C12","v1 partial signature hash covers exactly the covered fields",
 "The partial signature hash of a v1 transaction is the hash the protocol prescribes over exactly the elements named by the covered fields, in order, with the replay-protection prefix before each covered siacoin and siafund input. Elements that are not covered do not influence it, covered ones (including covered signatures) do, and a covered index that does not exist is an error.",
 ["inputs","configurations"],"every v1 transaction, every covered-fields selection (duplicates, reorderings, out-of-range indices), every height",
 "One fixed selection is tested.",
 [T1,CN],[("Transaction::partial_sig_hash",T1)],["returned hash or error"])
p("C13","v2 signature hashes are domain-separated and replay-protected",
 "The hashes signed by spenders of v2 inputs, by parties to v2 contracts and renewals and by attestors are the hashes the protocol prescribes over a purpose-specific prefix, the replay-protection prefix of the chain and the object's semantic content. A signature for one purpose, content or hardfork era never matches another, and signing (filling in signatures, proofs or witnesses) does not change the hash being signed, except that a transaction's hash covers its attestations' signatures.",
 ["inputs","configurations","histories"],"every v2 transaction, contract, renewal and attestation; every chain height and network",
 "One fixed vector per kind is tested, at one height.",
 [T2,CN],[("sig_hash / input_sig_hash / encode_semantics",T2)],["returned hashes"])
p("C14","Unlock conditions address commits to timelock, every key and threshold",
 "The address of v1 unlock conditions is the Merkle root, over BLAKE2b with leaf and node prefixes, of the timelock, each public key in order and the required-signature count, for any number of keys. Different unlock conditions have different addresses.",
 ["inputs"],"every timelock, every list of keys of any length and algorithm, every signature count",
 "Only single-key conditions are tested; the tree shape for two or more keys is not.",
 [T1,ME],[("UnlockConditions::address",T1),("Accumulator::add_leaf/root",ME)],["returned address"],
 [("trees","one subtree root per set bit of the leaf count",ME)])
p("C15","Spend policy address is exact and stable under opaque substitution",
 "The address of every spend policy is the one the protocol prescribes: a domain-separated hash of the policy in which each sub-policy of a threshold is replaced by its opaque address, the legacy address for legacy unlock conditions, and the embedded address for an opaque policy. Replacing any sub-policy at any depth by its opaque form leaves the address unchanged; any other change to the policy changes it.",
 ["inputs"],"every policy tree (any depth, width and mix of leaves), every choice of sub-policies to make opaque",
 "A few fixed policies are tested.",
 [SP,T1,ME],[("SpendPolicy::address",SP)],["returned address"])
p("C16","Sector root is the Merkle root of the whole sector under any schedule",
 "The root of every 4 MiB sector is the Merkle root, over BLAKE2b with leaf and node prefixes, of its 65,536 consecutive 64-byte segments in order. It depends on every byte of the sector and is the same whatever the number of worker threads and however their work interleaves.",
 ["inputs","schedules"],"every sector content; every thread count and interleaving of the parallel hashing",
 "No sector root test exists (it is commented out).",
 [RH,ME],[("sector_root: parallel leaf and level passes",RH)],["returned root"],
 [("tree_hashes","in-place array of node hashes, level by level",RH)])
p("C17","Currency arithmetic is exact or reports failure",
 "Checked addition, subtraction, multiplication and division of amounts return the mathematically exact result when it is representable and nothing otherwise, and the operators, sums, comparisons and conversions return the exact result whenever it is representable. No amount is ever silently wrapped or truncated.",
 ["inputs"],"every pair of 128-bit amounts, every list of amounts, every whole number of siacoins",
 "Tests sample a few small sums and products.",
 [CU],[("checked_* and operator impls",CU)],["returned amounts"])
p("C18","Amounts written as text are parsed exactly or rejected",
 "Parsing the text of an amount, with or without a decimal fraction and unit (from picosiacoins to terasiacoins, siacoins or hastings), yields exactly the denoted number of hastings. Any text denoting a fraction of a hasting or an amount beyond 128 bits, or with a malformed number or unknown unit, is rejected; the decimal text of every amount parses back to it.",
 ["inputs"],"every text offered as an amount",
 "Tests parse about a dozen strings, none overflowing or over-precise.",
 [CU],[("Currency::parse_string",CU),("Display/Serialize/Deserialize",CU)],["parse result"])
p("C19","Chain parameters follow the hardfork schedule at every height",
 "At every height of every network the reward for the next block is the initial coinbase less one siacoin per height but never below the minimum coinbase, outputs mature exactly the maturity delay after the next block, the nonce factor switches at the ASIC hardfork, and the replay-protection prefix switches at the ASIC, Foundation and v2 hardforks. The built-in networks carry their published parameters, and the child of the pre-genesis state is height zero.",
 ["configurations","histories","inputs"],"every chain state and network configuration, every height including boundaries of each hardfork and extreme heights",
 "No test calls the reward, maturity, or nonce functions; networks are compared once.",
 [CN,CO],[("block_reward, maturity_height, nonce_factor, replay_prefix, child_height",CN),("Network::mainnet/zen/anagami",CN)],["returned parameters"],
 [("index.height","height of the current tip","sia/src/types/common.rs")])
p("C20","Foundation subsidy is paid on schedule, to the current address",
 "No Foundation subsidy is due before the Foundation hardfork; at the hardfork height twelve months' subsidy is due, and afterwards one month's subsidy exactly once every month of blocks. A month's subsidy is 30,000 siacoins for every block expected in a month, and it is paid to the Foundation address recorded in the chain state.",
 ["histories","configurations"],"every chain height and network (hardfork height, block interval, address changes)",
 "The subsidy function is not tested.",
 [CN],[("foundation_subsidy, blocks_per_month",CN)],["returned output or none"],
 [("foundation_primary_address","current Foundation subsidy address",CN)])
p("C21","File contract taxes are exact on both sides of the tax hardfork",
 "The tax on a v1 file contract is 3.9% of its payout and the tax on a v2 file contract is 4% of its combined outputs, rounded down to a multiple of the number of siafunds; before the tax hardfork the v1 percentage is the historical double-precision 0.039 applied exactly. The hardfork takes effect with the block at the hardfork height.",
 ["inputs","configurations"],"every payout and output value up to 128 bits, every height around the tax hardfork",
 "The v1 test reaches the pre-hardfork rule with one payout only; v2 tax is tested with fixed values.",
 [T1,T2,CN],[("FileContract::tax",T1),("FileContract::tax (v2)",T2)],["returned tax"])
p("C22","Seed phrases and derived keys are deterministic and lossless",
 "Every 16-byte seed yields the BIP-39 English phrase for its entropy, and parsing that phrase returns the same seed; phrases with unknown words, wrong word counts or wrong checksums are rejected. The key derived from a seed at any index is the Ed25519 key pair prescribed by the Sia derivation, and the same seed and index always give the same key, different ones different keys.",
 ["inputs"],"every seed, index and phrase",
 "Two phrases and a few indices are tested; malformed phrases are not.",
 [SE,SI],[("Seed::from_mnemonic/to_mnemonic/private_key",SE)],["phrase","derived keys"])
p("C23","Signatures verify exactly for the signed hash and key",
 "A signature made with a private key over a hash is the RFC 8032 Ed25519 signature and verifies under the matching public key and that hash only. Verification is total: for any 32-byte key, hash and 64-byte signature, including keys that are not curve points, it returns true exactly for valid signatures and false otherwise, without panicking.",
 ["inputs","histories"],"every private key, public key bytes, hash and signature bytes",
 "No test signs and verifies; invalid keys are never tried.",
 [SI],[("PrivateKey::sign_hash / PublicKey::verify",SI)],["signature bytes","verification result"])
p("C24","Secrets are wiped from memory when dropped",
 "When a seed or private key goes out of scope, however it was created, copied or moved to the heap, the memory that held it contains none of its secret bytes when it is released, in unoptimized and optimized builds alike. Dropping one copy does not disturb other live copies.",
 ["histories","configurations"],"every create/clone/derive/drop history of seeds and private keys, every build profile",
 "No test observes memory after a drop.",
 [SE,SI],[("Drop for Seed",SE),("Drop for PrivateKey",SI)],["contents of the memory block at deallocation and after in-place drop"])
p("C25","Chain state encodings carry exactly the populated trees and timestamps",
 "Binary and JSON forms of the element accumulator carry exactly one root per set bit of the leaf count, in ascending height order, and decoding restores each root to its height and rejects a root count that does not match. The binary form of the chain state carries exactly as many previous timestamps as there are blocks, up to eleven, including for the pre-genesis state, and decoding restores the state. The content of a chain index leaf of the accumulator does not depend on its Merkle proof.",
 ["inputs","histories"],"every leaf count, every set of roots, every height (in particular around eleven blocks and the pre-genesis state)",
 "Tests use one accumulator and one state.",
 [CN],[("ElementAccumulator codecs",CN),("State codec",CN)],["encoded bytes and JSON","decoded state"],
 [("num_leaves/trees","accumulator forest",CN),("prev_timestamps","last eleven block timestamps",CN)])
p("C26","Equality is equality of content; copies and conversions keep it",
 "Two values of a type compare equal exactly when all of their content is equal, symmetrically, and never otherwise, however small the difference and wherever it lies. A clone has the content of its original and a default value has none; converting bytes to an id, address, key, signature, leaf, amount or specifier and back, by any of the provided conversions, yields the same bytes; the spend policy and unlock condition constructors build exactly what they are given.",
 ["inputs"],"every pair of values of every type, every conversion, every constructor argument",
 "Tests compare a value with its own round trip; they never compare values that should differ.",
 [CO,T1,T2,SP,CU,SI,CN,SE],[("derived and manual PartialEq, Clone, Default, From and AsRef implementations",CO),("SpendPolicy constructors",SP),("impl_hash_id","sia/src/macros.rs")],["comparison results","content of copies, defaults and conversions"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
