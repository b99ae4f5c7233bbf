-------------------------------- MODULE Types --------------------------------
(***************************************************************************)
(* The data model: every public type of the system that has a wire or JSON *)
(* form, as data.  A type is a descriptor; a value of it is                *)
(*   unsigned/signed integers  fixed-width big-endian hex (two's compl.)   *)
(*   bool                      BOOLEAN                                     *)
(*   cur (128 bit), work (256) fixed-width big-endian hex                  *)
(*   hash addr pk sig leaf fix raw bytes, hex                              *)
(*   bytes, str                hex of any length                           *)
(*   time (unix s, i64), dur (ns, u64)   8-byte hex                        *)
(*   vec: sequence   opt: <<>> or <<x>>   struct: record                   *)
(*   policy  [k |-> "above"|"after"|"pk"|"h"|"opaque", v |-> hex]          *)
(*           [k |-> "thresh", n |-> u8, of |-> seq], [k |-> "uc", v |-> r] *)
(*   resolution [parent, type, resolution]                                 *)
(*   accum   [numLeaves, trees: one root per set bit, ascending]           *)
(* A struct field is <<name, type, mode>>; mode "omit" means the JSON form *)
(* leaves an empty value out.                                              *)
(***************************************************************************)
EXTENDS BigNat

Prim(k)   == [k |-> k]
Fix(n)    == [k |-> "fix", n |-> n]
Vec(t)    == [k |-> "vec", e |-> t]
Opt(t)    == [k |-> "opt", e |-> t]
Ref(n)    == [k |-> "ref", n |-> n]
Struct(f) == [k |-> "struct", f |-> f]
F(n, t)   == <<n, t, "req">>
O(n, t)   == <<n, t, "omit">>

tU8 == Prim("u8")  tU64 == Prim("u64")  tUsize == Prim("usize")  tBool == Prim("bool")
tCur == Prim("cur")  tWork == Prim("work")  tHash == Prim("hash")  tAddr == Prim("addr")
tPk == Prim("pk")  tSig == Prim("sig")  tLeaf == Prim("leaf")  tBytes == Prim("bytes")
tStr == Prim("str")  tTime == Prim("time")  tDur == Prim("dur")

CoveredLists == <<"siacoinInputs", "siacoinOutputs", "fileContracts", "fileContractRevisions", "storageProofs",
                  "siafundInputs", "siafundOutputs", "minerFees", "arbitraryData", "signatures">>

TypeTab == [
  \* ---- primitives and generic containers
  u8 |-> tU8, bool |-> tBool, u16 |-> Prim("u16"), u32 |-> Prim("u32"), u64 |-> tU64, usize |-> tUsize,
  i16 |-> Prim("i16"), i32 |-> Prim("i32"), i64 |-> Prim("i64"),
  string |-> tStr, bytes |-> tBytes, arr5 |-> Fix(5), arr32 |-> Fix(32), arr64 |-> Fix(64),
  opt_u64 |-> Opt(tU64), vec_u64 |-> Vec(tU64), vec_opt_u8 |-> Vec(Opt(tU8)), vec_string |-> Vec(tStr),
  opt_vec_bool |-> Opt(Vec(tBool)), vec_vec_u16 |-> Vec(Vec(Prim("u16"))), vec_hash |-> Vec(tHash),
  vec_currency |-> Vec(tCur), opt_string |-> Opt(tStr),
  time |-> tTime, duration |-> tDur,
  \* ---- structures of a user's own, with derived codecs
  derived_tuple |-> Struct(<<F("f0", Prim("u16")), F("f1", tBool), F("f2", tU64), F("f3", tHash), F("f4", Vec(Prim("u16"))), F("f5", tU8), F("f6", Opt(tU64)), F("f7", Prim("i32")),
                             F("f8", tStr), F("f9", Prim("u32")), F("f10", Fix(5)), F("f11", Prim("i16")), F("f12", tCur)>>),
  derived_named |-> Struct(<<F("alpha", tU64), F("type", Vec(Ref("derived_tuple"))), F("beta", tBool), F("alpha2", tU8), F("gamma", Opt(tAddr))>>),
  \* ---- common types
  Hash256 |-> tHash, SiacoinOutputID |-> tHash, AttestationID |-> tHash, SiafundOutputID |-> tHash,
  BlockID |-> tHash, TransactionID |-> tHash, FileContractID |-> tHash,
  Address |-> tAddr, PublicKey |-> tPk, Signature |-> tSig, Leaf |-> tLeaf,
  Currency |-> tCur, Work |-> tWork, Specifier |-> Prim("spec"),
  ChainIndex |-> Struct(<<F("height", tU64), F("id", tHash)>>),
  SiacoinOutput |-> Struct(<<F("value", tCur), F("address", tAddr)>>),
  SiafundOutput |-> Prim("sfo"),
  StateElement |-> Struct(<<F("leafIndex", tU64), F("merkleProof", Vec(tHash))>>),
  UnlockKey |-> Prim("ukey"),
  UnlockConditions |-> Struct(<<F("timelock", tU64), F("publicKeys", Vec(Ref("UnlockKey"))),
                                F("signaturesRequired", tU64)>>),
  Block |-> Struct(<<F("parentID", tHash), F("nonce", tU64), F("timestamp", tTime),
                     F("minerPayouts", Vec(Ref("SiacoinOutput"))), F("transactions", Vec(Ref("v1_Transaction")))>>),
  \* ---- v1
  v1_SiacoinInput |-> Struct(<<F("parentID", tHash), F("unlockConditions", Ref("UnlockConditions"))>>),
  v1_SiafundInput |-> Struct(<<F("parentID", tHash), F("unlockConditions", Ref("UnlockConditions")),
                               F("claimAddress", tAddr)>>),
  v1_FileContract |-> Struct(<<F("filesize", tU64), F("fileMerkleRoot", tHash), F("windowStart", tU64),
      F("windowEnd", tU64), F("payout", tCur), F("validProofOutputs", Vec(Ref("SiacoinOutput"))),
      F("missedProofOutputs", Vec(Ref("SiacoinOutput"))), F("unlockHash", tAddr), F("revisionNumber", tU64)>>),
  v1_FileContractRevision |-> Struct(<<F("parentID", tHash), F("unlockConditions", Ref("UnlockConditions")),
      F("revisionNumber", tU64), F("filesize", tU64), F("fileMerkleRoot", tHash), F("windowStart", tU64),
      F("windowEnd", tU64), F("validProofOutputs", Vec(Ref("SiacoinOutput"))),
      F("missedProofOutputs", Vec(Ref("SiacoinOutput"))), F("unlockHash", tAddr)>>),
  v1_StorageProof |-> Struct(<<F("parentID", tHash), F("leaf", tLeaf), F("proof", Vec(tHash))>>),
  v1_CoveredFields |-> Struct(<<F("wholeTransaction", tBool)>> \o
                              [i \in 1..10 |-> O(CoveredLists[i], Vec(tUsize))]),
  v1_TransactionSignature |-> Struct(<<F("parentID", tHash), F("publicKeyIndex", tU64), F("timelock", tU64),
      F("coveredFields", Ref("v1_CoveredFields")), F("signature", tBytes)>>),
  v1_Transaction |-> Struct(<<O("siacoinInputs", Vec(Ref("v1_SiacoinInput"))),
      O("siacoinOutputs", Vec(Ref("SiacoinOutput"))), O("fileContracts", Vec(Ref("v1_FileContract"))),
      O("fileContractRevisions", Vec(Ref("v1_FileContractRevision"))),
      O("storageProofs", Vec(Ref("v1_StorageProof"))), O("siafundInputs", Vec(Ref("v1_SiafundInput"))),
      O("siafundOutputs", Vec(Ref("SiafundOutput"))), O("minerFees", Vec(tCur)),
      O("arbitraryData", Vec(tBytes)), O("signatures", Vec(Ref("v1_TransactionSignature")))>>),
  \* ---- v2
  SpendPolicy |-> Prim("policy"),
  SatisfiedPolicy |-> Struct(<<F("policy", Ref("SpendPolicy")), O("signatures", Vec(tSig)), O("preimages", Vec(tHash))>>),
  v2_Attestation |-> Struct(<<F("publicKey", tPk), F("key", tStr), F("value", tBytes), F("signature", tSig)>>),
  v2_FileContract |-> Struct(<<F("capacity", tU64), F("filesize", tU64), F("fileMerkleRoot", tHash),
      F("proofHeight", tU64), F("expirationHeight", tU64), F("renterOutput", Ref("SiacoinOutput")),
      F("hostOutput", Ref("SiacoinOutput")), F("missedHostValue", tCur), F("totalCollateral", tCur),
      F("renterPublicKey", tPk), F("hostPublicKey", tPk), F("revisionNumber", tU64),
      F("renterSignature", tSig), F("hostSignature", tSig)>>),
  v2_SiacoinElement |-> Struct(<<F("stateElement", Ref("StateElement")), F("id", tHash),
      F("siacoinOutput", Ref("SiacoinOutput")), F("maturityHeight", tU64)>>),
  v2_SiafundElement |-> Struct(<<F("stateElement", Ref("StateElement")), F("id", tHash),
      F("siafundOutput", Ref("SiafundOutput")), F("claimStart", tCur)>>),
  v2_FileContractElement |-> Struct(<<F("stateElement", Ref("StateElement")), F("id", tHash),
      F("v2FileContract", Ref("v2_FileContract"))>>),
  v2_ChainIndexElement |-> Struct(<<F("stateElement", Ref("StateElement")), F("id", tHash),
      F("chainIndex", Ref("ChainIndex"))>>),
  v2_SiacoinInput |-> Struct(<<F("parent", Ref("v2_SiacoinElement")), F("satisfiedPolicy", Ref("SatisfiedPolicy"))>>),
  v2_SiafundInput |-> Struct(<<F("parent", Ref("v2_SiafundElement")), F("claimAddress", tAddr),
      F("satisfiedPolicy", Ref("SatisfiedPolicy"))>>),
  v2_FileContractRevision |-> Struct(<<F("parent", Ref("v2_FileContractElement")), F("revision", Ref("v2_FileContract"))>>),
  v2_FileContractRenewal |-> Struct(<<F("finalRevision", Ref("v2_FileContract")), F("newContract", Ref("v2_FileContract")),
      F("renterRollover", tCur), F("hostRollover", tCur), F("renterSignature", tSig), F("hostSignature", tSig)>>),
  v2_StorageProof |-> Struct(<<F("proofIndex", Ref("v2_ChainIndexElement")), F("leaf", tLeaf), F("proof", Vec(tHash))>>),
  v2_FileContractResolution |-> Prim("resolution"),
  v2_Transaction |-> Prim("txn2"),
  \* ---- consensus
  ElementAccumulator |-> Prim("accum"),
  State |-> Prim("state"),
  HardforkDevAddr |-> Struct(<<F("height", tU64), F("oldAddress", tAddr), F("newAddress", tAddr)>>),
  HardforkTax |-> Struct(<<F("height", tU64)>>),
  HardforkStorageProof |-> Struct(<<F("height", tU64)>>),
  HardforkOak |-> Struct(<<F("height", tU64), F("fixHeight", tU64), F("genesisTimestamp", tTime)>>),
  HardforkASIC |-> Struct(<<F("height", tU64), F("oakTime", tDur), F("oakTarget", tHash)>>),
  HardforkFoundation |-> Struct(<<F("height", tU64), F("primaryAddress", tAddr), F("failsafeAddress", tAddr)>>),
  HardforkV2 |-> Struct(<<F("allowHeight", tU64), F("requireHeight", tU64)>>),
  Network |-> Struct(<<F("name", tStr), F("initialCoinbase", tCur), F("minimumCoinbase", tCur),
      F("initialTarget", tHash), F("blockInterval", tDur), F("maturityDelay", tU64),
      F("hardforkDevAddr", Ref("HardforkDevAddr")), F("hardforkTax", Ref("HardforkTax")),
      F("hardforkStorageProof", Ref("HardforkStorageProof")), F("hardforkOak", Ref("HardforkOak")),
      F("hardforkASIC", Ref("HardforkASIC")), F("hardforkFoundation", Ref("HardforkFoundation")),
      F("hardforkV2", Ref("HardforkV2"))>>),
  ChainState |-> Struct(<<F("network", Ref("Network")), F("state", Ref("State"))>>)
]

\* field lists of the types whose wire form is not just their fields in order
SfoFields == <<F("value", tU64), F("address", tAddr)>>
UKeyFields == <<F("algorithm", Fix(16)), F("key", tBytes)>>
Txn2Fields == <<O("siacoinInputs", Vec(Ref("v2_SiacoinInput"))), O("siacoinOutputs", Vec(Ref("SiacoinOutput"))),
      O("siafundInputs", Vec(Ref("v2_SiafundInput"))), O("siafundOutputs", Vec(Ref("SiafundOutput"))),
      O("fileContracts", Vec(Ref("v2_FileContract"))), O("fileContractRevisions", Vec(Ref("v2_FileContractRevision"))),
      O("fileContractResolutions", Vec(Ref("v2_FileContractResolution"))), O("attestations", Vec(Ref("v2_Attestation"))),
      O("arbitraryData", tBytes), O("newFoundationAddress", Opt(tAddr)), F("minerFee", tCur)>>
StateFields == <<F("index", Ref("ChainIndex")), F("prevTimestamps", Vec(tTime)), F("depth", tHash),
      F("childTarget", tHash), F("siafundPool", tCur), F("oakTime", tDur), F("oakTarget", tHash),
      F("foundationPrimaryAddress", tAddr), F("foundationFailsafeAddress", tAddr), F("totalWork", tWork),
      F("difficulty", tWork), F("oakWork", tWork), F("elements", Ref("ElementAccumulator")), F("attestations", tU64)>>
AccumFields == <<F("numLeaves", tU64), F("trees", Vec(tHash))>>

\* the descriptor of a named type
T(n) == TypeTab[n]

Width(k) == CASE k = "u8" -> 1 [] k \in {"u16", "i16"} -> 2 [] k \in {"u32", "i32"} -> 4
              [] k \in {"u64", "usize", "i64", "time", "dur"} -> 8
              [] k \in {"hash", "addr", "pk", "work"} -> 32 [] k \in {"sig", "leaf"} -> 64 [] k \in {"cur", "spec"} -> 16

\* number of set bits of a byte-string integer, and the indices (heights) of the set bits, ascending
Bit(v, i) == (v \div (2 ^ i)) % 2 = 1
SetBits(h) == SelectSeq([i \in 1..64 |-> i - 1], LAMBDA i : Bit(ByteVal[BAt(h, 7 - (i \div 8))], i % 8))
\* previous timestamps carried by a state: one per block, up to eleven (height ff..ff is the pre-genesis state)
ChildHeight(h) == U64Inc(h)
TimestampCount(h) == LET c == ChildHeight(h) IN IF IsSmall(c) /\ BEInt(c) < 11 THEN BEInt(c) ELSE 11

\* ---- domains of time values
MinTime == NInt(0)
TimeOk(h) == IF Neg(h) THEN NLe(NegMag(h), NOfDec(AsciiHex("377705116800")))
             ELSE NLe(NOf(h), NOfDec(AsciiHex("253402300799")))
DurOk(h) == ~ Neg(h)

(* ------------------------------------------------------------------ structures *)
NamesOf(fs) == {fs[i][1] : i \in 1..Len(fs)}
FieldOf(fs, n) == fs[CHOOSE i \in 1..Len(fs) : fs[i][1] = n]
RECURSIVE Deref(_)
Deref(t) == IF t.k = "ref" THEN Deref(T(t.n)) ELSE t

UKeySpec == <<F("algorithm", Prim("spec")), F("key", tBytes)>>
StructFields(t) == CASE t.k = "struct" -> t.f [] t.k = "sfo" -> SfoFields [] t.k = "ukey" -> UKeySpec [] t.k = "txn2" -> Txn2Fields
IsStruct(t) == t.k \in {"struct", "sfo", "ukey", "txn2"}

(* ------------------------------------------------------------------ the value with nothing in it *)
RECURSIVE Zero(_)
ZeroUc == [timelock |-> Zeros(8), publicKeys |-> <<>>, signaturesRequired |-> Zeros(8)]
Zero(t) ==
  CASE t.k = "ref" -> Zero(T(t.n))
    [] IsStruct(t) -> Now([n \in NamesOf(StructFields(t)) |-> Zero(FieldOf(StructFields(t), n)[2])])
    [] t.k \in {"vec", "opt"} -> <<>>
    [] t.k \in {"bytes", "str"} -> ""
    [] t.k = "bool" -> FALSE
    [] t.k = "fix" -> Zeros(t.n)
    [] t.k = "policy" -> [k |-> "above", v |-> Zeros(8)]
    [] t.k = "resolution" -> [parent |-> Zero(T("v2_FileContractElement")), type |-> "expiration", resolution |-> <<>>]
    [] t.k = "accum" -> [numLeaves |-> Zeros(8), trees |-> <<>>]
    [] t.k = "state" -> Now([n \in NamesOf(StateFields) |-> IF n = "prevTimestamps" THEN Now([i \in 1..11 |-> Zeros(8)]) ELSE Zero(FieldOf(StateFields, n)[2])])
    [] OTHER -> Zeros(Width(t.k))
=============================================================================
