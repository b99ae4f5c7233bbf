--------------------------------- MODULE Ids ---------------------------------
(***************************************************************************)
(* What identifiers, addresses and signature hashes commit to.             *)
(***************************************************************************)
EXTENDS Merkle

Tag(s) == AsciiHex(s)
Spec16(s) == AsciiHex(s) \o Zeros(16 - Len(s))          \* a 16-byte specifier
LE(i) == LEOf(i)                                        \* i: u64 hex

(* ------------------------------------------------------------ v1 transactions *)
Txn1Fields == T("v1_Transaction").f
Part1(x, i) == Enc(1, Txn1Fields[i][2], x[Txn1Fields[i][1]])
NoSigs(x) == Cat([i \in 1..9 |-> Part1(x, i)])
Id1(x) == Blake2b(NoSigs(x))
ChildSpec == [siacoin |-> "siacoin output", siafund |-> "siafund output", contract |-> "file contract"]
ChildId1(kind, x, i) == Blake2b(Spec16(ChildSpec[kind]) \o NoSigs(x) \o LE(i))

\* inputs are preceded by the replay-protection prefix
Prefixed(pre, t, s) == U64LE(Len(s)) \o Cat([i \in 1..Len(s) |-> pre \o Enc(1, t, s[i])])
WholeContent(x, pre, parent, key, timelock) ==
  Cat([i \in 1..9 |-> IF i = 1 THEN Prefixed(pre, T("v1_SiacoinInput"), x.siacoinInputs)
                      ELSE IF i = 6 THEN Prefixed(pre, T("v1_SiafundInput"), x.siafundInputs)
                      ELSE Part1(x, i)]) \o parent \o LE(key) \o LE(timelock)
WholeSigHash(x, pre, parent, key, timelock) == Blake2b(WholeContent(x, pre, parent, key, timelock))

\* covered: [list name |-> sequence of u64 indices]
InRange(i, s) == IsSmall(i) /\ BEInt(i) < Len(s)
PartialOk(x, c) == \A f \in 1..10 : LET l == CoveredLists[f] IN \A j \in 1..Len(c[l]) : InRange(c[l][j], x[l])
PartialContent(x, pre, c) ==
  Cat([f \in 1..10 |->
        LET l == CoveredLists[f]
            et == Txn1Fields[f][2].e
            p == IF l \in {"siacoinInputs", "siafundInputs"} THEN pre ELSE ""
        IN Cat([j \in 1..Len(c[l]) |-> p \o Enc(1, et, x[l][BEInt(c[l][j]) + 1])])])
PartialSigHash(x, pre, c) == Blake2b(PartialContent(x, pre, c))

(* ------------------------------------------------------------ v2 semantics *)
NilSig == Zeros(64)
NilSigs(x) == [x EXCEPT !.renterSignature = NilSig, !.hostSignature = NilSig]
SemContract(x) == Enc(2, T("v2_FileContract"), NilSigs(x))
SemRenewal(x) == Enc(2, T("v2_FileContractRenewal"),
  [NilSigs(x) EXCEPT !.finalRevision = NilSigs(x.finalRevision), !.newContract = NilSigs(x.newContract)])
SemProof(x) == Enc(2, T("v2_StorageProof"), [x EXCEPT !.proofIndex.stateElement.merkleProof = <<>>])
SemResolution(x) == x.parent.id \o (CASE x.type = "renewal" -> SemRenewal(x.resolution)
                                      [] x.type = "storageProof" -> SemProof(x.resolution)
                                      [] x.type = "expiration" -> "")
SemRevision(x) == x.parent.id \o SemContract(x.revision)
SemAttestation(x) == Enc(2, T("v2_Attestation"), [x EXCEPT !.signature = NilSig])
Listed(s, Op(_)) == U64LE(Len(s)) \o Cat([i \in 1..Len(s) |-> Op(s[i])])
ParentId(x) == x.parent.id
Sem2(x) ==
  Cat(<<Listed(x.siacoinInputs, ParentId), Enc(2, Vec(Ref("SiacoinOutput")), x.siacoinOutputs),
        Listed(x.siafundInputs, ParentId), Enc(2, Vec(Ref("SiafundOutput")), x.siafundOutputs),
        Listed(x.fileContracts, SemContract), Listed(x.fileContractRevisions, SemRevision),
        Listed(x.fileContractResolutions, SemResolution), Enc(2, Vec(Ref("v2_Attestation")), x.attestations),
        Enc(2, tBytes, x.arbitraryData), Enc(2, Opt(tAddr), x.newFoundationAddress), Enc(2, tCur, x.minerFee)>>)
Id2(x) == Blake2b(Tag("sia/id/transaction|") \o Sem2(x))
InputSigHash(x, pre) == Blake2b(Tag("sia/sig/input|") \o pre \o Sem2(x))
ContractSigHash(x, pre) == Blake2b(Tag("sia/sig/filecontract|") \o pre \o SemContract(x))
RenewalSigHash(x, pre) == Blake2b(Tag("sia/sig/filecontractrenewal|") \o pre \o SemRenewal(x))
AttestationSigHash(x, pre) == Blake2b(Tag("sia/sig/attestation|") \o pre \o SemAttestation(x))
SigHash2(kind, x, pre) == CASE kind = "input" -> InputSigHash(x, pre)
                            [] kind = "contract" -> ContractSigHash(x, pre)
                            [] kind = "renewal" -> RenewalSigHash(x, pre)
                            [] kind = "attestation" -> AttestationSigHash(x, pre)

(* ------------------------------------------------------------ ids derived from ids *)
DerivedKinds == {"claim", "v2claim", "foundation", "miner", "v2siacoin", "v2siafund", "v2contract", "v2attestation",
                 "valid", "missed", "v2renter", "v2host", "v2renewal"}
Indexed == {"miner", "v2siacoin", "v2siafund", "v2contract", "v2attestation", "valid", "missed"}
DerivedContent(kind, id, i) ==
  CASE kind = "claim" -> id
    [] kind = "v2claim" -> Tag("sia/id/v2siacoinclaimoutput|") \o id
    [] kind = "foundation" -> id \o Spec16("foundation")
    [] kind = "miner" -> id \o LE(i)
    [] kind = "v2siacoin" -> Tag("sia/id/siacoinoutput|") \o id \o LE(i)
    [] kind = "v2siafund" -> Tag("sia/id/siafundoutput|") \o id \o LE(i)
    [] kind = "v2contract" -> Tag("sia/id/filecontract|") \o id \o LE(i)
    [] kind = "v2attestation" -> Tag("sia/id/attestation|") \o id \o LE(i)
    [] kind = "valid" -> Spec16("storage proof") \o id \o "01" \o LE(i)
    [] kind = "missed" -> Spec16("storage proof") \o id \o "00" \o LE(i)
    [] kind = "v2renter" -> Tag("sia/id/v2filecontractoutput|") \o id \o U64LE(0)
    [] kind = "v2host" -> Tag("sia/id/v2filecontractoutput|") \o id \o U64LE(1)
    [] kind = "v2renewal" -> Tag("sia/id/v2filecontractrenewal|") \o id
DerivedId(kind, id, i) == Blake2b(DerivedContent(kind, id, i))

(* ------------------------------------------------------------ policy addresses *)
OpaqueOf(a) == [k |-> "opaque", v |-> a]
RECURSIVE PolicyAddress(_)
PolicyAddress(p) ==
  CASE p.k = "uc" -> UcAddress(p.v)
    [] p.k = "opaque" -> p.v
    [] p.k = "thresh" -> Blake2b(Tag("sia/address|") \o Enc(2, T("SpendPolicy"),
         [k |-> "thresh", n |-> p.n, of |-> [i \in 1..Len(p.of) |-> OpaqueOf(PolicyAddress(p.of[i]))]]))
    [] OTHER -> Blake2b(Tag("sia/address|") \o Enc(2, T("SpendPolicy"), p))
=============================================================================
