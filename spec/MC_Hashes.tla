------------------------------- MODULE MC_Hashes -------------------------------
(***************************************************************************)
(* What ids, addresses and signature hashes commit to, checked against an  *)
(* independent description: over every edit of Cases, the content that is  *)
(* hashed changes exactly when something changes that is not a witness.    *)
(*   PID     the property (C08 ... C15) whose claims are checked           *)
(*   START, STEP   which cases this run looks at                           *)
(***************************************************************************)
EXTENDS Cases, Json, IOUtils, TLC

PID == IOEnv.PID
Subject == CASE PID = "C08" -> "v1_Transaction" [] PID = "C09" -> "v2_Transaction" [] PID \in {"C11", "C12"} -> "v1_Transaction"
             [] PID = "C13" -> "v2_Transaction" [] PID = "C14" -> "UnlockConditions" [] PID = "C15" -> "SpendPolicy" [] PID = "C10" -> "u64"
ASSUME TLCSet(1, Now([name \in (IF PID = "C13" THEN {Subject, "v2_FileContract", "v2_FileContractRenewal", "v2_Attestation"} ELSE {Subject}) |-> CasesOf(name)]))
Tab == TLCGet(1)
ASSUME TLCSet(2, Now(FlatMap(Now([n \in 1..Cardinality(DOMAIN Tab) |-> SetToSeq(DOMAIN Tab)[n]]),
                   LAMBDA n : FlatMap(Now([k \in 1..Len(Tab[n]) |-> k]), LAMBDA k : Now([j \in 1..(Len(Tab[n][k].edits) + 1) |-> <<n, k, j - 1>>])))))
All == TLCGet(2)
ASSUME TLCSet(3, atoi(IOEnv.STEP))

(* ------------------------------------------------------------------ where two values differ *)
\* the places (names only; <<name, position>> at the top) at which values of a type differ
RECURSIVE Diffs(_, _, _, _)
DiffFields(fs, x, y, p) == UNION {Diffs(fs[i][2], x[fs[i][1]], y[fs[i][1]], Append(p, fs[i][1])) : i \in 1..Len(fs)}
Diffs(t, x, y, p) ==
  CASE t.k = "ref" -> Diffs(T(t.n), x, y, p)
    [] IsStruct(t) -> DiffFields(StructFields(t), x, y, p)
    [] t.k \in {"vec", "opt"} -> IF Len(x) # Len(y) THEN {p} ELSE UNION {Diffs(t.e, x[i], y[i], IF Len(p) = 1 THEN Append(p, i) ELSE p) : i \in 1..Len(x)}
    [] t.k = "resolution" -> IF x.type # y.type THEN {Append(p, "type")}
                             ELSE Diffs(T("v2_FileContractElement"), x.parent, y.parent, Append(p, "parent"))
                                  \cup (CASE x.type = "renewal" -> Diffs(T("v2_FileContractRenewal"), x.resolution, y.resolution, Append(p, "resolution"))
                                          [] x.type = "storageProof" -> Diffs(T("v2_StorageProof"), x.resolution, y.resolution, Append(p, "resolution"))
                                          [] OTHER -> {})
    [] OTHER -> IF Same(x, y) THEN {} ELSE {p}
Places(n, x, y) == Diffs(T(n), x, y, <<>>)

(* ------------------------------------------------------------------ what is a witness *)
\* a place without the position
Names(p) == IF Len(p) >= 2 THEN IF p[1] \in {"siacoinInputs", "siafundInputs", "fileContracts", "fileContractRevisions", "fileContractResolutions", "attestations",
                                             "siacoinOutputs", "siafundOutputs"} THEN <<p[1]>> \o SubSeq(p, 3, Len(p)) ELSE p ELSE p
Starts(p, s) == Len(p) >= Len(s) /\ SubSeq(p, 1, Len(s)) = s
TwoSigs == {"renterSignature", "hostSignature"}
ContractWitness(q) == Len(q) = 1 /\ q[1] \in TwoSigs
RenewalWitness(q) == ContractWitness(q) \/ (Len(q) = 2 /\ q[1] \in {"finalRevision", "newContract"} /\ q[2] \in TwoSigs)
Tail2(q, n) == SubSeq(q, n + 1, Len(q))
Witness2(p) ==
  \E q \in {Names(p)} :
    \/ q[1] \in {"siacoinInputs", "siafundInputs"} /\ Len(q) >= 2 /\ (q[2] = "satisfiedPolicy" \/ q[2] = "claimAddress" \/ (q[2] = "parent" /\ Len(q) >= 3 /\ q[3] # "id"))
    \/ q[1] = "fileContracts" /\ ContractWitness(Tail2(q, 1))
    \/ q[1] = "fileContractRevisions" /\ Len(q) >= 3 /\ (IF q[2] = "parent" THEN q[3] # "id" ELSE ContractWitness(Tail2(q, 2)))
    \/ q[1] = "fileContractResolutions" /\ Len(q) >= 3 /\ (IF q[2] = "parent" THEN q[3] # "id"
                                                             ELSE q[2] = "resolution" /\ (RenewalWitness(Tail2(q, 2)) \/ Starts(Tail2(q, 2), <<"proofIndex", "stateElement", "merkleProof">>)))

(* ------------------------------------------------------------------ the claims *)
EraPrefixes == {"", "00", "01", "02"}
ChildContent(k, v, i) == Spec16(ChildSpec[k]) \o NoSigs(v) \o LE(i)
Claim08(b, v) ==
  \A d \in {Places("v1_Transaction", b, v)} :
    /\ (NoSigs(v) = NoSigs(b)) <=> (\A p \in d : p[1] = "signatures")
    /\ Cardinality({NoSigs(v)} \cup {ChildContent(k, v, i) : k \in DOMAIN ChildSpec, i \in {Zeros(8), U64(1), U64(256), Rep("ff", 8)}}) = 13
\* the content of a v2 id starts like no transaction of v1 that fits into memory: its list of inputs would have 2^56 elements or more
Claim09(b, v) ==
  \A d \in {Places("v2_Transaction", b, v)} :
    /\ (Sem2(v) = Sem2(b)) <=> (\A p \in d : Witness2(p))
    /\ ByteVal[BAt(Tag("sia/id/transaction|"), 7)] > 0
Parents == {Salt("70", 32), Salt("71", 32)}
Claim11(b, v) ==
  \A d \in {Places("v1_Transaction", b, v)} :
    /\ \A pre \in {"00", "02"} : (WholeContent(v, pre, Salt("70", 32), U64(1), U64(2)) = WholeContent(b, pre, Salt("70", 32), U64(1), U64(2))) <=> (\A p \in d : p[1] = "signatures")
    /\ Cardinality({WholeContent(v, pre, q, k, l) : pre \in {"00", "01"}, q \in Parents, k \in {Zeros(8), U64(1)}, l \in {Zeros(8), U64(1)}})
         = (IF v.siacoinInputs = <<>> /\ v.siafundInputs = <<>> THEN 8 ELSE 16)
\* one list and one index at a time, and pairs of lists; "" and list "x" do not occur together
Only(l, s) == Now([m \in {CoveredLists[i] : i \in 1..10} |-> IF m = l THEN s ELSE <<>>])
Claim12(b, v) ==
  \A d \in {Places("v1_Transaction", b, v)} :
    \A i \in 1..10 : \A l \in {CoveredLists[i]} :
      /\ \A k \in 1..Len(v[l]) : \A c \in {Only(l, <<U64(k - 1)>>)} :
           /\ PartialOk(v, c)
           /\ k <= Len(b[l]) => ((PartialContent(v, "01", c) = PartialContent(b, "01", c)) <=> (Same(v[l][k], b[l][k])))
           \* a difference elsewhere does not matter
           /\ (k <= Len(b[l]) /\ (\A p \in d : p[1] # l \/ (Len(p) >= 2 /\ p[2] # k))) => PartialContent(v, "01", c) = PartialContent(b, "01", c)
           /\ (PartialContent(v, "01", c) # PartialContent(v, "02", c)) <=> (l \in {"siacoinInputs", "siafundInputs"})
      /\ ~ PartialOk(v, Only(l, <<U64(Len(v[l]))>>)) /\ ~ PartialOk(v, Only(l, <<Rep("ff", 8)>>)) /\ ~ PartialOk(v, Only(l, <<"01" \o Zeros(7)>>))
Sem(n, v) == CASE n = "v2_Transaction" -> Sem2(v) [] n = "v2_FileContract" -> SemContract(v) [] n = "v2_FileContractRenewal" -> SemRenewal(v) [] n = "v2_Attestation" -> SemAttestation(v)
Witness(n, p) == CASE n = "v2_Transaction" -> Witness2(p) [] n = "v2_FileContract" -> ContractWitness(p) [] n = "v2_FileContractRenewal" -> RenewalWitness(p) [] n = "v2_Attestation" -> p = <<"signature">>
Purposes == <<"sia/sig/input|", "sia/sig/filecontract|", "sia/sig/filecontractrenewal|", "sia/sig/attestation|", "sia/id/transaction|">>
\* no purpose is the beginning of another, so contents of different purposes are different; prefixes of an era have one byte, or none
Claim13(n, b, v) ==
  /\ \A i, j \in 1..5 : i = j \/ ~ BIsPrefix(Tag(Purposes[i]), Tag(Purposes[j]))
  /\ \A d \in {Places(n, b, v)} : (Sem(n, v) = Sem(n, b)) <=> (\A p \in d : Witness(n, p))
  /\ Cardinality({pre \o Sem(n, v) : pre \in EraPrefixes}) = 4
Claim14(b, v) == (UcAddress(v) = UcAddress(b)) <=> Same(v, b)
\* every way to make one part of a policy opaque, and every part of the parts
RECURSIVE Opaqued(_)
Opaqued(p) == IF p.k # "thresh" THEN {} ELSE UNION {{[p EXCEPT !.of[i] = OpaqueOf(PolicyAddress(p.of[i]))]} \cup {[p EXCEPT !.of[i] = q] : q \in Opaqued(p.of[i])} : i \in 1..Len(p.of)}
Claim15(v) == \A a \in {PolicyAddress(v)} : \A q \in Opaqued(v) : PolicyAddress(q) = a
Kinds == <<"claim", "v2claim", "foundation", "miner", "v2siacoin", "v2siafund", "v2contract", "v2attestation", "valid", "missed", "v2renter", "v2host", "v2renewal">>
Ids10 == {Zeros(32), Salt("01", 32), Rep("ff", 32), FlipByte(Salt("01", 32), 31), FlipByte(Salt("01", 32), 0)}
Idx10 == LET e == IntEdges(8, 0) IN {e[i] : i \in 1..Len(e)}
Keyed == [i \in 1..13 |-> IF Kinds[i] \in Indexed THEN {<<Kinds[i], d, x>> : d \in Ids10, x \in Idx10} ELSE {<<Kinds[i], d, Zeros(8)>> : d \in Ids10}]
Claim10 == \A all \in {UNION {Keyed[i] : i \in 1..13}} : Cardinality({DerivedContent(k[1], k[2], k[3]) : k \in all}) = Cardinality(all)
\* all policies of the table have addresses of their own, except that an opaque policy shares that of what it stands for
AllDifferent == LET P == {Tab[Subject][i].base : i \in 1..Len(Tab[Subject])} IN Cardinality({PolicyAddress(p) : p \in P}) = Cardinality(P)

Claim(k) ==
  \A a \in {All[k]} : \A c \in {Tab[a[1]][a[2]]} : \A v \in {Edited(c, a[3])} : \A b \in {c.base} :
    CASE PID = "C08" -> Claim08(b, v) [] PID = "C09" -> Claim09(b, v) [] PID = "C11" -> Claim11(b, v) [] PID = "C12" -> Claim12(b, v)
      [] PID = "C13" -> Claim13(a[1], b, v) [] PID = "C14" -> Claim14(b, v) [] PID = "C15" -> Claim15(v) /\ (k = 1 => AllDifferent) [] PID = "C10" -> (k = 1 => Claim10)
VARIABLES mcAt, mcGood
MInit == Init /\ mcAt = atoi(IOEnv.START) /\ mcGood = TRUE
MNext == /\ mcAt <= Len(All)
         /\ mcGood' = Claim(mcAt)
         /\ mcAt' = mcAt + TLCGet(3)
         /\ UNCHANGED vars
Claimed == mcGood
Emit == TLCGet("distinct") >= 0
=============================================================================
