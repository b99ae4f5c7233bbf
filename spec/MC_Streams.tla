------------------------------ MODULE MC_Streams ------------------------------
(***************************************************************************)
(* Values of both protocols written to and read from one stream, in every  *)
(* order: reading returns what was written, first in first out, and takes  *)
(* exactly the bytes that were written for it.                             *)
(*   DEPTH   the number of values a behaviour writes                       *)
(*   EVERY, FIRST   which of the values it may write                       *)
(***************************************************************************)
EXTENDS Cases, Json, IOUtils, TLC

V(ver, t, v) == [ver |-> ver, t |-> t, v |-> v]
ASSUME TLCSet(1, Now(<<
  V(2, "bool", TRUE), V(2, "u64", Filled(T("u64"), "01")), V(2, "string", AsciiHex("key")), V(2, "opt_u64", <<>>), V(2, "opt_u64", <<Rep("01", 8)>>),
  V(2, "vec_u64", <<>>), V(2, "Currency", Zeros(16)), V(2, "SpendPolicy", Th(1, <<Above(1), Lf("uc", UcWith(1, "ed25519"))>>)),
  V(2, "v2_Transaction", Zero(T("v2_Transaction"))), V(2, "ElementAccumulator", AccumWith(U64(5))),
  V(1, "Currency", Zeros(16)), V(1, "Currency", Zeros(15) \o "01"), V(1, "bytes", ""), V(1, "vec_opt_u8", <<<<>>, <<"01">>>>), V(1, "SiafundOutput", Filled(T("SiafundOutput"), "02")),
  V(1, "v1_Transaction", Zero(T("v1_Transaction")))>>))
ASSUME TLCSet(2, atoi(IOEnv.DEPTH))
ASSUME TLCSet(3, Now({i \in 1..Len(TLCGet(1)) : i % atoi(IOEnv.EVERY) = atoi(IOEnv.FIRST) % atoi(IOEnv.EVERY)}))
ASSUME TLCSet(9, <<>>)
Alphabet == TLCGet(1)
VARIABLES mcHist, mcPuts

Result(c) == IF c.op = "put" THEN [r |-> "ok", n |-> BLen(Full(c))]
             ELSE LET d == DecT(c.ver, c.t, stream) IN [r |-> "ok", v |-> d.v, used |-> d.used, same |-> Same(d.v, Head(sent).v)]
PutC(x) == [op |-> "put", ver |-> x.ver, t |-> x.t, v |-> x.v]
GetC == [op |-> "get", ver |-> Head(sent).ver, t |-> Head(sent).t]
Step(c) == Do(c, Result(c)) /\ mcHist' = Append(mcHist, c)

MInit == Init /\ mcHist = <<>> /\ mcPuts = 0
MNext == \/ /\ mcPuts < TLCGet(2)
            /\ \E i \in TLCGet(3) : Step(PutC(Alphabet[i]))
            /\ mcPuts' = mcPuts + 1
         \/ sent # <<>> /\ Step(GetC) /\ UNCHANGED mcPuts
         \* every behaviour ends with everything read
Done == mcPuts = TLCGet(2) /\ sent = <<>>
Bytes2(s) == Cat([i \in 1..Len(s) |-> Full(s[i])])
Claimed ==
  /\ stream = Bytes2(sent)
  /\ sent # <<>> => (\A c \in {GetC} : \A r \in {Result(c)} : GetOk(c, r) /\ r.same)
  /\ (Done => TLCSet(9, Append(TLCGet(9), mcHist)))
Emit == JsonSerialize(IOEnv.OUT, TLCGet(9))
=============================================================================
