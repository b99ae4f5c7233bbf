------------------------------ MODULE MC_Secrets ------------------------------
(***************************************************************************)
(* Every history of DEPTH operations on secrets in memory: creation in     *)
(* every way, copies, derived keys, moves, use, drops.  A secret keeps its *)
(* value until it is itself replaced or dropped, whatever happens to       *)
(* others, copies of it included.                                          *)
(***************************************************************************)
EXTENDS Cases, Json, IOUtils, TLC

ASSUME TLCSet(2, atoi(IOEnv.DEPTH))
ASSUME TLCSet(9, <<>>)
Hows == IF IOEnv.HOWS = "all" THEN {"seed", "phrase", "raw", "fromseed", "hash"} ELSE {"seed", "raw"}
Size == [seed |-> 16, phrase |-> 16, raw |-> 64, fromseed |-> 32, hash |-> 32]
Slots == <<"a", "b", "c">>
\* bytes without zeros, different for each place in the history
Value(how, k) == BTake(Rep("5a" \o ByteStr[k + 1] \o ByteStr[k + 33] \o ByteStr[BLen(how) + 1] \o "c3a7" \o ByteStr[k + 65], 10), Size[how])
VARIABLES mcHist, mcOk
Free3 == {i \in 1..3 : Slots[i] \notin DOMAIN mem}
NextSlot == Slots[CHOOSE i \in Free3 : \A j \in Free3 : i <= j]
Cmds ==
  (IF Free3 = {} THEN {}
   ELSE {[op |-> "s_new", to |-> NextSlot, how |-> h, v |-> Value(h, Len(mcHist))] : h \in Hows}
        \cup {[op |-> "s_clone", from |-> f, to |-> NextSlot] : f \in DOMAIN mem}
        \cup {[op |-> "s_derive", from |-> f, to |-> NextSlot, i |-> U64(Len(mcHist))] : f \in {g \in DOMAIN mem : mem[g].kind = "seed"}}
        \cup {[op |-> "s_move", from |-> f, to |-> NextSlot] : f \in DOMAIN mem})
  \cup {[op |-> "s_use", from |-> f] : f \in DOMAIN mem}
  \cup {[op |-> "s_drop", from |-> f] : f \in DOMAIN mem}
  \cup {[op |-> "s_new", to |-> f, how |-> h, v |-> Value(h, Len(mcHist))] : f \in DOMAIN mem, h \in {"raw"}}        \* replaced
  \cup {[op |-> "s_clone", from |-> f, to |-> g] : f \in DOMAIN mem, g \in DOMAIN mem \ {"a"}}
LiveOf(m) == SetToSeq({<<n, m[n].v>> : n \in DOMAIN m})
Result(c) == [r |-> "ok", residue |-> 0, live |-> LiveOf(MemAfter(c))]
Touched(c) == (IF "to" \in DOMAIN c THEN {c.to} ELSE {}) \cup (IF c.op \in {"s_drop", "s_move"} THEN {c.from} ELSE {})
MInit == Init /\ mcHist = <<>> /\ mcOk = TRUE
MNext == /\ Len(mcHist) < TLCGet(2)
         /\ \E c \in {d \in Cmds : ~ ("to" \in DOMAIN d /\ "from" \in DOMAIN d /\ d.to = d.from)} :
              /\ Do(c, Result(c))
              /\ mcHist' = Append(mcHist, c)
              /\ mcOk' = \A n \in DOMAIN mem \ Touched(c) : n \in DOMAIN mem' /\ mem'[n] = mem[n]
Claimed == mcOk /\ (Len(mcHist) = TLCGet(2) => TLCSet(9, Append(TLCGet(9), mcHist)))
Emit == JsonSerialize(IOEnv.OUT, TLCGet(9))
=============================================================================
