------------------------------- MODULE MC_Merkle -------------------------------
(***************************************************************************)
(* The ways a Merkle root is computed, against its definition: in place,   *)
(* level by level, by tasks that run in any order and at the same time     *)
(* (sectors); with a forest of perfect trees, leaf by leaf (addresses).    *)
(*   LEAVES   a power of two: the leaves of the tree computed in place     *)
(* Hashes are symbolic here: a node is the sequence of what it is made of. *)
(***************************************************************************)
EXTENDS Cases, IOUtils, TLC

N == atoi(IOEnv.LEAVES)
ASSUME TLCSet(2, N)
\* texts stand for hashes: different trees have different texts
Sym(l, r) == "(" \o l \o r \o ")"
LeafSym(i) == "<" \o ToString(i) \o ">"
RECURSIVE RootSym(_)
RootSym(s) == IF Len(s) = 1 THEN s[1]
              ELSE LET k == PowBelow(Len(s), 1) IN Sym(RootSym(SubSeq(s, 1, k)), RootSym(SubSeq(s, k + 1, Len(s))))

VARIABLES mcArr,       \* the array of hashes, from 0
          mcSize,      \* the size of the chunk a task of this round owns
          mcTask       \* chunk -> <<step, its two results>>
mcVars == <<mcArr, mcSize, mcTask>>
Len2 == TLCGet(2)
Idle(c) == [k \in 0..((Len2 \div c) - 1) |-> [at |-> 0, reg |-> <<>>]]
MInit == /\ Init
         /\ mcArr = [i \in 0..(Len2 - 1) |-> LeafSym(i)] /\ mcSize = 4 /\ mcTask = Idle(4)
At(k) == k * mcSize
H2 == mcSize \div 2
Q4 == mcSize \div 4
\* one task: reads its four nodes, makes two of them, writes one, writes the other
TaskStep(k) ==
  \E t \in {mcTask[k]} :
    CASE t.at = 0 -> /\ mcTask' = [mcTask EXCEPT ![k] = [at |-> 1, reg |-> <<Sym(mcArr[At(k)], mcArr[At(k) + Q4]), "">>]]
                     /\ UNCHANGED <<mcArr, mcSize>>
      [] t.at = 1 -> /\ mcTask' = [mcTask EXCEPT ![k] = [at |-> 2, reg |-> <<t.reg[1], Sym(mcArr[At(k) + H2], mcArr[At(k) + H2 + Q4])>>]]
                     /\ UNCHANGED <<mcArr, mcSize>>
      [] t.at = 2 -> /\ mcArr' = [mcArr EXCEPT ![At(k)] = t.reg[1]] /\ mcTask' = [mcTask EXCEPT ![k].at = 3] /\ UNCHANGED mcSize
      [] t.at = 3 -> /\ mcArr' = [mcArr EXCEPT ![At(k) + H2] = t.reg[2]] /\ mcTask' = [mcTask EXCEPT ![k].at = 4] /\ UNCHANGED mcSize
      [] OTHER -> FALSE
\* a round ends when all its tasks have
Barrier == /\ \A k \in DOMAIN mcTask : mcTask[k].at = 4
           /\ mcSize <= Len2
           /\ mcSize' = 2 * mcSize /\ mcTask' = (IF 2 * mcSize <= Len2 THEN Idle(2 * mcSize) ELSE <<>>) /\ UNCHANGED mcArr
MNext == ((\E k \in DOMAIN mcTask : TaskStep(k)) \/ Barrier) /\ UNCHANGED vars
Finished == mcSize > Len2
Leaves2 == [i \in 1..Len2 |-> LeafSym(i - 1)]
Claimed ==
  /\ Finished => Sym(mcArr[0], mcArr[Len2 \div 2]) = RootSym(Leaves2)
  \* at every barrier the heads of half chunks are the roots of the leaves below them
  /\ (\A k \in DOMAIN mcTask : mcTask[k].at = 0) =>
       \A k \in DOMAIN mcTask : \A q \in 0..3 : mcArr[At(k) + q * Q4] = RootSym(SubSeq(Leaves2, At(k) + q * Q4 + 1, At(k) + q * Q4 + Q4))

(* ------------------------------------------------------------------ forests of perfect trees *)
\* trees: from low to high, "" where there is none
RECURSIVE Carry2(_, _, _)
Carry2(f, i, node) == IF i > Len(f) THEN Append(f, node)
                      ELSE IF f[i] = "" THEN [f EXCEPT ![i] = node]
                      ELSE Carry2([f EXCEPT ![i] = ""], i + 1, Sym(f[i], node))
ForestOf(s) == FoldLeft(LAMBDA f, x : Carry2(f, 1, x), <<>>, s)
RootOfForest(f) == FoldLeft(LAMBDA r, t : IF t = "" THEN r ELSE IF r = "" THEN t ELSE Sym(t, r), "", f)
ForestOk(n) == \A s \in {[i \in 1..n |-> LeafSym(i)]} :
                 \A f \in {ForestOf(s)} : /\ RootOfForest(f) = RootSym(s)
                                          \* there is a tree at a height exactly where the number of leaves has a bit
                                          /\ {i - 1 : i \in {j \in 1..Len(f) : f[j] # ""}} = {j - 1 : j \in {k \in 1..8 : (n \div 2 ^ (k - 1)) % 2 = 1}}
ASSUME \A n \in 1..70 : ForestOk(n)

(* ------------------------------------------------------------------ sectors described by fill and edits *)
\* the root of a small sector, by description, is the root of its segments; it changes with every one of them
Seg(x) == Rep(x, 64)
Small3(e) == [fill |-> "const", v |-> "00", edits |-> e]
Gen3(e) == [fill |-> "gen", v |-> Salt("01", 32), edits |-> e]
RootByList(sec) == MerkleRoot([i \in 1..8 |-> LeafHash(SegmentAt(sec, i - 1))])
EditLists == {<<>>} \cup {<<<<i, Seg("01")>>>> : i \in 0..7} \cup {<<<<i, Seg("01")>>, <<j, Seg("02")>>>> : i \in 0..7, j \in 0..7}
ASSUME \A e \in EditLists : SectorRootOf(Small3(e), 3) = RootByList(Small3(e)) /\ SectorRootOf(Gen3(e), 3) = RootByList(Gen3(e))
ASSUME \A secs \in {{Small3(e) : e \in EditLists}} :
         Cardinality({SectorRootOf(s, 3) : s \in secs}) = Cardinality({[i \in 0..7 |-> SegmentAt(s, i)] : s \in secs})
Emit == TLCGet("distinct") >= 0
=============================================================================
