------------------------------- MODULE MC_Keys -------------------------------
(***************************************************************************)
(* Every history of DEPTH operations on seeds, phrases, keys and           *)
(* signatures: phrases lead back to their seeds, keys are a function of    *)
(* seed and index and differ for different ones, and a signature verifies  *)
(* under the key and for the hash it was made with, and no other.          *)
(***************************************************************************)
EXTENDS Cases, Json, IOUtils, TLC

ASSUME TLCSet(2, atoi(IOEnv.DEPTH))
ASSUME TLCSet(9, <<>>)
SeedVals == {Salt("01", 16), Zeros(16), Rep("ff", 16)}
Hashes == {Salt("02", 32), Zeros(32)}
KeyIdx == {U64(0), U64(1), "0100000000000000", Rep("ff", 8)}
\* texts of phrases: of each seed, and with the last two words exchanged
Swapped(v) == LET w == WordsOf(v) IN Cat([i \in 1..12 |-> (IF i = 1 THEN "" ELSE "20") \o (CASE i = 11 -> w[12] [] i = 12 -> w[11] [] OTHER -> w[i])])
ASSUME TLCSet(3, Now([v \in SeedVals |-> <<Phrase(v), Swapped(v)>>]))
VARIABLES mcHist, mcSigs           \* signatures made: <<secret key, hash, signature>>
Op(o) == [op |-> o]
Cmds ==
  {[op |-> "seed", s |-> n, v |-> x] : n \in {"s"}, x \in SeedVals}
  \cup {[op |-> "phrase", s |-> n] : n \in DOMAIN seeds}
  \cup {[op |-> "fromphrase", b |-> TLCGet(3)[x][k]] : x \in {seeds[n] : n \in DOMAIN seeds}, k \in 1..2}
  \cup {[op |-> "derivekey", s |-> n, i |-> j, key |-> "k"] : n \in DOMAIN seeds, j \in KeyIdx}
  \cup {[op |-> "key", key |-> "j", how |-> h, v |-> Salt("03", 32)] : h \in {"seed", "hash"}}
  \cup {[op |-> "key", key |-> "j", how |-> "raw", v |-> keys[k]] : k \in DOMAIN keys \ {"j"}}
  \cup {[op |-> "sign", key |-> k, h |-> h] : k \in DOMAIN keys, h \in Hashes}
  \cup {[op |-> "verify", pk |-> PubOf(keys[k]), h |-> h, sig |-> s[3]] : k \in DOMAIN keys, h \in Hashes, s \in mcSigs}
Result(c) ==
  CASE c.op = "seed" -> [r |-> "ok"]
    [] c.op = "phrase" -> Ok(Phrase(seeds[c.s]))
    [] c.op = "fromphrase" -> FromPhrase(c.b)
    [] c.op = "derivekey" -> Ok(KeyView(DerivedKey(seeds[c.s], c.i)))
    [] c.op = "key" -> Ok(KeyView(KeyOf(c)))
    [] c.op = "sign" -> Ok([sig |-> Sign(keys[c.key], c.h), verifies |-> TRUE])
    [] c.op = "verify" -> Verify(c.pk, c.h, c.sig)
MInit == Init /\ mcHist = <<>> /\ mcSigs = {}
MNext == /\ Len(mcHist) < TLCGet(2)
         /\ \E c \in Cmds : \A r \in {Result(c)} :
              /\ Do(c, r)
              /\ mcHist' = Append(mcHist, c)
              /\ mcSigs' = IF c.op = "sign" THEN mcSigs \cup {<<keys[c.key], c.h, r.v.sig>>} ELSE mcSigs
Claimed ==
  /\ \A n \in DOMAIN seeds : \A x \in {FromPhrase(Phrase(seeds[n]))} : x.r = "ok" /\ x.v = seeds[n]
  /\ \A s \in mcSigs, k \in DOMAIN keys, h \in Hashes :
       \A v \in {Verify(PubOf(keys[k]), h, s[3])} : v.r = "ok" /\ (v.v <=> (s[1] = keys[k] /\ s[2] = h))
  /\ (Len(mcHist) = TLCGet(2) => TLCSet(9, Append(TLCGet(9), mcHist)))
\* keys of different seeds and indices are different, and no swap of words denotes the same seed
Distinct == /\ Cardinality({DerivedKey(v, i) : v \in SeedVals, i \in KeyIdx}) = Cardinality(SeedVals) * Cardinality(KeyIdx)
            /\ \A v \in SeedVals : Swapped(v) = Phrase(v) \/ FromPhrase(Swapped(v)) # Ok(v)
ASSUME Distinct
Emit == JsonSerialize(IOEnv.OUT, TLCGet(9))
=============================================================================
