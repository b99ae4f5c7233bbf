------------------------------- MODULE MC_Money -------------------------------
(***************************************************************************)
(* The laws of amounts, over all pairs of amounts at their edges: what is  *)
(* exact, when it fails, how the operations undo each other, and what      *)
(* texts denote.                                                           *)
(*   PART   "pairs" (arithmetic), "text", "tax"                            *)
(*   START, STEP   which first amounts this run looks at                   *)
(***************************************************************************)
EXTENDS Cases, IOUtils, TLC

Top == Rep("ff", 16)
Decs == <<"9", "10", "11", "24", "25", "26", "39", "99", "1000", "9999", "10000", "10001", "249999", "250000", "256410", "256411", "1000000000000", "999999999999999999999999",
          "1000000000000000000000000", "1000000000000000000000001", "30000000000000000000000000000", "340282366920938463463374607431768211", "113427455640312821154458202477256070485",
          "226854911280625642308916404954512140970", "1234567890123456789012345678901234567"  >>
ASSUME TLCSet(1, Now(LET e == IntEdges(16, 0) IN e \o Now([i \in 1..Len(Decs) |-> NHex(Num(Decs[i]), 16)])
                     \o Now([k \in 1..36 |-> NHex(NPow10(k), 16)])))
Amounts == TLCGet(1)
ASSUME TLCSet(2, atoi(IOEnv.STEP))
Is(e, v) == e.r = "ok" /\ e.v = v

(* ------------------------------------------------------------------ arithmetic *)
Pair(a, b) ==
  \A sum \in {Arith("add", a, b)}, dif \in {Arith("sub", a, b)}, prd \in {Arith("mul", a, b)}, quo \in {Arith("div", a, b)}, rem \in {Arith("rem", a, b)}, cmp \in {CmpOf(a, b)} :
    /\ sum = Arith("add", b, a) /\ prd = Arith("mul", b, a)
    /\ sum.r = "ok" <=> CmpOf(a, Arith("sub", Top, b).v) <= 0
    /\ sum.r = "ok" => Is(Arith("sub", sum.v, b), a) /\ CmpOf(sum.v, a) >= 0
    /\ dif.r = "ok" <=> cmp >= 0
    /\ dif.r = "ok" => Is(Arith("add", dif.v, b), a)
    /\ cmp = 0 - CmpOf(b, a) /\ (cmp = 0 <=> a = b)
    /\ (quo.r = "ok") = (b # Zeros(16)) /\ rem.r = quo.r
    /\ b # Zeros(16) =>
         /\ CmpOf(rem.v, b) < 0 /\ CmpOf(quo.v, a) <= 0
         /\ Is(Arith("add", Arith("mul", quo.v, b).v, rem.v), a)
         /\ (prd.r = "ok" <=> CmpOf(a, Arith("div", Top, b).v) <= 0)
         /\ (prd.r = "ok" => Is(Arith("div", prd.v, b), a) /\ Is(Arith("rem", prd.v, b), Zeros(16)))
    /\ b = Zeros(16) => Is(prd, b)
    /\ SumOf(<<a, b>>) = sum /\ SumOf(<<a, Zeros(16), b>>) = sum
    /\ sum.r = "none" => SumOf(<<a, b, Top>>).r = "none"
One(a) ==
  /\ SumOf(<<>>) = Ok(Zeros(16)) /\ SumOf(<<a>>) = Ok(a)
  /\ (ToU64(a).r = "ok") = (CmpOf(a, Zeros(8) \o Rep("ff", 8)) <= 0)
  /\ ToU64(a).r = "ok" => Siacoins(ToU64(a).v) = Arith("mul", a, NHex(NPow10(24), 16))
  /\ Is(Arith("mul", a, Zeros(15) \o "01"), a) /\ Is(Arith("div", a, Zeros(15) \o "01"), a)

(* ------------------------------------------------------------------ text *)
Units == <<<<"H", 0>>, <<"pS", 12>>, <<"nS", 15>>, <<"uS", 18>>, <<"mS", 21>>, <<"SC", 24>>, <<"KS", 27>>, <<"MS", 30>>, <<"GS", 33>>, <<"TS", 36>>>>
DecOf(a) == AsciiHex(NDec(NOf(a)))
\* d with leading zeros to more than k digits, and a point before the last k
WithPoint(d, k) == LET e == IF BLen(d) > k THEN d ELSE Rep("30", k + 1 - BLen(d)) \o d IN BTake(e, BLen(e) - k) \o "2e" \o BFrom(e, BLen(e) - k)
Texts(a) ==
  /\ ParseAmount(DecOf(a)) = Ok(a)
  /\ \A i \in 1..Len(Units) : \A u \in {AsciiHex(Units[i][1])}, k \in {Units[i][2]} :
       \A t \in {IF k = 0 THEN DecOf(a) ELSE WithPoint(DecOf(a), k)} :
         \* the full text denotes the amount, whatever space there is before the unit
         /\ ParseAmount(t \o u) = Ok(a) /\ ParseAmount(t \o "20" \o u) = Ok(a) /\ ParseAmount(t \o "2009" \o u \o "0a") = Ok(a)
         \* a digit more is beyond a hasting
         /\ k > 0 => ParseAmount(t \o "31" \o u) = Err
         \* without its last zeros it denotes the same; without a last digit that counts it does not
         /\ k > 0 => \A s \in {BTake(t, BLen(t) - 1)} :
              IF k = 1 THEN TRUE
              ELSE IF BAt(t, BLen(t) - 1) = "30" THEN ParseAmount(s \o u) = Ok(a)
              ELSE ParseAmount(s \o u) # Ok(a)
         \* a sign, or anything else before the digits, is refused, and so is a unit there is not
         /\ ParseAmount("2d" \o t \o u) = Err /\ ParseAmount("2b" \o t \o u) = Err /\ ParseAmount(u \o t) = Err
         /\ ParseAmount(t \o u \o "58") = Err /\ ParseAmount(t \o "2e31" \o u) = Err

(* ------------------------------------------------------------------ taxes *)
At2(tax) == [network |-> [Mainnet EXCEPT !.hardforkTax.height = tax], state |-> [Zero(T("State")) EXCEPT !.index.height = U64(5)]]
Before == At2(U64(7))
After == At2(U64(6))
Whole(x) == NDivSmall(x, 10000)[2] = 0
TaxPair(a, b) ==
  \A ta \in {NOf(Tax1(After, a))}, tb \in {NOf(Tax1(After, b))}, pa \in {NOf(Tax1(Before, a))}, pb \in {NOf(Tax1(Before, b))}, t2 \in {Tax2(a, b)}, s \in {Arith("add", a, b)} :
    /\ Whole(ta) /\ Whole(pa) /\ NLe(ta, NOf(a)) /\ NLe(pa, NOf(a))
    \* larger payouts do not pay less
    /\ CmpOf(a, b) <= 0 => NLe(ta, tb) /\ NLe(pa, pb)
    \* 3.9 percent, rounded down to a siafund's share
    /\ NLe(NMul(ta, NInt(1000)), NMul(NOf(a), NInt(39))) /\ NLt(NMul(NOf(a), NInt(39)), NMul(NAdd(ta, NInt(10000)), NInt(1000)))
    /\ t2 = Tax2(b, a) /\ t2.r = s.r
    /\ s.r = "ok" => /\ Whole(NOf(t2.v)) /\ t2 = Tax2(s.v, Zeros(16))
                     /\ NLe(NMul(NOf(t2.v), NInt(25)), NOf(s.v)) /\ NLt(NOf(s.v), NMul(NAdd(NOf(t2.v), NInt(10000)), NInt(25)))

VARIABLES mcAt, mcGood
MInit == Init /\ mcAt = atoi(IOEnv.START) /\ mcGood = TRUE
MNext == /\ mcAt <= Len(Amounts)
         /\ mcGood' = (\A a \in {Amounts[mcAt]} :
                         CASE IOEnv.PART = "pairs" -> One(a) /\ (\A j \in 1..Len(Amounts) : Pair(a, Amounts[j]))
                           [] IOEnv.PART = "text" -> Texts(a)
                           [] IOEnv.PART = "tax" -> \A j \in 1..Len(Amounts) : TaxPair(a, Amounts[j]))
         /\ mcAt' = mcAt + TLCGet(2)
         /\ UNCHANGED vars
Claimed == mcGood
Emit == TLCGet("distinct") >= 0
=============================================================================
