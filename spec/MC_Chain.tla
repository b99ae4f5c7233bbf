------------------------------- MODULE MC_Chain -------------------------------
(***************************************************************************)
(* Chains of small networks, block by block: every order of the hardfork   *)
(* heights, several reward schedules, months of a few blocks.              *)
(*   TOP     hardforks happen at heights 0..TOP                            *)
(*   BLOCKS  how far a chain grows                                         *)
(***************************************************************************)
EXTENDS Cases, Json, IOUtils, TLC

ASSUME TLCSet(2, atoi(IOEnv.TOP))
ASSUME TLCSet(3, atoi(IOEnv.BLOCKS))
ASSUME TLCSet(9, <<>>)
Genesis == [Zero(T("State")) EXCEPT !.index.height = Rep("ff", 8), !.foundationPrimaryAddress = Salt("0f", 32)]
\* blocks in a month, by choice of the block interval (a month is 2 628 000 seconds)
IntervalFor(n) == NHex(NDivMod(MonthNs, NInt(n))[1], 8)
Net(a, f, v, x, init, low, per) ==
  [Mainnet EXCEPT !.hardforkASIC.height = U64(a), !.hardforkFoundation.height = U64(f), !.hardforkV2.allowHeight = U64(v), !.hardforkTax.height = U64(x),
                  !.initialCoinbase = Sc(init), !.minimumCoinbase = Sc(low), !.blockInterval = IntervalFor(per), !.maturityDelay = U64(per)]
H == 0..TLCGet(2)
VARIABLES mcHist, mcNet, mcPaid
Probe == <<[op |-> "params"], [op |-> "subsidy"],
           [op |-> "tax1", v |-> [Zero(T("v1_FileContract")) EXCEPT !.payout = NHex(Num("98765432109876543210987"), 16)]]>>
MInit == /\ Init /\ mcPaid = <<>>
         /\ \E a, f, v \in H : \E x \in {a, f} : \E w \in {<<3, 1, 2>>, <<2, 2, 3>>, <<5, 0, 1>>} :
              /\ mcNet = [a |-> a, f |-> f, v |-> v, x |-> x, init |-> w[1], low |-> w[2], per |-> w[3]]
              /\ mcHist = <<[op |-> "chain", cs |-> [network |-> Net(a, f, v, x, w[1], w[2], w[3]), state |-> Genesis]]>> \o Probe
\* the first step opens the chain (at the state before genesis), the others add a block
Here2 == IF chain = <<>> THEN -2 ELSE IF CS.state.index.height = Rep("ff", 8) THEN -1 ELSE BEInt(CS.state.index.height)
MNext == /\ Here2 < TLCGet(3)
         /\ IF chain = <<>> THEN Do(mcHist[1], [r |-> "ok"]) /\ UNCHANGED mcHist
            ELSE \A c \in {[op |-> "height", h |-> U64(Here2 + 1)]} : Do(c, [r |-> "ok"]) /\ mcHist' = mcHist \o <<c>> \o Probe
         /\ LET cs == chain'[1] s == Subsidy(cs)
            IN mcPaid' = (IF s = <<>> THEN mcPaid ELSE NAdd(mcPaid, NOf(s[1].value)))
         /\ UNCHANGED mcNet
\* what the schedule amounts to, in TLC's integers
Rwd(k) == IF mcNet.init - k > mcNet.low THEN mcNet.init - k ELSE mcNet.low
Claimed ==
  \A k \in {Here2} :
  k = -2 \/
  LET p == Params(CS)
      n == mcNet
      child == k + 1
      months == IF child < n.f THEN 0 ELSE 12 + (child - n.f) \div n.per
  IN /\ p.childHeight = U64(child)
     /\ p.reward = Sc(Rwd(child)) /\ p.maturity = <<U64(child + n.per)>>
     /\ p.nonce = (IF child >= n.a THEN U64(1009) ELSE U64(1))
     \* the latest of the three rules in force (by protocol order) decides; at height k, not at its child
     \* (the state before genesis has the greatest height there is)
     /\ p.prefix = (IF k = -1 \/ k >= n.v THEN "02" ELSE IF k >= n.f THEN "01" ELSE IF k >= n.a THEN "00" ELSE "")
     \* what has been paid so far: twelve months at the fork and one for each month completed since
     /\ mcPaid = NMul(NMul(NInt(months), NInt(n.per)), NOf(Sc(30000)))
     /\ \A pay \in {<<>>, <<1>>, NInt(9999), NInt(256410), NInt(256411), NInt(512820), NPow10(24), NShr(NShl(<<255>>, 15), 0)} :
          LET tax == NOf(Tax1(CS, NHex(pay, 16)))
              exact == NDivMod(NMul(pay, NInt(39)), NInt(1000))[1]
          IN /\ NLe(tax, pay) /\ NDivSmall(tax, 10000)[2] = 0
             /\ (child >= n.x => (NLe(tax, exact) /\ NLt(exact, NAdd(tax, NInt(10000)))))
     /\ (k = TLCGet(3) => TLCSet(9, Append(TLCGet(9), mcHist)))
Emit == JsonSerialize(IOEnv.OUT, TLCGet(9))
=============================================================================
