-------------------------------- MODULE Chain --------------------------------
(***************************************************************************)
(* Consensus parameters in effect for the block after the current one.     *)
(* cs = [network, state] as in Types; heights are 8-byte hex.              *)
(***************************************************************************)
EXTENDS Money

Num(s) == NOfDec(AsciiHex(s))
UNum(s) == NHex(Num(s), 8)                         \* u64 of a decimal literal
Sc(n) == Siacoins(NHex(NInt(n), 8)).v            \* a number of siacoins in hastings
ULe(a, b) == U64Cmp(a, b) <= 0
ULt(a, b) == U64Cmp(a, b) < 0

ChildOf(cs) == ChildHeight(cs.state.index.height)
Reward(cs) ==
  LET cut == NMul(NOf(ChildOf(cs)), NPow10(24))
      init == NOf(cs.network.initialCoinbase)
      low == NOf(cs.network.minimumCoinbase)
  IN IF NLe(NAdd(cut, low), init) THEN NHex(NSub(init, cut), 16) ELSE cs.network.minimumCoinbase
Maturity(cs) == NHex(NAdd(NOf(ChildOf(cs)), NOf(cs.network.maturityDelay)), 8)
NonceFactor(cs) == IF ULt(ChildOf(cs), cs.network.hardforkASIC.height) THEN U64(1) ELSE U64(1009)
ReplayPrefix(cs) ==
  LET h == cs.state.index.height n == cs.network IN
  IF ULe(n.hardforkV2.allowHeight, h) THEN "02"
  ELSE IF ULe(n.hardforkFoundation.height, h) THEN "01"
  ELSE IF ULe(n.hardforkASIC.height, h) THEN "00" ELSE ""

\* blocks expected in a month: a twelfth of 365 days over the block interval (nanoseconds)
MonthNs == NMul(Num("2628000"), NPow10(9))
BlocksPerMonth(cs) == NDivMod(MonthNs, NOf(cs.network.blockInterval))[1]
Subsidy(cs) ==          \* <<>> or <<siacoin output>>
  LET c == NOf(ChildOf(cs))
      f == NOf(cs.network.hardforkFoundation.height)
      per == BlocksPerMonth(cs)
      month == NMul(NMul(Num("30000"), NPow10(24)), per)
  IN IF NLt(c, f) THEN <<>>
     ELSE IF NDivMod(NSub(c, f), per)[2] # <<>> THEN <<>>
     ELSE <<[value |-> NHex(IF c = f THEN NMul(month, <<12>>) ELSE month, 16),
             address |-> cs.state.foundationPrimaryAddress]>>
Subsidized(cs) == cs.network.blockInterval # Zeros(8) /\ BlocksPerMonth(cs) # <<>>

\* ---- taxes, always a multiple of the number of siafunds
SiafundCount == 10000
RoundTax(n) == NSub(n, NInt(NDivSmall(n, SiafundCount)[2]))
\* the double nearest to 0.039 is 5620492334958379 / 2^57
PreForkPart(p) == NShr(NMul(NMul(p, Num("5620492334958379")), <<128>>), 8)
Tax1(cs, payout) ==
  LET p == NOf(payout)
  IN NHex(RoundTax(IF ULt(ChildOf(cs), cs.network.hardforkTax.height) THEN PreForkPart(p)
                   ELSE NDivSmall(NMul(p, <<39>>), 1000)[1]), 16)
Tax2(a, b) == LET t == NAdd(NOf(a), NOf(b))
              IN IF NFits(t, 16) THEN Ok(NHex(RoundTax(NDivSmall(t, 25)[1]), 16)) ELSE None

Params(cs) == [childHeight |-> ChildOf(cs), reward |-> Reward(cs),
               maturity |-> IF NFits(NAdd(NOf(ChildOf(cs)), NOf(cs.network.maturityDelay)), 8) THEN <<Maturity(cs)>> ELSE <<>>,
               nonce |-> NonceFactor(cs), prefix |-> ReplayPrefix(cs),
               siafunds |-> U64(10000), ancestorDepth |-> U64(1000), maxWeight |-> U64(2000000)]

\* ---- the built-in networks
Z32 == Zeros(32)
TargetOf(lead) == lead \o Zeros(32 - BLen(lead))
Minutes(n) == NHex(NMul(NInt(n * 60), NPow10(9)), 8)
Seconds(n) == NHex(NMul(NInt(n), NPow10(9)), 8)
NetOf(name, minCoin, target, dev, tax, sp, oak, asic, fnd, v2) ==
  [name |-> AsciiHex(name), initialCoinbase |-> Sc(300000), minimumCoinbase |-> Sc(minCoin), initialTarget |-> target,
   blockInterval |-> Minutes(10), maturityDelay |-> U64(144), hardforkDevAddr |-> dev, hardforkTax |-> [height |-> U64(tax)],
   hardforkStorageProof |-> [height |-> U64(sp)], hardforkOak |-> oak, hardforkASIC |-> asic,
   hardforkFoundation |-> fnd, hardforkV2 |-> v2]
HfDev(h, a, b) == [height |-> U64(h), oldAddress |-> a, newAddress |-> b]
HfOak(h, f, t) == [height |-> U64(h), fixHeight |-> U64(f), genesisTimestamp |-> UNum(t)]
HfAsic(h, s, t) == [height |-> U64(h), oakTime |-> Seconds(s), oakTarget |-> t]
HfFnd(h, p, f) == [height |-> U64(h), primaryAddress |-> p, failsafeAddress |-> f]
HfV2(a, r) == [allowHeight |-> U64(a), requireHeight |-> U64(r)]
FoundationKey == "053b2def3cbdd078c19d62ce2b4f0b1a3c5e0ffbeeff01280efb1f8969b2f5bb"
Mainnet == NetOf("mainnet", 30000, TargetOf("0000000020"),
  HfDev(10000, "7d0c44f7664e2d34e53efde0661a6f628ec9264785ae8e3cd7c973e8d190c3c9",
             "f371c70bce9eb8979cd5099f599ec4e4fcb14e0afcf31f9791e03e6496a4c0b3"),
  21000, 100000, HfOak(135000, 139000, "1433600000"), HfAsic(179000, 120000, TargetOf("000000000000000020")),
  HfFnd(298000, FoundationKey, "27c22a6c6e6645802a3b8fa0e5374657438ef12716d2205d3e866272de1b644d"), HfV2(1000000, 1025000))
Zen == NetOf("zen", 300000, TargetOf("00000001"), HfDev(1, Z32, Z32), 2, 5, HfOak(10, 12, "1673600000"),
  HfAsic(20, 10000, TargetOf("00000001")), HfFnd(30, FoundationKey, Z32), HfV2(100000, 102000))
Anagami == NetOf("anagami", 300000, TargetOf("00000001"), HfDev(1, Z32, Z32), 2, 5, HfOak(10, 12, "1724284800"),
  HfAsic(20, 10000, TargetOf("00000001")),
  HfFnd(30, "241352c83da002e61f57e96b14f3a5f8b5de22156ce83b753ea495e64f1affeb", Z32), HfV2(2016, 2304))
NetworkOf(name) == CASE name = "mainnet" -> Mainnet [] name = "zen" -> Zen [] name = "anagami" -> Anagami
=============================================================================
