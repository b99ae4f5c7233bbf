-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The binary protocol forms, version 1 and version 2, of every type.      *)
(*   Enc(ver, t, x)  the bytes of value x of descriptor t                  *)
(*   Dec(ver, t, b, p)  decodes b from offset p:                           *)
(*        [ok |-> TRUE, v |-> value, p |-> offset after it] or [ok|->FALSE]*)
(***************************************************************************)
EXTENDS Types

RECURSIVE StripZeros(_)
StripZeros(h) == IF h # "" /\ BAt(h, 0) = "00" THEN StripZeros(BFrom(h, 1)) ELSE h

LenBytes(b) == U64LE(BLen(b)) \o b

PolicyTag == [above |-> "01", after |-> "02", pk |-> "03", h |-> "04", thresh |-> "05", opaque |-> "06", uc |-> "07"]
PolicyOfTag == [t \in {"01", "02", "03", "04", "06", "05", "07"} |->
                 CHOOSE k \in DOMAIN PolicyTag : PolicyTag[k] = t]
ResTag == [renewal |-> "00", storageProof |-> "01", expiration |-> "02"]
MaxPolicies == 1024

\* field masks of v2 transactions
Txn2Present(f, x) == IF f[1] = "minerFee" THEN x["minerFee"] # Zeros(16)
                     ELSE IF f[1] = "arbitraryData" THEN x["arbitraryData"] # ""
                     ELSE x[f[1]] # <<>>
RECURSIVE MaskOf(_, _)
MaskOf(x, i) == IF i > 11 THEN 0 ELSE (IF Txn2Present(Txn2Fields[i], x) THEN 2 ^ (i - 1) ELSE 0) + MaskOf(x, i + 1)

RECURSIVE Enc(_, _, _), EncPolicy(_)

EncFields(ver, fs, x) == Cat([i \in 1..Len(fs) |-> Enc(ver, fs[i][2], x[fs[i][1]])])
EncList(ver, t, s) == U64LE(Len(s)) \o Cat([i \in 1..Len(s) |-> Enc(ver, t, s[i])])

\* a policy without its version byte
EncPolicy(x) ==
  PolicyTag[x.k] \o
  (CASE x.k \in {"above", "after"} -> LEOf(x.v)
     [] x.k \in {"pk", "h", "opaque"} -> x.v
     [] x.k = "thresh" -> x.n \o U8(Len(x.of)) \o Cat([i \in 1..Len(x.of) |-> EncPolicy(x.of[i])])
     [] x.k = "uc" -> Enc(2, T("UnlockConditions"), x.v))

Enc(ver, t, x) ==
  CASE t.k = "ref" -> Enc(ver, T(t.n), x)
    [] t.k \in {"hash", "addr", "pk", "sig", "leaf", "fix", "work", "u8", "spec"} -> x
    [] t.k = "struct" -> EncFields(ver, t.f, x)
    [] t.k = "vec" -> EncList(ver, t.e, x)
    [] t.k \in {"u64", "usize", "i64", "time", "dur"} -> LEOf(x)
    [] t.k \in {"u16", "u32"} -> LEOf(Zeros(8 - Width(t.k)) \o x)
    [] t.k \in {"i16", "i32"} -> LEOf(SignExt(x, 8))
    [] t.k = "bool" -> IF x THEN "01" ELSE "00"
    [] t.k = "cur" -> IF ver = 2 THEN LEOf(x) ELSE LenBytes(StripZeros(x))
    [] t.k \in {"bytes", "str"} -> LenBytes(x)
    [] t.k = "opt" -> IF x = <<>> THEN "00" ELSE "01" \o Enc(ver, t.e, x[1])
    [] t.k = "ukey" -> x.algorithm \o LenBytes(x.key)
    [] t.k = "sfo" -> IF ver = 2 THEN LEOf(x.value) \o x.address
                      ELSE Enc(1, tCur, Zeros(8) \o x.value) \o x.address \o Enc(1, tCur, Zeros(16))
    [] t.k = "policy" -> "01" \o EncPolicy(x)
    [] t.k = "resolution" ->
         Enc(2, T("v2_FileContractElement"), x.parent) \o ResTag[x.type] \o
         (CASE x.type = "renewal" -> Enc(2, T("v2_FileContractRenewal"), x.resolution)
            [] x.type = "storageProof" -> Enc(2, T("v2_StorageProof"), x.resolution)
            [] x.type = "expiration" -> "")
    [] t.k = "txn2" ->
         "02" \o LEOf(U64(MaskOf(x, 1))) \o
         Cat([i \in 1..11 |-> LET f == Txn2Fields[i]
                              IN IF ~ Txn2Present(f, x) THEN ""
                                 ELSE IF f[1] = "newFoundationAddress" THEN x.newFoundationAddress[1]
                                 ELSE Enc(2, f[2], x[f[1]])])
    [] t.k = "accum" -> LEOf(x.numLeaves) \o Cat(x.trees)
    [] t.k = "state" ->
         Cat([i \in 1..Len(StateFields) |->
               LET f == StateFields[i]
               IN IF f[1] = "prevTimestamps"
                  THEN Cat([j \in 1..TimestampCount(x.index.height) |-> LEOf(x.prevTimestamps[j])])
                  ELSE Enc(2, f[2], x[f[1]])])

(***************************************************************************)
(* Decoding                                                                *)
(***************************************************************************)
Bad == [ok |-> FALSE]
Good(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
Has(b, p, n) == p + n <= BLen(b)
Take(b, p, n) == IF Has(b, p, n) THEN Good(BSub(b, p, n), p + n) ELSE Bad
Map(r, Op(_)) == IF r.ok THEN Good(Op(r.v), r.p) ELSE r
Filter(r, Op(_)) == IF r.ok /\ ~ Op(r.v) THEN Bad ELSE r

RECURSIVE Dec(_, _, _, _), DecPolicy(_, _, _)

\* a length prefix: a u64 that the remaining input could satisfy at one byte per element at least
DecLen(b, p) == LET r == Map(Take(b, p, 8), Rev)
                IN IF r.ok /\ IsSmall(r.v) /\ BEInt(r.v) <= BLen(b) - r.p THEN Good(BEInt(r.v), r.p) ELSE Bad

DecMany(ver, t, b, p, n) ==
  FoldLeft(LAMBDA st, i : IF ~ st.ok THEN st
                          ELSE LET r == Dec(ver, t, b, st.p)
                               IN IF r.ok THEN Good(Append(st.v, r.v), r.p) ELSE Bad,
           Good(<<>>, p), [i \in 1..n |-> i])
DecBytes(b, p) == LET n == DecLen(b, p) IN IF n.ok THEN Take(b, n.p, n.v) ELSE Bad
\* fields in order, as a record
DecFields(ver, fs, b, p) ==
  LET r == FoldLeft(LAMBDA st, f : IF ~ st.ok THEN st
                                   ELSE LET d == Dec(ver, f[2], b, st.p)
                                        IN IF d.ok THEN Good(Append(st.v, d.v), d.p) ELSE Bad,
                    Good(<<>>, p), fs)
  IN IF ~ r.ok THEN Bad
     ELSE Good(Now([n \in {fs[i][1] : i \in 1..Len(fs)} |-> r.v[CHOOSE i \in 1..Len(fs) : fs[i][1] = n]]), r.p)

\* a policy at p with `left' further sub-policies allowed; its result carries the number still allowed
DecPolicy(b, p, left) ==
  LET tag == Take(b, p, 1)
      Leaf(k, r) == IF r.ok THEN [ok |-> TRUE, v |-> [k |-> k, v |-> r.v], p |-> r.p, left |-> left] ELSE Bad
  IN IF ~ tag.ok \/ tag.v \notin DOMAIN PolicyOfTag THEN Bad
     ELSE LET k == PolicyOfTag[tag.v] q == tag.p IN
       CASE k = "above" -> Leaf(k, Dec(2, tU64, b, q))
         [] k = "after" -> Leaf(k, Dec(2, tTime, b, q))
         [] k \in {"pk", "h", "opaque"} -> Leaf(k, Take(b, q, 32))
         [] k = "uc" -> Leaf(k, Dec(2, T("UnlockConditions"), b, q))
         [] k = "thresh" ->
              IF ~ Has(b, q, 2) THEN Bad
              ELSE LET n == ByteVal[BAt(b, q + 1)]
                       r == FoldLeft(LAMBDA st, i : IF ~ st.ok THEN st
                                       ELSE LET s == DecPolicy(b, st.p, st.left)
                                            IN IF s.ok THEN [ok |-> TRUE, v |-> Append(st.v, s.v), p |-> s.p, left |-> s.left]
                                               ELSE Bad,
                                     [ok |-> TRUE, v |-> <<>>, p |-> q + 2, left |-> left - n], [i \in 1..n |-> i])
                   IN IF n > left \/ ~ r.ok THEN Bad
                      ELSE [ok |-> TRUE, v |-> [k |-> k, n |-> BAt(b, q), of |-> r.v], p |-> r.p, left |-> r.left]

Dec(ver, t, b, p) ==
  CASE t.k = "ref" -> Dec(ver, T(t.n), b, p)
    [] t.k \in {"hash", "addr", "pk", "sig", "leaf", "work", "u8", "spec"} -> Take(b, p, Width(t.k))
    [] t.k = "fix" -> Take(b, p, t.n)
    [] t.k = "struct" -> DecFields(ver, t.f, b, p)
    [] t.k = "vec" -> LET n == DecLen(b, p) IN IF n.ok THEN DecMany(ver, t.e, b, n.p, n.v) ELSE Bad
    [] t.k \in {"u64", "usize", "i64"} -> Map(Take(b, p, 8), Rev)
    [] t.k = "time" -> Filter(Map(Take(b, p, 8), Rev), TimeOk)
    [] t.k = "dur" -> Filter(Map(Take(b, p, 8), Rev), DurOk)
    [] t.k \in {"u16", "u32"} ->
         LET w == Width(t.k) r == Map(Take(b, p, 8), Rev)
         IN IF r.ok /\ BTake(r.v, 8 - w) = Zeros(8 - w) THEN Good(BFrom(r.v, 8 - w), r.p) ELSE Bad
    [] t.k \in {"i16", "i32"} ->
         LET w == Width(t.k) r == Map(Take(b, p, 8), Rev)
         IN IF r.ok /\ SignExt(BFrom(r.v, 8 - w), 8) = r.v THEN Good(BFrom(r.v, 8 - w), r.p) ELSE Bad
    [] t.k = "bool" -> LET r == Take(b, p, 1)
                       IN IF r.ok /\ r.v \in {"00", "01"} THEN Good(r.v = "01", r.p) ELSE Bad
    [] t.k = "cur" -> IF ver = 2 THEN Map(Take(b, p, 16), Rev)
                      ELSE LET r == DecBytes(b, p)
                           IN IF r.ok /\ BLen(r.v) <= 16 THEN Good(Zeros(16 - BLen(r.v)) \o r.v, r.p) ELSE Bad
    [] t.k = "bytes" -> DecBytes(b, p)
    [] t.k = "str" -> Filter(DecBytes(b, p), IsUtf8)
    [] t.k = "opt" -> LET r == Dec(ver, tBool, b, p)
                      IN IF ~ r.ok THEN Bad ELSE IF ~ r.v THEN Good(<<>>, r.p)
                         ELSE LET e == Dec(ver, t.e, b, r.p) IN IF e.ok THEN Good(<<e.v>>, e.p) ELSE Bad
    [] t.k = "ukey" -> DecFields(ver, UKeyFields, b, p)
    [] t.k = "sfo" ->
         IF ver = 2 THEN DecFields(2, SfoFields, b, p)
         ELSE LET r == DecFields(1, <<F("value", tCur), F("address", tAddr), F("claim", tCur)>>, b, p)
              IN IF r.ok /\ BTake(r.v.value, 8) = Zeros(8)
                 THEN Good([value |-> BFrom(r.v.value, 8), address |-> r.v.address], r.p) ELSE Bad
    [] t.k = "policy" -> LET ver1 == Take(b, p, 1)
                         IN IF ~ ver1.ok \/ ver1.v # "01" THEN Bad
                            ELSE LET r == DecPolicy(b, ver1.p, MaxPolicies - 1)
                                 IN IF r.ok THEN Good(r.v, r.p) ELSE Bad
    [] t.k = "resolution" ->
         LET pa == Dec(2, T("v2_FileContractElement"), b, p)
             tag == IF pa.ok THEN Take(b, pa.p, 1) ELSE Bad
             R(ty, r) == IF r.ok THEN Good([parent |-> pa.v, type |-> ty, resolution |-> r.v], r.p) ELSE Bad
         IN CASE ~ tag.ok -> Bad
              [] tag.ok /\ tag.v = "00" -> R("renewal", Dec(2, T("v2_FileContractRenewal"), b, tag.p))
              [] tag.ok /\ tag.v = "01" -> R("storageProof", Dec(2, T("v2_StorageProof"), b, tag.p))
              [] tag.ok /\ tag.v = "02" -> R("expiration", Good(<<>>, tag.p))
              [] OTHER -> Bad
    [] t.k = "txn2" ->
         LET hd == Take(b, p, 9)
         IN IF ~ hd.ok \/ BAt(hd.v, 0) # "02" THEN Bad
            ELSE LET lo == ByteVal[BAt(hd.v, 1)] + 256 * ByteVal[BAt(hd.v, 2)]
                     r == FoldLeft(LAMBDA st, i :
                            LET f == Txn2Fields[i]
                                nf == f[1] = "newFoundationAddress"
                            IN IF ~ st.ok THEN st
                               ELSE IF ~ Bit(lo, i - 1)
                               THEN Good(Append(st.v, CASE f[1] = "minerFee" -> Zeros(16) [] f[1] = "arbitraryData" -> ""
                                                        [] OTHER -> <<>>), st.p)
                               ELSE LET d == Dec(2, IF nf THEN tAddr ELSE f[2], b, st.p)
                                    IN IF d.ok THEN Good(Append(st.v, IF nf THEN <<d.v>> ELSE d.v), d.p) ELSE Bad,
                            Good(<<>>, hd.p), [i \in 1..11 |-> i])
                 IN IF ~ r.ok THEN Bad
                    ELSE Good(Now([n \in {Txn2Fields[i][1] : i \in 1..11} |->
                                r.v[CHOOSE i \in 1..11 : Txn2Fields[i][1] = n]]), r.p)
    [] t.k = "accum" ->
         LET n == Map(Take(b, p, 8), Rev)
         IN IF ~ n.ok THEN Bad
            ELSE LET r == DecMany(2, tHash, b, n.p, Len(SetBits(n.v)))
                 IN IF r.ok THEN Good([numLeaves |-> n.v, trees |-> r.v], r.p) ELSE Bad
    [] t.k = "state" ->
         LET ix == Dec(2, T("ChainIndex"), b, p)
         IN IF ~ ix.ok THEN Bad
            ELSE LET cnt == TimestampCount(ix.v.height)
                     ts == DecMany(2, tTime, b, ix.p, cnt)
                     rest == IF ts.ok THEN DecFields(2, SubSeq(StateFields, 3, Len(StateFields)), b, ts.p) ELSE Bad
                 IN IF ~ rest.ok THEN Bad
                    ELSE Good(Now([n \in {StateFields[i][1] : i \in 1..Len(StateFields)} |->
                          CASE n = "index" -> ix.v
                            [] n = "prevTimestamps" -> [i \in 1..11 |-> IF i <= cnt THEN ts.v[i] ELSE Zeros(8)]
                            [] OTHER -> rest.v[n]]), rest.p)

EncT(ver, name, x) == Enc(ver, T(name), x)
\* decode from the start of b: [ok, v, used] or [ok |-> FALSE]
DecT(ver, name, b) == LET r == Dec(ver, T(name), b, 0) IN IF r.ok THEN [ok |-> TRUE, v |-> r.v, used |-> r.p] ELSE Bad
=============================================================================
