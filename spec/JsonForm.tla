------------------------------ MODULE JsonForm ------------------------------
(***************************************************************************)
(* The JSON API forms of every type.  A document is                        *)
(*   [k |-> "s", v |-> UTF-8 bytes]  [k |-> "n", v |-> number text]        *)
(*   [k |-> "b", v |-> BOOLEAN]  [k |-> "z"] (null)                        *)
(*   [k |-> "a", e |-> sequence]  [k |-> "o", m |-> sequence of <<key,doc>>]*)
(* ToDoc yields Ok(document) or Err; FromDoc yields Ok(value), Err or Open. *)
(***************************************************************************)
EXTENDS Money

JS(t) == [k |-> "s", v |-> t]
JN(t) == [k |-> "n", v |-> t]
JB(b) == [k |-> "b", v |-> b]
JZ    == [k |-> "z"]
JA(e) == [k |-> "a", e |-> e]
JO(m) == [k |-> "o", m |-> m]

\* equality of documents; the order of an object's members does not matter
RECURSIVE DocEq(_, _)
DocEq(x, y) ==
  /\ x.k = y.k
  /\ CASE x.k = "z" -> TRUE
       [] x.k \in {"s", "n", "b"} -> x.v = y.v
       [] x.k = "a" -> Len(x.e) = Len(y.e) /\ \A i \in 1..Len(x.e) : DocEq(x.e[i], y.e[i])
       [] x.k = "o" -> /\ Len(x.m) = Len(y.m)
                       /\ \A i \in 1..Len(x.m) :
                            \E j \in 1..Len(y.m) : x.m[i][1] = y.m[j][1] /\ DocEq(x.m[i][2], y.m[j][2])

\* combine: Err if any part is Err, then Open, then Maybe, then Ok of the parts
AllOk(s) == FoldLeft(LAMBDA st, x : IF st.r = "err" \/ x.r = "err" THEN Err
                                    ELSE IF st.r = "any" \/ x.r = "any" THEN Open
                                    ELSE [r |-> IF st.r = "maybe" THEN "maybe" ELSE x.r, v |-> Append(st.v, x.v)], Ok(<<>>), s)
With(r, Op(_)) == IF r.r \in {"ok", "maybe"} THEN [r |-> r.r, v |-> Op(r.v)] ELSE r

(* ------------------------------------------------------------------ base64 *)
B64Chars == "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
B64Out == [n \in 0..63 |-> AsciiOf[SubSeq(B64Chars, n + 1, n + 1)]]
B64In  == [b \in {B64Out[n] : n \in 0..63} |-> CHOOSE n \in 0..63 : B64Out[n] = b]
B64Group(g) ==   \* one to three bytes
  LET v(i) == IF i < BLen(g) THEN ByteVal[BAt(g, i)] ELSE 0
      w == v(0) * 65536 + v(1) * 256 + v(2)
      c(i) == IF i > BLen(g) THEN "3d" ELSE B64Out[(w \div (64 ^ (3 - i))) % 64]
  IN c(0) \o c(1) \o c(2) \o c(3)
B64(b) == Cat([i \in 1..((BLen(b) + 2) \div 3) |-> B64Group(SubSeq(b, 6 * i - 5, IF 6 * i > Len(b) THEN Len(b) ELSE 6 * i))])
UnGroup(q) ==
  LET pad == IF BAt(q, 3) # "3d" THEN 0 ELSE IF BAt(q, 2) # "3d" THEN 1 ELSE 2
      w == FoldLeft(LAMBDA a, i : a * 64 + (IF i > 3 - pad THEN 0 ELSE B64In[BAt(q, i)]), 0, <<0, 1, 2, 3>>)
  IN BTake(ByteStr[w \div 65536] \o ByteStr[(w \div 256) % 256] \o ByteStr[w % 256], 3 - pad)
\* only the canonical text of a byte string is accepted
UnB64(t) ==
  LET n == BLen(t) \div 4
      body(i, k) == BAt(t, 4 * i - 4 + k)
      okc == /\ BLen(t) % 4 = 0
             /\ \A i \in 0..BLen(t)-1 : \/ BAt(t, i) \in DOMAIN B64In
                                        \/ BAt(t, i) = "3d" /\ (i = BLen(t) - 1 \/ (i = BLen(t) - 2 /\ BAt(t, i + 1) = "3d"))
      v == Cat([i \in 1..n |-> UnGroup(BSub(t, 4 * i - 4, 4))])
  IN IF ~ okc THEN Err ELSE IF B64(v) = t THEN Ok(v) ELSE Err

(* ----------------------------------------------------------------- RFC 3339 *)
Epoch0 == NOfDec(AsciiHex("62167219200"))        \* seconds from 0000-01-01 to 1970-01-01
Year9999End == NOfDec(AsciiHex("253402300799"))
Dig(n, w) == AsciiHex(FoldLeft(LAMBDA a, i : a \o Digit((n \div (10 ^ (w - i))) % 10), "", [i \in 1..w |-> i]))
TimeText(h) ==
  IF (Neg(h) /\ NLt(Epoch0, NegMag(h))) \/ (~ Neg(h) /\ NLt(Year9999End, NOf(h))) THEN Err
  ELSE LET since0 == IF Neg(h) THEN NSub(Epoch0, NegMag(h)) ELSE NAdd(NOf(h), Epoch0)
           q == NDivSmall(since0, 86400)
           sod == q[2]
           z == NToInt(q[1]) - 60
           era == z \div 146097
           doe == z - era * 146097
           yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
           doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
           mp == (5 * doy + 2) \div 153
           d == doy - ((153 * mp + 2) \div 5) + 1
           m == IF mp < 10 THEN mp + 3 ELSE mp - 9
           y == yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0)
       IN Ok(Dig(y, 4) \o "2d" \o Dig(m, 2) \o "2d" \o Dig(d, 2) \o "54" \o Dig(sod \div 3600, 2) \o Colon \o
             Dig((sod \div 60) % 60, 2) \o Colon \o Dig(sod % 60, 2) \o "5a")
NumAt(t, i, w) == FoldLeft(LAMBDA a, j : 10 * a + ByteVal[BAt(t, i + j)] - 48, 0, [j \in 1..w |-> j - 1])
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
I64Diff(a, b) == IF NLe(b, a) THEN NHex(NSub(a, b), 8) ELSE NHex(NSub(NShl(<<1>>, 8), NSub(b, a)), 8)
ParseTime(t) ==
  LET shape == /\ BLen(t) = 20
               /\ \A i \in 0..19 : CASE i \in {4, 7} -> BAt(t, i) = "2d"
                                     [] i = 10 -> BAt(t, i) = "54"
                                     [] i \in {13, 16} -> BAt(t, i) = Colon
                                     [] i = 19 -> BAt(t, i) = "5a"
                                     [] OTHER -> ByteVal[BAt(t, i)] \in 48..57
  IN IF BLen(t) < 20 THEN Err
     ELSE IF ~ shape THEN (IF \E i \in 0..3 : ByteVal[BAt(t, i)] \notin 48..57 THEN Err ELSE Open)
     ELSE LET y == NumAt(t, 0, 4)  m == NumAt(t, 5, 2)  d == NumAt(t, 8, 2)
              hh == NumAt(t, 11, 2)  mm == NumAt(t, 14, 2)  ss == NumAt(t, 17, 2)
          IN IF m \notin 1..12 THEN Err
             ELSE IF d \notin 1..DaysIn(y, m) \/ hh > 23 \/ mm > 59 \/ ss > 60 THEN Err
             ELSE IF ss = 60 THEN Open
             ELSE LET ym == y - (IF m <= 2 THEN 1 ELSE 0)
                      era == ym \div 400
                      yoe == ym - era * 400
                      doy == ((153 * (m + (IF m > 2 THEN -3 ELSE 9)) + 2) \div 5) + d - 1
                      days == era * 146097 + yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy + 60
                  IN Ok(I64Diff(NAdd(NMul(NInt(days), NInt(86400)), NInt(hh * 3600 + mm * 60 + ss)), Epoch0))

(* ------------------------------------------------------------------- amounts as JSON numbers and strings *)
\* an unsigned JSON number of at most w bytes; "-0" is left open
NumOf(d, w) == IF d.k # "n" THEN Err
               ELSE LET t == AsciiHex(d.v)
                    IN IF d.v = "-0" THEN Open
                       ELSE IF ~ IsDigits(t) \/ Len(d.v) > 40 THEN Err
                       ELSE IF NFits(NOfDec(t), w) THEN Ok(NHex(NOfDec(t), w)) ELSE Err

(* ------------------------------------------------------------------ values to documents *)
RECURSIVE ToDoc(_, _), FromDoc(_, _)
NumDoc(h) == JN(NDec(NOf(h)))

FieldEmpty(t, v) == IF t.k = "bytes" THEN v = "" ELSE v = <<>>
StructDoc(fs, x) ==
  LET keep == SelectSeq(fs, LAMBDA f : f[3] = "req" \/ ~ FieldEmpty(f[2], x[f[1]]))
      r == AllOk([i \in 1..Len(keep) |-> With(ToDoc(keep[i][2], x[keep[i][1]]), LAMBDA d : <<AsciiHex(keep[i][1]), d>>)])
  IN With(r, JO)
Tagged(ty, d) == JO(<<<<AsciiHex("type"), JS(AsciiHex(ty))>>, <<AsciiHex("policy"), d>>>>)

ToDoc(t, x) ==
  CASE t.k = "ref" -> ToDoc(T(t.n), x)
    [] t.k \in {"hash", "sig", "leaf"} -> Ok(JS(AsciiHex(x)))
    [] t.k = "addr" -> Ok(JS(ShowAddr(x)))
    [] t.k = "pk" -> Ok(JS(ShowPk(x)))
    [] t.k = "struct" -> StructDoc(t.f, x)
    [] t.k = "vec" -> With(AllOk([i \in 1..Len(x) |-> ToDoc(t.e, x[i])]), JA)
    [] t.k \in {"u8", "u64", "usize", "dur"} -> Ok(NumDoc(x))
    [] t.k = "bool" -> Ok(JB(x))
    [] t.k \in {"cur", "work"} -> Ok(JS(DecText(x)))
    [] t.k = "bytes" -> Ok(JS(B64(x)))
    [] t.k = "str" -> Ok(JS(x))
    [] t.k = "time" -> With(TimeText(x), JS)
    [] t.k = "opt" -> IF x = <<>> THEN Ok(JZ) ELSE ToDoc(t.e, x[1])
    [] t.k = "ukey" -> With(ShowUkey(x), JS)
    [] t.k = "sfo" -> StructDoc(SfoFields, x)
    [] t.k = "txn2" -> StructDoc(Txn2Fields, x)
    [] t.k = "accum" -> StructDoc(AccumFields, x)
    [] t.k = "state" -> StructDoc(StateFields, x)
    [] t.k = "policy" ->
         LET r == CASE x.k \in {"above", "after"} -> Ok(NumDoc(x.v))
                    [] x.k = "pk" -> ToDoc(tPk, x.v)
                    [] x.k = "h" -> ToDoc(tHash, x.v)
                    [] x.k = "opaque" -> ToDoc(tAddr, x.v)
                    [] x.k = "uc" -> ToDoc(T("UnlockConditions"), x.v)
                    [] x.k = "thresh" -> StructDoc(<<F("n", tU8), F("of", Vec(Ref("SpendPolicy")))>>, x)
         IN With(r, LAMBDA d : Tagged(x.k, d))
    [] t.k = "resolution" ->
         LET p == ToDoc(T("v2_FileContractElement"), x.parent)
             r == CASE x.type = "renewal" -> ToDoc(T("v2_FileContractRenewal"), x.resolution)
                    [] x.type = "storageProof" -> ToDoc(T("v2_StorageProof"), x.resolution)
                    [] x.type = "expiration" -> Ok(JO(<<>>))
         IN With(AllOk(<<p, r>>), LAMBDA d : JO(<<<<AsciiHex("parent"), d[1]>>,
                  <<AsciiHex("type"), JS(AsciiHex(x.type))>>, <<AsciiHex("resolution"), d[2]>>>>))

(* ------------------------------------------------------------------ documents to values *)
Idx(m, key) == {i \in 1..Len(m) : m[i][1] = key}
Dup(m) == \E i, j \in 1..Len(m) : i < j /\ m[i][1] = m[j][1]
KnownKeys(fs) == {AsciiHex(fs[i][1]) : i \in 1..Len(fs)}
EmptyOf(t) == IF t.k = "bytes" THEN "" ELSE <<>>
\* an object with the given fields.  Duplicate members are left open, unless a known part is an error; unknown members
\* change nothing, but may be refused
StructFrom(fs, d) ==
  IF d.k = "a" THEN Open ELSE IF d.k # "o" THEN Err
  ELSE LET part(f) == LET I == Idx(d.m, AsciiHex(f[1]))
                      IN IF I = {} THEN (IF f[3] = "omit" THEN Ok(EmptyOf(f[2])) ELSE Err)
                         ELSE FromDoc(f[2], d.m[CHOOSE i \in I : TRUE][2])
           all == IF Dup(d.m) THEN Open ELSE AllOk([i \in 1..Len(fs) |-> part(fs[i])])
       IN IF all.r \notin {"ok", "maybe"} THEN all
          ELSE [r |-> IF \E i \in 1..Len(d.m) : d.m[i][1] \notin KnownKeys(fs) THEN "maybe" ELSE all.r,
                v |-> Now([n \in {fs[i][1] : i \in 1..Len(fs)} |-> all.v[CHOOSE i \in 1..Len(fs) : fs[i][1] = n]])]
\* an object with exactly the given members, anything else is an error (duplicates are left open)
Exactly(names, d) == d.k = "o" /\ {d.m[i][1] : i \in 1..Len(d.m)} = {AsciiHex(names[i]) : i \in 1..Len(names)}
Member(d, name) == d.m[CHOOSE i \in Idx(d.m, AsciiHex(name)) : TRUE][2]

FromStr(d, Parse(_)) == IF d.k = "s" THEN Parse(d.v) ELSE Err
ParseWork(t) == IF t = "" THEN Maybe(Zeros(32)) ELSE IF ~ IsDigits(t) \/ BLen(t) > 200 THEN Err
                ELSE IF NFits(NOfDec(t), 32) THEN Ok(NHex(NOfDec(t), 32)) ELSE Err
Fixed64(t) == ParseFixed(t, 64)

FromDoc(t, d) ==
  CASE t.k = "ref" -> FromDoc(T(t.n), d)
    [] t.k = "hash" -> FromStr(d, ParseHash)
    [] t.k \in {"sig", "leaf"} -> FromStr(d, Fixed64)
    [] t.k = "addr" -> FromStr(d, ParseAddr)
    [] t.k = "pk" -> FromStr(d, ParsePk)
    [] t.k = "struct" -> StructFrom(t.f, d)
    [] t.k = "vec" -> IF d.k = "a" THEN AllOk([i \in 1..Len(d.e) |-> FromDoc(t.e, d.e[i])]) ELSE Err
    [] t.k = "u8" -> NumOf(d, 1)
    [] t.k \in {"u64", "usize"} -> NumOf(d, 8)
    [] t.k = "dur" -> LET r == NumOf(d, 8) IN IF r.r = "ok" /\ ~ DurOk(r.v) THEN Err ELSE r
    [] t.k = "bool" -> IF d.k = "b" THEN Ok(d.v) ELSE Err
    [] t.k = "cur" -> IF d.k = "s" THEN ParseAmount(d.v)
                      ELSE LET r == NumOf(d, 8) IN With(r, LAMBDA v : Zeros(8) \o v)
    [] t.k = "work" -> FromStr(d, ParseWork)
    [] t.k = "bytes" -> FromStr(d, UnB64)
    [] t.k = "str" -> FromStr(d, Ok)
    [] t.k = "time" -> FromStr(d, ParseTime)
    [] t.k = "opt" -> IF d.k = "z" THEN Ok(<<>>) ELSE With(FromDoc(t.e, d), LAMBDA v : <<v>>)
    [] t.k = "ukey" -> FromStr(d, ParseUkey)
    [] t.k = "sfo" -> StructFrom(SfoFields, d)
    [] t.k = "txn2" -> StructFrom(Txn2Fields, d)
    [] t.k = "accum" -> LET r == StructFrom(AccumFields, d)
                        IN IF r.r \in {"ok", "maybe"} /\ Len(r.v.trees) # Len(SetBits(r.v.numLeaves)) THEN Err ELSE r
    [] t.k = "state" -> LET r == StructFrom(StateFields, d)
                        IN IF r.r \notin {"ok", "maybe"} THEN r ELSE IF Len(r.v.prevTimestamps) > 11 THEN Err
                           ELSE IF Len(r.v.prevTimestamps) < 11 THEN Open ELSE r
    [] t.k = "policy" ->
         IF ~ Exactly(<<"type", "policy">>, d) THEN Err
         ELSE IF Dup(d.m) THEN Open
         ELSE LET ty == Member(d, "type")  p == Member(d, "policy")
                  P(k, r) == With(r, LAMBDA v : [k |-> k, v |-> v])
              IN IF ty.k # "s" THEN Err
                 ELSE CASE ty.v = AsciiHex("above") -> P("above", FromDoc(tU64, p))
                        [] ty.v = AsciiHex("after") -> LET r == FromDoc(tU64, p)
                                                      IN IF r.r = "ok" /\ ~ TimeOk(r.v) THEN Err ELSE P("after", r)
                        [] ty.v = AsciiHex("pk") -> P("pk", FromDoc(tPk, p))
                        [] ty.v = AsciiHex("h") -> P("h", FromDoc(tHash, p))
                        [] ty.v = AsciiHex("opaque") -> P("opaque", FromDoc(tAddr, p))
                        [] ty.v = AsciiHex("uc") -> P("uc", FromDoc(T("UnlockConditions"), p))
                        [] ty.v = AsciiHex("thresh") ->
                             With(StructFrom(<<F("n", tU8), F("of", Vec(Ref("SpendPolicy")))>>, p),
                                  LAMBDA v : [k |-> "thresh", n |-> v.n, of |-> v.of])
                        [] OTHER -> Err
    [] t.k = "resolution" ->
         IF ~ Exactly(<<"parent", "type", "resolution">>, d) THEN Err
         ELSE IF Dup(d.m) THEN Open
         ELSE LET pa == FromDoc(T("v2_FileContractElement"), Member(d, "parent"))
                  ty == Member(d, "type")
                  re == Member(d, "resolution")
                  R(n, r) == With(AllOk(<<pa, r>>), LAMBDA v : [parent |-> v[1], type |-> n, resolution |-> v[2]])
              IN IF ty.k # "s" THEN Err
                 ELSE CASE ty.v = AsciiHex("renewal") -> R("renewal", FromDoc(T("v2_FileContractRenewal"), re))
                        [] ty.v = AsciiHex("storageProof") -> R("storageProof", FromDoc(T("v2_StorageProof"), re))
                        [] ty.v = AsciiHex("expiration") -> R("expiration", Ok(<<>>))
                        [] OTHER -> Err

JsonTypes == {"Hash256", "SiacoinOutputID", "AttestationID", "SiafundOutputID", "BlockID", "TransactionID",
   "FileContractID", "Address", "PublicKey", "Signature", "Leaf", "Currency", "Work", "ChainIndex", "SiacoinOutput",
   "SiafundOutput", "StateElement", "UnlockKey", "UnlockConditions", "Block", "v1_SiacoinInput", "v1_SiafundInput",
   "v1_FileContract", "v1_FileContractRevision", "v1_StorageProof", "v1_CoveredFields", "v1_TransactionSignature",
   "v1_Transaction", "SpendPolicy", "SatisfiedPolicy", "v2_Attestation", "v2_FileContract", "v2_SiacoinElement",
   "v2_SiafundElement", "v2_FileContractElement", "v2_ChainIndexElement", "v2_SiacoinInput", "v2_SiafundInput",
   "v2_FileContractRevision", "v2_FileContractRenewal", "v2_StorageProof", "v2_FileContractResolution",
   "v2_Transaction", "ElementAccumulator", "State", "HardforkDevAddr", "HardforkTax", "HardforkStorageProof",
   "HardforkOak", "HardforkASIC", "HardforkFoundation", "HardforkV2", "Network", "ChainState"}
ToDocT(name, x) == ToDoc(T(name), x)
FromDocT(name, d) == FromDoc(T(name), d)
=============================================================================
