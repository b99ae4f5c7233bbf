-------------------------------- MODULE Cases --------------------------------
(***************************************************************************)
(* Boundary values of every type, systematically: base values, and edits   *)
(* that change one part of a base to a value at an edge of its kind.       *)
(* They are the finite value space over which the bounded models check the *)
(* specification itself (MC_Forms), and which the conformance runs replay  *)
(* in the implementation.                                                  *)
(*   CasesOf(name)  a sequence of [base, edits]; an edit is <<path, value>> *)
(* The level of an edit is how many named types lie between it and the     *)
(* base: directly contained parts are varied most.                         *)
(***************************************************************************)
EXTENDS Sia


\* n bytes that are different for each place p of a value
Salt(p, n) == BTake(Blake2b(p) \o Blake2b(p \o "00"), n)
Sub(p, name) == p \o AsciiHex(name)
Scalar(t) == t.k \notin {"ref", "struct", "vec", "opt", "policy", "resolution", "txn2", "accum", "state", "ukey", "sfo"}
(* ------------------------------------------------------------------ the value with everything in it *)
RECURSIVE Filled(_, _)
FilledUc(p) == Filled(T("UnlockConditions"), p)
Filled(t, p) ==
  CASE t.k = "ref" -> Filled(T(t.n), p)
    [] IsStruct(t) -> Now([n \in NamesOf(StructFields(t)) |-> Filled(FieldOf(StructFields(t), n)[2], Sub(p, n))])
    [] t.k = "vec" -> IF Scalar(Deref(t.e)) THEN <<Filled(t.e, p \o "01"), Filled(t.e, p \o "02")>> ELSE <<Filled(t.e, p \o "01")>>
    [] t.k = "opt" -> <<Filled(t.e, p)>>
    [] t.k = "bytes" -> Salt(p, 5)
    [] t.k = "str" -> AsciiHex("key")
    [] t.k = "spec" -> Spec16("ed25519")
    [] t.k = "bool" -> TRUE
    [] t.k = "fix" -> Salt(p, t.n)
    [] t.k = "time" -> Zeros(4) \o Salt(p, 4)
    [] t.k = "dur" -> "00" \o Salt(p, 7)
    [] t.k = "policy" -> [k |-> "thresh", n |-> "01", of |-> <<[k |-> "above", v |-> Salt(p \o "01", 8)], [k |-> "pk", v |-> Salt(p \o "02", 32)]>>]
    [] t.k = "resolution" -> [parent |-> Filled(T("v2_FileContractElement"), Sub(p, "parent")), type |-> "storageProof",
                              resolution |-> Filled(T("v2_StorageProof"), Sub(p, "resolution"))]
    [] t.k = "accum" -> [numLeaves |-> U64(5), trees |-> <<Salt(p \o "01", 32), Salt(p \o "02", 32)>>]
    [] t.k = "state" -> Now([n \in NamesOf(StateFields) |->
                          CASE n = "prevTimestamps" -> Now([i \in 1..11 |-> Zeros(4) \o Salt(Sub(p, n) \o ByteStr[i], 4)])
                            [] n = "index" -> [height |-> U64(20), id |-> Salt(Sub(p, "id"), 32)]
                            [] OTHER -> Filled(FieldOf(StateFields, n)[2], Sub(p, n))])
    [] OTHER -> Salt(p, Width(t.k))

(* ------------------------------------------------------------------ numbers at their edges *)
OneByte(w, i, b) == Zeros(w - 1 - i) \o b \o Zeros(i)           \* b at byte i from the low end
FlipByte(x, i) == BTake(x, i) \o ByteStr[(ByteVal[BAt(x, i)] + 128) % 256] \o BFrom(x, i + 1)
IntEdges(w, lvl) ==
  IF lvl = 0 THEN <<Zeros(w), OneByte(w, 0, "01"), OneByte(w, 0, "7f"), OneByte(w, 0, "80"), Rep("ff", w), Rep("ff", w - 1) \o "fe",
                    OneByte(w, w - 1, "80"), OneByte(w, w - 1, "7f"), (IF w = 1 THEN "7f" ELSE "7f" \o Rep("ff", w - 1))>>
                  \o Now([i \in 1..(w - 1) |-> OneByte(w, i, "01")]) \o Now([i \in 1..(w - 1) |-> Zeros(w - i) \o Rep("ff", i)])
  ELSE IF lvl = 1 THEN <<Zeros(w), OneByte(w, 0, "01"), Rep("ff", w), OneByte(w, w \div 2, "01"), OneByte(w, w - 1, "80")>>
  ELSE <<Zeros(w), Rep("ff", w)>>
RawEdges(x, lvl) ==
  LET n == BLen(x) IN
  IF lvl = 0 THEN <<Zeros(n), Rep("ff", n), FlipByte(x, 0), FlipByte(x, n - 1), Zeros(n - 1) \o "01", "01" \o Zeros(n - 1), "00" \o BFrom(x, 1), BTake(x, n - 1) \o "00",
                    Rev(x), FlipByte(x, n \div 2), FlipByte(x, n \div 2 - 1)>>
  ELSE IF lvl = 1 THEN <<Zeros(n), FlipByte(x, 0), FlipByte(x, n - 1)>> ELSE <<Zeros(n)>>
NegI64(dec) == NHex(NSub(NShl(<<1>>, 8), NOfDec(AsciiHex(dec))), 8)
PosI64(dec) == NHex(NOfDec(AsciiHex(dec)), 8)
TimeEdges(lvl) ==
  IF lvl = 0 THEN <<Zeros(8), U64(1), NegI64("1"), NegI64("62167219200"), NegI64("62167219201"), NegI64("377705116800"), PosI64("253402300799"), PosI64("253402300798"),
                    U64(86399), U64(86400), NegI64("86400"), NegI64("86401"), U64(951782399), U64(951782400), U64(951868799), U64(951868800), U64(951868801),
                    PosI64("2147483647"), PosI64("2147483648"), PosI64("4107542399"), PosI64("4107542400"), PosI64("4294967295"), PosI64("4294967296"), NegI64("2147483648"),
                    NegI64("2147483649"), NegI64("2208988800"), NegI64("11644473600"), PosI64("253370764800"), U64(59), U64(60), U64(3599), U64(3600), U64(1709164800), U64(1735603199)>>
  ELSE <<Zeros(8), NegI64("1"), PosI64("4294967296")>>
DurEdges(lvl) == <<Zeros(8), U64(1), U64(999999999), U64(1000000000), PosI64("600000000000"), PosI64("4294967296"), PosI64("9223372036854775807")>>
StrEdges(lvl) == <<"", "00", AsciiHex("a"), "c3a9", "e282ac", "f09f9880", AsciiHex("\"\\/<>&"), "0a0d09081f7f", AsciiHex("host announcement"), "e280a8e280a9efbbbf">>
                 \o (IF lvl = 0 THEN <<Rep("61", 255), Rep("c3a9", 128), Rep("61", 257), Rep("e282ac", 43), Rep("62", 1025)>> ELSE <<>>)
SpecEdges == <<Zeros(16), Spec16("entropy"), Spec16("ed25518"), Spec16("sixteen bytes!!!"), Spec16("a:b"), AsciiHex("fifteen bytes!!") \o "00", Spec16("Ed25519"),
               "c3a9" \o Zeros(14), "00" \o AsciiHex("z") \o Zeros(14), AsciiHex("a") \o "00" \o AsciiHex("b") \o Zeros(13), Rep("ff", 16), Zeros(15) \o "01">>
BytesEdges(p, lvl) ==
  <<"", "00", "ff", Salt(p, 6), Salt(p, 32)>>
  \o (IF lvl = 0 THEN <<"0000", Salt(p, 4), Salt(p, 3), Salt(p, 31), Salt(p, 33), Salt(p, 63), Salt(p, 64), Rep(Salt(p, 5), 13), Rep(Salt(p, 1), 127), Rep(Salt(p, 2), 64), Rep(Salt(p, 1), 255),
                        Rep(Salt(p, 4), 64), Rep(Salt(p, 1), 257), Rep(Salt(p, 8), 65), Rep(Salt(p, 32), 33)>> ELSE <<Rep(Salt(p, 5), 60)>>)

(* ------------------------------------------------------------------ policies *)
Lf(k, v) == [k |-> k, v |-> v]
Th(n, of) == [k |-> "thresh", n |-> ByteStr[n], of |-> of]
Above(n) == Lf("above", U64(n))
UcWith(n, alg) == [timelock |-> U64(n), publicKeys |-> Now([i \in 1..n |-> [algorithm |-> Spec16(alg), key |-> Salt(ByteStr[i], 32)]]), signaturesRequired |-> U64(1)]
RECURSIVE Nest(_, _)
Nest(d, q) == IF d = 0 THEN q ELSE Th(1, <<Nest(d - 1, q)>>)
OneOfEach == <<Lf("above", U64(300)), Lf("after", PosI64("1700000000")), Lf("pk", Salt("01", 32)), Lf("h", Salt("01", 32)), Lf("opaque", Salt("01", 32)), Lf("uc", UcWith(1, "ed25519"))>>
PolicyCases ==
  OneOfEach
  \o (LET e == IntEdges(8, 0) IN Now([i \in 1..Len(e) |-> Lf("above", e[i])]))
  \o (LET e == TimeEdges(0) IN Now([i \in 1..Len(e) |-> Lf("after", e[i])]))
  \o FoldLeft(LAMBDA a, k : a \o Now([i \in 1..4 |-> Lf(k, <<Zeros(32), Rep("ff", 32), Salt("02", 32), "80" \o Zeros(31)>>[i])]), <<>>, <<"pk", "h", "opaque">>)
  \o <<Lf("uc", ZeroUc), Lf("uc", UcWith(2, "ed25519")), Lf("uc", UcWith(3, "entropy")), Lf("uc", UcWith(9, "ed25519")),
       Lf("uc", [UcWith(1, "ed25519") EXCEPT !.publicKeys[1].key = ""]), Lf("uc", [UcWith(1, "ed25519") EXCEPT !.publicKeys[1].key = Salt("01", 33)]),
       Lf("uc", [UcWith(1, "ed25519") EXCEPT !.timelock = Zeros(8)]), Lf("uc", [UcWith(1, "ed25519") EXCEPT !.timelock = Zeros(8), !.signaturesRequired = Rep("ff", 8)])>>
  \o Now([i \in 1..6 |-> Th(1, <<OneOfEach[i]>>)])
  \o Now([i \in 1..6 |-> Th(0, <<OneOfEach[i], OneOfEach[(i % 6) + 1]>>)])
  \o <<Th(0, <<>>), Th(1, <<>>), Th(255, <<>>), Th(0, <<Above(1)>>), Th(2, <<Above(1)>>), Th(127, <<Above(1), Above(2)>>), Th(128, <<Above(1), Above(2)>>), Th(255, <<Above(1), Above(2)>>),
       Th(2, OneOfEach), Th(6, OneOfEach), Th(6, Reverse(OneOfEach)), Th(2, <<Above(1), Above(1)>>), Th(1, <<Above(1), Above(1), Above(1)>>),
       Th(1, <<Th(1, <<Above(1)>>), Above(1)>>), Th(1, <<Above(1), Th(1, <<Above(1)>>)>>), Th(1, <<Th(0, <<>>), Th(0, <<>>)>>), Th(2, <<Th(2, OneOfEach), Th(1, OneOfEach)>>),
       Th(3, Now([i \in 1..16 |-> Above(i)])), Th(3, Now([i \in 1..17 |-> Lf("pk", Salt(ByteStr[i], 32))])), Th(127, Now([i \in 1..127 |-> Above(i)])), Th(128, Now([i \in 1..128 |-> Above(i)])),
       Th(255, Now([i \in 1..255 |-> Above(i)])), Th(1, Now([i \in 1..255 |-> Lf("h", Salt(ByteStr[i], 32))]))>>
  \o Now([d \in 1..12 |-> Nest(d, Above(7))]) \o Now([d \in 1..4 |-> Nest(d, Th(2, OneOfEach))]) \o <<Nest(100, Above(7))>>

(* ------------------------------------------------------------------ edits *)
Under(step, s) == Now([i \in 1..Len(s) |-> <<<<step>> \o s[i][1], s[i][2]>>])
Here(vals) == Now([i \in 1..Len(vals) |-> <<<<>>, vals[i]>>])
FlatMap(s, Op(_)) == FoldLeft(LAMBDA a, x : a \o Op(x), <<>>, s)

RECURSIVE Edits(_, _, _, _)
\* a long list
Many(e, n) == IF Scalar(Deref(e)) THEN Now([i \in 1..n |-> Filled(e, IntBE(i, 2))])
              ELSE Now([i \in 1..n |-> IF i = n THEN Filled(e, "09") ELSE Zero(e)])
\* lists: other lengths, other orders, and edits of the first element
ListEdits(t, x, p, lvl) ==
  LET e == t.e
      new == Filled(e, p \o "09")
      small == Scalar(Deref(e))
      same == IF Len(x) > 0 THEN x[1] ELSE new
  IN Here(<<<<>>, Append(x, new), Append(x, same)>>
          \o (IF lvl > 1 THEN (IF small THEN <<Many(e, 130)>> ELSE <<Many(e, 3)>>)
              ELSE <<<<new>>, <<Zero(e)>>, <<new>> \o x, x \o <<Zero(e), new>>>>
                   \o (IF Len(x) > 1 THEN <<Reverse(x), SubSeq(x, 1, Len(x) - 1), SubSeq(x, 2, Len(x))>> ELSE <<>>)
                   \o (IF lvl > 0 THEN (IF small THEN <<Many(e, 130)>> ELSE <<>>)
                       ELSE FlatMap(IF small THEN <<3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 255, 256, 257>> ELSE <<3, 4, 17, 40, 130>>,
                                    LAMBDA n : <<Many(e, n)>>))))
     \o (IF Len(x) = 0 THEN <<>> ELSE Under(1, Edits(e, x[1], p \o "01", lvl)))

Edits(t, x, p, lvl) ==
  CASE t.k = "ref" -> Edits(T(t.n), x, p, lvl + 1)
    [] IsStruct(t) ->
         FlatMap(StructFields(t), LAMBDA f :
            Under(f[1], (IF Scalar(Deref(f[2])) \/ Deref(f[2]).k \in {"vec", "opt"} \/ lvl > 1 THEN <<>> ELSE Here(<<Zero(f[2])>>)) \o Edits(f[2], x[f[1]], Sub(p, f[1]), lvl)))
    [] t.k = "vec" -> ListEdits(t, x, p, lvl)
    [] t.k = "opt" -> Here(<<<<>>, <<Zero(t.e)>>, <<Filled(t.e, p \o "09")>>>>) \o (IF x = <<>> THEN <<>> ELSE Under(1, Edits(t.e, x[1], p, lvl)))
    [] t.k \in {"bytes"} -> Here(BytesEdges(p \o "09", lvl))
    [] t.k = "str" -> Here(StrEdges(lvl))
    [] t.k = "spec" -> Here(IF lvl < 2 THEN SpecEdges ELSE SubSeq(SpecEdges, 1, 2))
    [] t.k = "bool" -> Here(<<~ x>>)
    [] t.k = "time" -> Here(TimeEdges(lvl))
    [] t.k = "dur" -> Here(DurEdges(lvl))
    [] t.k \in {"u8", "u16", "u32", "u64", "usize", "i16", "i32", "i64", "cur", "work"} -> Here(IntEdges(Width(t.k), lvl))
    [] t.k \in {"hash", "addr", "pk", "sig", "leaf", "fix"} -> Here(RawEdges(x, lvl))
    [] t.k = "policy" -> Here(IF lvl = 0 THEN <<>> ELSE IF lvl = 1 THEN OneOfEach \o <<Th(0, <<>>), Th(2, OneOfEach)>> ELSE <<Lf("opaque", Salt(p, 32)), Lf("uc", ZeroUc)>>)
    [] t.k = "resolution" ->
         Here(<<[x EXCEPT !.type = "expiration", !.resolution = <<>>],
                [x EXCEPT !.type = "renewal", !.resolution = Filled(T("v2_FileContractRenewal"), Sub(p, "renewal"))],
                [x EXCEPT !.type = "storageProof", !.resolution = Zero(T("v2_StorageProof"))]>>)
         \o Under("parent", Edits(T("v2_FileContractElement"), x.parent, Sub(p, "parent"), lvl + 1))
         \o (CASE x.type = "renewal" -> Under("resolution", Edits(T("v2_FileContractRenewal"), x.resolution, Sub(p, "renewal"), lvl + 1))
               [] x.type = "storageProof" -> Under("resolution", Edits(T("v2_StorageProof"), x.resolution, Sub(p, "resolution"), lvl + 1))
               [] OTHER -> <<>>)
    [] OTHER -> <<>>

(* ------------------------------------------------------------------ accumulators and states *)
AccumWith(n) == [numLeaves |-> n, trees |-> Now([i \in 1..Len(SetBits(n)) |-> Salt(ByteStr[i], 32)])]
AccumCases == (LET e == IntEdges(8, 0) IN Now([i \in 1..Len(e) |-> AccumWith(e[i])]))
              \o Now([i \in 1..64 |-> AccumWith(OneByte(8, (i - 1) \div 8, ByteStr[2 ^ ((i - 1) % 8)]))])
              \o Now([i \in 1..7 |-> AccumWith(<<"aaaaaaaaaaaaaaaa", "5555555555555555", "8000000000000001", "00000000ffffffff", "ffffffff00000000", "0000000100000001", "0123456789abcdef">>[i])])
              \o <<[AccumWith(U64(7)) EXCEPT !.trees[2] = Zeros(32)], [AccumWith(U64(6)) EXCEPT !.trees[1] = Zeros(32), !.trees[2] = Zeros(32)]>>
StateAt(x, h) == [x EXCEPT !.index.height = h, !.prevTimestamps = Now([i \in 1..11 |-> IF i <= TimestampCount(h) THEN x.prevTimestamps[i] ELSE Zeros(8)])]
StateEdits(x) ==
  FlatMap(SelectSeq(StateFields, LAMBDA f : f[1] \notin {"index", "prevTimestamps", "elements"}), LAMBDA f : Under(f[1], Edits(f[2], x[f[1]], Sub("", f[1]), 1)))
  \o Under("index", Under("id", Here(RawEdges(x.index.id, 1))))
  \o Under("elements", Here(Now([i \in 1..8 |-> AccumWith(<<Zeros(8), U64(1), U64(2), U64(3), "8000000000000000", "ffffffffffffffff", "0000000100000000", U64(255)>>[i])])))
  \o FlatMap(Now([i \in 1..11 |-> i]), LAMBDA i : Under("prevTimestamps", Under(i, Here(<<Zeros(8), NegI64("1"), PosI64("4294967296")>>))))
HeightCases == Now([i \in 1..14 |-> U64(i - 1)]) \o <<Rep("ff", 8), Rep("ff", 7) \o "fe", "8000000000000000", "7fffffffffffffff", "0000000100000000", "0000000100000005", "00000000ffffffff", U64(255), U64(256), U64(266), U64(65536)>>

(* ------------------------------------------------------------------ the cases of a type *)
Just(b) == [base |-> b, edits |-> <<>>]
With2(t, b) == [base |-> b, edits |-> Edits(t, b, "", 0)]
\* each part alone: edits of the empty value that fill one field
Alone(t) == [base |-> Zero(t), edits |-> FlatMap(StructFields(t), LAMBDA f : Under(f[1], Here(<<Filled(f[2], Sub("aa", f[1]))>>)))]
\* each part alone, with the edits of that part
Thin(t) == Now([i \in 1..Len(StructFields(t)) |->
             LET f == StructFields(t)[i]
                 x == Filled(f[2], Sub("ab", f[1]))
             IN [base |-> [Zero(t) EXCEPT ![f[1]] = x], edits |-> Under(f[1], Edits(f[2], x, Sub("ab", f[1]), 0))]])
ThinTypes == {"v1_Transaction", "v1_CoveredFields", "Block", "Network"}
ResWith(ty) == LET n == [renewal |-> "v2_FileContractRenewal", storageProof |-> "v2_StorageProof"]
               IN [parent |-> Filled(T("v2_FileContractElement"), "01"), type |-> ty, resolution |-> IF ty = "expiration" THEN <<>> ELSE Filled(T(n[ty]), "02")]
CasesOf(name) ==
  LET t == Deref(T(name)) IN
  CASE t.k = "policy" -> Now([i \in 1..Len(PolicyCases) |-> Just(PolicyCases[i])])
    [] t.k = "resolution" -> <<With2(t, ResWith("expiration")), With2(t, ResWith("storageProof")), With2(t, ResWith("renewal")), Just(Zero(t)),
                               Just([ResWith("storageProof") EXCEPT !.resolution = Zero(T("v2_StorageProof"))])>>
    [] t.k = "accum" -> Now([i \in 1..Len(AccumCases) |-> Just(AccumCases[i])])
    [] t.k = "state" -> LET x == Filled(t, "") IN <<[base |-> x, edits |-> StateEdits(x)], Just(Zero(t))>> \o Now([i \in 1..Len(HeightCases) |-> Just(StateAt(x, HeightCases[i]))])
    [] t.k = "txn2" -> LET x == Filled(t, "")
                           y == [x EXCEPT !.fileContractResolutions = <<ResWith("renewal"), ResWith("storageProof"), ResWith("expiration")>>]
                       IN <<With2(t, x), Alone(t), Just(y)>> \o Thin(t)
    [] IsStruct(t) -> <<With2(t, Filled(t, "")), Alone(t)>> \o (IF name \in ThinTypes THEN Thin(t) ELSE <<>>)
    [] OTHER -> <<With2(t, Filled(t, "")), Just(Zero(t))>>

\* the value an edit of a base denotes
Edited(c, e) == IF e = 0 THEN c.base ELSE SetPath(c.base, c.edits[e][1], 1, c.edits[e][2])
=============================================================================
