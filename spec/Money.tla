-------------------------------- MODULE Money --------------------------------
(***************************************************************************)
(* Amounts of money (hastings, 128 bits): exact arithmetic and text.       *)
(***************************************************************************)
EXTENDS Text

\* ---- arithmetic: "ok" with the exact result, or "none" when it is not representable
None == [r |-> "none"]
Fit(n, w) == IF NFits(n, w) THEN Ok(NHex(n, w)) ELSE None
Arith(op, a, b) ==          \* a, b: 16-byte hex
  LET x == NOf(a) y == NOf(b) IN
  CASE op = "add" -> Fit(NAdd(x, y), 16)
    [] op = "sub" -> IF NLe(y, x) THEN Fit(NSub(x, y), 16) ELSE None
    [] op = "mul" -> Fit(NMul(x, y), 16)
    [] op = "div" -> IF y = <<>> THEN None ELSE Fit(NDivMod(x, y)[1], 16)
    [] op = "rem" -> IF y = <<>> THEN None ELSE Fit(NDivMod(x, y)[2], 16)
SumOf(s) == Fit(FoldLeft(LAMBDA a, x : NAdd(a, NOf(x)), <<>>, s), 16)
CmpOf(a, b) == NCmp(NOf(a), NOf(b))
ToU64(a) == IF BTake(a, 8) = Zeros(8) THEN Ok(BFrom(a, 8)) ELSE None
Siacoins(n) == Fit(NMul(NOf(n), NPow10(24)), 16)      \* n: u64 hex

\* ---- text: digits with at most one point, an optional unit
UnitPow == [x \in {"70", "6e", "75", "6d", "4b", "4d", "47", "54"} |->     \* p n u m K M G T, before "S"
             CASE x = "70" -> 12 [] x = "6e" -> 15 [] x = "75" -> 18 [] x = "6d" -> 21
               [] x = "4b" -> 27 [] x = "4d" -> 30 [] x = "47" -> 33 [] x = "54" -> 36]
\* power of ten of a unit, 0 for hastings, -1 if unknown
PowOf(u) == IF u = "" \/ u = "48" THEN 0
            ELSE IF u = AsciiHex("SC") THEN 24
            ELSE IF BLen(u) = 2 /\ BAt(u, 1) = "53" /\ BAt(u, 0) \in DOMAIN UnitPow THEN UnitPow[BAt(u, 0)]
            ELSE -1

Space == {"20", "09", "0a", "0b", "0c", "0d"}
RECURSIVE TrimL(_), TrimR(_)
TrimL(b) == IF b # "" /\ BAt(b, 0) \in Space THEN TrimL(BFrom(b, 1)) ELSE b
TrimR(b) == IF b # "" /\ BAt(b, BLen(b) - 1) \in Space THEN TrimR(BTake(b, BLen(b) - 1)) ELSE b
NumChar(c) == ByteVal[c] \in 48..57 \/ c = "2e"
RECURSIVE NumEnd(_, _)
NumEnd(t, i) == IF i < BLen(t) /\ NumChar(BAt(t, i)) THEN NumEnd(t, i + 1) ELSE i
DotCount(t) == Cardinality({i \in 0..BLen(t)-1 : BAt(t, i) = "2e"})
RECURSIVE LastNonZero(_, _)         \* digits of t up to its last non-zero one
LastNonZero(t, n) == IF n > 0 /\ BAt(t, n - 1) = "30" THEN LastNonZero(t, n - 1) ELSE n

\* white space beyond ASCII
WideSpace == {"c285", "c2a0", "e19a80", "e28080", "e28081", "e28082", "e28083", "e28084", "e28085", "e28086", "e28087", "e28088", "e28089", "e2808a",
              "e280a8", "e280a9", "e280af", "e2819f", "e38080"}
HeadIs(b, n) == BLen(b) >= n /\ BTake(b, n) \in WideSpace
TailIs(b, n) == BLen(b) >= n /\ BFrom(b, BLen(b) - n) \in WideSpace
RECURSIVE TrimWideL(_), TrimWideR(_)
TrimWideL(b) == IF b # "" /\ BAt(b, 0) \in Space THEN TrimWideL(BFrom(b, 1))
                ELSE IF HeadIs(b, 2) THEN TrimWideL(BFrom(b, 2)) ELSE IF HeadIs(b, 3) THEN TrimWideL(BFrom(b, 3)) ELSE b
TrimWideR(b) == IF b # "" /\ BAt(b, BLen(b) - 1) \in Space THEN TrimWideR(BTake(b, BLen(b) - 1))
                ELSE IF TailIs(b, 2) THEN TrimWideR(BTake(b, BLen(b) - 2))
                ELSE IF TailIs(b, 3) THEN TrimWideR(BTake(b, BLen(b) - 3)) ELSE b

ParseNarrow(t) ==
  LET e == NumEnd(t, 0)
      num == BTake(t, e)
      unit == TrimR(TrimL(BFrom(t, e)))
      pow == PowOf(unit)
      dot == FirstByte(num, "2e")
      whole == IF dot = -1 THEN num ELSE BTake(num, dot)
      frac == IF dot = -1 THEN "" ELSE BFrom(num, dot + 1)
      sig == BTake(frac, LastNonZero(frac, BLen(frac)))          \* without trailing zeros
      val == NAdd(NMul(NOfDec(whole), NPow10(pow)), NMul(NOfDec(sig), NPow10(pow - BLen(sig))))
      \* a number with a point but no digits before or after it, or with zeros beyond a hasting, may be refused
      loose == dot # -1 /\ (whole = "" \/ frac = "" \/ BLen(frac) > pow \/ pow = 0)
  IN IF pow = -1 \/ num = "" \/ DotCount(num) > 1 \/ num = "2e" THEN Err
     ELSE IF BLen(sig) > pow THEN Err
     ELSE IF ~ NFits(val, 16) THEN Err
     ELSE IF loose THEN Maybe(NHex(val, 16)) ELSE Ok(NHex(val, 16))
\* around the unit there may be white space; that beyond ASCII may be refused
ParseAmount(t) ==
  LET e == NumEnd(t, 0)
      rest == BFrom(t, e)
      wide == TrimWideR(TrimWideL(rest))
  IN IF wide = TrimR(TrimL(rest)) THEN ParseNarrow(t)
     ELSE LET r == ParseNarrow(BTake(t, e) \o wide) IN IF r.r = "ok" THEN Maybe(r.v) ELSE r
=============================================================================
