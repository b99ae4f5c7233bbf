------------------------------- MODULE BigNat -------------------------------
(***************************************************************************)
(* Unbounded naturals as little-endian sequences of bytes (no trailing     *)
(* zero), since TLC's integers are 32 bits wide: exact arithmetic,         *)
(* comparison, decimal text, and conversion from and to fixed-width hex.   *)
(***************************************************************************)
EXTENDS Bytes, Integers

RECURSIVE Norm(_)
Norm(a) == IF Len(a) > 0 /\ a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Max2(a, b) == IF a >= b THEN a ELSE b

NZero == <<>>
\* value of a big-endian hex string, of a TLC integer
NOf(h)    == Norm(ByteSeq(Rev(h)))
RECURSIVE NInt(_)
NInt(n)   == IF n = 0 THEN <<>> ELSE <<n % 256>> \o NInt(n \div 256)
\* does a fit into w bytes; its w-byte big-endian string (low w bytes)
NFits(a, w) == Len(a) <= w
NHex(a, w)  == Rev(FromSeq([i \in 1..w |-> Limb(a, i)]))
\* the TLC integer (a < 2^31)
RECURSIVE NToInt(_)
NToInt(a) == IF a = <<>> THEN 0 ELSE a[1] + 256 * NToInt(Tail(a))

RECURSIVE NCmpAt(_, _, _)
NCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE NCmpAt(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpAt(a, b, Len(a))
NLe(a, b) == NCmp(a, b) <= 0
NLt(a, b) == NCmp(a, b) < 0

\* propagate the carries of a sequence of (possibly negative) coefficients
RECURSIVE CarryOut(_)
CarryOut(c) == IF c = 0 THEN <<>> ELSE <<c % 256>> \o CarryOut(c \div 256)
Carried(s) == LET f == FoldLeft(LAMBDA st, x : <<(x + st[1]) \div 256, Append(st[2], (x + st[1]) % 256)>>, <<0, <<>>>>, s)
              IN Norm(f[2] \o CarryOut(f[1]))

NAdd(a, b) == Carried([i \in 1..Max2(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)])
\* a - b for b <= a  (TLA+ \div and % round down, so a borrow is a carry of -1)
NSub(a, b) == Carried([i \in 1..Len(a) |-> a[i] - Limb(b, i)])
\* the i-th coefficient of the product
RECURSIVE Coef(_, _, _, _)
Coef(a, b, i, j) == IF j > i \/ j > Len(a) THEN 0
                    ELSE a[j] * Limb(b, i - j + 1) + Coef(a, b, i, j + 1)
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE Carried([i \in 1..(Len(a) + Len(b) - 1) |-> Coef(a, b, i, 1)])

\* division by a small integer d < 2^22: <<quotient, remainder>>
NDivSmall(a, d) ==
  LET f == FoldLeft(LAMBDA st, x : <<(256 * st[1] + x) % d, <<(256 * st[1] + x) \div d>> \o st[2]>>, <<0, <<>>>>, Reverse(a))
  IN <<Norm(f[2]), f[1]>>

\* division by any b # 0, one byte of the quotient at a time: <<quotient, remainder>>
RECURSIVE DigitOf(_, _, _, _)
DigitOf(r, b, lo, hi) ==        \* largest k in lo..hi with k*b <= r
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN IF NLe(NMul(NInt(m), b), r) THEN DigitOf(r, b, m, hi) ELSE DigitOf(r, b, lo, m - 1)
DivStep(st, x, b) ==
  LET r1 == Norm(<<x>> \o st[1])
      k  == IF NLt(r1, b) THEN 0 ELSE DigitOf(r1, b, 1, 255)
  IN <<IF k = 0 THEN r1 ELSE NSub(r1, NMul(NInt(k), b)), <<k>> \o st[2]>>
NDivMod(a, b) ==
  LET f == FoldLeft(LAMBDA st, x : DivStep(st, x, b), <<<<>>, <<>>>>, Reverse(a)) IN <<Norm(f[2]), f[1]>>

\* a * 2^(8k), and floor(a / 2^(8k))
NShl(a, k) == IF a = <<>> THEN a ELSE [i \in 1..k |-> 0] \o a
NShr(a, k) == SubSeq(a, k + 1, Len(a))

RECURSIVE NPow10(_)
NPow10(n) == IF n = 0 THEN <<1>> ELSE IF n >= 4 THEN NMul(NInt(10000), NPow10(n - 4)) ELSE NMul(<<10>>, NPow10(n - 1))

\* decimal text (as a TLA+ string), and the value of a string of ASCII digits given as bytes
RECURSIVE DecR(_, _)
DecR(a, acc) == IF a = <<>> THEN acc
                ELSE LET d == NDivSmall(a, 10) IN DecR(d[1], Digit(d[2]) \o acc)
NDec(a) == IF a = <<>> THEN "0" ELSE DecR(a, "")
IsDigits(b) == b # "" /\ \A i \in 0..BLen(b)-1 : ByteVal[BAt(b, i)] \in 48..57
NOfDec(b) == FoldLeft(LAMBDA acc, d : NAdd(NMul(<<10>>, acc), NInt(d - 48)), <<>>, ByteSeq(b))

\* ------------------------------------------------------------------ u64 and i64 helpers
U64Max  == "ffffffffffffffff"
U64Inc(h)    == NHex(NAdd(NOf(h), <<1>>), 8)          \* wrapping
Neg(h)       == ByteVal[BAt(h, 0)] >= 128             \* sign of a two's complement string
NegMag(h)    == LET w == BLen(h) IN NSub(NShl(<<1>>, w), NOf(h))   \* magnitude of a negative one
U64Cmp(a, b) == NCmp(NOf(a), NOf(b))
\* sign extension of a two's complement string to w bytes
SignExt(h, w) == (IF Neg(h) THEN Rep("ff", w - BLen(h)) ELSE Zeros(w - BLen(h))) \o h
=============================================================================
