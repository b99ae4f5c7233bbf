------------------------------- MODULE Bytes -------------------------------
(***************************************************************************)
(* Byte strings, as TLA+ strings of lower-case hex digits (two per byte),  *)
(* and the conversions between them, integers and ASCII text.              *)
(* Fixed-width unsigned integers are big-endian byte strings of their      *)
(* width ("00000000000000ff" is the u64 255); signed ones are their        *)
(* two's complement.                                                       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets

\* equality of values of possibly different kinds (a record and a string, say, are different)
Same(a, b) == a = b

\* f, evaluated at once (TLC otherwise evaluates the body of a function constructor again at each use)
Now(f) == f

HexDigits == "0123456789abcdef"
DigitSet  == {SubSeq(HexDigits, i, i) : i \in 1..16}
DigitVal  == [c \in DigitSet |-> (CHOOSE i \in 1..16 : SubSeq(HexDigits, i, i) = c) - 1]
Digit(n)  == SubSeq(HexDigits, n + 1, n + 1)

ByteStr  == [n \in 0..255 |-> Digit(n \div 16) \o Digit(n % 16)]
ByteVal  == [b \in {ByteStr[n] : n \in 0..255} |-> 16 * DigitVal[SubSeq(b, 1, 1)] + DigitVal[SubSeq(b, 2, 2)]]

BLen(b)       == Len(b) \div 2
BSub(b, i, n) == SubSeq(b, 2 * i + 1, 2 * (i + n))      \* n bytes from offset i (0-based)
BAt(b, i)     == SubSeq(b, 2 * i + 1, 2 * i + 2)
BFrom(b, i)   == SubSeq(b, 2 * i + 1, Len(b))
BTake(b, n)   == SubSeq(b, 1, 2 * n)
BIsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

\* concatenation of a sequence of byte strings
Cat(s) == FoldLeft(LAMBDA a, x : a \o x, "", s)
\* the bytes of b in reverse order (little-endian <-> big-endian)
RECURSIVE Rev(_)
Rev(b) == IF b = "" THEN "" ELSE Rev(BFrom(b, 1)) \o BAt(b, 0)

RECURSIVE Rep(_, _)
Rep(b, n) == IF n = 0 THEN "" ELSE IF n % 2 = 1 THEN b \o Rep(b, n - 1)
             ELSE LET h == Rep(b, n \div 2) IN h \o h
Zeros(n) == Rep("00", n)

\* bytes as a sequence of integers, and back
ByteSeq(b)  == [i \in 1..BLen(b) |-> ByteVal[BAt(b, i - 1)]]
FromSeq(s)  == Cat([i \in 1..Len(s) |-> ByteStr[s[i]]])

\* small naturals as w-byte big-endian strings, and back
RECURSIVE IntBE(_, _)
IntBE(n, w) == IF w = 0 THEN "" ELSE IntBE(n \div 256, w - 1) \o ByteStr[n % 256]
U8(n)  == ByteStr[n]
U64(n) == Zeros(4) \o IntBE(n, 4)
\* value of a big-endian string known to be below 2^31
RECURSIVE BEInt(_)
BEInt(b) == IF b = "" THEN 0 ELSE 256 * BEInt(BTake(b, BLen(b) - 1)) + ByteVal[BAt(b, BLen(b) - 1)]
\* is the big-endian string below 2^30 (so that BEInt applies)?
IsSmall(b) == BLen(b) <= 3 \/ (/\ BTake(b, BLen(b) - 4) = Zeros(BLen(b) - 4)
                               /\ ByteVal[BAt(b, BLen(b) - 4)] < 64)

LEOf(x) == Rev(x)             \* little-endian wire form of a fixed-width integer
U64LE(n) == Rev(U64(n))       \* of a small natural

\* ASCII code of each character of a TLA+ string, as bytes (text form of a value)
Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiOf == [c \in {SubSeq(Printable, i, i) : i \in 1..95} |->
              ByteStr[31 + CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = c]]
AsciiHex(s) == Cat([i \in 1..Len(s) |-> AsciiOf[SubSeq(s, i, i)]])
\* the character with a printable ASCII code
CharOf == [b \in {ByteStr[n] : n \in 32..126} |-> SubSeq(Printable, ByteVal[b] - 31, ByteVal[b] - 31)]
IsPrintable(b) == \A i \in 0..BLen(b)-1 : ByteVal[BAt(b, i)] \in 32..126
TextOf(b) == Cat([i \in 1..BLen(b) |-> CharOf[BAt(b, i - 1)]])

\* index of the first / last occurrence of byte c in b, or -1
FirstByte(b, c) == LET S == {i \in 0..BLen(b)-1 : BAt(b, i) = c}
                   IN IF S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : i <= j
LastByte(b, c)  == LET S == {i \in 0..BLen(b)-1 : BAt(b, i) = c}
                   IN IF S = {} THEN -1 ELSE CHOOSE i \in S : \A j \in S : i >= j

\* UTF-8 validity of a byte string (Unicode 15, table 3-7)
RECURSIVE Utf8From(_, _)
Utf8From(s, i) ==
  IF i > Len(s) THEN TRUE
  ELSE LET c == s[i]
           In(k, lo, hi) == i + k <= Len(s) /\ s[i + k] >= lo /\ s[i + k] <= hi
       IN CASE c <= 127 -> Utf8From(s, i + 1)
            [] c \in 194..223 -> In(1, 128, 191) /\ Utf8From(s, i + 2)
            [] c = 224 -> In(1, 160, 191) /\ In(2, 128, 191) /\ Utf8From(s, i + 3)
            [] c \in (225..236) \cup {238, 239} -> In(1, 128, 191) /\ In(2, 128, 191) /\ Utf8From(s, i + 3)
            [] c = 237 -> In(1, 128, 159) /\ In(2, 128, 191) /\ Utf8From(s, i + 3)
            [] c = 240 -> In(1, 144, 191) /\ In(2, 128, 191) /\ In(3, 128, 191) /\ Utf8From(s, i + 4)
            [] c \in 241..243 -> In(1, 128, 191) /\ In(2, 128, 191) /\ In(3, 128, 191) /\ Utf8From(s, i + 4)
            [] c = 244 -> In(1, 128, 143) /\ In(2, 128, 191) /\ In(3, 128, 191) /\ Utf8From(s, i + 4)
            [] OTHER -> FALSE
IsUtf8(b) == Utf8From(ByteSeq(b), 1)
=============================================================================
