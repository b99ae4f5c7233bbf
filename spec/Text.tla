-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* Textual forms.  A text is the byte string of its UTF-8 bytes.           *)
(* A parse yields [r |-> "ok", v |-> value], [r |-> "err"], or             *)
(* [r |-> "any"] where the system's contract leaves the outcome open (the  *)
(* only demand is that parsing terminates with a value or an error).       *)
(***************************************************************************)
EXTENDS Types, Crypto

Ok(v) == [r |-> "ok", v |-> v]
Err   == [r |-> "err"]
Open   == [r |-> "any"]
Maybe(v) == [r |-> "maybe", v |-> v]      \* this value or an error

\* ---- hexadecimal, either letter case
UpperDigits == "ABCDEF"
HexCode == [b \in {ByteStr[n] : n \in (48..57) \cup (65..70) \cup (97..102)} |->
             LET n == ByteVal[b] IN IF n <= 57 THEN n - 48 ELSE IF n <= 70 THEN n - 55 ELSE n - 87]
IsHexText(t) == \A i \in 0..BLen(t)-1 : BAt(t, i) \in DOMAIN HexCode
HexTextVal(t) == Cat([i \in 1..BLen(t) |-> Digit(HexCode[BAt(t, i - 1)])])
\* exactly n bytes in hex
ParseFixed(t, n) == IF BLen(t) = 2 * n /\ IsHexText(t) THEN Ok(HexTextVal(t)) ELSE Err

Colon == "3a"
\* ids: 64 digits, after an optional type prefix up to the first colon
ParseHash(t) == LET p == FirstByte(t, Colon) IN ParseFixed(BFrom(t, p + 1), 32)
\* addresses: 32 bytes and the first six bytes of their hash
Checksum(a) == BTake(Blake2b(a), 6)
ParseAddr(t) == LET r == ParseFixed(t, 38)
                IN IF r.r = "ok" /\ BFrom(r.v, 32) = Checksum(BTake(r.v, 32)) THEN Ok(BTake(r.v, 32)) ELSE Err
PkPrefix == AsciiHex("ed25519:")
ParsePk(t) == IF BIsPrefix(PkPrefix, t) THEN ParseFixed(BFrom(t, 8), 32) ELSE Err
\* unlock keys: algorithm, colon, key in hex; an algorithm longer than 16 bytes is left open
ParseUkey(t) ==
  LET p == LastByte(t, Colon)
      k == BFrom(t, p + 1)
  IN IF p = -1 \/ BLen(k) % 2 = 1 \/ ~ IsHexText(k) THEN Err
     ELSE IF p > 16 THEN Open
     ELSE Ok([algorithm |-> BTake(t, p) \o Zeros(16 - p), key |-> HexTextVal(k)])

RECURSIVE TrimZeros(_)
TrimZeros(b) == IF b # "" /\ BAt(b, BLen(b) - 1) = "00" THEN TrimZeros(BTake(b, BLen(b) - 1)) ELSE b

\* ---- display
DecText(h) == AsciiHex(NDec(NOf(h)))           \* decimal text of an unsigned integer
ShowUkey(x) == LET a == TrimZeros(x.algorithm)
               IN IF IsUtf8(a) THEN Ok(a \o Colon \o AsciiHex(x.key)) ELSE Err
ShowAddr(x) == AsciiHex(x \o Checksum(x))
ShowPk(x) == PkPrefix \o AsciiHex(x)
ShowIndex(x) == DecText(x.height) \o Colon \o AsciiHex(x.id)

TextTypes == {"Hash256", "SiacoinOutputID", "AttestationID", "SiafundOutputID", "BlockID", "TransactionID",
              "FileContractID", "Address", "PublicKey", "Signature", "Leaf", "UnlockKey"}
ShowT(name, x) ==
  CASE name = "UnlockKey" -> ShowUkey(x)
    [] name = "Address" -> Ok(ShowAddr(x))
    [] name = "PublicKey" -> Ok(ShowPk(x))
    [] name = "ChainIndex" -> Ok(ShowIndex(x))
    [] name = "Specifier" -> IF IsUtf8(TrimZeros(x)) THEN Ok(TrimZeros(x)) ELSE Open
    [] name \in {"Currency", "Work"} -> Ok(DecText(x))
    [] OTHER -> Ok(AsciiHex(x))
ParseT(name, t) ==
  CASE name = "UnlockKey" -> ParseUkey(t)
    [] name = "Address" -> ParseAddr(t)
    [] name = "PublicKey" -> ParsePk(t)
    [] name \in {"Signature", "Leaf"} -> ParseFixed(t, 64)
    [] OTHER -> ParseHash(t)
\* compile-time literals: 64 digits (76 for an address, the key prefix for a key).  A literal address with a wrong
\* checksum may be refused or denote its 32 bytes.
ParseLiteral(name, t) ==
  CASE name = "Address" -> LET r == ParseFixed(BTake(t, 64), 32)
                           IN IF BLen(t) # 76 \/ r.r # "ok" THEN Err
                              ELSE IF ParseAddr(t).r = "ok" THEN r ELSE Maybe(r.v)
    [] name = "PublicKey" -> ParsePk(t)
    [] OTHER -> ParseFixed(t, 32)
=============================================================================
