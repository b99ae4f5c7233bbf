-------------------------------- MODULE Keys --------------------------------
(***************************************************************************)
(* Seeds, recovery phrases, derived keys, signatures.                      *)
(***************************************************************************)
EXTENDS Text, Bip39Words

WordHex == [i \in 1..2048 |-> AsciiHex(WordList[i])]
WordIndex == [w \in {WordHex[i] : i \in 1..2048} |-> (CHOOSE i \in 1..2048 : WordHex[i] = w) - 1]

\* 16 bytes and the first four bits of their SHA-256: 132 bits, twelve 11-bit words
PhraseBits(seed) == LET b == ByteSeq(seed \o BTake(Sha256(seed), 1))
                    IN [i \in 1..132 |-> Bit(b[((i - 1) \div 8) + 1], 7 - ((i - 1) % 8))]
BitsNum(s) == FoldLeft(LAMBDA a, b : 2 * a + (IF b THEN 1 ELSE 0), 0, s)
WordsOf(seed) == LET b == PhraseBits(seed) IN [k \in 1..12 |-> WordHex[BitsNum(SubSeq(b, 11 * k - 10, 11 * k)) + 1]]
Phrase(seed) == LET w == WordsOf(seed) IN Cat([i \in 1..12 |-> (IF i = 1 THEN "" ELSE "20") \o w[i]])

Blank == {"20", "09", "0a", "0b", "0c", "0d"}
\* the words of a text, split at blanks
SplitWords(t) ==
  LET f == FoldLeft(LAMBDA st, i : IF BAt(t, i) \in Blank
                                   THEN <<IF st[2] = "" THEN st[1] ELSE Append(st[1], st[2]), "">>
                                   ELSE <<st[1], st[2] \o BAt(t, i)>>,
                    <<<<>>, "">>, [i \in 1..BLen(t) |-> i - 1])
  IN IF f[2] = "" THEN f[1] ELSE Append(f[1], f[2])
FromPhrase(t) ==
  LET w == SplitWords(t)
      idx == [i \in 1..12 |-> WordIndex[w[i]]]
      bits == [i \in 1..132 |-> Bit(idx[((i - 1) \div 11) + 1], 10 - ((i - 1) % 11))]
      seed == Cat([k \in 1..16 |-> ByteStr[BitsNum(SubSeq(bits, 8 * k - 7, 8 * k))]])
  IN IF \E i \in 0..BLen(t)-1 : ByteVal[BAt(t, i)] >= 128 THEN Open
     ELSE IF Len(w) # 12 THEN Err
     ELSE IF \E i \in 1..12 : w[i] \notin DOMAIN WordIndex THEN Err
     ELSE IF Phrase(seed) # Cat([i \in 1..12 |-> (IF i = 1 THEN "" ELSE "20") \o w[i]]) THEN Err
     ELSE IF Phrase(seed) = t THEN Ok(seed) ELSE Maybe(seed)

KeySeed(seed, index) == Blake2b(Blake2b(seed) \o LEOf(index))
KeyPair(ks) == ks \o EdPublic(ks)                        \* 64-byte private key
DerivedKey(seed, index) == KeyPair(KeySeed(seed, index))
PubOf(sk) == BFrom(sk, 32)
Sign(sk, h) == EdSign(BTake(sk, 32), h)

\* key encodings RFC 8032 calls invalid but implementations may accept, and keys of small order: left open
FieldP == "7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed"
YOf(pk) == LET r == Rev(pk) IN ByteStr[ByteVal[BAt(r, 0)] % 128] \o BFrom(r, 1)
LooseKey(pk) == NLe(NOf(FieldP), NOf(YOf(pk))) \/ EdSmallOrder(pk)
Verify(pk, h, sig) == IF LooseKey(pk) THEN Open ELSE Ok(EdVerify(pk, h, sig))
=============================================================================
