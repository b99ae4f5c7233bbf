------------------------------- MODULE Merkle -------------------------------
(***************************************************************************)
(* Merkle trees over BLAKE2b with domain-separated leaves and nodes:       *)
(* unlock-condition addresses and sector roots.                            *)
(***************************************************************************)
EXTENDS Wire, Crypto

LeafHash(b)    == Blake2b("00" \o b)
NodeHash(l, r) == Blake2b("01" \o l \o r)

\* largest power of two below n (n >= 2)
RECURSIVE PowBelow(_, _)
PowBelow(n, k) == IF 2 * k >= n THEN k ELSE PowBelow(n, 2 * k)
\* root of a non-empty sequence of leaf hashes: the left subtree is the largest perfect tree leaving something right
RECURSIVE MerkleRoot(_)
MerkleRoot(s) == IF Len(s) = 1 THEN s[1]
                 ELSE LET k == PowBelow(Len(s), 1)
                      IN NodeHash(MerkleRoot(SubSeq(s, 1, k)), MerkleRoot(SubSeq(s, k + 1, Len(s))))

UcLeaves(uc) == <<LEOf(uc.timelock)>> \o [i \in 1..Len(uc.publicKeys) |-> Enc(2, T("UnlockKey"), uc.publicKeys[i])]
                \o <<LEOf(uc.signaturesRequired)>>
UcAddress(uc) == LET l == UcLeaves(uc) IN MerkleRoot([i \in 1..Len(l) |-> LeafHash(l[i])])

(***************************************************************************)
(* Sectors: 2^16 segments of 64 bytes.  A sector is described by           *)
(*   fill "const"  every byte equal, or "gen": segment i (from 0) is       *)
(*        H(v, 2i), H(v, 2i+1), all segments distinct                      *)
(*   edits  sequence of <<segment number, 64 bytes>>, later ones win       *)
(***************************************************************************)
SegBits == 16
GenSegment(v, i) == Blake2b(v \o U64LE(2 * i)) \o Blake2b(v \o U64LE(2 * i + 1))
Fill(sec, i) == IF sec.fill = "const" THEN Rep(sec.v, 64) ELSE GenSegment(sec.v, i)
EditsIn(sec, lo, hi) == {j \in 1..Len(sec.edits) : sec.edits[j][1] >= lo /\ sec.edits[j][1] < hi}
SegmentAt(sec, i) == LET E == EditsIn(sec, i, i + 1)
                     IN IF E = {} THEN Fill(sec, i) ELSE sec.edits[CHOOSE j \in E : \A k \in E : k <= j][2]
\* roots of perfect trees of 2^h equal segments, h = 0..bits
Uniform(seg, bits) == FoldLeft(LAMBDA acc, h : Append(acc, NodeHash(acc[h], acc[h])), <<LeafHash(seg)>>, [i \in 1..bits |-> i])
RECURSIVE SubRoot(_, _, _, _)
SubRoot(sec, uni, lo, h) ==
  IF uni # <<>> /\ EditsIn(sec, lo, lo + 2 ^ h) = {} THEN uni[h + 1]
  ELSE IF h = 0 THEN LeafHash(SegmentAt(sec, lo))
  ELSE NodeHash(SubRoot(sec, uni, lo, h - 1), SubRoot(sec, uni, lo + 2 ^ (h - 1), h - 1))
SectorRootOf(sec, bits) == SubRoot(sec, IF sec.fill = "const" THEN Uniform(Fill(sec, 0), bits) ELSE <<>>, 0, bits)
SectorRoot(sec) == SectorRootOf(sec, SegBits)
=============================================================================
