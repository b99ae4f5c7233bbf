------------------------------- MODULE Crypto -------------------------------
(***************************************************************************)
(* The cryptographic primitives the system is built on.  The specification *)
(* leaves them uninterpreted; conformance runs interpret them by the       *)
(* standards (BLAKE2b-256 of RFC 7693, SHA-256, Ed25519 of RFC 8032),      *)
(* implemented in java/SiaOverrides.java.  Bounded models override Blake2b *)
(* with an ideal, injective hash instead.                                  *)
(***************************************************************************)
EXTENDS Bytes
Blake2b(b) == CHOOSE h \in STRING : TRUE            \* 32-byte digest
Sha256(b)  == CHOOSE h \in STRING : TRUE            \* 32-byte digest
EdPublic(seed)         == CHOOSE k \in STRING : TRUE   \* public key of a 32-byte seed
EdSign(seed, msg)      == CHOOSE s \in STRING : TRUE   \* 64-byte signature
EdVerify(pk, msg, sig) == CHOOSE b \in BOOLEAN : TRUE  \* FALSE for a pk that is no curve point
EdSmallOrder(pk)       == CHOOSE b \in BOOLEAN : TRUE  \* is pk a curve point of order dividing eight
=============================================================================
