--------------------------------- MODULE Sia ---------------------------------
(***************************************************************************)
(* The system as a state machine.  Each action is one call of its public   *)
(* interface: a command c (a record whose member op names the call, with   *)
(* its arguments) and an observed result res.                              *)
(*                                                                         *)
(* State that a caller can observe:                                        *)
(*   stream   bytes written to a stream and not read back yet              *)
(*   sent     the values written and not read back yet                     *)
(*   chain    the chain state in use: <<>> or <<[network, state]>>         *)
(*   txns     transactions being built: name -> [t, v]                     *)
(*   seeds, keys   secrets in use: name -> bytes                           *)
(*   mem      secrets in memory: slot -> [kind, v]                         *)
(* Everything else is a function of its arguments and this state: the same *)
(* call in the same state has the same result, whatever happened before.   *)
(***************************************************************************)
EXTENDS JsonForm, Ids, Chain, Keys

VARIABLES stream, sent, chain, txns, seeds, keys, mem
vars == <<stream, sent, chain, txns, seeds, keys, mem>>

Empty == [n \in {} |-> ""]
Init == /\ stream = "" /\ sent = <<>> /\ chain = <<>> /\ txns = Empty
        /\ seeds = Empty /\ keys = Empty /\ mem = Empty

Put(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]
Del(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
Opt2(c, name, d) == IF name \in DOMAIN c THEN c[name] ELSE d

(***************************************************************************)
(* Expected outcomes.  [r |-> "ok", v], "err" and "panic" are exact;       *)
(* "none" is an absent optional result; "any" is a value or an error;      *)
(* "maybe" is this value or an error; "free" is anything at all.           *)
(***************************************************************************)
Free == [r |-> "free"]
Panic == [r |-> "panic"]
Matches(e, res) ==
  CASE e.r = "ok" -> res.r = "ok" /\ Same(e.v, res.v)
    [] e.r = "any" -> res.r \in {"ok", "err"}
    [] e.r = "maybe" -> res.r = "err" \/ (res.r = "ok" /\ Same(e.v, res.v))
    [] e.r = "free" -> TRUE
    [] OTHER -> res.r = e.r
OrPanic(e) == IF e.r = "none" THEN Panic ELSE e
OrErr(e) == IF e.r = "none" THEN Err ELSE e

\* memory a decoder may use for an input of n bytes
MemBound(n) == 65536 + 64 * n

(* ---------------------------------------------------------------- codecs *)
Full(c) == EncT(c.ver, c.t, c.v)
EncOk(c, res) == Matches(Ok(Full(c)), res)
\* a destination that fails after c.limit bytes (never, if negative) has received exactly that prefix
EncFaultOk(c, res) ==
  LET b == Full(c) lim == Opt2(c, "limit", 0 - 1) IN
  IF lim < 0 \/ lim >= BLen(b) THEN res.r = "ok" /\ res.w = b ELSE res.r = "err" /\ res.w = BTake(b, lim)
\* a source that ends or fails after c.fail bytes
Input(c) == LET f == Opt2(c, "fail", 0 - 1) IN IF f >= 0 /\ f < BLen(c.b) THEN BTake(c.b, f) ELSE c.b
DecOk(c, res) ==
  LET d == DecT(c.ver, c.t, Input(c)) IN
  /\ IF d.ok THEN res.r = "ok" /\ Same(d.v, res.v) /\ res.used = d.used ELSE res.r = "err"
  /\ res.used <= BLen(c.b) /\ res.peak <= MemBound(BLen(c.b))
ReDecOk(c, res) ==
  LET d == DecT(c.ver, c.t, c.b) IN
  /\ IF d.ok THEN res.r = "ok" /\ Matches(Ok(EncT(c.ver, c.t, d.v)), res.enc) /\ res.used = d.used ELSE res.r = "err"
  /\ res.used <= BLen(c.b) /\ res.peak <= MemBound(BLen(c.b))

\* a list of c.n elements c.v (or a text of c.n times c.v): as many units as elements, whatever their number
BulkOk(c, res) ==
  LET e == IF c.t = "string" THEN c.v ELSE EncT(c.ver, c.t, c.v)
      u == BLen(e)
      total == 8 + c.n * u
  IN /\ res.r = "ok" /\ res.len = total /\ res.alike /\ (c.n > 0 => res.unit = e)
     /\ res.head = U64LE(IF c.t = "string" THEN c.n * u ELSE c.n)
     /\ res.dec.r = "ok" /\ res.dec.same /\ res.dec.used = total /\ res.dec.peak \div 64 <= total + 1024

(* ---------------------------------------------------------------- streams: first in, first out *)
PutOk(c, res) == res.r = "ok" /\ res.n = BLen(Full(c))
Write(c) == /\ stream' = stream \o Full(c)
            /\ sent' = Append(sent, [ver |-> c.ver, t |-> c.t, v |-> c.v])
GetOk(c, res) ==
  LET d == DecT(c.ver, c.t, stream) IN
  /\ sent # <<>> /\ Head(sent).ver = c.ver /\ Head(sent).t = c.t
  /\ d.ok /\ res.r = "ok" /\ Same(d.v, res.v) /\ res.used = d.used
  /\ res.same = Same(d.v, Head(sent).v)
Read(c) == /\ stream' = BFrom(stream, DecT(c.ver, c.t, stream).used)
           /\ sent' = Tail(sent)

(* ---------------------------------------------------------------- JSON and text *)
ToJsonOk(c, res) ==
  LET d == ToDocT(c.t, c.v) IN
  CASE d.r = "ok" -> res.r = "ok" /\ DocEq(d.v, res.d) /\ res.agree
    [] d.r = "err" -> res.r = "err"
    [] OTHER -> res.r \in {"ok", "err"}
FromJsonOk(c, res) == Matches(FromDocT(c.t, c.d), res)
JsonTextOk(c, res) == IF Opt2(c, "bad", FALSE) THEN res.r = "err" ELSE res.r \in {"ok", "err"}
DisplayOk(c, res) == Matches(ShowT(c.t, c.v), res)
ParseOk(c, res) == Matches(IF c.t = "Currency" THEN ParseAmount(c.b) ELSE ParseT(c.t, c.b), res)
LiteralOk(l) == LET e == ParseLiteral(l.t, l.b)
                IN CASE e.r = "ok" -> Matches(e, l.res)
                     [] e.r = "maybe" -> l.res.r = "panic" \/ Matches(e, l.res)
                     [] OTHER -> l.res.r = "panic"
\* a specifier is its text, filled up with zeros (what is too long for one is not claimed)
SpecifierOk(c, res) == IF BLen(c.b) > 16 THEN res.r \in {"ok", "panic"} ELSE Matches(Ok(c.b \o Zeros(16 - BLen(c.b))), res)
LiteralsOk(c, res) == \A i \in 1..Len(res) : LiteralOk(res[i])

(* ---------------------------------------------------------------- the chain *)
CS == chain[1]
ParamsOk(res) ==
  LET p == Params(CS) IN
  /\ Matches(Ok(p.childHeight), res.childHeight) /\ Matches(Ok(p.childHeight), res.indexChild)
  /\ Matches(Ok(p.reward), res.reward)
  /\ Matches(IF p.maturity = <<>> THEN Free ELSE Ok(p.maturity[1]), res.maturity)
  /\ Matches(Ok(p.nonce), res.nonce) /\ Matches(Ok(p.prefix), res.prefix)
  /\ Matches(Ok(p.siafunds), res.siafunds) /\ Matches(Ok(p.ancestorDepth), res.ancestorDepth)
  /\ Matches(Ok(p.maxWeight), res.maxWeight)
SubsidyOk(res) ==
  IF ~ Subsidized(CS) THEN TRUE
  ELSE Matches(Ok(Subsidy(CS)), res.due) /\ Matches(Ok(NHex(BlocksPerMonth(CS), 8)), res.month)
Tax1Ok(c, res) == Matches(Ok(Tax1(CS, c.v.payout)), res)
Tax2Ok(c, res) == LET e == Tax2(c.v.renterOutput.value, c.v.hostOutput.value)
                  IN IF e.r = "none" THEN TRUE ELSE Matches(e, res)
NetworkOk(c, res) == Matches(Ok(NetworkOf(c.name)), res)
SetHeight(c) == chain' = <<[CS EXCEPT !.state.index.height = c.h]>>

(* ---------------------------------------------------------------- transactions *)
\* replace the part of x at a path of member names and positions
RECURSIVE SetPath(_, _, _, _)
SetPath(x, path, i, v) == IF i > Len(path) THEN v
                          ELSE [x EXCEPT ![path[i]] = SetPath(x[path[i]], path, i + 1, v)]
X(c) == txns[c.x].v
Pre == ReplayPrefix(CS)
Id1Ok(c, res) == Matches(Ok(Id1(X(c))), res)
Child1Ok(c, res) == Matches(Ok(ChildId1(c.kind, X(c), c.i)), res)
WholeOk(c, res) == Matches(Ok(WholeSigHash(X(c), Pre, c.parent, c.key, c.timelock)), res)
PartialSigOk(c, res) == Matches(IF PartialOk(X(c), c.covered) THEN Ok(PartialSigHash(X(c), Pre, c.covered)) ELSE Err, res)
NoSigsOk(c, res) == Matches(Ok(NoSigs(X(c))), res)
\* the covered fields of a signature over everything
AllFieldsOk(res) == /\ res.r = "ok" /\ res.v.wholeTransaction
                    /\ \A i \in 1..10 : res.v[CoveredLists[i]] = <<>>
\* a leaf does not depend on its own proof
SemChainIndexElement(x) == Enc(2, T("v2_ChainIndexElement"), [x EXCEPT !.stateElement.merkleProof = <<>>])
SemanticsOk(c, res) == Matches(Ok(SemChainIndexElement(c.v)), res)
Id2Ok(c, res) == Matches(Ok(Id2(X(c))), res)
Sig2Ok(c, res) == Matches(Ok(SigHash2(c.kind, IF c.kind = "input" THEN X(c) ELSE c.v, Pre)), res)
DeriveOk(c, res) == Matches(Ok(DerivedId(c.kind, c.id, Opt2(c, "i", Zeros(8)))), res)

(* ---------------------------------------------------------------- addresses and sectors *)
StandardUc(pk) == [timelock |-> Zeros(8), publicKeys |-> <<[algorithm |-> Spec16("ed25519"), key |-> pk]>>,
                   signaturesRequired |-> U64(1)]
UcAddrOk(c, res) == Matches(Ok(UcAddress(c.v)), res)
StandardOk(c, res) == Matches(Ok([uc |-> StandardUc(c.v), address |-> UcAddress(StandardUc(c.v))]), res)
PolAddrOk(c, res) == Matches(Ok(PolicyAddress(c.v)), res)
\* every run, whatever the schedule, has the one outcome
SectorOk(c, res) == Len(res) = 1 /\ Matches(Ok(SectorRoot(c.sector)), res[1])

(* ---------------------------------------------------------------- values as such *)
\* values are equal when their contents are; copies have the content of the original, default values none.
\* A type may have no copies or no default.
SameOk(c, res) ==
  res.r = "ok" /\
  LET v == res.v eq == Same(c.a, c.b) IN
  /\ v.eq = eq /\ v.sym = eq /\ v.ne = ~ eq /\ v.symne = ~ eq /\ v.self
  /\ Same(v.a, c.a) /\ Same(v.b, c.b)
  /\ v.copy.r = "none" \/ Matches(Ok([v |-> c.a, equal |-> TRUE, again |-> c.a]), v.copy)
  /\ v.blank.r = "none" \/ Matches(Ok(Zero(T(c.t))), v.blank)
\* whichever way a value is made of bytes and looked at, they are the bytes that are seen
ConvertOk(c, res) == res.r = "ok" /\ DOMAIN res.v # {} /\ \A n \in DOMAIN res.v : res.v[n] = c.b
\* constructors build the policy they are named after; there may be no unlock conditions in a threshold
RECURSIVE HasUc(_)
HasUc(p) == p.k = "uc" \/ (p.k = "thresh" /\ \E i \in 1..Len(p.of) : HasUc(p.of[i]))
MakeOk(c, res) == LET e == Ok([v |-> c.v, address |-> PolicyAddress(c.v)])
                  IN IF c.v.k = "thresh" /\ HasUc(c.v) THEN res.r = "panic" \/ Matches(e, res) ELSE Matches(e, res)
SameKeyOk(c, res) == LET a == keys[c.a] b == keys[c.b]
                     IN Matches(Ok([eq |-> a = b, ne |-> a # b, clone |-> a = b, public |-> PubOf(a) = PubOf(b)]), res)

(* ---------------------------------------------------------------- money *)
CurOpOk(c, res) == LET e == Arith(c.f, c.a, c.b) IN Matches(IF c.form = "checked" THEN e ELSE OrPanic(e), res)
CurSumOk(c, res) == Matches(OrPanic(SumOf(c.s)), res)
CurCmpOk(c, res) == Matches(Ok([cmp |-> CmpOf(c.a, c.b), consistent |-> TRUE]), res)
ToU64Ok(c, res) == Matches(OrErr(ToU64(c.a)), res)
SiacoinsOk(c, res) == Matches(OrPanic(Siacoins(c.n)), res)

(* ---------------------------------------------------------------- keys *)
KeyOf(c) == CASE c.how = "raw" -> c.v [] c.how \in {"seed", "hash"} -> KeyPair(c.v)
KeyView(sk) == [sk |-> sk, pk |-> PubOf(sk)]
SignOk(c, res) ==
  LET sk == keys[c.key] s == Sign(sk, c.h) v == Verify(PubOf(sk), c.h, s) IN
  res.r = "ok" /\ res.v.sig = s /\ (v.r = "any" \/ res.v.verifies = v.v)
VerifyOk(c, res) == LET v == Verify(c.pk, c.h, c.sig) IN IF v.r = "any" THEN res.r = "ok" ELSE Matches(v, res)

(* ---------------------------------------------------------------- secrets in memory *)
Secret(c) == CASE c.op = "s_new" -> (CASE c.how \in {"seed", "phrase"} -> [kind |-> "seed", v |-> c.v]
                                       [] c.how = "raw" -> [kind |-> "key", v |-> c.v]
                                       [] OTHER -> [kind |-> "key", v |-> KeyPair(c.v)])
               [] c.op = "s_clone" -> mem[c.from]
               [] c.op = "s_derive" -> [kind |-> "key", v |-> DerivedKey(mem[c.from].v, c.i)]
               [] c.op = "s_move" -> mem[c.from]
MemAfter(c) == CASE c.op = "s_reset" -> Empty
                 [] c.op \in {"s_new", "s_clone", "s_derive"} -> Put(mem, c.to, Secret(c))
                 [] c.op = "s_move" -> Put(Del(mem, c.from), c.to, mem[c.from])
                 [] c.op = "s_drop" -> Del(mem, c.from)
                 [] OTHER -> mem
\* live secrets are what they were, and whatever was dropped left nothing behind
SecretOk(c, res) ==
  LET m == MemAfter(c) IN
  /\ res.r = "ok" /\ res.residue = 0
  /\ {<<res.live[i][1], res.live[i][2]>> : i \in 1..Len(res.live)} = {<<n, m[n].v>> : n \in DOMAIN m}

(***************************************************************************)
(* The actions                                                             *)
(***************************************************************************)
Keep == UNCHANGED vars
Reset(c, res) == res.r = "ok" /\ stream' = "" /\ sent' = <<>> /\ chain' = <<>> /\ txns' = Empty /\ seeds' = Empty /\ keys' = Empty
                 /\ UNCHANGED mem
Encode(c, res) == EncOk(c, res) /\ Keep
EncodeFaulty(c, res) == EncFaultOk(c, res) /\ Keep
Decode(c, res) == DecOk(c, res) /\ Keep
DecodeEncode(c, res) == ReDecOk(c, res) /\ Keep
EncodeMany(c, res) == BulkOk(c, res) /\ Keep
StreamPut(c, res) == PutOk(c, res) /\ Write(c) /\ UNCHANGED <<chain, txns, seeds, keys, mem>>
StreamGet(c, res) == GetOk(c, res) /\ Read(c) /\ UNCHANGED <<chain, txns, seeds, keys, mem>>
ToJsonA(c, res) == ToJsonOk(c, res) /\ Keep
FromJsonA(c, res) == FromJsonOk(c, res) /\ Keep
JsonTextA(c, res) == JsonTextOk(c, res) /\ Keep
Display(c, res) == DisplayOk(c, res) /\ Keep
Parse(c, res) == ParseOk(c, res) /\ Keep
SpecifierOf(c, res) == SpecifierOk(c, res) /\ Keep
Literals(c, res) == LiteralsOk(c, res) /\ Keep
SetChain(c, res) == res.r = "ok" /\ chain' = <<c.cs>> /\ UNCHANGED <<stream, sent, txns, seeds, keys, mem>>
Advance(c, res) == res.r = "ok" /\ SetHeight(c) /\ UNCHANGED <<stream, sent, txns, seeds, keys, mem>>
Parameters(c, res) == ParamsOk(res) /\ Keep
FoundationSubsidy(c, res) == SubsidyOk(res) /\ Keep
TaxV1(c, res) == Tax1Ok(c, res) /\ Keep
TaxV2(c, res) == Tax2Ok(c, res) /\ Keep
BuiltinNetwork(c, res) == NetworkOk(c, res) /\ Keep
Let(c, res) == res.r = "ok" /\ txns' = Put(txns, c.x, [t |-> c.t, v |-> c.v]) /\ UNCHANGED <<stream, sent, chain, seeds, keys, mem>>
Edit(c, res) == res.r = "ok" /\ txns' = [txns EXCEPT ![c.x].v = SetPath(txns[c.x].v, c.path, 1, c.v)]
                /\ UNCHANGED <<stream, sent, chain, seeds, keys, mem>>
IdV1(c, res) == Id1Ok(c, res) /\ Keep
ChildIdV1(c, res) == Child1Ok(c, res) /\ Keep
WholeHash(c, res) == WholeOk(c, res) /\ Keep
PartialHash(c, res) == PartialSigOk(c, res) /\ Keep
Unsigned(c, res) == NoSigsOk(c, res) /\ Keep
EverythingCovered(c, res) == AllFieldsOk(res) /\ Keep
LeafContent(c, res) == SemanticsOk(c, res) /\ Keep
IdV2(c, res) == Id2Ok(c, res) /\ Keep
HashV2(c, res) == Sig2Ok(c, res) /\ Keep
DeriveId(c, res) == DeriveOk(c, res) /\ Keep
AddressOfConditions(c, res) == UcAddrOk(c, res) /\ Keep
StandardConditions(c, res) == StandardOk(c, res) /\ Keep
AddressOfPolicy(c, res) == PolAddrOk(c, res) /\ Keep
RootOfSector(c, res) == SectorOk(c, res) /\ Keep
Equality(c, res) == SameOk(c, res) /\ Keep
Conversion(c, res) == ConvertOk(c, res) /\ Keep
Construct(c, res) == MakeOk(c, res) /\ Keep
EqualKeys(c, res) == SameKeyOk(c, res) /\ Keep
Arithmetic(c, res) == CurOpOk(c, res) /\ Keep
Sum(c, res) == CurSumOk(c, res) /\ Keep
Compare(c, res) == CurCmpOk(c, res) /\ Keep
Narrow(c, res) == ToU64Ok(c, res) /\ Keep
WholeSiacoins(c, res) == SiacoinsOk(c, res) /\ Keep
AmountValue(c, res) == Matches(Ok(c.a), res) /\ Keep
NewSeed(c, res) == res.r = "ok" /\ seeds' = Put(seeds, c.s, c.v) /\ UNCHANGED <<stream, sent, chain, txns, keys, mem>>
PhraseOf(c, res) == Matches(Ok(Phrase(seeds[c.s])), res) /\ Keep
SeedValue(c, res) == Matches(Ok(seeds[c.s]), res) /\ Keep
SeedOfPhrase(c, res) == Matches(FromPhrase(c.b), res) /\ Keep
DeriveKey(c, res) == LET k == DerivedKey(seeds[c.s], c.i) IN
  Matches(Ok(KeyView(k)), res) /\ keys' = (IF "key" \in DOMAIN c THEN Put(keys, c.key, k) ELSE keys)
  /\ UNCHANGED <<stream, sent, chain, txns, seeds, mem>>
NewKey(c, res) == Matches(Ok(KeyView(KeyOf(c))), res) /\ keys' = Put(keys, c.key, KeyOf(c))
                  /\ UNCHANGED <<stream, sent, chain, txns, seeds, mem>>
SignHash(c, res) == SignOk(c, res) /\ Keep
VerifySig(c, res) == VerifyOk(c, res) /\ Keep
SecretStep(c, res) == SecretOk(c, res) /\ mem' = MemAfter(c) /\ UNCHANGED <<stream, sent, chain, txns, seeds, keys>>

SecretOps == {"s_reset", "s_new", "s_clone", "s_derive", "s_use", "s_move", "s_drop", "s_scope"}
Do(c, res) ==
  CASE c.op = "reset" -> Reset(c, res)
    [] c.op = "enc" -> Encode(c, res)           [] c.op = "encf" -> EncodeFaulty(c, res)
    [] c.op \in {"dec", "decf"} -> Decode(c, res) [] c.op = "redec" -> DecodeEncode(c, res)
    [] c.op = "bulk" -> EncodeMany(c, res)
    [] c.op = "put" -> StreamPut(c, res)        [] c.op = "get" -> StreamGet(c, res)
    [] c.op = "tojson" -> ToJsonA(c, res)       [] c.op = "fromjson" -> FromJsonA(c, res)
    [] c.op = "jsontext" -> JsonTextA(c, res)
    [] c.op = "display" -> Display(c, res)      [] c.op = "parse" -> Parse(c, res)
    [] c.op = "literals" -> Literals(c, res)    [] c.op = "specifier" -> SpecifierOf(c, res)
    [] c.op = "chain" -> SetChain(c, res)       [] c.op = "height" -> Advance(c, res)
    [] c.op = "params" -> Parameters(c, res)    [] c.op = "subsidy" -> FoundationSubsidy(c, res)
    [] c.op = "tax1" -> TaxV1(c, res)           [] c.op = "tax2" -> TaxV2(c, res)
    [] c.op = "network" -> BuiltinNetwork(c, res)
    [] c.op = "let" -> Let(c, res)              [] c.op = "set" -> Edit(c, res)
    [] c.op = "id1" -> IdV1(c, res)             [] c.op = "child1" -> ChildIdV1(c, res)
    [] c.op = "whole" -> WholeHash(c, res)      [] c.op = "partial" -> PartialHash(c, res)
    [] c.op = "nosigs" -> Unsigned(c, res)      [] c.op = "allfields" -> EverythingCovered(c, res)
    [] c.op = "semantics" -> LeafContent(c, res)
    [] c.op = "id2" -> IdV2(c, res)             [] c.op = "sig2" -> HashV2(c, res)
    [] c.op = "derive" -> DeriveId(c, res)
    [] c.op = "ucaddr" -> AddressOfConditions(c, res) [] c.op = "standard" -> StandardConditions(c, res)
    [] c.op = "poladdr" -> AddressOfPolicy(c, res) [] c.op = "sector" -> RootOfSector(c, res)
    [] c.op = "same" -> Equality(c, res)        [] c.op = "convert" -> Conversion(c, res)
    [] c.op = "make" -> Construct(c, res)       [] c.op = "samekey" -> EqualKeys(c, res)
    [] c.op = "curop" -> Arithmetic(c, res)     [] c.op = "cursum" -> Sum(c, res)
    [] c.op = "curcmp" -> Compare(c, res)       [] c.op = "tou64" -> Narrow(c, res)
    [] c.op = "siacoins" -> WholeSiacoins(c, res) [] c.op = "curval" -> AmountValue(c, res)
    [] c.op = "seed" -> NewSeed(c, res)         [] c.op = "phrase" -> PhraseOf(c, res)
    [] c.op = "seedbytes" -> SeedValue(c, res)  [] c.op = "fromphrase" -> SeedOfPhrase(c, res)
    [] c.op = "derivekey" -> DeriveKey(c, res)  [] c.op = "key" -> NewKey(c, res)
    [] c.op = "sign" -> SignHash(c, res)        [] c.op = "verify" -> VerifySig(c, res)
    [] c.op \in SecretOps -> SecretStep(c, res)
=============================================================================
