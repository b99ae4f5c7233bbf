------------------------------- MODULE MC_Forms -------------------------------
(***************************************************************************)
(* Every value of Cases, in every form: what the specification claims of   *)
(* the wire, JSON and text forms holds over this space.  One state per     *)
(* value; the table of values goes to the conformance runs.                *)
(*   TYPES   file with a list of [form, type]                              *)
(*   START, STEP   which of the values this run looks at                   *)
(* (Variables have names that no definition binds: TLC does not keep the   *)
(* values of definitions that bind the name of a variable.)                *)
(***************************************************************************)
EXTENDS Cases, Json, IOUtils, TLC

Wanted == JsonDeserialize(IOEnv.TYPES)
Names == {Wanted[j][2] : j \in 1..Len(Wanted)}
\* (TLC would evaluate the tables again at each use: they are kept in registers)
ASSUME TLCSet(1, Now([name \in Names |-> CasesOf(name)]))
Tab == TLCGet(1)
\* all values, as <<form, type, base, edit>>
ASSUME TLCSet(2, FlatMap(Wanted, LAMBDA w : FlatMap(Now([k \in 1..Len(Tab[w[2]]) |-> k]), LAMBDA k :
                    Now([j \in 1..(Len(Tab[w[2]][k].edits) + 1) |-> <<w[1], w[2], k, j - 1>>]))))
All == TLCGet(2)
ASSUME TLCSet(3, atoi(IOEnv.STEP))
ASSUME TLCSet(5, Len(All))

\* decoding inverts encoding and consumes exactly the encoding, whatever follows it
RoundTrip(ver, n, v, w) == \A l \in {w \o "a5a5a5"} : \A d \in {DecT(ver, n, l)} : d.ok /\ d.used = BLen(w) /\ Same(d.v, v)
\* no proper prefix is the encoding of anything (a decoder of it fails at the end of its input)
Cuts(l) == IF l <= 24 THEN 0..(l - 1) ELSE IF l <= 300 THEN {0, l \div 2, l - 1} ELSE {l - 1}
PrefixFree(ver, n, w) == \A c \in Cuts(BLen(w)) : \A s \in {BTake(w, c)} : ~ DecT(ver, n, s).ok
\* different values, different encodings
Injective(ver, n, v, w, base) == Same(v, base) \/ w # EncT(ver, n, base)
WireOk(ver, n, v, base) == \A w \in {EncT(ver, n, v)} : RoundTrip(ver, n, v, w) /\ PrefixFree(ver, n, w) /\ Injective(ver, n, v, w, base)
\* JSON: the document of a value denotes exactly that value; a value has no document only for lack of a text of a part
JsonOk(n, v) == \A d \in {ToDocT(n, v)} : d.r = "err" \/ (\A x \in {FromDocT(n, d.v)} : x.r = "ok" /\ Same(x.v, v))
\* texts
TextOk(n, v) == \A s \in {ShowT(n, v)} : s.r # "ok" \/ (\A x \in {ParseT(n, s.v)} : x.r \in {"any", "free"} \/ (x.r = "ok" /\ Same(x.v, v)))

\* (TLC evaluates what a quantifier binds once, but an operator's argument at each use)
Claim(k) == \A a \in {All[k]} : \A f \in {a[1]}, n \in {a[2]} : \A c \in {Tab[n][a[3]]} : \A v \in {Edited(c, a[4])} :
              CASE f = "v1" -> WireOk(1, n, v, c.base) [] f = "v2" -> WireOk(2, n, v, c.base)
                [] f = "json" -> JsonOk(n, v) [] f = "text" -> TextOk(n, v) [] OTHER -> TRUE

VARIABLES mcAt, mcGood
FInit == Init /\ mcAt = atoi(IOEnv.START) /\ mcGood = TRUE
FNext == /\ mcAt <= TLCGet(5)
         /\ mcGood' = Claim(mcAt)
         /\ mcAt' = mcAt + TLCGet(3)
         /\ UNCHANGED vars
Claimed == mcGood
Emit == IF "OUT" \in DOMAIN IOEnv THEN JsonSerialize(IOEnv.OUT, <<Tab>>) ELSE TRUE
=============================================================================
