--------------------------------- MODULE Dump ---------------------------------
(* Prints the type table and the built-in networks as JSON for the drivers, so that what is generated follows the model. *)
EXTENDS Sia, Json, IOUtils, TLC
ASSUME JsonSerialize(IOEnv.OUT, <<[types |-> TypeTab, txn2 |-> Txn2Fields, state |-> StateFields, accum |-> AccumFields,
          json |-> JsonTypes, covered |-> CoveredLists, derived |-> DerivedKinds, indexed |-> Indexed, words |-> WordList,
          networks |-> [n \in {"mainnet", "zen", "anagami"} |-> NetworkOf(n)]]>>)
VARIABLE done
DInit == Init /\ done = TRUE
DNext == FALSE /\ UNCHANGED <<vars, done>>
=============================================================================
