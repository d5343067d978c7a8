----------------------------- MODULE SealTrace ------------------------------
(* The recorded calls of the real interface against its specification. *)
EXTENDS SealDefs, TLC, Json, IOUtils

Table == JsonDeserialize(IOEnv.TRACE)
VARIABLE r

Init == r \in 0..Len(Table.recs)
Next == UNCHANGED r
Spec == Init /\ [][Next]_r

Bad(prop) == PrintT(<<"BAD", prop, ToString(r), 0, 0>>) /\ FALSE
Holds(prop, P) == P \/ Bad(prop)
Inv13 == r > 0 => Holds("C13", C13rec(Table.recs[r], Table.wids))
Inv14 == IF r = 0 THEN Holds("C14", C14all(Table.recs)) ELSE Holds("C14", C14rec(Table.recs[r]))
=============================================================================
