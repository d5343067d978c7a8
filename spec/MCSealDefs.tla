----------------------------- MODULE MCSealDefs -----------------------------
(***************************************************************************)
(* All definitions over boundary values: the state space is the domain of  *)
(* the interface. Checks that resolution and conversion as specified are   *)
(* coherent, and emits every definition to be tried on the real code.      *)
(***************************************************************************)
EXTENDS SealDefs, TLC, Json, IOUtils

Dom == JsonDeserialize(IOEnv.DOMAIN)   \* [txs, vs, secs, wids]: sequences of names
VARIABLE d

Kinds == {"wout", "ext"}
Init == \E v \in SRange(Dom.vs), x \in SRange(Dom.secs) :
            \/ d = [kind |-> "wout", tx |-> "-", v |-> v, sec |-> x]
            \/ \E t \in SRange(Dom.txs) : d = [kind |-> "ext", tx |-> t, v |-> v, sec |-> x]
Next == UNCHANGED d
Spec == Init /\ [][Next]_d

Coherent ==
    \A w \in SRange(Dom.wids) :
        LET s == Resolve(d, w) IN
        /\ s[2] = d.v /\ s[3] = d.sec
        /\ IsRelative(d) => s[1] = w /\ ToSrc(d) = NoSeal
        /\ ~IsRelative(d) => s[1] = d.tx /\ ToSrc(d) = s
Emit == PrintT("DEF " \o ToJson(d))
=============================================================================
