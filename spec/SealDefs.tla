------------------------------ MODULE SealDefs ------------------------------
(***************************************************************************)
(* The seal definition interface: resolution against a witness, conversion *)
(* without one, and the token an operation commits to. Properties C13, C14.*)
(*                                                                         *)
(* A call record c                                                         *)
(*   d     the definition [kind, tx, v, sec]                               *)
(*   cid   its consensus commitment id, 32 bytes                           *)
(*   obs   what the interface returned:                                    *)
(*          res   for every witness id, the resolved seal <<tx, v, sec>>   *)
(*          src   the seal converted to without a witness id, or <<>>      *)
(*          tok   the token, 30 bytes;  fe  its field element, 32 bytes    *)
(*   again the same, called again later                                    *)
(***************************************************************************)
EXTENDS Seals, Integers

C13rec(c, wids) ==
    \A o \in {c.obs, c.again} :
        /\ Len(o.res) = Len(wids)
        /\ \A i \in DOMAIN wids : o.res[i] = Resolve(c.d, wids[i])
        /\ o.src = ToSrc(c.d)
        /\ (o.src # NoSeal) = ~IsRelative(c.d)
        /\ ~IsRelative(c.d) => \A i \in DOMAIN wids : o.res[i] = o.src

TokenLen == 30
Token(cid) == SubSeq(cid, 1, TokenLen)
\* The token is a number below the field order: its most significant two bytes are zero.
FieldElement(tok) == tok \o <<0, 0>>

C14rec(c) ==
    /\ c.obs.tok = Token(c.cid)
    /\ c.again.tok = c.obs.tok
    /\ c.obs.fe = FieldElement(c.obs.tok) /\ c.again.fe = c.obs.fe

C14all(recs) == Cardinality({recs[i].obs.tok : i \in DOMAIN recs}) = Cardinality({recs[i].d : i \in DOMAIN recs})
=============================================================================
