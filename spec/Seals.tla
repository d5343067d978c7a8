------------------------------- MODULE Seals -------------------------------
(***************************************************************************)
(* Single-use seals as rgb-core uses them: definitions (which may be       *)
(* relative to a witness that does not exist yet), resolved seals, and     *)
(* seal closing witnesses of the transaction-output kind.                  *)
(*                                                                         *)
(*   Definition  [kind |-> "ext" | "wout", tx, v, sec, tok]                *)
(*   Seal        <<tx, v, sec>>                                            *)
(*   Outpoint    <<tx, v>>                                                 *)
(*   Witness     [id, ins, map, good, prot]                                *)
(*      ins   sequence of outpoints spent by the published part            *)
(*      map   sequence of <<input number from 0, message>>: the bundle     *)
(*      good  the published part commits to this very bundle               *)
(*      prot  the protocol the client part names (nobody checks it: C20)   *)
(*                                                                         *)
(* Transaction ids, output numbers, secondary parts, tokens and messages   *)
(* are opaque values.                                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

SRange(s) == {s[i] : i \in DOMAIN s}

IsRelative(d) == d.kind = "wout"

\* Resolution of a definition against the witness of the operation defining it.
Resolve(d, wid) == IF IsRelative(d) THEN <<wid, d.v, d.sec>> ELSE <<d.tx, d.v, d.sec>>

\* Conversion without a witness: only for definitions which need none.
NoSeal == <<>>
ToSrc(d) == IF IsRelative(d) THEN NoSeal ELSE <<d.tx, d.v, d.sec>>

Outpoint(seal) == <<seal[1], seal[2]>>

\* The first input spending the outpoint is the one that counts.
Included(seal, msg, w) ==
    LET o == Outpoint(seal)
        spending == {i \in DOMAIN w.ins : w.ins[i] = o}
    IN /\ spending # {}
       /\ <<(CHOOSE i \in spending : \A j \in spending : i <= j) - 1, msg>> \in SRange(w.map)

Commits(w, msg) == w.good /\ \E e \in SRange(w.map) : e[2] = msg

\* "Verify" of the single-use seal protocol for several seals and one message.
Closes(w, seals, msg) == /\ \A s \in SRange(seals) : Included(s, msg, w)
                         /\ Commits(w, msg)
=============================================================================
