------------------------------ MODULE MCRefine ------------------------------
(***************************************************************************)
(* The machine refines the abstract, atomic specification, and under       *)
(* fairness every evaluation of a finite stream ends.                      *)
(***************************************************************************)
EXTENDS MC

VARIABLE gout      \* everything reported in accepted blocks of this evaluation

rvars2 == <<led, ev, fx, hist, cnt, gout>>

RInit == MCInit /\ gout = <<>>
RNext == /\ MCNext
         /\ gout' = IF ev.pc = "applySeals" /\ ev'.pc = "accepted" THEN gout \o fx'
                    ELSE IF Idle \/ ev'.pc = "idle" THEN <<>> ELSE gout
RSpec == RInit /\ [][RNext]_rvars2 /\ WF_rvars2(RNext)

\* In the middle of a block nothing has happened yet.
Busy == ev.pc \in {"genesis", "defs", "inputs", "codex", "witness", "applyWitness", "seals", "applyOperation", "applySeals"}
Failed == ev.pc = "done" /\ ev.b # 0

AbsLed == IF Busy THEN [led EXCEPT ![ev.p] = ev.preLed] ELSE led
AbsEv == IF Idle THEN [p |-> 0, prefix |-> <<>>, open |-> FALSE]
         ELSE [p |-> ev.p,
               prefix |-> IF ev.pc = "accepted" THEN Append(ev.acc, [id |-> ev.id, b |-> ev.b]) ELSE ev.acc,
               open |-> ev.pc # "done"]

Abs == INSTANCE Abstract WITH aled <- AbsLed, aev <- AbsEv, out <- gout
Refines == Abs!ASpec

\* Every evaluation returns, provided the stream is finite (MaxLen), and reports an error or its end.
Terminates == []((~Idle) => <>(Idle))
\* Once a block is read it is judged, and the next read only happens after that.
Judges == []((ev.pc = "genesis") => <>(ev.pc \in {"accepted", "done"}))
=============================================================================
