------------------------------ MODULE Abstract ------------------------------
(***************************************************************************)
(* The evaluation as its user may think of it: every block of the stream   *)
(* is either accepted whole, if it is lawful - with all of its effects at  *)
(* once - or ends the evaluation and changes nothing. The machine Rgb      *)
(* refines this (MCRefine).                                                *)
(*                                                                         *)
(* Lawful is the declarative conjunction of the rules of Props; nothing of *)
(* the steps or the working memory of the machine occurs here.             *)
(***************************************************************************)
EXTENDS Props

VARIABLES aled,   \* party -> ledger
          aev,    \* "idle" or [p, prefix, open]: the blocks accepted so far, and whether more are read
          out     \* everything reported so far in this evaluation

avars == <<aled, aev, out>>

AInit == /\ aev = [p |-> 0, prefix |-> <<>>, open |-> FALSE]
         /\ out = <<>>

Ready == [p |-> 0, prefix |-> <<>>, open |-> FALSE]
AH(b) == [p |-> aev.p, first |-> aev.prefix = <<>>, b |-> b, prefix |-> aev.prefix, L |-> aled[aev.p]]

\* The one liberty taken with the genesis (known finding C05-foreign-genesis)
Admissible(h) == \/ Lawful(h)
                 \/ /\ h.first /\ Op(h).cid = "codex"
                    /\ RuleDefs(h) /\ RuleInputs(h) /\ RuleCodex(h) /\ RuleWitness(h)

Effects(h) == (IF MustWit(h) THEN <<<<"wit", Id(h), Blk(h).wdig>>>> ELSE <<>>)
              \o (IF MustOp(h) THEN <<<<"op", Id(h), Dig(h)>>>> ELSE <<>>)
              \o (IF MustSeals(h) THEN <<<<"seals", Id(h), Blk(h).sdig>>>> ELSE <<>>)

ABegin(p) == /\ aev = Ready
             /\ aev' = [p |-> p, prefix |-> <<>>, open |-> TRUE]
             /\ out' = <<>>
             /\ UNCHANGED aled
AAccept(b) == /\ aev.open
              /\ Admissible(AH(b))
              /\ aled' = IF MustOp(AH(b)) THEN [aled EXCEPT ![aev.p] = ApplyTo(@, Id(AH(b)), Op(AH(b)))] ELSE aled
              /\ aev' = [aev EXCEPT !.prefix = Append(@, [id |-> Id(AH(b)), b |-> b])]
              /\ out' = out \o Effects(AH(b))
AReject(b) == /\ aev.open
              /\ ~Admissible(AH(b))
              /\ aev' = [aev EXCEPT !.open = FALSE]
              /\ UNCHANGED <<aled, out>>
AStop == /\ aev.open                                   \* the end of the stream, or a failure to read it
         /\ aev' = [aev EXCEPT !.open = FALSE]
         /\ UNCHANGED <<aled, out>>
AReturn == /\ aev.p # 0 /\ ~aev.open
           /\ aev' = Ready
           /\ out' = <<>>
           /\ UNCHANGED aled
ARollback(p, id) == /\ aev = Ready
                    /\ CanForget(aled[p], id)
                    /\ aled' = [aled EXCEPT ![p] = Forget(@, id)]
                    /\ UNCHANGED <<aev, out>>

ANext == \/ \E p \in Parties : ABegin(p)
         \/ \E b \in DOMAIN Blocks : AAccept(b) \/ AReject(b)
         \/ AStop \/ AReturn
         \/ \E p \in Parties : \E id \in aled[p].known : ARollback(p, id)

ASpec == AInit /\ [][ANext]_avars
=============================================================================
