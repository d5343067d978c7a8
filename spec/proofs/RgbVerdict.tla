---------------------------- MODULE RgbVerdict -----------------------------
(***************************************************************************)
(* The verdict of the machine on a block is the declarative one, and what  *)
(* it reports for the block is exactly what the properties require: C01,   *)
(* C03..C10 and the refinement of Abstract, for every catalogue, number    *)
(* of clients, and length of streams and histories.                        *)
(***************************************************************************)
EXTENDS RgbSafety, FiniteSetTheorems, NaturalsInduction

ASSUME PartiesOK == Parties # {}

\* As in MC
H == [p |-> ev.p, first |-> ev.first, b |-> ev.b, prefix |-> ev.acc, acc |-> ev.pc = "accepted",
      err |-> ev.err, fx |-> fx, L |-> ev.preLed]

-----------------------------------------------------------------------------
LEMMA NoDupMeans ==
    ASSUME NEW S, NEW s \in Seq(S)
    PROVE NoDup(s) <=> \A i, j \in DOMAIN s : s[i] = s[j] => i = j
<1>1. Len(s) \in Nat /\ DOMAIN s = 1..Len(s) /\ s \in [1..Len(s) -> S]
  BY LenProperties
<1>2. s \in Surjection(1..Len(s), SRange(s))
  BY <1>1 DEF Surjection, SRange
<1>3. IsFiniteSet(1..Len(s)) /\ Cardinality(1..Len(s)) = Len(s)
  BY <1>1, FS_Interval
<1>4. Cardinality(SRange(s)) = Len(s) <=> s \in Injection(1..Len(s), SRange(s))
  BY <1>2, <1>3, FS_Surjection
<1>5. s \in Injection(1..Len(s), SRange(s)) <=> \A i, j \in DOMAIN s : s[i] = s[j] => i = j
  BY <1>1, <1>2 DEF Injection, Surjection, IsInjective
<1> QED BY <1>4, <1>5 DEF NoDup

LEMMA MinOf ==
    ASSUME NEW S, S \subseteq Nat, S # {}
    PROVE \E i \in S : \A j \in S : i <= j
<1> DEFINE P(n) == n \in S => \E i \in S : \A j \in S : i <= j
<1>1. ASSUME NEW n \in Nat, \A m \in 0..(n - 1) : P(m) PROVE P(n)
  BY <1>1
<1> HIDE DEF P
<1>2. \A n \in Nat : P(n)
  BY <1>1, GeneralNatInduction
<1> QED BY <1>2 DEF P

LEMMA SmallestOf ==
    ASSUME NEW S, S \subseteq Nat, S # {}
    PROVE (CHOOSE i \in S : \A j \in S : i <= j) \in S
  BY MinOf

-----------------------------------------------------------------------------
(* Where the evaluation is *)

AfterGate == Steps \ {"genesis"}
AfterDefs == Steps \ {"genesis", "defs"}
AfterInputs == Steps \ {"genesis", "defs", "inputs"}
AfterCodex == {"witness", "applyWitness", "seals", "applyOperation", "applySeals", "accepted"}
AfterWitness == {"applyWitness", "seals", "applyOperation", "applySeals", "accepted"}
AfterSeals == {"applyOperation", "applySeals", "accepted"}
AfterOperation == {"applySeals", "accepted"}

Gate(h) == h.first => Op(h).cid = "codex"
Verdict(h) == Gate(h) /\ RuleDefs(h) /\ RuleInputs(h) /\ RuleCodex(h) /\ RuleWitness(h)
Rejected == ev.pc = "done" /\ ev.b # 0

\* The error names a rule which is violated.
Because(h, e) ==
          CASE e.k = "NoCodex" -> h.first /\ Op(h).cid # "codex"
               [] e.k = "Mismatch" -> ~RuleDefs(h)
               [] e.k = "SealUnknown" -> ~RuleInputs(h)
               [] e.k = "NotIncluded" -> RuleInputs(h) /\ ~RuleWitness(h) /\ e.seal \in UNION {RevealedSeals(h, a) : a \in Ins(h)}
               [] e.k \in {"NoWitness", "BadCommitment"} -> RuleInputs(h) /\ ~RuleWitness(h)
               [] OTHER -> ~RuleCodex(h)
Why(h, e) == Because(h, e) /\ Culprit(h, e)

EWit(h) == IF MustWit(h) THEN <<<<"wit", Id(h), Blk(h).wdig>>>> ELSE <<>>
EOp(h) == IF MustOp(h) THEN <<<<"op", Id(h), Dig(h)>>>> ELSE <<>>
ESeals(h) == IF MustSeals(h) THEN <<<<"seals", Id(h), Blk(h).sdig>>>> ELSE <<>>

\* In terms of the variables only
Din == Blocks[ev.b].op.din
EvalInv ==
    ev.pc # "idle" =>
    /\ ev.p \in Parties
    /\ ev.first <=> ev.acc = <<>>
    /\ ev.first \in BOOLEAN
    /\ ev.pc = "done" => ev.b = 0 \/ ev.b \in DOMAIN Blocks
    /\ ev.pc = "read" => LiveIs(ev.live, H)
    /\ ev.pc \in Steps \/ Rejected => LiveIs(ev.pre, H)
    /\ ev.pc \in {"genesis", "defs", "inputs"} => ev.live = ev.pre
    /\ ev.pc \in AfterGate => ev.id = Id(H) /\ Gate(H)
    /\ ev.pc \in AfterDefs => RuleDefs(H)
    /\ ev.pc \in AfterInputs => RuleInputs(H) /\ ev.closed = [i \in DOMAIN Din |-> ev.pre[Din[i]]]
    /\ ev.pc \in {"codex", "witness", "applyWitness", "seals"} => ev.live = Without(ev.pre, SRange(Din))
    /\ ev.pc \in AfterCodex => RuleCodex(H) /\ ev.isnew = ~Known(H)
    /\ ev.pc \in AfterWitness => RuleWitness(H)
    /\ ev.pc = "applyWitness" => Blocks[ev.b].haswit
    /\ ev.pc \in AfterSeals => ev.live = Over(NewSeals(ev.id, Blocks[ev.b]), Without(ev.pre, SRange(Din)))
    /\ Rejected => ~Verdict(H) /\ Why(H, ev.err)
    \* effects
    /\ ev.pc \in Steps \ AfterWitness \/ Rejected \/ ev.pc = "applyWitness" => fx = <<>>
    /\ ev.pc \in {"seals", "applyOperation"} => fx = EWit(H)
    /\ ev.pc = "applySeals" => fx = EWit(H) \o EOp(H)
    /\ ev.pc = "accepted" => fx = EWit(H) \o EOp(H) \o ESeals(H)
    \* the ledger
    /\ ev.pc \in Steps \ AfterOperation \/ Rejected => led[ev.p] = ev.preLed
    /\ ev.pc \in AfterOperation =>
          led[ev.p] = IF MustOp(H) THEN ApplyTo(ev.preLed, Id(H), Op(H)) ELSE ev.preLed

LedType == DOMAIN led = Parties

Inv == TypeOK /\ LedType /\ EvalInv

LEMMA HIs == /\ H.p = ev.p /\ H.first = ev.first /\ H.b = ev.b /\ H.prefix = ev.acc /\ H.L = ev.preLed /\ H.fx = fx
             /\ H.acc = (ev.pc = "accepted") /\ H.err = ev.err
  BY DEF H

LEMMA SameBlock ==
    ASSUME NEW g, NEW h, h.first = g.first, h.b = g.b, h.prefix = g.prefix, h.L = g.L
    PROVE /\ Id(h) = Id(g) /\ Op(h) = Op(g) /\ Blk(h) = Blk(g)
          /\ Gate(h) <=> Gate(g)
          /\ RuleDefs(h) <=> RuleDefs(g)
          /\ RuleInputs(h) <=> RuleInputs(g)
          /\ RuleCodex(h) <=> RuleCodex(g)
          /\ RuleWitness(h) <=> RuleWitness(g)
          /\ Verdict(h) <=> Verdict(g)
          /\ Known(h) <=> Known(g)
          /\ EWit(h) = EWit(g) /\ EOp(h) = EOp(g) /\ ESeals(h) = ESeals(g)
          /\ MustOp(h) <=> MustOp(g)
          /\ \A e : Why(h, e) <=> Why(g, e)
<1>1. Blk(h) = Blk(g) /\ Op(h) = Op(g) /\ Id(h) = Id(g) /\ Cid(h) = Cid(g) /\ Ins(h) = Ins(g) /\ Dig(h) = Dig(g)
  BY DEF Blk, Op, Id, Cid, Ins, Dig
<1>2. \A a : Revealing(h, a) = Revealing(g, a) /\ Consuming(h, a) = Consuming(g, a)
  BY DEF Revealing, Consuming
<1>3. \A a : (IsLive(h, a) <=> IsLive(g, a)) /\ LiveSeal(h, a) = LiveSeal(g, a)
  BY <1>2 DEF IsLive, LiveSeal
<1>4. Known(h) <=> Known(g)
  BY <1>1 DEF Known
<1>5. Gate(h) <=> Gate(g)
  BY <1>1 DEF Gate
<1>6. RuleDefs(h) <=> RuleDefs(g)
  BY <1>1 DEF RuleDefs
<1>7. RuleInputs(h) <=> RuleInputs(g)
  BY <1>1, <1>3 DEF RuleInputs
<1>8. RuleCodex(h) <=> RuleCodex(g)
  BY <1>1, <1>4 DEF RuleCodex
<1>9. RuleWitness(h) <=> RuleWitness(g)
  BY <1>1, <1>3 DEF RuleWitness
<1>10. MustOp(h) <=> MustOp(g)
  BY <1>4 DEF MustOp
<1>11. EWit(h) = EWit(g) /\ EOp(h) = EOp(g) /\ ESeals(h) = ESeals(g)
  BY <1>1, <1>10 DEF EWit, EOp, ESeals, MustWit, MustSeals
<1>12. \A a : RevealedSeals(h, a) = RevealedSeals(g, a)
  BY <1>2 DEF RevealedSeals
<1>13. UNION {RevealedSeals(h, a) : a \in Ins(h)} = UNION {RevealedSeals(g, a) : a \in Ins(g)}
  BY <1>1, <1>12
<1>14. ASSUME NEW e PROVE Why(h, e) <=> Why(g, e)
  <2>1. Because(h, e) <=> Because(g, e)
    BY <1>1, <1>6, <1>7, <1>8, <1>9, <1>13 DEF Because
  <2>2. TokensOf(h) = TokensOf(g)
    BY <1>1 DEF TokensOf
  <2>3. Culprit(h, e) <=> Culprit(g, e)
    BY <1>1, <1>3, <1>4, <1>6, <2>2 DEF Culprit
  <2> QED BY <2>1, <2>3 DEF Why
<1> QED BY <1>1, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10, <1>11, <1>14 DEF Verdict

LEMMA SameLive ==
    ASSUME NEW g, NEW h, h.prefix = g.prefix, NEW f
    PROVE LiveIs(f, h) <=> LiveIs(f, g)
<1>1. \A a : Revealing(h, a) = Revealing(g, a) /\ Consuming(h, a) = Consuming(g, a)
  BY DEF Revealing, Consuming
<1>2. \A a, i : LiveAt(h, a, i) <=> LiveAt(g, a, i)
  BY <1>1 DEF LiveAt
<1> QED BY <1>1, <1>2 DEF LiveIs

\* While a block is judged nothing changes of what it is judged by.
Stay == /\ ev'.p = ev.p /\ ev'.first = ev.first /\ ev'.b = ev.b /\ ev'.acc = ev.acc /\ ev'.pre = ev.pre
        /\ ev'.preLed = ev.preLed

LEMMA Stays ==
    ASSUME Stay
    PROVE /\ Id(H)' = Id(H) /\ Op(H)' = Op(H) /\ Blk(H)' = Blk(H) /\ Din' = Din
          /\ Gate(H)' <=> Gate(H)
          /\ RuleDefs(H)' <=> RuleDefs(H)
          /\ RuleInputs(H)' <=> RuleInputs(H)
          /\ RuleCodex(H)' <=> RuleCodex(H)
          /\ RuleWitness(H)' <=> RuleWitness(H)
          /\ Verdict(H)' <=> Verdict(H)
          /\ Known(H)' <=> Known(H)
          /\ EWit(H)' = EWit(H) /\ EOp(H)' = EOp(H) /\ ESeals(H)' = ESeals(H)
          /\ MustOp(H)' <=> MustOp(H)
          /\ LiveIs(ev.pre, H)' <=> LiveIs(ev.pre, H)
<1>1. H'.first = H.first /\ H'.b = H.b /\ H'.prefix = H.prefix /\ H'.L = H.L /\ ev'.pre = ev.pre
  BY HIs DEF Stay, H
<1> HIDE DEF H
<1>2. LiveIs(ev'.pre, H') <=> LiveIs(ev.pre, H)
  BY <1>1, SameLive
<1>3. Din' = Din
  BY DEF Stay, Din
<1> QED BY <1>1, <1>2, <1>3, SameBlock DEF Id, Op, Blk, Gate, RuleDefs, RuleInputs, RuleCodex, RuleWitness, Verdict, Known, EWit, EOp, ESeals, MustOp

-----------------------------------------------------------------------------
(* Initially, and between evaluations *)

LEMMA InvInit == ASSUME NEW g, InitWith(g) PROVE Inv
  BY TypeInit DEF InitWith, Inv, LedType, EvalInv, NoEval

LEMMA EmptyPrefix == ASSUME NEW h, h.prefix = <<>> PROVE LiveIs(EmptyFcn, h)
  BY DEF LiveIs, EmptyFcn, Revealing, Consuming, LiveAt

LEMMA StepBegin == ASSUME Inv, NEW p \in Parties, Begin(p) PROVE EvalInv'
<1>1. ev' = NewEval(p)
  BY DEF Begin
<1>2. /\ ev'.pc = "read" /\ ev'.p = p /\ ev'.first = TRUE /\ ev'.acc = <<>> /\ ev'.live = EmptyFcn
      /\ ev'.b = 0
  BY <1>1 DEF NewEval
<1>3. LiveIs(ev'.live, H')
  BY <1>2, EmptyPrefix DEF H
<1> QED BY <1>2, <1>3 DEF EvalInv, Steps, AfterGate, AfterDefs, AfterInputs, AfterCodex, AfterWitness, AfterSeals, AfterOperation, Rejected

LEMMA StepRead == ASSUME Inv, NEW b \in DOMAIN Blocks, Read(b) PROVE EvalInv'
<1>1. DOMAIN ev = Fields /\ ev.pc = "read"
  BY DEF Inv, TypeOK, Read, NoEval
<1>2. /\ ev'.pc = "genesis" /\ ev'.p = ev.p /\ ev'.first = ev.first /\ ev'.acc = ev.acc /\ ev'.live = ev.live
      /\ ev'.b = b /\ ev'.pre = ev.live /\ ev'.preLed = led[ev.p] /\ fx' = <<>> /\ led' = led
  BY <1>1 DEF Read, Fields
<1>3. H'.prefix = H.prefix
  BY <1>2 DEF H
<1>4. LiveIs(ev.live, H)
  BY <1>1 DEF Inv, EvalInv
<1>5. LiveIs(ev'.pre, H')
  BY <1>2, <1>3, <1>4, SameLive
<1> QED BY <1>1, <1>2, <1>5 DEF EvalInv, Inv, Steps, AfterGate, AfterDefs, AfterInputs, AfterCodex, AfterWitness, AfterSeals, AfterOperation, Rejected

LEMMA StepReadEnd == ASSUME Inv, ReadEnd \/ ReadFail PROVE EvalInv'
<1>1. DOMAIN ev = Fields /\ ev.pc = "read"
  BY DEF Inv, TypeOK, ReadEnd, ReadFail, NoEval
<1>2. /\ ev'.pc = "done" /\ ev'.p = ev.p /\ ev'.first = ev.first /\ ev'.acc = ev.acc /\ ev'.b = 0
  BY <1>1 DEF ReadEnd, ReadFail, Fields
<1> QED BY <1>1, <1>2 DEF EvalInv, Inv, Steps, AfterGate, AfterDefs, AfterInputs, AfterCodex, AfterWitness, AfterSeals, AfterOperation, Rejected

-----------------------------------------------------------------------------
(* The steps of a block *)

\* A block is rejected.
LEMMA StepReject ==
    ASSUME Inv, NEW e, Reject(e), ev.pc \in {"genesis", "defs", "inputs", "codex", "witness"}, ~Verdict(H), Why(H, e)
    PROVE EvalInv'
<1>1. DOMAIN ev = Fields /\ ev.b \in DOMAIN Blocks
  BY DEF Inv, TypeOK, NoEval, Steps
<1>2. Stay /\ ev'.pc = "done" /\ led' = led /\ fx' = fx /\ ev'.err = e
  BY <1>1 DEF Reject, Fields, Stay
<1>3. LiveIs(ev.pre, H)' /\ ~Verdict(H)'
  BY <1>2, Stays DEF Inv, EvalInv, Steps
<1>4. Why(H, ev.err)'
  <2>1. H'.first = H.first /\ H'.b = H.b /\ H'.prefix = H.prefix /\ H'.L = H.L
    BY <1>2 DEF Stay, H
  <2>2. Why(H', e)
    BY <2>1, SameBlock
  <2> QED BY <1>2, <2>2
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF Stay, EvalInv, Inv, Steps, AfterGate, AfterDefs, AfterInputs, AfterCodex, AfterWitness, AfterSeals, AfterOperation, Rejected

\* The machine moves on within a block.
LEMMA InBlock == ASSUME Inv, ev.pc \in Steps PROVE DOMAIN ev = Fields /\ ev.b \in DOMAIN Blocks /\ B = Blk(H) /\ B.op = Op(H) /\ Blocks[ev.b] = B
  BY HIs DEF Inv, TypeOK, NoEval, Steps, B, Blk, Op

LEMMA InEval == ASSUME Inv, ev.pc \in Steps PROVE ev.acc \in Seq(AccRec) /\ H.prefix \in Seq(AccRec) /\ (ev.pc # "genesis" => ev.id \in Ids)
<1>1. ev.acc \in Seq(AccRec) /\ (ev.pc # "genesis" => ev.id \in Ids)
  BY DEF Inv, TypeOK, NoEval, Steps
<1> QED BY <1>1, HIs

\* What is reported one after the other
LEMMA Effects_ ==
    ASSUME NEW h
    PROVE /\ Append(EWit(h), <<"op", Id(h), Dig(h)>>) = EWit(h) \o <<<<"op", Id(h), Dig(h)>>>>
          /\ EWit(h) \o <<>> = EWit(h)
          /\ Append(EWit(h) \o EOp(h), <<"seals", Id(h), Blk(h).sdig>>) = EWit(h) \o EOp(h) \o <<<<"seals", Id(h), Blk(h).sdig>>>>
          /\ EWit(h) \o EOp(h) \o <<>> = EWit(h) \o EOp(h)
<1> DEFINE w == <<"wit", Id(h), Blk(h).wdig>>
           o == <<"op", Id(h), Dig(h)>>
           s == <<"seals", Id(h), Blk(h).sdig>>
           S == {w, o, s}
<1>1. EWit(h) \in Seq(S) /\ EOp(h) \in Seq(S) /\ o \in S /\ s \in S
  <2>1. EWit(h) = <<w>> \/ EWit(h) = <<>>
    BY DEF EWit
  <2>2. EOp(h) = <<o>> \/ EOp(h) = <<>>
    BY DEF EOp
  <2> HIDE DEF w, o, s
  <2> QED BY <2>1, <2>2
<1> HIDE DEF w, o, s, S
<1>2. EWit(h) \o EOp(h) \in Seq(S)
  BY <1>1, ConcatProperties
<1>3. \A q \in Seq(S), e \in S : Append(q, e) = q \o <<e>> /\ q \o <<>> = q
  BY AppendIsConcat, ConcatEmptySeq
<1>4. Append(EWit(h), o) = EWit(h) \o <<o>> /\ EWit(h) \o <<>> = EWit(h)
      /\ Append(EWit(h) \o EOp(h), s) = EWit(h) \o EOp(h) \o <<s>> /\ EWit(h) \o EOp(h) \o <<>> = EWit(h) \o EOp(h)
  BY <1>1, <1>2, <1>3
<1> QED BY <1>4 DEF o, s

LEMMA StepGenesis == ASSUME Inv, GenesisGate PROVE EvalInv'
<1>1. ev.pc = "genesis" /\ ev.pc \in Steps
  BY DEF GenesisGate, Steps
<1>2. DOMAIN ev = Fields /\ ev.b \in DOMAIN Blocks /\ B.op = Op(H)
  BY <1>1, InBlock
<1>3. CASE ev.first /\ B.op.cid # "codex"
  <2>1. Reject([k |-> "NoCodex"])
    BY <1>1, <1>3 DEF GenesisGate
  <2>2. ~Verdict(H) /\ Why(H, [k |-> "NoCodex"])
    BY <1>2, <1>3, HIs DEF Verdict, Gate, Why, Because, Culprit
  <2> QED BY <1>1, <2>1, <2>2, StepReject
<1>4. CASE ~(ev.first /\ B.op.cid # "codex")
  <2>1. Stay /\ ev'.pc = "defs" /\ led' = led /\ fx' = fx /\ ev'.live = ev.live /\ ev'.id = IF ev.first THEN B.op.gid ELSE B.op.id
    BY <1>1, <1>2, <1>4 DEF GenesisGate, Fields, Stay
  <2>2. ev'.id = Id(H) /\ Gate(H)
    BY <1>2, <1>4, <2>1, HIs DEF Id, Gate
  <2>3. ev'.id = Id(H)' /\ Gate(H)' /\ LiveIs(ev.pre, H)'
    BY <1>1, <2>1, <2>2, Stays DEF Inv, EvalInv
  <2> QED BY <1>1, <1>2, <2>1, <2>3 DEF Stay, EvalInv, Inv, Steps, AfterGate, AfterDefs, AfterInputs, AfterCodex, AfterWitness, AfterSeals, AfterOperation, Rejected
<1> QED BY <1>3, <1>4

LEMMA StepDefs == ASSUME Inv, CheckDefs PROVE EvalInv'
<1>1. ev.pc = "defs" /\ ev.pc \in Steps
  BY DEF CheckDefs, Steps
<1>2. DOMAIN ev = Fields /\ ev.b \in DOMAIN Blocks /\ B.op = Op(H) /\ B = Blk(H) /\ B = Blocks[ev.b]
  BY <1>1, InBlock
<1>3. DefsMatch(B) <=> RuleDefs(H)
  <2>1. \A e \in SRange(B.seals) : e.pos \in Nat
    BY <1>2, BlocksOK DEF SRange
  <2>2. \A e \in SRange(B.seals) : e.pos + 1 \in DOMAIN B.op.dout <=> e.pos < Len(B.op.dout)
    BY <1>2, <2>1, BlocksOK
  <2> QED BY <1>2, <2>1, <2>2 DEF DefsMatch, RuleDefs
<1>4. CASE ~DefsMatch(B)
  <2> DEFINE e == [k |-> "Mismatch", op |-> ev.id,
                   reported |-> {x.d.tok : x \in SRange(B.seals)},
                   defined |-> {c.tok : c \in SRange(B.op.dout)},
                   sources |-> {<<x.pos, x.s>> : x \in SRange(B.seals)}]
  <2>1. Reject(e)
    BY <1>1, <1>4 DEF CheckDefs
  <2>2. ~Verdict(H)
    BY <1>3, <1>4 DEF Verdict
  <2>3. ev.id = Id(H)
    BY <1>1 DEF Inv, EvalInv, AfterGate
  <2>4. Why(H, e)
    BY <1>2, <1>3, <1>4, <2>3 DEF Why, Because, Culprit, TokensOf
  <2> HIDE DEF e
  <2> QED BY <1>1, <2>1, <2>2, <2>4, StepReject
<1>5. CASE DefsMatch(B)
  <2>1. Stay /\ ev'.pc = "inputs" /\ led' = led /\ fx' = fx /\ ev'.live = ev.live /\ ev'.id = ev.id
    BY <1>1, <1>2, <1>5 DEF CheckDefs, Fields, Stay
  <2>2. ev'.id = Id(H)' /\ Gate(H)' /\ LiveIs(ev.pre, H)' /\ RuleDefs(H)'
    BY <1>1, <1>3, <1>5, <2>1, Stays DEF Inv, EvalInv, AfterGate
  <2> QED BY <1>1, <1>2, <2>1, <2>2 DEF Stay, EvalInv, Inv, Steps, AfterGate, AfterDefs, AfterInputs, AfterCodex, AfterWitness, AfterSeals, AfterOperation, Rejected
<1> QED BY <1>4, <1>5

LEMMA StepInputs == ASSUME Inv, CloseInputs PROVE EvalInv'
<1>1. ev.pc = "inputs" /\ ev.pc \in Steps
  BY DEF CloseInputs, Steps
<1>2. DOMAIN ev = Fields /\ ev.b \in DOMAIN Blocks /\ B.op = Op(H) /\ B = Blk(H) /\ B = Blocks[ev.b]
  BY <1>1, InBlock
<1> DEFINE din == B.op.din
           free(i) == din[i] \in DOMAIN ev.live /\ \A j \in 1..(i - 1) : din[j] # din[i]
           bad == {i \in DOMAIN din : ~free(i)}
<1>3. din \in Seq(Cells) /\ Len(din) \in Nat /\ DOMAIN din = 1..Len(din) /\ \A i \in DOMAIN din : din[i] \in Cells
  <2>1. din \in Seq(Cells)
    BY <1>2, BlocksOK
  <2> HIDE DEF din
  <2> QED BY <2>1, LenProperties, ElementOfSeq
<1>4. ev.live = ev.pre /\ LiveIs(ev.pre, H) /\ H.prefix \in Seq(AccRec)
  BY <1>1, InEval DEF Inv, EvalInv, Steps
<1>5. \A a \in Cells : a \in DOMAIN ev.live <=> IsLive(H, a)
  BY <1>4, LiveMeans
<1>6. NoDup(din) <=> \A i \in DOMAIN din : \A j \in 1..(i - 1) : din[j] # din[i]
  <2>1. NoDup(din) <=> \A i, j \in DOMAIN din : din[i] = din[j] => i = j
    BY <1>3, NoDupMeans
  <2> HIDE DEF din
  <2>2. ASSUME NEW i \in DOMAIN din, NEW j \in DOMAIN din, i # j, \A k \in DOMAIN din : \A l \in 1..(k - 1) : din[l] # din[k]
        PROVE din[i] # din[j]
    <3>1. i \in 1..(j - 1) \/ j \in 1..(i - 1)
      BY <1>3, <2>2
    <3> QED BY <2>2, <3>1
  <2>3. ASSUME NEW i \in DOMAIN din, NEW j \in 1..(i - 1) PROVE j \in DOMAIN din /\ j # i
    BY <1>3, <2>3
  <2> QED BY <2>1, <2>2, <2>3
<1>7. RuleInputs(H) <=> bad = {}
  <2>1. RuleInputs(H) <=> NoDup(din) /\ \A i \in DOMAIN din : IsLive(H, din[i])
    BY <1>2 DEF RuleInputs, Ins, SRange
  <2>2. RuleInputs(H) <=> NoDup(din) /\ \A i \in DOMAIN din : din[i] \in DOMAIN ev.live
    BY <1>3, <1>5, <2>1
  <2> QED BY <1>6, <2>2
<1>8. CASE bad # {}
  <2> DEFINE n == CHOOSE i \in bad : \A j \in bad : i <= j
             e == [k |-> "SealUnknown", addr |-> din[n]]
  <2>1. Reject(e)
    BY <1>8 DEF CloseInputs
  <2>2. ~Verdict(H)
    BY <1>7, <1>8 DEF Verdict
  <2>3. n \in bad
    <3>1. bad \subseteq Nat
      BY <1>3
    <3> HIDE DEF bad
    <3> QED BY <1>8, <3>1, SmallestOf
  <2> HIDE DEF n
  <2>4. n \in DOMAIN din /\ din[n] \in Ins(H)
    BY <1>2, <2>3 DEF Ins, SRange
  <2>5. ~IsLive(H, din[n]) \/ ~NoDup(din)
    BY <1>3, <1>5, <1>6, <2>3, <2>4
  <2>6. ~RuleInputs(H)
    BY <1>7, <1>8
  <2>7. Why(H, e)
    BY <1>2, <2>4, <2>5, <2>6 DEF Why, Because, Culprit
  <2> HIDE DEF e
  <2> QED BY <1>1, <2>1, <2>2, <2>7, StepReject
<1>9. CASE bad = {}
  <2>1. /\ ev' = [ev EXCEPT !.pc = "codex", !.closed = [i \in DOMAIN din |-> ev.live[din[i]]], !.live = Without(ev.live, SRange(din))]
        /\ UNCHANGED <<led, fx>>
    BY <1>9 DEF CloseInputs
  <2>2. /\ Stay /\ ev'.pc = "codex" /\ led' = led /\ fx' = fx /\ ev'.live = Without(ev.live, SRange(din)) /\ ev'.id = ev.id
        /\ ev'.closed = [i \in DOMAIN din |-> ev.live[din[i]]]
    BY <1>2, <2>1 DEF Fields, Stay
  <2>3. din = Din /\ Din' = Din /\ ev'.pre = ev.pre
    BY <1>2, <2>2, Stays DEF Din, Stay
  <2>4. ev'.live = Without(ev.pre, SRange(Din))' /\ ev'.closed = [i \in DOMAIN Din |-> ev.pre[Din[i]]]'
    BY <1>4, <2>2, <2>3
  <2>5. ev'.id = Id(H)' /\ Gate(H)' /\ LiveIs(ev.pre, H)' /\ RuleDefs(H)' /\ RuleInputs(H)'
    BY <1>1, <1>7, <1>9, <2>2, Stays DEF Inv, EvalInv, AfterGate, AfterDefs, Steps
  <2> HIDE DEF din
  <2> QED BY <1>1, <1>2, <2>2, <2>4, <2>5 DEF Stay, EvalInv, Inv, Steps, AfterGate, AfterDefs, AfterInputs, AfterCodex, AfterWitness, AfterSeals, AfterOperation, Rejected
<1> QED BY <1>8, <1>9

LEMMA StepKnown == ASSUME Inv, VerifyKnown PROVE EvalInv'
<1>1. ev.pc = "codex" /\ ev.pc \in Steps /\ ev.pc \in AfterInputs /\ ev.pc \in Steps \ AfterOperation /\ ev.pc \in AfterGate
  BY DEF VerifyKnown, Steps, AfterInputs, AfterOperation, AfterGate
<1>2. DOMAIN ev = Fields /\ ev.b \in DOMAIN Blocks /\ B.op = Op(H) /\ B = Blk(H) /\ B = Blocks[ev.b]
  BY <1>1, InBlock
<1>3. led[ev.p] = ev.preLed /\ ev.id = Id(H)
  BY <1>1 DEF Inv, EvalInv
<1>4. Known(H)
  BY <1>3, HIs DEF VerifyKnown, Known
<1>5. Stay /\ ev'.pc = "witness" /\ led' = led /\ fx' = fx /\ ev'.live = ev.live /\ ev'.id = ev.id /\ ev'.closed = ev.closed /\ ev'.isnew = FALSE
  BY <1>2 DEF VerifyKnown, Fields, Stay
<1>6. RuleCodex(H)
  BY <1>4 DEF RuleCodex
<1>7. /\ ev'.id = Id(H)' /\ Gate(H)' /\ LiveIs(ev.pre, H)' /\ RuleDefs(H)' /\ RuleInputs(H)' /\ RuleCodex(H)' /\ ev'.isnew = ~Known(H)'
  BY <1>1, <1>4, <1>5, <1>6, Stays DEF Inv, EvalInv, AfterGate, AfterDefs, AfterInputs, Steps
<1>8. ev'.live = Without(ev.pre, SRange(Din))' /\ ev'.closed = [i \in DOMAIN Din |-> ev.pre[Din[i]]]'
  BY <1>1, <1>5, Stays DEF Inv, EvalInv, Stay
<1> QED BY <1>1, <1>2, <1>5, <1>7, <1>8 DEF Stay, EvalInv, Inv, Steps, AfterGate, AfterDefs, AfterInputs, AfterCodex, AfterWitness, AfterSeals, AfterOperation, Rejected

LEMMA FirstMissing ==
    ASSUME NEW s, DOMAIN s \subseteq Nat, NEW D, \E x \in SRange(s) : x \notin D
    PROVE LET n == CHOOSE i \in DOMAIN s : s[i] \notin D /\ \A j \in DOMAIN s : j < i => ~(s[j] \notin D)
          IN s[n] \in SRange(s) /\ s[n] \notin D
<1> DEFINE S == {i \in DOMAIN s : s[i] \notin D}
<1>1. S \subseteq Nat /\ S # {}
  BY DEF SRange
<1>2. \E i \in DOMAIN s : s[i] \notin D /\ \A j \in DOMAIN s : j < i => ~(s[j] \notin D)
  <2>1. PICK i \in S : \A j \in S : i <= j
    <3> HIDE DEF S
    <3> QED BY <1>1, MinOf
  <2>2. i \in DOMAIN s /\ s[i] \notin D /\ i \in Nat
    BY <1>1, <2>1
  <2>3. ASSUME NEW j \in DOMAIN s, j < i PROVE ~(s[j] \notin D)
    <3>1. j \in Nat
      OBVIOUS
    <3>2. j \notin S
      BY <1>1, <2>1, <2>2, <2>3, <3>1
    <3> QED BY <3>2
  <2> QED BY <2>2, <2>3
<1> DEFINE n == CHOOSE i \in DOMAIN s : s[i] \notin D /\ \A j \in DOMAIN s : j < i => ~(s[j] \notin D)
<1>3. n \in DOMAIN s /\ s[n] \notin D
  BY <1>2
<1> QED BY <1>3 DEF SRange

\* What the codex blames is to blame.
LEMMA CodexCulprit ==
    ASSUME NEW L, NEW op, NEW cid, DOMAIN op.din \subseteq Nat, DOMAIN op.iin \subseteq Nat
    PROVE LET v == CodexVerdict(L, op, cid) IN
          /\ v.k = "WrongContract" => cid # "own" /\ v.exp = "own" /\ v.found = cid
          /\ v.k = "NoReadOnce" => v.addr \in SRange(op.din) /\ v.addr \notin DOMAIN L.dmem
          /\ v.k = "NoImmutable" => v.addr \in SRange(op.iin) /\ v.addr \notin L.imm
          /\ v.k = "NotFound" => op.call = "none"
          /\ v.k = "Script" => op.call = "fail"
          /\ v.k = "Lock" => \E a \in SRange(op.din) \cap DOMAIN L.dmem : L.dmem[a] = "bad"
          /\ v.k \in {"none", "WrongContract", "NoReadOnce", "NoImmutable", "NotFound", "Script", "Lock"}
          /\ v.k = "none" => v = NoErr
<1> DEFINE missD(a) == a \notin DOMAIN L.dmem
           missI(a) == a \notin L.imm
           d == FirstIn(op.din, missD)
           i == FirstIn(op.iin, missI)
<1>1. (\E a \in SRange(op.din) : a \notin DOMAIN L.dmem) => d \in SRange(op.din) /\ d \notin DOMAIN L.dmem
  BY FirstMissing DEF FirstIn
<1>2. (\E a \in SRange(op.iin) : a \notin L.imm) => i \in SRange(op.iin) /\ i \notin L.imm
  BY FirstMissing DEF FirstIn
<1>3. CodexVerdict(L, op, cid) =
         IF cid # "own" THEN [k |-> "WrongContract", exp |-> "own", found |-> cid]
         ELSE IF \E a \in SRange(op.din) : a \notin DOMAIN L.dmem THEN [k |-> "NoReadOnce", addr |-> d]
         ELSE IF \E a \in SRange(op.iin) : a \notin L.imm THEN [k |-> "NoImmutable", addr |-> i]
         ELSE IF op.call = "none" THEN [k |-> "NotFound"]
         ELSE IF op.call = "fail" THEN [k |-> "Script"]
         ELSE IF \E a \in SRange(op.din) : L.dmem[a] = "bad" THEN [k |-> "Lock"]
         ELSE NoErr
  BY DEF CodexVerdict
<1> HIDE DEF d, i
<1> DEFINE v == CodexVerdict(L, op, cid)
<1> HIDE DEF v
<1>4. CASE cid # "own"
  BY <1>3, <1>4 DEF v
<1>5. CASE cid = "own" /\ \E a \in SRange(op.din) : a \notin DOMAIN L.dmem
  BY <1>1, <1>3, <1>5 DEF v
<1>6. CASE cid = "own" /\ ~(\E a \in SRange(op.din) : a \notin DOMAIN L.dmem) /\ \E a \in SRange(op.iin) : a \notin L.imm
  BY <1>2, <1>3, <1>6 DEF v
<1>7. CASE cid = "own" /\ ~(\E a \in SRange(op.din) : a \notin DOMAIN L.dmem) /\ ~(\E a \in SRange(op.iin) : a \notin L.imm)
  BY <1>3, <1>7 DEF v, NoErr
<1> QED BY <1>4, <1>5, <1>6, <1>7 DEF v

LEMMA StepNew == ASSUME Inv, VerifyNew PROVE EvalInv'
<1>1. ev.pc = "codex" /\ ev.pc \in Steps /\ ev.pc \in AfterInputs /\ ev.pc \in Steps \ AfterOperation /\ ev.pc \in AfterGate
  BY DEF VerifyNew, Steps, AfterInputs, AfterOperation, AfterGate
<1>2. DOMAIN ev = Fields /\ ev.b \in DOMAIN Blocks /\ B.op = Op(H) /\ B = Blk(H) /\ B = Blocks[ev.b]
  BY <1>1, InBlock
<1>3. led[ev.p] = ev.preLed /\ ev.id = Id(H)
  BY <1>1 DEF Inv, EvalInv
<1>4. ~Known(H)
  BY <1>3, HIs DEF VerifyNew, Known
<1> DEFINE v == CodexVerdict(led[ev.p], B.op, EffCid)
<1>5. EffCid = Cid(H)
  BY <1>2, HIs DEF EffCid, Cid
<1>6. RuleCodex(H) <=> v = NoErr
  BY <1>2, <1>3, <1>4, <1>5, HIs DEF RuleCodex
<1> HIDE DEF v
<1>7. CASE v # NoErr
  <2>1. Reject(v)
    BY <1>7 DEF VerifyNew, v
  <2>2. ~Verdict(H)
    BY <1>6, <1>7 DEF Verdict
  <2>3. v.k \in {"none", "WrongContract", "NoReadOnce", "NoImmutable", "NotFound", "Script", "Lock"}
    BY DEF v, CodexVerdict, NoErr
  <2>4. Because(H, v)
    BY <1>6, <1>7, <2>3 DEF Because
  <2>5. H.L = led[ev.p] /\ SRange(B.op.din) = Ins(H)
    BY <1>2, <1>3, HIs DEF Ins
  <2>6. Culprit(H, v)
    <3>1. DOMAIN B.op.din \subseteq Nat /\ DOMAIN B.op.iin \subseteq Nat
      BY <1>2, BlocksOK
    <3>2. /\ v.k = "WrongContract" => EffCid # "own" /\ v.exp = "own" /\ v.found = EffCid
          /\ v.k = "NoReadOnce" => v.addr \in SRange(B.op.din) /\ v.addr \notin DOMAIN led[ev.p].dmem
          /\ v.k = "NoImmutable" => v.addr \in SRange(B.op.iin) /\ v.addr \notin led[ev.p].imm
          /\ v.k = "NotFound" => B.op.call = "none"
          /\ v.k = "Script" => B.op.call = "fail"
          /\ v.k = "Lock" => \E a \in SRange(B.op.din) \cap DOMAIN led[ev.p].dmem : led[ev.p].dmem[a] = "bad"
          /\ v.k = "none" => v = NoErr
      BY <3>1, CodexCulprit DEF v
    <3> QED BY <1>2, <1>4, <1>5, <1>7, <2>3, <2>5, <3>2 DEF Culprit
  <2>7. Why(H, v)
    BY <2>4, <2>6 DEF Why
  <2> QED BY <1>1, <2>1, <2>2, <2>7, StepReject
<1>8. CASE v = NoErr
  <2>5. Stay /\ ev'.pc = "witness" /\ led' = led /\ fx' = fx /\ ev'.live = ev.live /\ ev'.id = ev.id /\ ev'.closed = ev.closed /\ ev'.isnew = TRUE
    BY <1>2, <1>8 DEF VerifyNew, Fields, Stay, v
  <2>7. /\ ev'.id = Id(H)' /\ Gate(H)' /\ LiveIs(ev.pre, H)' /\ RuleDefs(H)' /\ RuleInputs(H)' /\ RuleCodex(H)' /\ ev'.isnew = ~Known(H)'
    BY <1>1, <1>4, <1>6, <1>8, <2>5, Stays DEF Inv, EvalInv, AfterGate, AfterDefs, AfterInputs, Steps
  <2>8. ev'.live = Without(ev.pre, SRange(Din))' /\ ev'.closed = [i \in DOMAIN Din |-> ev.pre[Din[i]]]'
    BY <1>1, <2>5, Stays DEF Inv, EvalInv, Stay
  <2> QED BY <1>1, <1>2, <2>5, <2>7, <2>8 DEF Stay, EvalInv, Inv, Steps, AfterGate, AfterDefs, AfterInputs, AfterCodex, AfterWitness, AfterSeals, AfterOperation, Rejected
<1> QED BY <1>7, <1>8

LEMMA StepWitness == ASSUME Inv, CheckWitness PROVE EvalInv'
<1>1. ev.pc = "witness" /\ ev.pc \in Steps /\ ev.pc \in AfterInputs /\ ev.pc \in Steps \ AfterOperation /\ ev.pc \in AfterGate
      /\ ev.pc \in AfterCodex /\ ev.pc \in AfterDefs
  BY DEF CheckWitness, Steps, AfterInputs, AfterOperation, AfterGate, AfterCodex, AfterDefs
<1>2. DOMAIN ev = Fields /\ ev.b \in DOMAIN Blocks /\ B.op = Op(H) /\ B = Blk(H) /\ B = Blocks[ev.b]
  BY <1>1, InBlock
<1>3. /\ ev.id = Id(H) /\ Gate(H) /\ RuleDefs(H) /\ RuleInputs(H) /\ RuleCodex(H) /\ LiveIs(ev.pre, H) /\ fx = <<>>
      /\ ev.closed = [i \in DOMAIN Din |-> ev.pre[Din[i]]] /\ H.prefix \in Seq(AccRec)
      /\ ev.live = Without(ev.pre, SRange(Din)) /\ ev.isnew = ~Known(H) /\ led[ev.p] = ev.preLed
  BY <1>1, InEval DEF Inv, EvalInv, Steps, AfterWitness, AfterCodex, AfterOperation, AfterGate, AfterDefs, AfterInputs
<1>4. Din = B.op.din /\ Din \in Seq(Cells) /\ DOMAIN Din = 1..Len(Din) /\ Len(Din) \in Nat
  <2>1. Din = B.op.din /\ Din \in Seq(Cells)
    BY <1>2, BlocksOK DEF Din
  <2> QED BY <2>1, LenProperties
<1>5. \A i \in DOMAIN Din : /\ Din[i] \in Cells /\ ev.pre[Din[i]] = LiveSeal(H, Din[i])
                            /\ LiveSeal(H, Din[i]) \in RevealedSeals(H, Din[i])
  <2> TAKE i \in DOMAIN Din
  <2>1. Din[i] \in Cells
    BY <1>4, ElementOfSeq
  <2>2. IsLive(H, Din[i])
    BY <1>2, <1>3, <1>4 DEF RuleInputs, Ins, SRange
  <2>3. Din[i] \in DOMAIN ev.pre
    BY <2>1, <2>2, <1>3, LiveMeans
  <2> QED BY <2>1, <2>3, <1>3, LiveMeans
<1>6. ev.closed = <<>> <=> Din = <<>>
  <2>1. ev.closed = <<>> => DOMAIN Din = {}
    BY <1>3, <1>4
  <2>2. DOMAIN Din = {} => Din = <<>>
    BY <1>4, EmptySeq
  <2>3. Din = <<>> => ev.closed = <<>>
    BY <1>3, <1>4
  <2> QED BY <2>1, <2>2, <2>3
<1>7. Closes(B.wit, ev.closed, ev.id) <=> /\ \A a \in Ins(H) : Included(LiveSeal(H, a), Id(H), Blk(H).wit)
                                          /\ Commits(Blk(H).wit, Id(H))
  <2>1. SRange(ev.closed) = {LiveSeal(H, a) : a \in Ins(H)}
    BY <1>2, <1>3, <1>4, <1>5 DEF SRange, Ins
  <2> QED BY <1>2, <1>3, <2>1 DEF Closes
<1>8. RuleWitness(H) <=> IF B.haswit THEN Closes(B.wit, ev.closed, ev.id) ELSE ev.closed = <<>>
  BY <1>2, <1>4, <1>6, <1>7 DEF RuleWitness
<1>9. CASE ~RuleWitness(H)
  <2>1. ~Verdict(H)
    BY <1>9 DEF Verdict
  <2>2. \E e : Reject(e) /\ Why(H, e)
    <3>1. CASE ~B.haswit
      <4>1. Reject([k |-> "NoWitness", op |-> ev.id])
        BY <1>8, <1>9, <3>1 DEF CheckWitness
      <4>2. Din # <<>>
        BY <1>6, <1>8, <1>9, <3>1
      <4>3. Ins(H) # {}
        BY <1>2, <1>4, <4>2, EmptySeq DEF Ins, SRange
      <4>4. Why(H, [k |-> "NoWitness", op |-> ev.id])
        BY <1>2, <1>3, <1>9, <3>1, <4>3 DEF Why, Because, Culprit
      <4> QED BY <4>1, <4>4
    <3>2. CASE B.haswit
      <4> DEFINE e == SealErr(ev.closed, ev.id, B.wit)
                 out == {i \in DOMAIN ev.closed : ~Included(ev.closed[i], ev.id, B.wit)}
                 k == CHOOSE i \in out : \A j \in out : i <= j
      <4>1. Reject(e)
        BY <1>8, <1>9, <3>2 DEF CheckWitness
      <4>2. CASE out # {}
        <5>1. out \subseteq DOMAIN Din /\ DOMAIN ev.closed = DOMAIN Din
          BY <1>3
        <5>2. k \in out
          <6>1. out \subseteq Nat
            BY <5>1, <1>4
          <6> HIDE DEF out
          <6> QED BY <4>2, <6>1, SmallestOf
        <5>3. /\ e.k = "NotIncluded" /\ e.seal = ev.closed[k] /\ e.op = ev.id /\ e.w = B.wit.id /\ e.w2 = B.wit.id
              /\ ~Included(e.seal, ev.id, B.wit)
          BY <4>2, <5>2 DEF SealErr
        <5>4. ev.closed[k] = LiveSeal(H, Din[k]) /\ Din[k] \in Ins(H) /\ Din[k] \in Cells
          BY <1>2, <1>3, <1>4, <1>5, <5>1, <5>2 DEF Ins, SRange
        <5>5. LiveSeal(H, Din[k]) \in RevealedSeals(H, Din[k])
          BY <1>5, <5>1, <5>2
        <5>6. e.seal \in UNION {RevealedSeals(H, a) : a \in Ins(H)}
          BY <5>3, <5>4, <5>5
        <5>7. IsLive(H, Din[k]) /\ Din[k] \in Ins(H) /\ LiveSeal(H, Din[k]) = e.seal
          BY <1>3, <5>3, <5>4 DEF RuleInputs
        <5>8. \E a \in Ins(H) : IsLive(H, a) /\ LiveSeal(H, a) = e.seal
          BY <5>7
        <5> HIDE DEF e
        <5>9. Because(H, e)
          BY <1>3, <1>9, <5>3, <5>6 DEF Because
        <5>10. Culprit(H, e)
          BY <1>2, <1>3, <3>2, <5>3, <5>8 DEF Culprit
        <5> QED BY <4>1, <5>9, <5>10 DEF Why
      <4>3. CASE out = {}
        <5>1. e.k = "BadCommitment" /\ e.op = ev.id /\ e.w = B.wit.id
          BY <4>3 DEF SealErr
        <5>2. ~Commits(B.wit, ev.id)
          <6>1. ~Closes(B.wit, ev.closed, ev.id)
            BY <1>8, <1>9, <3>2
          <6>2. \A i \in DOMAIN ev.closed : Included(ev.closed[i], ev.id, B.wit)
            BY <4>3
          <6> QED BY <6>1, <6>2 DEF Closes, SRange
        <5> HIDE DEF e
        <5> QED BY <1>2, <1>3, <1>9, <3>2, <4>1, <5>1, <5>2 DEF Why, Because, Culprit
      <4> QED BY <4>2, <4>3
    <3> QED BY <3>1, <3>2
  <2> QED BY <1>1, <2>1, <2>2, StepReject
<1>10. CASE RuleWitness(H)
  <2>1. \/ B.haswit /\ ev' = [ev EXCEPT !.pc = "applyWitness"] /\ UNCHANGED <<led, fx>>
        \/ ~B.haswit /\ ev' = [ev EXCEPT !.pc = "seals"] /\ UNCHANGED <<led, fx>>
    BY <1>8, <1>10 DEF CheckWitness
  <2>2. /\ Stay /\ led' = led /\ fx' = fx /\ ev'.live = ev.live /\ ev'.id = ev.id /\ ev'.closed = ev.closed /\ ev'.isnew = ev.isnew
        /\ ev'.pc = IF B.haswit THEN "applyWitness" ELSE "seals"
    BY <1>2, <2>1 DEF Fields, Stay
  <2>3. /\ ev'.id = Id(H)' /\ Gate(H)' /\ LiveIs(ev.pre, H)' /\ RuleDefs(H)' /\ RuleInputs(H)' /\ RuleCodex(H)' /\ ev'.isnew = ~Known(H)'
        /\ RuleWitness(H)'
    BY <1>3, <1>10, <2>2, Stays
  <2>4. ev'.live = Without(ev.pre, SRange(Din))' /\ ev'.closed = [i \in DOMAIN Din |-> ev.pre[Din[i]]]'
    BY <1>3, <2>2, Stays DEF Stay
  <2>5. ~B.haswit => EWit(H)' = <<>>
    BY <1>2, <2>2, Stays DEF EWit, MustWit
  <2>6. ev'.pc = "applyWitness" => Blocks[ev.b].haswit'
    BY <1>2, <2>2 DEF Stay
  <2> QED BY <1>1, <1>2, <1>3, <2>2, <2>3, <2>4, <2>5, <2>6 DEF Stay, EvalInv, Inv, Steps, AfterGate, AfterDefs, AfterInputs, AfterCodex, AfterWitness, AfterSeals, AfterOperation, Rejected
<1> QED BY <1>9, <1>10

LEMMA StepApplyWitness == ASSUME Inv, ApplyWitness PROVE EvalInv'
<1>1. ev.pc = "applyWitness" /\ ev.pc \in Steps
  BY DEF ApplyWitness, Steps
<1>2. DOMAIN ev = Fields /\ ev.b \in DOMAIN Blocks /\ B.op = Op(H) /\ B = Blk(H) /\ B = Blocks[ev.b]
  BY <1>1, InBlock
<1>3. /\ ev.id = Id(H) /\ Gate(H) /\ RuleDefs(H) /\ RuleInputs(H) /\ RuleCodex(H) /\ RuleWitness(H) /\ LiveIs(ev.pre, H) /\ fx = <<>>
      /\ ev.closed = [i \in DOMAIN Din |-> ev.pre[Din[i]]]
      /\ ev.live = Without(ev.pre, SRange(Din)) /\ ev.isnew = ~Known(H) /\ led[ev.p] = ev.preLed /\ B.haswit
  BY <1>1, <1>2 DEF Inv, EvalInv, TypeOK, NoEval, Steps, AfterWitness, AfterCodex, AfterOperation, AfterGate, AfterDefs, AfterInputs
<1>4. fx' = <<<<"wit", ev.id, B.wdig>>>>
  BY <1>3 DEF ApplyWitness
<1>5. /\ Stay /\ led' = led /\ ev'.live = ev.live /\ ev'.id = ev.id /\ ev'.closed = ev.closed /\ ev'.isnew = ev.isnew
      /\ ev'.pc = "seals"
  BY <1>2 DEF ApplyWitness, Fields, Stay
<1>6. /\ ev'.id = Id(H)' /\ Gate(H)' /\ LiveIs(ev.pre, H)' /\ RuleDefs(H)' /\ RuleInputs(H)' /\ RuleCodex(H)' /\ ev'.isnew = ~Known(H)'
      /\ RuleWitness(H)'
  BY <1>3, <1>5, Stays
<1>7. ev'.live = Without(ev.pre, SRange(Din))' /\ ev'.closed = [i \in DOMAIN Din |-> ev.pre[Din[i]]]'
  BY <1>3, <1>5, Stays DEF Stay
<1>8. fx' = EWit(H)'
  BY <1>2, <1>3, <1>4, <1>5, Stays DEF EWit, MustWit
<1> QED BY <1>1, <1>2, <1>3, <1>5, <1>6, <1>7, <1>8 DEF Stay, EvalInv, Inv, Steps, AfterGate, AfterDefs, AfterInputs, AfterCodex, AfterWitness, AfterSeals, AfterOperation, Rejected

LEMMA StepExtend == ASSUME Inv, ExtendSeals PROVE EvalInv'
<1>1. ev.pc = "seals" /\ ev.pc \in Steps
  BY DEF ExtendSeals, Steps
<1>2. DOMAIN ev = Fields /\ ev.b \in DOMAIN Blocks /\ B.op = Op(H) /\ B = Blk(H) /\ B = Blocks[ev.b]
  BY <1>1, InBlock
<1>3. /\ ev.id = Id(H) /\ Gate(H) /\ RuleDefs(H) /\ RuleInputs(H) /\ RuleCodex(H) /\ RuleWitness(H) /\ LiveIs(ev.pre, H) /\ fx = EWit(H)
      /\ ev.closed = [i \in DOMAIN Din |-> ev.pre[Din[i]]]
      /\ ev.live = Without(ev.pre, SRange(Din)) /\ ev.isnew = ~Known(H) /\ led[ev.p] = ev.preLed
  BY <1>1, <1>2 DEF Inv, EvalInv, TypeOK, NoEval, Steps, AfterWitness, AfterCodex, AfterOperation, AfterGate, AfterDefs, AfterInputs
<1> DEFINE v == Over(NewSeals(ev.id, B), ev.live)
<1>4. ev' = [ev EXCEPT !.pc = "applyOperation", !.live = v] /\ led' = led /\ fx' = fx
  BY DEF ExtendSeals
<1>5. v = Over(NewSeals(ev.id, Blocks[ev.b]), Without(ev.pre, SRange(Din)))
  BY <1>2, <1>3
<1> HIDE DEF v
<1>6. /\ Stay /\ led' = led /\ ev'.live = v /\ ev'.id = ev.id /\ ev'.closed = ev.closed /\ ev'.isnew = ev.isnew
      /\ ev'.pc = "applyOperation"
  BY <1>2, <1>4 DEF Fields, Stay
<1>7. /\ ev'.id = Id(H)' /\ Gate(H)' /\ LiveIs(ev.pre, H)' /\ RuleDefs(H)' /\ RuleInputs(H)' /\ RuleCodex(H)' /\ ev'.isnew = ~Known(H)'
      /\ RuleWitness(H)' /\ fx' = EWit(H)'
  BY <1>3, <1>4, <1>6, Stays
<1>8. (Over(NewSeals(ev.id, Blocks[ev.b]), Without(ev.pre, SRange(Din))))' = Over(NewSeals(ev.id, Blocks[ev.b]), Without(ev.pre, SRange(Din)))
  <2>1. ev'.id = ev.id /\ ev'.b = ev.b /\ ev'.pre = ev.pre /\ Din' = Din
    BY <1>6, Stays DEF Stay
  <2> QED BY <2>1
<1>9. ev'.live = (Over(NewSeals(ev.id, Blocks[ev.b]), Without(ev.pre, SRange(Din))))'
  BY <1>5, <1>6, <1>8
<1>10. ev'.closed = [i \in DOMAIN Din |-> ev.pre[Din[i]]]'
  BY <1>3, <1>6, Stays DEF Stay
<1> QED BY <1>1, <1>2, <1>3, <1>6, <1>7, <1>9, <1>10 DEF Stay, EvalInv, Inv, Steps, AfterGate, AfterDefs, AfterInputs, AfterCodex, AfterWitness, AfterSeals, AfterOperation, Rejected

LEMMA StepOperation == ASSUME Inv, ApplyOperation PROVE EvalInv'
<1>1. ev.pc = "applyOperation" /\ ev.pc \in Steps
  BY DEF ApplyOperation, Steps
<1>2. DOMAIN ev = Fields /\ ev.b \in DOMAIN Blocks /\ B.op = Op(H) /\ B = Blk(H) /\ B = Blocks[ev.b]
  BY <1>1, InBlock
<1>3. /\ ev.id = Id(H) /\ Gate(H) /\ RuleDefs(H) /\ RuleInputs(H) /\ RuleCodex(H) /\ RuleWitness(H) /\ LiveIs(ev.pre, H) /\ fx = EWit(H)
      /\ ev.closed = [i \in DOMAIN Din |-> ev.pre[Din[i]]] /\ ev.p \in Parties /\ DOMAIN led = Parties
      /\ ev.live = Over(NewSeals(ev.id, Blocks[ev.b]), Without(ev.pre, SRange(Din))) /\ ev.isnew = ~Known(H) /\ led[ev.p] = ev.preLed
  BY <1>1, <1>2 DEF Inv, LedType, EvalInv, TypeOK, NoEval, Steps, AfterWitness, AfterCodex, AfterOperation, AfterGate, AfterDefs, AfterInputs, AfterSeals
<1>4. /\ Stay /\ ev'.live = ev.live /\ ev'.id = ev.id /\ ev'.closed = ev.closed /\ ev'.isnew = ev.isnew
      /\ ev'.pc = "applySeals"
  BY <1>2 DEF ApplyOperation, Fields, Stay
<1>5. /\ ev'.id = Id(H)' /\ Gate(H)' /\ LiveIs(ev.pre, H)' /\ RuleDefs(H)' /\ RuleInputs(H)' /\ RuleCodex(H)' /\ ev'.isnew = ~Known(H)'
      /\ RuleWitness(H)' /\ EWit(H)' = EWit(H) /\ EOp(H)' = EOp(H)
  BY <1>3, <1>4, Stays
<1>6. (ev.isnew /\ ~ev.first) <=> MustOp(H)
  BY <1>3, HIs DEF MustOp
<1>7. MustOp(H) => Dig(H) = B.op.dig
  BY <1>2 DEF MustOp, Dig
<1>8. fx' = EWit(H)' \o EOp(H)'
  <2>1. CASE MustOp(H)
    <3>1. fx' = Append(fx, <<"op", ev.id, B.op.dig>>)
      BY <1>6, <2>1 DEF ApplyOperation
    <3>2. fx' = Append(EWit(H), <<"op", Id(H), Dig(H)>>) /\ EOp(H) = <<<<"op", Id(H), Dig(H)>>>>
      BY <1>3, <1>7, <2>1, <3>1 DEF EOp
    <3> QED BY <3>2, <1>5, Effects_
  <2>2. CASE ~MustOp(H)
    <3>1. fx' = fx
      BY <1>6, <2>2 DEF ApplyOperation
    <3> QED BY <1>3, <1>5, <2>2, <3>1, Effects_ DEF EOp
  <2> QED BY <2>1, <2>2
<1>9. led'[ev.p] = IF MustOp(H) THEN ApplyTo(ev.preLed, Id(H), Op(H)) ELSE ev.preLed
  <2>1. MustOp(H) => led' = [led EXCEPT ![ev.p] = ApplyTo(led[ev.p], ev.id, B.op)]
    BY <1>6 DEF ApplyOperation
  <2>2. ~MustOp(H) => led' = led
    BY <1>6 DEF ApplyOperation
  <2> QED BY <1>2, <1>3, <2>1, <2>2
<1>10. led'[ev'.p] = (IF MustOp(H) THEN ApplyTo(ev.preLed, Id(H), Op(H)) ELSE ev.preLed)'
  <2>1. ev'.p = ev.p /\ ev'.preLed = ev.preLed /\ Id(H)' = Id(H) /\ Op(H)' = Op(H) /\ (MustOp(H)' <=> MustOp(H))
    BY <1>4, Stays DEF Stay
  <2> QED BY <1>9, <2>1
<1>11. ev'.live = (Over(NewSeals(ev.id, Blocks[ev.b]), Without(ev.pre, SRange(Din))))'
  <2>1. ev'.id = ev.id /\ ev'.b = ev.b /\ ev'.pre = ev.pre /\ Din' = Din
    BY <1>4, Stays DEF Stay
  <2> QED BY <1>3, <1>4, <2>1
<1>12. ev'.closed = [i \in DOMAIN Din |-> ev.pre[Din[i]]]'
  BY <1>3, <1>4, Stays DEF Stay
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>8, <1>10, <1>11, <1>12 DEF Stay, EvalInv, Inv, Steps, AfterGate, AfterDefs, AfterInputs, AfterCodex, AfterWitness, AfterSeals, AfterOperation, Rejected

LEMMA StepSeals == ASSUME Inv, ApplySeals PROVE EvalInv'
<1>1. ev.pc = "applySeals" /\ ev.pc \in Steps
  BY DEF ApplySeals, Steps
<1>2. DOMAIN ev = Fields /\ ev.b \in DOMAIN Blocks /\ B.op = Op(H) /\ B = Blk(H) /\ B = Blocks[ev.b]
  BY <1>1, InBlock
<1>3. /\ ev.id = Id(H) /\ Gate(H) /\ RuleDefs(H) /\ RuleInputs(H) /\ RuleCodex(H) /\ RuleWitness(H) /\ LiveIs(ev.pre, H) /\ fx = EWit(H) \o EOp(H)
      /\ ev.closed = [i \in DOMAIN Din |-> ev.pre[Din[i]]] /\ ev.p \in Parties
      /\ ev.live = Over(NewSeals(ev.id, Blocks[ev.b]), Without(ev.pre, SRange(Din))) /\ ev.isnew = ~Known(H)
      /\ led[ev.p] = IF MustOp(H) THEN ApplyTo(ev.preLed, Id(H), Op(H)) ELSE ev.preLed
  BY <1>1, <1>2 DEF Inv, LedType, EvalInv, TypeOK, NoEval, Steps, AfterWitness, AfterCodex, AfterOperation, AfterGate, AfterDefs, AfterInputs, AfterSeals
<1>4. /\ Stay /\ ev'.live = ev.live /\ ev'.id = ev.id /\ ev'.closed = ev.closed /\ ev'.isnew = ev.isnew
      /\ ev'.pc = "accepted" /\ led' = led
  BY <1>2 DEF ApplySeals, Fields, Stay
<1>5. /\ ev'.id = Id(H)' /\ Gate(H)' /\ LiveIs(ev.pre, H)' /\ RuleDefs(H)' /\ RuleInputs(H)' /\ RuleCodex(H)' /\ ev'.isnew = ~Known(H)'
      /\ RuleWitness(H)' /\ EWit(H)' = EWit(H) /\ EOp(H)' = EOp(H) /\ ESeals(H)' = ESeals(H)
  BY <1>3, <1>4, Stays
<1>8. fx' = EWit(H)' \o EOp(H)' \o ESeals(H)'
  <2>1. CASE MustSeals(H)
    <3>1. fx' = Append(fx, <<"seals", ev.id, B.sdig>>)
      BY <1>2, <2>1 DEF ApplySeals, MustSeals
    <3>2. fx' = Append(EWit(H) \o EOp(H), <<"seals", Id(H), Blk(H).sdig>>) /\ ESeals(H) = <<<<"seals", Id(H), Blk(H).sdig>>>>
      BY <1>2, <1>3, <2>1, <3>1 DEF ESeals
    <3> QED BY <3>2, <1>5, Effects_
  <2>2. CASE ~MustSeals(H)
    <3>1. fx' = fx
      BY <1>2, <2>2 DEF ApplySeals, MustSeals
    <3> QED BY <1>3, <1>5, <2>2, <3>1, Effects_ DEF ESeals
  <2> QED BY <2>1, <2>2
<1>10. led'[ev'.p] = (IF MustOp(H) THEN ApplyTo(ev.preLed, Id(H), Op(H)) ELSE ev.preLed)'
  <2>1. ev'.p = ev.p /\ ev'.preLed = ev.preLed /\ Id(H)' = Id(H) /\ Op(H)' = Op(H) /\ (MustOp(H)' <=> MustOp(H))
    BY <1>4, Stays DEF Stay
  <2> QED BY <1>3, <1>4, <2>1
<1>11. ev'.live = (Over(NewSeals(ev.id, Blocks[ev.b]), Without(ev.pre, SRange(Din))))'
  <2>1. ev'.id = ev.id /\ ev'.b = ev.b /\ ev'.pre = ev.pre /\ Din' = Din
    BY <1>4, Stays DEF Stay
  <2> QED BY <1>3, <1>4, <2>1
<1>12. ev'.closed = [i \in DOMAIN Din |-> ev.pre[Din[i]]]'
  BY <1>3, <1>4, Stays DEF Stay
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>8, <1>10, <1>11, <1>12 DEF Stay, EvalInv, Inv, Steps, AfterGate, AfterDefs, AfterInputs, AfterCodex, AfterWitness, AfterSeals, AfterOperation, Rejected

LEMMA StepNext == ASSUME Inv, NextBlock PROVE EvalInv'
<1>1. ev.pc = "accepted" /\ ev.pc \in Steps
  BY DEF NextBlock, Steps
<1>2. DOMAIN ev = Fields /\ ev.b \in DOMAIN Blocks /\ B.op = Op(H) /\ B = Blk(H) /\ B = Blocks[ev.b]
  BY <1>1, InBlock
<1>3. /\ ev.id \in Ids /\ ev.acc \in Seq(AccRec) /\ ev.p \in Parties /\ LiveIs(ev.pre, H)
      /\ ev.live = Over(NewSeals(ev.id, Blocks[ev.b]), Without(ev.pre, SRange(Din)))
  BY <1>1, InEval DEF Inv, EvalInv, Steps, AfterSeals
<1>4. /\ ev'.acc = Append(ev.acc, [id |-> ev.id, b |-> ev.b]) /\ ev'.live = ev.live /\ ev'.p = ev.p
      /\ ev'.first = FALSE /\ ev'.pc = "read" /\ led' = led
  BY <1>2 DEF NextBlock, Fields
<1>5. ev'.acc # <<>>
  <2>1. [id |-> ev.id, b |-> ev.b] \in AccRec
    BY <1>2, <1>3 DEF AccRec
  <2> QED BY <1>3, <1>4, <2>1, AppendProperties
<1>6. H.prefix = ev.acc /\ H'.prefix = Append(ev.acc, [id |-> ev.id, b |-> ev.b])
  BY <1>4 DEF H
<1>7. LiveIs(ev.live, H')
  BY <1>2, <1>3, <1>6, LiveStep DEF Din
<1>8. LiveIs(ev'.live, H')
  BY <1>4, <1>7
<1> QED BY <1>3, <1>4, <1>5, <1>8 DEF EvalInv, Steps, AfterGate, AfterDefs, AfterInputs, AfterCodex, AfterWitness, AfterSeals, AfterOperation, Rejected

LEMMA StepReturn == ASSUME Inv, Return PROVE EvalInv'
  BY DEF Return, NoEval, EvalInv

LEMMA StepRollback == ASSUME Inv, NEW p \in Parties, NEW id \in Ids, Rollback(p, id) PROVE EvalInv'
  BY DEF Rollback, Idle, EvalInv

LEMMA StepStutter == ASSUME Inv, UNCHANGED rvars PROVE EvalInv'
<1>1. ev' = ev /\ led' = led /\ fx' = fx
  BY DEF rvars
<1>2. H' = H
  BY <1>1 DEF H
<1>3. Din' = Din /\ (Rejected' <=> Rejected)
  BY <1>1 DEF Din, Rejected
<1> QED BY <1>1, <1>2, <1>3 DEF Inv, EvalInv

LEMMA LedNext == ASSUME LedType, [Next]_rvars PROVE LedType'
  BY DEF LedType, Next, rvars, Internal, Begin, Read, ReadEnd, ReadFail, GenesisGate, CheckDefs, CloseInputs, VerifyKnown, VerifyNew,
     CheckWitness, ApplyWitness, ExtendSeals, ApplyOperation, ApplySeals, NextBlock, Return, Rollback, Reject

THEOREM Invariance == ASSUME NEW g PROVE Spec(g) => []Inv
<1>1. InitWith(g) => Inv
  BY InvInit
<1>2. Inv /\ [Next]_rvars => Inv'
  <2> SUFFICES ASSUME Inv, [Next]_rvars PROVE Inv'
    OBVIOUS
  <2>1. TypeOK' /\ LedType'
    BY TypeNext, LedNext DEF Inv
  <2>2. EvalInv'
    <3>1. \/ UNCHANGED rvars \/ (\E p \in Parties : Begin(p)) \/ (\E b \in DOMAIN Blocks : Read(b)) \/ ReadEnd \/ ReadFail
          \/ GenesisGate \/ CheckDefs \/ CloseInputs \/ VerifyKnown \/ VerifyNew \/ CheckWitness \/ ApplyWitness
          \/ ExtendSeals \/ ApplyOperation \/ ApplySeals \/ NextBlock \/ Return \/ (\E p \in Parties, id \in Ids : Rollback(p, id))
      BY DEF Next, Internal
    <3> QED BY <3>1, StepStutter, StepBegin, StepRead, StepReadEnd, StepGenesis, StepDefs, StepInputs, StepKnown, StepNew, StepWitness,
               StepApplyWitness, StepExtend, StepOperation, StepSeals, StepNext, StepReturn, StepRollback
  <2> QED BY <2>1, <2>2 DEF Inv
<1> QED BY <1>1, <1>2, PTL DEF Spec
=============================================================================
