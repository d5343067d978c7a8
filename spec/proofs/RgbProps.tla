----------------------------- MODULE RgbProps ------------------------------
(***************************************************************************)
(* The properties of every judged block, as theorems about the machine:    *)
(* C01, C03..C10, C12 (C02 in RgbLedger, since it needs the ledger).            *)
(***************************************************************************)
EXTENDS RgbVerdict

\* What the invariant says of a judged block.
Fx(h) == EWit(h) \o EOp(h) \o ESeals(h)
Good(h) == /\ h.b \in DOMAIN Blocks /\ h.prefix \in Seq(AccRec) /\ h.acc \in BOOLEAN /\ h.first \in BOOLEAN
           /\ \E f : LiveIs(f, h)
           /\ h.acc => Verdict(h) /\ h.fx = Fx(h)
           /\ ~h.acc => ~Verdict(h) /\ Why(h, h.err) /\ h.fx = <<>>

LEMMA JudgedGood == ASSUME Inv, Judged PROVE Good(H)
<1>1. ev.pc \in {"accepted", "done"} /\ ev.b # 0
  BY DEF Judged
<1>2. ev.b \in DOMAIN Blocks /\ ev.acc \in Seq(AccRec)
  <2>1. ev # NoEval
    BY <1>1 DEF NoEval
  <2>2. ev.acc \in Seq(AccRec) /\ (ev.pc \in Steps => ev.b \in DOMAIN Blocks)
    BY <2>1 DEF Inv, TypeOK
  <2>3. ev.pc = "done" => ev.b = 0 \/ ev.b \in DOMAIN Blocks
    BY <1>1 DEF Inv, EvalInv
  <2> QED BY <1>1, <2>2, <2>3 DEF Steps
<1>3. CASE ev.pc = "accepted"
  <2>1. Verdict(H) /\ fx = EWit(H) \o EOp(H) \o ESeals(H) /\ LiveIs(ev.pre, H) /\ ev.first \in BOOLEAN
    BY <1>1, <1>3 DEF Inv, EvalInv, Verdict, Steps, AfterGate, AfterDefs, AfterInputs, AfterCodex, AfterWitness
  <2> QED BY <1>2, <1>3, <2>1, HIs DEF Good, Fx
<1>4. CASE ev.pc = "done"
  <2>1. Rejected
    BY <1>4 DEF Judged, Rejected
  <2>2. ~Verdict(H) /\ Why(H, ev.err) /\ fx = <<>> /\ LiveIs(ev.pre, H) /\ ev.first \in BOOLEAN
    BY <1>1, <2>1 DEF Inv, EvalInv
  <2> QED BY <1>2, <1>4, <2>2, HIs DEF Good
<1> QED BY <1>3, <1>4 DEF Judged

-----------------------------------------------------------------------------
LEMMA BlockFacts ==
    ASSUME NEW h, Good(h)
    PROVE /\ Op(h) = Blk(h).op /\ Blk(h) = Blocks[h.b]
          /\ Op(h).din \in Seq(Cells)
          /\ \A a \in Ins(h) : a \in Cells
          /\ Op(h).din = <<>> => Ins(h) = {}
          /\ \A a \in Ins(h) : IsLive(h, a) => LiveSeal(h, a) \in RevealedSeals(h, a)
<1>1. Op(h) = Blk(h).op /\ Blk(h) = Blocks[h.b] /\ Op(h).din \in Seq(Cells)
  BY BlocksOK DEF Op, Blk, Good
<1>2. \A a \in Ins(h) : a \in Cells
  BY <1>1, ElementOfSeq, LenProperties DEF Ins, SRange
<1>3. Op(h).din = <<>> => Ins(h) = {}
  BY DEF Ins, SRange
<1>4. \A a \in Ins(h) : IsLive(h, a) => LiveSeal(h, a) \in RevealedSeals(h, a)
  <2>1. PICK f : LiveIs(f, h)
    BY DEF Good
  <2> QED BY <1>2, <2>1, LiveMeans DEF Good
<1> QED BY <1>1, <1>2, <1>3, <1>4

\* The effects, one by one
LEMMA FxIs ==
    ASSUME NEW h
    PROVE LET w == <<"wit", Id(h), Blk(h).wdig>>
              o == <<"op", Id(h), Dig(h)>>
              s == <<"seals", Id(h), Blk(h).sdig>> IN
          Fx(h) = IF MustWit(h)
                  THEN IF MustOp(h) THEN IF MustSeals(h) THEN <<w, o, s>> ELSE <<w, o>>
                       ELSE IF MustSeals(h) THEN <<w, s>> ELSE <<w>>
                  ELSE IF MustOp(h) THEN IF MustSeals(h) THEN <<o, s>> ELSE <<o>>
                       ELSE IF MustSeals(h) THEN <<s>> ELSE <<>>
<1> DEFINE w == <<"wit", Id(h), Blk(h).wdig>>
           o == <<"op", Id(h), Dig(h)>>
           s == <<"seals", Id(h), Blk(h).sdig>>
<1>1. /\ EWit(h) = IF MustWit(h) THEN <<w>> ELSE <<>>
      /\ EOp(h) = IF MustOp(h) THEN <<o>> ELSE <<>>
      /\ ESeals(h) = IF MustSeals(h) THEN <<s>> ELSE <<>>
  BY DEF EWit, EOp, ESeals
<1> HIDE DEF w, o, s
<1>2. /\ <<w>> \o <<o>> \o <<s>> = <<w, o, s>>
      /\ <<w>> \o <<o>> \o <<>> = <<w, o>>
      /\ <<w>> \o <<>> \o <<s>> = <<w, s>>
      /\ <<w>> \o <<>> \o <<>> = <<w>>
      /\ <<>> \o <<o>> \o <<s>> = <<o, s>>
      /\ <<>> \o <<o>> \o <<>> = <<o>>
      /\ <<>> \o <<>> \o <<s>> = <<s>>
      /\ <<>> \o <<>> \o <<>> = <<>>
  <2> DEFINE S == {w, o, s}
  <2>1. w \in S /\ o \in S /\ s \in S /\ <<>> \in Seq(S) /\ <<w>> \in Seq(S) /\ <<o>> \in Seq(S) /\ <<s>> \in Seq(S) /\ <<w, o>> \in Seq(S)
    OBVIOUS
  <2>2. /\ Append(<<w>>, o) = <<w, o>> /\ Append(<<w>>, s) = <<w, s>> /\ Append(<<o>>, s) = <<o, s>> /\ Append(<<w, o>>, s) = <<w, o, s>>
    OBVIOUS
  <2> HIDE DEF S
  <2>3. /\ <<w>> \o <<o>> = <<w, o>> /\ <<w>> \o <<s>> = <<w, s>> /\ <<o>> \o <<s>> = <<o, s>> /\ <<w, o>> \o <<s>> = <<w, o, s>>
    BY <2>1, <2>2, AppendIsConcat
  <2>4. \A q \in Seq(S) : q \o <<>> = q /\ <<>> \o q = q
    BY ConcatEmptySeq
  <2> QED BY <2>1, <2>3, <2>4
<1>3. Fx(h) = IF MustWit(h)
                  THEN IF MustOp(h) THEN IF MustSeals(h) THEN <<w, o, s>> ELSE <<w, o>>
                       ELSE IF MustSeals(h) THEN <<w, s>> ELSE <<w>>
                  ELSE IF MustOp(h) THEN IF MustSeals(h) THEN <<o, s>> ELSE <<o>>
                       ELSE IF MustSeals(h) THEN <<s>> ELSE <<>>
  BY <1>1, <1>2 DEF Fx
<1> QED BY <1>3 DEF w, o, s

LEMMA FxGot ==
    ASSUME NEW h, h.fx = Fx(h)
    PROVE /\ GotAll(h) /\ WitFirst(h)
          /\ Has(h, "op") <=> MustOp(h)
          /\ \A i \in DOMAIN h.fx : h.fx[i][2] = Id(h)
<1> DEFINE w == <<"wit", Id(h), Blk(h).wdig>>
           o == <<"op", Id(h), Dig(h)>>
           s == <<"seals", Id(h), Blk(h).sdig>>
<1>1. w[1] = "wit" /\ w[2] = Id(h) /\ o[1] = "op" /\ o[2] = Id(h) /\ s[1] = "seals" /\ s[2] = Id(h)
  OBVIOUS
<1>2. h.fx = IF MustWit(h)
                  THEN IF MustOp(h) THEN IF MustSeals(h) THEN <<w, o, s>> ELSE <<w, o>>
                       ELSE IF MustSeals(h) THEN <<w, s>> ELSE <<w>>
                  ELSE IF MustOp(h) THEN IF MustSeals(h) THEN <<o, s>> ELSE <<o>>
                       ELSE IF MustSeals(h) THEN <<s>> ELSE <<>>
  BY FxIs
<1>3. /\ MustWit(h) => ExactlyOnce(h, "wit", Id(h), Blk(h).wdig)
      /\ ~MustWit(h) => ~Has(h, "wit")
  <2>1. \A i \in DOMAIN h.fx : h.fx[i][1] = "wit" <=> i = 1 /\ MustWit(h)
    <3> HIDE DEF w, o, s
    <3> QED BY <1>1, <1>2
  <2>2. MustWit(h) => 1 \in DOMAIN h.fx /\ h.fx[1] = w
    <3> HIDE DEF w, o, s
    <3> QED BY <1>2
  <2> QED BY <2>1, <2>2 DEF ExactlyOnce, Is, Has
<1>4. /\ MustOp(h) => ExactlyOnce(h, "op", Id(h), Dig(h))
      /\ ~MustOp(h) => ~Has(h, "op")
  <2>1. \A i \in DOMAIN h.fx : h.fx[i][1] = "op" <=> i = (IF MustWit(h) THEN 2 ELSE 1) /\ MustOp(h)
    <3> HIDE DEF w, o, s
    <3> QED BY <1>1, <1>2
  <2>2. MustOp(h) => (IF MustWit(h) THEN 2 ELSE 1) \in DOMAIN h.fx /\ h.fx[IF MustWit(h) THEN 2 ELSE 1] = o
    <3> HIDE DEF w, o, s
    <3> QED BY <1>2
  <2> QED BY <2>1, <2>2 DEF ExactlyOnce, Is, Has
<1>5. /\ MustSeals(h) => ExactlyOnce(h, "seals", Id(h), Blk(h).sdig)
      /\ ~MustSeals(h) => ~Has(h, "seals")
  <2> DEFINE n == IF MustWit(h) THEN IF MustOp(h) THEN 3 ELSE 2 ELSE IF MustOp(h) THEN 2 ELSE 1
  <2>1. \A i \in DOMAIN h.fx : h.fx[i][1] = "seals" <=> i = n /\ MustSeals(h)
    <3> HIDE DEF w, o, s
    <3> QED BY <1>1, <1>2
  <2>2. MustSeals(h) => n \in DOMAIN h.fx /\ h.fx[n] = s
    <3> HIDE DEF w, o, s
    <3> QED BY <1>2
  <2> HIDE DEF n
  <2> QED BY <2>1, <2>2 DEF ExactlyOnce, Is, Has
<1>6. \A i \in DOMAIN h.fx : h.fx[i][2] = Id(h)
  <2> HIDE DEF w, o, s
  <2> QED BY <1>1, <1>2
<1>7. WitFirst(h)
  <2>1. \A i \in DOMAIN h.fx : h.fx[i][1] = "wit" => i = 1
    <3> HIDE DEF w, o, s
    <3> QED BY <1>1, <1>2
  <2>2. \A i \in DOMAIN h.fx : h.fx[i][1] = "op" /\ Is(h, "wit") # {} => i = 2
    <3>1. Is(h, "wit") # {} => MustWit(h)
      BY <1>3 DEF Is, Has
    <3> HIDE DEF w, o, s
    <3> QED BY <1>1, <1>2, <3>1
  <2> QED BY <2>1, <2>2 DEF WitFirst, Is
<1>8. Has(h, "op") <=> MustOp(h)
  BY <1>4 DEF ExactlyOnce, Is, Has
<1> QED BY <1>3, <1>4, <1>5, <1>6, <1>7, <1>8 DEF GotAll, GotWit, GotOp, GotSeals

LEMMA NoFx == ASSUME NEW h, h.fx = <<>> PROVE (\A kind : ~Has(h, kind)) /\ DOMAIN h.fx = {}
  BY DEF Has

-----------------------------------------------------------------------------
LEMMA G01 == ASSUME NEW h, Good(h) PROVE C01(h)
  BY BlockFacts DEF C01, Good, Verdict, RuleInputs, RuleWitness

LEMMA G03 == ASSUME NEW h, Good(h) PROVE C03(h)
  BY DEF C03, Good, Verdict, Why, Because

LEMMA G10 == ASSUME NEW h, Good(h) PROVE C10(h)
  BY DEF C10, Good, Verdict, Lawful, RuleGenesis, Gate

LEMMA G04 == ASSUME NEW h, Good(h) PROVE C04(h)
<1>1. h.acc => \A a \in Ins(h) : \E s \in RevealedSeals(h, a) : Blk(h).haswit => Included(s, Id(h), Blk(h).wit)
  BY BlockFacts DEF Good, Verdict, RuleInputs, RuleWitness
<1>2. h.acc /\ RevealsRelative(h) /\ Blk(h).haswit => Commits(Blk(h).wit, Id(h))
  BY DEF Good, Verdict, RuleWitness
<1>3. Lawful(h) /\ ~h.acc => h.err.k \notin SealError
  BY G10 DEF C10
<1>4. ~h.acc /\ h.err.k = "NotIncluded" => h.err.seal \in UNION {RevealedSeals(h, a) : a \in Ins(h)}
  BY DEF Good, Why, Because
<1> QED BY <1>1, <1>2, <1>3, <1>4 DEF C04

LEMMA VerdictOwn == ASSUME NEW L, NEW op, NEW cid, CodexVerdict(L, op, cid) = NoErr PROVE cid = "own"
  BY DEF CodexVerdict, NoErr

LEMMA G05 == ASSUME NEW h, Good(h) PROVE C05(h) \/ C05Known(h)
<1>1. h.first => ~Has(h, "op")
  BY FxGot, NoFx DEF Good, MustOp
<1>2. h.first => \A i \in DOMAIN h.fx : h.fx[i][2] = Op(h).gid
  BY FxGot, NoFx DEF Good, Id
<1>3. ~h.first /\ h.acc /\ ~Known(h) => Op(h).cid = "own"
  BY VerdictOwn DEF Good, Verdict, RuleCodex, Cid
<1>4. h.first /\ h.acc => Op(h).cid = "codex"
  BY DEF Good, Verdict, Gate
<1>5. h.acc => RuleDefs(h) /\ RuleInputs(h) /\ RuleCodex(h) /\ RuleWitness(h)
  BY DEF Good, Verdict
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5 DEF C05, C05Known

LEMMA G06 == ASSUME NEW h, Good(h) PROVE C06(h)
<1>1. Has(h, "op") => h.acc /\ MustOp(h)
  BY FxGot, NoFx DEF Good
<1>2. h.acc /\ MustOp(h) => CodexVerdict(h.L, Op(h), Op(h).cid) = NoErr
  BY DEF Good, Verdict, RuleCodex, MustOp, Cid
<1>3. h.acc => RuleCodex(h) /\ GotOp(h)
  BY FxGot DEF Good, Verdict, GotAll
<1> QED BY <1>1, <1>2, <1>3 DEF C06

LEMMA G07 == ASSUME NEW h, Good(h) PROVE C07(h)
<1> SUFFICES ASSUME Known(h)
             PROVE /\ ~Has(h, "op")
                   /\ h.acc => SealRules(h) /\ GotWit(h) /\ GotSeals(h)
                   /\ SealRules(h) /\ RuleGenesis(h) => h.acc
  BY DEF C07
<1>1. ~Has(h, "op")
  BY FxGot, NoFx DEF Good, MustOp
<1>2. h.acc => SealRules(h) /\ GotWit(h) /\ GotSeals(h)
  BY FxGot DEF Good, Verdict, SealRules, GotAll
<1>3. SealRules(h) /\ RuleGenesis(h) => h.acc
  BY DEF Good, Verdict, SealRules, RuleGenesis, RuleCodex, Gate
<1> QED BY <1>1, <1>2, <1>3

LEMMA G08 == ASSUME NEW h, Good(h) PROVE C08(h)
  BY DEF C08, Good

\* C12, but for the text of the message
LEMMA G12 == ASSUME NEW h, Good(h) PROVE ~h.acc => Culprit(h, h.err)
  BY DEF Good, Why

LEMMA G09 == ASSUME NEW h, Good(h) PROVE C09(h)
  BY FxGot DEF C09, Good

\* Whatever the blocks, the clients, and the length of the streams and histories.
THEOREM Properties ==
    ASSUME NEW g
    PROVE Spec(g) => [](Judged => /\ C01(H) /\ C03(H) /\ C04(H) /\ (C05(H) \/ C05Known(H)) /\ C06(H)
                                  /\ C07(H) /\ C08(H) /\ C09(H) /\ C10(H) /\ (~H.acc => Culprit(H, H.err)))
<1>1. Inv /\ Judged => /\ C01(H) /\ C03(H) /\ C04(H) /\ (C05(H) \/ C05Known(H)) /\ C06(H)
                       /\ C07(H) /\ C08(H) /\ C09(H) /\ C10(H) /\ (~H.acc => Culprit(H, H.err))
  BY JudgedGood, G01, G03, G04, G05, G06, G07, G08, G09, G10, G12
<1> QED BY <1>1, Invariance, PTL
=============================================================================
