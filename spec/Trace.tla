------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Trace validation. The recorded executions of the real code (every run   *)
(* of the table is one initial state) are driven through the actions of    *)
(* Rgb in lockstep, and the properties are invariants of every block the   *)
(* code judged and of every evaluation it finished.                        *)
(*                                                                         *)
(* The properties are evaluated on what was observed, never on what the    *)
(* machine did: the observed ledger (oled) is the genesis plus the         *)
(* operations the code really applied. Where code and machine part, the    *)
(* machine is lost until the next evaluation, and the observation goes on. *)
(***************************************************************************)
EXTENDS Props, Integers, Json, TLCExt, IOUtils

Table == JsonDeserialize(IOEnv.TRACE)
TBlocks == Table.blocks
Runs == Table.runs
TParties == 1..Table.np

VARIABLES r,      \* the run
          s,      \* its current step
          k,      \* items of the current evaluation read so far
          jd,     \* "no" | "yes": the item k has just been judged
          fd,     \* the evaluation is finished, or the rollback done
          lost,   \* the machine could not follow
          oled,   \* observed ledgers
          oacc,   \* observed accepted blocks of the current evaluation
          accd,   \* party -> operations accepted so far
          okays,  \* <<party, stream>> accepted in full (and not rolled back since)
          fresh,  \* streams accepted in full by somebody who knew nothing but the genesis
          clos,   \* closings accepted by anybody
          anch,   \* <<operation, witness>> accepted by anybody
          snaps   \* recorded contract states, with the set of accepted operations

tvars == <<led, ev, fx, r, s, k, jd, fd, lost, oled, oacc, accd, okays, fresh, clos, anch, snaps>>

Run == Runs[r]
Step == Run.steps[s]
HasStep == s <= Len(Run.steps)
Item == Step.items[k]
Accepted(j) == j < Len(Step.items) \/ Step.over > 0 \/ Step.res.k = "ok"

-----------------------------------------------------------------------------
(* Observations *)

H == [p |-> Step.p,
      first |-> \A j \in 1..(k - 1) : Step.items[j].t # "b",
      b |-> Item.b,
      prefix |-> oacc,
      acc |-> Accepted(k),
      err |-> Step.res,
      fx |-> Item.fx,
      L |-> oled[Step.p]]

Eval == Step          \* has items, pre, over, res

\* What was given to the code, which need not have read all of it.
Given(e, str) == Len(str) <= Len(e.given) /\ \A j \in DOMAIN str : e.given[j] = str[j]
Stream == [j \in DOMAIN Step.items |-> <<Step.items[j].t, Step.items[j].b>>]

\* The operations the code applied on this block.
RECURSIVE Fold(_, _, _)
Fold(L, b, effects) ==
    IF effects = <<>> THEN L
    ELSE LET f == Head(effects)
             op == Blocks[b].op
             L1 == IF f[1] # "op" THEN L
                   ELSE IF f[2] = op.id THEN ApplyTo(L, op.id, op)
                   ELSE IF f[2] = op.gid THEN ApplyTo(L, op.gid, op)
                   ELSE L
         IN Fold(L1, b, Tail(effects))

SameDump(d, L) ==
    /\ SRange(d.known) = L.known
    /\ {<<c[1], c[2]>> : c \in SRange(d.dmem)} = {<<a, L.dmem[a]>> : a \in DOMAIN L.dmem}
    /\ {c[1] : c \in SRange(d.imm)} = L.imm

-----------------------------------------------------------------------------
(* Lockstep *)

FxAgree(a, b) == /\ Len(a) = Len(b) /\ SRange(a) = SRange(b)
                 /\ \A i, j \in DOMAIN a : a[i][1] = "wit" /\ a[j][1] = "op" => i < j
BlockAgrees == /\ (ev.pc = "accepted") = Accepted(k)
               /\ FxAgree(Item.fx, fx)

TInit == /\ r \in DOMAIN Runs
         /\ InitWith(Table.gens[Runs[r].gen])
         /\ s = 1 /\ k = 0 /\ jd = "no" /\ fd = FALSE /\ lost = FALSE
         /\ oled = led
         /\ oacc = <<>>
         /\ accd = [p \in Parties |-> {led[p].gen}]
         /\ okays = {} /\ fresh = {} /\ clos = {} /\ anch = {} /\ snaps = {}

Obs == <<oled, oacc, accd, okays, fresh, clos, anch, snaps>>

TBegin == /\ HasStep /\ Step.k = "eval" /\ k = 0 /\ ~fd /\ ~lost
          /\ Begin(Step.p)
          /\ oacc' = <<>>
          /\ UNCHANGED <<r, s, k, jd, fd, lost, oled, accd, okays, fresh, clos, anch, snaps>>

Reading == ev.pc = "read" /\ jd = "no" /\ ~fd /\ k < Len(Step.items)
TRead == /\ Reading
         /\ LET it == Step.items[k + 1] IN
            CASE it.t = "b" -> Read(it.b)
              [] it.t = "end" -> ReadEnd
              [] it.t = "fail" -> ReadFail
         /\ k' = k + 1
         /\ UNCHANGED <<r, s, jd, fd, lost, Obs>>

TInternal == /\ ~lost /\ jd = "no" /\ ~fd /\ Internal
             /\ UNCHANGED <<r, s, k, jd, fd, lost, Obs>>

\* The machine has judged the block; in the next state the observation is.
TJudge == /\ ~lost /\ Judged /\ jd = "no" /\ k > 0 /\ Len(oacc) < k
          /\ jd' = "yes"
          /\ UNCHANGED <<led, ev, fx, r, s, k, fd, lost, Obs>>

Observe == /\ jd' = "no"
           /\ oled' = [oled EXCEPT ![Step.p] = Fold(@, Item.b, Item.fx)]
           /\ oacc' = IF Accepted(k) THEN Append(oacc, [id |-> Id(H), b |-> Item.b])
                      ELSE Append(oacc, [id |-> "-", b |-> Item.b])
           /\ accd' = [accd EXCEPT ![Step.p] = IF Accepted(k) /\ ~H.first THEN @ \cup {Id(H)} ELSE @]
           /\ clos' = IF Accepted(k) THEN clos \cup ClosingsOf(H) ELSE clos
           /\ anch' = IF Accepted(k) /\ Blk(H).haswit THEN anch \cup {<<Id(H), Blk(H).wit.id>>} ELSE anch
           /\ UNCHANGED <<r, s, k, fd, okays, fresh, snaps>>

TAgreeAcc == /\ jd = "yes" /\ ~lost /\ BlockAgrees /\ ev.pc = "accepted"
             /\ NextBlock /\ UNCHANGED lost
             /\ Observe
TAgreeRej == /\ jd = "yes" /\ ~lost /\ BlockAgrees /\ ev.pc = "done"
             /\ UNCHANGED <<led, ev, fx, lost>>
             /\ Observe
TDiverge == /\ jd = "yes" /\ ~lost /\ ~BlockAgrees
            /\ lost' = TRUE /\ UNCHANGED <<led, ev, fx>>
            /\ Observe

\* More was read after the machine was done.
TReadOn == /\ ~lost /\ jd = "no" /\ ~fd /\ ev.pc = "done" /\ k < Len(Step.items)
           /\ (ev.b = 0 \/ Len(oacc) = k)
           /\ lost' = TRUE
           /\ UNCHANGED <<led, ev, fx, r, s, k, jd, fd, Obs>>

TLostRead == /\ lost /\ jd = "no" /\ ~fd /\ k < Len(Step.items)
             /\ k' = k + 1
             /\ jd' = IF Step.items[k + 1].t = "b" THEN "yes" ELSE "no"
             /\ oacc' = oacc
             /\ UNCHANGED <<led, ev, fx, r, s, fd, lost, oled, accd, okays, fresh, clos, anch, snaps>>
TLostJudged == /\ jd = "yes" /\ lost
               /\ UNCHANGED <<led, ev, fx, lost>>
               /\ Observe

\* All that was read is observed.
TFinish == /\ HasStep /\ Step.k = "eval" /\ ~Idle /\ jd = "no" /\ ~fd /\ k = Len(Step.items)
           /\ \/ lost
              \/ ev.pc = "read"
              \/ ev.pc = "done" /\ (ev.b = 0 \/ Len(oacc) = k)
           /\ fd' = TRUE
           /\ UNCHANGED <<led, ev, fx, r, s, k, jd, lost, Obs>>

Snap(p) == snaps \cup {[acc |-> accd[p], dmem |-> SRange(Step.led.dmem), imm |-> SRange(Step.led.imm)]}

\* Operations of the stream; those applied by this evaluation; what was known before it.
IdsOf(e) == {IF j = 1 THEN Blocks[e.items[j].b].op.gid ELSE Blocks[e.items[j].b].op.id :
                j \in {i \in DOMAIN e.items : e.items[i].t = "b"}}
Applied(e) == UNION {{f[2] : f \in {x \in SRange(e.items[j].fx) : x[1] = "op"}} : j \in DOMAIN e.items}
Before(e) == oled[e.p].known \ Applied(e)
FromGenesis(e) == e.items # <<>> /\ e.items[1].t = "b" /\ Blocks[e.items[1].b].op.gid = oled[e.p].gen

TReturn == /\ fd /\ Step.k = "eval"
           /\ fd' = FALSE /\ s' = s + 1 /\ k' = 0 /\ lost' = FALSE /\ jd' = "no"
           /\ led' = oled /\ ev' = NoEval /\ fx' = <<>>
           /\ oacc' = <<>>
           /\ okays' = IF Step.res.k = "ok" THEN okays \cup {<<Step.p, Stream>>} ELSE okays
           /\ fresh' = IF Step.res.k = "ok" /\ Before(Step) = {oled[Step.p].gen} /\ FromGenesis(Step)
                       THEN fresh \cup {Stream} ELSE fresh
           /\ snaps' = Snap(Step.p)
           /\ UNCHANGED <<r, oled, accd, clos, anch>>

TRoll == /\ HasStep /\ Step.k = "roll" /\ ~fd
         /\ IF CanForget(led[Step.p], Step.op)
            THEN Rollback(Step.p, Step.op) /\ UNCHANGED lost
            ELSE UNCHANGED <<led, ev, fx>> /\ lost' = TRUE
         /\ oled' = led'
         /\ accd' = [accd EXCEPT ![Step.p] = @ \ {Step.op}]
         /\ okays' = {x \in okays : x[1] # Step.p}
         /\ fd' = TRUE
         /\ UNCHANGED <<r, s, k, jd, oacc, fresh, clos, anch, snaps>>
TRolled == /\ fd /\ Step.k = "roll"
           /\ fd' = FALSE /\ s' = s + 1 /\ lost' = FALSE
           /\ snaps' = Snap(Step.p)
           /\ UNCHANGED <<led, ev, fx, r, k, jd, oled, oacc, accd, okays, fresh, clos, anch>>

\* Every run is followed to its end: stopping anywhere else is a deadlock.
TDone == ~HasStep /\ ~fd /\ UNCHANGED tvars

TNext == \/ TDone \/ TBegin \/ TRead \/ TInternal \/ TJudge \/ TAgreeAcc \/ TAgreeRej \/ TDiverge
         \/ TReadOn \/ TLostRead \/ TLostJudged \/ TFinish \/ TReturn \/ TRoll \/ TRolled

TSpec == TInit /\ [][TNext]_tvars

\* The lockstep is deterministic, and none of its states looks like an earlier one of the same run.
Where == <<r, s, k, jd, fd, lost, ev.pc, Len(oacc)>>

-----------------------------------------------------------------------------
(* The checks, one invariant for each property *)

IsBlock == jd = "yes"
IsEnd == fd /\ Step.k = "eval"
IsRoll == fd /\ Step.k = "roll"

\* A violation is reported with its place.
Bad(prop) == PrintT(<<"BAD", prop, Run.id, s, k>>) /\ FALSE
Holds(prop, P) == P \/ Bad(prop)
OnBlock(prop, P(_)) == IsBlock => Holds(prop, P(H))
OnEnd(prop, P(_)) == IsEnd => Holds(prop, P(Step))

Inv01 == OnBlock("C01", C01)
Inv02 == OnBlock("C02", C02)
Inv03 == OnBlock("C03", C03)
Inv04 == OnBlock("C04", C04)

\* The known finding, when listed, is reported and let pass.
Finding == "known" \in DOMAIN Table /\ "C05-foreign-genesis" \in SRange(Table.known)
C05F(h) == Finding /\ C05Known(h) /\ PrintT(<<"KNOWN", "C05", Run.id, s, k>>)
Inv05 == IsBlock => (C05(H) \/ C05F(H) \/ Bad("C05"))

Inv06 == OnBlock("C06", C06)

C07e(e) == \A x \in okays : x[1] = e.p /\ Given(e, x[2]) =>
    /\ e.res.k = "ok"
    /\ \A j \in DOMAIN e.items : \A f \in SRange(e.items[j].fx) : f[1] # "op"
Inv07 == OnBlock("C07", C07) /\ OnEnd("C07", C07e)

Inv08 == OnBlock("C08", C08) /\ OnEnd("C08", C08e)
Inv09 == OnBlock("C09", C09) /\ OnEnd("C09", C09e)
Inv10 == OnBlock("C10", C10) /\ OnEnd("C10", C10e)

WithFail == \E j \in DOMAIN Step.items : Step.items[j].t = "fail"
C11(h) == WithFail => /\ h.acc => GotAll(h) /\ WitFirst(h)
                      /\ ~h.acc => h.fx = <<>>
Inv11 == OnBlock("C11", C11) /\ OnEnd("C11", C11e)

Inv12 == OnBlock("C12", C12)

\* The same evaluation recorded in another way
Same(e, f) == /\ e.over = f.over /\ e.res = f.res /\ e.pre = f.pre
              /\ Len(e.items) = Len(f.items)
              /\ \A j \in DOMAIN e.items : /\ e.items[j].t = f.items[j].t
                                           /\ e.items[j].b = f.items[j].b
                                           /\ e.items[j].fx = f.items[j].fx
Trips == {"clone", "strict", "json", "value", "layout"}
C15e(e) == /\ \A j \in DOMAIN e.items : e.items[j].t = "b" =>
                 /\ e.items[j].tb = e.items[j].b
                 /\ "rt" \in DOMAIN Blocks[e.items[j].b] => \A t \in Trips : Blocks[e.items[j].b].rt[t] = "same"
           /\ "twin" \in DOMAIN e => Same(e, e.twin)
Inv15 == OnEnd("C15", C15e)

C16s(st) == /\ SRange(st.led.known) = accd[st.p]
            /\ oled[st.p].known = accd[st.p] => SameDump(st.led, oled[st.p]) /\ Canonical(oled[st.p])
            /\ \A x \in snaps : x.acc = accd[st.p] => x.dmem = SRange(st.led.dmem) /\ x.imm = SRange(st.led.imm)
            /\ "apart" \in DOMAIN st => Same(st, st.apart)
Inv16 == fd => Holds("C16", C16s(Step))

Inv17 == OnEnd("C17", C17e)

C18e(e) == /\ ~lost
           /\ ev.pc = "done"
           /\ IF ev.b # 0 THEN e.res.k \notin {"ok", "Stream"} \cup Crash
              ELSE IF ev.err.k = "Stream" THEN e.res.k = "Stream" ELSE e.res.k = "ok"
           /\ e.over = 0 /\ Quiet(e)
           /\ SameDump(e.led, led[e.p])
C18b(h) == lost \/ BlockAgrees
Inv18 == OnBlock("C18", C18b) /\ OnEnd("C18", C18e)
         /\ (IsRoll => Holds("C18", ~lost /\ SameDump(Step.led, led[Step.p])))

\* C20: competing operations need conflicting witnesses, whoever accepted them.
Rivals(h) == {x \in clos \X ClosingsOf(h) : x[1].cell = x[2].cell /\ x[1].op # x[2].op}
Apart(x, y) == /\ Conflict(x, y)
               /\ x.seal # y.seal => {<<x.cell[1], x.seal[1]>>, <<x.cell[1], y.seal[1]>>} \subseteq anch
Finding20 == "known" \in DOMAIN Table /\ "C20-two-protocols" \in SRange(Table.known)
C20F(x, y) == Finding20 /\ C20Known(x, y) /\ PrintT(<<"KNOWN", "C20", Run.id, s, k>>)
Inv20 == IsBlock /\ Accepted(k) => \A x \in Rivals(H) : Apart(x[1], x[2]) \/ C20F(x[1], x[2]) \/ Bad("C20")

\* C21: what somebody accepted from scratch is accepted by everybody who accepted nothing which competes with it.
Compatible(e, str) ==
    LET consumed == UNION {SRange(Blocks[str[j][2]].op.din) : j \in {i \in DOMAIN str : str[i][1] = "b"}}
        ids == {IF j = 1 THEN Blocks[str[j][2]].op.gid ELSE Blocks[str[j][2]].op.id : j \in {i \in DOMAIN str : str[i][1] = "b"}}
    IN \A o \in Before(e) \ ids : SRange(oled[e.p].ops[o].din) \cap consumed = {}
C21e(e) == \A str \in fresh : Given(e, str) /\ Compatible(e, str) =>
        /\ e.res.k = "ok"
        /\ IdsOf(e) \subseteq SRange(e.led.known)
Inv21 == OnEnd("C21", C21e)

\* All that is printed of the states leading to a violation.
Place == [run |-> Run.id, s |-> s, k |-> k, pc |-> ev.pc, lost |-> lost]

\* What the runs exercised, for the evidence.
Covered == (IsBlock => PrintT(<<"CB", IF H.first THEN "first" ELSE "later", IF Known(H) THEN "known" ELSE "new",
                                IF H.acc THEN "ok" ELSE H.err.k, Len(Op(H).din), Blk(H).haswit>>))
=============================================================================
