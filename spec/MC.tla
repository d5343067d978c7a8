--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Exhaustive exploration of the evaluation machine over a catalogue of    *)
(* blocks: all streams up to MaxLen blocks, MaxEvals evaluations, read     *)
(* failures, rollbacks. Checks the properties on every judged block, and   *)
(* emits one scenario for every transition of the state graph, to be       *)
(* replayed on the real code.                                              *)
(***************************************************************************)
EXTENDS Given, Integers, Json, TLCExt, IOUtils

CONSTANTS MaxLen, MaxEvals, NParties, MaxFails, MaxRolls

Table == JsonDeserialize(IOEnv.MC_TABLE)
MCBlocks == Table.blocks
MCParties == 1..NParties

ASSUME GivenOK(Table.gens[1])

VARIABLES hist,     \* how this state was reached: the scenario (not a part of the state proper)
          cnt       \* evaluations, failures and rollbacks so far

vars == <<led, ev, fx, hist, cnt>>

Rollable == {Blocks[i].op.gid : i \in DOMAIN Blocks}

MCInit == /\ InitWith(Table.gens[1])
          /\ hist = <<>>
          /\ cnt = [ev |-> 0, fail |-> 0, roll |-> 0]

AddItem(i) == [hist EXCEPT ![Len(hist)].items = Append(@, i)]

MCBegin(p) == /\ cnt.ev < MaxEvals
              /\ Begin(p)
              /\ hist' = Append(hist, [k |-> "eval", p |-> p - 1, items |-> <<>>])
              /\ cnt' = [cnt EXCEPT !.ev = @ + 1]
MCRead(b) == /\ ev.pc = "read" /\ Len(ev.acc) < MaxLen
             /\ Read(b)
             /\ hist' = AddItem(b - 1)
             /\ UNCHANGED cnt
MCFail == /\ ev.pc = "read" /\ cnt.fail < MaxFails
          /\ ReadFail
          /\ hist' = AddItem(-1)
          /\ cnt' = [cnt EXCEPT !.fail = @ + 1]
MCEnd == ReadEnd /\ hist' = AddItem(-2) /\ UNCHANGED cnt
MCRoll(p, id) == /\ cnt.roll < MaxRolls
                 /\ Rollback(p, id)
                 /\ hist' = Append(hist, [k |-> "roll", p |-> p - 1, op |-> id])
                 /\ cnt' = [cnt EXCEPT !.roll = @ + 1]
MCInternal == Internal /\ UNCHANGED <<hist, cnt>>
MCNext == \/ \E p \in Parties : MCBegin(p)
          \/ \E b \in DOMAIN Blocks : MCRead(b)
          \/ MCFail \/ MCEnd
          \/ MCInternal
          \/ (NextBlock /\ UNCHANGED <<hist, cnt>>)
          \/ (Return /\ UNCHANGED <<hist, cnt>>)
          \/ \E p \in Parties, id \in Rollable : MCRoll(p, id)

MCSpec == MCInit /\ [][MCNext]_vars

\* What matters of a state: the history does not; of the accepted blocks only what the machine keeps.
View == <<led, cnt,
          IF Idle THEN <<>>
          ELSE <<ev.pc, ev.p, ev.first, ev.live, Len(ev.acc), ev.b, ev.err, ev.closed, ev.isnew>>, fx>>

\* All that the properties and the machine depend on of the blocks accepted so far, however many they were: for each
\* cell the seals revealed for it, the live one, and whether it was consumed after its operation came last. The
\* summary after a block is a function of the summary before it and the block, so that merging states by it loses
\* nothing, and streams (evaluations, failures, roll-backs) of any length are exhausted.
Summary ==
    LET h == [prefix |-> ev.acc]
        cells == UNION {DOuts(Blocks[x.b].op.gid, Blocks[x.b].op) \cup DOuts(Blocks[x.b].op.id, Blocks[x.b].op) : x \in SRange(ev.acc)}
                 \cup UNION {SRange(Blocks[x.b].op.din) : x \in SRange(ev.acc)}
        of(a) == [all |-> RevealedSeals(h, a),
                  now |-> IF IsLive(h, a) THEN {LiveSeal(h, a)} ELSE {},
                  gone |-> \E j \in Consuming(h, a) : \A i \in (j + 1)..Len(ev.acc) : ev.acc[i].id # a[1]]
        none == [all |-> {}, now |-> {}, gone |-> FALSE]
    IN {<<a, of(a)>> : a \in {x \in cells : of(x) # none}}
Forever == <<led, IF Idle THEN <<>>
                  ELSE <<ev.pc, ev.p, ev.first, ev.live, ev.b, ev.err, ev.closed, ev.isnew, Summary>>, fx>>

-----------------------------------------------------------------------------
(* The properties on the model *)

H == [p |-> ev.p, first |-> ev.first, b |-> ev.b, prefix |-> ev.acc, acc |-> ev.pc = "accepted",
      err |-> ev.err, fx |-> fx, L |-> ev.preLed]

ModelHolds == Judged =>
    LET h == H IN
    /\ C01(h) /\ C02(h) /\ C03(h) /\ C04(h) /\ (C05(h) \/ C05Known(h)) /\ C06(h) /\ C07(h) /\ C08(h) /\ C09(h) /\ C10(h)
    /\ h.acc \/ (Culprit(h, h.err) /\ h.err.k \notin Crash)
    /\ h.acc => Lawful(h) \/ C05Known(h)

\* C02 over all evaluations, C16: the ledger is a function of the known operations.
LedgerOK == \A p \in Parties :
    LET L == led[p] IN
    /\ Canonical(L)
    /\ DOMAIN L.spent = Destroyed(L)
    /\ \A o1, o2 \in L.known : o1 # o2 => SRange(L.ops[o1].din) \cap SRange(L.ops[o2].din) = {}
    /\ \A q \in Parties : led[q].known = L.known => led[q].dmem = L.dmem /\ led[q].imm = L.imm

\* Liveness as a state property: nothing gets stuck half way.
NeverStuck == ~Idle => ENABLED MCNext \/ (ev.pc = "read" /\ Len(ev.acc) = MaxLen)

-----------------------------------------------------------------------------
(* Scenarios: one for each transition judging a block, ending an evaluation or rolling back *)

IdName(id) == id
Emits == \/ ev'.pc = "done" /\ ev.pc # "done"
         \/ ev'.pc = "accepted" /\ ev.pc # "accepted"
Emit == Emits => PrintT("SCN " \o ToJson(hist'))
=============================================================================
