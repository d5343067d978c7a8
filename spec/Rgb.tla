-------------------------------- MODULE Rgb --------------------------------
(***************************************************************************)
(* Client-side validation in rgb-core: the evaluation of a consignment     *)
(* stream on a contract, one action per step of the implementation, and    *)
(* the client's contract (ledger) it runs against.                         *)
(*                                                                         *)
(* A block of a stream is                                                  *)
(*  [op |-> [id, gid, cid, call, din, iin, dout, nimm, dig, gdig],         *)
(*   seals |-> sequence of [pos, d], sdig,                                 *)
(*   haswit, wit, wdig]                                                    *)
(* id   operation id as delivered; gid the id under the contract's own id  *)
(* cid  whether the operation names this contract ("own"), the contract's  *)
(*      codex ("codex", what a genesis does) or anything else ("other")    *)
(* call "ok" | "fail" | "none": the codex' verifier for the called method  *)
(*      succeeds, fails, or does not exist                                 *)
(* din  destructible inputs, iin immutable inputs: sequences of addresses  *)
(*      <<operation id, position>>                                         *)
(* dout sequence of [tok, lock]: committed token, lock "none"|"ok"|"bad"   *)
(* nimm number of immutable outputs                                        *)
(* dig, gdig, sdig, wdig   names of the exact content                      *)
(***************************************************************************)
EXTENDS Seals, TLC

CONSTANTS Blocks,      \* sequence of blocks: the alphabet of streams
          Parties      \* clients, each with a ledger of its own

VARIABLES led,   \* party -> ledger
          ev,    \* the evaluation in progress
          fx     \* effects reported to the client for the block in progress

rvars == <<led, ev, fx>>

-----------------------------------------------------------------------------
(* The client's ledger *)

EmptyFcn == [x \in {} |-> x]
Without(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]     \* as @@, which is slow

DOuts(id, op) == {<<id, i - 1>> : i \in DOMAIN op.dout}
IOuts(id, op) == {<<id, i>> : i \in 0..(op.nimm - 1)}
NewCells(id, op) == [a \in DOuts(id, op) |-> op.dout[a[2] + 1].lock]

\* gen: id of the contract's own genesis
\* spent: destroyed cell -> [by, lock] (who destroyed it, what is needed to restore it)
\* ops: known operation -> its inputs and the numbers of its outputs
Shape(op) == [din |-> op.din, iin |-> op.iin, nd |-> Len(op.dout), ni |-> op.nimm]
GenesisLedger(g) ==
    [gen |-> g.gid, known |-> {g.gid}, dmem |-> NewCells(g.gid, g), imm |-> IOuts(g.gid, g),
     spent |-> EmptyFcn, ops |-> (g.gid :> [Shape(g) EXCEPT !.din = <<>>, !.iin = <<>>])]

ApplyTo(L, id, op) ==
    LET ins == SRange(op.din) IN
    [L EXCEPT
     !.known = @ \cup {id},
     !.dmem  = Over(NewCells(id, op), Without(L.dmem, ins)),
     !.imm   = @ \cup IOuts(id, op),
     !.spent = Over([a \in ins \cap DOMAIN L.dmem |-> [by |-> id, lock |-> L.dmem[a]]], L.spent),
     !.ops   = Over(id :> Shape(op), L.ops)]

\* The client forgets an operation nothing else depends on (e.g. its witness was re-organised away).
CanForget(L, id) ==
    /\ id \in L.known /\ id # L.gen
    /\ \A o \in L.known \ {id} :
          \A a \in SRange(L.ops[o].din) \cup SRange(L.ops[o].iin) : a[1] # id
Forget(L, id) ==
    LET back == {a \in DOMAIN L.spent : L.spent[a].by = id} IN
    [L EXCEPT
     !.known = @ \ {id},
     !.dmem  = Over([a \in back |-> L.spent[a].lock], [a \in {x \in DOMAIN L.dmem : x[1] # id} |-> L.dmem[a]]),
     !.imm   = {a \in L.imm : a[1] # id},
     !.spent = Without(L.spent, back),
     !.ops   = Without(L.ops, {id})]

\* What the memory must hold, as a function of the set of known operations and of nothing else.
Created(L) == UNION {{<<o, i>> : i \in 0..(L.ops[o].nd - 1)} : o \in DOMAIN L.ops}
Destroyed(L) == UNION {SRange(L.ops[o].din) : o \in DOMAIN L.ops}
Written(L) == UNION {{<<o, i>> : i \in 0..(L.ops[o].ni - 1)} : o \in DOMAIN L.ops}
Canonical(L) == /\ DOMAIN L.ops = L.known
                /\ DOMAIN L.dmem = Created(L) \ Destroyed(L)
                /\ DOMAIN L.spent = Created(L) \cap Destroyed(L)
                /\ L.imm = Written(L)

\* Verdict of the codex on a new operation, as an error record or NoErr.
NoErr == [k |-> "none"]
FirstIn(s, P(_)) == s[CHOOSE i \in DOMAIN s : P(s[i]) /\ \A j \in DOMAIN s : j < i => ~P(s[j])]
CodexVerdict(L, op, cid) ==
    LET missD(a) == a \notin DOMAIN L.dmem
        missI(a) == a \notin L.imm
    IN IF cid # "own" THEN [k |-> "WrongContract", exp |-> "own", found |-> cid]
       ELSE IF \E a \in SRange(op.din) : missD(a) THEN [k |-> "NoReadOnce", addr |-> FirstIn(op.din, missD)]
       ELSE IF \E a \in SRange(op.iin) : missI(a) THEN [k |-> "NoImmutable", addr |-> FirstIn(op.iin, missI)]
       ELSE IF op.call = "none" THEN [k |-> "NotFound"]
       ELSE IF op.call = "fail" THEN [k |-> "Script"]
       ELSE IF \E a \in SRange(op.din) : L.dmem[a] = "bad" THEN [k |-> "Lock"]
       ELSE NoErr

-----------------------------------------------------------------------------
(* The evaluation *)

NoEval == [pc |-> "idle"]
Idle == ev.pc = "idle"

NewEval(p) == [pc |-> "read", p |-> p, first |-> TRUE, live |-> EmptyFcn, acc |-> <<>>,
               b |-> 0, id |-> "-", closed |-> <<>>, isnew |-> FALSE, err |-> NoErr,
               pre |-> EmptyFcn, preLed |-> led[p], reads |-> 0]

B == Blocks[ev.b]

InitWith(g) ==
        /\ led = [p \in Parties |-> GenesisLedger(g)]
        /\ ev = NoEval
        /\ fx = <<>>

Begin(p) == /\ Idle
            /\ ev' = NewEval(p)
            /\ fx' = <<>>
            /\ UNCHANGED led

\* The stream delivers block number b.
Read(b) == /\ ev.pc = "read"
           /\ ev' = [ev EXCEPT !.pc = "genesis", !.b = b, !.reads = @ + 1,
                               !.pre = ev.live, !.preLed = led[ev.p], !.closed = <<>>, !.err = NoErr]
           /\ fx' = <<>>
           /\ UNCHANGED led

\* The stream is over.
ReadEnd == /\ ev.pc = "read"
           /\ ev' = [ev EXCEPT !.pc = "done", !.b = 0, !.reads = @ + 1, !.err = NoErr]
           /\ fx' = <<>>
           /\ UNCHANGED led

\* Reading the stream fails.
ReadFail == /\ ev.pc = "read"
            /\ ev' = [ev EXCEPT !.pc = "done", !.b = 0, !.reads = @ + 1, !.err = [k |-> "Stream"]]
            /\ fx' = <<>>
            /\ UNCHANGED led

Reject(e) == /\ ev' = [ev EXCEPT !.pc = "done", !.err = e]
             /\ UNCHANGED <<led, fx>>

\* The first block must commit to the codex; it is identified under the contract's id.
GenesisGate ==
    /\ ev.pc = "genesis"
    /\ IF ev.first /\ B.op.cid # "codex"
       THEN Reject([k |-> "NoCodex"])
       ELSE /\ ev' = [ev EXCEPT !.pc = "defs", !.id = IF ev.first THEN B.op.gid ELSE B.op.id]
            /\ UNCHANGED <<led, fx>>

\* Every revealed definition must be the one committed to at its position.
DefsMatch(b) == \A e \in SRange(b.seals) :
                   e.pos + 1 \in DOMAIN b.op.dout /\ b.op.dout[e.pos + 1].tok = e.d.tok
CheckDefs ==
    /\ ev.pc = "defs"
    /\ IF ~DefsMatch(B)
       THEN Reject([k |-> "Mismatch", op |-> ev.id,
                    reported |-> {e.d.tok : e \in SRange(B.seals)},
                    defined |-> {c.tok : c \in SRange(B.op.dout)},
                    sources |-> {<<e.pos, e.s>> : e \in SRange(B.seals)}])
       ELSE /\ ev' = [ev EXCEPT !.pc = "inputs"]
            /\ UNCHANGED <<led, fx>>

\* Inputs take their seals out of the live seals, one after another.
CloseInputs ==
    /\ ev.pc = "inputs"
    /\ LET din == B.op.din
           free(i) == din[i] \in DOMAIN ev.live /\ \A j \in 1..(i - 1) : din[j] # din[i]
           bad == {i \in DOMAIN din : ~free(i)}
       IN IF bad # {}
          THEN Reject([k |-> "SealUnknown", addr |-> din[CHOOSE i \in bad : \A j \in bad : i <= j]])
          ELSE /\ ev' = [ev EXCEPT !.pc = "codex",
                                   !.closed = [i \in DOMAIN din |-> ev.live[din[i]]],
                                   !.live = Without(ev.live, SRange(din))]
               /\ UNCHANGED <<led, fx>>

\* New operations are verified by the codex; known ones are not.
EffCid == IF ev.first THEN "own" ELSE B.op.cid
VerifyKnown == /\ ev.pc = "codex" /\ ev.id \in led[ev.p].known
               /\ ev' = [ev EXCEPT !.pc = "witness", !.isnew = FALSE]
               /\ UNCHANGED <<led, fx>>
VerifyNew == /\ ev.pc = "codex" /\ ev.id \notin led[ev.p].known
             /\ LET v == CodexVerdict(led[ev.p], B.op, EffCid) IN
                IF v # NoErr THEN Reject(v)
                ELSE /\ ev' = [ev EXCEPT !.pc = "witness", !.isnew = TRUE]
                     /\ UNCHANGED <<led, fx>>

\* The witness must close all the collected seals over the operation id.
SealErr(closed, id, w) ==
    LET out == {i \in DOMAIN closed : ~Included(closed[i], id, w)} IN
    IF out # {} THEN [k |-> "NotIncluded", op |-> id, w |-> w.id, w2 |-> w.id,
                      seal |-> closed[CHOOSE i \in out : \A j \in out : i <= j]]
    ELSE [k |-> "BadCommitment", op |-> id, w |-> w.id]
CheckWitness ==
    /\ ev.pc = "witness"
    /\ IF ~B.haswit
       THEN IF ev.closed # <<>> THEN Reject([k |-> "NoWitness", op |-> ev.id])
            ELSE ev' = [ev EXCEPT !.pc = "seals"] /\ UNCHANGED <<led, fx>>
       ELSE IF ~Closes(B.wit, ev.closed, ev.id) THEN Reject(SealErr(ev.closed, ev.id, B.wit))
            ELSE ev' = [ev EXCEPT !.pc = "applyWitness"] /\ UNCHANGED <<led, fx>>

ApplyWitness == /\ ev.pc = "applyWitness"
                /\ fx' = Append(fx, <<"wit", ev.id, B.wdig>>)
                /\ ev' = [ev EXCEPT !.pc = "seals"]
                /\ UNCHANGED led

\* Usable definitions join the live seals; relative ones only with the verified witness.
Usable(b) == {i \in DOMAIN b.seals : b.haswit \/ ~IsRelative(b.seals[i].d)}
NewSeals(id, b) ==
    LET n(a) == IF a[2] + 1 \in DOMAIN b.seals /\ b.seals[a[2] + 1].pos = a[2] THEN a[2] + 1    \* as when all are revealed
                ELSE CHOOSE i \in DOMAIN b.seals : b.seals[i].pos = a[2]
        at(a) == b.seals[n(a)].d IN
    [a \in {<<id, b.seals[i].pos>> : i \in Usable(b)} |->
        IF IsRelative(at(a)) THEN Resolve(at(a), b.wit.id) ELSE ToSrc(at(a))]
ExtendSeals == /\ ev.pc = "seals"
               /\ ev' = [ev EXCEPT !.pc = "applyOperation", !.live = Over(NewSeals(ev.id, B), ev.live)]
               /\ UNCHANGED <<led, fx>>

\* New operations except the first of the stream are applied.
ApplyOperation ==
    /\ ev.pc = "applyOperation"
    /\ IF ev.isnew /\ ~ev.first
       THEN /\ led' = [led EXCEPT ![ev.p] = ApplyTo(@, ev.id, B.op)]
            /\ fx' = Append(fx, <<"op", ev.id, B.op.dig>>)
       ELSE UNCHANGED <<led, fx>>
    /\ ev' = [ev EXCEPT !.pc = "applySeals"]

\* Revealed definitions are handed over; the block is accepted.
ApplySeals ==
    /\ ev.pc = "applySeals"
    /\ fx' = IF B.seals = <<>> THEN fx ELSE Append(fx, <<"seals", ev.id, B.sdig>>)
    /\ ev' = [ev EXCEPT !.pc = "accepted"]
    /\ UNCHANGED led

NextBlock == /\ ev.pc = "accepted"
             /\ ev' = [ev EXCEPT !.pc = "read", !.first = FALSE,
                                 !.acc = Append(@, [id |-> ev.id, b |-> ev.b])]
             /\ UNCHANGED <<led, fx>>

\* The result is returned to the caller.
Return == /\ ev.pc = "done"
          /\ ev' = NoEval
          /\ fx' = <<>>
          /\ UNCHANGED led

\* The client's own action between evaluations.
Rollback(p, id) == /\ Idle
                   /\ CanForget(led[p], id)
                   /\ led' = [led EXCEPT ![p] = Forget(@, id)]
                   /\ UNCHANGED <<ev, fx>>

\* Steps the evaluation takes by itself once a block was read.
Internal == \/ GenesisGate \/ CheckDefs \/ CloseInputs \/ VerifyKnown \/ VerifyNew
            \/ CheckWitness \/ ApplyWitness \/ ExtendSeals \/ ApplyOperation \/ ApplySeals

\* A block has been judged.
Judged == ev.pc \in {"accepted", "done"} /\ ev.b # 0
=============================================================================
