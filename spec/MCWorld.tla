------------------------------ MODULE MCWorld ------------------------------
(***************************************************************************)
(* The world around the clients: a ledger of witnesses (a blockchain) in   *)
(* which no output is spent twice, whose reorganisations clients follow by *)
(* rolling back, and clients which evaluate only consignments whose        *)
(* witnesses are in it. What rgb-core contributes is the evaluation; that  *)
(* no two clients ever hold competing operations is what all of it is for. *)
(***************************************************************************)
EXTENDS MC

VARIABLES mined,   \* witnesses (ids) in the ledger; only those which somebody was given matter
          anch,    \* <<client, operation, witness>> delivered and accepted
          clos     \* closings accepted by anybody so far (a history variable)

wvars == <<vars, mined, anch, clos>>

Wits == {Blocks[i].wit : i \in {j \in DOMAIN Blocks : Blocks[j].haswit}}
Spends(t) == UNION {SRange(w.ins) : w \in {x \in Wits : x.id = t}}
Minable(t) == \A u \in mined \ {t} : Spends(u) \cap Spends(t) = {}

WInit == MCInit /\ mined = {} /\ anch = {} /\ clos = {}

\* A block is only evaluated when its witness is, or still can be, in the ledger.
WRead(b) == /\ MCRead(b)
            /\ Blocks[b].haswit => Minable(Blocks[b].wit.id)
            /\ mined' = IF Blocks[b].haswit THEN mined \cup {Blocks[b].wit.id} ELSE mined
            /\ UNCHANGED <<anch, clos>>

WAccept == /\ NextBlock
           /\ anch' = IF B.haswit THEN anch \cup {<<ev.p, ev.id, B.wit.id>>} ELSE anch
           /\ clos' = clos \cup ClosingsOf(H)
           /\ UNCHANGED <<hist, cnt, mined>>

\* A witness drops out of the ledger, after every client has rolled back what it anchors.
\* (Nobody is in the middle of an evaluation.)
WReorg(t) == /\ Idle /\ t \in mined
             /\ \A x \in anch : x[3] = t => x[2] \notin led[x[1]].known
             /\ \A u \in mined : \A s \in Spends(u) : s[1] # t
             /\ mined' = mined \ {t}
             /\ anch' = {x \in anch : x[3] # t}
             /\ UNCHANGED <<vars, clos>>

WRest == /\ \/ \E p \in Parties : MCBegin(p)
            \/ MCFail \/ MCEnd \/ MCInternal
            \/ (Return /\ UNCHANGED <<hist, cnt>>)
            \/ \E p \in Parties, id \in Rollable : MCRoll(p, id)
         /\ UNCHANGED <<mined, anch, clos>>

WNext == WRest \/ (\E b \in DOMAIN Blocks : WRead(b)) \/ WAccept \/ (\E t \in mined : WReorg(t))
WSpec == WInit /\ [][WNext]_wvars

WView == <<View, mined, anch, clos>>

-----------------------------------------------------------------------------
\* Cells whose seal is relative to a witness nothing binds to the operation.
Loose(a) == \E i \in DOMAIN Blocks :
               /\ Blocks[i].op.gid = a[1] \/ Blocks[i].op.id = a[1]
               /\ Blocks[i].op.din = <<>>
               /\ \E s \in SRange(Blocks[i].seals) : s.pos = a[2] /\ IsRelative(s.d)
\* Operations whose history goes through such a cell, or through the finding.
RECURSIVE Tainted(_, _)
Tainted(L, id) == \E a \in SRange(L.ops[id].din) :
                     \/ Loose(a)
                     \/ \E x, y \in clos : x.cell = a /\ y.cell = a /\ C20Known(x, y)
                     \/ a[1] \in L.known /\ Tainted(L, a[1])

\* What it is all for (between two blocks).
NoDoubleSpend == ev.pc \in {"idle", "read", "done"} => \A p, q \in Parties : \A o1 \in led[p].known, o2 \in led[q].known :
    o1 # o2 /\ SRange(led[p].ops[o1].din) \cap SRange(led[q].ops[o2].din) # {}
      => Tainted(led[p], o1) \/ Tainted(led[q], o2)

\* The contribution of the evaluation to it.
Closings20 == \A x, y \in clos : x.cell = y.cell /\ x.op # y.op => Conflict(x, y) \/ C20Known(x, y)
=============================================================================
