----------------------------- MODULE RgbSafety -----------------------------
(***************************************************************************)
(* Proofs, for every catalogue of blocks, every number of clients, streams *)
(* and histories of any length (checked by tlapm; TLC explores the bounded *)
(* instances of the same modules).                                         *)
(*                                                                         *)
(* Nothing is assumed of the blocks but that they are blocks: output       *)
(* positions in a reveal are distinct (they are the keys of a map).        *)
(***************************************************************************)
EXTENDS Props, TLAPS, SequenceTheorems

CONSTANT Ids        \* whatever identifies operations
Cells == Ids \X Nat

ASSUME BlocksOK ==
    /\ 0 \notin DOMAIN Blocks
    /\ \A b \in DOMAIN Blocks :
       /\ Blocks[b].op.id \in Ids /\ Blocks[b].op.gid \in Ids
       /\ Blocks[b].op.din \in Seq(Cells)
       /\ DOMAIN Blocks[b].op.iin \subseteq Nat
       /\ Blocks[b].op.nimm \in Nat
       /\ Len(Blocks[b].op.dout) \in Nat /\ DOMAIN Blocks[b].op.dout = 1..Len(Blocks[b].op.dout)
       /\ \A i \in DOMAIN Blocks[b].seals : Blocks[b].seals[i].pos \in Nat
       /\ \A i, j \in DOMAIN Blocks[b].seals : Blocks[b].seals[i].pos = Blocks[b].seals[j].pos => i = j

Next == \/ \E p \in Parties : Begin(p)
        \/ \E b \in DOMAIN Blocks : Read(b)
        \/ ReadEnd \/ ReadFail \/ Internal \/ NextBlock \/ Return
        \/ \E p \in Parties, id \in Ids : Rollback(p, id)
Spec(g) == InitWith(g) /\ [][Next]_rvars

-----------------------------------------------------------------------------
(* Types *)

Fields == {"pc", "p", "first", "live", "acc", "b", "id", "closed", "isnew", "err", "pre", "preLed", "reads"}
Steps == {"genesis", "defs", "inputs", "codex", "witness", "applyWitness", "seals", "applyOperation", "applySeals", "accepted"}
AccRec == [id : Ids, b : DOMAIN Blocks]

TypeOK == \/ ev = NoEval
          \/ /\ DOMAIN ev = Fields
             /\ ev.pc \in Steps \cup {"read", "done"}
             /\ ev.acc \in Seq(AccRec)
             /\ ev.pc \in Steps => ev.b \in DOMAIN Blocks
             /\ ev.pc \in Steps \ {"genesis"} => ev.id \in Ids

LEMMA TypeInit == ASSUME NEW g, InitWith(g) PROVE TypeOK
  BY DEF InitWith, TypeOK

LEMMA TypeNext == TypeOK /\ [Next]_rvars => TypeOK'
<1> SUFFICES ASSUME TypeOK, [Next]_rvars PROVE TypeOK'
  OBVIOUS
<1> USE DEF TypeOK, Fields, Steps, NoEval
<1>1. CASE UNCHANGED rvars
  BY <1>1 DEF rvars
<1>2. ASSUME NEW p \in Parties, Begin(p) PROVE TypeOK'
  BY <1>2 DEF Begin, NewEval, EmptyFcn
<1>3. ASSUME NEW b \in DOMAIN Blocks, Read(b) PROVE TypeOK'
  BY <1>3 DEF Read
<1>4. CASE ReadEnd
  BY <1>4 DEF ReadEnd
<1>5. CASE ReadFail
  BY <1>5 DEF ReadFail
<1>6. CASE GenesisGate
  BY <1>6, BlocksOK DEF GenesisGate, Reject, B
<1>7. CASE CheckDefs
  BY <1>7 DEF CheckDefs, Reject
<1>8. CASE CloseInputs
  BY <1>8 DEF CloseInputs, Reject
<1>9. CASE VerifyKnown
  BY <1>9 DEF VerifyKnown
<1>10. CASE VerifyNew
  BY <1>10 DEF VerifyNew, Reject
<1>11. CASE CheckWitness
  BY <1>11 DEF CheckWitness, Reject
<1>12. CASE ApplyWitness
  BY <1>12 DEF ApplyWitness
<1>13. CASE ExtendSeals
  <2> DEFINE v == Over(NewSeals(ev.id, B), ev.live)
  <2>1. ev.pc = "seals" /\ ev' = [ev EXCEPT !.pc = "applyOperation", !.live = v]
    BY <1>13 DEF ExtendSeals
  <2> HIDE DEF v
  <2> QED BY <2>1
<1>14. CASE ApplyOperation
  BY <1>14 DEF ApplyOperation
<1>15. CASE ApplySeals
  BY <1>15 DEF ApplySeals
<1>16. CASE NextBlock
  <2>1. [id |-> ev.id, b |-> ev.b] \in AccRec
    BY <1>16 DEF NextBlock, AccRec
  <2>2. Append(ev.acc, [id |-> ev.id, b |-> ev.b]) \in Seq(AccRec)
    BY <1>16, <2>1, AppendProperties DEF NextBlock
  <2> QED BY <1>16, <2>2 DEF NextBlock
<1>17. CASE Return
  BY <1>17 DEF Return
<1>18. ASSUME NEW p \in Parties, NEW id \in Ids, Rollback(p, id) PROVE TypeOK'
  BY <1>18 DEF Rollback
<1> QED
  BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7, <1>8, <1>9, <1>10, <1>11, <1>12, <1>13, <1>14, <1>15, <1>16, <1>17, <1>18
  DEF Next, Internal

-----------------------------------------------------------------------------
(* What is live: the memory of the machine against the accepted blocks *)

\* The last block to reveal a seal for the cell, and nothing consumed it after that.
LiveAt(h, a, i) == /\ i \in Revealing(h, a)
                   /\ \A j \in Revealing(h, a) : j <= i
                   /\ \A j \in Consuming(h, a) : j <= i
LiveIs(f, h) ==
    /\ DOMAIN f \subseteq Cells
    /\ \A a \in Cells : /\ a \in DOMAIN f <=> \E i \in DOMAIN h.prefix : LiveAt(h, a, i)
                        /\ \A i \in DOMAIN h.prefix : LiveAt(h, a, i) => f[a] = SealBy(h.prefix[i], a)
                        /\ Revealing(h, a) = {} \/ \E i \in Revealing(h, a) : \A j \in Revealing(h, a) : j <= i

LEMMA LiveMeans ==
    ASSUME NEW h, h.prefix \in Seq(AccRec), NEW f, LiveIs(f, h), NEW a \in Cells
    PROVE /\ a \in DOMAIN f <=> IsLive(h, a)
          /\ a \in DOMAIN f => f[a] = LiveSeal(h, a) /\ f[a] \in RevealedSeals(h, a)
<1>1. Revealing(h, a) \subseteq Nat
  BY DEF Revealing
<1>2. ASSUME NEW i \in Revealing(h, a), \A j \in Revealing(h, a) : j <= i
      PROVE Max(Revealing(h, a)) = i
  BY <1>1, <1>2 DEF Max
<1>3. CASE Revealing(h, a) = {}
  BY <1>3 DEF LiveIs, LiveAt, IsLive
<1>4. ASSUME NEW i \in Revealing(h, a), \A j \in Revealing(h, a) : j <= i
      PROVE /\ a \in DOMAIN f <=> IsLive(h, a)
            /\ a \in DOMAIN f => f[a] = LiveSeal(h, a) /\ f[a] \in RevealedSeals(h, a)
  <2>1. Max(Revealing(h, a)) = i
    BY <1>2, <1>4
  <2>2. i \in DOMAIN h.prefix
    BY <1>4 DEF Revealing
  <2>3. \A k \in DOMAIN h.prefix : LiveAt(h, a, k) => k = i
    BY <1>1, <1>4 DEF LiveAt, Revealing
  <2>4. IsLive(h, a) <=> LiveAt(h, a, i)
    BY <1>4, <2>1 DEF IsLive, LiveAt
  <2>5. a \in DOMAIN f <=> LiveAt(h, a, i)
    BY <2>2, <2>3 DEF LiveIs
  <2>6. LiveAt(h, a, i) => f[a] = SealBy(h.prefix[i], a)
    BY <2>2 DEF LiveIs
  <2> QED BY <2>1, <2>4, <2>5, <2>6, <1>4 DEF LiveSeal, RevealedSeals
<1> QED BY <1>3, <1>4 DEF LiveIs

\* The seals a block brings.
LEMMA NewSealsMeans ==
    ASSUME NEW b \in DOMAIN Blocks, NEW id \in Ids
    PROVE LET f == NewSeals(id, Blocks[b])
              x == [id |-> id, b |-> b] IN
          /\ DOMAIN f \subseteq Cells
          /\ \A a \in Cells : /\ a \in DOMAIN f <=> Reveals(x, a)
                              /\ a \in DOMAIN f => f[a] = SealBy(x, a)
<1> DEFINE f == NewSeals(id, Blocks[b])
           x == [id |-> id, b |-> b]
           sl == Blocks[b].seals
           us == Usable(Blocks[b])
<1>1. DOMAIN f = {<<id, sl[i].pos>> : i \in us}
  BY DEF NewSeals
<1>2. us \subseteq DOMAIN sl /\ \A i \in DOMAIN sl : i \in us <=> (IsRelative(sl[i].d) => Blocks[b].haswit)
  BY DEF Usable
<1>3. DOMAIN f \subseteq Cells
  BY <1>1, <1>2, BlocksOK DEF Cells
<1>4. ASSUME NEW a \in Cells
      PROVE /\ a \in DOMAIN f <=> Reveals(x, a)
            /\ a \in DOMAIN f => f[a] = SealBy(x, a)
  <2>0. a = <<a[1], a[2]>> /\ a[1] \in Ids /\ a[2] \in Nat
    BY <1>4 DEF Cells
  <2>1. Reveals(x, a) <=> /\ id = a[1]
                          /\ \E i \in DOMAIN sl : sl[i].pos = a[2] /\ (IsRelative(sl[i].d) => Blocks[b].haswit)
    BY DEF Reveals
  <2>2. a \in DOMAIN f <=> Reveals(x, a)
    BY <1>1, <1>2, <2>0, <2>1
  <2>3. ASSUME a \in DOMAIN f PROVE f[a] = SealBy(x, a)
    <3>1. PICK i \in us : a = <<id, sl[i].pos>>
      BY <1>1, <2>3
    <3>2. i \in DOMAIN sl /\ sl[i].pos = a[2] /\ \A j \in DOMAIN sl : sl[j].pos = a[2] => j = i
      BY <3>1, <1>2, BlocksOK
    <3>3. (IF a[2] + 1 \in DOMAIN sl /\ sl[a[2] + 1].pos = a[2] THEN a[2] + 1
           ELSE CHOOSE j \in DOMAIN sl : sl[j].pos = a[2]) = i
      BY <3>2
    <3>4. f[a] = IF IsRelative(sl[i].d) THEN Resolve(sl[i].d, Blocks[b].wit.id) ELSE ToSrc(sl[i].d)
      BY <2>3, <3>3, <1>1 DEF NewSeals
    <3>5. f[a] = Resolve(sl[i].d, Blocks[b].wit.id)
      BY <3>4 DEF Resolve, ToSrc
    <3>6. (CHOOSE s \in SRange(sl) : s.pos = a[2]) = sl[i]
      BY <3>2 DEF SRange
    <3> QED BY <3>5, <3>6 DEF SealBy
  <2> QED BY <2>2, <2>3
<1> QED BY <1>3, <1>4

LEMMA LiveStep ==
    ASSUME NEW acc \in Seq(AccRec), NEW b \in DOMAIN Blocks, NEW id \in Ids, NEW pre, NEW h, NEW h2,
           h.prefix = acc, h2.prefix = Append(acc, [id |-> id, b |-> b]), LiveIs(pre, h)
    PROVE LiveIs(Over(NewSeals(id, Blocks[b]), Without(pre, SRange(Blocks[b].op.din))), h2)
<1> DEFINE x == [id |-> id, b |-> b]
           n == Len(acc) + 1
           din == SRange(Blocks[b].op.din)
           new == NewSeals(id, Blocks[b])
           f == Over(new, Without(pre, din))
<1>0. x \in AccRec
  BY DEF AccRec
<1>1. /\ Len(acc) \in Nat /\ DOMAIN acc = 1..Len(acc)
      /\ h2.prefix \in Seq(AccRec) /\ DOMAIN h2.prefix = 1..n /\ h2.prefix[n] = x
      /\ \A i \in DOMAIN acc : h2.prefix[i] = acc[i]
  BY <1>0, AppendProperties, LenProperties
<1>2. /\ DOMAIN new \subseteq Cells
      /\ \A a \in Cells : /\ a \in DOMAIN new <=> Reveals(x, a)
                          /\ a \in DOMAIN new => new[a] = SealBy(x, a)
  BY NewSealsMeans
<1>3. DOMAIN f = DOMAIN new \cup (DOMAIN pre \ din)
      /\ (\A a \in DOMAIN new : f[a] = new[a])
      /\ (\A a \in (DOMAIN pre \ din) \ DOMAIN new : f[a] = pre[a])
  <2> DEFINE w == Without(pre, din)
  <2>1. DOMAIN w = DOMAIN pre \ din /\ \A a \in DOMAIN w : w[a] = pre[a]
    BY DEF Without
  <2>2. f = Over(new, w)
    OBVIOUS
  <2> HIDE DEF w, new, f, din
  <2> QED BY <2>1, <2>2 DEF Over
<1>4. DOMAIN f \subseteq Cells
  BY <1>2, <1>3 DEF LiveIs
<1>5. ASSUME NEW a \in Cells
      PROVE /\ a \in DOMAIN f <=> \E i \in DOMAIN h2.prefix : LiveAt(h2, a, i)
            /\ \A i \in DOMAIN h2.prefix : LiveAt(h2, a, i) => f[a] = SealBy(h2.prefix[i], a)
            /\ Revealing(h2, a) = {} \/ \E i \in Revealing(h2, a) : \A j \in Revealing(h2, a) : j <= i
  <2> USE <1>5
  <2> HIDE DEF new, f
  <2>1. Revealing(h2, a) = Revealing(h, a) \cup (IF Reveals(x, a) THEN {n} ELSE {})
    BY <1>1 DEF Revealing
  <2>2. Consuming(h2, a) = Consuming(h, a) \cup (IF a \in din THEN {n} ELSE {})
    BY <1>1 DEF Consuming
  <2>3. Revealing(h, a) \subseteq 1..Len(acc) /\ Consuming(h, a) \subseteq 1..Len(acc)
    BY <1>1 DEF Revealing, Consuming
  <2>4. CASE Reveals(x, a)
    <3>1. a \in DOMAIN f /\ f[a] = SealBy(x, a)
      BY <2>4, <1>2, <1>3
    <3>2. LiveAt(h2, a, n)
      BY <2>1, <2>2, <2>3, <2>4, <1>1 DEF LiveAt
    <3>3. \A i \in DOMAIN h2.prefix : LiveAt(h2, a, i) => i = n
      BY <2>1, <2>3, <2>4, <1>1 DEF LiveAt
    <3>4. \A j \in Revealing(h2, a) : j <= n
      BY <2>1, <2>3, <1>1
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <1>1, <2>1, <2>4
  <2>5. CASE ~Reveals(x, a) /\ a \in din
    <3>1. a \notin DOMAIN f
      BY <2>5, <1>2, <1>3
    <3>2. \A i \in DOMAIN h2.prefix : ~LiveAt(h2, a, i)
      BY <2>1, <2>2, <2>3, <2>5, <1>1 DEF LiveAt
    <3> QED BY <3>1, <3>2, <2>1, <2>5 DEF LiveIs
  <2>6. CASE ~Reveals(x, a) /\ a \notin din
    <3>1. a \in DOMAIN f <=> a \in DOMAIN pre
      BY <2>6, <1>2, <1>3
    <3>2. a \in DOMAIN f => f[a] = pre[a]
      BY <2>6, <1>2, <1>3
    <3>3. \A i : LiveAt(h2, a, i) <=> LiveAt(h, a, i)
      BY <2>1, <2>2, <2>6 DEF LiveAt
    <3>4. \A i : LiveAt(h, a, i) => i \in DOMAIN acc
      BY DEF LiveAt, Revealing
    <3>5. /\ a \in DOMAIN pre <=> \E i \in DOMAIN acc : LiveAt(h, a, i)
          /\ \A i \in DOMAIN acc : LiveAt(h, a, i) => pre[a] = SealBy(acc[i], a)
          /\ Revealing(h, a) = {} \/ \E i \in Revealing(h, a) : \A j \in Revealing(h, a) : j <= i
      BY DEF LiveIs
    <3>6. DOMAIN acc \subseteq DOMAIN h2.prefix
      BY <1>1
    <3>7. a \in DOMAIN f <=> \E i \in DOMAIN h2.prefix : LiveAt(h2, a, i)
      BY <3>1, <3>3, <3>4, <3>5, <3>6
    <3>8. \A i \in DOMAIN h2.prefix : LiveAt(h2, a, i) => f[a] = SealBy(h2.prefix[i], a)
      BY <3>1, <3>2, <3>3, <3>4, <3>5, <3>7, <1>1
    <3> QED BY <3>5, <3>7, <3>8, <2>1, <2>6
  <2> QED BY <2>4, <2>5, <2>6
<1> QED BY <1>4, <1>5 DEF LiveIs
=============================================================================
