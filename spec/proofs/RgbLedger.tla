----------------------------- MODULE RgbLedger -----------------------------
(***************************************************************************)
(* The ledger over all evaluations and roll-backs: no cell is ever         *)
(* destroyed twice (C02), and the memory is a function of the known        *)
(* operations and of nothing else (C16).                                   *)
(***************************************************************************)
EXTENDS RgbProps

CONSTANT Operation(_)      \* what an id stands for: [din, iin, nd, ni, lock]

\* Ids are commitments: operations with one id have the same content. Inputs do not refer to the operation itself.
ASSUME IdsOK ==
    /\ \A b \in DOMAIN Blocks :
          LET op == Blocks[b].op IN
          /\ Operation(op.id).din = op.din /\ Operation(op.id).iin = op.iin
          /\ Operation(op.id).nd = Len(op.dout) /\ Operation(op.id).ni = op.nimm
          /\ \A i \in DOMAIN op.dout : op.dout[i].lock = Operation(op.id).lock[i - 1]
          /\ \A a \in SRange(op.din) : a[1] # op.id /\ a[1] # op.gid

ASSUME NoSelf == \A id \in Ids : \A a \in SRange(Operation(id).din) : a[1] # id

GenesisOK(g) == /\ g.gid \in Ids /\ Len(g.dout) \in Nat /\ DOMAIN g.dout = 1..Len(g.dout) /\ g.nimm \in Nat
                /\ Operation(g.gid).din = <<>> /\ Operation(g.gid).iin = <<>>
                /\ Operation(g.gid).nd = Len(g.dout) /\ Operation(g.gid).ni = g.nimm
                /\ \A i \in DOMAIN g.dout : g.dout[i].lock = Operation(g.gid).lock[i - 1]

-----------------------------------------------------------------------------
LFields == {"gen", "known", "dmem", "imm", "spent", "ops"}
LockOf(a) == Operation(a[1]).lock[a[2]]

LOK(L) ==
    /\ DOMAIN L = LFields
    /\ L.known \subseteq Ids /\ L.gen \in L.known
    /\ DOMAIN L.ops = L.known
    /\ \A o \in L.known : /\ L.ops[o].din = Operation(o).din /\ L.ops[o].iin = Operation(o).iin
                          /\ L.ops[o].nd = Operation(o).nd /\ L.ops[o].ni = Operation(o).ni
                          /\ Operation(o).nd \in Nat /\ Operation(o).ni \in Nat
    /\ DOMAIN L.dmem = Created(L) \ Destroyed(L)
    /\ Destroyed(L) \subseteq Created(L)
    /\ DOMAIN L.spent = Destroyed(L)
    /\ L.imm = Written(L)
    /\ \A a \in DOMAIN L.dmem : L.dmem[a] = LockOf(a)
    /\ \A a \in DOMAIN L.spent : L.spent[a].lock = LockOf(a) /\ L.spent[a].by \in L.known /\ a \in SRange(L.ops[L.spent[a].by].din)
    /\ \A o1, o2 \in L.known : o1 # o2 => SRange(L.ops[o1].din) \cap SRange(L.ops[o2].din) = {}

LEMMA CreatedIs == ASSUME NEW L PROVE
    /\ \A a : a \in Created(L) <=> \E o \in DOMAIN L.ops : \E i \in 0..(L.ops[o].nd - 1) : a = <<o, i>>
    /\ \A a : a \in Destroyed(L) <=> \E o \in DOMAIN L.ops : a \in SRange(L.ops[o].din)
    /\ \A a : a \in Written(L) <=> \E o \in DOMAIN L.ops : \E i \in 0..(L.ops[o].ni - 1) : a = <<o, i>>
  BY DEF Created, Destroyed, Written

LEMMA NewCellsAre ==
    ASSUME NEW id, NEW op, Len(op.dout) \in Nat, DOMAIN op.dout = 1..Len(op.dout),
           \A i \in DOMAIN op.dout : op.dout[i].lock = Operation(id).lock[i - 1]
    PROVE /\ DOMAIN NewCells(id, op) = {<<id, i>> : i \in 0..(Len(op.dout) - 1)}
          /\ \A a \in DOMAIN NewCells(id, op) : NewCells(id, op)[a] = LockOf(a)
<1>1. DOMAIN NewCells(id, op) = DOuts(id, op)
  BY DEF NewCells
<1>2. \A i \in 0..(Len(op.dout) - 1) : i + 1 \in DOMAIN op.dout /\ (i + 1) - 1 = i
  OBVIOUS
<1>3. DOuts(id, op) = {<<id, i>> : i \in 0..(Len(op.dout) - 1)}
  BY <1>2 DEF DOuts
<1>4. ASSUME NEW a \in DOMAIN NewCells(id, op) PROVE NewCells(id, op)[a] = LockOf(a)
  <2>1. PICK i \in 0..(Len(op.dout) - 1) : a = <<id, i>>
    BY <1>1, <1>3
  <2>2. NewCells(id, op)[a] = op.dout[i + 1].lock
    BY <1>1, <2>1 DEF NewCells
  <2> QED BY <1>2, <2>1, <2>2 DEF LockOf
<1> QED BY <1>1, <1>3, <1>4

LEMMA GenesisLOK == ASSUME NEW g, GenesisOK(g) PROVE LOK(GenesisLedger(g))
<1> DEFINE L == GenesisLedger(g)
           sh == [Shape(g) EXCEPT !.din = <<>>, !.iin = <<>>]
<1>1. /\ DOMAIN L = LFields /\ L.gen = g.gid /\ L.known = {g.gid} /\ L.dmem = NewCells(g.gid, g) /\ L.imm = IOuts(g.gid, g)
      /\ L.spent = EmptyFcn /\ L.ops = (g.gid :> sh)
  BY DEF GenesisLedger, LFields
<1>2. sh.din = <<>> /\ sh.iin = <<>> /\ sh.nd = Len(g.dout) /\ sh.ni = g.nimm
  BY DEF Shape
<1> HIDE DEF sh
<1>3. DOMAIN L.ops = {g.gid} /\ L.ops[g.gid] = sh
  BY <1>1
<1> HIDE DEF L
<1>4. /\ \A a : a \in Created(L) <=> \E i \in 0..(Len(g.dout) - 1) : a = <<g.gid, i>>
      /\ Destroyed(L) = {}
      /\ \A a : a \in Written(L) <=> \E i \in 0..(g.nimm - 1) : a = <<g.gid, i>>
  BY <1>2, <1>3, CreatedIs DEF SRange
<1>5. DOMAIN L.dmem = Created(L) /\ \A a \in DOMAIN L.dmem : L.dmem[a] = LockOf(a)
  <2>1. /\ DOMAIN NewCells(g.gid, g) = {<<g.gid, i>> : i \in 0..(Len(g.dout) - 1)}
        /\ \A a \in DOMAIN NewCells(g.gid, g) : NewCells(g.gid, g)[a] = LockOf(a)
    BY NewCellsAre DEF GenesisOK
  <2>2. L.dmem = NewCells(g.gid, g)
    BY <1>1
  <2>3. \A a : a \in DOMAIN L.dmem <=> a \in Created(L)
    BY <1>4, <2>1, <2>2
  <2> QED BY <2>1, <2>2, <2>3
<1>6. L.imm = Written(L)
  BY <1>1, <1>4 DEF IOuts
<1>7. DOMAIN L.spent = {}
  BY <1>1 DEF EmptyFcn
<1> QED BY <1>1, <1>2, <1>3, <1>4, <1>5, <1>6, <1>7 DEF LOK, GenesisOK, L

LEMMA ApplyLOK ==
    ASSUME NEW L, LOK(L), NEW b \in DOMAIN Blocks, NEW id, id = Blocks[b].op.id, id \notin L.known,
           \A a \in SRange(Blocks[b].op.din) : a \in DOMAIN L.dmem
    PROVE LOK(ApplyTo(L, id, Blocks[b].op))
<1> DEFINE op == Blocks[b].op
           ins == SRange(op.din)
           new == NewCells(id, op)
           old == Without(L.dmem, ins)
           gone == [a \in ins \cap DOMAIN L.dmem |-> [by |-> id, lock |-> L.dmem[a]]]
           M == ApplyTo(L, id, op)
<1>1. /\ DOMAIN M = LFields /\ M.gen = L.gen /\ M.known = L.known \cup {id} /\ M.dmem = Over(new, old)
      /\ M.imm = L.imm \cup IOuts(id, op) /\ M.spent = Over(gone, L.spent) /\ M.ops = Over(id :> Shape(op), L.ops)
  BY DEF ApplyTo, LOK, LFields
<1>2. /\ Shape(op).din = op.din /\ Shape(op).iin = op.iin /\ Shape(op).nd = Len(op.dout) /\ Shape(op).ni = op.nimm
      /\ Len(op.dout) \in Nat /\ op.nimm \in Nat /\ id \in Ids /\ DOMAIN op.dout = 1..Len(op.dout)
  BY BlocksOK DEF Shape
<1>3. /\ Operation(id).din = op.din /\ Operation(id).iin = op.iin /\ Operation(id).nd = Len(op.dout) /\ Operation(id).ni = op.nimm
      /\ \A i \in DOMAIN op.dout : op.dout[i].lock = Operation(id).lock[i - 1]
      /\ \A a \in ins : a[1] # id
  BY IdsOK
<1>4. /\ DOMAIN new = {<<id, i>> : i \in 0..(Len(op.dout) - 1)}
      /\ \A a \in DOMAIN new : new[a] = LockOf(a)
  BY <1>2, <1>3, NewCellsAre
<1>5. DOMAIN old = DOMAIN L.dmem \ ins /\ \A a \in DOMAIN old : old[a] = LockOf(a)
  BY DEF Without, LOK
<1>6. DOMAIN gone = ins /\ \A a \in ins : gone[a].by = id /\ gone[a].lock = LockOf(a)
  BY DEF LOK
<1> HIDE DEF new, old, gone, M
<1>7. /\ DOMAIN M.dmem = DOMAIN new \cup DOMAIN old /\ \A a \in DOMAIN M.dmem : M.dmem[a] = LockOf(a)
      /\ DOMAIN M.spent = ins \cup DOMAIN L.spent
      /\ \A a \in DOMAIN M.spent : IF a \in ins THEN M.spent[a] = gone[a] ELSE M.spent[a] = L.spent[a]
      /\ DOMAIN M.ops = L.known \cup {id} /\ M.ops[id] = Shape(op) /\ \A o \in L.known : M.ops[o] = L.ops[o]
  <2>1. DOMAIN M.dmem = DOMAIN new \cup DOMAIN old /\ \A a \in DOMAIN M.dmem : M.dmem[a] = LockOf(a)
    <3>1. M.dmem = Over(new, old)
      BY <1>1
    <3>2. \A a \in DOMAIN new : Over(new, old)[a] = new[a]
      BY DEF Over
    <3>3. \A a \in DOMAIN old \ DOMAIN new : Over(new, old)[a] = old[a]
      BY DEF Over
    <3>4. DOMAIN Over(new, old) = DOMAIN new \cup DOMAIN old
      BY DEF Over
    <3>5. (\A a \in DOMAIN new : new[a] = LockOf(a)) /\ (\A a \in DOMAIN old : old[a] = LockOf(a))
      BY <1>4, <1>5
    <3> QED BY <3>1, <3>2, <3>3, <3>4, <3>5
  <2>2. /\ DOMAIN M.spent = ins \cup DOMAIN L.spent
        /\ \A a \in DOMAIN M.spent : IF a \in ins THEN M.spent[a] = gone[a] ELSE M.spent[a] = L.spent[a]
    BY <1>1, <1>6 DEF Over
  <2>3. DOMAIN M.ops = L.known \cup {id} /\ M.ops[id] = Shape(op) /\ \A o \in L.known : M.ops[o] = L.ops[o]
    BY <1>1 DEF LOK, Over
  <2> QED BY <2>1, <2>2, <2>3
<1>8. \A a : a \in Created(M) <=> a \in Created(L) \/ a \in DOMAIN new
  <2>1. \A a : a \in Created(M) <=> \E o \in L.known \cup {id} : \E i \in 0..(M.ops[o].nd - 1) : a = <<o, i>>
    BY <1>7, CreatedIs
  <2>2. \A a : a \in Created(L) <=> \E o \in L.known : \E i \in 0..(L.ops[o].nd - 1) : a = <<o, i>>
    BY CreatedIs DEF LOK
  <2>3. \A a : a \in DOMAIN new <=> \E i \in 0..(M.ops[id].nd - 1) : a = <<id, i>>
    BY <1>2, <1>4, <1>7
  <2> QED BY <1>7, <2>1, <2>2, <2>3
<1>9. \A a : a \in Destroyed(M) <=> a \in Destroyed(L) \/ a \in ins
  BY <1>2, <1>7, CreatedIs DEF LOK
<1>10. M.imm = Written(M)
  <2>1. \A a : a \in Written(M) <=> \E o \in L.known \cup {id} : \E i \in 0..(M.ops[o].ni - 1) : a = <<o, i>>
    BY <1>7, CreatedIs
  <2>2. \A a : a \in Written(L) <=> \E o \in L.known : \E i \in 0..(L.ops[o].ni - 1) : a = <<o, i>>
    BY CreatedIs DEF LOK
  <2>3. \A a : a \in IOuts(id, op) <=> \E i \in 0..(M.ops[id].ni - 1) : a = <<id, i>>
    BY <1>2, <1>7 DEF IOuts
  <2>4. \A a : a \in Written(M) <=> a \in Written(L) \/ a \in IOuts(id, op)
    BY <1>7, <2>1, <2>2, <2>3
  <2> QED BY <1>1, <2>4 DEF LOK
<1>11. ins \subseteq DOMAIN L.dmem
  OBVIOUS
<1>12. \A a \in DOMAIN new : a \notin Created(L)
  <2>1. \A a \in Created(L) : a[1] \in L.known
    BY CreatedIs DEF LOK
  <2> QED BY <1>4, <2>1
<1>13. DOMAIN M.dmem = Created(M) \ Destroyed(M)
  BY <1>5, <1>7, <1>8, <1>9, <1>11, <1>12 DEF LOK
<1>14. Destroyed(M) \subseteq Created(M) /\ DOMAIN M.spent = Destroyed(M)
  BY <1>7, <1>8, <1>9, <1>11 DEF LOK
<1>15. \A a \in DOMAIN M.spent : M.spent[a].lock = LockOf(a) /\ M.spent[a].by \in M.known /\ a \in SRange(M.ops[M.spent[a].by].din)
  <2> TAKE a \in DOMAIN M.spent
  <2>1. M.known = L.known \cup {id}
    BY <1>1
  <2>2. CASE a \in ins
    <3>1. M.spent[a] = gone[a] /\ gone[a].by = id /\ gone[a].lock = LockOf(a)
      BY <1>6, <1>7, <2>2
    <3>2. SRange(M.ops[id].din) = ins
      BY <1>2, <1>7
    <3> QED BY <2>1, <2>2, <3>1, <3>2
  <2>3. CASE a \notin ins
    <3>1. M.spent[a] = L.spent[a] /\ a \in DOMAIN L.spent
      BY <1>7, <2>3
    <3>2. L.spent[a].lock = LockOf(a) /\ L.spent[a].by \in L.known /\ a \in SRange(L.ops[L.spent[a].by].din)
      BY <3>1 DEF LOK
    <3> QED BY <1>7, <2>1, <3>1, <3>2
  <2> QED BY <2>2, <2>3
<1>16. ins \cap Destroyed(L) = {}
  BY <1>11 DEF LOK
<1>17. \A o1, o2 \in M.known : o1 # o2 => SRange(M.ops[o1].din) \cap SRange(M.ops[o2].din) = {}
  <2>1. \A o \in L.known : SRange(M.ops[o].din) \subseteq Destroyed(L)
    BY <1>7, CreatedIs DEF LOK
  <2>2. SRange(M.ops[id].din) = ins
    BY <1>2, <1>7
  <2>3. \A o1, o2 \in L.known : o1 # o2 => SRange(M.ops[o1].din) \cap SRange(M.ops[o2].din) = {}
    BY <1>7 DEF LOK
  <2> QED BY <1>1, <1>16, <2>1, <2>2, <2>3
<1>18. \A o \in M.known : /\ M.ops[o].din = Operation(o).din /\ M.ops[o].iin = Operation(o).iin
                          /\ M.ops[o].nd = Operation(o).nd /\ M.ops[o].ni = Operation(o).ni
                          /\ Operation(o).nd \in Nat /\ Operation(o).ni \in Nat
  <2>1. M.known = L.known \cup {id}
    BY <1>1
  <2>2. \A o \in L.known : /\ L.ops[o].din = Operation(o).din /\ L.ops[o].iin = Operation(o).iin
                           /\ L.ops[o].nd = Operation(o).nd /\ L.ops[o].ni = Operation(o).ni
                           /\ Operation(o).nd \in Nat /\ Operation(o).ni \in Nat
    BY DEF LOK
  <2> QED BY <1>2, <1>3, <1>7, <2>1, <2>2
<1>19. M.known \subseteq Ids /\ M.gen \in M.known /\ DOMAIN M.ops = M.known
  BY <1>1, <1>2, <1>7 DEF LOK
<1>20. LOK(M)
  BY <1>1, <1>7, <1>10, <1>13, <1>14, <1>15, <1>17, <1>18, <1>19 DEF LOK
<1> QED BY <1>20 DEF M

LEMMA ForgetLOK == ASSUME NEW L, LOK(L), NEW id, CanForget(L, id) PROVE LOK(Forget(L, id))
<1> DEFINE back == {a \in DOMAIN L.spent : L.spent[a].by = id}
           again == [a \in back |-> L.spent[a].lock]
           rest == {x \in DOMAIN L.dmem : x[1] # id}
           kept == [a \in rest |-> L.dmem[a]]
           M == Forget(L, id)
<1>1. /\ DOMAIN M = LFields /\ M.gen = L.gen /\ M.known = L.known \ {id} /\ M.dmem = Over(again, kept)
      /\ M.imm = {a \in L.imm : a[1] # id} /\ M.spent = Without(L.spent, back) /\ M.ops = Without(L.ops, {id})
  BY DEF Forget, LOK, LFields
<1>2. /\ id \in L.known /\ id # L.gen
      /\ \A o \in L.known \ {id} : \A a \in SRange(L.ops[o].din) \cup SRange(L.ops[o].iin) : a[1] # id
  BY DEF CanForget
<1>3. DOMAIN again = back /\ (\A a \in back : again[a] = LockOf(a)) /\ DOMAIN kept = rest /\ (\A a \in rest : kept[a] = LockOf(a))
  BY DEF LOK
<1>4. back = SRange(L.ops[id].din)
  <2>1. \A a \in back : a \in SRange(L.ops[id].din)
    BY DEF LOK
  <2>2. ASSUME NEW a \in SRange(L.ops[id].din) PROVE a \in back
    <3>1. a \in Destroyed(L)
      BY <1>2, CreatedIs DEF LOK
    <3>2. a \in DOMAIN L.spent /\ L.spent[a].by \in L.known /\ a \in SRange(L.ops[L.spent[a].by].din)
      BY <3>1 DEF LOK
    <3>3. L.spent[a].by = id
      BY <1>2, <2>2, <3>2 DEF LOK
    <3> QED BY <3>2, <3>3
  <2> QED BY <2>1, <2>2
<1> HIDE DEF back, again, kept, M
<1>5. /\ DOMAIN M.dmem = back \cup rest /\ \A a \in DOMAIN M.dmem : M.dmem[a] = LockOf(a)
  BY <1>1, <1>3 DEF Over
<1>6. /\ DOMAIN M.spent = DOMAIN L.spent \ back /\ \A a \in DOMAIN M.spent : M.spent[a] = L.spent[a]
      /\ M.known = L.known \ {id} /\ DOMAIN M.ops = L.known \ {id} /\ \A o \in L.known \ {id} : M.ops[o] = L.ops[o]
  <2>1. M.spent = Without(L.spent, back) /\ M.ops = Without(L.ops, {id}) /\ M.known = L.known \ {id} /\ DOMAIN L.ops = L.known
    BY <1>1 DEF LOK
  <2> QED BY <2>1 DEF Without
<1>7. \A a : a \in Created(M) <=> a \in Created(L) /\ a[1] # id
  <2>1. \A a : a \in Created(M) <=> \E o \in L.known \ {id} : \E i \in 0..(L.ops[o].nd - 1) : a = <<o, i>>
    BY <1>6, CreatedIs
  <2>2. \A a : a \in Created(L) <=> \E o \in L.known : \E i \in 0..(L.ops[o].nd - 1) : a = <<o, i>>
    BY CreatedIs DEF LOK
  <2> QED BY <2>1, <2>2
<1>8. \A a : a \in Destroyed(M) <=> a \in Destroyed(L) /\ a \notin back
  <2>1. \A a : a \in Destroyed(M) <=> \E o \in L.known \ {id} : a \in SRange(L.ops[o].din)
    BY <1>6, CreatedIs
  <2>2. \A a : a \in Destroyed(L) <=> \E o \in L.known : a \in SRange(L.ops[o].din)
    BY CreatedIs DEF LOK
  <2> QED BY <1>2, <1>4, <2>1, <2>2 DEF LOK
<1>9. M.imm = Written(M)
  <2>1. \A a : a \in Written(M) <=> \E o \in L.known \ {id} : \E i \in 0..(L.ops[o].ni - 1) : a = <<o, i>>
    BY <1>6, CreatedIs
  <2>2. \A a : a \in Written(L) <=> \E o \in L.known : \E i \in 0..(L.ops[o].ni - 1) : a = <<o, i>>
    BY CreatedIs DEF LOK
  <2>3. \A a : a \in Written(M) <=> a \in Written(L) /\ a[1] # id
    BY <2>1, <2>2
  <2> QED BY <1>1, <2>3 DEF LOK
<1>10. back \subseteq Destroyed(L) /\ back \subseteq Created(L)
  BY <1>2, <1>4, CreatedIs DEF LOK
<1>11. \A a \in Destroyed(M) : a[1] # id
  BY <1>2, <1>6, CreatedIs
<1>12. \A a \in back : a[1] # id
  <2>1. L.ops[id].din = Operation(id).din
    BY <1>2 DEF LOK
  <2> QED BY <1>2, <1>4, <2>1, NoSelf DEF LOK
<1>13. DOMAIN M.dmem = Created(M) \ Destroyed(M)
  <2>1. \A a : a \in DOMAIN L.dmem <=> a \in Created(L) /\ a \notin Destroyed(L)
    BY DEF LOK
  <2>2. \A a : a \in DOMAIN M.dmem <=> a \in back \/ (a \in DOMAIN L.dmem /\ a[1] # id)
    BY <1>5
  <2>3. \A a : a \in DOMAIN M.dmem <=> a \in Created(M) /\ a \notin Destroyed(M)
    BY <1>7, <1>8, <1>10, <1>12, <2>1, <2>2
  <2> QED BY <2>3
<1>14. Destroyed(M) \subseteq Created(M)
  BY <1>7, <1>8, <1>11 DEF LOK
<1>15. DOMAIN M.spent = Destroyed(M)
  BY <1>6, <1>8 DEF LOK
<1>16. \A a \in DOMAIN M.spent : M.spent[a].lock = LockOf(a) /\ M.spent[a].by \in M.known /\ a \in SRange(M.ops[M.spent[a].by].din)
  <2> TAKE a \in DOMAIN M.spent
  <2>1. M.spent[a] = L.spent[a] /\ a \in DOMAIN L.spent /\ a \notin back
    BY <1>6
  <2>2. L.spent[a].by # id
    BY <2>1 DEF back
  <2>3. L.spent[a].lock = LockOf(a) /\ L.spent[a].by \in L.known /\ a \in SRange(L.ops[L.spent[a].by].din)
    BY <2>1 DEF LOK
  <2> QED BY <1>6, <2>1, <2>2, <2>3
<1>17. \A o1, o2 \in M.known : o1 # o2 => SRange(M.ops[o1].din) \cap SRange(M.ops[o2].din) = {}
  <2>1. \A o1, o2 \in L.known : o1 # o2 => SRange(L.ops[o1].din) \cap SRange(L.ops[o2].din) = {}
    BY DEF LOK
  <2> QED BY <1>6, <2>1
<1>18. \A o \in M.known : /\ M.ops[o].din = Operation(o).din /\ M.ops[o].iin = Operation(o).iin
                          /\ M.ops[o].nd = Operation(o).nd /\ M.ops[o].ni = Operation(o).ni
                          /\ Operation(o).nd \in Nat /\ Operation(o).ni \in Nat
  <2>2. \A o \in L.known : /\ L.ops[o].din = Operation(o).din /\ L.ops[o].iin = Operation(o).iin
                           /\ L.ops[o].nd = Operation(o).nd /\ L.ops[o].ni = Operation(o).ni
                           /\ Operation(o).nd \in Nat /\ Operation(o).ni \in Nat
    BY DEF LOK
  <2> QED BY <1>6, <2>2
<1>19. M.known \subseteq Ids /\ M.gen \in M.known
  BY <1>1, <1>2 DEF LOK
<1>20. LOK(M)
  BY <1>1, <1>5, <1>6, <1>9, <1>13, <1>14, <1>15, <1>16, <1>17, <1>18, <1>19 DEF LOK
<1> QED BY <1>20 DEF M

-----------------------------------------------------------------------------
(* Over all evaluations and roll-backs *)

AccOK(x) == x.id \in {Blocks[x.b].op.id, Blocks[x.b].op.gid} /\ RuleDefs(x)
AccIds == \A i \in DOMAIN ev.acc : AccOK(ev.acc[i])
LedInv == /\ \A p \in Parties : LOK(led[p])
          /\ ev.pc # "idle" => LOK(ev.preLed) /\ AccIds

FullInv == Inv /\ LedInv

LEMMA VerdictHolds ==
    ASSUME NEW L, NEW op, NEW cid, CodexVerdict(L, op, cid) = NoErr
    PROVE \A a \in SRange(op.din) : a \in DOMAIN L.dmem
<1> SUFFICES ASSUME NEW a \in SRange(op.din), a \notin DOMAIN L.dmem PROVE FALSE
  OBVIOUS
<1>1. CASE cid # "own"
  BY <1>1 DEF CodexVerdict, NoErr
<1>2. CASE cid = "own"
  <2> DEFINE missD(x) == x \notin DOMAIN L.dmem
             e == [k |-> "NoReadOnce", addr |-> FirstIn(op.din, missD)]
  <2>1. CodexVerdict(L, op, cid) = e
    BY <1>2 DEF CodexVerdict
  <2>2. e.k = "NoReadOnce" /\ NoErr.k = "none"
    BY DEF NoErr
  <2> QED BY <2>1, <2>2
<1> QED BY <1>1, <1>2

LEMMA LedgerInit == ASSUME NEW g, GenesisOK(g), InitWith(g) PROVE LedInv
  BY GenesisLOK DEF InitWith, LedInv, NoEval

LEMMA LedgerNext == ASSUME FullInv, [Next]_rvars PROVE LedInv'
<1> USE DEF FullInv
<1>0. /\ LedType
      /\ ev.pc # "idle" => ev.p \in Parties /\ DOMAIN ev = Fields
  <2>1. ev.pc # "idle" => ev # NoEval
    BY DEF NoEval
  <2> QED BY <2>1 DEF Inv, EvalInv, TypeOK
\* Steps which change neither the ledger nor what was accepted.
<1>1. ASSUME led' = led, ev.pc # "idle", ev'.acc = ev.acc, ev'.preLed = ev.preLed PROVE LedInv'
  BY <1>1 DEF LedInv, AccIds
<1>2. CASE UNCHANGED rvars
  BY <1>2 DEF LedInv, AccIds, rvars
<1>3. ASSUME NEW p \in Parties, Begin(p) PROVE LedInv'
  <2>1. ev' = NewEval(p) /\ led' = led
    BY <1>3 DEF Begin
  <2>2. ev'.preLed = led[p] /\ ev'.acc = <<>>
    BY <2>1 DEF NewEval
  <2> QED BY <2>1, <2>2 DEF LedInv, AccIds
<1>4. ASSUME NEW b \in DOMAIN Blocks, Read(b) PROVE LedInv'
  <2>1. ev.pc = "read" /\ led' = led /\ ev'.preLed = led[ev.p] /\ ev'.acc = ev.acc
    BY <1>0, <1>4 DEF Read, Fields
  <2> QED BY <1>0, <2>1 DEF LedInv, AccIds
<1>5. CASE ReadEnd \/ ReadFail
  BY <1>0, <1>1, <1>5 DEF ReadEnd, ReadFail, Fields
<1>6. ASSUME NEW e, Reject(e), ev.pc # "idle" PROVE LedInv'
  BY <1>0, <1>1, <1>6 DEF Reject, Fields
<1>7. CASE GenesisGate
  BY <1>0, <1>1, <1>6, <1>7 DEF GenesisGate, Fields
<1>8. CASE CheckDefs
  BY <1>0, <1>1, <1>6, <1>8 DEF CheckDefs, Fields
<1>9. CASE CloseInputs
  BY <1>0, <1>1, <1>6, <1>9 DEF CloseInputs, Fields
<1>10. CASE VerifyKnown
  BY <1>0, <1>1, <1>10 DEF VerifyKnown, Fields
<1>11. CASE VerifyNew
  BY <1>0, <1>1, <1>6, <1>11 DEF VerifyNew, Fields
<1>12. CASE CheckWitness
  BY <1>0, <1>1, <1>6, <1>12 DEF CheckWitness, Fields
<1>13. CASE ApplyWitness
  BY <1>0, <1>1, <1>13 DEF ApplyWitness, Fields
<1>14. CASE ExtendSeals
  <2> DEFINE v == Over(NewSeals(ev.id, B), ev.live)
  <2>1. ev.pc = "seals" /\ ev' = [ev EXCEPT !.pc = "applyOperation", !.live = v] /\ led' = led
    BY <1>14 DEF ExtendSeals
  <2> HIDE DEF v
  <2> QED BY <1>0, <1>1, <2>1 DEF Fields
<1>15. CASE ApplyOperation
  <2>1. ev.pc = "applyOperation" /\ ev' = [ev EXCEPT !.pc = "applySeals"]
    BY <1>15 DEF ApplyOperation
  <2>2. ev'.acc = ev.acc /\ ev'.preLed = ev.preLed
    BY <1>0, <2>1 DEF Fields
  <2>3. CASE ~(ev.isnew /\ ~ev.first)
    <3>1. led' = led
      BY <1>15, <2>3 DEF ApplyOperation
    <3> QED BY <1>1, <2>1, <2>2, <3>1
  <2>4. CASE ev.isnew /\ ~ev.first
    <3>1. led' = [led EXCEPT ![ev.p] = ApplyTo(led[ev.p], ev.id, B.op)]
      BY <1>15, <2>4 DEF ApplyOperation
    <3>2. /\ ev.b \in DOMAIN Blocks /\ led[ev.p] = ev.preLed /\ ev.id = Id(H) /\ RuleCodex(H) /\ ev.isnew = ~Known(H)
      BY <2>1, InBlock DEF Inv, EvalInv, Steps, AfterGate, AfterCodex, AfterOperation
    <3>3. /\ Op(H) = Blocks[ev.b].op /\ B = Blocks[ev.b] /\ Id(H) = Blocks[ev.b].op.id
      BY <2>4, HIs DEF Op, Blk, Id, B
    <3>4. ev.id \notin ev.preLed.known
      BY <2>4, <3>2, HIs DEF Known
    <3>5. CodexVerdict(ev.preLed, Blocks[ev.b].op, Cid(H)) = NoErr
      BY <2>4, <3>2, <3>3, HIs DEF RuleCodex
    <3>6. \A a \in SRange(Blocks[ev.b].op.din) : a \in DOMAIN ev.preLed.dmem
      BY <3>5, VerdictHolds
    <3>7. LOK(ApplyTo(ev.preLed, ev.id, Blocks[ev.b].op))
      <4>1. LOK(ev.preLed)
        BY <2>1 DEF LedInv
      <4> QED BY <3>2, <3>3, <3>4, <3>6, <4>1, ApplyLOK
    <3>8. \A q \in Parties : led'[q] = led[q] \/ led'[q] = ApplyTo(ev.preLed, ev.id, Blocks[ev.b].op)
      BY <1>0, <3>1, <3>2, <3>3 DEF LedType
    <3>9. \A q \in Parties : LOK(led'[q])
      BY <3>7, <3>8 DEF LedInv
    <3> QED BY <2>1, <2>2, <3>9 DEF LedInv, AccIds
  <2> QED BY <2>3, <2>4
<1>16. CASE ApplySeals
  BY <1>0, <1>1, <1>16 DEF ApplySeals, Fields
<1>17. CASE NextBlock
  <2>1. ev.pc = "accepted" /\ led' = led /\ ev'.preLed = ev.preLed /\ ev'.acc = Append(ev.acc, [id |-> ev.id, b |-> ev.b])
    BY <1>0, <1>17 DEF NextBlock, Fields
  <2>2. ev.id = Id(H) /\ ev.acc \in Seq(AccRec) /\ ev.b \in DOMAIN Blocks
    BY <2>1, InEval, InBlock DEF Inv, EvalInv, Steps, AfterGate
  <2> DEFINE x == [id |-> ev.id, b |-> ev.b]
  <2>3. ev.id \in {Blocks[ev.b].op.id, Blocks[ev.b].op.gid} /\ AccOK(x)
    <3>1. RuleDefs(H)
      BY <2>1 DEF Inv, EvalInv, Steps, AfterDefs
    <3>2. RuleDefs(x)
      BY <3>1, HIs DEF RuleDefs, Blk, Op
    <3> QED BY <2>2, <3>2, HIs DEF Id, Op, Blk, AccOK
  <2>4. [id |-> ev.id, b |-> ev.b] \in AccRec
    BY <2>2, <2>3, BlocksOK DEF AccRec
  <2>5. /\ DOMAIN ev'.acc = 1..(Len(ev.acc) + 1) /\ DOMAIN ev.acc = 1..Len(ev.acc) /\ Len(ev.acc) \in Nat
        /\ ev'.acc[Len(ev.acc) + 1] = [id |-> ev.id, b |-> ev.b]
        /\ \A i \in DOMAIN ev.acc : ev'.acc[i] = ev.acc[i]
    BY <2>1, <2>2, <2>4, AppendProperties, LenProperties
  <2>6. AccIds
    BY <2>1 DEF LedInv
  <2>7. \A i \in DOMAIN ev'.acc : AccOK(ev'.acc[i])
    BY <2>3, <2>5, <2>6 DEF AccIds
  <2> QED BY <2>1, <2>7 DEF LedInv, AccIds
<1>18. CASE Return
  BY <1>18 DEF Return, LedInv, NoEval
<1>19. ASSUME NEW p \in Parties, NEW id \in Ids, Rollback(p, id) PROVE LedInv'
  <2>1. /\ ev' = ev /\ ev.pc = "idle" /\ CanForget(led[p], id) /\ led' = [led EXCEPT ![p] = Forget(led[p], id)]
    BY <1>19 DEF Rollback, Idle
  <2>2. LOK(Forget(led[p], id))
    BY <2>1, ForgetLOK DEF LedInv
  <2>3. \A q \in Parties : led'[q] = led[q] \/ led'[q] = Forget(led[p], id)
    BY <1>0, <2>1 DEF LedType
  <2> QED BY <2>1, <2>2, <2>3 DEF LedInv
<1>20. GenesisGate \/ CheckDefs \/ CloseInputs \/ VerifyKnown \/ VerifyNew \/ CheckWitness \/ ApplyWitness
       \/ ExtendSeals \/ ApplyOperation \/ ApplySeals => LedInv'
  BY <1>7, <1>8, <1>9, <1>10, <1>11, <1>12, <1>13, <1>14, <1>15, <1>16
<1> HIDE DEF FullInv
<1> QED
  BY <1>2, <1>3, <1>4, <1>5, <1>17, <1>18, <1>19, <1>20 DEF Next, Internal

THEOREM LedgerInvariance == ASSUME NEW g, GenesisOK(g) PROVE Spec(g) => []FullInv
<1>1. InitWith(g) => FullInv
  BY InvInit, LedgerInit DEF FullInv
<1>2. FullInv /\ [Next]_rvars => LedInv'
  BY LedgerNext
<1>3. Spec(g) => []Inv
  BY Invariance
<1>4. FullInv <=> Inv /\ LedInv
  BY DEF FullInv
<1> QED BY <1>1, <1>2, <1>3, <1>4, PTL DEF Spec

-----------------------------------------------------------------------------
(* C02 *)

LEMMA G02 ==
    ASSUME NEW h, Good(h), LOK(h.L),
           \A i \in DOMAIN h.prefix : AccOK(h.prefix[i])
    PROVE C02(h)
<1>1. ASSUME h.acc
      PROVE /\ NoDup(Op(h).din)
            /\ \A a \in Ins(h) : \A j \in Consuming(h, a) : \E i \in (j + 1)..Len(h.prefix) : h.prefix[i].id = a[1]
  <2>1. RuleInputs(h)
    BY <1>1 DEF Good, Verdict
  <2>2. ASSUME NEW a \in Ins(h), NEW j \in Consuming(h, a)
        PROVE \E i \in (j + 1)..Len(h.prefix) : h.prefix[i].id = a[1]
    <3>1. IsLive(h, a) /\ a \in Cells
      BY <2>1, BlockFacts DEF RuleInputs
    <3>2. PICK f : LiveIs(f, h)
      BY DEF Good
    <3>3. a \in DOMAIN f
      BY <3>1, <3>2, LiveMeans DEF Good
    <3>4. PICK i \in DOMAIN h.prefix : LiveAt(h, a, i)
      BY <3>1, <3>2, <3>3 DEF LiveIs
    <3>5. i \in Revealing(h, a) /\ j <= i /\ h.prefix[i].id = a[1]
      BY <3>4 DEF LiveAt, Revealing, Reveals
    <3>6. /\ j \in DOMAIN h.prefix /\ a \in SRange(Blocks[h.prefix[j].b].op.din)
          /\ DOMAIN h.prefix = 1..Len(h.prefix) /\ Len(h.prefix) \in Nat /\ h.prefix[j] \in AccRec
      BY LenProperties, ElementOfSeq DEF Good, Consuming
    <3>7. h.prefix[j].b \in DOMAIN Blocks
      BY <3>6 DEF AccRec
    <3>8. h.prefix[j].id # a[1]
      BY <3>6, <3>7, IdsOK DEF AccOK
    <3>9. i # j
      BY <3>5, <3>8
    <3> QED BY <3>5, <3>6, <3>9
  <2> QED BY <2>1, <2>2 DEF RuleInputs
<1>2. ASSUME Has(h, "op") PROVE Ins(h) \cap DOMAIN h.L.spent = {}
  <2>1. h.acc /\ MustOp(h)
    BY <1>2, FxGot, NoFx DEF Good
  <2>2. CodexVerdict(h.L, Op(h), Cid(h)) = NoErr
    BY <2>1 DEF Good, Verdict, RuleCodex, MustOp
  <2>3. Ins(h) \subseteq DOMAIN h.L.dmem
    BY <2>2, VerdictHolds DEF Ins
  <2> QED BY <2>3 DEF LOK
<1> QED BY <1>1, <1>2 DEF C02

THEOREM NoDoubleSpend == ASSUME NEW g, GenesisOK(g) PROVE Spec(g) => [](Judged => C02(H))
<1>1. ASSUME FullInv, Judged PROVE C02(H)
  <2>1. Good(H)
    BY <1>1, JudgedGood DEF FullInv
  <2>2. LOK(H.L) /\ \A i \in DOMAIN H.prefix : AccOK(H.prefix[i])
    BY <1>1, HIs DEF FullInv, LedInv, Judged, AccIds
  <2> QED BY <2>1, <2>2, G02
<1>2. FullInv /\ Judged => C02(H)
  BY <1>1
<1> QED BY <1>2, LedgerInvariance, PTL

-----------------------------------------------------------------------------
(* C16: the ledger is a function of what is known, however it came to be known. *)

SameMemory(L, M) == /\ DOMAIN L.dmem = DOMAIN M.dmem /\ \A a \in DOMAIN L.dmem : L.dmem[a] = M.dmem[a]
                    /\ L.imm = M.imm
                    /\ DOMAIN L.spent = DOMAIN M.spent

LEMMA SameKnown ==
    ASSUME NEW L, NEW M, LOK(L), LOK(M), L.known = M.known
    PROVE SameMemory(L, M)
<1>1. \A o \in L.known : L.ops[o].din = M.ops[o].din /\ L.ops[o].nd = M.ops[o].nd /\ L.ops[o].ni = M.ops[o].ni
  BY DEF LOK
<1>2. DOMAIN L.ops = L.known /\ DOMAIN M.ops = L.known
  BY DEF LOK
<1>3. \A a : /\ a \in Created(L) <=> a \in Created(M)
             /\ a \in Destroyed(L) <=> a \in Destroyed(M)
             /\ a \in Written(L) <=> a \in Written(M)
  BY <1>1, <1>2, CreatedIs
<1>4. Created(L) = Created(M) /\ Destroyed(L) = Destroyed(M) /\ Written(L) = Written(M)
  BY <1>3
<1> QED BY <1>4 DEF LOK, SameMemory

THEOREM Deterministic ==
    ASSUME NEW g, GenesisOK(g)
    PROVE Spec(g) => [](\A p, q \in Parties : /\ Canonical(led[p])
                                              /\ led[p].known = led[q].known => SameMemory(led[p], led[q]))
<1>1. ASSUME NEW L, LOK(L) PROVE Canonical(L)
  BY <1>1 DEF LOK, Canonical
<1>2. FullInv => \A p, q \in Parties : /\ Canonical(led[p])
                                       /\ led[p].known = led[q].known => SameMemory(led[p], led[q])
  BY <1>1, SameKnown DEF FullInv, LedInv
<1> QED BY <1>2, LedgerInvariance, PTL
=============================================================================
