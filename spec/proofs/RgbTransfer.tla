---------------------------- MODULE RgbTransfer -----------------------------
(***************************************************************************)
(* C21: a stream accepted by a client who knew only the genesis is         *)
(* accepted by every client, whatever it knows, unless it knows an         *)
(* operation which competes with one of the stream.                        *)
(***************************************************************************)
EXTENDS RgbLedger

\* Under the contract's id an operation has the same inputs.
ASSUME GidsOK == \A b \in DOMAIN Blocks : Operation(Blocks[b].op.gid).din = Blocks[b].op.din

\* Block n of the stream S, judged with the ledger L when all before it were accepted.
IdAt(S, i) == IF i = 1 THEN Blocks[S[i]].op.gid ELSE Blocks[S[i]].op.id
J(S, n, L) == [first |-> n = 1, b |-> S[n], prefix |-> [i \in 1..(n - 1) |-> [id |-> IdAt(S, i), b |-> S[i]]], L |-> L]
After(h) == IF MustOp(h) THEN ApplyTo(h.L, Id(h), Op(h)) ELSE h.L

-----------------------------------------------------------------------------
LEMMA JIs ==
    ASSUME NEW S \in Seq(DOMAIN Blocks), NEW n \in 1..Len(S), NEW L
    PROVE LET h == J(S, n, L) IN
          /\ S[n] \in DOMAIN Blocks
          /\ h.first = (n = 1) /\ h.b = S[n] /\ h.L = L /\ Op(h) = Blocks[S[n]].op /\ Id(h) = IdAt(S, n) /\ IdAt(S, n) \in Ids
          /\ Ins(h) = SRange(Blocks[S[n]].op.din)
          /\ (Known(h) <=> IdAt(S, n) \in L.known)
          /\ (MustOp(h) <=> n # 1 /\ IdAt(S, n) \notin L.known)
<1>1. Len(S) \in Nat /\ S[n] \in DOMAIN Blocks
  BY LenProperties, ElementOfSeq
<1>2. J(S, n, L).first = (n = 1) /\ J(S, n, L).b = S[n] /\ J(S, n, L).L = L
  BY DEF J
<1>3. IdAt(S, n) \in Ids
  BY <1>1, BlocksOK DEF IdAt
<1> QED BY <1>1, <1>2, <1>3 DEF Op, Blk, Id, IdAt, Ins, Known, MustOp

\* Only the codex looks at the ledger.
LEMMA LedgerFree ==
    ASSUME NEW g, NEW h, h.first = g.first, h.b = g.b, h.prefix = g.prefix
    PROVE /\ Gate(h) <=> Gate(g)
          /\ RuleDefs(h) <=> RuleDefs(g)
          /\ RuleInputs(h) <=> RuleInputs(g)
          /\ RuleWitness(h) <=> RuleWitness(g)
          /\ Cid(h) = Cid(g) /\ Op(h) = Op(g) /\ Id(h) = Id(g)
<1>1. Blk(h) = Blk(g) /\ Op(h) = Op(g) /\ Id(h) = Id(g) /\ Cid(h) = Cid(g) /\ Ins(h) = Ins(g)
  BY DEF Blk, Op, Id, Cid, Ins
<1>2. \A a : Revealing(h, a) = Revealing(g, a) /\ Consuming(h, a) = Consuming(g, a)
  BY DEF Revealing, Consuming
<1>3. \A a : (IsLive(h, a) <=> IsLive(g, a)) /\ LiveSeal(h, a) = LiveSeal(g, a)
  BY <1>2 DEF IsLive, LiveSeal
<1>4. Gate(h) <=> Gate(g)
  BY <1>1 DEF Gate
<1>5. RuleDefs(h) <=> RuleDefs(g)
  BY <1>1 DEF RuleDefs
<1>6. RuleInputs(h) <=> RuleInputs(g)
  BY <1>1, <1>3 DEF RuleInputs
<1>7. RuleWitness(h) <=> RuleWitness(g)
  BY <1>1, <1>3 DEF RuleWitness
<1> QED BY <1>1, <1>4, <1>5, <1>6, <1>7

LEMMA NothingLive == ASSUME NEW h, h.prefix = <<>>, RuleInputs(h) PROVE Ins(h) = {}
  BY DEF RuleInputs, IsLive, Revealing

\* The codex says the same with more operations known, if none of them destroys what is consumed.
LEMMA CodexMonotone ==
    ASSUME NEW L, NEW M, LOK(L), LOK(M), L.known \subseteq M.known,
           NEW op, NEW cid, CodexVerdict(L, op, cid) = NoErr,
           \A a \in SRange(op.din) : a \notin Destroyed(M)
    PROVE CodexVerdict(M, op, cid) = NoErr
<1> DEFINE missD(a) == a \notin DOMAIN L.dmem
           missI(a) == a \notin L.imm
           e1 == [k |-> "WrongContract", exp |-> "own", found |-> cid]
           e2 == [k |-> "NoReadOnce", addr |-> FirstIn(op.din, missD)]
           e3 == [k |-> "NoImmutable", addr |-> FirstIn(op.iin, missI)]
           e4 == [k |-> "NotFound"]
           e5 == [k |-> "Script"]
           e6 == [k |-> "Lock"]
<1>1. e1 # NoErr /\ e2 # NoErr /\ e3 # NoErr /\ e4 # NoErr /\ e5 # NoErr /\ e6 # NoErr
  <2>1. /\ e1.k = "WrongContract" /\ e2.k = "NoReadOnce" /\ e3.k = "NoImmutable" /\ e4.k = "NotFound" /\ e5.k = "Script" /\ e6.k = "Lock"
        /\ NoErr.k = "none"
    BY DEF NoErr
  <2> HIDE DEF e1, e2, e3, e4, e5, e6
  <2> QED BY <2>1
<1>2. CodexVerdict(L, op, cid) =
        IF cid # "own" THEN e1
        ELSE IF \E a \in SRange(op.din) : missD(a) THEN e2
        ELSE IF \E a \in SRange(op.iin) : missI(a) THEN e3
        ELSE IF op.call = "none" THEN e4
        ELSE IF op.call = "fail" THEN e5
        ELSE IF \E a \in SRange(op.din) : L.dmem[a] = "bad" THEN e6
        ELSE NoErr
  BY DEF CodexVerdict
<1> HIDE DEF e1, e2, e3, e4, e5, e6
<1>3. /\ cid = "own"
      /\ \A a \in SRange(op.din) : a \in DOMAIN L.dmem /\ L.dmem[a] # "bad"
      /\ \A a \in SRange(op.iin) : a \in L.imm
      /\ op.call # "none" /\ op.call # "fail"
  BY <1>1, <1>2
<1>4. \A a : a \in Created(L) => a \in Created(M)
  <2>1. DOMAIN L.ops = L.known /\ DOMAIN M.ops = M.known /\ \A o \in L.known : L.ops[o].nd = M.ops[o].nd
    BY DEF LOK
  <2> QED BY <2>1, CreatedIs
<1>5. \A a : a \in Written(L) => a \in Written(M)
  <2>1. DOMAIN L.ops = L.known /\ DOMAIN M.ops = M.known /\ \A o \in L.known : L.ops[o].ni = M.ops[o].ni
    BY DEF LOK
  <2> QED BY <2>1, CreatedIs
<1>6. \A a \in SRange(op.din) : a \in DOMAIN M.dmem /\ M.dmem[a] # "bad"
  <2> TAKE a \in SRange(op.din)
  <2>1. a \in Created(L)
    BY <1>3 DEF LOK
  <2>2. a \in DOMAIN M.dmem
    BY <1>4, <2>1 DEF LOK
  <2>3. M.dmem[a] = LockOf(a) /\ L.dmem[a] = LockOf(a)
    BY <1>3, <2>2 DEF LOK
  <2> QED BY <1>3, <2>2, <2>3
<1>7. \A a \in SRange(op.iin) : a \in M.imm
  BY <1>3, <1>5 DEF LOK
<1> QED BY <1>3, <1>6, <1>7 DEF CodexVerdict

-----------------------------------------------------------------------------
\* What an accepted block does to a ledger.
LEMMA StepLedger ==
    ASSUME NEW S \in Seq(DOMAIN Blocks), NEW n \in 1..Len(S), NEW L, LOK(L), Verdict(J(S, n, L))
    PROVE /\ LOK(After(J(S, n, L)))
          /\ After(J(S, n, L)).known = IF n = 1 THEN L.known ELSE L.known \cup {IdAt(S, n)}
<1> DEFINE h == J(S, n, L)
           id == IdAt(S, n)
           op == Blocks[S[n]].op
<1>1. /\ S[n] \in DOMAIN Blocks /\ h.L = L /\ Op(h) = op /\ Id(h) = id
      /\ (Known(h) <=> id \in L.known) /\ (MustOp(h) <=> n # 1 /\ id \notin L.known) /\ n \in Nat
  BY JIs
<1> HIDE DEF h
<1>2. CASE ~MustOp(h)
  <2>1. After(h) = L
    BY <1>1, <1>2 DEF After
  <2>2. L.known = IF n = 1 THEN L.known ELSE L.known \cup {id}
    BY <1>1, <1>2
  <2> QED BY <2>1, <2>2 DEF h
<1>3. CASE MustOp(h)
  <2>1. After(h) = ApplyTo(L, id, op)
    BY <1>1, <1>3 DEF After
  <2>2. CodexVerdict(L, op, Cid(h)) = NoErr
    BY <1>1, <1>3 DEF h, Verdict, RuleCodex
  <2>3. \A a \in SRange(op.din) : a \in DOMAIN L.dmem
    BY <2>2, VerdictHolds
  <2>4. id = Blocks[S[n]].op.id /\ id \notin L.known
    BY <1>1, <1>3 DEF IdAt
  <2>5. LOK(ApplyTo(L, id, op))
    BY <1>1, <2>3, <2>4, ApplyLOK
  <2>6. ApplyTo(L, id, op).known = L.known \cup {id}
    BY DEF ApplyTo, LOK, LFields
  <2> QED BY <1>1, <1>3, <2>1, <2>5, <2>6 DEF h
<1> QED BY <1>2, <1>3

THEOREM Transfer ==
    ASSUME NEW g, GenesisOK(g), NEW S \in Seq(DOMAIN Blocks), NEW F, NEW G,
           F[0] = GenesisLedger(g),                                                  \* a client who knows only the genesis
           \A n \in 1..Len(S) : F[n] = After(J(S, n, F[n - 1])),
           \A n \in 1..Len(S) : Verdict(J(S, n, F[n - 1])),                          \* accepts everything
           LOK(G[0]), g.gid \in G[0].known,                                          \* a client of the contract, whatever it knows
           \A n \in 1..Len(S) : G[n] = After(J(S, n, G[n - 1])),
           \A o \in G[0].known : \/ \E n \in 1..Len(S) : IdAt(S, n) = o               \* but for competing operations
                                 \/ \A n \in 1..Len(S) : SRange(Operation(o).din) \cap SRange(Blocks[S[n]].op.din) = {}
    PROVE \A n \in 1..Len(S) : /\ Verdict(J(S, n, G[n - 1]))                          \* accepts everything as well
                               /\ n # 1 => IdAt(S, n) \in G[Len(S)].known
<1> DEFINE N == Len(S)
<1>0. N \in Nat
  BY LenProperties
\* The fresh client knows, in the end, exactly the stream.
<1> DEFINE FK(n) == LOK(F[n]) /\ F[n].known = {g.gid} \cup {IdAt(S, i) : i \in 2..n}
<1>1. \A n \in 0..N : FK(n)
  <2> DEFINE Q(n) == n \in 0..N => FK(n)
  <2>1. Q(0)
    <3>1. LOK(F[0])
      BY GenesisLOK
    <3>2. F[0].known = {g.gid}
      BY DEF GenesisLedger
    <3>3. 2..0 = {}
      OBVIOUS
    <3> QED BY <3>1, <3>2, <3>3
  <2>2. ASSUME NEW n \in Nat, Q(n) PROVE Q(n + 1)
    <3> SUFFICES ASSUME n + 1 \in 0..N PROVE FK(n + 1)
      OBVIOUS
    <3>1. n + 1 \in 1..N /\ (n + 1) - 1 = n /\ n \in 0..N
      BY <1>0
    <3>2. LOK(F[n]) /\ F[n].known = {g.gid} \cup {IdAt(S, i) : i \in 2..n}
      BY <2>2, <3>1
    <3>3. F[n + 1] = After(J(S, n + 1, F[n])) /\ Verdict(J(S, n + 1, F[n]))
      BY <3>1
    <3>4. LOK(F[n + 1]) /\ F[n + 1].known = IF n + 1 = 1 THEN F[n].known ELSE F[n].known \cup {IdAt(S, n + 1)}
      BY <3>1, <3>2, <3>3, StepLedger
    <3>5. CASE n = 0
      <4>1. 2..(n + 1) = {} /\ 2..n = {}
        BY <3>5
      <4> QED BY <3>2, <3>4, <3>5, <4>1
    <3>6. CASE n # 0
      <4>1. 2..(n + 1) = (2..n) \cup {n + 1} /\ n + 1 # 1
        BY <3>6
      <4>2. {IdAt(S, i) : i \in 2..(n + 1)} = {IdAt(S, i) : i \in 2..n} \cup {IdAt(S, n + 1)}
        BY <4>1
      <4> QED BY <3>2, <3>4, <4>1, <4>2
    <3> QED BY <3>5, <3>6
  <2> HIDE DEF Q
  <2>3. \A n \in Nat : Q(n)
    BY <2>1, <2>2, NatInduction
  <2> QED BY <1>0, <2>3 DEF Q
\* No two operations of the stream compete.
<1>2. ASSUME NEW i \in 2..N, NEW j \in 2..N, IdAt(S, i) # IdAt(S, j)
      PROVE SRange(Operation(IdAt(S, i)).din) \cap SRange(Operation(IdAt(S, j)).din) = {}
  <2>1. LOK(F[N]) /\ IdAt(S, i) \in F[N].known /\ IdAt(S, j) \in F[N].known
    BY <1>0, <1>1
  <2>2. /\ F[N].ops[IdAt(S, i)].din = Operation(IdAt(S, i)).din /\ F[N].ops[IdAt(S, j)].din = Operation(IdAt(S, j)).din
        /\ SRange(F[N].ops[IdAt(S, i)].din) \cap SRange(F[N].ops[IdAt(S, j)].din) = {}
    BY <1>2, <2>1 DEF LOK
  <2> QED BY <2>2
\* The first block consumes nothing.
<1>3. ASSUME 1 \in 1..N PROVE SRange(Blocks[S[1]].op.din) = {}
  <2> DEFINE h == J(S, 1, F[0])
  <2>1. RuleInputs(h)
    <3>1. 1 - 1 = 0
      OBVIOUS
    <3> QED BY <1>3, <3>1 DEF Verdict
  <2>2. h.prefix = [i \in 1..0 |-> [id |-> IdAt(S, i), b |-> S[i]]]
    BY DEF J
  <2>3. Ins(h) = SRange(Blocks[S[1]].op.din)
    BY <1>3, JIs
  <2>4. DOMAIN h.prefix = {}
    BY <2>2
  <2>5. Ins(h) = {}
    BY <2>1, <2>4 DEF RuleInputs, IsLive, Revealing
  <2> QED BY <2>3, <2>5
<1>4. \A n \in 1..N : S[n] \in DOMAIN Blocks /\ Operation(IdAt(S, n)).din = Blocks[S[n]].op.din
  BY <1>0, JIs, IdsOK, GidsOK DEF IdAt
\* The other client, block by block.
<1> DEFINE GK(n) == /\ LOK(G[n]) /\ F[n].known \subseteq G[n].known
                    /\ \A o \in G[n].known : o \in G[0].known \/ \E i \in 2..n : IdAt(S, i) = o
                    /\ \A i \in 2..n : IdAt(S, i) \in G[n].known
                    /\ n # 0 => Verdict(J(S, n, G[n - 1]))
<1>5. GK(0)
  <2>1. F[0].known = {g.gid} /\ 2..0 = {}
    BY DEF GenesisLedger
  <2> QED BY <2>1
<1>6. ASSUME NEW n \in Nat, n + 1 \in 0..N, GK(n) PROVE GK(n + 1)
  <2> DEFINE m == n + 1
             f == J(S, m, F[n])
             h == J(S, m, G[n])
             op == Blocks[S[m]].op
  <2>1. m \in 1..N /\ m - 1 = n /\ n \in 0..N /\ m \in Nat
    BY <1>0, <1>6
  <2>2. LOK(F[n]) /\ Verdict(f) /\ F[m] = After(f) /\ G[m] = After(h) /\ LOK(F[m]) /\ LOK(G[n]) /\ F[n].known \subseteq G[n].known
    BY <1>1, <1>6, <2>1
  <2>3. /\ Op(h) = op /\ Id(h) = IdAt(S, m) /\ h.L = G[n] /\ f.L = F[n] /\ Op(f) = op /\ (Known(h) <=> IdAt(S, m) \in G[n].known)
        /\ (Known(f) <=> IdAt(S, m) \in F[n].known) /\ Ins(h) = SRange(op.din)
    BY <2>1, JIs
  <2>4. h.first = f.first /\ h.b = f.b /\ h.prefix = f.prefix
    BY DEF J
  <2> HIDE DEF f, h, m
  <2>5. /\ Gate(h) /\ RuleDefs(h) /\ RuleInputs(h) /\ RuleWitness(h) /\ Cid(h) = Cid(f)
    BY <2>2, <2>4, LedgerFree DEF Verdict
  <2>6. ASSUME ~Known(h) PROVE CodexVerdict(G[n], op, Cid(h)) = NoErr
    <3>1. ~Known(f)
      BY <2>2, <2>3, <2>6
    <3>2. CodexVerdict(F[n], op, Cid(f)) = NoErr
      BY <2>2, <2>3, <3>1 DEF Verdict, RuleCodex
    <3>3. ASSUME NEW a \in SRange(op.din), a \in Destroyed(G[n]) PROVE FALSE
      <4>1. PICK o \in G[n].known : a \in SRange(Operation(o).din)
        <5>1. DOMAIN G[n].ops = G[n].known /\ \A o \in G[n].known : G[n].ops[o].din = Operation(o).din
          BY <2>2 DEF LOK
        <5> QED BY <3>3, <5>1, CreatedIs
      <4>2. m # 1
        BY <1>3, <2>1, <3>3
      <4>3. m \in 2..N
        BY <2>1, <4>2
      <4>4. o # IdAt(S, m)
        BY <2>3, <2>6
      <4>5. a \in SRange(Operation(IdAt(S, m)).din)
        BY <1>4, <2>1, <3>3
      <4>6. ~ \E i \in 2..N : IdAt(S, i) = o
        BY <1>2, <4>1, <4>3, <4>4, <4>5
      <4>7. o \in G[0].known
        <5>1. o \in G[0].known \/ \E i \in 2..n : IdAt(S, i) = o
          BY <1>6
        <5>2. 2..n \subseteq 2..N
          BY <1>0, <2>1
        <5> QED BY <4>6, <5>1, <5>2
      <4>8. \E i \in 1..N : IdAt(S, i) = o
        BY <2>1, <3>3, <4>1, <4>7
      <4>9. IdAt(S, 1) = o /\ 1 \in 1..N
        <5>1. PICK i \in 1..N : IdAt(S, i) = o
          BY <4>8
        <5>2. i = 1
          BY <1>0, <4>6, <5>1
        <5> QED BY <5>1, <5>2
      <4>10. SRange(Operation(o).din) = {}
        BY <1>3, <1>4, <4>9
      <4> QED BY <4>1, <4>10
    <3> QED BY <2>2, <2>5, <3>2, <3>3, CodexMonotone
  <2>7. Verdict(h)
    BY <2>3, <2>5, <2>6 DEF Verdict, RuleCodex
  <2>8. /\ LOK(G[m]) /\ G[m].known = IF m = 1 THEN G[n].known ELSE G[n].known \cup {IdAt(S, m)}
        /\ F[m].known = IF m = 1 THEN F[n].known ELSE F[n].known \cup {IdAt(S, m)}
    BY <2>1, <2>2, <2>7, StepLedger DEF f, h
  <2>9. F[m].known \subseteq G[m].known
    BY <2>2, <2>8
  <2>10. n = 0 => m = 1
    BY DEF m
  <2>11. /\ \A o \in G[m].known : o \in G[0].known \/ \E i \in 2..m : IdAt(S, i) = o
         /\ \A i \in 2..m : IdAt(S, i) \in G[m].known
    <3>1. CASE m = 1
      <4>1. 2..m = {} /\ 2..n = {}
        BY <2>1, <3>1
      <4> QED BY <1>6, <2>8, <3>1, <4>1
    <3>2. CASE m # 1
      <4>1. 2..m = (2..n) \cup {m}
        BY <2>1, <3>2
      <4> QED BY <1>6, <2>8, <3>2, <4>1
    <3> QED BY <3>1, <3>2
  <2>12. Verdict(J(S, m, G[m - 1]))
    BY <2>1, <2>7 DEF h
  <2> QED BY <2>8, <2>9, <2>11, <2>12 DEF m
<1>7. \A n \in 0..N : GK(n)
  <2> DEFINE Q(n) == n \in 0..N => GK(n)
  <2>1. Q(0)
    BY <1>5
  <2> HIDE DEF GK
  <2>2. ASSUME NEW n \in Nat, Q(n) PROVE Q(n + 1)
    <3>1. n + 1 \in 0..N => n \in 0..N
      BY <1>0
    <3> QED BY <1>6, <2>2, <3>1
  <2> HIDE DEF Q
  <2>3. \A n \in Nat : Q(n)
    BY <2>1, <2>2, NatInduction
  <2> QED BY <1>0, <2>3 DEF Q
<1>8. ASSUME NEW n \in 1..N PROVE Verdict(J(S, n, G[n - 1])) /\ (n # 1 => IdAt(S, n) \in G[N].known)
  <2>1. n \in 0..N /\ n # 0 /\ N \in 0..N /\ (n # 1 => n \in 2..N)
    BY <1>0
  <2>2. GK(n) /\ GK(N)
    BY <1>7, <2>1
  <2> QED BY <2>1, <2>2
<1> QED BY <1>8
=============================================================================
