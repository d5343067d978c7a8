----------------------------- MODULE RgbRivals -----------------------------
(***************************************************************************)
(* C20: two blocks, whenever and by whomever they were accepted, which     *)
(* consume one cell in different operations need conflicting witnesses.    *)
(***************************************************************************)
EXTENDS RgbLedger

CONSTANT TokenOf(_)      \* cell -> the commitment to its seal

\* Ids are commitments to the tokens of the outputs, and tokens to definitions.
ASSUME TokensOK ==
    /\ \A b \in DOMAIN Blocks : \A i \in DOMAIN Blocks[b].op.dout :
          LET op == Blocks[b].op IN op.dout[i].tok = TokenOf(<<op.id, i - 1>>) /\ op.dout[i].tok = TokenOf(<<op.gid, i - 1>>)
    /\ \A b, c \in DOMAIN Blocks : \A s \in SRange(Blocks[b].seals), t \in SRange(Blocks[c].seals) : s.d.tok = t.d.tok => s.d = t.d

\* The id of a witness commits to its inputs, and to one bundle per protocol. A bundle has at most one message per input.
ASSUME WitnessesOK ==
    /\ \A b, c \in DOMAIN Blocks :
          LET v == Blocks[b].wit w == Blocks[c].wit IN
          Blocks[b].haswit /\ Blocks[c].haswit /\ v.id = w.id =>
              /\ v.ins = w.ins
              /\ v.good /\ w.good /\ v.prot = w.prot => SRange(v.map) = SRange(w.map)
    /\ \A b \in DOMAIN Blocks : Blocks[b].haswit =>
          \A x, y \in SRange(Blocks[b].wit.map) : x[1] = y[1] => x[2] = y[2]

\* What holds of every judged block (Past == it did when it was judged).
Past(h) == Good(h) /\ \A i \in DOMAIN h.prefix : AccOK(h.prefix[i])

THEOREM AllPast == ASSUME NEW g, GenesisOK(g) PROVE Spec(g) => [](Judged => Past(H))
<1>1. ASSUME FullInv, Judged PROVE Past(H)
  <2>1. Good(H)
    BY <1>1, JudgedGood DEF FullInv
  <2>2. \A i \in DOMAIN H.prefix : AccOK(H.prefix[i])
    BY <1>1, HIs DEF FullInv, LedInv, Judged, AccIds
  <2> QED BY <2>1, <2>2 DEF Past
<1>2. FullInv /\ Judged => Past(H)
  BY <1>1
<1> QED BY <1>2, LedgerInvariance, PTL

-----------------------------------------------------------------------------
\* The live seal of a cell is a definition its token commits to, resolved.
LEMMA SealIs ==
    ASSUME NEW h, Past(h), h.acc, NEW a \in Ins(h)
    PROVE /\ Revealing(h, a) # {} /\ Blk(h).haswit /\ Included(LiveSeal(h, a), Id(h), Blk(h).wit) /\ Blk(h).wit.good
          /\ h.b \in DOMAIN Blocks
          /\ \E c \in DOMAIN Blocks : \E s \in SRange(Blocks[c].seals) : \E w :
                s.d.tok = TokenOf(a) /\ LiveSeal(h, a) = Resolve(s.d, w)
<1>1. /\ RuleInputs(h) /\ RuleWitness(h) /\ h.b \in DOMAIN Blocks /\ h.prefix \in Seq(AccRec)
  BY DEF Past, Good, Verdict
<1>2. a \in Cells /\ Ins(h) # {} /\ Op(h).din # <<>>
  BY BlockFacts DEF Past
<1>3. IsLive(h, a)
  BY <1>1 DEF RuleInputs
<1>4. Revealing(h, a) # {} /\ LiveSeal(h, a) \in RevealedSeals(h, a)
  BY <1>3, BlockFacts DEF IsLive, Past
<1>5. Blk(h).haswit /\ Included(LiveSeal(h, a), Id(h), Blk(h).wit) /\ Blk(h).wit.good
  BY <1>1, <1>2 DEF RuleWitness, Commits
<1>6. PICK i \in Revealing(h, a) : LiveSeal(h, a) = SealBy(h.prefix[i], a)
  BY <1>4 DEF RevealedSeals
<1> DEFINE x == h.prefix[i]
           sl == Blocks[x.b].seals
<1>7. i \in DOMAIN h.prefix /\ Reveals(x, a) /\ AccOK(x) /\ x \in AccRec
  BY <1>1, <1>6, ElementOfSeq, LenProperties DEF Revealing, Past
<1>8. x.b \in DOMAIN Blocks
  BY <1>7 DEF AccRec
<1>9. x.id = a[1] /\ \E j \in DOMAIN sl : sl[j].pos = a[2]
  BY <1>7 DEF Reveals
<1> HIDE DEF x, sl
<1> DEFINE s == CHOOSE s \in SRange(sl) : s.pos = a[2]
<1>10. s \in SRange(sl) /\ s.pos = a[2]
  BY <1>9 DEF SRange
<1>11. SealBy(x, a) = Resolve(s.d, Blocks[x.b].wit.id)
  BY DEF SealBy, sl
<1>12. s.pos < Len(Blocks[x.b].op.dout) /\ Blocks[x.b].op.dout[s.pos + 1].tok = s.d.tok
  BY <1>7, <1>10 DEF AccOK, RuleDefs, Blk, Op, sl
<1> HIDE DEF s
<1>13. a = <<x.id, s.pos>> /\ s.pos \in Nat
  BY <1>2, <1>9, <1>10 DEF Cells
<1>14. s.pos + 1 \in DOMAIN Blocks[x.b].op.dout /\ (s.pos + 1) - 1 = s.pos
  BY <1>8, <1>12, <1>13, BlocksOK
<1>15. s.d.tok = TokenOf(a)
  <2>1. s.d.tok = TokenOf(<<Blocks[x.b].op.id, s.pos>>) /\ s.d.tok = TokenOf(<<Blocks[x.b].op.gid, s.pos>>)
    BY <1>8, <1>12, <1>14, TokensOK
  <2> QED BY <1>7, <1>13, <2>1 DEF AccOK
<1>16. SealBy(x, a) = LiveSeal(h, a)
  BY <1>6 DEF x
<1>17. s \in SRange(Blocks[x.b].seals)
  BY <1>10 DEF sl
<1> QED BY <1>1, <1>4, <1>5, <1>8, <1>11, <1>15, <1>16, <1>17

LEMMA SpendsSeal == ASSUME NEW s, NEW m, NEW w, Included(s, m, w) PROVE Outpoint(s) \in SRange(w.ins)
  BY DEF Included, SRange

\* Competing operations, accepted anywhere and at any time, conflict on the ledger (or are the known finding).
THEOREM Rivals ==
    ASSUME NEW h, NEW g, Past(h), Past(g), h.acc, g.acc,
           NEW x \in ClosingsOf(h), NEW y \in ClosingsOf(g), x.cell = y.cell, x.op # y.op
    PROVE Conflict(x, y) \/ C20Known(x, y)
<1>1. PICK a \in Ins(h) : /\ x.cell = a /\ x.op = Id(h) /\ x.w = Blk(h).wit.id /\ x.prot = Blk(h).wit.prot
                          /\ Revealing(h, a) # {} => x.seal = Outpoint(LiveSeal(h, a))
                          /\ x.spends = (Revealing(h, a) # {} /\ Blk(h).haswit /\ Outpoint(LiveSeal(h, a)) \in SRange(Blk(h).wit.ins))
  BY DEF ClosingsOf
<1>2. PICK c \in Ins(g) : /\ y.cell = c /\ y.op = Id(g) /\ y.w = Blk(g).wit.id /\ y.prot = Blk(g).wit.prot
                          /\ Revealing(g, c) # {} => y.seal = Outpoint(LiveSeal(g, c))
                          /\ y.spends = (Revealing(g, c) # {} /\ Blk(g).haswit /\ Outpoint(LiveSeal(g, c)) \in SRange(Blk(g).wit.ins))
  BY DEF ClosingsOf
<1>3. a = c /\ Id(h) # Id(g)
  BY <1>1, <1>2
<1> DEFINE s == LiveSeal(h, a)
           t == LiveSeal(g, a)
           v == Blk(h).wit
           w == Blk(g).wit
<1>4. /\ Revealing(h, a) # {} /\ Blk(h).haswit /\ Included(s, Id(h), v) /\ v.good /\ h.b \in DOMAIN Blocks
      /\ \E b \in DOMAIN Blocks : \E e \in SRange(Blocks[b].seals) : \E u : e.d.tok = TokenOf(a) /\ s = Resolve(e.d, u)
  BY SealIs
<1>5. /\ Revealing(g, a) # {} /\ Blk(g).haswit /\ Included(t, Id(g), w) /\ w.good /\ g.b \in DOMAIN Blocks
      /\ \E b \in DOMAIN Blocks : \E e \in SRange(Blocks[b].seals) : \E u : e.d.tok = TokenOf(a) /\ t = Resolve(e.d, u)
  BY <1>3, SealIs
<1>6. x.seal = Outpoint(s) /\ y.seal = Outpoint(t) /\ x.spends /\ y.spends
  BY <1>1, <1>2, <1>3, <1>4, <1>5, SpendsSeal
<1>7. v = Blocks[h.b].wit /\ w = Blocks[g.b].wit /\ Blocks[h.b].haswit /\ Blocks[g.b].haswit
  BY <1>4, <1>5 DEF Blk
<1> HIDE DEF s, t, v, w
<1>8. CASE x.seal # y.seal
  <2>1. PICK b \in DOMAIN Blocks : \E e \in SRange(Blocks[b].seals) : \E u : e.d.tok = TokenOf(a) /\ s = Resolve(e.d, u)
    BY <1>4
  <2>2. PICK e \in SRange(Blocks[b].seals) : \E u : e.d.tok = TokenOf(a) /\ s = Resolve(e.d, u)
    BY <2>1
  <2>3. PICK b2 \in DOMAIN Blocks : \E f \in SRange(Blocks[b2].seals) : \E u : f.d.tok = TokenOf(a) /\ t = Resolve(f.d, u)
    BY <1>5
  <2>4. PICK f \in SRange(Blocks[b2].seals) : \E u : f.d.tok = TokenOf(a) /\ t = Resolve(f.d, u)
    BY <2>3
  <2>5. e.d = f.d
    BY <2>2, <2>4, TokensOK
  <2>6. Outpoint(s)[2] = Outpoint(t)[2]
    BY <2>2, <2>4, <2>5 DEF Resolve, Outpoint
  <2>7. Outpoint(s) = <<s[1], s[2]>> /\ Outpoint(t) = <<t[1], t[2]>>
    BY DEF Outpoint
  <2>8. Outpoint(s)[1] # Outpoint(t)[1]
    BY <1>6, <1>8, <2>6, <2>7
  <2> QED BY <1>6, <1>8, <2>6, <2>8 DEF Conflict
<1>9. CASE x.seal = y.seal /\ x.w # y.w
  BY <1>6, <1>9 DEF Conflict
<1>10. CASE x.seal = y.seal /\ x.w = y.w /\ x.prot # y.prot
  BY <1>6, <1>10 DEF C20Known
<1>11. CASE x.seal = y.seal /\ x.w = y.w /\ x.prot = y.prot
  <2>1. v.id = w.id /\ v.prot = w.prot
    BY <1>1, <1>2, <1>11 DEF v, w
  <2>2. v.ins = w.ins /\ SRange(v.map) = SRange(w.map)
    BY <1>4, <1>5, <1>7, <2>1, WitnessesOK
  <2>3. Outpoint(s) = Outpoint(t)
    BY <1>6, <1>11
  <2> DEFINE at == (CHOOSE i \in {i \in DOMAIN v.ins : v.ins[i] = Outpoint(s)} : \A j \in {j \in DOMAIN v.ins : v.ins[j] = Outpoint(s)} : i <= j) - 1
  <2>4. <<at, Id(h)>> \in SRange(v.map)
    BY <1>4 DEF Included
  <2>5. <<at, Id(g)>> \in SRange(w.map)
    BY <1>5, <2>2, <2>3 DEF Included
  <2> HIDE DEF at
  <2>6. Id(h) = Id(g)
    <3>1. <<at, Id(h)>>[1] = <<at, Id(g)>>[1] /\ <<at, Id(h)>>[2] = Id(h) /\ <<at, Id(g)>>[2] = Id(g)
      OBVIOUS
    <3>2. <<at, Id(g)>> \in SRange(Blocks[h.b].wit.map) /\ <<at, Id(h)>> \in SRange(Blocks[h.b].wit.map)
      BY <1>7, <2>2, <2>4, <2>5
    <3> QED BY <1>4, <1>7, <3>1, <3>2, WitnessesOK
  <2> QED BY <1>3, <2>6
<1> QED BY <1>8, <1>9, <1>10, <1>11
=============================================================================
