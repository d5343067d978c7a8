------------------------------- MODULE Props -------------------------------
(***************************************************************************)
(* The properties C01..C21, stated declaratively over what an environment  *)
(* of rgb-core can observe, independently of the machine in Rgb.           *)
(*                                                                         *)
(* A judged block is a record h                                            *)
(*   p       the client                                                    *)
(*   first   it is the first block of the stream                           *)
(*   b       its number in Blocks                                          *)
(*   prefix  the blocks accepted before it in this evaluation,             *)
(*           a sequence of [id, b]                                         *)
(*   acc     whether it was accepted; err   the error if not               *)
(*   fx      the effects reported for it: <<kind, id, content>>            *)
(*   L       the client's ledger before it                                 *)
(*                                                                         *)
(* A finished evaluation is a record e                                     *)
(*   items   what was read: [t |-> "b"|"fail"|"end", b, fx]                *)
(*   pre     effects before anything was read                              *)
(*   over    number of reads after the stream was exhausted                *)
(*   res     the result: [k |-> "ok"] or an error                          *)
(***************************************************************************)
EXTENDS Rgb

Blk(h) == Blocks[h.b]
Op(h) == Blk(h).op
Id(h) == IF h.first THEN Op(h).gid ELSE Op(h).id      \* the id the contract knows it under
Dig(h) == IF h.first THEN Op(h).gdig ELSE Op(h).dig
Cid(h) == IF h.first THEN "own" ELSE Op(h).cid
Ins(h) == SRange(Op(h).din)
Known(h) == Id(h) \in h.L.known

-----------------------------------------------------------------------------
(* Seals revealed by the accepted blocks of the stream *)

\* Blocks of the prefix which reveal a usable seal for the cell.
Reveals(x, a) ==
    /\ x.id = a[1]
    /\ \E i \in DOMAIN Blocks[x.b].seals :
          /\ Blocks[x.b].seals[i].pos = a[2]
          /\ IsRelative(Blocks[x.b].seals[i].d) => Blocks[x.b].haswit
Revealing(h, a) == {i \in DOMAIN h.prefix : Reveals(h.prefix[i], a)}

SealBy(x, a) ==
    LET bl == Blocks[x.b]
        s == CHOOSE s \in SRange(bl.seals) : s.pos = a[2]
    IN Resolve(s.d, bl.wit.id)
RevealedSeals(h, a) == {SealBy(h.prefix[i], a) : i \in Revealing(h, a)}

Max(S) == CHOOSE m \in S : \A n \in S : n <= m
Consuming(h, a) == {i \in DOMAIN h.prefix : a \in SRange(Blocks[h.prefix[i].b].op.din)}
IsLive(h, a) == /\ Revealing(h, a) # {}
                /\ \A j \in Consuming(h, a) : j <= Max(Revealing(h, a))
LiveSeal(h, a) == SealBy(h.prefix[Max(Revealing(h, a))], a)

-----------------------------------------------------------------------------
(* The rules a block has to obey *)

NoDup(s) == Cardinality(SRange(s)) = Len(s)

RuleGenesis(h) == h.first => Op(h).cid = "codex" /\ Id(h) = h.L.gen
RuleDefs(h) == \A s \in SRange(Blk(h).seals) :
                  /\ s.pos < Len(Op(h).dout)
                  /\ Op(h).dout[s.pos + 1].tok = s.d.tok
RuleInputs(h) == /\ NoDup(Op(h).din)
                 /\ \A a \in Ins(h) : IsLive(h, a)
RuleCodex(h) == Known(h) \/ CodexVerdict(h.L, Op(h), Cid(h)) = NoErr
RuleWitness(h) ==
    IF Blk(h).haswit
    THEN /\ \A a \in Ins(h) : Included(LiveSeal(h, a), Id(h), Blk(h).wit)
         /\ Commits(Blk(h).wit, Id(h))
    ELSE Op(h).din = <<>>

SealRules(h) == RuleDefs(h) /\ RuleInputs(h) /\ RuleWitness(h)
Lawful(h) == RuleGenesis(h) /\ RuleDefs(h) /\ RuleInputs(h) /\ RuleCodex(h) /\ RuleWitness(h)

-----------------------------------------------------------------------------
(* Effects *)

Has(h, kind) == \E i \in DOMAIN h.fx : h.fx[i][1] = kind
Is(h, kind) == {i \in DOMAIN h.fx : h.fx[i][1] = kind}

MustWit(h) == Blk(h).haswit
MustOp(h) == ~h.first /\ ~Known(h)
MustSeals(h) == Blk(h).seals # <<>>
ExactlyOnce(h, kind, id, dig) == \E i \in Is(h, kind) : Is(h, kind) = {i} /\ h.fx[i] = <<kind, id, dig>>
GotWit(h) == IF MustWit(h) THEN ExactlyOnce(h, "wit", Id(h), Blk(h).wdig) ELSE ~Has(h, "wit")
GotOp(h) == IF MustOp(h) THEN ExactlyOnce(h, "op", Id(h), Dig(h)) ELSE ~Has(h, "op")
GotSeals(h) == IF MustSeals(h) THEN ExactlyOnce(h, "seals", Id(h), Blk(h).sdig) ELSE ~Has(h, "seals")
GotAll(h) == GotWit(h) /\ GotOp(h) /\ GotSeals(h)
WitFirst(h) == \A i \in Is(h, "wit"), j \in Is(h, "op") : i < j

-----------------------------------------------------------------------------
(* C01 .. C12: every judged block *)

C01(h) == h.acc =>
    /\ \A a \in Ins(h) : \E s \in RevealedSeals(h, a) : Blk(h).haswit /\ Included(s, Id(h), Blk(h).wit)
    /\ Ins(h) # {} => Blk(h).haswit /\ Commits(Blk(h).wit, Id(h))

C02(h) == /\ h.acc =>
             /\ NoDup(Op(h).din)
             /\ \A a \in Ins(h) : \A j \in Consuming(h, a) :
                   \E i \in (j + 1)..Len(h.prefix) : h.prefix[i].id = a[1]
          /\ Has(h, "op") => Ins(h) \cap DOMAIN h.L.spent = {}

C03(h) == /\ h.acc => RuleDefs(h)
          /\ ~h.acc /\ h.err.k = "Mismatch" => ~RuleDefs(h)

SealError == {"SealUnknown", "NotIncluded", "BadCommitment", "NoWitness"}
RevealsRelative(h) == \E s \in SRange(Blk(h).seals) : IsRelative(s.d)
C04(h) == /\ h.acc => \A a \in Ins(h) : \E s \in RevealedSeals(h, a) : Blk(h).haswit => Included(s, Id(h), Blk(h).wit)
          /\ h.acc /\ RevealsRelative(h) /\ Blk(h).haswit => Commits(Blk(h).wit, Id(h))
          /\ Lawful(h) /\ ~h.acc => h.err.k \notin SealError
          /\ ~h.acc /\ h.err.k = "NotIncluded" => h.err.seal \in UNION {RevealedSeals(h, a) : a \in Ins(h)}

C05(h) == /\ h.first /\ h.acc => Op(h).cid = "codex" /\ Id(h) = h.L.gen
          /\ h.first => ~Has(h, "op")
          /\ h.first => \A i \in DOMAIN h.fx : h.fx[i][2] = Op(h).gid
          /\ ~h.first /\ h.acc /\ ~Known(h) => Op(h).cid = "own"
\* The known finding: any operation committing to the codex may stand for the genesis.
C05Known(h) == /\ h.first /\ h.acc /\ Op(h).cid = "codex" /\ Id(h) # h.L.gen
               /\ ~Has(h, "op")
               /\ \A i \in DOMAIN h.fx : h.fx[i][2] = Op(h).gid
               /\ RuleDefs(h) /\ RuleInputs(h) /\ RuleCodex(h) /\ RuleWitness(h)

C06(h) == /\ Has(h, "op") => CodexVerdict(h.L, Op(h), Op(h).cid) = NoErr
          /\ h.acc /\ MustOp(h) => RuleCodex(h) /\ GotOp(h)

C07(h) == Known(h) =>
    /\ ~Has(h, "op")
    /\ h.acc => SealRules(h) /\ GotWit(h) /\ GotSeals(h)
    /\ SealRules(h) /\ RuleGenesis(h) => h.acc

C08(h) == ~h.acc => h.fx = <<>>

C09(h) == /\ h.acc => GotAll(h) /\ WitFirst(h)
          /\ ~h.acc => h.fx = <<>>

C10(h) == Lawful(h) => h.acc

TokensOf(h) == {s.d.tok : s \in SRange(Blk(h).seals)}
Culprit(h, e) ==
    CASE e.k = "NoCodex" -> h.first /\ Op(h).cid # "codex"
      [] e.k = "Mismatch" ->
            /\ ~RuleDefs(h)
            /\ e.op = Id(h)
            /\ e.reported = TokensOf(h)
            /\ e.defined = {c.tok : c \in SRange(Op(h).dout)}
            /\ e.sources = {<<s.pos, s.s>> : s \in SRange(Blk(h).seals)}
      [] e.k = "SealUnknown" -> e.addr \in Ins(h) /\ (~IsLive(h, e.addr) \/ ~NoDup(Op(h).din))
      [] e.k = "NoWitness" -> e.op = Id(h) /\ ~Blk(h).haswit /\ Ins(h) # {}
      [] e.k = "NotIncluded" ->
            /\ Blk(h).haswit /\ e.op = Id(h) /\ e.w = Blk(h).wit.id /\ e.w2 = Blk(h).wit.id
            /\ \E a \in Ins(h) : IsLive(h, a) /\ LiveSeal(h, a) = e.seal
            /\ ~Included(e.seal, Id(h), Blk(h).wit)
      [] e.k = "BadCommitment" -> /\ Blk(h).haswit /\ e.op = Id(h) /\ e.w = Blk(h).wit.id
                                  /\ ~Commits(Blk(h).wit, Id(h))
      [] e.k = "WrongContract" -> ~Known(h) /\ Cid(h) # "own" /\ e.exp = "own" /\ e.found = Cid(h)
      [] e.k = "NoReadOnce" -> ~Known(h) /\ e.addr \in Ins(h) /\ e.addr \notin DOMAIN h.L.dmem
      [] e.k = "NoImmutable" -> ~Known(h) /\ e.addr \in SRange(Op(h).iin) /\ e.addr \notin h.L.imm
      [] e.k = "NotFound" -> ~Known(h) /\ Op(h).call = "none"
      [] e.k = "Script" -> ~Known(h) /\ Op(h).call = "fail"
      [] e.k = "Lock" -> ~Known(h) /\ \E a \in Ins(h) \cap DOMAIN h.L.dmem : h.L.dmem[a] = "bad"
      [] OTHER -> e.k \in {"panic", "overread", "hang", "abort", "died"}   \* no error at all: see C17

\* (recorded lists of tokens and sources are sets of them)
AsSets(e) == IF e.k = "Mismatch" THEN [e EXCEPT !.reported = SRange(@), !.defined = SRange(@), !.sources = SRange(@)] ELSE e
C12(h) == ~h.acc => h.err.said /\ Culprit(h, AsSets(h.err))

-----------------------------------------------------------------------------
(* C20: what clients accepted together *)

\* The closings a judged block brings: which cell, which seal, over which operation, by which witness.
ClosingsOf(h) ==
    {[cell |-> a,
      seal |-> IF Revealing(h, a) # {} THEN Outpoint(LiveSeal(h, a)) ELSE <<"-", "-">>,
      op |-> Id(h), w |-> Blk(h).wit.id, prot |-> Blk(h).wit.prot,
      spends |-> /\ Revealing(h, a) # {} /\ Blk(h).haswit
                 /\ Outpoint(LiveSeal(h, a)) \in SRange(Blk(h).wit.ins)] : a \in Ins(h)}

\* Two closings of the seal of one cell over different operations cannot both be in a ledger of witnesses in
\* which nothing is spent twice; or else they close the seals of different deliveries of the defining operation.
Conflict(x, y) == /\ x.spends /\ y.spends
                  /\ IF x.seal = y.seal THEN x.w # y.w
                     ELSE x.seal[1] # y.seal[1] /\ x.seal[2] = y.seal[2]
\* The known finding: one published witness, but under two protocols.
C20Known(x, y) == x.spends /\ y.spends /\ x.seal = y.seal /\ x.w = y.w /\ x.prot # y.prot

-----------------------------------------------------------------------------
(* Every finished evaluation *)

LastItem(e) == e.items[Len(e.items)]
EndsWith(e, t) == e.items # <<>> /\ LastItem(e).t = t
Crash == {"panic", "overread", "hang", "abort", "died"}

\* Nothing happens but in response to an accepted block.
Quiet(e) == e.pre = <<>> /\ \A i \in DOMAIN e.items : e.items[i].t # "b" => e.items[i].fx = <<>>

C08e(e) == /\ Quiet(e)
           \* an error, other than for a failing source, comes right after the block which caused it
           /\ e.res.k \notin Crash \cup {"ok", "Stream"} => EndsWith(e, "b") /\ e.over = 0
C09e(e) == Quiet(e)
C10e(e) == /\ EndsWith(e, "end") => e.res.k = "ok"
           /\ e.res.k = "ok" => EndsWith(e, "end")
C11e(e) == /\ \A i \in DOMAIN e.items : e.items[i].t \in {"fail", "end"} => i = Len(e.items) /\ e.over = 0 /\ e.items[i].fx = <<>>
           /\ EndsWith(e, "fail") => e.res.k = "Stream" /\ e.res.at = Len(e.items) - 1 /\ e.res.said
           /\ e.res.k = "Stream" => EndsWith(e, "fail")
           /\ EndsWith(e, "end") => e.res.k = "ok"
           /\ e.res.k = "ok" => EndsWith(e, "end")
C17e(e) == e.res.k \notin Crash
=============================================================================
