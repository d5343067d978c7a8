------------------------------- MODULE Given --------------------------------
(***************************************************************************)
(* What the proofs (proofs/) assume of the blocks, in a form which TLC     *)
(* checks on every catalogue it explores, and which is not up to rgb-core: *)
(* ids commit to contents, tokens to definitions, witness ids to inputs.   *)
(***************************************************************************)
EXTENDS Props

IsCell(a) == a[2] \in Nat
Ids2(op) == {op.id, op.gid}
Contents(op) == <<op.din, op.iin, op.nimm, [i \in DOMAIN op.dout |-> op.dout[i].lock]>>

\* A set of pairs is a function.
Functional(S) == Cardinality({x[1] : x \in S}) = Cardinality(S)

GivenBlocks ==
    \A b \in DOMAIN Blocks :
       /\ \A a \in SRange(Blocks[b].op.din) : IsCell(a)
       /\ DOMAIN Blocks[b].op.iin \subseteq Nat
       /\ Blocks[b].op.nimm \in Nat
       /\ Cardinality({Blocks[b].seals[i].pos : i \in DOMAIN Blocks[b].seals}) = Len(Blocks[b].seals)
       /\ \A i \in DOMAIN Blocks[b].seals : Blocks[b].seals[i].pos \in Nat
GivenIds ==
    /\ Functional(UNION {{<<id, <<Blocks[b].op.din, [i \in DOMAIN Blocks[b].op.dout |-> Blocks[b].op.dout[i].tok]>> >> :
                          id \in Ids2(Blocks[b].op)} : b \in DOMAIN Blocks})
    /\ Functional({<<Blocks[b].op.id, Contents(Blocks[b].op)>> : b \in DOMAIN Blocks})
    /\ \A b \in DOMAIN Blocks : \A a \in SRange(Blocks[b].op.din) : a[1] \notin Ids2(Blocks[b].op)
GivenGenesis(g) ==
    /\ g.nimm \in Nat
    /\ \A b \in DOMAIN Blocks : g.gid \in Ids2(Blocks[b].op) =>
          LET op == Blocks[b].op IN op.din = <<>> /\ op.iin = <<>> /\ Contents(op)[4] = [i \in DOMAIN g.dout |-> g.dout[i].lock] /\ op.nimm = g.nimm
GivenTokens ==
    Functional(UNION {{<<s.d.tok, s.d>> : s \in SRange(Blocks[b].seals)} : b \in DOMAIN Blocks})
GivenWitnesses ==
    LET wits == {Blocks[b].wit : b \in {c \in DOMAIN Blocks : Blocks[c].haswit}} IN
    /\ Functional({<<w.id, w.ins>> : w \in wits})
    /\ Functional({<<<<w.id, w.prot>>, SRange(w.map)>> : w \in {x \in wits : x.good}})
    /\ \A w \in wits : Cardinality({x[1] : x \in SRange(w.map)}) = Cardinality(SRange(w.map))

GivenOK(g) == GivenBlocks /\ GivenIds /\ GivenGenesis(g) /\ GivenTokens /\ GivenWitnesses
=============================================================================
