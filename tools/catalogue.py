"""Adversarial catalogues: universes of abstract operations, seals, witnesses and blocks
which the exhaustive model checking runs (spec/MC.tla) explore all streams of."""


def d(name, tx, v, sec=None):
    return dict(name=name, tx=tx, v=v, sec=sec or "n:" + name)


def o(name, din=(), dout=(), iin=(), iout=0, **kw):
    """din: 'G:0'; dout: 'def' or 'def/lock'"""
    def addr(a):
        op, pos = a.rsplit(":", 1)
        return op, int(pos)
    r = dict(name=name, din=[dict(op=addr(a)[0], pos=addr(a)[1]) for a in din],
             iin=[list(addr(a)) for a in iin],
             dout=[dict(def_.items()) for def_ in
                   (dict([("def", x.split("/")[0])], lock=(x.split("/") + ["none"])[1]) for x in dout)],
             iout=[dict(data=[i + 1]) for i in range(iout)])
    r.update(kw)
    return r


def w(name, ins, map, method="opret", **kw):
    """ins: 'T/0'; map: {0: 'A'}"""
    def out(s):
        t, v = s.rsplit("/", 1)
        return [t, int(v)]
    r = dict(name=name, method=method, ins=[out(i) for i in ins], map=[[k, v] for k, v in sorted(map.items())])
    r.update(kw)
    return r


def b(op, seals=None, wit=None):
    return dict(op=op, seals=[[p, x] for p, x in sorted((seals or {}).items())], wit=wit)


def main_catalogue(method="opret"):
    """One contract, competing and dependent operations, every kind of witness and reveal."""
    defs = [d("e0", "T", 0), d("e1", "T", 1), d("e2", "T", 2), d("e3", "T", 3, "o:T/0"),
            d("r0", None, 0), d("r1", None, 1), d("rg", None, 0, "o:U/7"), d("rn", None, 2), d("x", "X", 0)]
    ops = [
        o("G", dout=["e0", "e1", "rg"], iout=1, cid="codex"),
        o("FG", dout=["e0", "e2"], iout=1, cid="codex", nonce=9),          # a foreign genesis
        o("A", din=["G:0"], dout=["r0", "e2"], iout=1),
        o("B", din=["G:0"], dout=["r1", "?b"]),                            # competes with A
        o("C", din=["A:0"], dout=["e3"]),                                  # spends a relative seal
        o("D", din=["G:1", "A:1"], dout=["r0/bad", "r1/ok"], iin=["A:0"]),     # two inputs, reads A's state
        o("N", dout=["rn", "e2"], iout=1, iin=["G:0"], nonce=3),           # consumes nothing
        o("E", din=["N:0"]),                                               # spends N's relative seal
        o("X", din=["G:1", "G:1"]),                                        # the same input twice
        o("W", din=["G:1"], cid="elsewhere"),                              # of another contract
        o("Y", din=["G:1"], cid="codex"),                                  # genesis-like, later
        o("F", din=["G:1"], call="fail"),                                  # rejected by the script
        o("Q", din=["G:1"], call="none"),
        o("I", din=["G:1"], iin=["A:0"]),                                  # needs A's immutable state
        o("R", din=["G:2"]),                                               # spends genesis' relative seal
        o("L", din=["D:0"]),                                               # the lock fails
        o("M", din=["D:1"]),                                               # the lock opens
        o("FC", din=["FG:1"]),                                             # spends from the foreign genesis
    ]
    W = lambda *a, **k: w(*a, method=method, **k)
    wits = [
        W("wA", ["T/0"], {0: "A"}), W("wB", ["T/0"], {0: "B"}),
        W("wA2", ["S/3", "T/0"], {1: "A", 0: "B"}),                        # A's seal is the second input
        W("wAx", ["T/0"], {0: "A"}, flaw="badcommit"), W("wAp", ["T/0"], {0: "A"}, flaw="badproof"),
        W("wAo", ["T/4"], {0: "A"}),                                       # spends something else
        W("wC", ["w:wA/0"], {0: "C"}), W("wC2", ["w:wA2/0"], {0: "C"}),
        W("wD", ["T/1", "T/2"], {0: "D", 1: "D"}), W("wD1", ["T/1", "T/2"], {0: "D", 1: "A"}),
        W("wD2", ["T/2", "T/1"], {0: "D"}),
        W("wN", ["S/0"], {0: "N"}), W("wN2", ["S/1"], {0: "N"}), W("wNx", ["S/0"], {0: "N"}, flaw="nooutput"),
        W("wE", ["w:wN/2"], {0: "E"}), W("wE2", ["w:wN2/2"], {0: "E"}),
        W("wG", ["S/2"], {0: "G"}), W("wR", ["w:wG/0"], {0: "R"}),
        W("w1", ["T/1"], {0: "X"}), W("wW", ["T/1"], {0: "W"}), W("wY", ["T/1"], {0: "!Y"}),
        W("wF", ["T/1"], {0: "F"}), W("wQ", ["T/1"], {0: "Q"}), W("wI", ["T/1"], {0: "I"}),
        W("wL", ["w:wD/0"], {0: "L"}), W("wM", ["w:wD/1"], {0: "M"}), W("wFC", ["T/2"], {0: "FC"}),
    ]
    blocks = [
        b("G"), b("G", {0: "e0"}), b("G", {0: "e0", 1: "e1", 2: "rg"}), b("G", {0: "e0", 1: "e1", 2: "rg"}, "wG"),
        b("G", {0: "e0", 1: "e0"}), b("G", {0: "e1", 1: "e0"}), b("G", {7: "e0"}), b("G", {1: "x"}),
        b("FG"), b("FG", {0: "e0", 1: "e2"}),
        b("A", {0: "r0", 1: "e2"}, "wA"), b("A", {0: "r0"}, "wA2"), b("A", {}, "wA"), b("A", {0: "r0", 1: "e2"}),
        b("A", {}, "wAx"), b("A", {}, "wAp"), b("A", {}, "wAo"), b("A", {}, "wB"), b("A", {0: "e2", 1: "r0"}, "wA"),
        b("B", {0: "r1"}, "wB"), b("B", {}, "wA2"),
        b("C", {}, "wC"), b("C", {0: "e3"}, "wC2"), b("C"),
        b("D", {0: "r0", 1: "r1"}, "wD"), b("D", {}, "wD1"), b("D", {}, "wD2"),
        b("N"), b("N", {0: "rn"}), b("N", {0: "rn", 1: "e2"}, "wN"), b("N", {0: "rn"}, "wN2"), b("N", {0: "rn"}, "wNx"),
        b("N", {}, "wA"),
        b("E", {}, "wE"), b("E", {}, "wE2"),
        b("X", {}, "w1"), b("W", {}, "wW"), b("Y", {}, "wY"), b("F", {}, "wF"), b("Q", {}, "wQ"), b("I", {}, "wI"),
        b("R", {}, "wR"), b("L", {}, "wL"), b("M", {}, "wM"), b("FC", {}, "wFC"),
    ]
    return dict(name="main-" + method, gen="G", ops=ops, defs=defs, wits=wits, blocks=blocks)


def history_catalogue(method="opret"):
    """Few blocks, for several evaluations by several clients with rollbacks and failures."""
    defs = [d("e0", "T", 0), d("e1", "T", 1), d("r0", None, 0), d("r1", None, 1)]
    ops = [
        o("G", dout=["e0", "e1"], iout=1, cid="codex"),
        o("A", din=["G:0"], dout=["r0"], iout=1),
        o("B", din=["G:0"], dout=["r1"]),
        o("C", din=["A:0"], iin=["A:0"]),
        o("D", din=["G:1"], dout=["e0"]),
    ]
    W = lambda *a, **k: w(*a, method=method, **k)
    wits = [W("wA", ["T/0"], {0: "A"}), W("wB", ["T/0"], {0: "B"}), W("wC", ["w:wA/0"], {0: "C"}),
            W("wD", ["T/1"], {0: "D"})]
    blocks = [
        b("G", {0: "e0", 1: "e1"}), b("G"),
        b("A", {0: "r0"}, "wA"), b("A", {}, "wA"), b("A", {0: "r0"}),
        b("B", {}, "wB"), b("C", {}, "wC"), b("D", {0: "e0"}, "wD"),
    ]
    return dict(name="history-" + method, gen="G", ops=ops, defs=defs, wits=wits, blocks=blocks)


def product_catalogue(method="opret"):
    """Few operations, but every block there is of each of them: all ways to reveal its seals,
    right and wrong, times all kinds of witness."""
    defs = [d("e0", "T", 0), d("e1", "T", 1), d("r0", None, 0), d("rn", None, 1, "o:T/0"), d("x", "X", 0)]
    ops = [
        o("G", dout=["e0", "e1"], cid="codex", iout=1),
        o("A", din=["G:0"], dout=["r0", "e1"], iout=1),             # e1 is the seal of a genesis' cell, too
        o("N", dout=["rn"], nonce=3),                               # consumes nothing
        o("C", din=["A:0", "N:0"], iin=["A:0"], dout=["r0"]),       # two relative seals
        o("D", din=["G:1", "A:1"], dout=["r0/bad"]),                # two cells with one seal
    ]
    W = lambda *a, **k: w(*a, method=method, **k)
    wits = [
        W("wA", ["T/0"], {0: "A"}), W("wA2", ["S/0", "T/0"], {1: "A"}), W("wAx", ["T/0"], {0: "A"}, flaw="badcommit"),
        W("wN", ["S/1"], {0: "N"}), W("wN2", ["S/2"], {0: "N"}), W("wNx", ["S/1"], {0: "N"}, flaw="nooutput"),
        W("wAN", ["T/0", "S/3"], {0: "A", 1: "N"}),
        W("wC", ["w:wA/0", "w:wN/1"], {0: "C", 1: "C"}), W("wC2", ["w:wA2/0", "w:wN2/1"], {0: "C", 1: "C"}),
        W("wC3", ["w:wAN/0", "w:wAN/1"], {0: "C", 1: "C"}), W("wCo", ["w:wA/0", "w:wN/1"], {0: "C"}),
        W("wCc", ["w:wA/0", "w:wN2/1"], {0: "C", 1: "C"}),
        W("wD", ["T/1"], {0: "D"}), W("wDo", ["T/1"], {0: "C"}), W("wDm", ["T/1"], {}),
    ]
    outs = dict(G=["e0", "e1"], A=["r0", "e1"], N=["rn"], C=["r0"], D=["r0"])
    own = dict(G=[None, "wA"], A=[None, "wA", "wA2", "wAx", "wAN", "wN"], N=[None, "wN", "wN2", "wNx", "wAN", "wA"],
               C=[None, "wC", "wC2", "wC3", "wCo", "wCc", "wD"], D=[None, "wD", "wDo", "wDm", "wC"])
    blocks = []
    for op, os in outs.items():
        full = dict(enumerate(os))
        reveals = [{}, full, {**full, len(os): "x"}, {0: "x"}]
        if len(os) == 2:
            reveals += [{0: os[0]}, {1: os[1]}, {0: os[1], 1: os[0]}, {0: os[1]}]
        for rv in reveals:
            for wt in own[op]:
                blocks.append(b(op, rv, wt))
    return dict(name="product-" + method, gen="G", ops=ops, defs=defs, wits=wits, blocks=blocks)


def world_catalogue(method="opret"):
    """Competing operations for several clients: with competing witnesses, with one witness for both,
    with several witnesses for one operation, and behind an operation which consumes nothing."""
    defs = [d("e0", "T", 0), d("r0", None, 0), d("r1", None, 1)]
    ops = [
        o("G", dout=["e0"], cid="codex"),
        o("A", din=["G:0"], dout=["r0"]),
        o("B", din=["G:0"]),                    # competes with A
        o("C", din=["A:0"]),
        o("D", din=["A:0"], nonce=4),           # competes with C
        o("N", dout=["r1"], nonce=3),           # consumes nothing
        o("P", din=["N:0"]),
        o("Q", din=["N:0"], nonce=4),           # competes with P
    ]
    W = lambda *a, **k: w(*a, method=method, **k)
    wits = [
        W("wA", ["T/0"], {0: "A"}, also=[["alt", [[0, "B"]]]]), W("wAB", ["T/0"], {0: "B"}, prot="alt", also=[["own", [[0, "A"]]]]),
        W("wB", ["T/0"], {0: "B"}), W("wA2", ["T/0"], {0: "A"}, nonce=1),
        W("wAb", ["T/0", "S/1"], {0: "A", 1: "B"}),       # the seal belongs to A, B is only mentioned
        W("wC", ["w:wA/0"], {0: "C"}), W("wD", ["w:wA/0"], {0: "D"}), W("wD2", ["w:wA2/0"], {0: "D"}),
        W("wN", ["S/2"], {0: "N"}), W("wN2", ["S/3"], {0: "N"}),
        W("wP", ["w:wN/1"], {0: "P"}), W("wQ", ["w:wN/1"], {0: "Q"}), W("wQ2", ["w:wN2/1"], {0: "Q"}),
    ]
    blocks = [
        b("G", {0: "e0"}),
        b("A", {0: "r0"}, "wA"), b("A", {0: "r0"}, "wA2"), b("A", {0: "r0"}, "wAb"),
        b("B", {}, "wAB"), b("B", {}, "wB"), b("B", {}, "wAb"),
        b("C", {}, "wC"), b("D", {}, "wD"), b("D", {}, "wD2"),
        b("N", {0: "r1"}, "wN"), b("N", {0: "r1"}, "wN2"),
        b("P", {}, "wP"), b("Q", {}, "wQ"), b("Q", {}, "wQ2"),
    ]
    return dict(name="world-" + method, gen="G", ops=ops, defs=defs, wits=wits, blocks=blocks)
