"""Seeded adversarial scenarios: random universes of operations, seals and witnesses, and
random histories of evaluations over them. What is right or wrong about them is not decided
here: the specification does that on the recorded executions."""

import random

END, FAIL = -2, -1

VOUTS = [0, 0, 0, 1, 1, 2, 3, 5, 7, 8, 15, 16, 31, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 1000, 4096,
         32767, 32768, 65534, 65535, 65536, 65537, 0xFFFFFF, 0x1000000, 0x7FFFFFFF, 0x80000000,
         0xFFFFFFFE, 0xFFFFFFFF]
TXS = ["0", "f", "T", "U", "V", "X"]


def bit(r, n=256):
    """Which bit of an id is wrong."""
    return r.choice([0, 7, 8, 127, 128, n // 2 - 1, n - 9, n - 8, n - 1] + [r.randrange(n) for _ in range(4)])


class Uni:
    """A random universe. Operations come in an order in which each may depend on earlier ones."""

    def __init__(self, rng, name, ops=8, wide=0, tame=False, method=None, plain=False):
        self.r, self.name, self.tame = rng, name, tame
        self.salt = rng.choice([0, 0, 1, 2, 3, 4])        # which contract, of which codex
        self.defs, self.ops, self.wits, self.blocks = [], [], [], []
        self.method = method
        self.op = {}          # name -> spec
        self.outs = {}        # name -> list of def names (or "?")
        self.wit_of = {}      # op -> its honest witness, or None
        self.cells = []       # (op, pos) of all cells with known definitions, newest last
        self.spent = set()
        self.honest = {}      # op -> block with everything revealed
        self.variants = {}    # op -> all its blocks
        self.kinds = {}       # block -> what it is meant to be
        self.deps = {}
        self.sound = {"G"}    # operations nothing is wrong with
        self.nodes = 0
        self.plain = plain    # the genesis can be spent from
        self.genesis(wide)
        while len(self.op) < ops + 1:
            self.group(min(rng.choice([1, 1, 1, 2, 3]), ops + 1 - len(self.op)), wide)
        for o in list(self.op):
            self.make_blocks(o)
        if not tame:
            self.strays()

    # Definitions
    def new_def(self, relative=None):
        r = self.r
        n = f"d{len(self.defs)}"
        if relative is None:
            relative = r.random() < 0.45
        v = r.choice(VOUTS) if r.random() < 0.7 else r.randrange(4)
        if relative:
            tx = None
        else:
            tx = r.choice(TXS) if r.random() < 0.6 else f"T{r.randrange(1000)}"
            if self.wits and r.random() < 0.2:
                tx = "w:" + r.choice(self.wits)["name"]
        sec = r.choice([f"n:{n}", f"n:{n}", "n:0", "n:f", f"o:T/{r.choice(VOUTS)}", f"o:0/{r.choice(VOUTS)}",
                        f"o:{tx if tx and not tx.startswith('w:') else 'f'}/{v}"])
        self.defs.append(dict(name=n, tx=tx, v=v, sec=sec))
        return n

    def any_def(self):
        if self.defs and self.r.random() < 0.12:
            return self.r.choice(self.defs)["name"]       # the same definition for several cells
        return self.new_def()

    def defn(self, n):
        return next(d for d in self.defs if d["name"] == n)

    # Operations
    def add_op(self, name, din=(), iin=(), nd=None, wide=0, **kw):
        r = self.r
        if nd is None:
            nd = r.choice([0, 1, 1, 1, 2, 2, 3, 4, 6])
            if wide and r.random() < 0.35:
                nd = wide + r.randrange(3)
        outs = []
        for _ in range(nd):
            x = r.random()
            if x < 0.08 and not self.tame:
                if self.defs and r.random() < 0.3:            # one bit off
                    outs.append(f"?~{bit(r, 240)}:{r.choice(self.defs)['name']}")
                else:
                    outs.append("?" + r.choice("abc"))
            elif x < 0.16 and outs:
                outs.append(r.choice(outs))               # equal tokens in one operation
            else:
                outs.append(self.any_def())
        lock = lambda: r.choice(["none"] * (12 if not self.tame else 40) + ["ok", "ok", "aux", "bad"])
        dat = lambda: [r.choice([0, 1, 2, 255, 256, 2**32, 2**63, 2**64 - 1]) for _ in range(r.randrange(4))]
        spec = dict(
            name=name,
            cid="own", call="ok",
            nonce=r.choice([0, 1, 2, 255, 256, 2**64 - 1, r.randrange(2**32)]),
            wit=dat() if r.random() < 0.3 else [],
            din=[dict(op=o, pos=p, wit=dat() if r.random() < 0.2 else []) for o, p in din],
            iin=[[o, p] for o, p in iin],
            dout=[{"def": x, "lock": lock(), "data": dat()} for x in outs],
            iout=[dict(data=dat(), raw=r.choice([0, 0, 1, 2, 40])) for _ in range(r.choice([0, 0, 1, 1, 2, 5]))],
        )
        spec.update(kw)
        self.ops.append(spec)
        self.op[name] = spec
        self.outs[name] = outs
        self.deps[name] = {o for o, _ in list(din) + list(iin) if o[0] != "~"}
        for pos, x in enumerate(outs):
            if not x.startswith("?"):
                self.cells.append((name, pos))
        return spec

    def genesis(self, wide):
        self.add_op("G", nd=self.r.choice([2, 3, 5, 8]) + wide, cid="codex")
        if self.plain:
            for pos in range(len(self.op["G"]["dout"])):
                d = self.new_def(relative=False)
                self.op["G"]["dout"][pos] = {"def": d, "lock": "none", "data": []}
                self.outs["G"][pos] = d
            self.cells = [("G", pos) for pos in range(len(self.outs["G"]))]
        if self.r.random() < 0.3:
            self.new_wit("wG", [("G", None)])
            self.wit_of["G"] = "wG"
        else:
            self.wit_of["G"] = None

    def usable(self, cell):
        """Whether an honest witness can close the seal of the cell."""
        d = self.defn(self.outs[cell[0]][cell[1]])
        return d["tx"] is not None or self.wit_of.get(cell[0]) is not None

    def outpoint(self, cell, wit=None):
        d = self.defn(self.outs[cell[0]][cell[1]])
        if d["tx"] is not None:
            return (d["tx"], d["v"])
        w = wit or self.wit_of.get(cell[0])
        return ("w:" + w, d["v"]) if w else None

    def group(self, n, wide):
        """Operations which share a witness."""
        r = self.r
        made = []
        for _ in range(n):
            self.nodes += 1
            name = f"O{self.nodes}"
            before = [c for c in self.cells if c[0] not in made]
            free = [c for c in before if c not in self.spent and self.usable(c) and
                    (self.op[c[0]]["dout"][c[1]]["lock"] != "bad" or r.random() < 0.2)]
            k = r.choice([0, 1, 1, 1, 1, 2, 2, 3])
            if wide and r.random() < 0.5:
                k = len(free)
            x = r.random()
            kw = {}
            if not self.tame and x < 0.10 and before:
                pool = before                              # maybe spent already, or unusable
            elif not self.tame and x < 0.14 and self.spent:
                pool = list(self.spent)
            else:
                pool = free
            din = r.sample(sorted(pool), min(k, len(pool)))
            if not self.tame:
                if din and r.random() < 0.04:
                    din.insert(r.randrange(len(din) + 1), r.choice(din))
                if r.random() < 0.03:
                    din.append(r.choice([(r.choice(list(self.op)), r.choice([9, 255, 256, 65535])), ("?zz", 0)]))
                    din = [d for d in din if not d[0].startswith("?")]
                if before and r.random() < 0.04:
                    o, p = r.choice(before)
                    din.append((f"~{bit(r)}:{o}", p))
                y = r.random()
                kw = (dict(call="fail") if y < 0.03 else dict(call="failu") if y < 0.04 else dict(call="none") if y < 0.06
                      else dict(cid=r.choice(["else", "else", f"~{bit(r)}:own", f"~{bit(r)}:own"])) if y < 0.10
                      else dict(cid="codex") if y < 0.13 else {})
            iin = []
            if r.random() < 0.3:
                o = r.choice([o for o in self.op if o not in made])
                m = len(self.op[o]["iout"])
                if m:
                    iin.append((o, r.randrange(m)))
                elif not self.tame and r.random() < 0.3:
                    iin.append((o, r.choice([0, 7, 65535])))
            self.add_op(name, din, iin, wide=wide, **kw)
            clean = not kw and pool is free and len(set(din)) == len(din) and set(din) <= set(free)
            if clean and all(self.op[c[0]]["dout"][c[1]]["lock"] != "bad" for c in din) and \
                    all(p < len(self.op[o]["iout"]) for o, p in iin) and self.deps[name] <= self.sound:
                self.sound.add(name)
            if clean:
                self.spent |= set(din)
            made.append(name)
        needs = [(o, (i["op"], i["pos"])) for o in made for i in self.op[o]["din"]]
        if needs or r.random() < 0.4:
            w = f"w{self.nodes}"
            if not needs:
                needs = [(o, None) for o in made]
            self.new_wit(w, needs + [(o, None) for o in made if not self.op[o]["din"]])
            for o in made:
                self.wit_of[o] = w
        else:
            for o in made:
                self.wit_of[o] = None

    # Witnesses
    def new_wit(self, name, needs, flaw=None, twist=None, anchor=None):
        """needs: (operation, cell or None): the seal of the cell is to be closed over the operation."""
        r = self.r
        ins, owner = [], []
        for o, c in needs:
            p = None
            if c is not None and c[1] < len(self.outs.get(c[0], [])) and not self.outs[c[0]][c[1]].startswith("?"):
                p = self.outpoint(c, (anchor or {}).get(c[0]))
            if p is None:
                p = (f"S{len(self.wits)}", r.choice(VOUTS))
            if p in ins:
                if owner[ins.index(p)] != o:
                    continue                                  # closed over another operation already
                continue
            ins.append(p)
            owner.append(o)
        order = list(range(len(ins)))
        r.shuffle(order)
        ins, owner = [ins[i] for i in order], [owner[i] for i in order]
        for _ in range(r.choice([0, 0, 0, 1, 2])):
            at = r.randrange(len(ins) + 1)
            ins.insert(at, (f"P{r.randrange(99)}", r.choice(VOUTS)))
            owner.insert(at, None)
        m = {i: o for i, o in enumerate(owner) if o}
        if r.random() < 0.15:
            m[r.choice([len(ins), 255, 256, 65535, 65536, 2**31 - 1])] = r.choice(["?m", needs[0][0] if needs else "?m"])
        if r.random() < 0.1 and ins:
            ins.append(ins[0])                                # the first one counts
            if r.random() < 0.5:
                m[len(ins) - 1] = "?n"
        if twist == "omit" and m:
            m.pop(r.choice(list(m)))
        elif twist == "shift" and m:
            m = {i + 1: o for i, o in m.items()}
        elif twist == "other" and m:
            i = r.choice(list(m))
            others = [o for o in self.op if o != m[i]]
            m[i] = r.choice(others + ["?q"])
        elif twist == "spendless" and ins:
            i = r.randrange(len(ins))
            ins[i] = (f"Z{len(self.wits)}", ins[i][1]) if r.random() < 0.5 else (ins[i][0], ins[i][1] ^ r.choice([1, 256, 65536]))
        elif twist == "empty":
            m = {}
        elif twist == "noins":
            ins = []
        elif twist == "raw" and m:                            # over the id under another contract
            i = r.choice(list(m))
            m[i] = "!" + m[i] if m[i] in self.op else m[i]
        self.wits.append(dict(
            name=name,
            method=self.method or r.choice(["opret", "tapret"]),
            ins=[list(i) for i in ins],
            map=[[i, o] for i, o in sorted(m.items())],
            flaw=flaw or "none",
            outs=r.choice([0, 0, 1, 2, -1]),
            nonce=r.randrange(8)))
        return name

    # Blocks
    def add_block(self, op, seals, wit, kind):
        self.blocks.append(dict(op=op, seals=sorted([p, d] for p, d in seals.items()), wit=wit))
        i = len(self.blocks) - 1
        self.variants.setdefault(op, []).append(i)
        self.kinds[i] = kind
        return i

    def make_blocks(self, o):
        r = self.r
        outs = self.outs[o]
        full = {p: d for p, d in enumerate(outs) if not d.startswith("?")}
        w = self.wit_of[o]
        self.honest[o] = self.add_block(o, full, w, "honest")
        if full and r.random() < 0.6:
            part = {p: d for p, d in full.items() if r.random() < 0.5}
            self.add_block(o, part, w, "part")
        if r.random() < 0.3:
            self.add_block(o, {}, w, "bare")
        needs = [(o, (i["op"], i["pos"])) for i in self.op[o]["din"]] or [(o, None)]
        if r.random() < 0.4:                                  # another valid witness
            self.add_block(o, full, self.new_wit(f"w{o}-alt", needs), "alt")
        if self.tame:
            return
        n = lambda: f"w{o}-x{len(self.wits)}"
        if r.random() < 0.5:
            self.add_block(o, full, None, "nowit")
        if r.random() < 0.35:
            flaw = r.choice(["nooutput", "badcommit", "badproof", "badmpc", "badproto"])
            self.add_block(o, full, self.new_wit(n(), needs, flaw=flaw), flaw)
        if r.random() < 0.6:
            t = r.choice(["omit", "shift", "other", "spendless", "spendless", "empty", "noins", "raw"])
            self.add_block(o, full, self.new_wit(n(), needs, twist=t), t)
        if r.random() < 0.25 and self.wits:
            self.add_block(o, full, r.choice(self.wits)["name"], "foreign-witness")
        if r.random() < 0.5:
            bad = dict(full)
            t = r.choice(["swap", "foreign", "range", "dup", "far", "shiftpos"])
            ps = list(bad)
            if t == "swap" and len(ps) > 1:
                a, b = r.sample(ps, 2)
                bad[a], bad[b] = bad[b], bad[a]
            elif t == "foreign" and ps:
                bad[r.choice(ps)] = r.choice(self.defs)["name"]
            elif t == "dup" and len(ps) > 1:
                a, b = r.sample(ps, 2)
                bad[a] = bad[b]
            elif t == "range":
                bad[len(outs)] = r.choice(self.defs)["name"]
            elif t == "far":
                bad[r.choice([255, 256, 257, 65535, 256 + (ps[0] if ps else 0)])] = bad[ps[0]] if ps else r.choice(self.defs)["name"]
            elif t == "shiftpos":
                bad = {p + 1: d for p, d in bad.items()}
            self.add_block(o, bad, w, "seals-" + t)
        close = {p: d.split(":")[1] for p, d in enumerate(outs) if d.startswith("?~")}
        if close:
            p = r.choice(list(close))
            self.add_block(o, {**full, p: close[p]} if r.random() < 0.5 else {p: close[p]}, w, "seals-near")

    def strays(self):
        r = self.r
        if r.random() < 0.6:                                  # a foreign genesis
            iin = [("G", 0)] if r.random() < 0.2 else []
            din = [("G", 0)] if r.random() < 0.1 else []
            self.add_op("FG", din, iin, nd=2, cid="codex", nonce=77, call=r.choice(["ok", "ok", "ok", "fail"]))
            self.wit_of["FG"] = None
            self.add_block("FG", {0: self.outs["FG"][0]} if not self.outs["FG"][0].startswith("?") else {}, None, "foreign-genesis")
        if r.random() < 0.4:                                  # the genesis under the contract's own id
            g = dict(self.op["G"], name="GO", cid="own")
            self.ops.append(g)
            self.op["GO"] = g
            self.outs["GO"] = list(self.outs["G"])
            self.deps["GO"] = set()
            self.wit_of["GO"] = None
            self.add_block("GO", {}, None, "own-genesis")
        if r.random() < 0.3:                                  # the genesis of a codex nobody knows
            self.add_op("BG", nd=1, cid="else")
            self.wit_of["BG"] = None
            self.add_block("BG", {}, None, "bad-genesis")
        if r.random() < 0.3:                                  # the genesis under an id which is almost the codex'
            g = dict(self.op["G"], name="GN", cid=f"~{bit(r)}:codex")
            self.ops.append(g)
            self.op["GN"] = g
            self.outs["GN"] = list(self.outs["G"])
            self.deps["GN"] = set()
            self.wit_of["GN"] = None
            self.add_block("GN", {}, None, "near-genesis")

    def spec(self):
        return dict(name=self.name, salt=self.salt, gen="G", ops=self.ops, defs=self.defs, wits=self.wits, blocks=self.blocks)

    # Streams
    def closure(self, os):
        todo, res = list(os), set()
        while todo:
            o = todo.pop()
            if o not in res:
                res.add(o)
                todo += self.deps[o]
        return res

    def order(self, os, shuffle=True):
        """A topological order of the operations, the genesis first."""
        left, res = set(os) | {"G"}, []
        while left:
            ready = sorted(o for o in left if not (self.deps[o] - {"G"}) & left)
            if "G" in left:
                o = "G"
            else:
                if not ready:
                    break
                o = self.r.choice(ready) if shuffle else ready[0]
            left.remove(o)
            res.append(o)
        return res

    def main_ops(self):
        return [o for o in self.op if o.startswith("O")]

    def stream(self, os=None, close=True, variety=0.25):
        r = self.r
        if os is None:
            pool = self.main_ops() if r.random() < 0.15 else [o for o in self.main_ops() if o in self.sound]
            os = [o for o in pool if r.random() < r.choice([0.3, 0.6, 0.9])]
        os = self.closure(os) if close else os
        items = []
        for o in self.order(os):
            b = self.honest[o]
            if r.random() < variety:
                good = [i for i in self.variants[o] if self.kinds[i] in ("honest", "part", "bare", "alt")]
                b = r.choice(good)
            items.append(b)
        return items

    def mutate(self, items):
        r = self.r
        items = list(items)
        if not items:
            return [r.randrange(len(self.blocks))]
        t = r.choice(["drop", "dup", "swap", "variant", "variant", "variant", "insert", "nogen", "replay", "trunc", "stray"])
        i = r.randrange(len(items))
        if t == "drop":
            items.pop(i)
        elif t == "dup":
            items.insert(r.randrange(i, len(items)) + 1, items[i])
        elif t == "swap" and i + 1 < len(items):
            items[i], items[i + 1] = items[i + 1], items[i]
        elif t == "variant":
            items[i] = r.choice(self.variants[self.blocks[items[i]]["op"]])
        elif t == "insert":
            items.insert(i, r.randrange(len(self.blocks)))
        elif t == "nogen":
            items.pop(0)
        elif t == "replay":
            items.append(r.choice(items))
        elif t == "trunc":
            items = items[:i]
        elif t == "stray":
            x = [b for b, k in self.kinds.items() if k.endswith("genesis")]
            if x:
                items.insert(r.choice([0, 0, i]), r.choice(x))
        return items

    def close(self, items, fail=None):
        """The end of the stream, or a failure, and things which must not be read after it."""
        r = self.r
        items = list(items)
        if fail is None:
            fail = r.random() < 0.2
        tail = [r.randrange(len(self.blocks)) for _ in range(r.choice([1, 2]))]
        if fail:
            at = r.randrange(len(items) + 1)
            return items[:at] + [FAIL] + (items[at:] or tail) + [END]
        return items + [END] + tail + [END]


def ev(p, items):
    return dict(k="eval", p=p, items=items)


def roll(p, op):
    return dict(k="roll", p=p, op=op)


def single(u):
    """One or several evaluations by one client."""
    r = u.r
    steps = []
    for _ in range(r.choice([1, 1, 2, 3])):
        items = u.stream()
        for _ in range(r.choice([0, 0, 1, 1, 2]) if not u.tame else 0):
            items = u.mutate(items)
        steps.append(ev(0, u.close(items, False if u.tame else None)))
        if r.random() < 0.3:
            steps.append(ev(0, u.close(r.choice([items, u.mutate(items)]), False)))      # again
        if r.random() < 0.2:
            steps.append(roll(0, r.choice(u.main_ops())))
    return 1, steps


def parties(u):
    """Several clients get the same operations in different orders, splits and repetitions."""
    r = u.r
    np = r.choice([2, 2, 3])
    pool = u.main_ops() if r.random() < 0.1 else [o for o in u.main_ops() if o in u.sound]
    os = [o for o in pool if r.random() < 0.8] or pool[:1]
    os = u.closure(os) - {"G"}
    plans = []
    for p in range(np):
        order = [o for o in u.order(os) if o != "G"]
        style = r.choice(["whole", "split", "grow", "noisy"])
        plan = []
        if style == "whole":
            plan.append([u.honest["G"]] + [u.honest[o] for o in order])
        else:
            cuts = sorted(r.sample(range(len(order) + 1), min(r.choice([1, 2, 3]), len(order) + 1))) + [len(order)]
            done = 0
            for c in cuts:
                need = u.closure(order[:c] if style != "split" else order[done:c])   # history is needed for its seals
                part = [o for o in order[:c] if o in need]
                plan.append([u.honest["G"]] + [u.honest[o] for o in part])
                done = c
                if style == "noisy":
                    plan.append(u.mutate(plan[-1]))
                    if r.random() < 0.5:
                        plan.append(list(plan[0]))
        plans.append([(p, u.close(x, fail=False)) for x in plan])
    steps = []
    while any(plans):
        q = r.choice([x for x in plans if x])
        p, items = q.pop(0)
        steps.append(ev(p, items))
        if r.random() < 0.1:
            steps.append(ev(p, u.close(u.mutate(items[:items.index(END)]), None)))
    if r.random() < 0.3:
        p, o = r.randrange(np), r.choice(u.main_ops())
        steps.append(roll(p, o))
        if r.random() < 0.5:
            steps.append(ev(p, u.close(u.stream(os), False)))
    return np, steps


def probe(u):
    """One block, right or wrong in some way, after exactly what it needs: as a new or as a known operation."""
    r = u.r
    bad = [i for i, k in u.kinds.items() if k not in ("honest", "part", "bare", "alt")]
    if bad and r.random() < 0.8:
        kinds = sorted({u.kinds[i] for i in bad if not u.kinds[i].endswith("genesis") or r.random() < 0.1} or {u.kinds[bad[0]]})
        kind = r.choice(kinds)
        b = r.choice([i for i in bad if u.kinds[i] == kind])
    else:
        b = r.randrange(len(u.blocks))
    o = u.blocks[b]["op"]
    need = [x for x in u.order(u.closure([o])) if x not in (o, "G") and x in u.honest]
    before = [u.honest["G"]] + [u.honest[x] for x in need]
    after = [u.honest[o]] if o in u.honest and r.random() < 0.3 else []
    steps = []
    how = r.choice(["new", "new", "known", "known", "mixed", "twice"])
    if how == "known" and o in u.honest:
        steps.append(ev(0, u.close(before + [u.honest[o]], False)))
    elif how == "mixed" and o in u.honest:
        # the operation is known, others which come before it are not
        new = [x for x in u.main_ops() if x in u.sound and x not in need and x != o and u.deps[x] <= {"G"} | set(need)]
        steps.append(ev(0, u.close(before + [u.honest[o]], False)))
        before = before + [u.honest[x] for x in new[:2]]
    elif how == "twice" and o in u.honest:
        before = before + [u.honest[o]]
    steps.append(ev(0, u.close(before + [b] + after, False)))
    if r.random() < 0.3:
        steps.append(ev(0, u.close(before + [u.honest.get(o, b)], False)))
    return 1, steps


def reanchor(u):
    """An operation with seals relative to its witness comes with several witnesses, one after another."""
    r = u.r
    u.nodes += 1
    o, c = f"O{u.nodes}", f"O{u.nodes}c"
    cells = [x for x in u.cells if x not in u.spent and u.usable(x) and x[0] in u.sound
             and u.op[x[0]]["dout"][x[1]]["lock"] != "bad"]
    din = r.sample(cells, min(len(cells), r.choice([0, 1, 1])))
    u.add_op(o, din, nd=0)
    defs = [u.new_def(relative=True), u.new_def(relative=r.random() < 0.5)]
    u.op[o]["dout"] = [{"def": d, "lock": "none", "data": []} for d in defs]
    u.outs[o] = defs
    u.cells += [(o, 0), (o, 1)]
    full = {0: defs[0], 1: defs[1]}
    needs = [(o, x) for x in din] or [(o, None)]
    wits = [u.new_wit(f"w{o}.{i}", needs) for i in range(2)]
    u.wit_of[o] = wits[0]
    bs = [u.add_block(o, full, w, "honest") for w in wits] + [u.add_block(o, {0: defs[0]}, wits[1], "part"),
                                                              u.add_block(o, {}, wits[1], "bare")]
    if not din:
        bs.append(u.add_block(o, full, None, "bare"))
    u.honest[o] = bs[0]
    spend = [(o, 0)] if r.random() < 0.6 else [(o, 0), (o, 1)]
    u.add_op(c, spend, nd=1)
    kids = [u.add_block(c, {}, u.new_wit(f"w{c}.{i}", [(c, x) for x in spend], anchor={o: w}), "bare") for i, w in enumerate(wits)]
    u.honest[c] = kids[0]
    u.wit_of[c] = None
    before = [u.honest[x] for x in u.order(u.closure([o]) - {o})]
    # every delivery needs its inputs to be live again
    again = [u.honest[x] for x in u.order({x for x, _ in din})][0 if din and ("G", din[0][1]) in din else 1:] if din else []
    steps = []
    for _ in range(r.choice([1, 2, 3])):
        items = list(before)
        for n in range(r.choice([1, 2, 2, 3])):
            if n:
                items += again
            items.append(r.choice(bs))
        items.append(r.choice(kids))
        if r.random() < 0.3:
            items.append(r.choice(kids))
        steps.append(ev(0, u.close(items, False)))
    return 1, steps


def shared(u):
    """Many cells behind few seals."""
    r = u.r
    u.nodes += 1
    d, e = u.new_def(relative=False), u.new_def(relative=True)
    names = [f"O{u.nodes}s{i}" for i in range(3)]
    w0 = f"w{names[0]}"
    for n in names[:2]:
        u.add_op(n, nd=0)
        outs = r.choice([[d, d], [d, e], [e, e, d], [d]])
        u.op[n]["dout"] = [{"def": x, "lock": "none", "data": [len(n)]} for x in outs]
        u.outs[n] = outs
        u.cells += [(n, i) for i in range(len(outs))]
    u.new_wit(w0, [(n, None) for n in names[:2]])
    for n in names[:2]:
        u.wit_of[n] = w0
        u.honest[n] = u.add_block(n, dict(enumerate(u.outs[n])), w0, "honest")
    cells = [(n, i) for n in names[:2] for i in range(len(u.outs[n]))]
    r.shuffle(cells)
    cut = r.randrange(1, len(cells) + 1)
    steps = []
    last = names[2]
    kids = []
    for i, part in enumerate([cells[:cut], cells[cut:]]):
        if not part:
            continue
        n = f"{last}.{i}"
        u.add_op(n, part, nd=1)
        u.wit_of[n] = u.new_wit(f"w{n}", [(n, c) for c in part])
        u.honest[n] = u.add_block(n, {0: u.outs[n][0]} if not u.outs[n][0].startswith("?") else {}, u.wit_of[n], "honest")
        kids.append(u.honest[n])
    base = [u.honest["G"], u.honest[names[0]], u.honest[names[1]]]
    for _ in range(2):
        x = list(kids)
        r.shuffle(x)
        steps.append(ev(0, u.close(base + x, False)))
        if r.random() < 0.3:
            steps.append(ev(0, u.close(u.mutate(base + x), None)))
    return 1, steps


def rivals(u):
    """Operations competing for the same cells, behind all kinds of related witnesses, for several clients."""
    r = u.r
    cells = [x for x in u.cells if u.usable(x) and x[0] in u.sound and u.op[x[0]]["dout"][x[1]]["lock"] != "bad"]
    if not cells:
        return single(u)
    din = r.sample(cells, min(len(cells), r.choice([1, 1, 1, 2])))
    names, kids, bs = [], {}, {}
    for i in range(r.choice([2, 2, 3])):
        u.nodes += 1
        n = f"O{u.nodes}v{i}"
        u.add_op(n, din if i == 0 or r.random() < 0.6 else din[:1], nd=0)
        outs = [u.new_def() for _ in range(r.choice([1, 2]))]
        u.op[n]["dout"] = [{"def": x, "lock": "none", "data": []} for x in outs]
        u.outs[n] = outs
        u.cells += [(n, j) for j in range(len(outs))]
        names.append(n)
    a = names[0]
    # An operation of the same bundle, which competes with nothing
    rest = [x for x in cells if x not in din]
    u.nodes += 1
    aside = f"O{u.nodes}h"
    u.add_op(aside, r.sample(rest, min(len(rest), r.choice([0, 1]))), nd=0)
    wa = u.new_wit(f"w{a}", [(a, x) for x in din] + [(aside, (i["op"], i["pos"])) for i in u.op[aside]["din"]])
    u.wit_of[aside] = wa
    u.honest[aside] = u.add_block(aside, {}, wa, "honest")
    one = next(w for w in u.wits if w["name"] == wa)
    w_of = {a: [wa]}
    for n in names[1:]:
        mine = [(n, (i["op"], i["pos"])) for i in u.op[n]["din"]]
        over = lambda m: [[i, n if o == a else o] for i, o in m]
        how = r.choice(["own tx", "two protocols", "three protocols", "same inputs", "mentioned", "twice spent", "same witness", "divided", "divided"])
        if how == "own tx":
            w_of[n] = [u.new_wit(f"w{n}", mine)]
        elif how in ("two protocols", "three protocols") and "also" not in one and "prot" not in one:
            two = dict(one, name=f"w{n}", prot="alt", map=over(one["map"]), also=[["own", one["map"]]])
            one["also"] = [["alt", two["map"]]]
            if how == "three protocols":
                more = [["third", [[0, names[-1]]]]]
                one["also"], two["also"] = one["also"] + more, two["also"] + more
            u.wits.append(two)
            w_of[n] = [two["name"]]
        elif how == "divided" and rest:
            # The witness closes the common cells over the one, and what the other consumes besides over the other
            x = r.choice(rest)
            u.op[n]["din"].insert(r.randrange(len(u.op[n]["din"]) + 1), dict(op=x[0], pos=x[1], wit=[]))
            w = u.new_wit(f"w{n}", [(a, c) for c in din] + [(n, x)])
            w_of[a].insert(0, w)
            w_of[n] = [w]
        elif how == "mentioned":
            one["map"] = one["map"] + [[len(one["ins"]) + 3, n]]
            w_of[n] = [wa]
        elif how == "twice spent" and one["map"]:
            i = one["map"][0][0]
            if i < len(one["ins"]):
                one["ins"] = one["ins"] + [one["ins"][i]]
                one["map"] = [x for x in one["map"] if x[0] != len(one["ins"]) - 1] + [[len(one["ins"]) - 1, n]]
            w_of[n] = [wa]
        elif how == "same inputs":
            two = dict(one, name=f"w{n}", map=over(one["map"]))
            two.pop("also", None)
            two.pop("prot", None)
            u.wits.append(two)
            w_of[n] = [two["name"]]
        else:
            w_of[n] = [wa]
        if r.random() < 0.3:
            w_of[n].append(u.new_wit(f"w{n}.2", mine))
    if r.random() < 0.3:
        w_of[a].append(u.new_wit(f"w{a}.2", [(a, x) for x in din]))
    for w in u.wits:
        w["map"] = [list(x) for x in sorted({i: o for i, o in w["map"]}.items())]
    for n in names:
        full = dict(enumerate(u.outs[n]))
        u.wit_of[n] = w_of[n][0]
        bs[n] = [u.add_block(n, full, w, "honest") for w in w_of[n]]
        u.honest[n] = bs[n][0]
        c = f"{n}c"
        u.add_op(c, [(n, r.randrange(len(full)))], nd=r.choice([0, 1]))
        u.wit_of[c] = u.new_wit(f"w{c}", [(c, (n, u.op[c]["din"][0]["pos"]))])
        u.honest[c] = u.add_block(c, {}, u.wit_of[c], "honest")
        kids[n] = c
    before = [u.honest[x] for x in u.order(u.closure([a, aside]) - {a, aside})]
    np = r.choice([2, 2, 3])
    steps = []
    for _ in range(r.choice([3, 4, 5, 6])):
        p = r.randrange(np)
        n = r.choice(names)
        items = before + [r.choice(bs[n])]
        if r.random() < 0.4:
            items.insert(r.choice([len(before), len(before), len(items)]), u.honest[aside])
        if r.random() < 0.5:
            items.append(u.honest[kids[n]])
        if r.random() < 0.25:
            m = r.choice(names)
            items += r.choice([[], before[1:], [before[0]]]) + [r.choice(bs[m])]
        if r.random() < 0.1:
            items = u.mutate(items)
        steps.append(ev(p, u.close(items, False)))
        if r.random() < 0.25:
            for x in (kids[n], n) if r.random() < 0.7 else (n,):
                steps.append(roll(p, x))
    return np, steps


def isolation(u):
    """Things revealed or verified in one evaluation must not help in the next."""
    r = u.r
    items = u.stream()
    steps = [ev(0, u.close(items, False))]
    for _ in range(2):
        o = r.choice(u.main_ops())
        bare = [i for i in u.variants["G"] if u.kinds[i] in ("bare", "part")] or [u.honest["G"]]
        rest = [b for b in items[1:] if r.random() < 0.5]
        steps.append(ev(0, u.close([r.choice(bare)] + rest + [u.honest[o]], False)))
        if r.random() < 0.4:
            steps.append(ev(0, u.close([u.honest[o]] + rest, False)))
    return 1, steps


# What reaches a property best is tried more often.
FOCUS = dict(C04=[reanchor] * 4, C05=[single] * 4, C06=[single] * 2 + [probe] * 4, C07=[parties] * 2 + [probe] * 4, C10=[shared] * 2 + [reanchor] * 2,
             C16=[isolation] * 4 + [parties] * 3, C18=[shared] * 2, C20=[rivals] * 14, C21=[parties] * 5 + [rivals] * 5)


def scenarios(seed, unis=4, per=20, wide_every=4, proto="btc", prefix="r", focus=None):
    kinds = [single, single, parties, isolation, probe, probe, probe, reanchor, shared, rivals] + FOCUS.get(focus, [])
    rng = random.Random(f"scenarios/{seed}")
    us, runs = [], []
    for n in range(unis):
        wide = 0
        ops = rng.choice([3, 5, 8, 12])
        if wide_every and n % wide_every == wide_every - 1:
            wide = rng.choice([17, 33])
            ops = rng.choice([3, 4])
        u = Uni(rng, f"{prefix}{seed}.{n}", ops=ops, wide=wide, tame=rng.random() < 0.25)
        for k in range(per if not wide else max(2, per // 4)):
            np, steps = rng.choice(kinds)(u)
            runs.append(dict(id=f"{prefix}{seed}.{n}.{k}", uni=n, np=np, tp="direct", steps=steps))
        us.append(u.spec())
    rng.shuffle(runs)                                     # contracts take turns
    return dict(unis=us, runs=runs)


def chain(seed, length, name, few=False):
    """A long chain of transfers, each spending the change of the previous one."""
    rng = random.Random(f"chain/{seed}")
    u = Uni(rng, name, ops=0, tame=True, plain=True)
    prev, kept = None, []
    for i in range(length):
        o = f"O{i + 1}"
        din = [(prev, 0)] if prev else [next(c for c in u.cells if c[0] == "G" and u.usable(c))]
        if i == length - 1:
            din += kept                             # seals which were revealed long ago
        u.add_op(o, din, nd=0)
        # (the first one leaves cells for the last one: one with a relative seal, one with an absolute one)
        outs = [u.new_def(relative=rel) for rel in ((rng.random() < 0.8,) + ((True, False) if i == 0 else ()))]
        u.op[o]["dout"] = [{"def": d, "lock": "none", "data": [i]} for d in outs]
        u.outs[o] = outs
        u.cells += [(o, n) for n in range(len(outs))]
        kept = kept or [(o, 1), (o, 2)]
        w = u.new_wit(f"w{i + 1}", [(o, c) for c in din])
        u.wit_of[o] = w
        u.honest[o] = u.add_block(o, dict(enumerate(outs)), w, "honest")
        prev = o
    items = [u.honest["G"]] + [u.honest[f"O{i + 1}"] for i in range(length)]
    skip = items[:length // 2] + items[length // 2 + 1:]
    runs = [
        dict(id=name + ".all", uni=0, np=1, tp="direct", steps=[ev(0, items + [END]), ev(0, items + [END])]),
        dict(id=name + ".half", uni=0, np=1, tp="direct",
             steps=[ev(0, items[:length // 2] + [END]), ev(0, items + [END]), ev(0, skip + [END])]),
    ]
    if few:
        runs = [dict(runs[0], steps=runs[0]["steps"][:1])]
    return dict(unis=[u.spec()], runs=runs)


def large(seed, n, name, few=False):
    """Operations with very many inputs and outputs, with everything in its place or one thing not."""
    rng = random.Random(f"large/{seed}")
    u = Uni(rng, name, ops=0, tame=True, plain=True)
    outs = [u.new_def(relative=i % 3 == 0) for i in range(n)]
    u.add_op("O1", [next(c for c in u.cells if c[0] == "G" and u.usable(c))], nd=0)
    u.op["O1"]["dout"] = [{"def": d, "lock": "none", "data": []} for d in outs]
    u.outs["O1"] = outs
    u.cells += [("O1", i) for i in range(n)]
    u.wit_of["O1"] = u.new_wit("w1", [("O1", (i["op"], i["pos"])) for i in u.op["O1"]["din"]])
    full = dict(enumerate(outs))
    b1 = u.add_block("O1", full, "w1", "honest")
    u.honest["O1"] = b1
    bads = []
    for a, b in ((0, 256), (n - 1, n - 2), (0, n - 1), (255, 256)):
        if a < n and b < n:
            m = dict(full)
            m[a], m[b] = m[b], m[a]
            bads.append(u.add_block("O1", m, "w1", "swap"))
            bads.append(u.add_block("O1", {a: full[b]}, "w1", "one"))
    for p in (n, 65535, n + 256):
        bads.append(u.add_block("O1", {**full, p: outs[p % n]}, "w1", "far"))
    part = u.add_block("O1", {p: d for p, d in full.items() if p >= n - 3}, "w1", "part")
    cells = [("O1", i) for i in range(n)]
    rng.shuffle(cells)
    u.add_op("O2", cells, nd=2)
    good = u.new_wit("w2", [("O2", c) for c in cells])
    b2 = u.add_block("O2", {}, good, "honest")
    omit = u.add_block("O2", {}, u.new_wit("w3", [("O2", c) for c in cells], twist="omit"), "omit")
    less = u.add_block("O2", {}, u.new_wit("w4", [("O2", c) for c in cells], twist="spendless"), "spendless")
    apart = []
    for i, at in enumerate(sorted({k for k in (0, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, n - 2, n - 1) if k < n})):
        wn = u.new_wit(f"w2.{at}", [("O2", c) for c in cells])
        wt = u.wits[-1]
        j = wt["ins"].index(list(u.outpoint(cells[at])))
        if i % 2:
            wt["map"] = [x for x in wt["map"] if x[0] != j]
        else:
            wt["map"] = [[x, "O1" if x == j else o] for x, o in wt["map"]]
        apart.append(u.add_block("O2", {}, wn, "omit"))
    dup = cells + [cells[len(cells) // 2]]
    u.add_op("O3", dup, nd=0)
    b3 = u.add_block("O3", {}, u.new_wit("w5", [("O3", c) for c in cells]), "dup")
    g = u.honest["G"]
    streams = [[g, b1, b2], [g, b1, omit], [g, b1, less], [g, b1, b3], [g, part, b2], [g, b1, b2, b2]]
    streams += [[g, b1, x] for x in apart] + [[g, b1, b2, b1, rng.choice(apart)]]
    streams += [[g, x] for x in bads] + [[g, b1, b2, x] for x in bads[:2]]
    runs = [dict(id=f"{name}.{i}", uni=0, np=1, tp="direct", steps=[ev(0, s + [END])] * (2 if i == 0 else 1))
            for i, s in enumerate(streams)]
    if few:
        runs = [runs[0]] + [runs[i] for i in sorted({6 + len(apart) - 1, *rng.sample(range(6, len(runs)), 3)})]
    return dict(unis=[u.spec()], runs=runs)


def giant(seed, n, name):
    """Cells far out in an operation with about as many outputs as there can be."""
    rng = random.Random(f"giant/{seed}")
    u = Uni(rng, name, ops=0, tame=True, plain=True)
    at = sorted({p for p in (0, 1, 255, 256, 257, 32767, 32768, 65279, n - 2, n - 1) if 0 <= p < n})
    u.add_op("O1", [next(c for c in u.cells if c[0] == "G" and u.usable(c))], nd=0)
    outs = ["?x"] * n
    for p in at:
        outs[p] = u.new_def(relative=p % 2 == 1)
    u.op["O1"]["dout"] = [{"def": d, "lock": "none", "data": []} for d in outs]
    u.outs["O1"] = outs
    u.wit_of["O1"] = u.new_wit("w1", [("O1", (i["op"], i["pos"])) for i in u.op["O1"]["din"]])
    seals = {p: outs[p] for p in at}
    b1 = u.add_block("O1", seals, "w1", "honest")
    far, near = at[-1], at[1]
    bad = u.add_block("O1", {**seals, near: outs[far]}, "w1", "far")
    out = u.add_block("O1", {**seals, 65535: outs[0]}, "w1", "far")
    cells = [("O1", p) for p in at]
    rng.shuffle(cells)
    u.add_op("O2", cells, nd=1)
    b2 = u.add_block("O2", {}, u.new_wit("w2", [("O2", c) for c in cells]), "honest")
    u.add_op("O3", [("O1", far)], nd=1)
    b3 = u.add_block("O3", {}, u.new_wit("w3", [("O3", ("O1", far))]), "honest")
    b4 = u.add_block("O3", {}, u.new_wit("w4", [("O3", ("O1", near))]), "wrong")
    g = u.honest["G"]
    streams = [[g, b1, b2], [g, b1, b3], [g, b1, b4], [g, bad], [g, out]]
    runs = [dict(id=f"{name}.{i}", uni=0, np=1, tp="direct", steps=[ev(0, s + [END])]) for i, s in enumerate(streams)]
    return dict(unis=[u.spec()], runs=runs)


def flood(seed, n, name):
    """More live seals than any single operation can have."""
    rng = random.Random(f"flood/{seed}")
    u = Uni(rng, name, ops=0, tame=True, plain=True)
    at = {}
    for o in ("O1", "O2"):
        u.add_op(o, [], nd=0)
        d = u.new_def(relative=False)
        u.outs[o] = [d] * n
        for p in (0, 255, 256, n - 1):
            u.outs[o][p] = u.new_def(relative=False)
            at[o, p] = True
        u.op[o]["dout"] = [{"def": x, "lock": "none", "data": []} for x in u.outs[o]]
        u.wit_of[o] = None
    bs = [u.add_block(o, dict(enumerate(u.outs[o])), None, "honest") for o in ("O1", "O2")]
    cells = list(at)
    rng.shuffle(cells)
    u.add_op("O3", cells, nd=1)
    b3 = u.add_block("O3", {}, u.new_wit("w3", [("O3", c) for c in cells]), "honest")
    run = dict(id=f"{name}.0", uni=0, np=1, tp="direct", steps=[ev(0, [u.honest["G"], *bs, b3, END])])
    return dict(unis=[u.spec()], runs=[run])


def marathon(seed, n, name):
    """A stream of very many blocks, most of them repeated, and what was revealed first is consumed last."""
    rng = random.Random(f"marathon/{seed}")
    u = Uni(rng, name, ops=0, tame=True, plain=True)
    u.add_op("O1", [], nd=0)
    u.wit_of["O1"] = None
    bare = u.add_block("O1", {}, None, "bare")
    d = u.new_def(relative=True)
    u.add_op("O2", [], nd=0)
    u.op["O2"]["dout"] = [{"def": d, "lock": "none", "data": []}]
    u.outs["O2"] = [d]
    u.wit_of["O2"] = u.new_wit("w2", [("O2", None)])
    full = u.add_block("O2", {0: d}, "w2", "honest")
    cells = [next(c for c in u.cells if c[0] == "G" and u.usable(c)), ("O2", 0)]
    u.add_op("O3", cells, nd=1)
    last = u.add_block("O3", {}, u.new_wit("w3", [("O3", c) for c in cells]), "honest")
    items = [u.honest["G"], full] + [bare] * n
    for at in (255, 256, 257, 4095, 4096, 8191, 8192):
        if at < len(items):
            items[at] = full
    run = dict(id=f"{name}.0", uni=0, np=1, tp="direct", steps=[ev(0, items + [last, END])])
    return dict(unis=[u.spec()], runs=[run])


def merge(files):
    """One scenario file of several."""
    unis, runs = [], []
    for f in files:
        for run in f["runs"]:
            runs.append(dict(run, uni=run["uni"] + len(unis)))
        unis += f["unis"]
    return dict(unis=unis, runs=runs)
