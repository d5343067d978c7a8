#!/usr/bin/env python3
"""A test of the tests: recorded executions in which one thing is changed must be rejected by the specification.

mutants.py [SEED]: records random histories on the code, makes mutants of the recordings (of what the code did, or of
what it was given), has TLC validate each with all properties, and prints which properties reject which kinds."""
import collections, concurrent.futures as cf, copy, json, os, random, re, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, gen

PROPS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C16", "C17", "C18", "C20", "C21"]


def accepted(st, i):
    return i + 1 < len(st["items"]) or st["over"] or st["res"]["k"] == "ok"


class Place:
    """A judged block of a recorded run, or (i = None) the end of an evaluation, in a copy which can be changed."""
    def __init__(self, rec, run, s, i):
        self.rec, self.s, self.i = rec, s, i
        self.run = copy.deepcopy(run)
        self.st = self.run["steps"][s]
        if i is not None:
            self.it = self.st["items"][i]
            self.fx = self.it["fx"]
            self.acc = accepted(self.st, i)
            self.first = all(x["t"] != "b" for x in self.st["items"][:i])
            self.blk = rec["blocks"][self.it["b"] - 1]
            self.op = self.blk["op"]
            self.new = any(f[0] == "op" for f in self.fx)

    def block(self):
        """A copy of the block, in its place."""
        b = copy.deepcopy(self.blk)
        self.rec["blocks"].append(b)
        n = len(self.rec["blocks"])
        old = self.it["b"]
        for x in self.st["items"] + [y for y in [self.it]]:
            if x is self.it:
                x["b"] = n
        for x in ("given",):
            if self.i < len(self.st[x]) and self.st[x][self.i][1] == old:
                self.st[x][self.i][1] = n
        return b


def kind(f):
    return lambda p: next((x for x in p.fx if x[0] == f), None)


wit, app, sls = kind("wit"), kind("op"), kind("seals")
MUTANTS = {}


def mutant(name, by):
    def deco(f):
        MUTANTS[name] = (f, set(by.split()))
        return f
    return deco


# What the code did ---------------------------------------------------------------------------------

def drop(k):
    def f(p, r):
        x = k(p)
        if not x:
            return False
        p.fx.remove(x)
        return True
    return f


mutant("witness not reported", "C09 C18")(drop(wit))
mutant("operation not applied", "C06 C09 C18")(drop(app))
mutant("seals not reported", "C09 C18")(drop(sls))


@mutant("something reported twice", "C09 C18")
def _(p, r):
    if not p.fx:
        return False
    p.fx.append(list(r.choice(p.fx)))
    return True


@mutant("something reported changed", "C09 C18")
def _(p, r):
    if not p.fx:
        return False
    r.choice(p.fx)[2] = "changed"
    return True


@mutant("something reported under another id", "C09 C18")
def _(p, r):
    if not p.fx:
        return False
    r.choice(p.fx)[1] = "o.changed"
    return True


@mutant("operation applied before its witness is", "C09 C18")
def _(p, r):
    if not (wit(p) and app(p)):
        return False
    p.fx.sort(key=lambda f: f[0])
    return True


@mutant("reported while the next item is read", "C08 C09 C18")
def _(p, r):
    if not p.fx or p.i + 1 >= len(p.st["items"]) or p.st["items"][p.i + 1]["t"] == "b":
        return False
    p.st["items"][p.i + 1]["fx"].append(p.fx.pop())
    return True


@mutant("a rejected block leaves a trace", "C08 C09 C18")
def _(p, r):
    if p.acc or not p.blk["haswit"]:
        return False
    p.fx.append(["wit", p.op["gid"] if p.first else p.op["id"], p.blk["wdig"]])
    return True


@mutant("a rejected block is accepted", "C18")
def _(p, r):
    if p.acc:
        return False
    p.st["res"] = dict(k="ok", said=True)
    p.st["items"].append(dict(t="end", b=0, fx=[]))
    if p.st["given"][len(p.st["items"]) - 1:]:
        p.st["given"][len(p.st["items"]) - 1] = ["end", 0]
    return True


@mutant("an accepted block is rejected", "C10 C12 C18")
def _(p, r):
    if not p.acc:
        return False
    del p.st["items"][p.i + 1:]
    p.fx.clear()
    p.st["over"] = 0
    p.st["res"] = dict(k="SealUnknown", addr=["o.none", 0], said=True)
    return True


@mutant("an error blames another cell, operation or witness", "C12")
def _(p, r):
    res = p.st["res"]
    if p.acc or not any(k in res for k in ("op", "addr", "w")):
        return False
    k = r.choice([k for k in ("op", "addr", "w") if k in res])
    res[k] = ["o.changed", 0] if k == "addr" else "changed"
    return True


@mutant("an error says nothing", "C12")
def _(p, r):
    if p.acc:
        return False
    p.st["res"]["said"] = False
    return True


@mutant("reading on after the error", "C08 C18")
def _(p, r):
    if p.acc:
        return False
    p.st["over"] = 1
    return True


@mutant("a panic", "C17 C18")
def _(p, r):
    if p.acc:
        return False
    p.st["res"] = dict(k="panic", said=False)
    return True


@mutant("a cell of the state is lost", "C16 C18")
def _(p, r):
    if not p.st["led"]["dmem"]:
        return False
    p.st["led"]["dmem"].pop(r.randrange(len(p.st["led"]["dmem"])))
    return True


@mutant("the state has a cell too many", "C16 C18")
def _(p, r):
    p.st["led"]["dmem"].append([["o.changed", 0], "none", "-"])
    return True


@mutant("the state knows an operation too many", "C16 C18")
def _(p, r):
    p.st["led"]["known"].append("o.changed")
    return True


@mutant("a failing source taken for the end", "C11 C18")
def _(p, r):
    if p.st["res"]["k"] != "Stream":
        return False
    p.st["res"] = dict(k="ok", said=True)
    return True


# What it was given ---------------------------------------------------------------------------------

@mutant("accepted without a witness", "C01 C09 C18")
def _(p, r):
    if not p.acc or not p.blk["haswit"] or not p.op["din"]:
        return False
    p.block()["haswit"] = False
    return True


@mutant("accepted with a witness which commits to nothing", "C01 C18")
def _(p, r):
    if not p.acc or not p.blk["haswit"] or not p.op["din"]:
        return False
    p.block()["wit"]["good"] = False
    return True


@mutant("accepted with a witness over something else", "C01 C18")
def _(p, r):
    if not p.acc or not p.blk["haswit"] or not p.op["din"]:
        return False
    b = p.block()
    b["wit"]["map"] = [[i, "o.changed"] for i, _ in b["wit"]["map"]]
    return True


@mutant("accepted with a witness which closes nothing", "C01 C18")
def _(p, r):
    if not p.acc or not p.blk["haswit"] or not p.op["din"]:
        return False
    b = p.block()
    b["wit"]["ins"] = [["t.changed", v] for _, v in b["wit"]["ins"]]
    return True


@mutant("accepted with the same input twice", "C02 C18")
def _(p, r):
    if not p.acc or not p.op["din"]:
        return False
    b = p.block()
    b["op"]["din"].append(list(b["op"]["din"][0]))
    return True


@mutant("accepted with a cell nobody defined", "C01 C18")
def _(p, r):
    if not p.acc or not p.op["din"]:
        return False
    r.choice(p.block()["op"]["din"])[0] = "o.changed"
    return True


@mutant("accepted with a definition at another position", "C03 C18")
def _(p, r):
    if not p.acc or not p.blk["seals"]:
        return False
    p.block()["seals"][-1]["pos"] = len(p.op["dout"])
    return True


@mutant("accepted with another definition", "C03 C18")
def _(p, r):
    if not p.acc or not p.blk["seals"]:
        return False
    r.choice(p.block()["seals"])["d"]["tok"] = "a.changed"
    return True


@mutant("accepted as the first block without the codex' id", "C05 C18")
def _(p, r):
    if not p.acc or not p.first:
        return False
    p.block()["op"]["cid"] = r.choice(["own", "other"])
    return True


@mutant("accepted under another contract", "C05 C06 C18")
def _(p, r):
    if not p.acc or p.first or not p.new:
        return False
    p.block()["op"]["cid"] = "other"
    return True


@mutant("accepted though its script fails", "C06 C18")
def _(p, r):
    if not p.acc or p.first or not p.new:
        return False
    p.block()["op"]["call"] = r.choice(["fail", "none"])
    return True


@mutant("accepted though it reads what does not exist", "C06 C18")
def _(p, r):
    if not p.acc or p.first or not p.new:
        return False
    p.block()["op"]["iin"].append(["o.changed", 0])
    return True


def main():
    seed = int(sys.argv[1]) if len(sys.argv) > 1 else 1
    check.build()
    work = os.path.join(check.VERIF, "work", "mutants")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    rng = random.Random(seed)
    file = gen.scenarios(seed, unis=12, per=20, prefix="m.")
    rec = check.conform(file, "btc", work, "m")
    places = [(run, s, i) for run in rec["runs"] for s, st in enumerate(run["steps"]) if st["k"] == "eval"
              for i, it in enumerate(st["items"]) if it["t"] == "b"]
    # A rejection and a failure of the source are always the last thing of an evaluation
    runs, what = [], {}
    for name, (f, by) in MUTANTS.items():
        rng.shuffle(places)
        n = 0
        for run, s, i in places:
            p = Place(rec, run, s, i)
            if f(p, rng):
                p.run["steps"] = p.run["steps"][:s + 1]
                p.run["id"] = f"{name}/{n}"
                runs.append(p.run)
                n += 1
                if n == 12:
                    break
        what[name] = n
    rec["runs"] = runs
    rec["np"] = max(r["np"] for r in runs)
    rec["known"] = ["C05-foreign-genesis", "C20-two-protocols"]
    path = os.path.join(work, "trace.json")
    json.dump(rec, open(path, "w"))

    def validate(prop):
        d = os.path.join(work, prop)
        os.makedirs(d)
        cfg = os.path.join(d, "Trace.cfg")
        open(cfg, "w").write("SPECIFICATION TSpec\nCONSTANTS\n  Blocks <- TBlocks\n  Parties <- TParties\n"
                             f"INVARIANTS Inv{prop[1:]}\nVIEW Where\nALIAS Place\nCHECK_DEADLOCK TRUE\n")
        out, stats, _ = check.tlc("Trace.tla", cfg, d, dict(TRACE=path), cont=True)
        if not stats[1]:
            raise check.Broken(out[-3000:])
        return {rid for rid in re.findall(r'<<"BAD", "\w+", "([^"]*)", \d+, \d+>>', out)}

    got = collections.defaultdict(set)
    with cf.ThreadPoolExecutor(4) as ex:
        for prop, rids in zip(PROPS, ex.map(validate, PROPS)):
            for rid in rids:
                got[rid].add(prop)
    bad = 0
    for name, (_, by) in MUTANTS.items():
        c = collections.Counter(p for i in range(what[name]) for p in got[f"{name}/{i}"])
        missed = [f"{name}/{i}" for i in range(what[name]) if not by <= got[f"{name}/{i}"]]
        bad += len(missed) + (what[name] == 0)
        print(f"{name} ({what[name]}): " + ", ".join(f"{p} {n}" for p, n in sorted(c.items()))
              + (f"  MISSED by {sorted(by)}: " + "; ".join(f"{m} {sorted(got[m])}" for m in missed[:4]) if missed else ""))
    print(f"{len(runs)} mutants of {len(MUTANTS)} kinds, {bad} not rejected as expected")
    if not os.environ.get("KEEP"):
        shutil.rmtree(work)
    sys.exit(bad != 0)


main()
