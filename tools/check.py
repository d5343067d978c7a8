#!/usr/bin/env python3
"""Decide one property of rgb-core: check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]

 1. builds the harness against /repo's working tree;
 2. model checks the specification (TLC, exhaustive within the bounds of the configuration),
    which yields one scenario for every transition of the state graph;
 3. makes large random adversarial scenarios;
 4. runs all of them on the real code (conform), and
 5. validates every recorded execution against the specification (TLC), with the property
    as an invariant of everything observed.

Exit 0: held. Exit 1 and a VIOLATION line: broken. Exit 2: the machinery failed.
"""

import argparse
import collections
import concurrent.futures as cf
import itertools
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import time
import zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import catalogue  # noqa: E402
import gen  # noqa: E402

SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
CONFORM = os.path.join(HARNESS, "target/release/conform")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8
EVALS = [f"C{i:02}" for i in range(1, 13)] + ["C15", "C16", "C17", "C18", "C20", "C21"]


class Broken(Exception):
    """The machinery failed: says nothing about the property."""


def log(*a):
    print(*a, flush=True)


def profile(*a):
    if os.environ.get("VERIF_PROFILE"):
        log("PROFILE", *a)


# Building ----------------------------------------------------------------------------------------

def build():
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable",
               HOME=env.get("HOME", "/root"), PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + env.get("PATH", ""))
    p = subprocess.run(["cargo", "build", "--release", "--offline", "--locked"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        log(p.stdout[-4000:])
        raise Broken("the harness does not build")


# TLC ---------------------------------------------------------------------------------------------

def tlc(module, cfg, work, env=None, workers=1, timeout=800, heap="2500m", cont=False):
    meta = os.path.join(work, "meta")
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(os.path.join(meta, "tmp"))
    cmd = ["java", f"-Xmx{heap}", "-Djava.io.tmpdir=" + os.path.join(meta, "tmp"), "-Xss64m", *(["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1"] if workers == 1 else ["-XX:+UseParallelGC"]),
           "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta,
           "-config", cfg, *(["-continue"] if cont else []), module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out = p.stdout
    except subprocess.TimeoutExpired:
        raise Broken(f"TLC does not finish on {module} {cfg}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    with open(os.path.join(work, os.path.basename(module) + ".out"), "w") as f:
        f.write(out)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    stats = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return out, stats, "No error has been found" in out


def tlc_errors(out):
    return "\n".join(l for l in out.splitlines() if not l.startswith(('"SCN', "<<\"KNOWN", "Parsing", "Semantic", "Linting")))[-3000:]


# The harness -------------------------------------------------------------------------------------

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_STACK, (1 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))    # as on wasm32, whatever the length of the stream


def conform(file, proto, work, tag, flags=()):
    """Recorded executions of the runs of a scenario file. Runs which kill the process or hang are recorded as such."""
    runs = list(file["runs"])
    lost = []
    src, out = os.path.join(work, tag + ".scn.json"), os.path.join(work, tag + ".rec.json")
    while True:
        with open(src, "w") as f:
            json.dump(dict(unis=file["unis"], runs=runs), f)
        for x in (out, out + ".progress"):
            if os.path.exists(x):
                os.remove(x)
        try:
            p = subprocess.run([CONFORM, "run", proto, src, out, *flags], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=700, preexec_fn=limits)
        except subprocess.TimeoutExpired:
            raise Broken(f"the harness does not finish on {tag}")
        if p.returncode == 0 and os.path.exists(out):
            break
        at = None
        if os.path.exists(out + ".progress"):
            at = open(out + ".progress").read()
        run = next((r for r in runs if r["id"] == at), None)
        if run is None or p.returncode in (2, 101):
            log(p.stdout[-2000:])
            raise Broken(f"the harness fails on {tag}: {p.returncode}")
        log(f"{tag}: run {at} {'does not terminate' if p.returncode == 42 else f'dies ({p.returncode})'}")
        lost.append((run, "hang" if p.returncode == 42 else "abort"))
        runs.remove(run)
        if len(lost) >= 3:
            runs = [r for r in runs if r["uni"] != run["uni"]][:1]    # enough is known
    with open(out) as f:
        rec = json.load(f)
    os.remove(out)
    for run, what in lost:
        g = rec["gens"][run["uni"]]
        led = dict(known=[g["gid"]],
                   dmem=[[[g["gid"], i], c["lock"], "-"] for i, c in enumerate(g["dout"])],
                   imm=[[[g["gid"], i], "-"] for i in range(g["nimm"])])
        rec["runs"].append(dict(id=run["id"], gen=run["uni"] + 1, np=run.get("np", 1), steps=[
            dict(k="eval", p=1, tp=run.get("tp", "direct"), given=[], pre=[], items=[], over=0, led=led, res=dict(k=what, said=False))]))
    return rec


def table(file, proto, work, tag):
    return conform(dict(unis=file["unis"], runs=[]), proto, work, tag)


# Scenarios from the model ------------------------------------------------------------------------

def explore(cfg, cat, work, workers, timeout=1800):
    """Exhaustive model checking over a catalogue; returns the scenarios it emits."""
    work = os.path.join(work, f"{cfg}-{cat['name']}")
    os.makedirs(work, exist_ok=True)
    t = table(dict(unis=[cat]), "btc", work, "table")
    path = os.path.join(work, "table.json")
    with open(path, "w") as f:
        json.dump(t, f)
    t0 = time.time()
    out, stats, ok = tlc("MCWorld.tla" if cfg.startswith("MC-world") else "MC.tla", cfg + ".cfg", work, dict(MC_TABLE=path), workers, timeout, "6g")
    profile(cfg, cat["name"], f"explored in {time.time() - t0:.1f} s")
    if not ok:
        log(tlc_errors(out))
        raise Broken(f"the specification itself violates a property ({cfg})")
    label = [int(b["n"].rsplit("/", 1)[1]) for b in t["blocks"]]
    scns = set()
    for line in out.splitlines():
        if line.startswith('"SCN '):
            h = json.loads(json.loads(line)[4:])
            for st in h:
                if st["k"] == "eval":
                    st["items"] = [label[i] if i >= 0 else i for i in st["items"]]
                else:
                    st["op"] = st["op"][2:]
            scns.add(json.dumps(h))
    return sorted(scns), stats


def finish(steps, rng, nblocks):
    """Let there be something after the end of what the model read, which must not be read."""
    res = []
    for st in steps:
        if st["k"] == "eval":
            items = list(st["items"])
            if not items or items[-1] >= 0:
                # The last block was rejected, or was accepted and the model stopped
                items += [gen.END] if rng.random() < 0.5 else [rng.randrange(nblocks), gen.END]
            else:
                items += [rng.randrange(nblocks), gen.END]
            st = dict(st, items=items)
        res.append(st)
    return res


def model_files(scns, cat, rng, limit, shards, prefix):
    if limit < len(scns):
        scns = rng.sample(scns, limit)
    runs = []
    for i, s in enumerate(scns):
        steps = finish(json.loads(s), rng, len(cat["blocks"]))
        np = 1 + max([st["p"] for st in steps], default=0)
        runs.append(dict(id=f"{prefix}{i}", uni=0, np=np, tp="direct", steps=steps))
    return [dict(unis=[cat], runs=runs[i::shards]) for i in range(shards) if runs[i::shards]]


# Units of work -----------------------------------------------------------------------------------

TRANSPORTS = ["clone", "strict", "json", "value"]


NOTHING = dict(pre=[], items=[], over=0, res=dict(k="nothing", said=False))


def with_transports(rec, file, proto, work, tag):
    """Every run again with its blocks copied or serialised; the first recording is their twin."""
    runs = []
    twins = {r["id"]: r for r in rec["runs"]}
    for tp in TRANSPORTS:
        for r in file["runs"]:
            runs.append(dict(r, id=f"{r['id']}@{tp}", tp=tp))
    again = conform(dict(unis=file["unis"], runs=runs), proto, work, tag + ".tp", ["--trips"])
    for r in again["runs"]:
        for st, tw in itertools.zip_longest(r["steps"], twins[r["id"].rsplit("@", 1)[0]]["steps"]):
            if st and st["k"] == "eval":
                # (a run which died has no steps like its twin)
                st["twin"] = {k: (tw if tw and tw["k"] == "eval" else NOTHING)[k] for k in NOTHING}
    return again


def with_apart(rec, file, proto, work, tag):
    """Every evaluation again, alone in a fresh process."""
    again = conform(file, proto, work, tag + ".apart", ["--apart"])
    other = {r["id"]: r for r in again["runs"]}
    for r in rec["runs"]:
        o = other.get(r["id"])
        for i, st in enumerate(r["steps"]):
            if st["k"] == "eval" and o and i < len(o["steps"]) and o["steps"][i]["k"] == "eval":
                st["apart"] = {k: o["steps"][i][k] for k in NOTHING}
    return rec


def unit(prop, name, file, proto, work, known, invs=None):
    """Run the scenarios of one file and validate what was recorded (with several invariants: report every violation)."""
    t0 = time.time()
    rec = conform(file, proto, work, name)
    if prop == "C15":
        rec = with_transports(rec, file, proto, work, name)
    elif prop == "C16":
        rec = with_apart(rec, file, proto, work, name)
    rec["np"] = max((r["np"] for r in rec["runs"]), default=1)
    rec["known"] = known
    d = os.path.join(work, name)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "trace.json")
    with open(path, "w") as f:
        json.dump(rec, f)
    cfg = os.path.join(d, "Trace.cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION TSpec\nCONSTANTS\n  Blocks <- TBlocks\n  Parties <- TParties\n"
                f"INVARIANTS {' '.join('Inv' + p[1:] for p in invs or [prop])}\nVIEW Where\nALIAS Place\nCHECK_DEADLOCK TRUE\n")
    t1 = time.time()
    out, stats, ok = tlc("Trace.tla", cfg, d, dict(TRACE=path), cont=invs is not None)
    profile(name, f"run in {t1 - t0:.1f} s, validated in {time.time() - t1:.1f} s")
    bad = re.findall(r'<<"BAD", "(\w+)", "([^"]*)", (\d+), (\d+)>>', out)
    seen = re.findall(r'<<"KNOWN", "(\w+)", "([^"]*)", (\d+), (\d+)>>', out)
    if not ok and not bad:
        log(tlc_errors(out))
        raise Broken(f"TLC cannot validate {name}")
    res = dict(name=name, proto=proto, stats=stats, bad=bad, known=seen, **measure(rec))
    if bad:
        res["replay"] = replay_file(prop, name, file, proto, rec, bad[0])
    shutil.rmtree(d)
    for x in os.listdir(work):
        if x.startswith(name + "."):
            os.remove(os.path.join(work, x))
    return res


def replay_file(prop, name, file, proto, rec, bad):
    _, rid, s, k = bad
    base = rid.rsplit("@", 1)[0]
    run = next((r for r in file["runs"] if r["id"] in (rid, base)), None)
    got = next((r for r in rec["runs"] if r["id"] == rid), None)
    d = os.path.join(VERIF, "work", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{name}.json")
    step = got["steps"][int(s) - 1] if got and 0 < int(s) <= len(got["steps"]) else None
    blk = None
    if step and step["k"] == "eval" and 0 < int(k) <= len(step["items"]) and step["items"][int(k) - 1]["b"]:
        blk = rec["blocks"][step["items"][int(k) - 1]["b"] - 1]
    uni = file["unis"][run["uni"]] if run else None
    with open(path, "w") as f:
        json.dump(dict(property=prop, protocol=proto, run=rid, step=int(s), item=int(k), block=blk, recorded=step,
                       scenario=dict(unis=[uni], runs=[dict(run, uni=0)]) if run else None), f, indent=1)
    return path


def measure(rec):
    c = collections.Counter()
    for r in rec["runs"]:
        for st in r["steps"]:
            if st["k"] != "eval":
                c["rollbacks"] += 1
                continue
            c["evaluations"] += 1
            c["result " + st["res"]["k"]] += 1
            n = len(st["items"])
            for i, it in enumerate(st["items"]):
                if it["t"] != "b":
                    continue
                acc = i + 1 < n or st["over"] or st["res"]["k"] == "ok"
                c["blocks accepted" if acc else "blocks rejected"] += 1
                b = rec["blocks"][it["b"] - 1]
                if acc and b["op"]["din"]:
                    c["accepted blocks consuming cells"] += 1
                    if not any(f[0] == "op" for f in it["fx"]):
                        c["accepted known operations consuming cells"] += 1
                c["operations applied"] += sum(f[0] == "op" for f in it["fx"])
    sample = None
    for r in rec["runs"]:
        if any(st["k"] == "eval" and len(st["items"]) > 3 for st in r["steps"]):
            sample = dict(run=r["id"], steps=[
                [st["k"], st["p"], [[i["t"], rec["blocks"][i["b"] - 1]["n"] if i["b"] else None, [f[:2] for f in i["fx"]]] for i in st["items"]],
                 st["res"]["k"]] if st["k"] == "eval" else [st["k"], st["p"], st["op"]] for st in r["steps"]][:4])
            break
    return dict(counts=c, runs=len(rec["runs"]), sample=sample)


# The plan ----------------------------------------------------------------------------------------

def model_jobs(prop, thorough):
    """Model checking jobs: (configuration, catalogue, protocol to replay on, most scenarios, shards, catalogue to replay with)."""
    main, product, history = catalogue.main_catalogue, catalogue.product_catalogue, catalogue.history_catalogue
    world = catalogue.world_catalogue
    if thorough:
        return [("MC-quads", main("opret"), "btc", 17000, 10),
                ("MC-stream-deep", main("opret"), "btc", 40000, 24),
                ("MC-stream", main("tapret"), "btc", 7000, 4),
                ("MC-stream", main("opret"), "mock", 7000, 4),
                ("MC-product-deep", product("opret"), "btc", 46000, 24),
                ("MC-product", product("tapret"), "mock", 18000, 8),
                ("MC-history-deep", history("opret"), "btc", 40000, 32),
                ("MC-history", history("tapret"), "mock", 6000, 4),
                ("MC-world-deep", world("opret"), "btc", 40000, 32),
                ("MC-world", world("tapret"), "btc", 6000, 4),
                ("MC-world", world("tapret"), "mock", 6000, 4),
                ("MC-endless", history("opret"), "btc", 12000, 8),
                ("MC-endless", history("tapret"), "mock", 4000, 4),
                ("MC-endless-one", world("opret"), "btc", 12000, 8),
                ("MC-endless-one", main("opret"), "btc", 30000, 20),
                ("MC-endless-stream", product("opret"), "btc", 30000, 20)]
    # (what is explored is the same under all protocols, but for names)
    big = "MC-world" if prop in ("C02", "C20", "C21") else "MC-world-small"
    return [("MC-triples", main("opret"), "btc", 2600, 2),
            ("MC-stream", main("opret"), "btc", 1200, 2),
            ("MC-stream", main("opret"), "btc", 500, 1, main("tapret")),
            ("MC-stream", main("opret"), "mock", 500, 1),
            ("MC-product", product("opret"), "btc", 2400, 2),
            ("MC-product", product("opret"), "mock", 500, 1, product("tapret")),
            ("MC-history", history("opret"), "btc", 1600, 3),
            ("MC-history", history("opret"), "mock", 400, 1, history("tapret")),
            (big, world("opret"), "btc", 900, 2),
            (big, world("opret"), "mock", 300, 1, world("tapret")),
            ("MC-endless", history("opret"), "btc", 700, 2),
            ("MC-endless", history("opret"), "mock", 250, 1, history("tapret")),
            ("MC-endless-one", world("opret"), "btc", 600, 1)]


REFINE = ["C08", "C17", "C18"]      # what the refinement of the atomic specification, and its liveness, speak about


def refine(cfg, cat, work):
    """The machine refines the atomic specification and always terminates."""
    work = os.path.join(work, cfg)
    os.makedirs(work, exist_ok=True)
    path = os.path.join(work, "table.json")
    with open(path, "w") as f:
        json.dump(table(dict(unis=[cat]), "btc", work, "table"), f)
    t0 = time.time()
    out, stats, ok = tlc("MCRefine.tla", cfg + ".cfg", work, dict(MC_TABLE=path), 1, 1800, "6g")
    profile(cfg, f"explored in {time.time() - t0:.1f} s")
    if not ok:
        log(tlc_errors(out))
        raise Broken(f"the specification does not refine its abstraction ({cfg})")
    return stats


PROOFS = {p: ["RgbSafety", "RgbVerdict", "RgbProps"] for p in ("C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12")}
PROOFS.update(C02=PROOFS["C01"] + ["RgbLedger"], C16=PROOFS["C01"] + ["RgbLedger"],
              C20=PROOFS["C01"] + ["RgbLedger", "RgbRivals"], C21=PROOFS["C01"] + ["RgbLedger", "RgbTransfer"])


def prove(m, work):
    """Check the proofs of a module about the specification, for all catalogues and lengths."""
    cache = os.path.join(work, "proofs-" + m)
    for stretch in ("3", "12"):
        t0 = time.time()
        try:
            p = subprocess.run(["tlapm", "--strict", "--threads", "2", "--stretch", stretch, "--cache-dir", cache, "-I", "..", m + ".tla"],
                               cwd=os.path.join(SPEC, "proofs"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=3600)
        except subprocess.TimeoutExpired:
            raise Broken(f"tlapm does not finish on {m}")
        ok = re.search(r"All (\d+) obligations? proved", p.stdout)
        profile(m, f"proved in {time.time() - t0:.1f} s")
        if p.returncode == 0 and ok:
            shutil.rmtree(cache, ignore_errors=True)
            return int(ok[1])
    log(p.stdout[-3000:])
    raise Broken(f"a proof about the specification fails ({m})")


def random_units(prop, thorough, base):
    """Scenarios which come from no model."""
    scale = 0.35 if prop in ("C15", "C16") else 1          # several recordings of each run
    units = []
    for i in range(96 if thorough else 14):
        proto = "mock" if i % 4 == 3 else "btc"
        units.append((f"r{i}", gen.scenarios(base + i * 7919, unis=max(2, int((14 if thorough else 8) * scale)),
                                             per=20, prefix=f"r{i}.", focus=prop), proto))
    for i in range(4 if thorough else 1):
        units.append((f"l{i}", gen.large(base + i, 600 if i == 3 else 300, f"large{i}"), "btc" if i % 2 == 0 else "mock"))
        units.append((f"c{i}", gen.chain(base + i, (600 if thorough and i == 0 else 280) if scale == 1 else 120, f"chain{i}"),
                      "btc" if i % 2 == 0 else "mock"))
    if scale == 1:
        units.append(("g0", gen.giant(base, 65535 if thorough else 33000, "giant"), "btc"))
        units.append(("x0", gen.large(base, 1100, "vast", few=True), "mock" if base % 2 else "btc"))
        units.append(("k0", gen.chain(base, 1100, "long", few=True), "btc" if base % 2 else "mock"))
    if prop in ("C10", "C17", "C18"):
        units.append(("f0", gen.flood(base, 33000, "flood"), "btc" if base % 2 else "mock"))
    if prop in ("C10", "C17"):
        units.append(("a0", gen.marathon(base, 8300, "marathon"), "btc"))
    # The long ones first
    units.sort(key=lambda u: (not u[0].startswith(("a", "f", "k", "x", "g", "l", "c")), u[0][0] not in "afkx", u[0]))
    return units


def plan(prop, tier, seed, work, submit):
    """Model checking and all units of work, handed to submit(name, scenario file, protocol) as they become known.
    Returns what was model checked, when that is done."""
    rng = random.Random(f"{prop}/{seed}")
    base = seed * 1000 + zlib.crc32(prop.encode()) % 1000
    thorough = tier == "thorough"
    stats, models = [0, 0], []
    scale = 0.35 if prop in ("C15", "C16") else 1
    jobs = model_jobs(prop, thorough)
    todo = {(cfg, cat["name"]): cat for cfg, cat, *_ in jobs}
    with cf.ThreadPoolExecutor(CORES) as ex:
        refs = []
        proofs = [(m, ex.submit(prove, m, work)) for m in PROOFS.get(prop, [])] if thorough else []
        if prop in REFINE:
            refs = [("MCRefine", ex.submit(refine, "MCRefine", catalogue.main_catalogue("opret"), work))]
            if thorough:
                refs.append(("MCRefine-history", ex.submit(refine, "MCRefine-history", catalogue.history_catalogue("opret"), work)))
        # (the endless ones are the long ones of the thorough tier)
        futs = {key: ex.submit(explore, key[0], cat, work, *((4, 7200) if thorough and key[0].startswith("MC-endless-") else (1, 1800)))
                for key, cat in todo.items()}
        for u in random_units(prop, thorough, base):
            submit(*u)
        for n, (cfg, cat, proto, limit, shards, *other) in enumerate(jobs):
            scns = futs[cfg, cat["name"]].result()[0]
            cat = other[0] if other else cat
            for i, f in enumerate(model_files(scns, cat, rng, int(limit * scale), shards, f"{cfg}-{cat['name']}-{proto}.")):
                submit(f"m{n}.{i}", f, proto)
        for (cfg, cat), f in futs.items():
            scns, st = f.result()
            stats[0] += st[0]
            stats[1] += st[1]
            models.append(f"{cfg}/{cat}: {st[1]} states, {st[0]} transitions, {len(scns)} scenarios")
        for name, f in refs:
            st = f.result()
            stats[0] += st[0]
            stats[1] += st[1]
            models.append(f"{name}: {st[1]} states, {st[0]} transitions: refinement of Abstract, termination")
        for m, f in proofs:
            models.append(f"proofs/{m}: {f.result()} obligations proved, for all catalogues, clients and lengths")
    return stats, models


def known_findings(prop):
    """(listed findings of the property: id -> text)"""
    res = {}
    with open(os.path.join(VERIF, "known-findings.txt")) as f:
        for line in f:
            m = re.match(r"KNOWN-FINDING: property=(\w+) id=(\S+) (.*)", line)
            if m and m[1] == prop:
                res[m[2]] = m[3].strip()
    return res


def evaluation_check(prop, tier, seed, work, known):
    results, failures, futs = [], [], []
    with cf.ThreadPoolExecutor(CORES) as ex:
        def submit(name, file, proto):
            futs.append(ex.submit(unit, prop, name, file, proto, work, sorted(known)))
        try:
            stats, models = plan(prop, tier, seed, work, submit)
        except BaseException:
            for fu in futs:
                fu.cancel()
            raise
        for fu in futs:
            try:
                results.append(fu.result())
            except Broken as e:
                failures.append(str(e))
    counts = collections.Counter()
    for x in results:
        counts.update(x["counts"])
        stats[0] += x["stats"][0]
        stats[1] += x["stats"][1]
    results.sort(key=lambda x: x["name"])
    coverage = dict(
        states=stats[1], transitions=stats[0],
        traces_validated_against_impl=sum(x["runs"] for x in results),
        samples=[x["sample"] for x in results if x["sample"]][:4],
        models=models,
        observed=dict(sorted(counts.items())),
        evaluations=counts["evaluations"])
    bad = [x for x in results if x["bad"]]
    seen = sum(len(x["known"]) for x in results)
    return coverage, [(x["replay"], x["bad"][0]) for x in bad], seen, failures


# Seal definitions --------------------------------------------------------------------------------

VOUTS = sorted({0, 1, 2, 3, 7, 8, 15, 16, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 1000, 4095, 4096, 32767, 32768,
                65534, 65535, 65536, 65537, 0xFFFFFF, 0x1000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF})


def sealdefs_check(prop, tier, seed, work):
    rng = random.Random(f"{prop}/{seed}")
    thorough = tier == "thorough"
    coverage = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], definitions=0, resolutions=0)
    violations = []

    def domain(n):
        if n == 0:
            return dict(txs=["0", "f", "A", "B", "W"], vs=VOUTS,
                        secs=["n:0", "n:f", "n:a", "n:b"] + [f"o:{t}/{v}" for t in ("0", "f", "A", "W")
                                                            for v in (0, 1, 255, 256, 65536, 0xFFFFFFFF)],
                        wids=["W", "0", "f", "A", "V"])
        # Every single bit of every part
        if n == 1:
            return dict(txs=["0"] + [f"bit{i}" for i in range(256)], vs=[0, 0xFFFFFFFF], secs=["n:0", "o:0/0"], wids=["0", "bit0", "bit255"])
        if n == 2:
            return dict(txs=["0"], vs=[0], wids=["W"], secs=["n:0"] + [f"n:bit{i}" for i in range(320)] + ["o:0/0"] +
                        [f"o:bit{i}/0" for i in range(256)] + [f"o:0/{2**i}" for i in range(32)])
        if n == 3:
            return dict(txs=["0", "A"], vs=sorted({2**i for i in range(32)} | {2**i - 1 for i in range(33)}), secs=["n:0", "o:0/0", "o:A/1"],
                        wids=["W", "A"])
        name = lambda p: f"{p}{rng.randrange(10**6)}"
        txs = [name("x") for _ in range(rng.randrange(2, 7))] + rng.sample(["0", "f"], rng.randrange(3))
        vs = sorted({rng.randrange(2**rng.randrange(1, 33)) for _ in range(30)} | set(rng.sample(VOUTS, 6)))
        secs = [f"n:{name('n')}" for _ in range(rng.randrange(2, 12))] + \
               [f"o:{rng.choice(txs)}/{rng.choice(vs)}" for _ in range(rng.randrange(2, 14))]
        return dict(txs=txs, vs=vs, secs=sorted(set(secs)), wids=rng.sample(txs, min(2, len(txs))) + [name("w")])

    doms = [domain(n) for n in range(4 + (40 if thorough else 5))]

    def one(n):
        d = os.path.join(work, f"d{n}")
        os.makedirs(d, exist_ok=True)
        dom = doms[n]
        path = os.path.join(d, "domain.json")
        with open(path, "w") as f:
            json.dump(dict(dom, vs=[str(v) for v in dom["vs"]]), f)
        out, st0, ok = tlc("MCSealDefs.tla", "MCSealDefs.cfg", d, dict(DOMAIN=path))
        if not ok:
            raise Broken("the specification of seal definitions fails")
        defs = [json.loads(json.loads(l)[4:]) for l in out.splitlines() if l.startswith('"DEF ')]
        rng2 = random.Random(n)
        rng2.shuffle(defs)
        src, rec = os.path.join(d, "in.json"), os.path.join(d, "rec.json")
        with open(src, "w") as f:
            json.dump(dict(wids=dom["wids"], defs=[dict(tx=None if x["kind"] == "wout" else x["tx"], v=int(x["v"]), sec=x["sec"])
                                                   for x in defs]), f)
        p = subprocess.run([CONFORM, "sealdefs", src, rec], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=600, preexec_fn=limits)
        if p.returncode:
            log(p.stdout[-2000:])
            raise Broken("the harness fails on seal definitions")
        cfg = os.path.join(d, "SealTrace.cfg")
        with open(cfg, "w") as f:
            f.write(f"SPECIFICATION Spec\nINVARIANTS Inv{prop[1:]}\nCHECK_DEADLOCK FALSE\n")
        out, st, ok = tlc("SealTrace.tla", cfg, d, dict(TRACE=rec))
        bad = re.findall(r'<<"BAD", "(\w+)", "(\d+)"', out)
        if not ok and not bad:
            log(tlc_errors(out))
            raise Broken("TLC cannot validate the seal definitions")
        with open(rec) as f:
            t = json.load(f)
        replay = None
        if bad:
            rd = os.path.join(VERIF, "work", "replay")
            os.makedirs(rd, exist_ok=True)
            replay = os.path.join(rd, f"{prop}-d{n}.json")
            i = int(bad[0][1])
            with open(replay, "w") as f:
                json.dump(dict(property=prop, witness_ids=t["wids"], definition=defs[i - 1] if i else "all (tokens not distinct)",
                               recorded=t["recs"][i - 1] if i else None), f, indent=1)
        shutil.rmtree(d)
        return n, st0, st, len(t["recs"]), len(t["wids"]), t["recs"][7], replay

    with cf.ThreadPoolExecutor(CORES) as ex:
        for n, st0, st, recs, wids, sample, replay in ex.map(one, range(len(doms))):
            coverage["states"] += st0[1] + st[1]
            coverage["transitions"] += st0[0] + st[0]
            coverage["traces_validated_against_impl"] += recs
            coverage["definitions"] += recs
            coverage["resolutions"] += recs * wids * 2
            if n < 2:
                coverage["samples"].append(dict(d=sample["d"], resolved=sample["obs"]["res"], src=sample["obs"]["src"]))
            if replay:
                violations.append((replay, ("definition", n)))
    return coverage, violations, 0, []


# -------------------------------------------------------------------------------------------------

def replay(path):
    """Run the scenario of a violation again and print what is recorded."""
    with open(path) as f:
        r = json.load(f)
    if not r.get("scenario"):
        print(json.dumps(r, indent=1))
        return 0
    build()
    work = os.path.join(VERIF, "work", "again")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    res = unit(r["property"], "again", r["scenario"], r["protocol"], work, sorted(known_findings(r["property"])))
    log(json.dumps({k: v for k, v in res.items() if k != "counts"}, indent=1))
    return 1 if res["bad"] else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    t0 = time.time()
    work = os.path.join(VERIF, "work", f"{a.prop}-{a.tier}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        build()
        t1 = time.time()
        known = known_findings(a.prop)
        if a.prop in ("C13", "C14"):
            coverage, violations, seen, failures = sealdefs_check(a.prop, a.tier, a.seed, work)
        elif a.prop in EVALS:
            coverage, violations, seen, failures = evaluation_check(a.prop, a.tier, a.seed, work, known)
        else:
            raise Broken(f"unknown property {a.prop}")
    except Broken as e:
        log(f"{a.prop}: the check failed: {e}")
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    evidence = dict(
        property=a.prop, tier=a.tier, seed=a.seed, level="model_checking", coverage=coverage,
        assumptions=["the harness' contract implements ContractApi faithfully",
                     "dependencies (bp-core, ultrasonic, aluvm, single_use_seals) behave as pinned",
                     "hash functions do not collide on the explored values"],
        wall_s=round(time.time() - t0, 1), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    log(f"{a.prop} {a.tier} seed {a.seed}: {coverage['traces_validated_against_impl']} traces, "
        f"{coverage['states']} states, built in {t1 - t0:.0f} s, {evidence['wall_s']:.0f} s in all")
    for k, text in known.items():
        if seen:
            log(f"KNOWN-FINDING: property={a.prop} {k}: {text} ({seen} times here)")
    for path, where in violations[:10]:
        log(f"VIOLATION property={a.prop} replay={path}")
    if violations:
        return 1
    if failures:
        log(f"{a.prop}: the check failed: {failures}")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
