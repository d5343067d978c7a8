#!/usr/bin/env python3
"""Development aid, not a check: which properties' invariants catch which planted changes.

matrix.py OUT.json [--own] PATCH...   (each PATCH: a directory with patch.diff and meta.json)

Works on a scratch copy of /repo and of the harness under /tmp; /repo is never touched."""

import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: E402

ROOT = "/tmp/matrix"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def prepare():
    shutil.rmtree(ROOT, ignore_errors=True)
    os.makedirs(ROOT)
    sh(f"cp -a /repo {ROOT}/repo && rm -rf {ROOT}/repo/target && mkdir {ROOT}/harness && cp -a {check.HARNESS}/src {check.HARNESS}/Cargo.toml "
       f"{check.HARNESS}/Cargo.lock {ROOT}/harness/")
    sh(f"sed -i 's#\"/repo\"#\"{ROOT}/repo\"#' {ROOT}/harness/Cargo.toml")
    check.CONFORM = f"{ROOT}/harness/target/release/conform"


def build():
    p = sh("cargo build --release --offline", cwd=f"{ROOT}/harness")
    if p.returncode:
        raise SystemExit(p.stdout[-3000:])


def run_units(prop, units, work, invs, known):
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    hit = {}
    with cf.ThreadPoolExecutor(check.CORES) as ex:
        futs = [ex.submit(check.unit, prop, n, f, p, work, known, invs) for n, f, p in units]
        for fu in cf.as_completed(futs):
            try:
                for b in fu.result()["bad"]:
                    hit[b[0]] = hit.get(b[0], 0) + 1
            except check.Broken as e:
                hit["broken"] = str(e)[:200]
    return hit


def main():
    out, args = sys.argv[1], sys.argv[2:]
    own = "--own" in args
    dirs = [a for a in args if not a.startswith("--")]
    prepare()
    build()
    work = f"{ROOT}/work"
    os.makedirs(work)
    plans = {}

    def plan(p):
        if p not in plans:
            os.makedirs(work, exist_ok=True)
            plans[p] = []
            check.plan(p, "quick", 1, work, lambda *u: plans[p].append(u))
        return plans[p]
    known = ["C05-foreign-genesis", "C20-two-protocols"]
    result = json.load(open(out)) if os.path.exists(out) else {}
    for d in dirs:
        name = os.path.basename(d.rstrip("/"))
        prop = json.load(open(f"{d}/meta.json"))["property"]
        sh(f"git -C {ROOT}/repo checkout -q -- .")
        p = sh(f"git -C {ROOT}/repo apply {os.path.abspath(d)}/patch.diff")
        if p.returncode:
            print(name, "does not apply", p.stdout)
            continue
        build()
        t0 = time.time()
        hit = {}
        if prop in ("C13", "C14") or not own:
            for q in ("C13", "C14"):
                if not own or q == prop:
                    w = f"{work}-sd"
                    os.makedirs(w, exist_ok=True)
                    v = check.sealdefs_check(q, "quick", 1, w)[1]
                    if v:
                        hit[q] = len(v)
        if own and prop not in ("C13", "C14"):
            hit.update(run_units(prop, plan(prop), work, None, known))
        if not own:
            hit.update(run_units("C18", plan("C18"), work, [x for x in check.EVALS if x != "C15"], known))
            for q in ("C15", "C16"):
                hit.update(run_units(q, plan(q), work, [q], known))
        result[name] = hit
        print(f"{name}: {'CAUGHT' if prop in hit else 'MISSED'} {json.dumps(hit)} {time.time() - t0:.0f} s", flush=True)
        with open(out, "w") as f:
            json.dump(result, f, indent=1)


main()
