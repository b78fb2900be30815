#!/usr/bin/env python3
"""Checks one property of rt1_model against the TLA+ specification in spec/.

  check.py C04 [--tier quick|thorough] [--seed N]     the check of a property
  check.py C04 --replay FILE                          repeat one reported case
  check.py --build                                    compile the TLC overrides

A check
  1. model-checks the modules of the specification the property rests on,
  2. lets TLC generate behaviours of the specification (families, see
     spec/Sched.tla and the small machines next to it),
  3. performs them on the package in /repo (lib/driver.py), and
  4. lets TLC validate everything that was observed against the specification.
Exit 0: the property held on everything explored.  Exit 1: it did not (a line
"VIOLATION property=<id> replay=<file>" names the recorded case).  Exit 2: the
machinery failed.
"""

import argparse
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.realpath(__file__))
SPEC = os.path.join(HERE, "spec")
sys.path.insert(0, os.path.join(HERE, "lib"))
from plan import PLAN, MODELS  # noqa: E402

TLA = "/opt/veriftools/tla"
JARS = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
NPROC = 8


class Machinery(Exception):
    pass


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ TLC
def build(classes):
    srcs = sorted(glob.glob(os.path.join(SPEC, "*.java")))
    os.makedirs(classes, exist_ok=True)
    r = subprocess.run(
        ["javac", "-nowarn", "-d", classes, "-cp", f"{TLA}/tla2tools.jar", *srcs],
        capture_output=True, text=True,
    )
    if r.returncode:
        raise Machinery("javac failed:\n" + r.stderr)


class TLC:
    def __init__(self, work):
        self.work = work
        self.classes = os.path.join(work, "classes")
        self.n = 0
        build(self.classes)
        self.spec = os.path.join(work, "spec")
        shutil.copytree(SPEC, self.spec)

    def run(self, module, env=None, workers=4, cfg=None, timeout=800, args=(), heap="6g"):
        """Returns (output, states generated, distinct states, error?)."""
        self.n += 1
        meta = tempfile.mkdtemp(prefix="meta", dir=self.work)
        cmd = [
            "java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-Xss16m",
            "-cp", f"{self.classes}:{JARS}", "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
            "-deadlock", "-fp", "1", "-workers", str(workers),
            *(["-config", cfg] if cfg else []), *args, module,
        ]
        try:
            r = subprocess.run(
                cmd, cwd=self.spec, env={**os.environ, **(env or {})},
                capture_output=True, text=True, timeout=timeout,
            )
        except subprocess.TimeoutExpired:
            raise Machinery(f"TLC timed out on {module}")
        out = r.stdout + r.stderr
        m = re.findall(r"([\d,]+) states generated(?:.*?), ([\d,]+) distinct states found", out)
        gen, dist = (int(i.replace(",", "")) for i in m[-1]) if m else (0, 0)
        return out, gen, dist, r.returncode != 0


# ------------------------------------------------------------------ running the package
def drive(cases, work, timeout):
    """Performs the cases on the package (in parallel); returns the recorded traces."""
    n = max(1, min(NPROC, len(cases)))
    env = {
        **os.environ,
        "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1",
        "MPLCONFIGDIR": os.path.join(work, "mpl"), "PYTHONHASHSEED": "0", "HOME": work,
    }
    os.makedirs(env["MPLCONFIGDIR"], exist_ok=True)

    def start(k, chunk):
        fin, fout = (os.path.join(work, f"{x}-{k}.json") for x in ("cases", "obs"))
        with open(fin, "w") as f:
            json.dump(chunk, f)
        for i in (fout, fout + ".at"):
            if os.path.exists(i):
                os.unlink(i)
        return fout, subprocess.Popen(
            [PY, os.path.join(HERE, "lib", "driver.py"), fin, fout], env=env, cwd=work,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    t0 = time.time()
    procs = {}

    def finish(k, chunk, died):
        """The traces of a chunk; died: how often its process was ended so far."""
        fout, p = procs[k]
        try:
            out, _ = p.communicate(timeout=max(5, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            raise Machinery("the driver timed out")
        if p.returncode > 0 or (p.returncode < 0 and not os.path.exists(fout)):
            raise Machinery(f"the driver failed ({p.returncode}):\n" + out[-3000:])
        with open(fout) as f:
            traces = [json.loads(line) for line in f if line.endswith("\n")]
        if p.returncode == 0:
            return traces
        if -p.returncode in (signal.SIGKILL, signal.SIGTERM) or died == 2:
            if died:
                return traces                 # (violations have been recorded already)
            raise Machinery(f"the driver was ended ({p.returncode})")
        # a call ended the process: that call is what was observed of its case
        with open(fout + ".at") as f:
            i, pos = (int(x) for x in f.read().split())
        ev = chunk[i]["events"][pos - 1]
        procs[k] = start(k, [{**chunk[i], "events": chunk[i]["events"][:pos - 1]}])
        ended = finish(k, [{**chunk[i], "events": chunk[i]["events"][:pos - 1]}], 2)
        obs = {"exc": "ProcessDied", "names": [], "intact": True, "msg": signal.Signals(-p.returncode).name}
        traces.append({"id": chunk[i]["id"], "events": (ended[0]["events"] if ended else []) + [{"ev": ev, "obs": [obs]}]})
        procs[k] = start(k, chunk[i + 1:])
        return traces + finish(k, chunk[i + 1:], died + 1)

    try:
        for k in range(n):
            procs[k] = start(k, cases[k::n])
        found = [t for k in range(n) for t in finish(k, cases[k::n], 0)]
    finally:
        for _, p in procs.values():
            if p.poll() is None:
                p.kill()
    by = {t["id"]: t for t in found}
    return [by[c["id"]] for c in cases if c["id"] in by]


VIOL = re.compile(r'^"VIOL\|([^|]*)\|(\d+)\|([^|]*)\|(.*)"$', re.M)
HELD = re.compile(r'^"HELD\|([^|]*)"$', re.M)


def validate(tlc, traces, machine):
    """Lets TLC check recorded traces; returns violations and statistics."""
    if not traces:
        return [], 0, 0
    fd, path = tempfile.mkstemp(suffix=".json", dir=tlc.work)
    with os.fdopen(fd, "w") as f:
        json.dump(traces, f)
    out, gen, dist, err = tlc.run(machine, {"TRACE_FILE": path}, workers=NPROC, heap="10g")
    os.unlink(path)
    viols = [(i, int(p), op, why) for i, p, op, why in VIOL.findall(out)]
    done = set(HELD.findall(out)) | {v[0] for v in viols}   # one line for every case
    ids = {t["id"] for t in traces}
    if err or done != ids:
        raise Machinery(f"trace validation with {machine} failed "
                        f"({len(done)} of {len(ids)} cases):\n" + out[-6000:])
    return viols, gen, dist


def generate(tlc, family, seed, first, count):
    """Lets TLC generate cases of a family; returns them with TLC's statistics."""
    d = tempfile.mkdtemp(prefix="gen", dir=tlc.work)
    machine = family.split(".")[0]        # "Module.family"
    env = {"GEN_FAMILY": family.split(".")[1], "GEN_SEED": str(seed), "GEN_FIRST": str(first),
           "GEN_COUNT": str(count), "GEN_OUT": d}
    # (a tour writes the paths TLC finds: with one worker these are reproducible)
    out, gen, dist, err = tlc.run(machine, env, workers=1 if machine.endswith("Tour") else 4, heap="3g")
    if err:
        raise Machinery(f"generation of {family} failed:\n" + out[-4000:])
    cases = []
    for fn in sorted(glob.glob(os.path.join(d, "*.json"))):
        with open(fn) as f:
            x = json.load(f)
        cases.extend(x if isinstance(x, list) else [x])
    shutil.rmtree(d)
    cases.sort(key=lambda c: [int(i) if i.isdigit() else i for i in re.split(r"(\d+)", c["id"])])
    if not cases:
        raise Machinery(f"no cases generated for {family}:\n" + out[-2000:])
    return cases, gen, dist


# ------------------------------------------------------------------ reporting
def known_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop and k["status"] == "open"]


def brief(case):
    """A short rendering of a case for the evidence file."""
    calls = []
    for e in case["events"]:
        ev = e.get("ev", e)
        names = [k["n"] for k in ev.get("kw", []) if isinstance(k, dict) and "n" in k]
        calls.append(ev["op"] + (f"[{ev['o']}]" if isinstance(ev.get("o"), int) else "")
                     + (f".{ev['d']}" if "d" in ev and isinstance(ev["d"], str) else "")
                     + ("(" + ",".join(names) + ")" if names else ""))
    return {"id": case["id"], "calls": calls}


def save_replay(prop, case, machine, pos, why):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha1(json.dumps(case["id"]).encode()).hexdigest()[:6]
    path = os.path.join(d, f"{prop}-{re.sub(r'[^A-Za-z0-9-]', '_', case['id'])}-{h}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "machine": machine, "position": pos, "why": why, "case": case}, f)
    return path


def observed(traces, case_id, pos):
    for t in traces:
        if t["id"] == case_id:
            e = t["events"][pos - 1]
            obs = []
            for o in e["obs"]:
                obs.append({k: (v if len(str(v)) < 300 else str(v)[:300] + "...") for k, v in o.items()})
            return e["ev"], obs
    return None, None


def report(prop, viols, cases, traces, machine):
    """Prints the violations; returns how many are not known findings."""
    known = known_findings(prop)
    fresh = 0
    seen = set()
    for cid, pos, op, why in viols:
        ev, obs = observed(traces, cid, pos)
        k = next((k for k in known if k.get("case") == cid and k.get("position") == pos), None)
        if k:
            log(f"KNOWN-FINDING: property={prop} {k['what']}")
            continue
        fresh += 1
        if len(seen) < 5:
            case = next(c for c in cases if c["id"] == cid)
            path = save_replay(prop, case, machine, pos, why)
            log(f"VIOLATION property={prop} replay={path}")
            log(f"  case {cid}, call {pos} ({op}): {why}")
            for o in obs:
                if o.get("msg"):
                    log(f"    {o.get('exc')}: {o['msg']}")
            seen.add(cid)
    if fresh > len(seen):
        log(f"  ... and {fresh - len(seen)} more")
    return fresh


# ------------------------------------------------------------------ main
def run_check(prop, tier, seed, work):
    t0 = time.time()
    plan = PLAN[prop]
    tlc = TLC(work)
    states = trans = 0
    cov = {"models": {}, "families": {}}
    fresh = 0
    fams = plan[tier]

    with cf.ThreadPoolExecutor(4) as pool:
        gens = {
            fam: pool.submit(generate, tlc, fam, seed, 1, count)
            for fam, count in fams.items()
        }
        models = {
            m: pool.submit(tlc.run, MODELS[m]["module"], MODELS[m].get("env"), MODELS[m].get("workers", 4), MODELS[m].get("cfg"))
            for m in plan.get("models", []) + (plan.get("models_thorough", []) if tier == "thorough" else [])
        }
        for m, fut in models.items():
            out, gen, dist, err = fut.result()
            want = MODELS[m].get("violates")
            if want:
                # a mutant of the design: TLC has to find the violation
                if want not in out:
                    raise Machinery(f"model {m}: expected {want!r}\n" + out[-3000:])
            elif err or "No error has been found" not in out:
                raise Machinery(f"model {m} failed:\n" + out[-5000:])
            cov["models"][m] = {"states": gen, "distinct": dist, "what": MODELS[m]["what"]}
            states += dist
            trans += gen
        cases = {}
        for fam, fut in gens.items():
            cs, gen, dist = fut.result()
            cases[fam] = cs
            states += dist
            trans += gen
    t1 = time.time()

    allcases = [c for cs in cases.values() for c in cs]
    # interleave so that the processes get similar loads
    traces = drive(allcases, work, 500 if tier == "quick" else 3000)
    t2 = time.time()
    by = {}
    for fam, cs in cases.items():
        by.setdefault(fam.split(".")[0], []).extend(c["id"] for c in cs)
    ncalls = 0
    ops, excs = {}, {}
    for machine, ids in by.items():
        ids = set(ids)
        ts = [t for t in traces if t["id"] in ids]
        check = "Trace"
        size = 400
        for k in range(0, len(ts), size):
            viols, gen, dist = validate(tlc, ts[k:k + size], check)
            states += dist
            trans += gen
            fresh += report(prop, viols, allcases, ts, check)
        for t in ts:
            for e in t["events"]:
                ncalls += len(e["obs"])
                ops[e["ev"]["op"]] = ops.get(e["ev"]["op"], 0) + 1
                x = e["obs"][0].get("exc")
                if x:
                    excs[x] = excs.get(x, 0) + 1
    for fam, cs in cases.items():
        cov["families"][fam] = len(cs)
    nexec = sum(len(t["events"][0]["obs"]) if t["events"] else 0 for t in traces)
    samples = [brief(cs[i]) for cs in cases.values() for i in (0, len(cs) // 2)][:8]
    cov.update(
        states=states, transitions=trans, traces_validated_against_impl=nexec,
        calls_validated=ncalls, calls_by_operation=ops, exceptions_observed=excs,
        samples=samples,
        seconds={"generate": round(t1 - t0, 1), "execute": round(t2 - t1, 1),
                 "validate": round(time.time() - t2, 1)},
        rule="states/transitions: distinct/generated states of TLC over all runs (model checking, "
             "behaviour generation, trace validation); traces: executions of generated behaviours on the real package",
    )
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": cov, "wall_s": round(time.time() - t0, 1),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    log(f"{prop}: {nexec} executions, {ncalls} calls validated, {states} states, "
        f"{ev['wall_s']} s {cov['seconds']}: {'VIOLATED' if fresh else 'held'}")
    return 1 if fresh else 0


def run_replay(prop, path, work):
    with open(path) as f:
        r = json.load(f)
    tlc = TLC(work)
    traces = drive([r["case"]], work, 600)
    viols, _, _ = validate(tlc, traces, r["machine"])
    for cid, pos, op, why in viols:
        ev, obs = observed(traces, cid, pos)
        log(f"VIOLATION property={prop} replay={path}")
        log(f"  case {cid}, call {pos} ({op}): {why}")
        log("  call:", json.dumps(ev)[:2000])
        log("  observed:", json.dumps(obs)[:2000])
    if not viols:
        log("no violation")
    return 1 if viols else 0


def main():
    p = argparse.ArgumentParser()
    p.add_argument("property", nargs="?")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    p.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    p.add_argument("--replay")
    p.add_argument("--build", action="store_true")
    a = p.parse_args()
    work = tempfile.mkdtemp(prefix="rt1verif-")
    try:
        if a.build:
            TLC(work)
            return 0
        if a.property not in PLAN:
            log("unknown property", a.property)
            return 2
        if a.replay:
            return run_replay(a.property, a.replay, work)
        return run_check(a.property, a.tier, a.seed, work)
    except Machinery as ex:
        log("MACHINERY FAILURE:", ex)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
