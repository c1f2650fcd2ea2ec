"""The pipeline of one check: model -> scenarios -> real code -> trace -> judgement."""
import collections
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

from . import tlc, enc
from .registry import PROPS

VERIF = tlc.VERIF
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"


class MachineryError(Exception):
    pass


def run_models(models, tier):
    """Model-checks the component models; returns scenarios and statistics."""
    procs, scen, stats = [], {}, []
    for m in models:
        if tier == "quick" and m.get("thorough_only"):
            continue
        cfg = m["cfg"] if isinstance(m["cfg"], str) else m["cfg"](tier)
        procs.append((m, tlc.start(m["module"], cfg, workers=m.get("workers", 4), heap=m.get("heap", "3g"),
                                   extra=m.get("extra", ()) if not callable(m.get("extra")) else m["extra"](tier))))
    for m, p in procs:
        r = tlc.finish(p, m.get("timeout", 700 if tier == "quick" else 7200))
        if r.rc != 0:
            raise MachineryError(f"model {m['module']} does not check (rc {r.rc}):\n{r.out[-3000:]}")
        name = m.get("name", m["module"])
        scen[name] = [json.loads(s) for s in sorted({s[4:] for s in r.strings if s.startswith("SCN ")})]
        stats.append({"model": name, "distinct_states": r.distinct, "states_generated": r.generated,
                      "scenarios": len(scen[name])})
    return scen, stats


def run_drivers(prop, spec, tier, seed, scen, work):
    """Runs the real code; returns the trace files."""
    sf = os.path.join(work, "scenarios.json")
    with open(sf, "w") as f:
        json.dump(scen, f)
    jobs = []
    for mode, parts in spec.get("modes", {64: 3, 32: 1}).items():
        for part in range(parts):
            out = os.path.join(work, f"trace_{mode}_{part}.ndjson")
            e = dict(os.environ)
            e.update(JAX_PLATFORMS="cpu", JAX_ENABLE_X64="1" if mode == 64 else "0",
                     PYTHONPATH=f"{REPO}:{VERIF}", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
                     XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
                     OMP_NUM_THREADS="1", TF_CPP_MIN_LOG_LEVEL="3", VERIF_REPO=REPO)
            e.pop("JAX_DISABLE_JIT", None)
            log = open(out + ".log", "w")
            p = subprocess.Popen([PY, "-m", "harness.drive", prop, tier, str(seed), str(mode), str(part), str(parts), sf, out],
                                 cwd=VERIF, env=e, stdout=log, stderr=subprocess.STDOUT)
            jobs.append((p, out, mode, part, log))
    limit = time.time() + (500 if tier == "quick" else 6000)
    hung = []
    for p, out, mode, part, log in jobs:
        try:
            rc = p.wait(max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            hung.append(out)
            rc = 0
        log.close()
        if rc != 0:
            raise MachineryError(f"driver {prop} mode {mode} part {part} failed (rc {rc}):\n" + open(out + ".log").read()[-3000:])
    return [j[1] for j in jobs], hung


def read_events(files):
    evs = []
    for i, f in enumerate(files):
        if not os.path.exists(f):
            continue
        for line in open(f):
            if line.endswith("\n"):
                e = json.loads(line)
                e["seg"] = [i, e["seg"]]
                evs.append(e)
    return evs


def judge(module, cfg, events, work, shards):
    """TLC judges the recorded events; returns failures [(event, clauses)], statistics."""
    if not events:
        return [], {"distinct_states": 0, "states_generated": 0, "events": 0, "segments": 0}
    segs = collections.OrderedDict()
    for e in events:
        segs.setdefault(tuple(e["seg"]), []).append(e)
    shards = max(1, min(shards, len(segs)))
    size = [0] * shards
    buckets = [[] for _ in range(shards)]
    order = sorted(segs, key=lambda k: -sum(e.get("w", 1) for e in segs[k]))
    for k in order:
        i = size.index(min(size))
        size[i] += sum(e.get("w", 1) for e in segs[k])
        buckets[i].append(k)
    procs = []
    for i, ks in enumerate(buckets):
        evs = [e for k in sorted(ks) for e in segs[k]]
        f = os.path.join(work, f"shard_{module}_{i}.ndjson")
        with open(f, "w") as fh:
            for e in evs:
                d = {k: v for k, v in e.items() if k not in ("seg", "w", "note")}
                fh.write(json.dumps(d) + "\n")
        procs.append((evs, tlc.start(module, cfg, env={"TRACE": f}, heap="3g")))
    bad, gen, dist = [], 0, 0
    for evs, p in procs:
        r = tlc.finish(p, 800)
        gen += r.generated
        dist += r.distinct
        for s in r.strings:
            if s.startswith("BAD "):
                _, l, cl = s.split(" ", 2)
                bad.append((evs[int(l) - 1], cl))
        if any(s.startswith("DONE ") for s in r.strings):
            continue
        # The specification could not even evaluate the event: not a behaviour.
        if "Error evaluating" in r.out or "evaluating" in r.out or "The error occurred" in r.out or "Attempted" in r.out:
            ls = re.findall(r"^(?:/\\ )?l = (\d+)", r.out, re.M)
            at = int(ls[-1]) if ls else 1
            if os.environ.get("VERIF_STRICT"):
                raise MachineryError(f"{module}: evaluation failed at {evs[at-1]}:\n{r.out[-3000:]}")
            bad.append((evs[min(at, len(evs)) - 1], "{\"the specification cannot be evaluated on this event\"}: " + " ".join(r.out[r.out.find("Error:"):].split())[:500]))
            continue
        raise MachineryError(f"{module}: no verdict (rc {r.rc}):\n{r.out[-3000:]}")
    return bad, {"distinct_states": dist, "states_generated": gen, "events": len(events), "segments": len(segs)}


def check(prop, tier, seed, keep=False):
    t0 = time.time()
    spec = PROPS[prop]
    tlc.build()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(tlc.BUILD, "replay"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"{prop}_", dir=tlc.BUILD)
    try:
        scen, mstats = run_models(spec.get("models", []), tier)
        t1 = time.time()
        files, hung = run_drivers(prop, spec, tier, seed, scen, work)
        t2 = time.time()
        events = read_events(files)
        if not events and not hung:
            raise MachineryError("no events recorded")
        mod = importlib.import_module("harness.registry")
        bad, tstats = judge(spec["trace"], spec["trace_cfg"], events, work, spec.get("shards", 6))
        t3 = time.time()
        for h in hung:
            last = read_events([h])
            bad.append((last[-1] if last else {"k": "start"}, "{\"the call after this event did not return\"}"))
    finally:
        if keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    known, fresh = split_known(prop, bad)
    for k in sorted(set(known)):
        print(f"KNOWN-FINDING: property={prop} {k}")
    kinds = collections.Counter(e.get("k", "?") for e in events)
    step = max(1, len(events) // 3)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec["level"],
        "coverage": {
            "states": sum(m["distinct_states"] for m in mstats) + tstats["distinct_states"],
            "transitions": sum(m["states_generated"] for m in mstats) + tstats["states_generated"],
            "traces_validated_against_impl": tstats["segments"],
            "events_judged": tstats["events"],
            "events_by_kind": dict(kinds),
            "models": mstats,
            "scenarios_from_model": sum(len(v) for v in scen.values()),
            "samples": [shorten(enc.pretty({k: v for k, v in e.items() if k not in ("seg", "w")})) for e in events[::step][:3]],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop}: models {t1-t0:.1f}s, driver {t2-t1:.1f}s, judge {t3-t2:.1f}s; "
          f"{sum(m['distinct_states'] for m in mstats)} model states, {len(events)} events in {tstats['segments']} traces, {len(fresh)} rejected")
    if not fresh:
        return 0
    path = os.path.join(tlc.BUILD, "replay", f"{prop}.ndjson")
    with open(path, "w") as f:
        for e, cl in fresh[:200]:
            f.write(json.dumps({"broken": cl, "event": {k: v for k, v in e.items() if k != "seg"}, "readable": enc.pretty({k: v for k, v in e.items() if k not in ("seg", "w")})}) + "\n")
    cl = collections.Counter((e.get("k", "?"), c) for e, c in fresh)
    for (k, c), n in cl.most_common(12):
        print(f"  {n} x event {k}: {c[:400]}")
    e, c = fresh[0]
    print("  first:", json.dumps(enc.pretty({k: v for k, v in e.items() if k not in ("seg", "w")}))[:1200])
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def shorten(o, n=24):
    if isinstance(o, dict):
        return {k: shorten(v, n) for k, v in o.items()}
    if isinstance(o, list):
        return [shorten(v, n) for v in o[:n]] + (["..."] if len(o) > n else [])
    return o


def split_known(prop, bad):
    """Findings listed in known_findings.txt (lines 'open: property=<id> key=<note key> <text>')."""
    keys = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                keys[m.group(2)] = m.group(3).strip()
    known, fresh = [], []
    for e, c in bad:
        if e.get("note") in keys:
            known.append(keys[e["note"]])
        else:
            fresh.append((e, c))
    return known, fresh


def rejudge(path):
    """Judges the events of a replay file again."""
    prop = os.path.basename(path).split(".")[0]
    spec = PROPS[prop]
    tlc.build()
    evs = []
    for i, line in enumerate(open(path)):
        e = json.loads(line)["event"]
        e["seg"] = [0, i]
        evs.append(e)
    work = tempfile.mkdtemp(prefix="re_", dir=tlc.BUILD)
    bad, _ = judge(spec["trace"], spec["trace_cfg"], evs, work, 1)
    shutil.rmtree(work)
    for e, c in bad:
        print(c, json.dumps(enc.pretty(e))[:600])
    return 1 if bad else 0
