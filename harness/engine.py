"""Ties generators, driver and TLC together; writes evidence and replay files."""
import collections
import json
import multiprocessing as mp
import os
import random
import re
import signal
import time

import tlc

NCPU = min(8, os.cpu_count() or 1)


class Hang(Exception):
    pass


def _alarm(*_):
    raise Hang("no answer in time")


def drive_one(plan, limit=60):
    import drive
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return drive.run_plan(plan)
    finally:
        signal.alarm(0)


def drive_chunk(ps):
    import torch
    torch.set_num_threads(1)
    out, slow = [], 0
    for p in ps:
        t = time.time()
        out.append(drive_one(p, 60 if slow < 2 else 5))
        slow += time.time() - t > 50
    return out


def drive_all(plans):
    """record every plan; in parallel, in order"""
    if len(plans) < 40:
        return drive_chunk(plans)
    n = max(1, min(50, len(plans) // (NCPU * 4)))
    chunks = [plans[i:i + n] for i in range(0, len(plans), n)]
    with mp.get_context("fork").Pool(NCPU) as pool:
        return [t for c in pool.map(drive_chunk, chunks, chunksize=1) for t in c]


def judge(traces, tmp, timeout):
    """(bad, states, transitions).  A recording TLC cannot evaluate is not a behaviour of the specification: bisect for it."""
    if not traces:
        return [], 0, 0
    try:
        bad, r = tlc.judge(traces, tmp, workers=NCPU, timeout=timeout)
        return bad, r["distinct"], r["states"]
    except tlc.TLCError as e:
        if "OutOfMemory" in str(e) or "Parsing" in str(e) and "Semantic" in str(e) and "errors" in str(e):
            raise
        if len(traces) == 1:
            return [dict(id=traces[0]["id"], at=len(traces[0]["ev"]), clause="not evaluable", why=str(e)[-800:])], 0, 0
        h = len(traces) // 2
        a, b = judge(traces[:h], tmp, timeout), judge(traces[h:], tmp, timeout)
        if len(a[0]) + len(b[0]) > 3 and all(x["clause"] == "not evaluable" for x in a[0] + b[0]):
            raise
        return a[0] + b[0], a[1] + b[1], a[2] + b[2]


def summary(trace, at):
    """what identifies a disagreement"""
    e = trace["ev"][at - 1]
    m = next((v["m"] for v in trace["ev"] if v["e"] == "new" and v["o"] == e.get("o")), None)
    if m is None:
        m = next((v["m"] for v in trace["ev"] if v["e"] == "new"), {"t": ""})
    keys = ("e", "op", "wrt", "fd", "td", "db", "nn", "lst", "kind", "agg", "back", "shape", "st")
    s = {k: e[k] for k in keys if k in e}
    if "fl" in e:
        s["fl"] = e["fl"]
    s["tree"] = m["t"]
    s["kinds"] = sorted(set(kinds(m)))
    return s


def kinds(m):
    return [m["t"]] + [k for l in m.get("ls", []) for k in kinds(l)]


def matches(entry, prop, s, clause):
    return entry["property"] == prop and entry.get("clause", clause) == clause and all(
        s.get(k) == v for k, v in entry["match"].items())


def known(root):
    p = os.path.join(root, "known_findings.json")
    return json.load(open(p))["known"] if os.path.exists(p) else []


def run_plans(plans, tmp, timeout):
    traces = drive_all(plans)
    bad, states, trans = judge(traces, tmp, timeout)
    return traces, bad, states, trans


def check(a, tmp, repo, root):
    t0 = time.time()
    import nnj
    assert os.path.realpath(nnj.__file__).startswith(os.path.realpath(repo) + os.sep), nnj.__file__
    import props
    P = props.PROPS[a.prop]
    thorough = a.tier == "thorough"
    models = []
    if not a.nomodels:
        for m in P.get("models", []):
            if m.get("tier", "quick") == "thorough" and not thorough:
                continue
            models.append(props.run_model(m, a, tmp))
    model_bad = [m for m in models if not m["ok"]]
    if model_bad:
        # the models do not depend on the code: this is a failure of the machinery, never a verdict on the code
        raise RuntimeError("design model failed: %s" % [m["name"] for m in model_bad])
    plans, cover = props.make_plans(a.prop, a.seed, thorough, a.scale, tmp)
    budget = 820 - (time.time() - t0) if not thorough else 6 * 3600
    traces, bad, states, trans = run_plans(plans, tmp, budget)
    by = {t["id"]: t for t in traces}
    pl = {p["id"]: p for p in plans}
    outdir = os.path.join(root, "out", a.prop)
    os.makedirs(outdir, exist_ok=True)
    for f in os.listdir(outdir):
        os.unlink(os.path.join(outdir, f))
    seen, nviol, nknown = set(), 0, 0
    kf = known(root)
    for b in bad:
        s = summary(by[b["id"]], b["at"])
        hit = next((k for k in kf if matches(k, a.prop, s, b["clause"])), None)
        key = json.dumps([b["clause"], s], sort_keys=True)
        if hit:
            if hit["what"] not in seen:
                seen.add(hit["what"])
                print("KNOWN-FINDING: property=%s %s" % (a.prop, hit["what"]))
            nknown += 1
            continue
        nviol += 1
        if key in seen or len(seen) > 12:
            continue
        seen.add(key)
        path = os.path.join(outdir, re.sub(r"[^\w.]", "_", b["id"]) + ".%d.json" % b["at"])
        with open(path, "w") as f:
            json.dump(dict(property=a.prop, clause=b["clause"], at=b["at"], summary=s, event=by[b["id"]]["ev"][b["at"] - 1],
                           plan=pl[b["id"]], why=b.get("why", "")), f)
        print("VIOLATION property=%s replay=%s" % (a.prop, path))
        print("  clause %r at event %d: %s %s" % (b["clause"], b["at"], json.dumps(s), by[b["id"]]["ev"][b["at"] - 1].get("ex", "")))
    nev = sum(len(t["ev"]) for t in traces)
    rng = random.Random(a.seed)
    samples = []
    for t in rng.sample(traces, min(3, len(traces))):
        samples.append(dict(id=t["id"], inputs=t["xs"], events=[{k: (v if len(json.dumps(v)) < 400 else "...") for k, v in e.items()}
                                                               for e in t["ev"][:4]]))
    os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
    ev = dict(property=a.prop, tier=a.tier, seed=a.seed, level="model_checking",
              coverage=dict(states=states + sum(m["distinct"] for m in models), transitions=trans + sum(m["states"] for m in models),
                            traces_validated_against_impl=len(traces), events_validated=nev, samples=samples,
                            design_models=[{k: m[k] for k in ("name", "what", "distinct", "states", "wall")} for m in models],
                            calls=cover, known_findings_hit=nknown),
              assumptions=P["assumptions"], wall_s=round(time.time() - t0, 2), violations=nviol)
    with open(os.path.join(root, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed %d: %d sessions, %d events, %d states, %d models, %d disagreements, %.1f s" % (
        a.prop, a.tier, a.seed, len(traces), nev, ev["coverage"]["states"], len(models), nviol, time.time() - t0))
    return 1 if nviol else 0


def replay(prop, path, tmp):
    r = json.load(open(path))
    traces, bad, _, _ = run_plans([r["plan"]], tmp, 600)
    for b in bad:
        print("clause %r at event %d: %s" % (b["clause"], b["at"], json.dumps(traces[0]["ev"][b["at"] - 1])[:3000]))
    print("VIOLATION property=%s replay=%s" % (prop, path) if bad else "no disagreement")
    return 1 if bad else 0
