"""Runs TLC and reads what it says."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


def run(module, cfg, env=None, workers=8, timeout=800, heap="6g", extra=(), allow_violation=False, simulate=False):
    """returns dict(states, distinct, depth, out, violated)"""
    tmp = tempfile.mkdtemp(prefix="tlc")
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-Djava.io.tmpdir=" + tmp, "-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", os.path.join(tmp, "meta"), "-config", os.path.join(SPEC, cfg),
               "-noGenerateSpecTE", *extra, os.path.join(SPEC, module + ".tla")]
        t0 = time.time()
        log = os.path.join(tmp, "log")
        with open(log, "w") as f:
            p = subprocess.Popen(cmd, cwd=tmp, env=e, stdout=f, stderr=subprocess.STDOUT)
        err = None
        try:
            while p.poll() is None:
                time.sleep(0.05 if time.time() - t0 < 5 else 0.25)
                now = time.time()
                if now - t0 > timeout:
                    raise subprocess.TimeoutExpired("TLC on " + module, timeout)
                if err is None:
                    with open(log) as f:
                        err = now if "\nError: " in f.read() else None
                elif now - err > 20:  # explaining an error can take TLC forever
                    break
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
        with open(log) as f:
            out = f.read()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    r = dict(out=out, rc=p.returncode, wall=time.time() - t0,
             states=int(m[-1][0]) if m else 0, distinct=int(m[-1][1]) if m else 0)
    d = re.findall(r"depth of the complete state graph search is (\d+)", out)
    r["depth"] = int(d[-1]) if d else 0
    ok = "Model checking completed. No error has been found." in out
    if simulate:
        ok = p.returncode == 0 and "Error:" not in out
    r["violated"] = not ok and ("is violated" in out or "was violated" in out)
    if not ok and not (allow_violation and r["violated"]):
        raise TLCError("TLC failed on %s (%s):\n%s" % (module, cfg, (lambda i: out[i:i + 3000] if i >= 0 else out[-6000:])(out.find('Error:'))))
    return r


def judge(traces, tmpdir, workers=8, timeout=800, module="NnjTrace", cfg="NnjTrace.cfg"):
    """run the trace specification on recorded sessions; returns (list of bad events, stats)"""
    path = os.path.join(tmpdir, "trace.ndjson")
    with open(path, "w") as f:
        for t in traces:
            f.write(json.dumps(t, separators=(",", ":")) + "\n")
    r = run(module, cfg, env={"TRACE": path}, workers=workers, timeout=timeout)
    bad = []
    for line in r["out"].splitlines():
        m = re.match(r'^"?BAD (.*?)"?$', line.strip())
        if m:
            s = m.group(1)
            if line.strip().startswith('"'):
                s = s.replace('\\"', '"')
            bad.append(json.loads(s))
    n = len(re.findall(r"BAD ", r["out"]))
    if n != len(bad):
        raise TLCError("unreadable verdicts in TLC's output:\n" + r["out"][-3000:])
    return bad, r
