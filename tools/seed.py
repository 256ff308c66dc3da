"""Development tool: turns the bug descriptions of tools/bugs.py into seeded/<id>/ and confirms them.

  python3 tools/seed.py make [ID...]      write patch.diff, demo.sh, demo.py, meta.json
  python3 tools/seed.py confirm [ID...]   builds, passes the tests, demo passes without and fails with the patch
  python3 tools/seed.py check [ID...]     run the check of the bug's property against it
"""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
REPO = "/repo"
HEAD = '''import os, sys
sys.path.insert(0, os.getcwd())
import torch
import nnj
torch.manual_seed(0)
torch.set_default_dtype(torch.float64)


def flat(t):
    return t.reshape(t.shape[0], -1)


def jac_x(m, x):
    """Jacobian wrt input by automatic differentiation, one sample at a time"""
    out = []
    for b in range(x.shape[0]):
        xb = x[b : b + 1].detach()
        J = torch.autograd.functional.jacobian(lambda z: m(z), xb)
        n = m(xb).numel()
        out.append(J.reshape(n, -1))
    return torch.stack(out)


def jac_w(m, x):
    """Jacobian wrt the flat weights by automatic differentiation"""
    ps = list(m.parameters())
    out = []
    for b in range(x.shape[0]):
        y = m(x[b : b + 1]).reshape(-1)
        rows = []
        for i in range(y.numel()):
            g = torch.autograd.grad(y[i], ps, retain_graph=True, allow_unused=True)
            rows.append(torch.cat([(torch.zeros_like(p) if q is None else q).reshape(-1) for p, q in zip(ps, g)]))
        out.append(torch.stack(rows))
    return torch.stack(out)


def close(a, b, tol=1e-8):
    assert a is not None and a.shape == b.shape, (None if a is None else a.shape, b.shape)
    assert torch.isfinite(a).all(), "not finite"
    assert (a - b).abs().max() <= tol * (1 + b.abs().max()), (a - b).abs().max()


'''
SH = '''#!/bin/bash
# run in /repo: exit 0 if the property holds
export OMP_NUM_THREADS=1 MKL_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$(dirname "$(realpath "$0")")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def clean():
    sh(["git", "-C", REPO, "checkout", "--", "."])


def make(b):
    assert sh(["git", "-C", REPO, "status", "--porcelain"]).stdout.strip() == "", "/repo is not clean"
    for e in b["edits"]:
        f, old, new = e[0], e[1], e[2]
        nth = e[3] if len(e) > 3 else None
        p = os.path.join(REPO, f)
        s = open(p).read()
        n = s.count(old)
        assert n == 1 or nth is not None, (b["id"], f, old, n)
        if nth is None or nth == "all":
            assert n
            s = s.replace(old, new)
        else:
            parts = s.split(old)
            s = old.join(parts[: nth + 1]) + new + old.join(parts[nth + 1:])
        open(p, "w").write(s)
    diff = sh(["git", "-C", REPO, "diff"]).stdout
    clean()
    d = os.path.join(SEED, b["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(HEAD + b["demo"].strip() + "\n")
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)


def tests():
    sh(["bash", "/opt/vp/test.sh", "/tmp/seed_o.json"])
    return json.load(open("/tmp/seed_o.json"))


def confirm(i):
    d = os.path.join(SEED, i)
    clean()
    r = [sh(["bash", d + "/demo.sh"], cwd=REPO)]
    a = sh(["git", "-C", REPO, "apply", d + "/patch.diff"])
    if a.returncode:
        return "DOES NOT APPLY " + a.stderr
    try:
        bd = sh(["bash", "/opt/vp/build.sh"])
        t = tests()
        r.append(sh(["bash", d + "/demo.sh"], cwd=REPO))
    finally:
        clean()
    ok = r[0].returncode == 0 and r[1].returncode != 0 and not t["failed"] and len(t["passed"]) == 8 and bd.returncode == 0
    return "ok" if ok else "NOT OK clean=%d patched=%d build=%d failed=%s\n%s\n%s" % (
        r[0].returncode, r[1].returncode, bd.returncode, t["failed"], r[0].stderr[-500:], r[1].stderr[-300:])


def check(i, props=None):
    d = os.path.join(SEED, i)
    clean()
    sh(["git", "-C", REPO, "apply", d + "/patch.diff"], check=True)
    out = []
    try:
        for p in props or [json.load(open(d + "/meta.json"))["property"]]:
            c = sh(["python3", ROOT + "/harness/check.py", p, "--nomodels"])
            out.append("%s rc=%d %s" % (p, c.returncode, c.stdout.strip().split("\n")[-1][:110] if c.returncode < 2 else c.stdout[-300:] + c.stderr[-800:]))
    finally:
        clean()
    return "; ".join(out)


def main():
    sys.path.insert(0, os.path.join(ROOT, "tools"))
    import bugs
    what, ids = sys.argv[1], sys.argv[2:]
    by = {b["id"]: b for b in bugs.BUGS}
    for i in ids or list(by):
        if what == "make":
            make(by[i])
            print(i, "made")
        elif what == "confirm":
            print(i, confirm(i), flush=True)
        elif what == "check":
            print(i, check(i), flush=True)


if __name__ == "__main__":
    main()
