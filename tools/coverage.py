"""Which conditions do the sessions of each property reach, per class and method?  (development; nothing here is used by the checks)

  coverage.py PLANS.pkl PROP[,PROP] [--min N]     PLANS.pkl.PROP files as written by mutate.py plans
"""
import argparse
import collections
import multiprocessing as mp
import os
import pickle
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
sys.path.insert(0, "/repo")
import torch
import nnj

T = torch.Tensor
isT = lambda v: isinstance(v, T)
G = {
    "B==1": lambda s, x, val, a: x.shape[0] == 1,
    "B>4": lambda s, x, val, a: x.shape[0] > 4,
    "B>8": lambda s, x, val, a: x.shape[0] > 8,
    "B>16": lambda s, x, val, a: x.shape[0] > 16,
    "f32": lambda s, x, val, a: x.dtype == torch.float32,
    "x noncontig": lambda s, x, val, a: not x.is_contiguous(),
    "x grad": lambda s, x, val, a: x.requires_grad,
    "x numel>24": lambda s, x, val, a: x[0].numel() > 24,
    "x numel==1": lambda s, x, val, a: x[0].numel() == 1,
    "x 1st dim==1": lambda s, x, val, a: x.dim() > 1 and x.shape[1] == 1,
    "x 1st dim>4": lambda s, x, val, a: x.dim() > 1 and x.shape[1] > 4,
    "x zero": lambda s, x, val, a: bool((x == 0).any()),
    "x all neg": lambda s, x, val, a: bool((x[0] < 0).all()),
    "x big": lambda s, x, val, a: bool((x.abs() > 500).any()),
    "x tiny": lambda s, x, val, a: bool((x.abs() < 0.02).all()),
    "w>h": lambda s, x, val, a: x.dim() == 4 and x.shape[-1] > x.shape[-2],
    "w<h": lambda s, x, val, a: x.dim() == 4 and x.shape[-1] < x.shape[-2],
    "h==1|w==1": lambda s, x, val, a: x.dim() == 4 and min(x.shape[-2:]) == 1,
    "B==C": lambda s, x, val, a: x.dim() > 1 and x.shape[0] == x.shape[1] and x.shape[0] > 1,
    "samples equal": lambda s, x, val, a: x.shape[0] > 1 and torch.equal(x[0], x[-1]),
    "val None": lambda s, x, val, a: val is None,
    "val given": lambda s, x, val, a: val is not None,
    "val zero": lambda s, x, val, a: val is not None and bool((val == 0).any()),
    "a None": lambda s, x, val, a: a is None,
    "a list": lambda s, x, val, a: isinstance(a, list),
    "a noncontig": lambda s, x, val, a: isT(a) and not a.is_contiguous(),
    "a grad": lambda s, x, val, a: isT(a) and a.requires_grad,
    "a last>8": lambda s, x, val, a: isT(a) and a.shape[-1] > 8,
    "a last>16": lambda s, x, val, a: isT(a) and a.shape[-1] > 16,
    "a d1==1": lambda s, x, val, a: isT(a) and a.shape[1] == 1,
    "a last==1": lambda s, x, val, a: isT(a) and a.dim() > 2 and a.shape[-1] == 1,
    "a d1>last": lambda s, x, val, a: isT(a) and a.dim() > 2 and a.shape[-1] < a.shape[1],
    "a d1<last": lambda s, x, val, a: isT(a) and a.dim() > 2 and a.shape[-1] > a.shape[1],
    "a rows>16": lambda s, x, val, a: isT(a) and a.dim() > 2 and a.shape[1] > 16,
    "a zero": lambda s, x, val, a: isT(a) and bool((a == 0).any()),
    "a all zero": lambda s, x, val, a: isT(a) and not bool((a != 0).any()),
    "a neg": lambda s, x, val, a: isT(a) and bool((a < 0).any()),
    "a nonneg": lambda s, x, val, a: isT(a) and not bool((a < 0).any()),
    "a sym": lambda s, x, val, a: isT(a) and a.dim() == 3 and a.shape[1] == a.shape[2] > 1 and torch.equal(a, a.transpose(1, 2)),
    "a nonsym": lambda s, x, val, a: isT(a) and a.dim() == 3 and a.shape[1] == a.shape[2] and not torch.equal(a, a.transpose(1, 2)),
    "eval": lambda s, x, val, a: not s.training,
    "frozen": lambda s, x, val, a: any(not p.requires_grad for p in s.parameters()),
    "no bias": lambda s, x, val, a: getattr(s, "bias", 0) is None,
    "rect kernel": lambda s, x, val, a: isinstance(getattr(s, "kernel_size", 0), tuple) and s.kernel_size[0] != s.kernel_size[1],
    "k>3": lambda s, x, val, a: max(s.kernel_size) > 3,
    "padding": lambda s, x, val, a: getattr(s, "padding", 0) not in (0, (0, 0)),
    "c2>c1": lambda s, x, val, a: s.out_channels > s.in_channels,
    "c2<c1": lambda s, x, val, a: s.out_channels < s.in_channels,
    "out>in": lambda s, x, val, a: s.out_features > s.in_features,
    "out<in": lambda s, x, val, a: s.out_features < s.in_features,
    "out==1": lambda s, x, val, a: s.out_features == 1,
    "n layers==1": lambda s, x, val, a: len(s._modules) == 1,
    "n layers>3": lambda s, x, val, a: len(s._modules) > 3,
    "no params": lambda s, x, val, a: isinstance(s, (nnj.Sequential, nnj.SkipConnection)) and s._n_params == 0,
}
METHS = ("jacobian", "jvp", "vjp", "jmp", "mjp", "jmjTp", "jTmjp")
C = collections.Counter()
ARGS = {"jacobian": (), }


def wrap(cls, name):
    f = getattr(cls, name)

    def g(self, x, val=None, *rest, **kw):
        try:
            rest2 = list(rest)
            a = None
            if name != "jacobian":
                a = rest2.pop(0) if rest2 else kw.get("vector", kw.get("matrix"))
            wrt = kw.get("wrt") or (rest2[0] if rest2 and isinstance(rest2[0], str) else "input")
            fl = "" if name not in ("jmjTp", "jTmjp") else "%d%d%d" % (bool(kw.get("from_diag")), bool(kw.get("to_diag")), bool(kw.get("diag_backprop")))
            key = (cls.__name__, name, wrt[0] + fl)
            C[key + ("calls",)] += 1
            with torch.no_grad():
                for n, p in G.items():
                    try:
                        if p(self, x, val, a):
                            C[key + (n,)] += 1
                    except Exception:
                        pass
        except Exception:
            pass
        return f(self, x, val, *rest, **kw)

    setattr(cls, name, g)


def install():
    for n in dir(nnj):
        c = getattr(nnj, n)
        if isinstance(c, type) and issubclass(c, torch.nn.Module):
            for m in METHS:
                if hasattr(c, m):
                    wrap(c, m)


def go(ps):
    import engine
    torch.set_num_threads(1)
    C.clear()
    for p in ps:
        engine.drive_one(p)
    return dict(C)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("plans")
    ap.add_argument("props")
    ap.add_argument("--min", type=int, default=3)
    a = ap.parse_args()
    install()
    tot = collections.Counter()
    ps = [q[1] for p in a.props.split(",") for q in pickle.load(open(a.plans + "." + p, "rb"))]
    ch = [ps[i::64] for i in range(64)]
    with mp.get_context("fork").Pool(8) as pool:
        for d in pool.imap_unordered(go, ch):
            tot.update(d)
    keys = sorted({k[:3] for k in tot})
    for k in keys:
        low = ["%s:%d" % (g, tot[k + (g,)]) for g in G if tot[k + (g,)] < a.min]
        print("%s.%s/%s calls=%d  LOW %s" % (k + (tot[k + ("calls",)], "  ".join(low))))
