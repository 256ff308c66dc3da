"""Generates plans: sessions to run against the real code, one generator per property."""
import math
import random

import nets
from nets import LN2, n_params, out_shape, prod

OPS_FWD = ("jvp", "jmp", "jmjTp")
OPS_BWD = ("vjp", "mjp", "jTmjp")
FWDLESS = ("conv", "mp", "up", "upr", "bil", "sep")
MAX64 = 2 ** 29
MAX32 = 2 ** 19


def rnd_xs(rng, d, B, k, spread=False):
    s = [nets.ints(rng, prod(d), k) for _ in range(B)]
    if B > 1 and rng.random() < 0.06:  # equal samples
        q = rng.random()
        for b in range(1, B):
            if q < 0.5 or rng.random() < 0.5:
                s[b] = list(s[0])
    if rng.random() < 0.02:
        s[rng.randrange(B)] = [0] * prod(d)
    if spread and B > 1:  # one extreme sample
        s[rng.randrange(B)] = [v * 9 for v in s[0]]
    return {"d": list(d), "s": s}


def xmax(x):
    return max([abs(v) for r in x["s"] for v in r] + [1])


def arg_for(rng, m, d, op, wrt, fd, nn, lst, B, k, cols=None, sym=None, nonneg=False):
    """an integer argument per sample"""
    if op == "jac" or nn:
        return []
    nin = prod(d) if wrt == "input" else n_params(m)
    nout = prod(out_shape(m, d))
    n = nin if op in ("jvp", "jmp", "jmjTp") else nout

    style = rng.random()  # now and then arguments with some structure
    if style < 0.04:
        nonneg = True

    def row(q):
        if style < 0.04:
            return [abs(v) for v in nets.ints(rng, q, k)]
        if style < 0.07:
            return [0] * q
        if style < 0.10:
            r = [0] * q
            if q:
                r[rng.randrange(q)] = rng.choice([1, -1, k])
            return r
        if style < 0.12:
            return [1] * q
        return nets.ints(rng, q, k)

    def iv(q):
        return [abs(v) for v in row(q)] if nonneg else row(q)

    def mat(r, c):
        if 0.12 <= style < 0.15:
            return [[int(i == j) for j in range(c)] for i in range(r)]
        if 0.15 <= style < 0.18:
            return [[rng.randint(-k, k) if i == j else 0 for j in range(c)] for i in range(r)]
        return [row(c) for _ in range(r)]

    if op in ("jvp", "vjp"):
        return [iv(n) for _ in range(B)]
    if op == "jmp":
        c = cols or rng.randint(1, 4)
        return [mat(n, c) for _ in range(B)]
    if op == "mjp":
        c = cols or rng.randint(1, 4)
        return [mat(c, n) for _ in range(B)]
    if fd:
        return [iv(n) for _ in range(B)]
    if lst:
        return [[mat(n_params(l), n_params(l)) for l in nets.leaves(m) if n_params(l)] for _ in range(B)]
    out = []
    for _ in range(B):
        M = mat(n, n)
        if sym or 0.18 <= style < 0.26:
            M = [[M[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
        out.append(M)
    return out


def call(rng, m, x, xi, op, wrt, fd=False, td=False, db=False, nn=False, lst=False, o=1, k=2, val=None, lim=MAX64, cols=None,
         e="call", **kw):
    """a call step, or None if its integers would not stay exact"""
    d = x["d"]
    w = ("input", "weight") if db else (wrt,)  # with db the judge goes all the way back
    if max(nets.op_bound(m, d, xmax(x), op, v, k) for v in w) > lim:
        k = 1
        if max(nets.op_bound(m, d, xmax(x), op, v, k) for v in w) > lim:
            return None
    nonneg = kw.pop("nonneg", False)
    B = len(x["s"])
    a = arg_for(rng, m, d, op, wrt, fd, nn, lst, B, k, cols, nonneg=nonneg)
    if n_params(m) == 0 and wrt == "weight" and op in ("jmp", "jmjTp"):
        return None  # nothing to multiply with
    st = dict(e=e, o=o, x=xi, op=op, wrt=wrt, fd=fd, td=td, db=db, nn=nn, lst=lst, a=a,
              val=val or rng.choice(["none", "none", "self", "twin"]))
    if rng.random() < 0.1:
        st["ctx"] = rng.choice(["nograd", "grad", "inf"])
    if rng.random() < 0.25:  # leave out arguments that have their default value
        st["deflt"] = True
    if rng.random() < 0.2:
        st["style"] = rng.choice(["pos", "kw"])
    if rng.random() < 0.15:
        st["lay"] = rng.choice(["t", "s", "e"])
    if rng.random() < 0.05:
        st["arggrad"] = True
    if rng.random() < 0.05:
        st["valgrad"] = True
    st.update(kw)
    return st


def cost(m, d, op, wrt, B):
    """rough number of multiplications the judge needs"""
    nin = prod(d) if wrt == "input" else n_params(m)
    nout = prod(out_shape(m, d))
    width = max([prod(d), nout] + [1])
    dd = d
    tot = 0
    if m["t"] in nets.BOX:
        for l in m["ls"]:
            do = out_shape(l, dd)
            tot += prod(dd) * prod(do) * max(1, min(nin, nout, width))
            dd = do
    tot += nin * nout
    if op == "jTmjp":
        tot += nin * nout * nout + nin * nin * nout
    if op == "jmjTp":
        tot += nin * nin * nout + nout * nout * nin
    return tot * B


def pow2(rng, m):
    """the same network in units that are powers of two: (tree, unit of the input), or None"""
    if nets.has_kind(m, ("act", "pair", "cscale", "sten", "bil", "upr", "sep", "l2")):
        return None

    def go(m, s, free):
        m = dict(m)
        if m["t"] in ("lin", "conv"):
            m["so"] = s * 2.0 ** rng.randint(-5, 5) if free else s
            return m, m["so"]
        if m["t"] == "sq":
            return m, (s * s if free else None)
        if m["t"] in nets.BOX:
            ls = []
            s0 = s
            for l in m["ls"]:
                l, s = go(l, s, free and m["t"] == "seq")
                if s is None:
                    return m, None
                ls.append(l)
            m["ls"] = ls
            return m, (s if m["t"] == "seq" else s0)
        return m, s

    s0 = 2.0 ** rng.randint(-12, 12)
    m, s = go(m, s0, True)
    return None if s is None or not 2.0 ** -40 < s < 2.0 ** 40 else (m, s0)


# --------------------------------------------------------------------------
# network zoo
IMGS = [[1, 3, 3], [2, 3, 3], [2, 4, 3], [1, 5, 4], [3, 2, 3], [2, 4, 4], [1, 1, 6], [3, 1, 1], [1, 1, 1], [2, 2, 5], [1, 6, 1]]


SHAPES_ANY = [[4], [1], [6], [2], [2, 2, 2], [3, 1, 2], [3, 2], [1, 2, 3], [2, 3, 1], [1, 1, 1], [5, 2, 3], [3, 3, 3], [1, 4, 2], [2, 13], [40], [2, 1, 2, 2]]


def leaf_net(rng, kind):
    """(tree, input shape)"""
    if kind == "lin":
        hi = rng.choice([6] * 18 + [14, 14, 40])
        n = rng.randint(1, hi)
        return nets.gen_lin(rng, n, rng.randint(1, hi if hi < 40 or n < 8 else 6)), [n]
    if kind == "conv":
        d = rng.choice(IMGS) if rng.random() < 0.93 else rng.choice([[1, 7, 8], [2, 6, 5], [6, 2, 2], [1, 9, 2], [5, 1, 3], [1, 1, 12], [4, 3, 3], [1, 3, 11]])
        return nets.gen_conv(rng, d), d
    if kind == "mp":
        d = rng.choice([[1, 4, 4], [2, 3, 4], [3, 4, 2], [2, 5, 5], [1, 2, 7], [1, 4, 4], [2, 3, 4], [5, 2, 3], [1, 8, 7], [1, 1, 1], [2, 1, 5], [1, 6, 1], [3, 4, 5], [1, 4, 9]])
        return nets.gen_mp(rng, d), d
    if kind == "up":
        d = rng.choice([[1, 2, 2], [2, 2, 1], [2, 1, 3], [3, 2, 2], [1, 3, 3], [5, 1, 2], [1, 5, 4], [1, 1, 1], [2, 3, 4], [1, 1, 6], [4, 1, 1]])
        return {"t": "up", "f": rng.randint(1, 3 if prod(d) > 7 else 5), "how": {"float": rng.random() < 0.5}}, d
    if kind == "relu":
        return {"t": "relu"}, rng.choice(SHAPES_ANY)
    if kind == "flat":
        return {"t": "flat"}, rng.choice(SHAPES_ANY)
    if kind == "resh":
        d = rng.choice(SHAPES_ANY)
        n = prod(d)
        dims = rng.choice([[n], [1, n], [n, 1], [1, 1, n], d, d[::-1]] + ([[2, n // 2]] if n % 2 == 0 else []))
        return {"t": "resh", "dims": dims}, d
    if kind in ("sq", "pair", "cscale", "sten"):
        n = rng.randint(2, 5) if rng.random() < 0.9 else rng.randint(6, 20)
        if kind == "sq":
            return {"t": "sq", "how": {"diag": rng.random() < 0.5}}, rng.choice([[n], [n], rng.choice(SHAPES_ANY)])
        if kind == "sten":
            return {"t": "sten", "w": nets.ints(rng, 3, 3)}, [n]
        if kind == "pair":
            return {"t": "pair"}, [n]
        return {"t": "cscale", "w": nets.ints(rng, n, 3), "how": {"diag": rng.random() < 0.5}}, [n]
    raise KeyError(kind)


VEC_STD = ("lin", "relu", "lin", "flat", "seq", "skip")
VEC_CUSTOM = ("lin", "relu", "sq", "pair", "cscale", "seq", "skip", "pair", "cscale", "sten", "sten")


def vec_net(rng, depth=2, budget=4, kinds=VEC_STD, n=None, hi=5):
    n = n or rng.randint(1, 5)
    return {"t": "seq", "ls": nets.gen_vec(rng, n, depth, budget, kinds, hi=hi)}, [n]


def img_net(rng, depth=2, budget=4, maxn=40, head=None, d=None):
    d = d or rng.choice(IMGS[:6])
    ls = nets.gen_img(rng, d, depth, budget, maxn)
    if head is None:
        head = rng.random() < 0.5
    o = out_shape({"t": "seq", "ls": ls}, d)
    if head and len(o) == 3:
        ls = ls + [{"t": "flat"}, nets.gen_lin(rng, prod(o), rng.randint(1, 3))]
    return {"t": "seq", "ls": ls}, d


def dec_net(rng):
    """a decoder: vector -> image"""
    n = rng.randint(1, 4)
    c, h, w = rng.choice([(1, 2, 2), (2, 2, 1), (2, 1, 2), (1, 2, 3)])
    ls = [nets.gen_lin(rng, n, c * h * w), {"t": "relu"}, {"t": "resh", "dims": [c, h, w]}]
    d = [c, h, w]
    if rng.random() < 0.7:
        ls.append({"t": "up", "f": 2, "how": {}})
        d = [c, 2 * h, 2 * w]
    ls.append(nets.gen_conv(rng, d, small=True))
    if rng.random() < 0.4:
        ls.append({"t": "relu"})
    return {"t": "seq", "ls": ls}, [n]


def skip_vec(rng, kinds=VEC_STD):
    n = rng.randint(1, 4)
    return {"t": "skip", "ls": nets.gen_vec(rng, n, 1, 3, kinds)}, [n]


def skip_img(rng):
    d = rng.choice([[1, 3, 3], [2, 2, 3], [2, 3, 2]])
    inner = [nets.gen_conv(rng, d, small=True, same=True), {"t": "relu"}]
    if rng.random() < 0.5:
        inner.append(nets.gen_conv(rng, out_shape(inner[0], d), small=True, same=True))
    return {"t": "skip", "ls": inner}, d


def act_net(rng, B):
    """network with activations and a batch of inputs inside the tables"""
    for _ in range(500):
        n = rng.randint(1, 3)
        ls = nets.gen_act(rng, n)
        kind = rng.random()
        if kind < 0.2 and ls[-1]["t"] == "lin":
            m = {"t": "skip", "ls": ls}
        elif kind < 0.5:
            m = {"t": "seq", "ls": nets.group(rng, ls)}
        else:
            m = {"t": "seq", "ls": ls}
        S = []
        for _ in range(60):
            v = nets.ints(rng, n, 2)
            try:
                nets.eval_int(m, v)
            except OverflowError:
                continue
            S.append(v)
            if len(S) == B:
                break
        if len(S) == B:
            return m, {"d": [n], "s": S}
    raise RuntimeError("no activation network found")


ALIAS = ("flat", "resh", "relu", "skip", "seq", "flat", "skip", "lin")


def alias_net(rng):
    """compositions of layers that pass things through (possibly the very same tensors)"""
    k = rng.random()
    if k < 0.6:
        n = rng.randint(1, 4)
        ls = nets.gen_vec(rng, n, 2, 3, ALIAS, hi=3)
        return {"t": rng.choice(["seq", "skip"]), "ls": ls}, [n]
    d = rng.choice([[1, 2, 2], [2, 1, 3], [2, 2, 1], [3, 1, 1]])
    same = {"t": "resh", "dims": list(d)}
    lay = lambda: rng.choice([{"t": "relu"}, dict(same), {"t": "seq", "ls": [dict(same)]}, {"t": "seq", "ls": [{"t": "flat"}, dict(same)]}, {"t": "relu"}])
    ls = [lay() for _ in range(rng.randint(1, 3))]
    m = {"t": "skip", "ls": ls} if k < 0.9 else {"t": "seq", "ls": ls}
    if rng.random() < 0.3:
        m = {"t": "seq", "ls": [m, {"t": "flat"}] + ([{"t": "skip", "ls": [{"t": "relu"}]}] if rng.random() < 0.5 else [])}
    return m, d


RANKS = [[2, 3], [1, 2], [3, 1], [1, 1], [2, 2], [4, 1], [2, 1, 2, 1], [1, 1, 1, 2], [2, 2, 1], [1, 3], [1, 2, 1, 2, 1]]


def rank_layers(rng, d, depth, budget):
    """layers on samples of any rank, from shape d to any shape of the same trailing dimensions"""
    ls, cur = [], list(d)
    for _ in range(rng.randint(1, budget)):
        n = prod(cur)
        k = rng.random()
        if k < 0.25:
            new = [{"t": "relu"}]
        elif k < 0.35 and not any(l["t"] == "sq" for l in ls):
            new = [{"t": "sq", "how": {"diag": rng.random() < 0.5}}]
        elif k < 0.5 and n <= 6:  # through vectors and back
            q = rng.randint(1, 2)
            back = {"t": "resh", "dims": [q] + cur[1:]}
            new = [{"t": "flat"}, nets.gen_lin(rng, n, prod(back["dims"])), back]
        elif k < 0.6:
            new = [{"t": "resh", "dims": list(cur)}]
        elif k < 0.7 and depth:
            new = [{"t": "seq", "ls": rank_layers(rng, cur, depth - 1, 2)}]
        elif depth and n <= 6:
            new = [{"t": "skip", "ls": rank_layers(rng, cur, depth - 1, 2)}]
        else:
            new = [{"t": "relu"}]
        for l in new:
            ls.append(l)
            cur = out_shape(l, cur)
        if prod(cur) > 12:
            break
    return ls


def rank_net(rng):
    d = rng.choice(RANKS)
    ls = rank_layers(rng, d, 2, 3)
    t = rng.choice(["seq", "skip", "skip"])
    m = {"t": t, "ls": ls}
    if rng.random() < 0.3:
        o = out_shape(m, d)
        m = {"t": "seq", "ls": [m, {"t": "flat"}] + ([nets.gen_lin(rng, prod(o), rng.randint(1, 2))] if rng.random() < 0.5 else [])}
    return m, list(d)


def act_img(rng, B):
    """activations alone, on inputs of any rank, and between convolutions"""
    for _ in range(2000):
        a = rng.choice(["tanh", "sigm", "texp", "sin", "splus"])
        u = nets.ACT[a][0]
        A = {"t": "act", "a": a}
        k = rng.random()
        s0 = 1.0
        if k < 0.45:
            d = rng.choice([[3], [1], [2, 2], [2, 1, 2], [1, 2, 3]] if rng.random() < 0.6 else SHAPES_ANY)
            m, s0 = A, u
            if rng.random() < 0.5:
                ls = [A] + ([{"t": "flat"}] if rng.random() < 0.5 else [])
                m = {"t": "seq", "ls": ls}
        else:
            d = rng.choice([[1, 2, 2], [2, 2, 1], [1, 2, 3]])
            c = nets.gen_conv(rng, d, k=1, small=True)
            c["w"] = [v if rng.random() < 0.5 else 0 for v in c["w"]]
            c["b"] = [max(-1, min(1, v)) for v in c["b"]]
            c["so"] = u
            ls = [c, A]
            o = out_shape(c, d)
            if a != "splus" and rng.random() < 0.6:
                ls += rng.choice([[nets.gen_conv(rng, o, small=True)], [{"t": "flat"}, nets.gen_lin(rng, prod(o), rng.randint(1, 3))], [{"t": "up", "f": 2, "how": {}}]])
            m = {"t": "seq", "ls": ls if rng.random() < 0.7 else nets.group(rng, ls)}
        S = []
        for _ in range(80):
            v = nets.ints(rng, prod(d), rng.choice([1, 1, 2])) if not S or rng.random() < 0.96 else list(S[0])
            try:
                nets.eval_img(m, d, v)
            except OverflowError:
                continue
            S.append(v)
            if len(S) == B:
                return m, {"d": d, "s": S, "s0": s0}
    raise RuntimeError("no activation network found")


def act_one(rng, B):
    """an activation on its own"""
    a = rng.choice(["tanh", "sigm", "texp", "sin", "splus"])
    lo, hi = nets.ACT_RANGE[a]
    d = rng.choice(SHAPES_ANY)
    S = [[rng.randint(lo, hi) for _ in range(prod(d))] for _ in range(B)]
    return {"t": "act", "a": a}, {"d": d, "s": S, "s0": nets.ACT[a][0]}


def l2_net(rng, B):
    """L2Norm on its own or in front of other layers, for samples of one norm"""
    t = rng.choice([t for t in TRIPLES if len(t) > 1])
    n = len(t)
    S = []
    for _ in range(B):
        v = [q * rng.choice([1, -1]) for q in t]
        rng.shuffle(v)
        S.append(v)
    q = int(round(sum(v * v for v in t) ** 0.5))
    L = {"t": "l2", "e": rng.choice([1, 1, 2, 3, 5]), "q": q}
    d = rng.choice([[n], [n], [1, n, 1]] + ([[2, n // 2]] if n % 2 == 0 else []))
    ls = [L]
    if len(d) > 1 and rng.random() < 0.5:
        ls = [L, {"t": "flat"}]
    if len(d) == 1 and rng.random() < 0.6:
        k = rng.random()
        # no relu: sums that cancel in the integers need not cancel in this unit
        ls += nets.gen_vec(rng, n, 1, 2, ("lin", "flat", "seq"), hi=3)
        if k < 0.2:
            return {"t": "skip", "ls": ls}, {"d": d, "s": S}
    x = {"d": d, "s": S}
    return (L if len(ls) == 1 and rng.random() < 0.6 else {"t": "seq", "ls": nets.group(rng, ls) if rng.random() < 0.3 else ls}), x


def diag_leaf(m):
    return m["t"] in ("act", "relu") or (m["t"] in ("sq", "cscale") and m.get("how", {}).get("diag", True))


def uniform(m):
    """True if every unit is 1 (no activations)"""
    return not nets.has_kind(m, ("act", "bil", "sep", "sq")) and not any("so" in l for l in nets.leaves(m))


def batch(rng):
    return rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 7]) if rng.random() < 0.97 else rng.choice([9, 12, 17, 33])


def val_layout(rng, x, p=0.3):
    if rng.random() < p:
        x["lay"] = rng.choice(["t", "s"])
    return x


def smooth_out(m):
    """the values of a softplus are not tabulated"""
    return not any(l["t"] == "act" and l["a"] == "splus" for l in nets.leaves(m))


def dtype_of(rng):
    return "f32" if rng.random() < 0.3 else "f64"


def nohooks(rng, m):
    """the same compositions with other constructor options"""
    if m["t"] not in nets.BOX:
        return m
    m = dict(m, ls=[nohooks(rng, l) for l in m["ls"]])
    if rng.random() < 0.7:
        m["how"] = dict(m.get("how", {}), kw={"add_hooks": rng.random() < 0.3})
    return m


def names(rng, m):
    """the same compositions with names for their layers"""
    if m["t"] not in nets.BOX:
        return m
    m = dict(m, ls=[names(rng, l) for l in m["ls"]])
    if rng.random() < 0.8:
        m["how"] = dict(m.get("how", {}), names=rng.choice(["%d", "l%d", "layer_%d"]))
    return m


def authored(rng, m):
    """user-defined layers whose author returns the Jacobian in another layout, or remembers it"""
    if m["t"] in nets.BOX:
        return dict(m, ls=[authored(rng, l) for l in m["ls"]])
    if m["t"] in ("sq", "pair", "cscale", "sten") and rng.random() < 0.7:
        return dict(m, how=dict(m.get("how", {}), jl=rng.choice(["t", "s", "memo", "memo"])))
    return m


class Gen:
    """collects plans until the budgets are used up"""

    def __init__(self, prop, seed, budget_mults, max_plans):
        self.prop, self.seed = prop, seed
        self.left, self.max = budget_mults, max_plans
        self.plans = []
        self.n = 0
        self.cover = {}

    def full(self):
        return self.left <= 0 or len(self.plans) >= self.max

    def rng(self):
        self.n += 1
        return random.Random("%s/%s/%d" % (self.prop, self.seed, self.n))

    def noise(self, plan):
        """circumstances that must not matter: they go with any session"""
        rng = random.Random("noise/%s/%s/%d" % (self.prop, self.seed, len(self.plans)))
        for st in plan["steps"]:
            if st["e"] in ("new", "convert"):
                for k in ("nograd", "eval", "pgrad"):
                    if rng.random() < 0.06:
                        st.setdefault(k, True if k != "nograd" or rng.random() < 0.4 else rng.choice([2, 3]))
                if st["e"] == "convert" and rng.random() < 0.4:  # of the network that is converted
                    st["srcc"] = rng.choice([{"nograd": True}, {"nograd": 2}, {"nograd": 3}, {"eval": True}, {"pgrad": True}, {"eval": True, "nograd": 2}])
                if rng.random() < 0.12:
                    st["m"] = nohooks(rng, st["m"])
                if rng.random() < 0.2:
                    st["m"] = authored(rng, st["m"])
                if rng.random() < 0.08 and not any(q["e"] in ("edit", "refresh") for q in plan["steps"]):
                    st["m"] = names(rng, st["m"])
            elif st["e"] == "setw" and rng.random() < 0.4:
                st["same"] = True
            elif st["e"] == "lik" and rng.random() < 0.1:
                st["lay"] = rng.choice(["t", "s"])
        refill = {st["x"] for st in plan["steps"] if st["e"] == "refill"}
        for i, x in enumerate(plan.get("xs", ()), 1):
            if rng.random() < 0.07:
                x.setdefault("rg", rng.choice([1, 2]))
            if rng.random() < 0.1 and len(x["s"]) > 1 and "inf" not in x:
                if x.get("lay", "c") == "c" and i not in refill and all(v == x["s"][0] for v in x["s"]):
                    x["lay"] = "e"

    def casts(self, plan, rng, p=0.15):
        """now and then everything goes over to another floating dtype in between"""
        if rng.random() < p and len(plan["steps"]) > 2:
            dt = plan["dt"]
            steps = plan["steps"]
            for _ in range(rng.randint(1, 2)):
                dt = "f32" if dt == "f64" else "f64"
                i = rng.randint(2, len(steps))
                j = next((k for k, s in enumerate(steps) if s["e"] == "cast"), 0)
                if i <= j:
                    continue
                steps.insert(i, {"e": "cast", "dt": dt, "exact": True})
        return plan

    def add(self, plan, m, d, B):
        plan["steps"] = [s for s in plan["steps"] if s is not None]
        if m and not smooth_out(m):
            plan["steps"] = [s for s in plan["steps"] if s["e"] != "fwd"]
        calls = [s for s in plan["steps"] if s["e"] in ("call", "maycall", "fwd", "getw", "lik", "inv", "tab", "l2", "tied", "foreign")]
        if not calls:
            return
        self.noise(plan)
        c = sum(cost(m, d, s["op"], s["wrt"], B) for s in calls if s["e"] in ("call", "maycall")) if m else 1000
        self.left -= max(c, 200)
        plan["id"] = "%s.%s.%d" % (self.prop, self.seed, len(self.plans))
        if plan.get("xs") and "s0" in plan["xs"][0]:
            plan["s0"] = plan["xs"][0]["s0"]
        self.plans.append(plan)
        for s in calls:
            k = "/".join(str(s.get(q, "")) for q in ("e", "op", "wrt", "fd", "td", "nn")).rstrip("/")
            self.cover[k] = self.cover.get(k, 0) + 1


def nn_ok(m, x, c):
    """the identity the call leaves out is the identity in the units of the network too"""
    if not c.get("nn") or c["op"] not in ("jmjTp", "jTmjp"):
        return True
    _, _, R, C, _ = nets.units(m, x["d"], x.get("s0", 1.0))
    return len(set(R)) == 1 if c["op"] == "jTmjp" else c["wrt"] == "input" or len(set(C)) <= 1


def simple(g, rng, m, x, calls, dt=None, **kw):
    """one module, one input, a list of calls"""
    calls = [c for c in calls if nn_ok(m, x, c)]
    dt = dt or dtype_of(rng)
    lim = MAX64 if dt == "f64" else MAX32
    steps = [{"e": "new", "o": 1, "m": m}]
    for c in calls:
        steps.append(call(rng, m, x, 1, lim=lim, **c))
    if nets.op_bound(m, x["d"], xmax(x), "fwd", "input", 1) > lim:
        return
    g.add(dict(dt=dt, xs=[val_layout(rng, x)], steps=steps, **kw), m, x["d"], len(x["s"]))


def pick_net(rng, weights):
    kinds = [k for k, w in weights for _ in range(w)]
    k = rng.choice(kinds)
    if k == "vec":
        return vec_net(rng)
    if k == "vec1":
        return vec_net(rng, depth=0)
    if k == "cust":
        return vec_net(rng, kinds=VEC_CUSTOM, budget=3)
    if k == "img":
        return img_net(rng)
    if k == "dec":
        return dec_net(rng)
    if k == "imgc":
        d = rng.choice(IMGS[:6])
        return {"t": "seq", "ls": nets.gen_img(rng, d, 1, 4, 30, ("conv", "relu", "mp", "sq", "sq", "skip", "seq", "tovec"))}, d
    if k == "skipv":
        return skip_vec(rng)
    if k == "skipc":
        return skip_vec(rng, VEC_CUSTOM)
    if k == "skipi":
        return skip_img(rng)
    if k == "alias":
        return alias_net(rng)
    if k == "rank":
        return rank_net(rng)
    if k == "deep":
        return vec_net(rng, depth=4, budget=3, hi=3)
    return leaf_net(rng, k)


ALL = (("lin", 2), ("conv", 4), ("mp", 3), ("up", 2), ("relu", 1), ("flat", 1), ("resh", 1), ("vec", 4), ("img", 4), ("dec", 2),
       ("skipv", 2), ("skipi", 2), ("cust", 1), ("act", 4), ("alias", 3), ("deep", 2), ("actimg", 3), ("l2n", 1), ("act1", 1), ("imgc", 1), ("rank", 2))
FWDABLE = (("lin", 3), ("relu", 1), ("flat", 1), ("resh", 1), ("vec", 6), ("skipv", 4), ("cust", 2), ("act", 3), ("alias", 2), ("deep", 2), ("actimg", 1), ("l2n", 1), ("act1", 2), ("rank", 3))


def instance(rng, weights, B=None):
    """(tree, x)"""
    B = B or batch(rng)
    k = rng.choice([k for k, w in weights for _ in range(w)])
    if k == "act":
        return act_net(rng, B)
    if k == "actimg":
        return act_img(rng, B)
    if k == "act1":
        return act_one(rng, B)
    if k == "l2n":
        return l2_net(rng, B)
    m, d = pick_net(rng, ((k, 1),))
    x = rnd_xs(rng, d, B, rng.choice([2, 3, 3, 5]))
    if rng.random() < 0.25:
        u = pow2(rng, m)
        if u:
            m, x["s0"] = u
    return m, x


# --------------------------------------------------------------------------
# properties
def c01(g):
    while not g.full():
        rng = g.rng()
        m, x = instance(rng, ALL)
        cs = [dict(op="jac", wrt="input", deflt=rng.random() < 0.3)]
        if diag_leaf(m):
            cs.append(dict(op="jac", wrt="input", td=True))
        simple(g, rng, m, x, cs)


def c02(g):
    # one layer standing twice in a Sequential (a known finding)
    g.add(dict(dt="f64", xs=[{"d": [2], "s": [[1, 2], [-1, 3]]}], steps=[
        {"e": "new", "o": 1, "m": {"t": "lin", "w": [[1, 2], [-1, 1]], "b": [1, -1]}}, {"e": "new", "o": 2, "m": {"t": "relu"}},
        {"e": "share", "o": 3, "kind": "seq", "parts": [1, 2, 1]}, {"e": "tied", "o": 3, "x": 1, "path": [0, 2]}]), None, None, 2)
    while not g.full():
        rng = g.rng()
        m, x = instance(rng, ALL)
        cs = [dict(op="jac", wrt="weight")]
        if n_params(m) == 0:
            cs += [dict(op=o, wrt="weight") for o in ("vjp", "mjp", "jTmjp")]
            cs += [dict(op="jmjTp", wrt="weight", nn=True), dict(op="jmp", wrt="weight", nn=True)]
        plan_steps = simple(g, rng, m, x, cs)


def BIGC(rng, m):
    return [rng.choice([33, 64, 65, 129])] if n_params(m) < 25 and rng.random() < 0.2 else []


def c03(g):
    while not g.full():
        rng = g.rng()
        m, x = instance(rng, ALL if rng.random() < 0.25 else FWDABLE)
        cs = []
        for wrt in ("input", "weight"):
            cs.append(dict(op="jvp", wrt=wrt))
            for c in rng.sample([1, 2, 3, 5, nets.prod(x["d"]), rng.randint(6, 30)] + BIGC(rng, m), 2):
                cs.append(dict(op="jmp", wrt=wrt, cols=c))
        simple(g, rng, m, x, cs)


def c04(g):
    while not g.full():
        rng = g.rng()
        m, x = instance(rng, ALL)
        cs = []
        for wrt in ("input", "weight"):
            cs.append(dict(op="vjp", wrt=wrt))
            for c in rng.sample([1, 2, 3, 5, nets.prod(out_shape(m, x["d"])), rng.randint(6, 30)] + BIGC(rng, m), 2):
                cs.append(dict(op="mjp", wrt=wrt, cols=c))
        simple(g, rng, m, x, cs)


FLAGS = ((False, False), (False, True), (True, False), (True, True))


def c05(g):
    while not g.full():
        rng = g.rng()
        m, x = instance(rng, ALL if rng.random() < 0.1 else FWDABLE)
        cs = []
        for wrt in ("input", "weight"):
            for fd, td in FLAGS:
                cs.append(dict(op="jmjTp", wrt=wrt, fd=fd, td=td))
        if m["t"] in nets.BOX and n_params(m):
            for fd, td in FLAGS:
                cs.append(dict(op="jmjTp", wrt="weight", fd=fd, td=td, lst=True))
        rng.shuffle(cs)
        simple(g, rng, m, x, cs[:6])


def c06(g):
    while not g.full():
        rng = g.rng()
        m, x = instance(rng, ALL)
        if n_params(m) > 90 or prod(x["d"]) > 40:
            continue
        cs = [dict(op="jTmjp", wrt=wrt, fd=fd, td=td) for wrt in ("input", "weight") for fd, td in FLAGS]
        rng.shuffle(cs)
        simple(g, rng, m, x, cs[:5])


def c07(g):
    while not g.full():
        rng = g.rng()
        m, x = instance(rng, ALL)
        if n_params(m) > 90 or prod(x["d"]) > 40:
            continue
        uni = uniform(m) or m["t"] not in nets.BOX
        _, ou, R, C, Rw = nets.units(m, x["d"], x.get("s0", 1.0))
        runi = len(set(R)) == 1
        cuni = len(set(C)) <= 1
        cs = []
        for wrt in ("input", "weight"):
            cs += [dict(op="jmp", wrt=wrt, nn=True), dict(op="mjp", wrt=wrt, nn=True)]
            for fd, td in FLAGS:
                if wrt == "weight" or runi:
                    cs.append(dict(op="jTmjp", wrt=wrt, fd=fd, td=td, nn=True))
                if wrt == "input" or cuni:
                    cs.append(dict(op="jmjTp", wrt=wrt, fd=fd, td=td, nn=True))
        rng.shuffle(cs)
        simple(g, rng, m, x, [c for c in cs[:8]])


def c08(g):
    while not g.full():
        rng = g.rng()
        m, x = instance(rng, ALL)
        cs = [dict(op=op, wrt=wrt, fd=True, td=True, db=True, nonneg=rng.random() < 0.4) for op in ("jTmjp", "jmjTp") for wrt in ("input", "weight")]
        cs += [dict(op=op, wrt=wrt, fd=rng.random() < 0.3, td=True, db=True, nn=True) for op in ("jTmjp", "jmjTp") for wrt in ("input", "weight") if rng.random() < 0.4]
        simple(g, rng, m, x, cs)


def all_calls(rng, m, x, n=None, none_ok=True, fwd=False):
    """a random selection of every product"""
    cs = []
    for wrt in ("input", "weight"):
        cs += [dict(op=o, wrt=wrt) for o in ("jac", "jvp", "vjp", "jmp", "mjp")]
        cs += [dict(op=o, wrt=wrt, fd=fd, td=td) for o in ("jmjTp", "jTmjp") for fd, td in FLAGS]
        cs += [dict(op=o, wrt=wrt, fd=True, td=True, db=True) for o in ("jmjTp", "jTmjp")]
    if nets.has_kind(m, FWDLESS) and not fwd:
        cs = [c for c in cs if c["op"] not in OPS_FWD] + [dict(op="jvp", wrt="input")]
    rng.shuffle(cs)
    return cs[:n] if n else cs


def c20(g):
    while not g.full():
        rng = g.rng()
        m, x = instance(rng, (("sq", 2), ("pair", 3), ("cscale", 3), ("sten", 3), ("cust", 6), ("skipc", 3), ("imgc", 2)))
        cs = all_calls(rng, m, x, 9)
        cs += [dict(op=o, wrt=w, nn=True, fd=rng.random() < 0.5, td=rng.random() < 0.5) for o in ("jmp", "mjp", "jmjTp", "jTmjp") for w in ("input", "weight")]
        rng.shuffle(cs)
        cs = cs[:9]
        if diag_leaf(m):
            cs.append(dict(op="jac", wrt="input", td=True))
            if n_params(m):
                cs.append(dict(op="jac", wrt="weight", td=True))
        simple(g, rng, m, x, cs)



# --------------------------------------------------------------------------
# C09: results depend on the composed function only
def calls_on(rng, m, x, o, n, lim=MAX64, xi=1, **kw):
    return [call(rng, m, x, xi, o=o, lim=lim, **dict(c, **kw)) for c in all_calls(rng, m, x, n)]


def flat_layers(rng):
    """(list of layers, input shape)"""
    k = rng.random()
    if k < 0.55:
        n = rng.randint(1, 4)
        return nets.gen_vec(rng, n, 1, 5, ("lin", "relu", "lin", "flat", "skip", "sq"), hi=4), [n]
    if k < 0.67:
        d = rng.choice(RANKS)
        return rank_layers(rng, d, 1, 4), list(d)
    d = rng.choice(IMGS[:4])
    ls = nets.gen_img(rng, d, 1, 4, 24)
    o = out_shape({"t": "seq", "ls": ls}, d)
    if len(o) == 3 and rng.random() < 0.5:
        ls = ls + [{"t": "flat"}, nets.gen_lin(rng, prod(o), rng.randint(1, 3))]
    return ls, d


def like(rng, d, dout):
    """a layer from shape d to shape dout, or None"""
    if len(d) == 1 and len(dout) == 1:
        if d == dout and rng.random() < 0.4:
            return rng.choice([{"t": "relu"}, {"t": "flat"}, {"t": "seq", "ls": [{"t": "relu"}, nets.gen_lin(rng, d[0], d[0])]}])
        return nets.gen_lin(rng, d[0], dout[0])
    if d == dout:
        if len(d) == 3 and rng.random() < 0.4:
            c = nets.gen_conv(rng, d, small=True, same=True)
            if out_shape(c, d) == list(d):
                return c
        return rng.choice([{"t": "relu"}, {"t": "resh", "dims": list(d)}, {"t": "seq", "ls": [{"t": "flat"}, {"t": "resh", "dims": list(d)}]}])
    return None


def surgery(g):
    """histories of surgery and sharing, enumerated and sampled by TLC (spec/Surgery.tla)"""
    import tlc
    hs = read_hist(tlc.run("Surgery", "SurgeryGen2.cfg", workers=4)["out"])
    r0 = random.Random("surgery/%s" % g.seed)
    n = 6000 if g.thorough else 300
    if not g.thorough:
        hs = r0.sample(hs, min(len(hs), 400))
    for depth in (4, 6):
        r = tlc.run("Surgery", "SurgeryGen%d.cfg" % depth, workers=1, simulate=True,
                    extra=["-simulate", "num=%d" % n, "-depth", str(depth + 1), "-seed", str(sum(map(ord, str(g.seed))) * 104729 + depth)])
        h = read_hist(r["out"])
        hs += r0.sample(h, min(len(h), n))
    g.cover["surgery histories"] = len(hs)
    start = {"t": "seq", "ls": [{"t": "lin", "w": [[1, 2], [-1, 1]], "b": [1, -1]},
                                {"t": "seq", "ls": [{"t": "relu"}, {"t": "lin", "w": [[2, -1], [1, 1]], "b": []}]}]}
    for q in hs:
        rng = g.rng()
        x = rnd_xs(rng, [2], rng.randint(1, 3), 2)
        steps = [{"e": "new", "o": 1, "m": start}]

        def prods(o, tree, n):
            if nets.op_bound(tree, [2], xmax(x), "fwd", "input", 1) > MAX64:
                return []
            out = [{"e": "refresh", "o": o, "m": tree}] + calls_on(rng, tree, x, o, n)
            if rng.random() < 0.3:
                out.append({"e": "fwd", "o": o, "x": 1})
            if rng.random() < 0.3 and n_params(tree):
                out.append({"e": "getw", "o": o})
            return out

        if rng.random() < 0.5:
            steps += prods(1, start, 1)
        for a in q["h"]:
            k = a["a"]
            if k == "edit":
                steps.append({"e": "edit", "o": a["o"], "path": a["path"], "kind": a["kind"], "i": a["i"], "m": a["m"]})
            elif k == "slice":
                steps.append({"e": "slice", "o": a["o"], "to": a["to"], "a": a["from"], "b": a["upto"], "m": start})
            elif k == "share":
                steps.append({"e": "share", "o": a["o"], "kind": a["kind"], "parts": a["parts"]})
            elif k == "setw":
                steps.append({"e": "setw", "raw": True, "o": a["o"], "path": a["path"], "p": a["p"]})
            elif k == "copy":
                steps.append({"e": "copy", "o": a["o"], "to": a["to"], "how": a["how"]})
            else:
                steps += prods(a["o"], a["tree"], 2)
        for o, tree in enumerate(q["trees"], 1):
            steps += prods(o, tree, 2)
        g.add(dict(dt="f64", xs=[x], steps=steps), start, [2], len(x["s"]))


def c09(g):
    surgery(g)
    while not g.full():
        rng = g.rng()
        ls, d = flat_layers(rng)
        m = {"t": "seq", "ls": ls}
        x = rnd_xs(rng, d, rng.choice([1, 2, 3]), 3)
        if nets.op_bound(m, d, xmax(x), "fwd", "input", 1) > MAX64 or n_params(m) > 60:
            continue
        steps = [{"e": "new", "o": 1, "m": m}]
        kind = rng.choice(["group", "group", "slice", "edit", "edit", "share", "skip", "same object"])
        xs = [x]
        if kind == "group":
            t = {"t": "seq", "ls": nets.group(rng, ls, 3)}
            steps.append({"e": "new", "o": 2, "m": t})
            cs = all_calls(rng, m, x, 4)
            steps += [call(rng, m, x, 1, o=1, **c) for c in cs] + [call(rng, t, x, 1, o=2, **c) for c in cs]
            if rng.random() < 0.3:  # the parts themselves as Sequentials around single layers
                t2 = {"t": "seq", "ls": [{"t": "seq", "ls": [l]} for l in ls]}
                steps.append({"e": "new", "o": 3, "m": t2})
                steps += [call(rng, t2, x, 1, o=3, **c) for c in cs]
        elif kind == "slice":
            if len(ls) < 2:
                continue
            a = rng.randrange(len(ls))
            b = rng.randint(a + 1, len(ls))
            da = list(d)
            S = x["s"]
            if any(l["t"] not in ("lin", "relu", "flat", "sq", "skip", "seq") for l in ls[:a]):
                a, da = 0, list(d)
            for l in ls[:a]:
                try:
                    S = [nets.eval_int(l, v) for v in S]
                except NotImplementedError:
                    S = None
                    break
                da = out_shape(l, da)
            if S is None:
                continue
            t = {"t": "seq", "ls": ls[a:b]}
            x2 = {"d": da, "s": S}
            xs.append(x2)
            if rng.random() < 0.5:
                steps += calls_on(rng, m, x, 1, 2)
            steps.append({"e": "slice", "o": 1, "to": 2, "a": a, "b": b})
            if nets.op_bound(t, da, xmax(x2), "fwd", "input", 1) > MAX64:
                continue
            steps += calls_on(rng, t, x2, 2, 4, xi=2)
            if rng.random() < 0.5:
                steps += calls_on(rng, m, x, 1, 2)
        elif kind == "edit":
            cur = list(ls)
            steps += calls_on(rng, m, x, 1, 2)
            for _ in range(rng.randint(1, 3)):
                what = rng.choice(["append", "set", "del", "ins"])
                shapes = [list(d)]
                for l in cur:
                    shapes.append(out_shape(l, shapes[-1]))
                if what == "append":
                    new = like(rng, shapes[-1], [rng.randint(1, 3)] if len(shapes[-1]) == 1 else shapes[-1])
                    idx = len(cur)
                elif what == "set":
                    idx = rng.randrange(len(cur))
                    new = like(rng, shapes[idx], shapes[idx + 1])
                elif what == "ins":
                    idx = rng.randrange(len(cur) + 1)
                    new = like(rng, shapes[idx], shapes[idx])
                else:
                    cand = [k for k in range(len(cur)) if shapes[k] == shapes[k + 1]]
                    if not cand or len(cur) < 2:
                        continue
                    idx, new = rng.choice(cand), {"t": "flat"}
                if new is None:
                    continue
                if what == "append":
                    cur.append(new)
                elif what == "set":
                    cur[idx] = new
                elif what == "ins":
                    cur.insert(idx, new)
                else:
                    del cur[idx]
                t = {"t": "seq", "ls": list(cur)}
                if nets.op_bound(t, d, xmax(x), "fwd", "input", 1) > MAX64:
                    break
                steps.append({"e": "edit", "o": 1, "kind": what, "i": idx, "m": new})
                steps += calls_on(rng, t, x, 1, 3)
        elif kind == "share":
            t = {"t": "seq", "ls": [m]}
            k = rng.choice(["seq", "skip"]) if len(d) == len(out_shape(m, d)) and out_shape(m, d)[1:] == d[1:] else "seq"
            t = {"t": k, "ls": [m]}
            steps.append({"e": "share", "o": 2, "kind": k, "parts": [1]})
            seq = [(1, m), (2, t)]
            for _ in range(3):
                o, tt = rng.choice(seq)
                steps += calls_on(rng, tt, x, o, 1)
            if n_params(m):
                p = nets.ints(rng, n_params(m), 2)
                m2 = nets.with_params(m, p)
                t2 = {"t": k, "ls": [m2]}
                if max(nets.op_bound(q, d, xmax(x), "fwd", "input", 1) for q in (m2, t2)) > MAX64:
                    continue
                steps.append({"e": "setw", "o": 1, "p": p, "also": [2]})
                steps += calls_on(rng, t2, x, 2, 2) + calls_on(rng, m2, x, 1, 1)
        elif kind == "skip":
            if len(d) != len(out_shape(m, d)) or out_shape(m, d)[1:] != d[1:]:
                continue
            t = {"t": "skip", "ls": ls if rng.random() < 0.5 else nets.group(rng, ls, 2)}
            steps.append({"e": "new", "o": 2, "m": t})
            steps += calls_on(rng, t, x, 2, 5)
        else:  # the same parameter-free layer object at several places
            f = {"t": "relu", "share": 1} if rng.random() < 0.6 else {"t": "sq", "share": 1}
            new = []
            for l in ls:
                new.append(l)
                if rng.random() < 0.7 or len(new) == 1:
                    new.append(f)
            if not any(l is f for l in new):
                continue
            new.append(f)
            if f["t"] == "sq" and any(len(q) > 1 for q in [d]):
                continue
            t = {"t": "seq", "ls": new}
            if nets.op_bound(t, d, xmax(x), "fwd", "input", 1) > MAX64:
                continue
            steps.append({"e": "new", "o": 2, "m": t})
            steps += calls_on(rng, t, x, 2, 5)
        g.add(dict(dt="f64", xs=xs, steps=steps), m, d, len(x["s"]))


# --------------------------------------------------------------------------
# C10: histories, enumerated by TLC (spec/Cache.tla)
def cache_net(rng):
    """small networks whose feature maps matter; (tree, shape, path of an inner module)"""
    k = rng.randrange(12)
    L = nets.gen_lin
    if k == 0:
        return {"t": "seq", "ls": [L(rng, 3, 3), {"t": "relu"}, L(rng, 3, 2)]}, [3], [0]
    if k == 1:
        return {"t": "seq", "ls": [{"t": "seq", "ls": [L(rng, 2, 3), {"t": "sq"}]}, {"t": "seq", "ls": [L(rng, 3, 2), {"t": "relu"}]}, L(rng, 2, 2)]}, [2], [1]
    if k == 2:
        return {"t": "seq", "ls": [{"t": "skip", "ls": [L(rng, 2, 2), {"t": "relu"}]}, {"t": "sq"}, L(rng, 4, 2)]}, [2], [0]
    if k == 3:
        return {"t": "skip", "ls": [L(rng, 2, 3), {"t": "relu"}, L(rng, 3, 2)]}, [2], []
    if k == 4:
        return {"t": "seq", "ls": [dict(nets.gen_conv(rng, [1, 3, 3], same=True, small=True)), {"t": "relu"},
                                   {"t": "mp", "kh": 2, "kw": 2, "sh": 1, "sw": 1, "ph": 0, "pw": 0, "dh": 1, "dw": 1, "ceil": False, "how": {}}]}, [1, 3, 3], [2]
    if k == 5:
        return nets.gen_mp(rng, [2, 3, 3]), [2, 3, 3], []
    if k == 6:
        m = {"t": "mp", "kh": 2, "kw": 2, "sh": 2, "sw": 2, "ph": 0, "pw": 0, "dh": 1, "dw": 1, "ceil": False, "how": {"defstride": True}}
        return {"t": "seq", "ls": [m, {"t": "flat"}, L(rng, 4, 2)]}, [1, 4, 4], [0]
    if k == 7:
        return {"t": "seq", "ls": [{"t": "seq", "ls": [{"t": "seq", "ls": [L(rng, 2, 2), {"t": "relu"}]}]}, {"t": "relu", "how": {"inplace": True}}, L(rng, 2, 2)]}, [2], [0]
    if k == 8:
        return {"t": "skip", "ls": [nets.gen_conv(rng, [1, 2, 3], same=True, small=True), {"t": "relu"}]}, [1, 2, 3], []
    if k == 9:
        return {"t": "seq", "ls": [{"t": "pair"}, L(rng, 2, 2), {"t": "sq", "how": {"diag": False}}]}, [3], [1]
    if k == 10:
        return {"t": "seq", "ls": [L(rng, 2, 4), {"t": "relu"}, {"t": "resh", "dims": [1, 2, 2]}, {"t": "up", "f": 2, "how": {}},
                                   nets.gen_conv(rng, [1, 4, 4], small=True)]}, [2], [3]
    return {"t": "seq", "ls": [{"t": "skip", "ls": [{"t": "seq", "ls": [L(rng, 2, 2), {"t": "sq"}]}]}, L(rng, 4, 1)]}, [2], [0]


def inner_path(rng, m):
    """the way to some layer inside"""
    path = []
    while m["t"] in nets.BOX:
        i = rng.randrange(len(m["ls"]))
        path.append(i)
        m = m["ls"][i]
        if rng.random() < 0.5:
            break
    return path


def fits(m, d, S):
    """every sample stays inside the tables"""
    if not nets.has_kind(m, ("act",)):
        return True
    try:
        for v in S:
            nets.eval_img(m, d, v)
    except OverflowError:
        return False
    return True


def cache_act(rng):
    """the same with activations"""
    for _ in range(200):
        k = rng.randrange(4)
        n = rng.randint(1, 3)
        if k < 3:
            ls = nets.gen_act(rng, n, depth=0)
            m = {"t": "seq", "ls": ls if k else nets.group(rng, ls)}
            if not smooth_out(m):
                continue
            d, path = [n], [rng.randrange(len(m["ls"]))]
        else:
            d = rng.choice([[1, 2, 2], [1, 2, 3]])
            a = rng.choice(["tanh", "sigm", "texp", "sin"])
            c = nets.gen_conv(rng, d, k=1, small=True)
            c["w"] = [v if rng.random() < 0.5 else 0 for v in c["w"]]
            c["b"] = [max(-1, min(1, v)) for v in c["b"]]
            c["so"] = nets.ACT[a][0]
            m, path = {"t": "seq", "ls": [c, {"t": "act", "a": a}]}, [1]
        if fits(m, d, [[0] * prod(d)]):
            return m, d, path
    raise RuntimeError("no network")


def xs_in(rng, trees, d, B, k):
    """inputs that stay inside the tables of all the networks"""
    if not any(nets.has_kind(t, ("act",)) for t in trees):
        return rnd_xs(rng, d, B, k)
    S = []
    for _ in range(B):
        for j in range(80):
            v = nets.ints(rng, prod(d), 2 if j < 30 else 1)
            if all(fits(t, d, [v]) for t in trees):
                break
        else:
            return None
        S.append(v)
    return {"d": list(d), "s": S}


def weights_in(rng, m, d, xs):
    """new weights, or None"""
    n = n_params(m)
    if not nets.has_kind(m, ("act",)):
        return nets.ints(rng, n, 2)
    for j in range(60):
        p = [v if rng.random() < 0.3 + 0.01 * (60 - j) else 0 for v in nets.ints(rng, n, 1)]
        if all(fits(nets.with_params(m, p), d, x["s"]) for x in xs):
            return p
    return None


def histories(g):
    import tlc
    out = []
    r = tlc.run("Cache", "CacheGen.cfg", workers=4)
    out.append(read_hist(r["out"]))
    n, depth = (4000, 10) if g.thorough else (500, 8)
    r = tlc.run("Cache", "CacheWalk%d.cfg" % depth, workers=1, extra=["-simulate", "num=%d" % n, "-depth", str(depth + 1), "-seed", str(sum(map(ord, str(g.seed))) * 7919 + 1)],
                simulate=True)
    out.append(read_hist(r["out"]))
    g.cover["histories"] = [len(h) for h in out]
    return out


def read_hist(out):
    import json
    hs = []
    for line in out.splitlines():
        if line.startswith('"HIST '):
            hs.append(json.loads(line[6:-1].replace('\\"', '"')))
    hs = sorted(set(json.dumps(h, sort_keys=True) for h in hs))
    return [json.loads(h) for h in hs]


WRITES = ["inplace", "inplace", "data", "sgd", "state", "replace"]


def again(g, rng):
    """the same products before and after something changed: weights, input, contents of the input, dtype, mode"""
    m, x = instance(rng, ALL, B=rng.randint(1, 3))
    d = x["d"]
    B = len(x["s"])
    if n_params(m) > 60 or prod(d) > 36 or nets.has_kind(m, ("l2",)):
        return
    dt = dtype_of(rng)
    lim = MAX64 if dt == "f64" else MAX32
    xs = [x]
    at = 1  # the input in use
    steps = [{"e": "new", "o": 1, "m": m}]
    cs = all_calls(rng, m, x, rng.choice([1, 2, 2, 3]))
    cs = [dict(c, val=rng.choice(["none", "none", "self", "twin"])) for c in cs if nn_ok(m, x, c)]
    cur = m
    for k in range(rng.choice([2, 3, 3, 4])):
        if k:
            how = rng.choice(["w", "w", "w", "x", "x", "fill", "fill", "both", "peek", "mode", "copy"])
            if how in ("w", "both") and n_params(m):
                p = weights_in(rng, cur, d, xs)
                if p is None:
                    break
                cur = nets.with_params(cur, p)
                steps.append({"e": "setw", "o": 1, "p": p} if rng.random() < 0.5 else {"e": "pwrite", "o": 1, "p": p, "how": rng.choice(WRITES)})
            if how in ("x", "fill", "both", "peek"):
                x2 = xs_in(rng, [cur], d, len(xs[at - 1]["s"]) if how == "fill" else rng.choice([B, B, B + 1]), 3)
                if x2 is None:
                    break
                if "s0" in x:
                    x2["s0"] = x["s0"]
                xs.append(x2)
                if how == "fill":
                    steps.append({"e": "refill", "x": at, "to": len(xs)})
                if how == "peek":  # another input in between
                    steps.append({"e": "fwd", "o": 1, "x": len(xs)} if smooth_out(m) else None)
                else:
                    at = len(xs)
            if how == "copy":
                steps.append({"e": "copy", "o": 1, "to": 2, "how": rng.choice(["deepcopy", "pickle"])})
                if n_params(m):
                    p = weights_in(rng, cur, d, xs)
                    if p is None:
                        break
                    steps.append({"e": "setw", "o": 2, "p": p})
                    steps += [call(rng, nets.with_params(m, p), xs[at - 1], at, o=2, lim=lim, **c) for c in cs]
            if how == "mode":
                steps.append({"e": "mode", "o": 1, "train": rng.random() < 0.5})
        if nets.op_bound(cur, d, xmax(xs[at - 1]), "fwd", "input", 1) > lim:
            break
        steps += [call(rng, cur, xs[at - 1], at, lim=lim, **c) for c in cs]
    B = max(len(q["s"]) for q in xs)
    g.add(g.casts(dict(dt=dt, xs=xs, steps=[q for q in steps if q]), rng, 0.1), m, d, B)


def c10(g):
    g.max = int(g.max * 0.75)
    c10_histories(g)
    g.max = int(g.max / 0.75)
    while not g.full():
        again(g, g.rng())


def c10_histories(g):
    short, long = histories(g)
    r0 = random.Random("C10/%s" % g.seed)
    if not g.thorough and len(short) > g.max - len(long):
        short = r0.sample(short, max(1, g.max - len(long)))
    for h in short + long:
        rng = g.rng()
        m, d, path = cache_net(rng) if rng.random() < 0.75 else cache_act(rng)
        if rng.random() < 0.35:
            m = nohooks(rng, m)
        B = rng.randint(1, 3)
        xs = [xs_in(rng, [m], d, q, 3) for q in (B, B, B + rng.randint(1, 2))]
        if None in xs:
            continue
        steps = [{"e": "new", "o": 1, "m": m}]
        cur = {1: m}
        xi = {1: 1, 2: 2, 3: 3}  # which contents the tensor holds
        for a in h:
            k = a["a"]
            if k == "fwd":
                steps.append({"e": "fwd", "o": a["o"], "x": xi[a["x"]]})
            elif k == "refill":
                x2 = xs_in(rng, list(cur.values()), d, len(xs[a["x"] - 1]["s"]), 3)
                if x2 is None:
                    continue
                xs.append(x2)
                steps.append({"e": "refill", "x": xi[a["x"]], "to": len(xs)})
                xi[a["x"]] = len(xs)
            elif k == "inner":
                steps.append({"e": "inner", "o": a["o"], "x": xi[a["x"]], "path": inner_path(rng, m) if rng.random() < 0.6 else path, "other": rng.random() < 0.7,
                              "then": rng.sample(["vjp", "vjpw", "jvp", "jac", "jTmjp"], rng.choice([0, 1, 1, 2]))})
            elif k == "setw":
                n = n_params(m)
                p = weights_in(rng, cur[a["o"]], d, xs) if n else None
                if p:
                    cur[a["o"]] = nets.with_params(cur[a["o"]], p)
                    steps.append({"e": "setw", "o": a["o"], "p": p} if a["how"] == "set" else
                                 {"e": "pwrite", "o": a["o"], "p": p, "how": rng.choice(WRITES)})
            elif k == "copy":
                cur[2] = cur[1]
                steps.append({"e": "copy", "o": 1, "to": 2, "how": a["how"]})
            else:
                t = cur[a["o"]]
                x = xs[xi[a["x"]] - 1]
                cs = all_calls(rng, t, x, rng.choice([2, 2, 3]))
                v = a["v"]
                for c in cs:
                    steps.append(call(rng, t, x, xi[a["x"]], o=a["o"], val=v, **c))
                    v = "none" if v == "none" else rng.choice(["twin", v])
        g.add(g.casts(dict(dt=dtype_of(rng), xs=xs, steps=[q for q in steps if q], id0="h"), rng), m, d, B)
        if len(g.plans) >= g.max and not g.thorough:
            break
    # sessions in which several objects share layers, other entry points were used before, and unusual orders
    while not g.full():
        rng = g.rng()
        m, d, path = cache_net(rng)
        xs = [rnd_xs(rng, d, 2, 3), rnd_xs(rng, d, 2, 3)]
        steps = [{"e": "new", "o": 1, "m": m}, {"e": "share", "o": 2, "kind": "seq", "parts": [1]}]
        t = {"t": "seq", "ls": [m]}
        for _ in range(4):
            o, tt = rng.choice([(1, m), (2, t)])
            xi = rng.randint(1, 2)
            if rng.random() < 0.5:
                steps.append({"e": "fwd", "o": o, "x": xi})
            else:
                steps += [call(rng, tt, xs[xi - 1], xi, o=o, **c) for c in all_calls(rng, tt, xs[xi - 1], 2)]
        g.add(dict(dt="f64", xs=xs, steps=steps), m, d, 2)


# --------------------------------------------------------------------------
# C11: batches
def c11(g):
    while not g.full():
        rng = g.rng()
        big = rng.random()
        if big > 0.94:  # samples of different norms, the origin among them
            l2(g, rng)
            continue
        if big < 0.25:
            m, d, _ = cache_net(rng)
            B = rng.choice([8, 16, 17, 31, 32, 33, 64, 65, 100, 128])
            x = rnd_xs(rng, d, B, 3)
        else:
            m, x0 = instance(rng, ALL, B=1)
            d = x0["d"]
            B = rng.choice([1, 2, 3, 5, 8, 9])
            if nets.has_kind(m, ("l2",)):  # every sample has the same norm
                x = {"d": d, "s": [[v * rng.choice([1, -1]) for v in rng.sample(x0["s"][0], len(x0["s"][0]))] for _ in range(B)]}
            elif nets.has_kind(m, ("act",)):
                x = {"d": d, "s": [x0["s"][0]] * B, "s0": x0.get("s0", 1.0)}
                try:
                    for b in range(1, B):
                        for _ in range(10):
                            v = nets.ints(rng, prod(d), 2)
                            try:
                                nets.eval_img(m, d, v)
                            except OverflowError:
                                continue
                            x["s"] = x["s"][:b] + [v] + x["s"][b + 1:]
                            break
                except NotImplementedError:
                    pass
            else:
                x = rnd_xs(rng, d, B, 3)
                x["s0"] = x0.get("s0", 1.0)
                if rng.random() < 0.5 and B > 1:  # extreme neighbours
                    b = rng.randrange(B)
                    x["s"][b] = [v * rng.choice([10, 100]) for v in x["s"][b]]
                if rng.random() < 0.3 and B > 1:  # equal neighbours
                    x["s"][-1] = list(x["s"][0])
        if n_params(m) > 90 or prod(d) > 40:
            continue
        B = len(x["s"])
        xs = [x]
        if nets.op_bound(m, d, xmax(x), "fwd", "input", 1) > MAX64:
            continue
        steps = [{"e": "new", "o": 1, "m": m}, {"e": "fwd", "o": 1, "x": 1}]
        n = 1 if big < 0.25 else 2
        cs = all_calls(rng, m, x, n)
        if rng.random() < 0.2:
            cs += [dict(op=rng.choice(["jTmjp", "mjp"]), wrt=rng.choice(["input", "weight"]), nn=True)] if len(set(nets.units(m, d, x.get("s0", 1.0))[2])) == 1 else []
        steps += [call(rng, m, x, 1, **c) for c in cs]
        # neighbours that are infinite or not a number
        if B > 1 and big >= 0.25 and rng.random() < 0.4:
            inf = sorted(rng.sample(range(B), rng.randint(1, B - 1)))
            x2 = {"d": d, "s": x["s"], "inf": inf}
            xs.append(x2)
            steps += [{"e": "fwd", "o": 1, "x": 2}] + [call(rng, m, x2, 2, **dict(c, val="none")) for c in all_calls(rng, m, x, 2)]
        # a permutation and the samples one by one
        elif B > 1 and rng.random() < 0.5:
            perm = list(range(B))
            rng.shuffle(perm)
            x2 = {"d": d, "s": [x["s"][b] for b in perm]}
            b = rng.randrange(B)
            x3 = {"d": d, "s": [x["s"][b]]}
            xs += [x2, x3]
            for c in cs:
                steps += [call(rng, m, x2, 2, **c), call(rng, m, x3, 3, **c)]
        g.add(dict(dt=dtype_of(rng) if xmax(x) < 50 else "f64", xs=xs, steps=steps), m, d, B)


# --------------------------------------------------------------------------
# C12: purity
def c12(g):
    while not g.full():
        rng = g.rng()
        m, x = instance(rng, ALL)
        if n_params(m) > 60 or prod(x["d"]) > 36:
            continue
        dt = "f32" if rng.random() < 0.4 else "f64"
        lim = MAX64 if dt == "f64" else MAX32
        if nets.op_bound(m, x["d"], xmax(x), "fwd", "input", 1) > lim:
            continue
        if len(x["s"]) > 1 and rng.random() < 0.25:
            x["s"] = [x["s"][0]] * len(x["s"])
            x["lay"] = "e"
        else:
            x["lay"] = rng.choice(["c", "t", "s"])
        if rng.random() < 0.5 and x["lay"] != "e":
            x["rg"] = rng.choice([1, 2])
        steps = [{"e": "new", "o": 1, "m": m, "pgrad": rng.random() < 0.4, "nograd": rng.random() < 0.2, "eval": rng.random() < 0.2}]
        cs = all_calls(rng, m, x, 5)
        if m["t"] in nets.BOX and n_params(m) and not nets.has_kind(m, FWDLESS):
            fd, td = rng.choice(FLAGS)
            cs.append(dict(op="jmjTp", wrt="weight", fd=fd, td=td, lst=True))
        if len(set(nets.units(m, x["d"], x.get("s0", 1.0))[2])) == 1:
            cs.append(dict(op=rng.choice(["jTmjp", "mjp"]), wrt=rng.choice(["input", "weight"]), nn=True))
        for c in cs:
            steps.append(call(rng, m, x, 1, lim=lim, lay=rng.choice(["c", "t", "s"]), valgrad=rng.random() < 0.4, arggrad=rng.random() < 0.3, **c))
        g.add(dict(dt=dt, watch=True, xs=[x], steps=steps), m, x["d"], len(x["s"]))


# --------------------------------------------------------------------------
# C13: flat weights
def c13(g):
    while not g.full():
        rng = g.rng()
        k = rng.random()
        m, d = pick_net(rng, (("lin", 1), ("conv", 2), ("vec", 4), ("img", 3), ("skipv", 2), ("skipi", 2), ("cust", 1), ("dec", 1)))
        if n_params(m) == 0:
            continue
        s0 = 1.0
        if rng.random() < 0.15:
            m, d, _ = cache_act(rng)
        elif rng.random() < 0.2:
            m, s0 = pow2(rng, m) or (m, 1.0)
        n = n_params(m)
        x = xs_in(rng, [m], d, 2, 2)
        if x is None or not n:
            continue
        x["s0"] = s0
        steps = [{"e": "new", "o": 1, "m": m}, {"e": "getw", "o": 1}]
        cur = {1: m}
        for _ in range(rng.randint(2, 6)):
            o = rng.choice(sorted(cur))
            a = rng.choice(["setw", "setw", "scribble", "getscr", "pwrite", "pwrite", "rewrite", "copy", "fwd", "call", "jacw"])
            p = weights_in(rng, cur[o], d, [x])
            if p is None:
                continue
            if a in ("setw", "scribble", "pwrite"):
                st = {"e": a, "o": o, "p": p}
                if a == "setw":
                    st["lay"] = rng.choice(["c", "s"])
                if a == "pwrite":
                    st["how"] = rng.choice(WRITES)
                steps.append(st)
                cur[o] = nets.with_params(cur[o], p)
            elif a == "getscr":
                steps.append({"e": "getw", "o": o, "scribble": True})
            elif a == "rewrite":
                steps.append({"e": "rewrite", "o": o})
            elif a == "copy":
                how = rng.choice(["deepcopy", "pickle", "state"])
                steps.append({"e": "copy", "o": o, "to": 2, "how": how})
                cur[2] = cur[o]
            elif a == "fwd":
                if nets.op_bound(cur[o], d, xmax(x), "fwd", "input", 1) < MAX64:
                    steps.append({"e": "fwd", "o": o, "x": 1})
            elif a == "jacw":
                if n <= 60:
                    steps.append(call(rng, cur[o], x, 1, op="jac", wrt="weight", o=o))
            else:
                steps += calls_on(rng, cur[o], x, o, 1) if n <= 60 else []
            steps.append({"e": "getw", "o": o})
        o = rng.choice(sorted(cur))
        steps += [{"e": "getw", "o": o} for o in sorted(cur)]
        if nets.op_bound(cur[o], d, xmax(x), "fwd", "input", 1) < MAX64:
            steps.append({"e": "fwd", "o": o, "x": 1})
        small = max(nets.op_bound(t, d, xmax(x), "fwd", "input", 1) for t in cur.values()) < 1000
        plan = dict(dt=dtype_of(rng) if small else "f64", xs=[x], steps=[q for q in steps if q])
        g.add(g.casts(plan, rng, 0.2) if small else plan, m, d, 2)


# --------------------------------------------------------------------------
# C14, C15: likelihoods
def lik_net(rng, kind, sat):
    """(tree, xs, outputs per sample) -- the outputs stay small, in the unit of the logits"""
    n = rng.randint(1, 3)
    so = LN2 if kind != "gauss" and not sat else 1.0
    while True:
        k = rng.random()
        if kind == "gauss":
            so = rng.choice([1.0, 0.5]) if k >= 0.15 else 1.0
        hid = rng.randint(1, 3)
        no = rng.randint(1, 3) if kind != "cat" else rng.choice([1, 2, 2, 3, 4])
        wk = 1 if not sat else 3
        last = nets.gen_lin(rng, hid if k < 0.6 else n, no, k=wk)
        if sat:
            last["w"] = [[60 * v for v in r] for r in last["w"]]
            last["b"] = [60 * v for v in nets.ints(rng, no, 3)]
        last["so"] = so
        if k < 0.4:
            ls = [nets.gen_lin(rng, n, hid, k=1), {"t": "relu"}, last]
        elif k < 0.6:
            ls = [{"t": "seq", "ls": [nets.gen_lin(rng, n, hid, k=1), {"t": "relu"}]}, {"t": "seq", "ls": [last]}]
        else:
            ls = [last]
        shape = [no]
        if rng.random() < 0.3:
            shape = rng.choice([[1, no]] + ([[2, no // 2]] if no % 2 == 0 else []) + [[no, 1]] + ([[1, no, 1]] if kind != "cat" else [[1, 1, no]]))
            ls = ls + [{"t": "resh", "dims": shape}]
        m = {"t": "seq", "ls": ls}
        if k > 0.85 and len(shape) == 1:
            m = ls[0]
        if kind == "gauss" and k < 0.15 and len(shape) == 1:
            m = {"t": "skip", "ls": ls}
            shape = [n + no]
        B = rng.randint(1, 3)
        S, Y = [], []
        for _ in range(30):
            v = nets.ints(rng, n, 2)
            y = nets.eval_int(m, v)
            if kind != "gauss" and not sat and max(map(abs, y)) > 2:
                continue
            if sat:
                c = shape[-1]
                grp = [sorted(y[i:i + c]) for i in range(0, len(y), c)]
                if kind == "bin" and min(map(abs, y)) < 50:
                    continue
                if kind == "cat" and any(len(q) > 1 and q[-1] - q[-2] < 50 for q in grp):
                    continue
            S.append(v)
            Y.append(y)
            if len(S) == B:
                return m, dict({"d": [n], "s": S}, **({"gu": so} if kind == "gauss" and so != 1 else {})), Y, shape


def in_unit(m, u):
    m = dict(m)
    if m["t"] in ("lin", "conv"):
        m["so"] = u
    if m["t"] in nets.BOX:
        m["ls"] = [in_unit(l, u) for l in m["ls"]]
    return m


LN2R = round(LN2 * 2 ** 40) / 2 ** 40  # small multiples of it are exact, so that equal numbers are equal
WIDE = (("vec", 3), ("vec1", 2), ("img", 3), ("dec", 1), ("skipv", 2), ("skipi", 2), ("alias", 2), ("lin", 1), ("conv", 2), ("relu", 1), ("resh", 1),
        ("up", 1), ("mp", 1), ("deep", 1))


def lik_wide(rng, kind):
    """any model; logits close together or far apart, with offsets"""
    for _ in range(300):
        m, d = pick_net(rng, WIDE)
        if n_params(m) > 40 or prod(d) > 20 or nets.has_kind(m, ("sq", "pair", "cscale", "sten", "bil", "upr", "sep")):
            continue
        o = out_shape(m, d)
        if prod(o) > 12 and kind != "gauss" or prod(o) > 24:
            continue
        B = rng.choice([1, 2, 3, 5, 8, 17]) if prod(o) < 8 else rng.choice([1, 2, 3])
        if kind == "gauss":
            x = rnd_xs(rng, d, B, 3)
            if nets.op_bound(m, d, xmax(x), "fwd", "input", 1) > 2000:
                continue
            return m, x, [[int(nets.op_bound(m, d, xmax(x), "fwd", "input", 1))] * prod(o)] * B, o
        mode = rng.choice(["near", "far", "mixed"])
        if len(o) == 1 and rng.random() < 0.7:
            last = nets.gen_lin(rng, o[0], rng.choice([1, 2, 3, 4]), k=1, bias=True)
            last["w"] = [[v if rng.random() < 0.6 else 0 for v in r] for r in last["w"]]
            off = rng.choice([0, 0, 100, 1100, -1100, 2000]) if kind == "cat" else 0
            for i in range(len(last["w"])):
                if mode == "far" or mode == "mixed" and rng.random() < 0.5:
                    last["w"][i] = [64 * v for v in last["w"][i]]
                    last["b"][i] = 64 * last["b"][i]
                last["b"][i] += off
            if kind == "cat" and rng.random() < 0.2:  # offsets that differ between the samples
                q = rng.choice([64, 100])
                j = rng.randrange(o[0])
                for r in last["w"]:
                    r[j] += q
            m = {"t": "seq", "ls": (m["ls"] if m["t"] == "seq" else [m]) + [last]}
            o = out_shape(m, d)
            if rng.random() < 0.2:
                o = [1, prod(o)]
                m["ls"] = m["ls"] + [{"t": "resh", "dims": o}]
        c = o[-1]
        S, Y, tries = [], [], 0
        while len(S) < B and tries < 25 + 4 * B:
            tries += 1
            v = nets.ints(rng, prod(d), rng.choice([1, 1, 2]))
            y = nets.eval_img(m, d, v)[1]
            if kind == "bin":
                ok = all(abs(k) <= 3 or 60 <= abs(k) < 5000 for k in y)
            else:
                grp = [y[i:i + c] for i in range(0, len(y), c)]
                ok = max(map(abs, y)) < 5000 and all(max(q) - k <= 4 or max(q) - k >= 60 for q in grp for k in q)
            if ok:
                S.append(v)
                Y.append(y)
        if len(S) == B:
            return in_unit(m, LN2R), {"d": d, "s": S, "s0": LN2R}, Y, o
    return None


def lcm(*vs):
    import math
    r = 1
    for v in vs:
        r = r * v // math.gcd(r, v)
    return r


FAR = 60


def near_min(q):
    return min(k for k in q if max(q) - k < FAR)


def dens_of(kind, sat, Y, c):
    if kind == "gauss" or sat:
        return [1]
    out = []
    for y in Y:
        if kind == "bin":
            out += [1 + 2 ** abs(k) if abs(k) < FAR else 1 for k in y]
        else:
            for i in range(0, len(y), c):
                q = y[i:i + c]
                out.append(sum(2 ** (k - near_min(q)) for k in q if max(q) - k < FAR))
    return out


def lik_step(rng, m, x, Y, shape, kind, sat, op, wrt, agg, back, mshape, lim):
    import math
    B, no, c = len(Y), prod(shape), shape[-1]
    if kind == "gauss":
        td = rng.choice([1, 1, 2])
        gu = x.get("gu", 1.0)  # the unit of the outputs
        T = [nets.ints(rng, no, 3 * td) for _ in range(B)]
        if gu != 1 and td == 1 and rng.random() < 0.5:
            T = [[2 * v for v in t] for t in T]
    elif kind == "bin":
        td = rng.choice([1, 1, 2, 4])
        T = [[rng.randint(0, td) for _ in range(no)] for _ in range(B)]
    else:
        td = rng.choice([1, 1, 1, 2])
        T = []
        for _ in range(B):
            t = []
            for _ in range(no // c):
                q = [0] * c
                for _ in range(td):
                    q[rng.randrange(c)] += 1
                t += q
            T.append(t)
    dens = dens_of(kind, sat, Y, c)
    sc = 1 if op == "value" else lcm(*[td * q for q in dens]) if op == "grad" else lcm(*[q * q for q in dens])
    e2 = [sum(a * b for a, b in zip(t, y)) for t, y in zip(T, Y)]
    if kind == "bin":
        e2 = [e + td * sum(0 if k <= -FAR else -k if k >= FAR else max(0, -k) for k in y) for e, y in zip(e2, Y)]
    elif kind == "cat":
        e2 = [e - td * sum(near_min(y[i:i + c]) for i in range(0, len(y), c)) for e, y in zip(e2, Y)]
    spread = sum(max(map(abs, y)) for y in Y) if kind != "gauss" and not sat else 0  # what rounding adds up to
    if op == "value" and kind != "gauss" and not sat:
        tot = 1
        for q in dens:
            tot *= q
        if tot > lim or tot * sum(map(abs, e2)) > 2 ** 36 or lim < 2 ** 20 and tot * spread > 2 ** 14:
            return None
    d = x["d"]
    mx = max(abs(v) for y in Y for v in y) + 3
    if op != "value":
        res = sc * (mx if kind == "gauss" else 1)
        b = nets.op_bound(m, d, xmax(x), "vjp" if op == "grad" else "jTmjp", wrt, 1) * res * B
        if back == "approx" and op == "ggn":  # the judge goes all the way back
            b = max(b, nets.op_bound(m, d, xmax(x), "jTmjp", "input", 1) * res * B)
        if b > lim * 2 or lim < 2 ** 20 and b * spread > 2 ** 15:
            return None
    it = {"it": True} if td == 1 and rng.random() < 0.3 else {}  # integer targets
    if kind == "gauss" and gu != 1:
        if it and any(v % 2 for t in T for v in t):
            it = {}
        it["gu"] = gu
    return dict(it, e="lik", o=1, x=1, kind=kind, sat=sat, c=c, td=td, t=T, sc=sc, e2=e2, agg=agg, wrt=wrt, back=back, shape=mshape, op=op,
                deflt=rng.random() < 0.3, notarget=op == "ggn" and rng.random() < 0.5)


def lik(g, ops):
    while not g.full():
        rng = g.rng()
        kind = rng.choice(["gauss", "bin", "cat", "cat"])
        sat = kind != "gauss" and rng.random() < 0.3
        if rng.random() < 0.5:
            r = lik_wide(rng, kind)
            if r is None:
                continue
            (m, x, Y, shape), sat = r, False
        else:
            m, x, Y, shape = lik_net(rng, kind, sat)
        dt = "f64" if rng.random() < 0.8 or x.get("s0") == LN2R and nets.has_kind(m, ("relu", "mp")) else "f32"
        steps = [{"e": "new", "o": 1, "m": m}]
        for _ in range(4):
            op = rng.choice(ops)
            back = rng.choice(["exact", "approx"])
            mshape = "diag" if back == "approx" else rng.choice(["full", "diag"])
            steps.append(lik_step(rng, m, x, Y, shape, kind, sat, op, rng.choice(["input", "weight"]),
                                  rng.choice(["return all", "sum", "average"]), back, mshape, 2 ** 29 if dt == "f64" else 2 ** 11))
        g.add(dict(dt=dt, xs=[x], steps=steps), m, x["d"], len(x["s"]))


def c14(g):
    lik(g, ["value", "grad"])


def c15(g):
    lik(g, ["ggn"])


# --------------------------------------------------------------------------
# C16: conversion
def foreign_net(rng):
    """(layers of torch by name, shape of a sample): at least one of them unknown to the library, or with unusual options"""
    img = rng.random() < 0.55
    d = [rng.choice([2, 4]), 4, rng.choice([4, 6])] if img else [rng.choice([2, 4, 6])]
    net = []
    n = rng.randint(0, 2)

    def known(d):
        k = rng.random()
        if len(d) == 1:
            if k < 0.5:
                o = rng.choice([2, 4])
                return ["Linear", [d[0], o], {}], [o]
            return [rng.choice(["ReLU", "Tanh", "Sigmoid", "Softplus"]), [], {}], d
        if k < 0.5:
            return ["Conv2d", [d[0], 2, 3], {"padding": 1}], [2] + d[1:]
        return [rng.choice(["ReLU", "Tanh"]), [], {}], d

    for _ in range(n):
        q, d2 = known(d if not net else cur)
        net.append(q)
        cur = d2
    if not net:
        cur = d
    c = cur[0]
    vec = [["Dropout", [0.5], {}], ["LeakyReLU", [0.3], {}], ["ELU", [], {}], ["GELU", [], {}], ["SELU", [], {}], ["SiLU", [], {}], ["ReLU6", [], {}],
           ["Identity", [], {}], ["Hardtanh", [], {}], ["LayerNorm", [cur[-1]], {}], ["Tanhshrink", [], {}], ["Softsign", [], {}], ["PReLU", [], {}],
           ["LogSigmoid", [], {}], ["Softmax", [], {"dim": 1}], ["Softmin", [], {"dim": 1}], ["Threshold", [0.5, 2.0], {}], ["CELU", [], {"alpha": 2.0}],
           ["Flatten", [0], {}], ["Softshrink", [], {}], ["Mish", [], {}], ["AlphaDropout", [0.5], {}]]
    if len(cur) == 1:
        f = rng.choice(vec + [["BatchNorm1d", [c], {}], ["Unflatten", [1, [c // 2, 2]], {}], ["Flatten", [0, 1], {}]])
    else:
        f = rng.choice(rng.choice([vec, [
            ["AvgPool2d", [2], {}], ["AvgPool2d", [2], {"stride": 1}], ["AdaptiveAvgPool2d", [2], {}], ["AdaptiveMaxPool2d", [[2, 3]], {}],
            ["LPPool2d", [2, 2], {}], ["FractionalMaxPool2d", [2], {"output_size": 2}], ["MaxPool2d", [2], {"return_indices": True}],
            ["MaxPool3d", [[1, 2, 2]], {}], ["MaxPool1d", [2], {}] if False else ["AvgPool3d", [[1, 2, 2]], {}], ["BatchNorm2d", [c], {}],
            ["InstanceNorm2d", [c], {}], ["GroupNorm", [1, c], {}], ["Dropout2d", [0.5], {}], ["PixelShuffle", [1], {}], ["PixelUnshuffle", [2], {}],
            ["ZeroPad2d", [1], {}], ["ReflectionPad2d", [1], {}], ["ReplicationPad2d", [[1, 0, 2, 0]], {}], ["ConstantPad2d", [1, 2.0], {}],
            ["Flatten", [2], {}], ["Flatten", [1, 2], {}], ["Flatten", [2, 3], {}], ["Flatten", [], {"start_dim": -2}], ["Flatten", [-3, -1], {}],
            ["ConvTranspose2d", [c, 2, 3], {}], ["ConvTranspose2d", [c, c, 1], {}], ["UpsamplingNearest2d", [], {"scale_factor": 2}],
            ["UpsamplingBilinear2d", [], {"scale_factor": 2}], ["Upsample", [], {"scale_factor": 2, "mode": "bicubic"}],
            ["Upsample", [], {"scale_factor": 2, "mode": "bilinear", "align_corners": True}], ["Upsample", [], {"size": [5, 3], "mode": "bilinear", "align_corners": False}],
            ["Upsample", [], {"scale_factor": 2, "mode": "nearest-exact"}], ["Upsample", [], {"scale_factor": 1.5, "mode": "nearest-exact"}],
            ["Upsample", [], {"scale_factor": 2.5, "mode": "bilinear", "recompute_scale_factor": True}], ["Upsample", [], {"scale_factor": 0.5, "mode": "area"}],
            ["Softmax2d", [], {}], ["ChannelShuffle", [2 if c % 2 == 0 else 1], {}], ["Unfold", [2], {}], ["LocalResponseNorm", [2], {}],
            ["Conv2d", [c, 2, 3], {"padding": "same"}], ["Conv2d", [c, 2, [2, 3]], {"padding": "same", "dilation": [1, 2]}], ["Conv2d", [c, 2, 3], {"padding": "valid"}],
            ["Conv2d", [c, 2, 3], {"padding": "same", "padding_mode": "circular"}], ["Conv2d", [c, 2, 3], {"padding": [2, 1], "padding_mode": "reflect", "stride": 2}],
        ]]))
    net.append(f)
    if rng.random() < 0.3 and f[0] not in ("MaxPool2d", "Flatten"):
        net.append(["Tanh", [], {}])
    if rng.random() < 0.3:
        i = rng.randint(0, len(net) - 1)
        net[i] = ["Sequential", net[i:i + 1]]
    return ["Sequential", net], d


def c16(g):
    while not g.full():
        rng = g.rng()
        k = rng.random()
        may = False
        kw = {}
        if rng.random() < 0.12:
            net, d = foreign_net(rng)
            g.add(dict(dt="f64", xs=[rnd_xs(rng, d, rng.randint(2, 3), 3)], steps=[{"e": "foreign", "net": net, "eval": rng.random() < 0.3}]), None, d, 2)
            continue
        if k < 0.3:
            m, d = vec_net(rng, kinds=("lin", "relu", "flat", "seq"))
        elif k < 0.6:
            m, d = img_net(rng)
            if nets.has_kind(m, ("resh",)) and rng.random() < 0.5:
                continue
        elif k < 0.75:
            B = rng.randint(1, 3)
            m, x = act_net(rng, B)
            if m["t"] != "seq":
                continue
            d = x["d"]
        else:
            may = True
            leaf, d = odd_layer(rng)
            if leaf is None:
                continue
            ls = [leaf]
            o = out_shape(leaf, d)
            if min(o) < 1:
                continue
            if rng.random() < 0.4:
                ls.append({"t": "relu"})
            if rng.random() < 0.4:
                ls += [{"t": "flat"}, nets.gen_lin(rng, prod(o), 2)]
            m = {"t": "seq", "ls": ls}
        if nets.has_kind(m, ("skip",)) and rng.random() < 0.5:
            continue
        if k < 0.6 or k >= 0.75:
            x = rnd_xs(rng, d, rng.randint(1, 3), 3)
        if nets.op_bound(m, d, xmax(x), "fwd", "input", 1) > MAX64 or n_params(m) > 90 or prod(d) > 60:
            continue
        steps = [{"e": "convert", "o": 1, "src": 2, "m": m, "may": may}, {"e": "fwd", "o": 1, "x": 1}, {"e": "fwd", "o": 2, "x": 1}]
        for c in all_calls(rng, m, x, 3):
            steps.append(call(rng, m, x, 1, e="maycall" if may else "call", **c))
        if not may and m["t"] == "seq" and rng.random() < 0.15:  # a network of the library with the weights of the torch one, by name
            steps.append({"e": "copy", "o": 2, "to": 3, "how": "state"})
            steps.append({"e": "fwd", "o": 3, "x": 1})
            steps += calls_on(rng, m, x, 3, 1)
        g.add(dict(dt="f64", xs=[x], steps=steps), m, d, len(x["s"]))
        if rng.random() < 0.1:
            tab(g, rng, "splus", rng.choice([1, 2]), rng.choice([1, 2, 3, None]), "convert")


# --------------------------------------------------------------------------
# C17: inversion
def spd(rng, n, ldl):
    L = [[(1 if i == j else rng.randint(-1, 1) if j < i and (n < 7 or i < 4 and j < 4 or rng.random() < 0.08) else 0) for j in range(n)] for i in range(n)]
    if n > 6:  # keep the inverse small: every row depends on few others
        for i in range(n):
            nz = [j for j in range(i) if L[i][j]]
            for j in nz[:-1]:
                L[i][j] = 0
    D = [rng.choice([1, 1, 2, 4, 8]) if ldl else 1 for _ in range(n)]
    return [[sum(L[i][k] * D[k] * L[j][k] for k in range(n)) for j in range(n)] for i in range(n)]


def c17(g):
    while not g.full():
        rng = g.rng()
        ldl = rng.random() < 0.5
        B = rng.choice([1, 1, 2, 3, 5, 9])
        how = rng.choice(["batch", "batch", "2d"])
        if how == "2d":
            B = 1

        def struct(depth):
            if depth == 0 or rng.random() < 0.3:
                return rng.randint(1, 6) if rng.random() < 0.85 else rng.randint(7, 24)
            return [struct(depth - 1) for _ in range(rng.randint(1, 3))]

        s = struct(rng.choice([0, 1, 1, 2, 3]))

        def fill(s):
            return dict(k="m", r=spd(rng, s, ldl)) if isinstance(s, int) else dict(k="l", r=[fill(v) for v in s])

        def same(s):
            return [fill(s) for _ in range(B)]

        den = rng.choice([1, 1, 1, 2 ** 10, 2 ** 20]) if rng.random() < 0.5 else 1
        lay = rng.choice(["c", "t", "s"])
        plan = dict(dt="f64", xs=[], steps=[dict(e="inv", a=same(s), how=how, sc=8, den=den, lay=lay)])
        if rng.random() < 0.25 and not ldl:
            plan["dt"] = "f32"
            plan["steps"][0]["a"] = [fill2(rng, s) for _ in range(B)]
        g.add(plan, None, None, B)


def fill2(rng, s):
    """well conditioned for float32"""
    if not isinstance(s, int):
        return dict(k="l", r=[fill2(rng, v) for v in s])
    n = s
    D = [rng.choice([1, 2, 4, 8]) for _ in range(n)]
    M = [[D[i] if i == j else 0 for j in range(n)] for i in range(n)]
    if n > 1 and rng.random() < 0.7:
        i, j = rng.sample(range(n), 2)
        M[i][i], M[j][j] = 2, 1
        M[i][j] = M[j][i] = rng.choice([-1, 1])
    return dict(k="m", r=M)


# --------------------------------------------------------------------------
# C18: configurations a layer may refuse
def odd_layer(rng):
    """(layer, shape)"""
    k = rng.random()
    if k < 0.55:  # convolutions
        g_ = rng.choice([1, 1, 1, 2, 2, 3])
        c1 = g_ * rng.choice([1, 1, 2])
        c2 = g_ * rng.choice([1, 1, 2])
        d = [c1, rng.randint(1, 5), rng.randint(1, 5)]
        if prod(d) > 45:
            return None, None
        kh, kw = rng.randint(1, 3), rng.randint(1, 3)
        dh, dw = rng.choice([1, 1, 2]), rng.choice([1, 1, 2])
        sh, sw = rng.choice([1, 1, 1, 2]), rng.choice([1, 1, 1, 2])
        pm = rng.choice(["zeros", "zeros", "circular", "reflect", "replicate"])
        ph, pw = rng.randint(0, 4), rng.randint(0, 4)
        if pm != "zeros":
            ph, pw = rng.randint(0, 2), rng.randint(0, 2)
        if pm in ("reflect",) and (ph >= d[1] or pw >= d[2]):
            return None, None
        if pm == "circular" and (ph > d[1] or pw > d[2]):
            return None, None
        m = {"t": "conv", "c1": c1, "c2": c2, "kh": kh, "kw": kw, "ph": ph, "pw": pw, "sh": sh, "sw": sw, "dh": dh, "dw": dw, "g": g_, "pm": pm,
             "w": nets.ints(rng, c2 * (c1 // g_) * kh * kw, 2), "b": nets.ints(rng, c2, 2) if rng.random() < 0.6 else [],
             "how": {"vmap": rng.random() < 0.6}}
        o = out_shape(m, d)
        if min(o) < 1 or prod(o) > 80:
            return None, None
        return m, d
    d = [rng.randint(1, 2), rng.randint(1, 4), rng.randint(1, 4)]
    if k < 0.72 and rng.random() < 0.5:  # other ways of resampling
        how = rng.choice(["area", "exact", "align", "bilin"])
        oh, ow = rng.randint(1, 5), rng.randint(1, 5)
        kw = {"size": (oh, ow)}
        if rng.random() < 0.4:
            f = rng.choice([1, 2])
            oh, ow = d[1] * f, d[2] * f
            kw = {"scale_factor": f}
        if prod(d) * oh * ow > 400:
            return None, None
        kw["mode"] = {"area": "area", "exact": "nearest-exact"}.get(how, "bilinear")
        if how in ("align", "bilin") and (how == "align" or rng.random() < 0.5):
            kw["align_corners"] = how == "align"

        def q(O, L):
            if how == "area":
                r = 1
                for a in range(O):
                    n = -(-(a + 1) * L // O) - a * L // O
                    r = r * n // math.gcd(r, n)
                return r
            return {"exact": 1, "align": max(O - 1, 1), "bilin": 2 * O}[how]

        return {"t": "sep", "k": how, "oh": oh, "ow": ow, "qh": q(oh, d[1]), "qw": q(ow, d[2]), "how": {"kw": kw}}, d
    if k < 0.65:
        f = rng.choice([1, 2, 3])
        kw = rng.choice([{"scale_factor": f}, {"scale_factor": float(f)}])
        return {"t": "bil", "f": f, "how": {"kw": dict(kw, mode="bilinear")}}, d
    if k < 0.85:  # nearest, unusual sizes
        how = rng.choice(["size", "size1", "scale", "scale2", "scalerec"])
        kw = {"mode": "nearest"} if rng.random() < 0.5 else {}
        if how == "size":
            oh, ow = rng.randint(1, 7), rng.randint(1, 7)
            kw["size"] = (oh, ow)
            return {"t": "upr", "oh": oh, "ow": ow, "rn": d[1], "rd": oh, "cn": d[2], "cd": ow, "how": {"kw": kw}}, d
        if how == "size1":
            s = rng.randint(1, 7)
            kw["size"] = s
            return {"t": "upr", "oh": s, "ow": s, "rn": d[1], "rd": s, "cn": d[2], "cd": s, "how": {"kw": kw}}, d
        if how == "scale2":
            a, b = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
            kw["scale_factor"] = (a, b) if rng.random() < 0.5 else (float(a), float(b))
            return {"t": "upr", "oh": d[1] * a, "ow": d[2] * b, "rn": 1, "rd": a, "cn": 1, "cd": b, "how": {"kw": kw}}, d
        # quarters are exact in binary
        q, q2 = rng.choice([2, 3, 5, 6, 7, 8, 10]), rng.choice([2, 3, 4, 5, 6, 8])
        if how == "scale":
            q2 = q
            kw["scale_factor"] = q / 4
        else:
            kw["scale_factor"] = (q / 4, q2 / 4)
        oh, ow = d[1] * q // 4, d[2] * q2 // 4
        if min(oh, ow) < 1:
            return None, None
        if how == "scalerec":
            kw["recompute_scale_factor"] = True
            return {"t": "upr", "oh": oh, "ow": ow, "rn": d[1], "rd": oh, "cn": d[2], "cd": ow, "how": {"kw": kw}}, d
        # torch copies when the size stays and halves the index when it doubles, whatever the factor says
        if any(o in (L, 2 * L) and q_ * L != 4 * o for o, L, q_ in ((oh, d[1], q), (ow, d[2], q2))):
            return None, None
        return {"t": "upr", "oh": oh, "ow": ow, "rn": 4, "rd": q, "cn": 4, "cd": q2, "how": {"kw": kw}}, d
    m = nets.gen_mp(rng, rng.choice([[1, 4, 4], [2, 3, 4], [1, 5, 3]]))
    return m, rng.choice([[1, 4, 4], [2, 3, 4], [1, 5, 3]])


def c18(g):
    while not g.full():
        rng = g.rng()
        if rng.random() < 0.8:
            m, d = odd_layer(rng)
            if m is None:
                continue
            o = out_shape(m, d)
            if min(o) < 1:
                continue
            may = True
            j = rng.random()
            if j < 0.2:
                m = {"t": "seq", "ls": [m, {"t": "flat"}, nets.gen_lin(rng, prod(o), 2)]}
            elif j < 0.35:
                m = {"t": "seq", "ls": [{"t": "relu"}, m]}
            x = rnd_xs(rng, d, rng.choice([1, 2, 3]), 3)
            cs = all_calls(rng, m, x, fwd=True)
            if len(set(nets.units(m, d, x.get("s0", 1.0))[2])) == 1:
                cs += [dict(op=op, wrt=w, nn=True) for op in ("mjp", "jmp", "jTmjp") for w in ("input", "weight")]
            rng.shuffle(cs)
            cs = cs[:8]
        else:  # flags that do not go together
            m, x = instance(rng, ALL)
            if m["t"] == "l2":  # AbstractJacobian itself takes diag_backprop to mean that both ends are diagonal
                continue
            d = x["d"]
            cs = []
            for _ in range(5):
                fd, td = rng.choice(FLAGS[:3])
                cs.append(dict(op=rng.choice(["jmjTp", "jTmjp"]), wrt=rng.choice(["input", "weight"]), fd=fd, td=td, db=True, dbflag=True))
        if n_params(m) > 90 or prod(d) > 60:
            continue
        steps = [{"e": "new", "o": 1, "m": m, "may": True}]
        for c in cs:
            steps.append(call(rng, m, x, 1, e="maycall", **c))
        g.add(dict(dt=dtype_of(rng) if m["t"] == "conv" else "f64", xs=[val_layout(rng, x)], steps=steps), m, d, len(x["s"]))


# --------------------------------------------------------------------------
# C19: activations over the real line
LN_PTS = [(p, q) for p in range(1, 10) for q in range(1, 10)] + [(p, 1) for p in (16, 25, 31, 40, 99)] + [(1, q) for q in (16, 25, 31, 40, 99)]
SHAPES = [[1], [4], [2, 3], [2, 2, 2], [1, 5]]


def tab(g, rng, a, beta=1, thr=None, via=None, grad=False):
    dt = "f64" if rng.random() < 0.7 else "f32"
    d = rng.choice(SHAPES)
    B = rng.choice([1, 2, 3])
    n = B * prod(d)
    op = rng.choice(["der", "der", "der", "val"]) if not grad else "der"
    pts = []
    ln = LN_PTS if dt == "f64" else [(p, q) for p, q in LN_PTS if max(p, q) < 17]
    texp = [(p, q) for p, q in ln if p <= 99]
    for _ in range(n):
        if a == "relu":
            pts.append(dict(c="int", a=a, n=rng.choice([-3, -1, 0, 0, 1, 2, 1000, -1000, 10 ** 6])))
            continue
        if a == "sin":
            pts.append(dict(c="int", a=a, n=rng.randint(-30, 30)))
            continue
        c = rng.choice(["ln", "ln", "ln", "tail", "sat"])
        if c == "tail" and (op == "val" or dt == "f32" or (a == "splus" and thr is not None)):
            c = "ln"
        if c == "sat" and a == "splus" and op == "val" and rng.random() < 0.5:
            c = "ln"
        if c == "ln":
            for _ in range(100):
                p, q = rng.choice(texp if a == "texp" else ln)
                if a == "splus" and op == "val" and dt == "f32" and max(p, q) > 5:
                    continue
                t = thr if thr is not None and a == "splus" else 1000
                if t <= 4 and abs(__import__("math").log(p / q) - t) < 0.03:
                    continue
                break
            from math import log
            above = a == "splus" and log(p / q) > t
            if op == "der":
                den = {"sigm": (p + q) ** 2, "tanh": (p * p + q * q) ** 2, "texp": q, "splus": p + q}[a]
            else:
                den = {"sigm": p + q, "tanh": p * p + q * q, "texp": q, "splus": q}[a]
            if den > 2 ** 24 or (dt == "f32" and den > 2000):
                p, q, den = 2, 1, None
                above = a == "splus" and log(2) > t
                den = ({"sigm": 9, "tanh": 25, "texp": 1, "splus": 3} if op == "der" else {"sigm": 3, "tanh": 5, "texp": 1, "splus": 1})[a]
            pts.append(dict(c="ln", a=a, p=p, q=q, thr=t, den=den))
        elif c == "tail":
            s = rng.choice([-1, 1])
            hi = {"sigm": 30 if s > 0 else 300, "tanh": 16, "splus": 40 if s > 0 else 300, "texp": 21}[a]
            pts.append(dict(c="tail", a=a, s=s, j=rng.randint(8, hi)))
        else:
            s = rng.choice([-1, 1])
            n_ = rng.choice([40, 50, 60, 80]) if a != "texp" else rng.choice([20, 40, 80])
            if a in ("sigm", "tanh") or (a == "splus" and s > 0):
                n_ = rng.choice([40, 60, 100, 1000, 10 ** 5])
            pts.append(dict(c="sat", a=a, s=s, n=n_))
    how = rng.choice(["jac", "jvp", "vjp", "jmp", "mjp", "jmjTp", "jTmjp"])
    if grad:
        how = "grad"
    if any(p["c"] == "tail" for p in pts) and how in ("jmjTp", "jTmjp") and a != "tanh":
        how = "vjp"  # the square of the derivative would underflow
    st = dict(e="tab", a=a, op=op, how=how, pts=pts, B=B, d=d, beta=beta, noval=rng.random() < 0.4)
    if thr is not None:
        st["thr"] = thr
    if via:
        st["via"] = via
    elif rng.random() < 0.2:
        st["via"] = "seq"
    g.add(dict(dt=dt, xs=[], steps=[st]), None, None, B)


TRIPLES = [[3, 4], [4, 3], [0, 5], [5, 12], [8, 15], [6, 8], [0, 0], [1, 0], [-3, 4], [2, 3, 6], [1, 2, 2], [-1, 2, -2], [4, 4, 7],
           [0, 0, 0], [2, 1, 2], [1, 1, 1, 1], [2, 2, 2, 2], [1, 1, 3, 5], [0, 0, 3, 4], [7], [-2], [0]]


def l2(g, rng, grad=False):
    n = rng.choice([1, 2, 3, 4])
    pool = [t for t in TRIPLES if len(t) == n]
    B = rng.choice([1, 2, 3, 3, 9])
    S = [list(rng.choice(pool)) for _ in range(B)]
    for s in S:
        rng.shuffle(s)
    if rng.random() < 0.3:
        S[rng.randrange(B)] = [0] * n
    eps = rng.choice([1, 1, 2, 3, 5])
    unit = rng.choice([1.0, 1.0, 1e-6, 1e-3, 0.5, 10.0, 1e4])
    dt = "f64" if rng.random() < 0.75 or unit < 1e-4 else "f32"
    if eps == 1 and rng.random() < 0.3:
        unit, dt = 1e-6, "f64"  # the default eps
    d = [n] if rng.random() < 0.7 else {1: [1, 1], 2: [2, 1], 3: [1, 3, 1], 4: [2, 2]}[n]
    steps = []
    for _ in range(3):
        op = rng.choice(["fwd", "jac", "jac", "jvp", "vjp", "jTmjp"]) if not grad else "vjp"
        dens = []
        for s in S:
            q = int(round(sum(v * v for v in s) ** 0.5))
            if op == "fwd":
                dens.append(q + eps)
            elif op == "jTmjp":
                dens.append(eps * eps if q == 0 else (q * (q + eps) ** 2) ** 2)
            else:
                dens.append(eps if q == 0 else q * (q + eps) ** 2)
        if max(dens) > (2 ** 26 if dt == "f64" else 2 ** 12):
            continue
        a = [] if op in ("fwd", "jac") else [nets.ints(rng, n, 2) if op != "jTmjp" else [abs(v) for v in nets.ints(rng, n, 2)] for _ in range(B)]
        steps.append(dict(e="l2", x=1, eps=eps, op=op, a=a, dens=dens, noval=rng.random() < 0.4, via=rng.choice([None, None, "seq"]), grad=grad))
    if steps:
        g.add(dict(dt=dt, s0=unit, xs=[{"d": d, "s": S}], steps=steps), None, None, B)


def c19(g):
    while not g.full():
        rng = g.rng()
        k = rng.random()
        if k < 0.25:
            l2(g, rng)
        elif k < 0.5:
            tab(g, rng, "splus", rng.choice([1, 1, 2, 3, 0.5]), rng.choice([None, None, 1, 2, 3, 4]))
        else:
            tab(g, rng, rng.choice(["relu", "sin", "tanh", "sigm", "texp", "tanh", "sigm", "texp"]))


def no_inplace(m):
    """in-place layers take part in autograd under torch's own restrictions"""
    if m["t"] in nets.BOX:
        return dict(m, ls=[no_inplace(l) for l in m["ls"]])
    if m.get("how", {}).get("inplace"):
        return dict(m, how={k: v for k, v in m["how"].items() if k != "inplace"})
    return m


QUERIES = ["fwd", "vjp", "vjpw", "jvp", "jac", "jTmjp"]


def grad_call(rng, m, x, wrt, **kw):
    c = call(rng, m, x, kw.pop("xi", 1), op="vjp", wrt=wrt, **kw)
    if c:
        for k in ("style", "ctx", "deflt", "valgrad"):
            c.pop(k, None)
        c["val"] = "none"
        c["via"] = "grad"
        c["between"] = [(rng.choice(QUERIES), rng.choice([0, 1, 1, 2, 3])) for _ in range(rng.choice([0, 0, 1, 2]))]
    return c


def c21(g):
    while not g.full():
        rng = g.rng()
        k = rng.random()
        if k < 0.06:
            l2(g, rng, grad=True)
            continue
        if k < 0.1:
            tab(g, rng, "splus", rng.choice([1, 1, 2, 3, 0.5]), rng.choice([None, None, 1, 2, 3, 4]), grad=True)
            continue
        if k < 0.25:
            tab(g, rng, rng.choice(["relu", "sin", "tanh", "sigm", "texp", "texp", "texp"]), grad=True)
            continue
        m, x = instance(rng, ALL)
        m = no_inplace(m)
        if nets.op_bound(m, x["d"], xmax(x), "fwd", "input", 1) > MAX64:
            continue
        dt = dtype_of(rng)
        lim = MAX64 if dt == "f64" else MAX32
        xs = [val_layout(rng, x)]
        steps = [{"e": "new", "o": 1, "m": m}]
        for wrt in ("input", "weight", rng.choice(["input", "weight"])):
            if rng.random() < 0.35:
                steps += [call(rng, m, x, 1, lim=lim, **c) for c in all_calls(rng, m, x, 1)]
            steps.append(grad_call(rng, m, x, wrt, lim=lim))
        if n_params(m) and not nets.has_kind(m, ("act",)) and len(set(nets.units(m, x["d"], x.get("s0", 1.0))[3])) <= 1 and "s0" not in x and rng.random() < 0.4:
            p = nets.ints(rng, n_params(m), 2)  # a training step
            m2 = nets.with_params(m, p)
            if nets.op_bound(m2, x["d"], xmax(x), "fwd", "input", 1) <= lim:
                steps.append({"e": "pwrite", "o": 1, "p": p, "how": "sgd"})
                steps += [grad_call(rng, m2, x, wrt, lim=lim) for wrt in ("input", "weight")]
        g.add(dict(dt=dt, xs=xs, steps=steps), m, x["d"], len(x["s"]))


GENS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C13=c13,
            C14=c14, C15=c15, C16=c16, C17=c17, C18=c18, C19=c19, C20=c20, C21=c21)
