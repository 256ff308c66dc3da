"""Module trees: plain dicts, the same records spec/Layers.tla works on.

build()   tree -> real nnj module (public constructors only)
scales()  the real network computes with units: real value = unit * integer
bounds()  magnitudes, so that generated plans stay inside exact arithmetic
gen_*     random trees
"""
import collections
import math
import random

LN2 = math.log(2.0)
PI3 = math.pi / 3.0
# activation: point unit, value unit, derivative unit
ACT = {
    "tanh": (LN2, 3.0 / 5.0, 1.0 / 25.0),
    "sigm": (LN2, 1.0 / 6.0, 1.0 / 36.0),
    "texp": (LN2, 0.5, 0.5),
    "sin": (PI3, math.sqrt(3.0) / 2.0, 0.5),
    "splus": (LN2, None, 1.0 / 6.0),
}
ACT_RANGE = {"tanh": (-1, 1), "sigm": (-1, 1), "texp": (-1, 2), "sin": (-3, 3), "splus": (-1, 1)}
ACTV = {
    "tanh": lambda k: k,
    "sigm": lambda k: 3 + k,
    "texp": lambda k: 2 ** (k + 1),
    "sin": lambda k: 0 if k % 3 == 0 else (1 if k % 6 in (1, 2) else -1),
    "splus": lambda k: 0,
}
BOX = ("seq", "skip")


def prod(xs):
    r = 1
    for v in xs:
        r *= v
    return r


def n_params(m):
    t = m["t"]
    if t == "lin":
        return len(m["w"]) * len(m["w"][0]) + len(m["b"])
    if t == "conv":
        return len(m["w"]) + len(m["b"])
    if t in ("cscale", "sten"):
        return len(m["w"])
    if t in BOX:
        return sum(n_params(l) for l in m["ls"])
    return 0


def param_vec(m):
    t = m["t"]
    if t == "lin":
        return [v for r in m["w"] for v in r] + list(m["b"])
    if t == "conv":
        return list(m["w"]) + list(m["b"])
    if t in ("cscale", "sten"):
        return list(m["w"])
    if t in BOX:
        return [v for l in m["ls"] for v in param_vec(l)]
    return []


def with_params(m, p):
    """a copy of the tree holding the parameters p"""
    t = m["t"]
    m = dict(m)
    if t == "lin":
        r, c = len(m["w"]), len(m["w"][0])
        m["w"] = [list(p[i * c:(i + 1) * c]) for i in range(r)]
        m["b"] = list(p[r * c:])
    elif t == "conv":
        n = len(m["w"])
        m["w"], m["b"] = list(p[:n]), list(p[n:])
    elif t in ("cscale", "sten"):
        m["w"] = list(p)
    elif t in BOX:
        ls, o = [], 0
        for l in m["ls"]:
            n = n_params(l)
            ls.append(with_params(l, p[o:o + n]))
            o += n
        m["ls"] = ls
    return m


def leaves(m):
    if m["t"] in BOX:
        return [x for l in m["ls"] for x in leaves(l)]
    return [m]


def has_kind(m, kinds):
    return any(l["t"] in kinds for l in leaves(m))


def pool_out(L, k, s, p, d, ceil):
    span = L + 2 * p - d * (k - 1) - 1
    n = (-(-span // s) if ceil else span // s) + 1
    if ceil and (n - 1) * s >= L + p:
        n -= 1
    return n


def out_shape(m, d):
    t = m["t"]
    if t == "lin":
        return [len(m["w"])]
    if t == "conv":
        return [m["c2"], (d[1] + 2 * m["ph"] - m["dh"] * (m["kh"] - 1) - 1) // m["sh"] + 1,
                (d[2] + 2 * m["pw"] - m["dw"] * (m["kw"] - 1) - 1) // m["sw"] + 1]
    if t == "mp":
        return [d[0], pool_out(d[1], m["kh"], m["sh"], m["ph"], m["dh"], m["ceil"]),
                pool_out(d[2], m["kw"], m["sw"], m["pw"], m["dw"], m["ceil"])]
    if t in ("up", "bil"):
        return [d[0], d[1] * m["f"], d[2] * m["f"]]
    if t in ("upr", "sep"):
        return [d[0], m["oh"], m["ow"]]
    if t == "flat":
        return [prod(d)]
    if t == "resh":
        return list(m["dims"])
    if t in ("pair", "sten"):
        return [d[0] - 1]
    if t == "seq":
        for l in m["ls"]:
            d = out_shape(l, d)
        return d
    if t == "skip":
        y = out_shape({"t": "seq", "ls": m["ls"]}, d)
        return [d[0] + y[0]] + list(d[1:])
    return list(d)


# --------------------------------------------------------------------------
# integer evaluation of vector networks (only used to pick inputs inside the range of the activation tables,
# never to judge a result)
def eval_int(m, v):
    t = m["t"]
    if t == "lin":
        return [sum(a * b for a, b in zip(r, v)) + (m["b"][i] if m["b"] else 0) for i, r in enumerate(m["w"])]
    if t == "relu":
        return [max(a, 0) for a in v]
    if t == "act":
        lo, hi = ACT_RANGE[m["a"]]
        if any(a < lo or a > hi for a in v):
            raise OverflowError
        return [ACTV[m["a"]](a) for a in v]
    if t in ("flat", "resh"):
        return list(v)
    if t == "sq":
        return [a * a for a in v]
    if t == "pair":
        return [v[i] * v[i + 1] + v[i] for i in range(len(v) - 1)]
    if t == "cscale":
        return [a * b for a, b in zip(m["w"], v)]
    if t == "sten":
        a, b, c = m["w"]
        return [a * v[i] + b * v[i] * v[i + 1] + c for i in range(len(v) - 1)]
    if t == "l2":
        return list(v)
    if t == "seq":
        for l in m["ls"]:
            v = eval_int(l, v)
        return v
    if t == "skip":
        return list(v) + eval_int({"t": "seq", "ls": m["ls"]}, v)
    raise NotImplementedError(t)


def eval_img(m, d, v):
    """the same on images; (shape, values)"""
    t = m["t"]
    if t == "conv":
        o = out_shape(m, d)
        _, H, W = d
        cg, og = m["c1"] // m["g"], m["c2"] // m["g"]
        out = []
        for c in range(o[0]):
            for i in range(o[1]):
                for j in range(o[2]):
                    q = m["b"][c] if m["b"] else 0
                    for e in range(cg):
                        for a in range(m["kh"]):
                            for b in range(m["kw"]):
                                y, z = i * m["sh"] - m["ph"] + a * m["dh"], j * m["sw"] - m["pw"] + b * m["dw"]
                                if 0 <= y < H and 0 <= z < W:
                                    q += m["w"][((c * cg + e) * m["kh"] + a) * m["kw"] + b] * v[((c // og * cg + e) * H + y) * W + z]
                    out.append(q)
        return o, out
    if t == "seq":
        for l in m["ls"]:
            d, v = eval_img(l, d, v)
        return d, v
    if t == "skip":
        return out_shape(m, d), list(v) + eval_img({"t": "seq", "ls": m["ls"]}, d, v)[1]
    if t == "mp":
        C, H, W = d
        o = out_shape(m, d)
        out = []
        for c in range(C):
            for i in range(o[1]):
                for j in range(o[2]):
                    w = [v[(c * H + y) * W + z] for y in range(i * m["sh"] - m["ph"], i * m["sh"] - m["ph"] + m["kh"] * m["dh"], m["dh"])
                         for z in range(j * m["sw"] - m["pw"], j * m["sw"] - m["pw"] + m["kw"] * m["dw"], m["dw"]) if 0 <= y < H and 0 <= z < W]
                    out.append(max(w))
        return o, out
    if t == "up":
        f = m["f"]
        C, H, W = d
        return out_shape(m, d), [v[(c * H + i // f) * W + j // f] for c in range(C) for i in range(H * f) for j in range(W * f)]
    return out_shape(m, d), eval_int(m, v)


# --------------------------------------------------------------------------
# bounds: a = max |value|, r = max row sum, c = max column sum of |J|
def bounds(m, d, a):
    """(shape, a, (r, c) wrt input, (r, c) wrt weight or None)"""
    t = m["t"]
    do = out_shape(m, d)
    if t == "lin":
        r = max(sum(abs(v) for v in row) for row in m["w"])
        c = max(sum(abs(row[j]) for row in m["w"]) for j in range(len(m["w"][0])))
        bb = max([abs(v) for v in m["b"]] + [0])
        return do, r * a + bb, (r, c), (prod(d) * a + 1, max(a, 1))
    if t == "conv":
        cg = m["c1"] // m["g"]
        kk = m["kh"] * m["kw"]
        w = m["w"]
        n = cg * kk
        r = max(sum(abs(v) for v in w[i * n:(i + 1) * n]) for i in range(m["c2"]))
        c = sum(abs(v) for v in w)
        bb = max([abs(v) for v in m["b"]] + [0])
        return do, r * a + bb, (r, c), (n * a + 1, max(a, 1) * do[1] * do[2])
    if t == "mp":
        return do, a, (1, m["kh"] * m["kw"]), None
    if t == "up":
        return do, a, (1, m["f"] ** 2), None
    if t == "upr":
        return do, a, (1, do[1] * do[2]), None
    if t == "sep":
        q = m["qh"] * m["qw"]
        return do, a * q, (q, q * do[1] * do[2]), None
    if t == "bil":
        q = (2 * m["f"]) ** 2
        return do, a * q, (q, q * m["f"] ** 2 * 4), None
    if t == "act":
        return do, 8, (36, 36), None
    if t == "l2":
        n2 = a * a * prod(d)
        n = int(math.isqrt(n2)) + 1
        q = n * (n + m["e"]) + n2 * prod(d)
        return do, a, (q, q), None
    if t == "sq":
        return do, a * a, (2 * a, 2 * a), None
    if t == "pair":
        return do, a * a + a, (2 * a + 1, 2 * a + 1), None
    if t == "sten":
        w = max(abs(v) for v in m["w"])
        q = w * (1 + 2 * a)
        return do, w * (a + a * a + 1), (q, q), (a + a * a + 1, (max(a * a, 1)) * prod(d))
    if t == "cscale":
        w = max(abs(v) for v in m["w"])
        return do, a * w, (w, w), (max(a, 1), max(a, 1))
    if t in BOX:
        dd, aa, R, C = d, a, 1, 1
        parts = []
        for l in m["ls"]:
            dd, aa, (r, c), w = bounds(l, dd, aa)
            parts = [(pr * r, pc * c) for pr, pc in parts]
            if w is not None:
                parts.append(w)
            R, C = R * max(r, 1), C * max(c, 1)
        w = (sum(p[0] for p in parts), max(p[1] for p in parts)) if parts else None
        if t == "skip":
            return do, max(a, aa), (max(1, R), 1 + C), w
        return do, aa, (R, C), w
    return do, a, (1, 1), None  # relu, flat, resh


def op_bound(m, d, a, op, wrt, arg):
    """bound on every integer appearing in op (argument entries bounded by arg)"""
    _, av, x, w = bounds(m, d, a)
    r, c = x if wrt == "input" else (w or (1, 1))
    r, c = max(r, 1), max(c, 1)
    arg = max(arg, 1)
    return {"jac": max(r, c), "jvp": r * arg, "jmp": r * arg, "vjp": c * arg, "mjp": c * arg,
            "jmjTp": r * r * arg, "jTmjp": c * c * arg, "fwd": av}[op] if op != "fwd" else max(av, a)


# --------------------------------------------------------------------------
# scales
class Scale:
    """walks a tree, turning integer parameters into real ones and collecting
    R (one unit per output row of the Jacobian) and C (one per weight)"""

    def __init__(self, unit=1.0):
        self.unit = unit


def annotate(m, s, rng=None):
    """Assign units.  Returns (annotated tree with 'ru': real parameter values per leaf,
    s_out per layer, f = derivative unit, cw = list of per-parameter units of this module's own output).
    s: unit of the input."""
    t = m["t"]
    m = dict(m)
    if t == "lin":
        so = m.get("so", 1.0)
        f = so / s
        m["rw"] = [[v * f for v in row] for row in m["w"]]
        m["rb"] = [v * so for v in m["b"]]
        m["pu"] = [f] * (len(m["w"]) * len(m["w"][0])) + [so] * len(m["b"])
        # d out / d w_real = real x = s * int x
        cw = [s] * (len(m["w"]) * len(m["w"][0])) + [1.0] * len(m["b"])
        return m, so, f, cw
    if t == "conv":
        so = m.get("so", 1.0)
        f = so / s
        m["rw"] = [v * f for v in m["w"]]
        m["rb"] = [v * so for v in m["b"]]
        m["pu"] = [f] * len(m["w"]) + [so] * len(m["b"])
        return m, so, f, [s] * len(m["w"]) + [1.0] * len(m["b"])
    if t == "cscale":
        m["rw"] = [float(v) for v in m["w"]]
        return m, s, 1.0, [s] * len(m["w"])
    if t == "sten":
        assert s == 1.0
        m["rw"] = [float(v) for v in m["w"]]
        return m, 1.0, 1.0, [1.0] * 3
    if t == "l2":  # every sample has the norm q
        q, e = m["q"], m["e"]
        m["eps"] = e * s
        return m, 1.0 / (q + e), (1.0 / (e * s) if q == 0 else 1.0 / (q * (q + e) ** 2 * s)), []
    if t == "act":
        pu, vu, du = ACT[m["a"]]
        assert abs(s - pu) < 1e-12, "activation fed with the wrong unit"
        return m, (vu if vu is not None else float("nan")), du, []
    if t == "sq":
        return m, s * s, s, []
    if t == "pair":
        assert s == 1.0
        return m, 1.0, 1.0, []
    if t == "sep":
        q = float(m["qh"] * m["qw"])
        return m, s / q, 1.0 / q, []
    if t == "bil":
        q = (2.0 * m["f"]) ** 2
        return m, s / q, 1.0 / q, []
    if t == "seq":
        ls, f, cw = [], 1.0, []
        for l in m["ls"]:
            l, s, fl, cl = annotate(l, s)
            cw = [v * fl for v in cw] + cl
            f *= fl
            ls.append(l)
        m["ls"] = ls
        return m, s, f, cw
    if t == "skip":
        inner, so, f, cw = annotate({"t": "seq", "ls": m["ls"]}, s)
        m["ls"] = inner["ls"]
        m["inner"] = (so, f)
        if abs(so - s) < 1e-12 and abs(f - 1.0) < 1e-12:
            return m, s, 1.0, cw
        return m, None, None, cw  # not uniform: allowed in last position only
    return m, s, 1.0, []  # relu, mp, up, flat, resh


def weight_units(ann):
    """the unit of every weight, in the order of the flat weight vector"""
    return [u for l in leaves(ann) for u in l.get("pu", [1.0] * n_params(l))]


def units(m, d, s):
    """units of a network fed with inputs of unit s:
    (annotated tree, out: unit per output, R: per output row wrt input, C: per weight, Rw: per row wrt weight)"""
    am, so, f, cw = annotate(m, s)
    no = prod(out_shape(m, d))
    if so is not None:
        return am, [so] * no, [f] * no, cw, [1.0] * no
    # a non uniform skip connection, possibly as the last element of a Sequential
    pre = 1.0
    node, sn, dn = am, s, list(d)
    while node["t"] == "seq":
        for l in node["ls"][:-1]:
            _, sn, fl, _ = annotate(l, sn)
            dn = out_shape(l, dn)
            pre *= fl
        node = node["ls"][-1]
    assert node["t"] == "skip"
    so_in, f_in = node["inner"]
    nin = prod(dn)
    if node is not am and any(n_params(l) for l in am["ls"][:-1]):
        raise ValueError("parameters before a non uniform skip connection")
    return am, [sn] * nin + [so_in] * (no - nin), [pre] * nin + [pre * f_in] * (no - nin), cw, [1.0] * no


# --------------------------------------------------------------------------
# real modules
def named(m, ls):
    """the layers of a composition, as positional arguments: now and then one dictionary, with names that sort the other way round"""
    f = m.get("how", {}).get("names")
    return [collections.OrderedDict((f % (len(ls) - i), l) for i, l in enumerate(ls))] if f else ls


def build(m, torch, nnj, custom, dtype, shared=None):
    """an annotated tree -> real module.  Layers with the same 'share' number are one object."""
    shared = {} if shared is None else shared
    if "share" in m and m["share"] in shared:
        return shared[m["share"]]
    t = m["t"]
    v = m.get("how", {})
    if t == "lin":
        l = nnj.Linear(len(m["w"][0]), len(m["w"]), bias=len(m["b"]) > 0)
        set_params(l, torch, dtype, [v for r in m["rw"] for v in r], m["rb"])
    elif t == "conv":
        kw = {}
        if "vmap" in v:
            kw["use_vmap_for_backprop"] = v["vmap"]
        l = nnj.Conv2d(m["c1"], m["c2"], (m["kh"], m["kw"]) if not v.get("intk") else m["kh"],
                       padding=(m["ph"], m["pw"]) if not v.get("intk") else m["ph"],
                       stride=(m["sh"], m["sw"]), dilation=(m["dh"], m["dw"]), groups=m["g"], bias=len(m["b"]) > 0, padding_mode=m["pm"], **kw)
        set_params(l, torch, dtype, m["rw"], m["rb"])
    elif t == "mp":
        kw = {}
        if not v.get("defstride"):
            kw["stride"] = m["sh"] if v.get("intk") else (m["sh"], m["sw"])
        if m["ph"] or m["pw"]:
            kw["padding"] = (m["ph"], m["pw"])
        if m["dh"] != 1 or m["dw"] != 1:
            kw["dilation"] = (m["dh"], m["dw"])
        if m["ceil"]:
            kw["ceil_mode"] = True
        l = nnj.MaxPool2d(m["kh"] if v.get("intk") else (m["kh"], m["kw"]), **kw)
    elif t == "up":
        l = nnj.Upsample(scale_factor=m["f"]) if not v.get("float") else nnj.Upsample(scale_factor=float(m["f"]), mode="nearest")
    elif t in ("upr", "sep"):
        l = nnj.Upsample(**v["kw"])
    elif t == "bil":
        l = nnj.Upsample(**v.get("kw", {"scale_factor": m["f"], "mode": "bilinear"}))
    elif t == "relu":
        l = nnj.ReLU(inplace=True) if v.get("inplace") else nnj.ReLU()
    elif t == "act":
        l = {"tanh": nnj.Tanh, "sigm": nnj.Sigmoid, "texp": nnj.TruncExp, "sin": nnj.Sinusoidal, "splus": nnj.Softplus}[m["a"]]()
    elif t == "l2":
        l = nnj.L2Norm(eps=m["eps"])
    elif t == "flat":
        l = nnj.Flatten()
    elif t == "resh":
        l = nnj.Reshape(*m["dims"])
    elif t == "sq":
        l = custom.SqDiag() if v.get("diag", True) else custom.SqFull()
    elif t == "pair":
        l = custom.Pair()
    elif t == "cscale":
        l = custom.ScaleDiag(len(m["w"])) if v.get("diag", True) else custom.ScaleFull(len(m["w"]))
        set_params(l, torch, dtype, m["rw"], [])
    elif t == "sten":
        l = custom.Stencil()
        set_params(l, torch, dtype, m["rw"], [])
    elif t == "seq":
        l = nnj.Sequential(*named(m, [build(x, torch, nnj, custom, dtype, shared) for x in m["ls"]]), **v.get("kw", {}))
    elif t == "skip":
        l = nnj.SkipConnection(*named(m, [build(x, torch, nnj, custom, dtype, shared) for x in m["ls"]]), **v.get("kw", {}))
    else:
        raise KeyError(t)
    if v.get("jl"):
        l.jl = v["jl"]
    l = l.to(dtype)
    if "share" in m:
        shared[m["share"]] = l
    return l


def build_torch(m, torch, nnj, custom, dtype):
    """an annotated tree -> plain torch network, as far as torch has the layers"""
    nn = torch.nn
    t, v = m["t"], m.get("how", {})
    if t == "seq":
        return nn.Sequential(*named(m, [build_torch(x, torch, nnj, custom, dtype) for x in m["ls"]]))
    if t == "lin":
        l = nn.Linear(len(m["w"][0]), len(m["w"]), bias=len(m["b"]) > 0)
        set_params(l, torch, dtype, [q for r in m["rw"] for q in r], m["rb"])
    elif t == "conv":
        l = nn.Conv2d(m["c1"], m["c2"], (m["kh"], m["kw"]), padding=v.get("padding", (m["ph"], m["pw"])), stride=(m["sh"], m["sw"]),
                      dilation=(m["dh"], m["dw"]), groups=m["g"], bias=len(m["b"]) > 0, padding_mode=m["pm"])
        set_params(l, torch, dtype, m["rw"], m["rb"])
    elif t == "mp":
        l = nn.MaxPool2d((m["kh"], m["kw"]), stride=(m["sh"], m["sw"]), padding=(m["ph"], m["pw"]), dilation=(m["dh"], m["dw"]),
                         ceil_mode=m["ceil"])
    elif t == "up":
        l = nn.Upsample(scale_factor=m["f"])
    elif t in ("upr", "bil", "sep"):
        l = nn.Upsample(**v["kw"])
    elif t == "relu":
        l = nn.ReLU(inplace=v.get("inplace", False))
    elif t == "act" and m["a"] in ("tanh", "sigm", "splus"):
        l = {"tanh": nn.Tanh, "sigm": nn.Sigmoid, "splus": nn.Softplus}[m["a"]]()
    elif t == "flat":
        l = nn.Flatten()
    else:  # nnj layers may stand in a torch network
        l = build(m, torch, nnj, custom, dtype)
    return l.to(dtype)


def set_params(l, torch, dtype, w, b):
    with torch.no_grad():
        l.weight.data = torch.tensor(w, dtype=torch.float64).reshape(l.weight.shape).to(dtype)
        if len(b):
            l.bias.data = torch.tensor(b, dtype=torch.float64).reshape(l.bias.shape).to(dtype)


# --------------------------------------------------------------------------
# random trees
def ints(rng, n, k):
    return [rng.randint(-k, k) for _ in range(n)]


def nz(rng, k):
    return rng.choice([v for v in range(-k, k + 1) if v])


def gen_lin(rng, nin, nout, k=2, bias=None):
    bias = rng.random() < 0.7 if bias is None else bias
    return {"t": "lin", "w": [ints(rng, nin, k) for _ in range(nout)], "b": ints(rng, nout, 3) if bias else []}


def gen_conv(rng, d, k=2, same=False, small=False, bias=None):
    c1, h, w = d
    c2 = rng.randint(1, 2 if small else 3)
    big = 5 if not small and rng.random() < 0.1 else 3
    while True:
        kh, kw = rng.randint(1, big), rng.randint(1, big)
        if same:
            kh, kw = rng.choice([1, 3]), rng.choice([1, 3])
            ph, pw = (kh - 1) // 2, (kw - 1) // 2
        else:
            ph, pw = rng.randint(0, kh - 1), rng.randint(0, kw - 1)
        if h + 2 * ph - kh + 1 >= 1 and w + 2 * pw - kw + 1 >= 1:
            break
    bias = rng.random() < 0.7 if bias is None else bias
    how = {}
    if rng.random() < 0.5:
        how["vmap"] = rng.random() < 0.4
    if kh == kw and ph == pw and rng.random() < 0.5:
        how["intk"] = True
    return {"t": "conv", "c1": c1, "c2": c2, "kh": kh, "kw": kw, "ph": ph, "pw": pw, "sh": 1, "sw": 1, "dh": 1, "dw": 1, "g": 1, "pm": "zeros",
            "w": ints(rng, c2 * c1 * kh * kw, k), "b": ints(rng, c2, 3) if bias else [], "how": how}


def gen_mp(rng, d, fancy=True):
    c, h, w = d
    for _ in range(200):
        kh, kw = rng.randint(1, min(3, h)), rng.randint(1, min(3, w))
        m = {"t": "mp", "kh": kh, "kw": kw, "sh": kh, "sw": kw, "ph": 0, "pw": 0, "dh": 1, "dw": 1, "ceil": False, "how": {}}
        if rng.random() < 0.35:
            m["how"]["defstride"] = True
        elif fancy:
            m["sh"], m["sw"] = rng.randint(1, 3), rng.randint(1, 3)
        if fancy and rng.random() < 0.3:
            m["ph"], m["pw"] = rng.randint(0, kh // 2), rng.randint(0, kw // 2)
        if fancy and rng.random() < 0.15:
            m["dh"], m["dw"] = rng.randint(1, 2), rng.randint(1, 2)
        if fancy and rng.random() < 0.25:
            m["ceil"] = True
        if kh == kw and m["sh"] == m["sw"] and rng.random() < 0.5:
            m["how"]["intk"] = True
        if fancy and rng.random() < 0.3 and max(h, w) >= 5:  # as far apart as the window is wide, overlapping all the same: dilated
            for k, s, p, q in (("kh", "sh", "dh", h), ("kw", "sw", "dw", w)):
                if q >= 5:
                    m[k], m[s], m[p] = 2, 2, 2
            m["ph"], m["pw"] = rng.choice([0, 0, m["kh"] // 2]), rng.choice([0, 0, m["kw"] // 2])
            m["how"] = {"defstride": True} if rng.random() < 0.5 and (m["sh"], m["sw"]) == (m["kh"], m["kw"]) else {}
        o = out_shape(m, d)
        if o[1] >= 1 and o[2] >= 1:
            return m
    raise RuntimeError


def gen_vec(rng, n, depth, budget=4, kinds=("lin", "relu", "lin", "flat", "seq", "skip"), lo=1, hi=5):
    """list of layers on vectors of length n"""
    ls = []
    d = n
    for _ in range(rng.randint(1, budget)):
        t = rng.choice(kinds)
        if t == "lin":
            l = gen_lin(rng, d, rng.randint(lo, hi))
        elif t == "relu":
            l = {"t": "relu", "how": {"inplace": True}} if rng.random() < 0.3 and ls and ls[-1]["t"] == "lin" else {"t": "relu"}
        elif t == "flat":
            l = {"t": "flat"}
        elif t == "resh":
            l = {"t": "resh", "dims": [d]}
        elif t == "sq":
            l = {"t": "sq", "how": {"diag": rng.random() < 0.5}}
        elif t == "pair":
            if d < 2:
                continue
            l = {"t": "pair"}
        elif t == "sten":
            if d < 2:
                continue
            l = {"t": "sten", "w": ints(rng, 3, 2)}
        elif t == "cscale":
            l = {"t": "cscale", "w": ints(rng, d, 2), "how": {"diag": rng.random() < 0.5}}
        elif t in BOX:
            if depth <= 0:
                continue
            l = {"t": t, "ls": gen_vec(rng, d, depth - 1, max(1, budget - 1), kinds, lo, max(lo, hi - 1))}
            if out_shape(l, [d])[0] > 10:
                continue
        ls.append(l)
        d = out_shape(l, [d])[0]
    if not ls:
        ls = [gen_lin(rng, n, rng.randint(lo, hi))]
    return ls


def gen_img(rng, d, depth, budget=4, maxn=40, kinds=("conv", "conv", "relu", "mp", "up", "skip", "seq", "tovec")):
    """list of layers starting on images d = [c, h, w]"""
    ls = []
    d = list(d)
    for _ in range(rng.randint(1, budget)):
        t = rng.choice(kinds)
        if len(d) == 1:
            if t == "conv":
                l = gen_lin(rng, d[0], rng.randint(1, 5))
            elif t == "relu":
                l = {"t": "relu"}
            else:
                continue
        elif t == "conv":
            l = gen_conv(rng, d, small=True)
        elif t == "relu":
            l = {"t": "relu"}
        elif t == "mp":
            l = gen_mp(rng, d)
        elif t == "sq":
            l = {"t": "sq", "how": {"diag": rng.random() < 0.5}}
        elif t == "up":
            l = {"t": "up", "f": rng.randint(1, 3), "how": {"float": rng.random() < 0.5}}
        elif t == "tovec":
            l = {"t": "flat"} if rng.random() < 0.7 else {"t": "resh", "dims": [d[0], d[2], d[1]]}
        elif t == "seq":
            if depth <= 0:
                continue
            l = {"t": "seq", "ls": gen_img(rng, d, depth - 1, max(1, budget - 1), maxn, kinds)}
        elif t == "skip":
            if depth <= 0:
                continue
            inner = [gen_conv(rng, d, small=True, same=True)]
            if rng.random() < 0.5:
                inner.append({"t": "relu"})
            if rng.random() < 0.3:
                inner.append(gen_conv(rng, out_shape(inner[0], d), small=True, same=True))
            l = {"t": "skip", "ls": inner}
        else:
            continue
        o = out_shape(l, d)
        if prod(o) > maxn or min(o) < 1:
            continue
        ls.append(l)
        d = o
    if not ls:
        ls = [gen_conv(rng, d, small=True)]
    return ls


def gen_act(rng, n, depth=1, last_skip=True):
    """Sequential of Linear and activation layers on vectors; every activation input must stay in the table,
    which eval_int decides"""
    ls = []
    d = n
    blocks = rng.randint(1, 2 if depth else 1)
    for b in range(blocks):
        last = b == blocks - 1
        a = rng.choice(["tanh", "sigm", "texp", "sin"] + (["splus"] if last and depth == 1 else []))
        o = rng.randint(1, 4)
        # sparse rows so that the pre-activations stay small
        w = []
        for _ in range(o):
            row = [0] * d
            for _ in range(rng.randint(1, 2)):
                row[rng.randrange(d)] = rng.choice([-1, 1])
            w.append(row)
        prev = next((l["a"] for l in reversed(ls) if l["t"] == "act"), None) if ls and ls[-1]["t"] != "lin" else None
        off = {"sigm": -3, "texp": -2}.get(prev, 0)
        l = {"t": "lin", "w": w, "b": [off * sum(r) + rng.randint(-1, 1) for r in w] if off or rng.random() < 0.7 else [], "so": ACT[a][0]}
        ls += [l, {"t": "act", "a": a}]
        d = o
        if a == "splus":
            return ls
        if rng.random() < 0.2:
            ls.append({"t": "flat"})
    if rng.random() < 0.6:
        ls.append(gen_lin(rng, d, rng.randint(1, 4)))
    return ls


def group(rng, ls, depth=2):
    """the same layers, grouped at random into nested Sequentials"""
    if depth == 0 or len(ls) < 2:
        return list(ls)
    out, i = [], 0
    while i < len(ls):
        k = rng.randint(1, 3)
        chunk = ls[i:i + k]
        if len(chunk) > 1 and rng.random() < 0.6 or rng.random() < 0.15:
            out.append({"t": "seq", "ls": group(rng, chunk, depth - 1)})
        else:
            out += chunk
        i += k
    return out
