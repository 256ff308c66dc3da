"""Executes plans against the real code and records what it did.

A plan is a session: inputs (xs) and steps.  Nothing here knows what the right
answer is; the recorded session goes to TLC (spec/NnjTrace.tla), which does.
"""
import contextlib
import copy
import io
import math
import pickle
import random
import traceback

import torch

import custom
import nets
import nnj

DT = {"f64": torch.float64, "f32": torch.float32}
LIMIT = 2 ** 31
CTX = {"": contextlib.nullcontext, "nograd": torch.no_grad, "grad": torch.enable_grad, "inf": torch.inference_mode}


class Stop(Exception):
    """the session ends here"""


class Bad(Exception):
    """a recorded value is not what an exact computation can give: the status says how"""


def to_ints(t, scale, tol):
    """real tensor / scale -> nested list of integers"""
    if scale is not None:
        t = t / scale
    if not torch.isfinite(t).all():
        raise Bad("nonfinite")
    r = torch.round(t)
    if t.numel() and ((t - r).abs() > tol * (1 + r.abs() * 1e-3)).any():
        raise Bad("nonint")
    if t.numel() and r.abs().max().item() >= LIMIT:
        raise Bad("big")
    return r.to(torch.int64).tolist()


def layout(t, how, rng):
    """the same values in another memory layout"""
    if how == "t" and t.dim() >= 2:  # transposed storage
        p = list(range(t.dim()))
        rng.shuffle(p)
        inv = [p.index(i) for i in range(len(p))]
        return t.permute(p).contiguous().permute(inv)
    if how == "s":  # every second element of a larger tensor
        big = torch.full([2 * n for n in t.shape], 7.5, dtype=t.dtype)
        v = big[tuple(slice(None, None, 2) for _ in t.shape)]
        v.copy_(t)
        return v
    if how == "e" and t.shape[0] > 1 and bool((t == t[:1]).all()):  # broadcast over the batch
        return t[:1].expand(t.shape)
    return t


def shape_str(t):
    if t is None:
        return "none"
    if isinstance(t, (list, tuple)):
        return "b" + nest_str(t)
    return {2: "v%s", 3: "m%sx%s"}[t.dim()] % tuple(t.shape[1:]) if t.dim() in (2, 3) else "t" + "x".join(map(str, t.shape))


def nest_str(t):
    if isinstance(t, (list, tuple)):
        return "[" + ",".join(nest_str(v) for v in t) + "]"
    if t.dim() == 3 and t.shape[1] == t.shape[2]:
        return str(t.shape[1])
    return "!" + "x".join(map(str, t.shape[1:]))


def flatten_nest(t):
    if isinstance(t, (list, tuple)):
        return [v for s in t for v in flatten_nest(s)]
    return [t]


def nest_like(m, blocks):
    """arrange the flat list of blocks (one per parametric leaf) as the composition is nested"""
    it = iter(blocks)

    def go(m):
        if m["t"] in nets.BOX:
            return [go(l) for l in m["ls"] if nets.n_params(l)]
        return next(it)

    return go(m)


class Obj:
    """a live module: the tree as built (units included), the real object, units"""

    def __init__(self, tree, d, s, mod, ann, out_u, R, C, Rw):
        self.tree, self.d, self.s, self.mod, self.ann = tree, d, s, mod, ann
        self.out_u, self.R, self.C, self.Rw = out_u, R, C, Rw


class Driver:
    def __init__(self, plan, watch=False):
        self.plan = plan
        self.dt = DT[plan.get("dt", "f64")]
        self.tol = 1e-9 if plan.get("dt", "f64") == "f64" else 2e-2
        self.rng = random.Random(plan["id"])
        self.objs = {}
        self.ev = []
        self.watch = watch or plan.get("watch", False)
        self.held, self.vecs = [], {}
        self.s0 = plan.get("s0", 1.0)
        self.xt = []
        for x in plan["xs"]:
            t = torch.tensor(x["s"], dtype=torch.float64).reshape([len(x["s"])] + list(x["d"])) * self.s0
            for b in x.get("inf", ()):  # samples that only the neighbours of are looked at
                t[b].view(-1)[::2] = self.rng.choice([float("inf"), float("nan"), 1e30])
            t = layout(t.to(self.dt), x.get("lay", "c"), self.rng)
            if x.get("rg"):
                t = t.detach().requires_grad_(True) if x["rg"] == 1 else (t.detach().requires_grad_(True) * 1.0)
            self.xt.append(t)
        self.keep = [[b for b in range(len(x["s"])) if b not in x.get("inf", ())] for x in plan["xs"]]

    # ---- objects
    def make(self, tree, d, mod=None):
        ann, out_u, R, C, Rw = nets.units(tree, d, self.s0)
        if mod is None:
            mod = nets.build(ann, torch, nnj, custom, self.dt)
        return Obj(tree, d, self.s0, mod, ann, out_u, R, C, Rw)

    def twin(self, o):
        """a new module with the same current parameters, never evaluated before"""
        t = nets.build(o.ann, torch, nnj, custom, self.dt)
        for a, b in zip(t.parameters(), o.mod.parameters()):
            a.data = b.data.clone()
        return t

    def run(self):
        torch.set_grad_enabled(True)  # whatever the session before left behind
        torch.set_default_dtype(torch.float32)
        for st in self.plan["steps"]:
            try:
                getattr(self, "do_" + st["e"])(st)
            except Stop:
                break
            except Exception as e:  # a change of state that the library has to support failed
                self.rec("fail", step=st["e"], st="raised", ex=repr(e)[:300])
                break
        return {"id": self.plan["id"], "ev": self.ev,
                "xs": [{"d": x["d"], "s": [v for b, v in enumerate(x["s"]) if b not in x.get("inf", ())]} for x in self.plan["xs"]]}

    def rec(self, e, **k):
        self.ev.append(dict(e=e, **k))

    def do_new(self, st):
        d = st.get("d") or self.plan["xs"][0]["d"]
        try:
            self.objs[st["o"]] = self.make(st["m"], d)
        except Exception as e:
            if not st.get("may"):
                raise
            self.rec("refused", ex=repr(e)[:200])
            raise Stop
        self.circumstances(self.objs[st["o"]].mod, st)
        self.rec("new", o=st["o"], m=clean(st["m"]))

    def circumstances(self, mod, st):
        if st.get("eval"):
            mod.eval()
        if st.get("nograd"):
            for i, p in enumerate(mod.parameters()):
                if st["nograd"] is True or (i + st["nograd"]) % 2:  # all of them, or every other one
                    p.requires_grad_(False)
        if st.get("pgrad"):  # gradients left over from training
            for p in mod.parameters():
                p.grad = torch.ones_like(p)

    def do_convert(self, st):
        """a plain torch network (object st.src) and its conversion (object st.o)"""
        d = self.plan["xs"][0]["d"]
        ann, out_u, R, C, Rw = nets.units(st["m"], d, self.s0)
        src = nets.build_torch(ann, torch, nnj, custom, self.dt)
        self.circumstances(src, st.get("srcc", {}))
        r = dict(st="ok", a=[], b=[])
        try:
            mod = nnj.convert_to_nnj(src)
        except Exception as e:
            if st.get("may"):
                self.rec("refused", ex=repr(e)[:200])
                raise Stop
            raise
        self.objs[st["o"]] = Obj(st["m"], d, self.s0, mod, ann, out_u, R, C, Rw)
        self.rec("new", o=st["o"], m=clean(st["m"]))
        self.objs[st["src"]] = Obj(st["m"], d, self.s0, src, ann, out_u, R, C, Rw)
        self.circumstances(mod, st)
        self.rec("new", o=st["src"], m=clean(st["m"]))
        if nets.n_params(st["m"]):  # the same weights, in the same order
            flat = torch.cat([p.detach().reshape(-1) for p in src.parameters()])
            try:
                r["a"] = to_ints(flat * 2 ** 20, None, 1.0)
                r["b"] = to_ints(mod.get_weight().detach() * 2 ** 20, None, 1.0)
            except Bad as b:
                r["st"] = str(b)
            except Exception as e:
                r["st"], r["ex"] = "raised", repr(e)[:200]
            self.rec("same", **r)

    def do_foreign(self, st):
        """a torch network with layers that the library has no counterpart of: refused, or the same function"""
        nn = torch.nn

        def go(q):
            if q[0] == "Sequential":
                return nn.Sequential(*[go(v) for v in q[1]])
            tup = lambda v: tuple(v) if isinstance(v, list) else v
            return getattr(nn, q[0])(*[tup(v) for v in q[1]], **{k: tup(v) for k, v in q[2].items()})

        torch.manual_seed(7)
        src = go(st["net"]).to(self.dt)
        if st.get("eval"):
            src.eval()
        try:
            mod = nnj.convert_to_nnj(src)
        except Exception as e:
            self.rec("refused", ex=repr(e)[:200])
            return
        out = []
        if st.get("eval"):
            mod.eval()
        x = self.xt[0]
        for f in (src, mod):
            torch.manual_seed(11)
            try:
                y = f(x.clone())
                out.append([t.detach().double() for t in (y if isinstance(y, tuple) else (y,))])
            except Exception as e:
                out.append(repr(e)[:200])
        if isinstance(out[0], str):
            raise RuntimeError("the generator made a network that does not run: " + out[0])
        r = dict(st="ok", a=[], b=[])
        if isinstance(out[1], str):
            return self.rec("refused", ex=out[1])  # it does not run, and says so
        r["a"] = [list(t.shape) for t in out[0]]
        r["b"] = [list(t.shape) for t in out[1]]
        if r["a"] == r["b"]:  # deviations, in units of 1e-9
            r["b"] = [int(min(1e9, (a - b).abs().max().item() / 1e-9)) if a.numel() else 0 for a, b in zip(*out)]
            r["a"] = [0 for _ in r["b"]]
        r["net"] = repr(st["net"])[:300]
        self.rec("same", **r)

    def do_refresh(self, st):
        """the structure of an object was changed through another one (no observation)"""
        o = self.objs[st["o"]]
        self.objs[st["o"]] = self.make(st["m"], o.d, o.mod)

    def inside(self, mod, path):
        for i in path:
            mod = mod[i]
        return mod

    def do_setw(self, st):
        o = self.objs[st["o"]]
        if st.get("raw"):  # the structure is refreshed before the next product
            self.inside(o.mod, st["path"]).set_weight(self.kept(torch.tensor(st["p"], dtype=self.dt), st))
            self.rec("setw", o=st["o"], p=st["p"], path=st["path"])
            return
        p = self.real(o, st["p"])
        o.mod.set_weight(self.kept(layout(p, st.get("lay", "c"), self.rng), st))
        o.tree = nets.with_params(o.tree, st["p"])
        o.ann = nets.units(o.tree, o.d, o.s)[0]
        self.rec("setw", o=st["o"], p=st["p"], path=[])
        for k in st.get("also", ()):  # objects made of the same layers
            q = self.objs[k]
            q.tree = nets.with_params(q.tree, st["p"])
            q.ann = nets.units(q.tree, q.d, q.s)[0]

    def kept(self, p, st):
        """the caller keeps one vector, and writes the new weights into it"""
        if not st.get("same"):
            return p
        v = self.vecs.setdefault((p.numel(), p.dtype), p)
        if v is not p:
            v.copy_(p)
        return v

    def real(self, o, p):
        """integer weights in the units of the network"""
        return (torch.tensor(p, dtype=torch.float64) * torch.tensor(nets.weight_units(o.ann), dtype=torch.float64)).to(self.dt)

    def do_copy(self, st):
        o = self.objs[st["o"]]
        how = st.get("how", "deepcopy")
        if how == "deepcopy":
            mod = copy.deepcopy(o.mod)
        elif how == "pickle":
            buf = io.BytesIO()
            torch.save(o.mod, buf)
            buf.seek(0)
            mod = torch.load(buf, weights_only=False)
        elif how == "state":
            mod = nets.build(o.ann, torch, nnj, custom, self.dt)
            mod.load_state_dict(o.mod.state_dict())
        self.objs[st["to"]] = Obj(o.tree, o.d, o.s, mod, o.ann, o.out_u, o.R, o.C, o.Rw)
        self.rec("copy", o=st["o"], to=st["to"])

    def do_slice(self, st):
        """a Sequential made of layers a..b-1 of another one, sharing them"""
        o = self.objs[st["o"]]
        mod = o.mod[st["a"]:st["b"]]
        d = o.d
        if "m" in st:
            self.objs[st["to"]] = self.make(st["m"], d, mod)
            self.rec("slice", o=st["o"], to=st["to"], a=st["a"], b=st["b"])
            return
        for l in o.tree["ls"][:st["a"]]:
            d = nets.out_shape(l, d)
        tree = {"t": "seq", "ls": o.tree["ls"][st["a"]:st["b"]]}
        self.objs[st["to"]] = self.make(tree, d, mod)
        self.rec("slice", o=st["o"], to=st["to"], a=st["a"], b=st["b"])

    def do_share(self, st):
        """a new object made of the live objects `parts' (shared, not copied)"""
        mods = [self.objs[k].mod for k in st["parts"]]
        tree = {"t": st["kind"], "ls": [self.objs[k].tree for k in st["parts"]]}
        cls = nnj.Sequential if st["kind"] == "seq" else nnj.SkipConnection
        self.objs[st["o"]] = self.make(tree, self.objs[st["parts"][0]].d, cls(*mods))
        self.rec("share", o=st["o"], kind=st["kind"], parts=st["parts"])

    def do_edit(self, st):
        o = self.objs[st["o"]]
        kind, i = st["kind"], st["i"]
        new = None
        if kind != "del":
            ann = nets.annotate(st["m"], 1.0)[0]
            new = nets.build(ann, torch, nnj, custom, self.dt)
        box = self.inside(o.mod, st.get("path", ()))
        if kind == "append":
            box.append(new)
        elif kind == "set":
            box[i] = new
        elif kind == "del":
            del box[i]
        elif kind == "ins":
            box.insert(i, new)
        if "path" in st:
            self.rec("edit", o=st["o"], kind=kind, i=i, m=clean(st["m"]), path=st["path"])
            return
        ls = list(o.tree["ls"])
        if kind == "append":
            ls.append(st["m"])
        elif kind == "set":
            ls[i] = st["m"]
        elif kind == "del":
            del ls[i]
        else:
            ls.insert(i, st["m"])
        self.objs[st["o"]] = self.make({"t": "seq", "ls": ls}, o.d, o.mod)
        self.rec("edit", o=st["o"], kind=kind, i=i, m=clean(st["m"]) if new is not None else {"t": "flat"}, path=[])

    # ---- observations
    def do_getw(self, st):
        o = self.objs[st["o"]]
        r = dict(o=st["o"], st="ok", n=0, res=[])
        try:
            w = o.mod.get_weight() if nets.n_params(o.tree) else torch.zeros(0, dtype=self.dt)
            r["n"] = w.numel() if w.dim() == 1 else -1
            u = nets.weight_units(o.ann)
            r["res"] = to_ints(w.detach(), torch.tensor(u, dtype=torch.float64) if w.numel() == len(u) else None, self.tol)
            if st.get("scribble"):  # the returned vector belongs to the caller
                w.fill_(99.0)
        except Bad as b:
            r["st"] = str(b)
        except Exception as e:
            r["st"], r["ex"] = "raised", repr(e)[:200]
        self.rec("getw", **r)

    def do_tied(self, st):
        """the weight Jacobian of a Sequential in which one layer stands twice"""
        o = self.objs[st["o"]]
        x = self.xt[st["x"] - 1]
        r = dict(o=st["o"], x=st["x"], path=st["path"], st="ok", n=0, rs="", res=[])
        try:
            r["n"] = o.mod.get_weight().numel()
            j = o.mod.jacobian(x, None, wrt="weight")
            r["rs"] = shape_str(j)
            r["res"] = to_ints(j.detach(), None, self.tol)
        except Bad as b:
            r["st"] = str(b)
        except Exception as e:
            r["st"], r["ex"] = "raised", repr(e)[:200]
        self.rec("tied", **r)

    def do_scribble(self, st):
        """set_weight with a vector that the caller goes on using"""
        o = self.objs[st["o"]]
        p = self.real(o, st["p"])
        o.mod.set_weight(p)
        p += 17
        o.tree = nets.with_params(o.tree, st["p"])
        o.ann = nets.units(o.tree, o.d, o.s)[0]
        self.rec("setw", o=st["o"], p=st["p"], path=[])

    def do_pwrite(self, st):
        """write the parameters one by one, not through set_weight"""
        o = self.objs[st["o"]]
        k = 0
        how = st.get("how", "inplace")
        new = []
        real = self.real(o, st["p"])
        for q in o.mod.parameters():
            new.append(real[k:k + q.numel()].reshape(q.shape).clone())
            k += q.numel()
        if how == "inplace":  # as an optimiser does
            with torch.no_grad():
                for q, v in zip(o.mod.parameters(), new):
                    q.copy_(v)
        elif how == "data":
            for q, v in zip(o.mod.parameters(), new):
                q.data = v
        elif how == "sgd":
            old = [(q.requires_grad, q.grad) for q in o.mod.parameters()]
            for q, v in zip(o.mod.parameters(), new):
                q.grad = q.detach() - v
            torch.optim.SGD(o.mod.parameters(), lr=1.0).step()
            for q, (r, g) in zip(o.mod.parameters(), old):
                q.grad = g
        elif how == "state":
            o.mod.load_state_dict(dict(zip([n for n, _ in o.mod.named_parameters()], new)))
        elif how == "replace":
            names = [n for n, _ in o.mod.named_parameters()]
            for n, v in zip(names, new):
                path, _, leaf = n.rpartition(".")
                setattr(o.mod.get_submodule(path), leaf, torch.nn.Parameter(v))
        o.tree = nets.with_params(o.tree, st["p"])
        o.ann = nets.units(o.tree, o.d, o.s)[0]
        self.rec("setw", o=st["o"], p=st["p"], path=[])

    def do_cast(self, st):
        """from now on another floating dtype (no observation): all objects and inputs"""
        self.dt = DT[st["dt"]]
        self.tol = 1e-6 if st["dt"] == "f64" else 2e-2  # the inputs keep the rounding of single precision
        for o in self.objs.values():
            o.mod.to(self.dt)
            if st.get("exact"):  # the rounding of the weights is not what is looked at
                for q, v in zip(o.mod.parameters(), nets.build(o.ann, torch, nnj, custom, self.dt).parameters()):
                    q.data = v.data.clone()
        self.xt = [t.detach().to(self.dt) for t in self.xt]

    def do_mode(self, st):
        self.objs[st["o"]].mod.train(st["train"])

    def do_refill(self, st):
        """the tensor of input st.x now holds input st.to"""
        with torch.no_grad():
            self.xt[st["x"] - 1].copy_(self.xt[st["to"] - 1])
        self.xt[st["to"] - 1] = self.xt[st["x"] - 1]

    def do_rewrite(self, st):
        """write back what was read"""
        o = self.objs[st["o"]]
        o.mod.set_weight(o.mod.get_weight())

    def do_inner(self, st):
        """evaluate an inner module on its own input (no observation)"""
        o = self.objs[st["o"]]
        mod, x, tree = o.mod, self.xt[st["x"] - 1], o.tree
        with torch.no_grad():
            for i in st["path"]:
                if tree["t"] == "skip":  # the composition it wraps, whatever the attribute is called
                    mod = next((c for c in mod.children() if isinstance(c, torch.nn.Sequential)), None)
                    if mod is None:
                        return
                for l in list(mod)[:i]:
                    x = l(x)
                mod = list(mod)[i]
                tree = tree["ls"][i]
            if st.get("other"):
                x = x.flip(0) * 2 + 1
            try:
                mod(x)
                for op in st.get("then", ()):  # whatever it leaves behind
                    self.query(mod, x, op)
            except Exception:
                pass

    def do_fwd(self, st):
        o = self.objs[st["o"]]
        x = self.xt[st["x"] - 1]
        r, old = dict(o=st["o"], x=st["x"], st="ok", d=[], res=[]), []
        try:
            y = o.mod(x)
            if st.get("grad"):
                y.sum()
            y = y.detach()
            old = self.hold(o, [x], y)
            o.stash = getattr(o, "stash", {})
            o.stash[st["x"]] = y
            if y.shape[0] != x.shape[0] or y.dtype != x.dtype:
                r["st"] = "batch or dtype"
            else:
                r["d"] = list(y.shape[1:])
                u = torch.tensor(o.out_u, dtype=y.dtype) if y[0].numel() == len(o.out_u) else None
                y = y.reshape(y.shape[0], -1)[self.keep[st["x"] - 1]]
                r["res"] = to_ints(y, u, self.tol)
        except Bad as b:
            r["st"] = str(b)
        except Exception as e:
            r["st"], r["ex"] = "raised", repr(e)[:200]
        self.rec("fwd", **r)
        if old:
            self.rec("fx", fl=old)

    def arg(self, o, st, B):
        """(real argument, undo) for the integer argument of a call"""
        op, wrt = st["op"], st["wrt"]
        if op == "jac" or st["nn"]:
            return None
        n_out = len(o.out_u)
        rows = torch.tensor(o.R if wrt == "input" else o.Rw, dtype=torch.float64)
        cols = torch.ones(nets.prod(o.d), dtype=torch.float64) if wrt == "input" else torch.tensor(o.C, dtype=torch.float64)
        u = cols if op in ("jvp", "jmp", "jmjTp") else rows
        if st["lst"] and not st["fd"]:
            off, out = 0, []
            for k in range(len(st["a"][0])):
                t = torch.tensor([a[k] for a in st["a"]], dtype=torch.float64)
                n = t.shape[1]
                uu = u[off:off + n]
                out.append(layout((t / uu[:, None] / uu[None, :]).to(self.dt), st.get("lay", "c"), self.rng))
                off += n
            return nest_like(o.tree, out)
        t = torch.tensor(st["a"], dtype=torch.float64)
        if op in ("jvp", "vjp"):
            t = t / u
        elif op == "jmp":
            t = t / u[:, None]
        elif op == "mjp":
            t = t / u[None, :]
        elif st["fd"]:
            t = t / (u * u)
        else:
            t = t / u[:, None] / u[None, :]
        t = t.to(self.dt)
        if st["lst"]:
            off, out = 0, []
            for l in nets.leaves(o.tree):
                n = nets.n_params(l)
                if n:
                    out.append(t[:, off:off + n].clone())
                off += n
            return nest_like(o.tree, out)
        return layout(t, st.get("lay", "c"), self.rng)

    def unscale(self, o, st, t):
        """unit of every entry of the result"""
        op, wrt = st["op"], st["wrt"]
        rows = torch.tensor(o.R if wrt == "input" else o.Rw, dtype=t.dtype)
        cols = torch.ones(nets.prod(o.d), dtype=t.dtype) if wrt == "input" else torch.tensor(o.C, dtype=t.dtype)
        if op == "jac" and st["td"]:
            u = rows * cols if len(rows) == len(cols) else rows
        elif op == "jac" or (op in ("jmp", "mjp") and st["nn"]):
            u = rows[:, None] * cols[None, :]
        elif op == "jvp":
            u = rows
        elif op == "vjp":
            u = cols
        elif op == "jmp":
            u = rows[:, None]
        elif op == "mjp":
            u = cols[None, :]
        else:
            v = rows if op == "jmjTp" else cols
            # with an omitted matrix the other unit (uniform by construction of the plan) stays in the result
            w = 1.0
            if st["nn"]:
                q = cols if op == "jmjTp" else rows
                w = float(q[0] ** 2) if len(q) else 1.0
            u = (v * v if st["td"] else v[:, None] * v[None, :]) * w
        return u

    def do_call(self, st, kind="call"):
        o = self.objs[st["o"]]
        x = self.xt[st["x"] - 1]
        B = x.shape[0]
        op, wrt = st["op"], st["wrt"]
        r = dict(o=st["o"], x=st["x"], op=op, wrt=wrt, fd=st["fd"], td=st["td"], db=st["db"], nn=st["nn"],
                 lst=st["lst"] and not st["fd"], a=[v for b, v in enumerate(st.get("a") or []) if b in self.keep[st["x"] - 1]], st="ok", rs="", res=[])
        fl, old = [], []
        try:
            vm = st.get("val", "none")
            if vm == "none":
                val = None
            elif vm == "self":
                val = o.mod(x)
            elif vm == "stash":
                val = o.stash[st["x"]]
            else:
                val = self.twin(o)(x.detach().clone())
            if isinstance(val, torch.Tensor) and not st.get("valgrad"):
                val = val.detach()
            a = self.arg(o, st, B)
            if st.get("arggrad") and isinstance(a, torch.Tensor) and a.stride() and 0 not in a.stride():
                a = a.detach().requires_grad_(True)
            snap = self.snapshot(o, x, val, a) if self.watch else None
            f = getattr(o.mod, {"jac": "jacobian"}.get(op, op))
            kw = {}
            if op in ("jmjTp", "jTmjp"):
                if st["fd"] or not st.get("deflt"):
                    kw["from_diag"] = st["fd"]
                if st["td"] or not st.get("deflt"):
                    kw["to_diag"] = st["td"]
                if st["db"] or not st.get("deflt"):
                    kw["diag_backprop"] = st["db"]
            if wrt == "weight" or not st.get("deflt"):
                kw["wrt"] = wrt
            if op == "jac" and st["td"]:
                kw["diag"] = True
            style = st.get("style", "")
            with CTX[st.get("ctx", "")]():
                if st.get("via") == "grad":
                    res = self.autograd(o, x, a, wrt, st.get("between", ()))
                elif style == "pos" and op == "jac":
                    res = f(x, val, wrt, *([True] if st["td"] else []))
                elif style == "pos":
                    res = f(x, val, a, wrt, *([st["fd"], st["td"], st["db"]] if op in ("jmjTp", "jTmjp") else []))
                elif style == "kw":
                    kw[{"jac": "wrt", "jvp": "vector", "vjp": "vector"}.get(op, "matrix")] = a if op != "jac" else wrt
                    res = f(val=val, x=x, **kw)
                else:
                    res = f(x, val, **kw) if op == "jac" else f(x, val, a, **kw)
            if self.watch:
                fl = self.compare(snap, o, x, val, a, res)
            old = self.hold(o, [x, val] + self.tensors(a), res)
            if res is None:
                r["st"] = "none"
            else:
                r["rs"] = shape_str(res)
                if isinstance(res, (list, tuple)):
                    parts = flatten_nest(res)
                    off, got = 0, []
                    for p in parts:
                        n = p.shape[-1]
                        cs = torch.tensor(o.C[off:off + n], dtype=p.dtype)
                        u = cs[:, None] * cs[None, :]
                        if st["nn"]:
                            u = u * float(o.Rw[0] ** 2)
                        p = p.detach()[self.keep[st["x"] - 1]] if p.shape[0] == B else p.detach()
                        got.append(to_ints(p, u if u.shape == p.shape[1:] else None, self.tol))
                        off += n
                    r["res"] = [[g[b] for g in got] for b in range(len(got[0]))]
                else:
                    res = res.detach()
                    u = self.unscale(o, st, res)
                    ok = res.dim() >= 2 and (res.shape[1:] == u.shape or (u.dim() == 2 and res.dim() == 3 and all(
                        q in (1, n) for q, n in zip(u.shape, res.shape[1:]))))
                    if res.shape[0] == B:
                        res = res[self.keep[st["x"] - 1]]
                    r["res"] = to_ints(res, u if ok else None, self.tol)
        except Bad as b:
            r["st"] = str(b)
        except NotImplementedError as e:
            r["st"], r["ex"] = "declined", repr(e)[:200]
        except Exception as e:
            r["st"], r["ex"] = "raised", repr(e)[:200] + " " + traceback.format_exc().strip().split("\n")[-2][:150]
        self.rec(kind, **r)
        if self.watch or old:
            self.rec("fx", fl=(fl if self.watch else []) + old)

    def hold(self, o, args, res):
        """Did this call change what an earlier one returned? (Some results are views of an argument or of the weights: those are
        not held.) Every tensor of the result is held for the calls to come."""
        old = ["an earlier result changed"] if any(not bool(((t == cp) | (t != t) & (cp != cp)).all()) for t, cp in self.held) else []
        if old:
            self.held = []
        mine = {t.untyped_storage().data_ptr() for t in [t for t in args if isinstance(t, torch.Tensor)] + self.xt + list(o.mod.parameters())}
        for t in self.tensors(res):
            if isinstance(t, torch.Tensor) and t.numel() and t.untyped_storage().data_ptr() not in mine:
                t = t.detach()
                self.held.append((t, t.clone()))
        self.held = self.held[-12:]
        return old

    def autograd(self, o, x, a, wrt, between):
        """the vector Jacobian product by automatic differentiation through forward; other queries may come before the backward pass"""
        B = x.shape[0]
        ps = list(o.mod.parameters())
        if wrt == "weight" and not ps:
            return None
        rg = [p.requires_grad for p in ps]
        for p in ps:
            p.requires_grad_(True)
        try:
            xx = x.detach().requires_grad_(True)
            y = o.mod(xx)
            y0 = y.detach().clone()
            for op, other in between:
                try:
                    z = xx if other == 2 else x.detach().flip(0) * 2 + 1 if other else x.detach()
                    self.query(o.mod, z.detach().clone().requires_grad_(True) if other == 3 else z, op)
                except NotImplementedError:
                    pass
            if not torch.equal(y.detach(), y0):
                raise Bad("output changed")
            a = a.detach().reshape(y.shape)
            if wrt == "input":
                return torch.autograd.grad(y, xx, a)[0].reshape(B, -1)
            rows = []
            for b in range(B):
                g = torch.autograd.grad(y[b], ps, a[b], retain_graph=b < B - 1)
                rows.append(torch.cat([q.reshape(-1) for q in g]))
            return torch.stack(rows)
        finally:
            for p, q in zip(ps, rg):
                p.requires_grad_(q)

    def query(self, mod, x, op):
        y = mod(x)
        n, q = y[0].numel(), y.shape[0]
        if op == "vjp":
            mod.vjp(x, None, torch.ones(q, n, dtype=x.dtype))
        elif op == "vjpw":
            mod.vjp(x, None, torch.ones(q, n, dtype=x.dtype), wrt="weight")
        elif op == "jvp":
            mod.jvp(x, None, torch.ones(q, x[0].numel(), dtype=x.dtype))
        elif op == "jac":
            mod.jacobian(x)
        elif op == "jTmjp":
            mod.jTmjp(x, None, None, from_diag=True, to_diag=True)

    def do_maycall(self, st):
        self.do_call(st, "maycall")

    # ---- likelihoods
    def do_lik(self, st):
        o = self.objs[st["o"]]
        x = self.xt[st["x"] - 1]
        B = x.shape[0]
        r = {k: st[k] for k in ("o", "x", "kind", "sat", "c", "td", "t", "sc", "e2", "agg", "wrt", "back", "shape", "op")}
        r.update(st="ok", rs="", res=[])
        try:
            cls = {"gauss": nnj.LogGaussian, "bin": nnj.LogBinaryBernoulli, "cat": nnj.LogBernoulli}[st["kind"]]
            kw = {}
            if st["agg"] != "return all" or not st.get("deflt"):
                kw["aggregate_batch"] = st["agg"]
            if st["shape"] != "diag" or not st.get("deflt"):
                kw["metric_shape"] = st["shape"]
            if st["back"] != "exact" or not st.get("deflt"):
                kw["metric_backprop"] = st["back"]
            L = cls(**kw)
            t = (torch.tensor(st["t"], dtype=torch.float64) / st["td"] * st.get("gu", 1.0)).to(torch.int64 if st.get("it") else self.dt)
            t = layout(t.reshape([B] + nets.out_shape(o.tree, o.d)), st.get("lay", "c"), self.rng)
            snap = self.snapshot(o, x, t, None) if self.watch else None
            if st["op"] == "value":
                res = L(x, o.mod, t)
            elif st["op"] == "grad":
                res = L.gradient(x, o.mod, t, wrt=st["wrt"]) if st["wrt"] != "weight" or not st.get("deflt") else L.gradient(x, o.mod, t)
            else:
                res = L.ggn(x, o.mod, t if not st.get("notarget") else None, wrt=st["wrt"])
            fl = self.compare(snap, o, x, t, None, res) if self.watch else None
            agg = st["agg"] != "return all"
            mul = B if st["agg"] == "average" else 1
            if res is None:
                r["st"] = "none"
            elif st["op"] == "value":
                want = [] if agg else [B]
                if list(res.shape) != want or res.dtype != x.dtype:
                    raise Bad("shape of the value")
                v = res.detach().to(torch.float64).reshape(-1, 1) * mul
                if st["kind"] == "gauss":
                    v = v * 2 * (st["td"] / st.get("gu", 1.0)) ** 2
                elif st["sat"]:
                    v = v * st["td"]
                else:
                    e2 = torch.tensor([[float(sum(st["e2"]))]] if agg else [[float(e)] for e in st["e2"]], dtype=torch.float64) / st["td"]
                    v = torch.exp(-v + e2 * math.log(2.0))
                r["res"] = to_ints(v, None, max(self.tol, 1e-6 if st["kind"] == "gauss" or st["sat"] else 1e-3))
            else:
                parts = flatten_nest(res)
                if agg:
                    parts = [p.unsqueeze(0) for p in parts]
                    res = add_batch(res)
                r["rs"] = shape_str(res)
                u = [o.R[0]] * nets.prod(o.d) if st["wrt"] == "input" else o.C
                u = torch.tensor(u, dtype=torch.float64)
                if st["wrt"] == "weight":
                    u = u * o.Rw[0]
                got, off = [], 0
                for p in parts:
                    p = p.detach().to(torch.float64) * (mul * st["sc"] / (st.get("gu", 1.0) if st["op"] == "grad" else 1.0))
                    n = p.shape[-1]
                    uu = u[off:off + n] if len(parts) > 1 or p.shape[-1] != len(u) else u
                    if len(uu) == n:
                        if st["op"] == "grad":
                            p = p / uu
                        elif st["shape"] == "diag" or p.dim() == 2:
                            p = p / (uu * uu)
                        else:
                            p = p / (uu[:, None] * uu[None, :])
                    got.append(to_ints(p, None, max(self.tol, 1e-6 + 1e-11 * st["sc"])))
                    off += n
                if isinstance(res, list):
                    r["res"] = [[g[b] for g in got] for b in range(len(got[0]))]
                else:
                    r["res"] = got[0]
        except Bad as b:
            r["st"] = str(b)
        except Exception as e:
            r["st"], r["ex"] = "raised", repr(e)[:200]
        self.rec("lik", **r)
        if self.watch and r["st"] == "ok":
            self.rec("fx", fl=[f for f in fl if f != "result is not a tensor"])

    # ---- inversion
    def do_inv(self, st):
        """st.a: per sample a structure of integer matrices; st.how: '2d' (no batch dimension) or 'batch'"""
        def build(ss):  # the structures of all samples -> nested lists of tensors
            if ss[0]["k"] == "l":
                return [build([q["r"][k] for q in ss]) for k in range(len(ss[0]["r"]))]
            t = torch.tensor([q["r"] for q in ss], dtype=torch.float64) / st.get("den", 1)
            t = t.to(self.dt)
            return layout(t if st["how"] == "batch" else t[0], st.get("lay", "c"), self.rng)

        def shape(t):
            return "[" + ",".join(shape(v) for v in t) + "]" if isinstance(t, list) else "x".join(map(str, t.shape)) + str(t.dtype)

        def back(t, b):
            if isinstance(t, list):
                return dict(k="l", r=[back(v, b) for v in t])
            v = (t[b] if st["how"] == "batch" else t).detach().to(torch.float64) * (st["sc"] / st.get("den", 1))
            return dict(k="m", r=to_ints(v, None, 1e-3))

        r = dict(a=st["a"], sc=st["sc"], st="ok", rs="", res=[])
        arg = build(st["a"])
        r["as"] = shape(arg)
        before = [t.clone() for t in flatten_nest(arg)]
        fl = []
        try:
            res = nnj.invert_block_diagonal(arg)
            r["rs"] = shape(res)
            if any(not torch.equal(a, b) for a, b in zip(before, flatten_nest(arg))) or shape(arg) != r["as"]:
                fl.append("argument changed")
            if r["rs"] == r["as"]:
                r["res"] = [back(res, b) for b in range(len(st["a"]))]
                mx = max(abs(v) for q in r["res"] for v in nums(q))
                if mx > 2 ** 20:
                    r["st"] = "big"
        except Bad as b:
            r["st"] = str(b)
        except Exception as e:
            r["st"], r["ex"] = "raised", repr(e)[:200]
        self.rec("inv", **r)
        self.rec("fx", fl=fl)

    # ---- activations
    def act_layer(self, st):
        a = st["a"]
        if a == "splus":
            kw = {}
            if st.get("beta", 1) != 1 or st.get("thr") is not None:
                kw = dict(beta=st.get("beta", 1))
                if st.get("thr") is not None:
                    kw["threshold"] = st["thr"]
            if st.get("via") == "convert":
                return nnj.convert_to_nnj(torch.nn.Sequential(torch.nn.Softplus(**kw)))
            l = nnj.Softplus(**kw)
        elif a == "relu":
            l = nnj.ReLU()
        else:
            l = {"tanh": nnj.Tanh, "sigm": nnj.Sigmoid, "texp": nnj.TruncExp, "sin": nnj.Sinusoidal}[a]()
        if st.get("via") == "seq":
            return nnj.Sequential(l)
        return l

    def do_tab(self, st):
        """an activation at tabulated points: st.pts, the batch has st.B rows"""
        f64 = torch.float64
        beta = st.get("beta", 1)
        pts = [dict(p) for p in st["pts"]]
        xs = []
        for p in pts:
            if p["c"] == "ln":
                xs.append(math.log(p["p"] / p["q"]) / beta)
            elif p["c"] == "tail":
                xs.append(p["s"] * p["j"] * nets.LN2 / beta)
            elif p["c"] == "sat":
                xs.append(p["s"] * float(p["n"]) / beta)
            else:
                xs.append(p["n"] * math.pi / 6 if st["a"] == "sin" else float(p["n"]))
        x = torch.tensor(xs, dtype=f64).reshape([st["B"]] + st["d"]).to(self.dt)
        r = dict(op=st["op"], a=st["a"], st="ok", pts=[])
        try:
            mod = self.act_layer(st).to(self.dt)
            B = st["B"]
            if st["op"] == "val":
                y = mod(x).detach().reshape(-1)
            else:
                how, n = st["how"], x[0].numel()
                val = None if st.get("noval") else mod(x)
                if how == "jac":
                    j = mod.jacobian(x, val)
                    y = torch.diagonal(j, dim1=1, dim2=2)
                    if bool((j - torch.diag_embed(y)).any()) or list(j.shape) != [B, n, n]:
                        raise Bad("not diagonal")
                elif how == "grad":
                    xx = x.clone().requires_grad_(True)
                    y = torch.autograd.grad(mod(xx).sum(), xx)[0].reshape(B, n)
                elif how in ("jvp", "vjp"):
                    y = getattr(mod, how)(x, val, torch.ones(B, n, dtype=self.dt))
                elif how in ("jmp", "mjp"):
                    y = getattr(mod, how)(x, val, torch.eye(n, dtype=self.dt).repeat(B, 1, 1))
                    y = torch.diagonal(y, dim1=1, dim2=2)
                else:  # metric: the square of the derivative, up to its sign
                    y = getattr(mod, how)(x, val, torch.ones(B, n, dtype=self.dt), from_diag=True, to_diag=True).sqrt()
                    if st["a"] == "sin":
                        y = y * torch.cos(x.reshape(B, n)).sign()
                if list(y.shape) != [B, n] or y.dtype != self.dt:
                    raise Bad("shape")
                y = y.detach().reshape(-1)
            y = y.to(f64).tolist()
            for p, v, xv in zip(pts, y, xs):
                q = self.tab_int(st, p, v, xv, beta)
                if q != q or abs(q) >= 2 ** 31:
                    raise Bad("nonfinite")
                p["r"] = round(q)
                if p["c"] in ("ln", "int") and abs(q - p["r"]) > (1e-9 if self.dt == f64 else 5e-3) * max(1.0, abs(p["r"])):
                    raise Bad("nonint")
                p.setdefault("thr", 1000)
            r["pts"] = pts
        except Bad as b:
            r["st"] = str(b)
        except Exception as e:
            r["st"], r["ex"] = "raised", repr(e)[:200]
        self.rec("tab", **r)

    def tab_int(self, st, p, v, x, beta):
        """the integer the specification tabulates"""
        a, op, c = st["a"], st["op"], p["c"]
        if c == "ln":
            if a == "splus" and op == "val":
                v = math.exp(beta * v)
            return v * p["den"]
        if c == "tail" and a == "texp":
            return v * 2.0 ** (-p["s"] * p["j"]) * 1000
        if c == "tail" and a == "splus" and p["s"] > 0:
            return (1.0 - v) * 2.0 ** p["j"] * 1000
        if c == "tail":
            return v * (4.0 if a == "tanh" else 2.0) ** p["j"] * 1000
        if c == "sat":
            if a == "texp":
                return v * 1e6 * math.exp(-15 * p["s"]) if op == "der" else v * math.exp(-x) * 1e6
            if a == "splus" and op == "val" and p["s"] > 0:
                return v / x * 1e6
            return v * 1e6
        if a == "sin":
            return math.copysign(4 * v * v, v)
        return v

    def do_l2(self, st):
        x = self.xt[st["x"] - 1]
        B = x.shape[0]
        u = self.s0
        r = dict(x=st["x"], eps=st["eps"], op=st["op"], a=st.get("a") or [], dens=st["dens"], st="ok", res=[])
        try:
            mod = nnj.L2Norm(eps=st["eps"] * u)
            if st.get("via") == "seq":
                mod = nnj.Sequential(mod)
            n = x[0].numel()
            val = None if st.get("noval") else mod(x)
            if st.get("grad"):
                xx = x.detach().clone().requires_grad_(True)
                out = mod(xx)
                y = torch.autograd.grad(out, xx, torch.tensor(st["a"], dtype=torch.float64).to(self.dt).reshape(out.shape))[0].reshape(B, -1)
            elif st["op"] == "fwd":
                y = mod(x)
                if y.shape != x.shape:
                    raise Bad("shape")
                y = y.reshape(B, -1)
            else:
                a = torch.tensor(st["a"], dtype=torch.float64).to(self.dt) if st.get("a") else None
                y = (mod.jacobian(x, val) if st["op"] == "jac" else getattr(mod, st["op"])(x, val, a) if st["op"] != "jTmjp"
                     else mod.jTmjp(x, val, a, from_diag=True, to_diag=True))
                if list(y.shape) != ([B, n, n] if st["op"] == "jac" else [B, n]):
                    raise Bad("shape")
            if y.dtype != x.dtype:
                raise Bad("dtype")
            y = y.detach().to(torch.float64)
            pw = {"fwd": 0, "jTmjp": 2}.get(st["op"], 1)  # the Jacobian scales with one over the unit
            dens = torch.tensor(st["dens"], dtype=torch.float64).reshape([B] + [1] * (y.dim() - 1))
            r["res"] = to_ints(y * dens * u ** pw, None, 1e-6 if self.dt == torch.float64 else 0.05)
        except Bad as b:
            r["st"] = str(b)
        except Exception as e:
            r["st"], r["ex"] = "raised", repr(e)[:200]
        self.rec("l2", **r)

    # ---- purity
    def tensors(self, a):
        return flatten_nest(a) if a is not None else []

    def snapshot(self, o, x, val, a):
        ts = [x] + ([val] if val is not None else []) + self.tensors(a)
        ps = list(o.mod.parameters())
        return dict(
            t=[(t, t._version, t.detach().clone(), t.requires_grad, tuple(t.shape), t.stride()) for t in ts],
            p=[(p, p.detach().clone(), p.requires_grad, None if p.grad is None else p.grad.clone(), p.data_ptr()) for p in ps],
            names=[n for n, _ in o.mod.named_parameters()],
            mode=[m.training for m in o.mod.modules()],
            rng=torch.get_rng_state(),
            lens=lens(a),
            gmode=torch.is_grad_enabled(),
            ddt=torch.get_default_dtype(),
            keys=list(o.mod.state_dict()),
            hooks=[len(m._forward_hooks) + len(m._forward_pre_hooks) + len(m._backward_hooks) for m in o.mod.modules()],
        )

    def compare(self, s, o, x, val, a, res):
        fl = []
        for (t, ver, cp, rg, sh, stri) in s["t"]:
            if tuple(t.shape) != sh or not torch.equal(t.detach(), cp):
                fl.append("argument changed")
            if t.requires_grad != rg:
                fl.append("argument requires_grad changed")
            if t.is_leaf and rg and t.grad is not None:
                fl.append("gradient accumulated in argument")
        if lens(a) != s["lens"]:
            fl.append("argument list changed")
        ps = list(o.mod.parameters())
        if [n for n, _ in o.mod.named_parameters()] != s["names"]:
            fl.append("parameters renamed")
        for (p, cp, rg, g, ptr) in s["p"]:
            if not any(p is q for q in ps) or not torch.equal(p.detach(), cp):
                fl.append("weights changed")
            if p.requires_grad != rg:
                fl.append("weight requires_grad changed")
            if (p.grad is None) != (g is None) or (g is not None and not torch.equal(p.grad, g)):
                fl.append("weight gradient changed")
        if [m.training for m in o.mod.modules()] != s["mode"]:
            fl.append("training mode changed")
        if not torch.equal(torch.get_rng_state(), s["rng"]):
            fl.append("random state consumed")
        if torch.get_default_dtype() != s["ddt"]:
            fl.append("default dtype changed")
        if list(o.mod.state_dict()) != s["keys"]:
            fl.append("state dict changed")
        if [len(m._forward_hooks) + len(m._forward_pre_hooks) + len(m._backward_hooks) for m in o.mod.modules()] != s["hooks"]:
            fl.append("hooks changed")
        if torch.is_grad_enabled() != s["gmode"]:
            fl.append("grad mode changed")
        for r in self.tensors(res):
            if not isinstance(r, torch.Tensor):
                fl.append("result is not a tensor")
            elif r is not x and r is not val and not any(r is t for t in self.tensors(a)):
                # (a view of an argument inherits requires_grad, but has no history when made under no_grad)
                if r.grad_fn is not None or (r.requires_grad and not r._is_view()):
                    fl.append("result is recorded for differentiation")
                if r.dtype != x.dtype:
                    fl.append("dtype of the result")
        return sorted(set(fl))


def add_batch(t):
    return [add_batch(v) for v in t] if isinstance(t, list) else t.unsqueeze(0)


def nums(q):
    return [v for r in q["r"] for v in r] if q["k"] == "m" else [v for r in q["r"] for v in nums(r)]


def lens(a):
    return [lens(v) for v in a] if isinstance(a, (list, tuple)) else 0


def clean(m):
    """the tree as the specification sees it"""
    out = {k: v for k, v in m.items() if k not in ("how", "so", "share", "rw", "rb", "inner")}
    if "ls" in out:
        out["ls"] = [clean(l) for l in out["ls"]]
    return out


def run_plan(plan):
    return Driver(plan).run()
