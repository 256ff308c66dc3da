"""Mutation sweep (development): which changes of nnj/ do the recorded sessions notice?

  mutate.py plans OUT.pkl [--scale F] [--seed N]    generate the sessions of every property, record them on /repo
  mutate.py run PLANS.pkl [--guards] [--n N] [--file F] [--seed N] [--jobs J]

A mutant is noticed when some session is recorded differently from the unchanged code (the baseline recordings are the
ones TLC accepts, and the specification determines values, so that a different recording is a disagreement).
Nothing here is used by the checks.
"""
import argparse
import ast
import copy
import hashlib
import json
import multiprocessing as mp
import os
import pickle
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = os.path.join(ROOT, "harness")

GUARDS = ["x.shape[0] > 4", "x.shape[0] == 1", "x.shape[0] > 8", "x.dtype == torch.float32", "not x.is_contiguous()", "x.requires_grad",
          "x[0].numel() > 24", "x[0].numel() == 1", "x.shape[1] > 4", "x.shape[1] == 1", "bool((x == 0).any())", "bool((x.abs() > 500).any())",
          "bool((x.abs() < 0.05).all())", "x.dim() == 4", "x.dim() == 3", "x.dim() == 2", "x.shape[-1] > x.shape[-2]", "x.shape[-1] < x.shape[-2]",
          "x.shape[0] == x.shape[1]", "bool((x[0] == x[-1]).all())", "val is None", "val is not None", "matrix is None",
          "matrix is not None and isinstance(matrix, list)", "matrix is not None and not isinstance(matrix, list) and not matrix.is_contiguous()",
          "matrix is not None and not isinstance(matrix, list) and matrix.shape[-1] > 8",
          "matrix is not None and not isinstance(matrix, list) and matrix.shape[1] == 1",
          "matrix is not None and not isinstance(matrix, list) and bool((matrix < 0).any())",
          "not vector.is_contiguous()", "bool((vector == 0).any())", "vector.shape[1] > 8", "torch.is_grad_enabled()", "not self.training",
          "x.shape[0] > 1 and bool((x[0] > x[1]).all())",
          "x.shape[0] == 2", "x.shape[0] > 12", "x.shape[1] == 2", "x.shape[1] == 3", "x.shape[-1] == 1", "x.shape[-1] == 2",
          "val is not None and val.shape[1] == 1", "val is not None and val.shape[1] > 4", "val is not None and val.shape[1] == x.shape[1]",
          "val is not None and val.shape[1] > x.shape[1]", "bool((x < 0).all())", "bool((x > 0).all())", "bool((x[0] == 0).all())",
          "x.dtype == torch.float64 and bool((x.abs() > 50).any())", "x.stride(0) == 0", "wrt == 'weight' and x.shape[0] == 3",
          "matrix is not None and not isinstance(matrix, list) and matrix.dim() == 3 and bool((matrix == matrix.transpose(1, 2)).all())" ,
          "matrix is not None and not isinstance(matrix, list) and matrix.dim() == 3 and matrix.shape[1] > matrix.shape[2]",
          "matrix is not None and not isinstance(matrix, list) and matrix.dim() == 3 and matrix.shape[1] < matrix.shape[2]",
          "matrix is not None and not isinstance(matrix, list) and bool((matrix == 0).all())",
          "matrix is not None and not isinstance(matrix, list) and bool((matrix[0] == 0).all())",
          "matrix is not None and not isinstance(matrix, list) and bool((matrix[:1] == matrix).all())",
          "bool((vector == 0).all())", "bool((vector[:1] == vector).all())", "vector.shape[1] == 1", "bool((vector.abs() > 20).any())"]

SWAPS = [("from_diag", "to_diag"), ("x", "val"), ("h1", "w1"), ("h2", "w2"), ("c1", "c2"), ("from_diag", "diag_backprop"),
         ("to_diag", "diag_backprop")]


class Site(Exception):
    pass


def candidates(tree):
    """list of functions that mutate a *fresh copy* of the tree in place; described"""
    out = []

    def node_at(t, path):
        for f, i in path:
            t = getattr(t, f)
            if i is not None:
                t = t[i]
        return t

    def put(t, path, new):
        p = node_at(t, path[:-1])
        f, i = path[-1]
        if i is None:
            setattr(p, f, new)
        else:
            getattr(p, f)[i] = new

    def add(path, new, what):
        out.append((path, new, what))

    def walk(n, path, doc=False):
        line = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            t = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
                 ast.Is: ast.IsNot, ast.IsNot: ast.Is}.get(type(n.ops[0]))
            if t:
                add(path, ast.Compare(n.left, [t()], n.comparators), "compare")
        if isinstance(n, ast.BinOp):
            for a, bs in ((ast.Add, [ast.Sub]), (ast.Sub, [ast.Add]), (ast.Mult, [ast.Div, ast.Add]), (ast.Div, [ast.Mult]),
                          (ast.FloorDiv, [ast.Mult]), (ast.Pow, [ast.Mult])):
                if isinstance(n.op, a):
                    for b in bs:
                        add(path, ast.BinOp(n.left, b(), n.right), "binop %s" % b.__name__)
            add(path, n.left, "left only")
            add(path, n.right, "right only")
        if isinstance(n, ast.UnaryOp):
            add(path, n.operand, "unary dropped")
        if isinstance(n, ast.BoolOp):
            add(path, ast.BoolOp(ast.And() if isinstance(n.op, ast.Or) else ast.Or(), n.values), "and/or")
            for v in n.values:
                add(path, v, "one operand")
        if isinstance(n, ast.Constant) and not doc:
            v = n.value
            if isinstance(v, bool):
                add(path, ast.Constant(not v), "bool")
            elif isinstance(v, (int, float)):
                for w in ([v + 1, v - 1] if isinstance(v, int) else [v * 2, 0.0]):
                    add(path, ast.Constant(w), "const %s" % w)
            elif isinstance(v, str):
                if v in ("input", "weight"):
                    add(path, ast.Constant("weight" if v == "input" else "input"), "wrt")
                elif "->" in v:
                    l, r = v.split("->")
                    if len(r) > 2:
                        add(path, ast.Constant(l + "->" + r[:-2] + r[-1] + r[-2]), "einsum out")
                    for a in sorted(set(l)):
                        for b in sorted(set(l)):
                            if a < b and a.isalpha() and b.isalpha():
                                f = l.split(",")[0]
                                g = f.translate(str.maketrans(a + b, b + a))
                                if f != g:
                                    add(path, ast.Constant(g + l[len(f):] + "->" + r), "einsum in")
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for a, b in SWAPS:
                if n.id == a:
                    add(path, ast.Name(b, ast.Load()), "%s->%s" % (a, b))
                elif n.id == b:
                    add(path, ast.Name(a, ast.Load()), "%s->%s" % (b, a))
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute):
                if n.func.attr in ("clone", "detach", "contiguous", "movedim", "transpose", "unsqueeze", "squeeze", "sum", "flip", "abs",
                                   "expand", "type", "to", "reshape", "flatten", "permute", "sigmoid", "mean", "diagonal", "pow"):
                    if not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("torch", "F")):
                        add(path, n.func.value, "drop .%s()" % n.func.attr)
                    elif n.args:
                        add(path, n.args[0], "drop %s" % n.func.attr)
                if n.func.attr == "zeros_like":
                    add(path, ast.Call(ast.Attribute(n.func.value, "ones_like", ast.Load()), n.args, n.keywords), "ones_like")
                if n.func.attr == "ones_like":
                    add(path, ast.Call(ast.Attribute(n.func.value, "zeros_like", ast.Load()), n.args, n.keywords), "zeros_like")
            for i, k in enumerate(n.keywords):
                ks = n.keywords[:i] + n.keywords[i + 1:]
                add(path, ast.Call(n.func, n.args, ks), "drop keyword %s" % k.arg)
            for i in range(len(n.args) - 1):
                a = list(n.args)
                a[i], a[i + 1] = a[i + 1], a[i]
                if ast.dump(a[i]) != ast.dump(a[i + 1]):
                    add(path, ast.Call(n.func, a, n.keywords), "swap arguments")
        if isinstance(n, ast.Slice):
            for f in ("lower", "upper"):
                v = getattr(n, f)
                if v is not None:
                    for op in (ast.Add, ast.Sub):
                        k = dict(lower=n.lower, upper=n.upper, step=n.step)
                        k[f] = ast.BinOp(v, op(), ast.Constant(1))
                        add(path, ast.Slice(**k), "slice %s" % op.__name__)
                    k = dict(lower=n.lower, upper=n.upper, step=n.step)
                    k[f] = None
                    add(path, ast.Slice(**k), "slice open")
        if isinstance(n, ast.If):
            add(path + [("test", None)], ast.Constant(True), "if True")
            add(path + [("test", None)], ast.Constant(False), "if False")
        if isinstance(n, ast.IfExp):
            add(path, n.body, "ifexp body")
            add(path, n.orelse, "ifexp else")
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Assert)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            add(path, ast.Pass(), "drop statement")
        if isinstance(n, ast.AugAssign) and isinstance(n.op, ast.Add):
            add(path, ast.AugAssign(n.target, ast.Sub(), n.value), "-=")
            add(path, ast.Assign([copy.deepcopy(n.target)], n.value), "+= -> =")
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.BinOp) and isinstance(n.targets[0], ast.Name):
            pass
        if isinstance(n, ast.Raise):
            add(path, ast.Pass(), "drop raise")
        if isinstance(n, (ast.arg, ast.arguments)):
            if isinstance(n, ast.arguments):
                for i, dflt in enumerate(n.defaults):
                    walk(dflt, path + [("defaults", i)])
            return
        for f, v in ast.iter_fields(n):
            if f in ("annotation", "returns", "decorator_list", "ctx", "type_comment"):
                continue
            if isinstance(v, list):
                for i, c in enumerate(v):
                    if isinstance(c, ast.AST):
                        walk(c, path + [(f, i)], doc=False)
            elif isinstance(v, ast.AST):
                walk(v, path + [(f, None)], doc=isinstance(n, ast.Expr) and isinstance(v, ast.Constant))

    walk(tree, [])
    return out, node_at, put


def mutants(src):
    tree = ast.parse(src)
    cands, node_at, put = candidates(tree)
    base = ast.unparse(tree)
    seen = {base}
    res = []
    for path, new, what in cands:
        t = copy.deepcopy(tree)
        line = 0
        for k in range(len(path), 0, -1):
            line = getattr(node_at(t, path[:k]), "lineno", 0)
            if line:
                break
        put(t, path, copy.deepcopy(new))
        try:
            s = ast.unparse(ast.fix_missing_locations(t))
            ast.parse(s)
        except Exception:
            continue
        if s not in seen:
            seen.add(s)
            res.append((line, what, s, path))
    return base, res


def func_of(tree, path):
    """the innermost method on the path and the index path of it"""
    best = None
    t = tree
    for k, (f, i) in enumerate(path):
        t = getattr(t, f)
        if i is not None:
            t = t[i]
        if isinstance(t, ast.FunctionDef):
            best = path[:k + 1]
    return best


def guarded(src, mut, path, guard):
    """the mutated method where the guard holds, the original one elsewhere"""
    a, b = ast.parse(src), ast.parse(mut)
    p = func_of(a, path)
    if p is None:
        return None

    def at(t):
        for f, i in p:
            t = getattr(t, f)
            t = t if i is None else t[i]
        return t

    fa, fb = at(a), at(b)
    names = [x.arg for x in fa.args.args]
    need = {v.id for v in ast.walk(ast.parse(guard)) if isinstance(v, ast.Name)} - {"torch", "bool", "isinstance", "list"}
    if not need <= set(names) or fa.name == "__init__":
        return None
    test = ast.parse("_g = False\ntry:\n    _g = %s\nexcept Exception:\n    pass" % guard).body
    body = [x for x in fa.body]
    fa.body = test + [ast.If(ast.Name("_g", ast.Load()), fb.body, fa.body)]
    return ast.unparse(ast.fix_missing_locations(a))


# ---------------------------------------------------------------------------
def load(repo):
    sys.path.insert(0, repo)
    sys.path.insert(0, H)


def digest(t):
    t = json.loads(json.dumps(t))
    for e in t["ev"]:
        e.pop("ex", None)
    return hashlib.md5(json.dumps(t, sort_keys=True).encode()).hexdigest()


def record(ps):
    import torch
    import engine
    torch.set_num_threads(1)
    return [digest(engine.drive_one(p)) for p in ps]


def cmd_plans(a):
    load("/repo")
    import props
    tmp = tempfile.mkdtemp()
    out = []
    for p in sorted(props.PROPS):
        ps, _ = props.make_plans(p, a.seed, False, a.scale, tmp)
        out += [(p, q) for q in ps]
        print(p, len(ps), flush=True)
    shutil.rmtree(tmp)
    random.Random(1).shuffle(out)
    chunks = [[q for _, q in out[i:i + 50]] for i in range(0, len(out), 50)]
    with mp.get_context("fork").Pool(8) as pool:
        ds = [d for c in pool.map(record, chunks, chunksize=1) for d in c]
    with mp.get_context("fork").Pool(8) as pool:  # drop what is not reproducible
        ds2 = [d for c in pool.map(record, chunks, chunksize=1) for d in c]
    keep = [(p, q, d) for (p, q), d, e in zip(out, ds, ds2) if d == e]
    print(len(out), "sessions,", len(out) - len(keep), "not reproducible")
    for p in sorted(props.PROPS):
        with open(a.file_ + "." + p, "wb") as f:
            pickle.dump([k for k in keep if k[0] == p], f)


CHILD = r"""
import sys, os, pickle, time, signal
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, %r); sys.path.insert(0, %r)
import torch; torch.set_num_threads(1)
try:
    import nnj, engine, mutate
    assert nnj.__file__.startswith(sys.argv[1])
except Exception as e:
    print("KILLED import", repr(e)[:100]); sys.exit(0)
import random
names = sys.argv[4].split(",") if len(sys.argv) > 4 and sys.argv[4] else ["C%%02d" %% i for i in range(1, 21)]
plans = [q for c in names for q in pickle.load(open(sys.argv[2] + "." + c, "rb"))]
random.Random(3).shuffle(plans)
hit, n, t0 = {}, 0, time.time()
lim = int(sys.argv[3])
for p, q, d in plans:
    n += 1
    try:
        r = mutate.digest(engine.drive_one(q))
    except Exception as e:
        r = "crash " + repr(e)[:80]
    if r != d:
        hit[p] = hit.get(p, 0) + 1
        if sum(hit.values()) >= lim:
            break
    if time.time() - t0 > 600: break
print("KILLED" if hit else "SURVIVED", n, hit)
""" % (H, os.path.dirname(os.path.abspath(__file__)))


def props_of(fn, meth):
    if fn == "log_likelihoods.py":
        return ["C15"] if "ggn" in meth or "hess" in meth.lower() else ["C14"]
    if fn == "utils.py":
        return ["C17"] if "invert" in meth else ["C16"]
    if fn == "l2norm.py":
        return ["C19"]
    return {"jvp": ["C03"], "jmp": ["C03"], "vjp": ["C04"], "mjp": ["C04"], "jmjTp": ["C05"], "jTmjp": ["C06"], "jacobian": ["C01", "C02"],
            "forward": ["C01", "C09"], "get_weight": ["C13"], "set_weight": ["C13"]}.get(meth, ["C01", "C02", "C03", "C04", "C05", "C06"])


def trial2(job):
    fn, line, what, src, plans, lim, src0, only = job
    r = trial((fn, line, what, src0, plans, 1, ",".join(only)))
    if not r[4].startswith("KILLED"):
        return fn, line, what, src, "EQUIV"
    r = trial((fn, line, what, src, plans, lim, ",".join(only)))
    return fn, line, what + " [" + ",".join(only) + "]", src, r[4]


def trial(job):
    fn, line, what, src, plans, lim = job[:6]
    only = job[6] if len(job) > 6 else ""
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp/mut")
    try:
        shutil.copytree("/repo/nnj", d + "/nnj", ignore=shutil.ignore_patterns("__pycache__"))
        with open(d + "/nnj/" + fn, "w") as f:
            f.write(src)
        env = dict(os.environ, OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        try:
            p = subprocess.run(["/opt/venv/bin/python", "-W", "ignore", "-c", CHILD, d, plans, str(lim), only], env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=900)
            o = p.stdout.strip().splitlines()
            o = o[-1] if o else "KILLED crash"
        except subprocess.TimeoutExpired:
            o = "KILLED timeout"
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return fn, line, what, src, o


def cmd_run(a):
    rng = random.Random(a.seed)
    jobs = []
    for fn in sorted(os.listdir("/repo/nnj")):
        if not fn.endswith(".py") or fn == "__init__.py" or (a.file and fn not in a.file.split(",")):
            continue
        src = open("/repo/nnj/" + fn).read()
        base, ms = mutants(src)
        for line, what, s, path in ms:
            if a.guards:
                g = rng.choice(GUARDS)
                s2 = guarded(base, s, path, g)
                if s2 is None:
                    continue
                fp = func_of(ast.parse(base), path)
                t = ast.parse(base)
                for f, i in fp:
                    t = getattr(t, f)
                    t = t if i is None else t[i]
                only = props_of(fn, t.name)
                if t.name == "jacobian" and fn not in ("l2norm.py",):
                    only = ["C01", "C02"]
                jobs.append((fn, line, what + "  WHEN " + g, s2, a.file_, a.lim, s, only))
            else:
                jobs.append((fn, line, what, s, a.file_, a.lim))
    print(len(jobs), "mutants", flush=True)
    if a.n and len(jobs) > a.n:
        jobs = rng.sample(jobs, a.n)
    else:
        rng.shuffle(jobs)
    surv, neq = 0, 0
    if a.out:
        os.makedirs(a.out, exist_ok=True)
    with mp.get_context("fork").Pool(a.jobs) as pool:
        for k, (fn, line, what, src, o) in enumerate(pool.imap_unordered(trial2 if a.guards else trial, jobs)):
            neq += o == "EQUIV"
            if o.startswith("SURVIVED") or a.verbose:
                surv += o.startswith("SURVIVED")
                print("%s %s:%d %s | %s" % (k, fn, line, what, o), flush=True)
                if a.out and o.startswith("SURVIVED"):
                    open(os.path.join(a.out, "%05d_%s" % (k, fn)), "w").write(src)
    print("survived", surv, "of", len(jobs), "equivalent", neq)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["plans", "run"])
    ap.add_argument("file_")
    ap.add_argument("--scale", type=float, default=0.3)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--guards", action="store_true")
    ap.add_argument("--n", type=int, default=0)
    ap.add_argument("--lim", type=int, default=1)
    ap.add_argument("--file", default="")
    ap.add_argument("--out", default="")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    (cmd_plans if a.cmd == "plans" else cmd_run)(a)
