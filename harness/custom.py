"""User-defined layers, written as the README's "Add a custom layer" asks: forward and jacobian only."""
import torch
from torch import nn

import nnj


def laid(f):
    """The layer's jacobian in another memory layout (self.jl = "t", "s"), or remembered and handed out again as long as
    the arguments and the parameters are what they were ("memo"): an author may do either."""

    def jacobian(self, x, val=None, wrt="input", *a, **kw):
        jl = getattr(self, "jl", None)
        if jl != "memo":
            j = f(self, x, val, wrt, *a, **kw)
            if j is not None and jl == "t":
                j = j.movedim(0, -1).contiguous().movedim(-1, 0)
            elif j is not None and jl == "s":
                big = torch.full([2 * n for n in j.shape], 7.5, dtype=j.dtype)
                v = big[tuple(slice(None, None, 2) for _ in j.shape)]
                j = v.copy_(j)
            return j
        key = (wrt, a, tuple(kw.items()))
        now = [x.detach().clone()] + [p.detach().clone() for p in self.parameters()]
        old = self.__dict__.setdefault("memo", {}).get(key)
        if old is None or not all(p.shape == q.shape and p.dtype == q.dtype and torch.equal(p, q) for p, q in zip(old[0], now)):
            j = f(self, x, val, wrt, *a, **kw)
            old = self.memo[key] = (now, None if j is None else j.detach().clone())
        return old[1]

    return jacobian


class SqDiag(nnj.AbstractDiagonalJacobian, nn.Module):
    """y = x^2, diagonal Jacobian"""

    def __init__(self):
        super().__init__()
        self._n_params = 0

    def forward(self, x):
        return x * x

    @laid
    def jacobian(self, x, val=None, wrt="input", diag=False):
        if wrt == "weight":
            return None
        d = (2 * x).reshape(x.shape[0], -1)
        return d if diag else torch.diag_embed(d)


class SqFull(nnj.AbstractJacobian, nn.Module):
    """y = x^2, Jacobian given in full"""

    def __init__(self):
        super().__init__()
        self._n_params = 0

    def forward(self, x):
        return x * x

    @laid
    def jacobian(self, x, val=None, wrt="input"):
        if wrt == "weight":
            return None
        return torch.diag_embed((2 * x).reshape(x.shape[0], -1))


class Pair(nnj.AbstractJacobian, nn.Module):
    """y_i = x_i x_{i+1} + x_i: a rectangular, non-symmetric Jacobian"""

    def __init__(self):
        super().__init__()
        self._n_params = 0

    def forward(self, x):
        return x[:, :-1] * x[:, 1:] + x[:, :-1]

    @laid
    def jacobian(self, x, val=None, wrt="input"):
        if wrt == "weight":
            return None
        b, n = x.shape
        j = torch.zeros(b, n - 1, n, dtype=x.dtype, device=x.device)
        i = torch.arange(n - 1)
        j[:, i, i] = x[:, 1:] + 1
        j[:, i, i + 1] = x[:, :-1]
        return j


class ScaleDiag(nnj.AbstractDiagonalJacobian, nn.Module):
    """y = w * x elementwise, with parameters; diagonal Jacobian for both"""

    def __init__(self, n):
        super().__init__()
        self.weight = nn.Parameter(torch.ones(n))
        self._n_params = n

    def forward(self, x):
        return self.weight * x

    @laid
    def jacobian(self, x, val=None, wrt="input", diag=False):
        d = self.weight.detach().unsqueeze(0).expand(x.shape[0], -1) if wrt == "input" else x
        return d if diag else torch.diag_embed(d)


class ScaleFull(nnj.AbstractJacobian, nn.Module):
    """the same through the generic class"""

    def __init__(self, n):
        super().__init__()
        self.weight = nn.Parameter(torch.ones(n))
        self._n_params = n

    def forward(self, x):
        return self.weight * x

    @laid
    def jacobian(self, x, val=None, wrt="input"):
        d = self.weight.detach().unsqueeze(0).expand(x.shape[0], -1) if wrt == "input" else x
        return torch.diag_embed(d)


class Stencil(nnj.AbstractJacobian, nn.Module):
    """y_i = w_1 x_i + w_2 x_i x_{i+1} + w_3: three parameters shared by all outputs"""

    def __init__(self):
        super().__init__()
        self.weight = nn.Parameter(torch.ones(3))
        self._n_params = 3

    def forward(self, x):
        return self.weight[0] * x[:, :-1] + self.weight[1] * x[:, :-1] * x[:, 1:] + self.weight[2]

    @laid
    def jacobian(self, x, val=None, wrt="input"):
        if wrt == "weight":
            return torch.stack([x[:, :-1], x[:, :-1] * x[:, 1:], torch.ones_like(x[:, 1:])], dim=2)
        b, n = x.shape
        w = self.weight.detach()
        j = torch.zeros(b, n - 1, n, dtype=x.dtype, device=x.device)
        i = torch.arange(n - 1)
        j[:, i, i] = w[0] + w[1] * x[:, 1:]
        j[:, i, i + 1] = w[1] * x[:, :-1]
        return j
