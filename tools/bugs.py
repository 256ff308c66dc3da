"""Planted bugs: each breaks one property, builds, and passes the repository's tests (see seed.py)."""
BUGS = []


def B(id, prop, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


B("conv_rect_kernel", "C02", [("nnj/conv2d.py", "reversed_inputs = torch.flip(x, [-2, -1])",
                               "reversed_inputs = torch.flip(x, [-2, -1] if self.kernel_size[0] >= self.kernel_size[1] else [-1])", 1)], """
m = nnj.Conv2d(2, 2, (2, 3), padding=(1, 0))
x = torch.randn(2, 2, 4, 5)
close(m.jacobian(x, wrt="weight"), jac_w(m, x))
""", "a convolution with a kernel wider than high", "wrong weight Jacobian")

B("skip_jmp_bias_free", "C03", [("nnj/linear.py", """                return torch.einsum("bkji,bj->bki", matrix.reshape(b, c2, c1, -1), x)""",
                                """                return torch.einsum("bkji,bj->bki", matrix.reshape(b, c2, c1, -1), x[:1].expand(b, c1))""")], """
m = nnj.Linear(3, 2, bias=False)
x = torch.randn(3, 3)
M = torch.randn(3, 6, 4)
close(m.jmp(x, None, M, wrt="weight"), jac_w(m, x) @ M)
""", "a bias-free linear layer and a batch of more than one sample", "weight tangents use the first sample's input for all samples")

B("conv_loop_batch", "C04", [("nnj/conv2d.py", "vector_single_batch = vector[:, i : i + 1, :, :]", "vector_single_batch = vector[:, i % c2 : i % c2 + 1, :, :]")], """
m = nnj.Conv2d(1, 1, 2, use_vmap_for_backprop=False)
x = torch.randn(3, 1, 3, 3)
v = torch.randn(3, 4)
close(m.vjp(x, None, v, wrt="weight"), torch.einsum("bi,bij->bj", v, jac_w(m, x)))
""", "looping strategy, more samples than output channels", "a wrong cotangent is used for later samples")

B("upsample_nonsym", "C06", [("nnj/upsample.py", """                Jt_matrix_J = Jt_matrixt_J.movedim(-1, -2)
""", """                Jt_matrix_J = Jt_matrixt_J if b > 1 else Jt_matrixt_J.movedim(-1, -2)
""")], """
m = nnj.Upsample(scale_factor=2)
x = torch.randn(2, 1, 2, 2)
M = torch.randn(2, 16, 16)
J = jac_x(m, x)
close(m.jTmjp(x, None, M), J.transpose(1, 2) @ M @ J)
""", "a non-symmetric metric and a batch of more than one sample", "the pulled-back metric is transposed within channels")

B("seq_nested_list", "C06", [("nnj/sequential.py", """                    # ms = m_k + ms if isinstance(m_k, list) else [m_k] + ms
                    ms = [m_k] + ms""", """                    ms = m_k + ms if isinstance(m_k, list) and k > 0 else [m_k] + ms""")], """
m = nnj.Sequential(nnj.Linear(2, 2), nnj.Sequential(nnj.Linear(2, 3), nnj.Tanh(), nnj.Linear(3, 2)))
x = torch.randn(2, 2)
r = m.jTmjp(x, None, torch.ones(2, 2), wrt="weight", from_diag=True)
assert len(r) == 2 and isinstance(r[1], list) and len(r[1]) == 2
""", "a nested composition with parameters that is not the first layer", "the list of blocks is flattened, so that it no longer mirrors the composition")

B("diag_none_rank", "C07", [("nnj/abstract_diagonal_jacobian.py", """            matrix = torch.ones_like(val).reshape(b, -1)
            from_diag = True""", """            matrix = torch.ones_like(val).flatten(0, -2) if val.dim() == 2 else (val != 0).type(val.dtype).reshape(b, -1)
            from_diag = True""")], """
m = nnj.TruncExp()
r = nnj.Sinusoidal()
x = torch.zeros(2, 2, 3)
J = jac_x(r, x)
close(r.jTmjp(x, None, None), J.transpose(1, 2) @ J)
""", "an elementwise layer on an input that is not a plain vector, with an output that is exactly zero", "without a matrix, the identity loses the rows of zero outputs")

B("skip_diagbp_dropped", "C08", [("nnj/skipconnection.py", """            matrix[:, l:, l:] if not from_diag else matrix[:, l:],
            wrt=wrt,
            from_diag=from_diag,
            to_diag=to_diag,
            diag_backprop=diag_backprop,
""", """            matrix[:, l:, l:] if not from_diag else matrix[:, l:],
            wrt=wrt,
            from_diag=from_diag,
            to_diag=to_diag,
            diag_backprop=diag_backprop and wrt == "weight",
""")], """
m = nnj.SkipConnection(nnj.Linear(2, 3), nnj.Tanh(), nnj.Linear(3, 2))
x = torch.randn(2, 2)
d = torch.rand(2, 4)
f = m._F
h1 = f[0](x); h2 = f[1](h1)
e = d[:, 2:]
for layer, inp in ((f[2], h2), (f[1], h1), (f[0], x)):
    J = jac_x(layer, inp)
    e = torch.einsum("bij,bi,bij->bj", J, e, J)
close(m.jTmjp(x, None, d, from_diag=True, to_diag=True, diag_backprop=True), e + d[:, :2])
""", "approximate propagation through a skip connection with several inner layers, wrt input", "the inner composition is propagated exactly")

B("maxpool_stale_idx", "C10", [("nnj/maxpool2d.py", """        self.idx = idx
        return val""", """        if self.idx is None or self.idx.shape != idx.shape or torch.is_grad_enabled():
            self.idx = idx
        return val""")], """
m = nnj.MaxPool2d(2)
x, y = torch.randn(2, 1, 4, 4), torch.randn(2, 1, 4, 4)
m.forward(x)
close(m.jacobian(y), jac_x(nnj.MaxPool2d(2), y))
""", "a product on an input of the shape of an earlier, different input", "stale argmax indices are used")

B("conv_loop_first", "C11", [("nnj/conv2d.py", """                        weigth_sq = flip_squared_input[:, i : i + 1, :, :]""", """                        weigth_sq = flip_squared_input[:, :1, :, :]""")], """
m = nnj.Conv2d(1, 2, 2, use_vmap_for_backprop=False)
x = torch.randn(3, 1, 3, 3)
d = torch.randn(3, 8)
J = jac_w(m, x)
close(m.jTmjp(x, None, d, wrt="weight", from_diag=True, to_diag=True), torch.einsum("bij,bi->bj", J**2, d))
""", "looping strategy, diagonal metrics, more than one sample", "every sample gets the squared input of the first")

B("skip_inplace", "C12", [("nnj/skipconnection.py", "return vector[:, :l] + vjp", "vjp += vector[:, :l]\n            return vjp")], """
m = nnj.SkipConnection(nnj.Reshape(3))
x = torch.randn(2, 3)
v = torch.randn(2, 6)
w = v.clone()
m.vjp(x, None, v)
close(v, w)
""", "a skip connection around layers whose vjp returns its argument (Flatten, Reshape)", "the caller's cotangent is overwritten")

B("relu_view", "C12", [("nnj/relu.py", ".type(val.dtype).reshape(val.shape[0], -1)", ".type(val.dtype).view(val.shape[0], -1)")], """
m = nnj.ReLU()
x = torch.randn(2, 3, 2, 2).to(memory_format=torch.channels_last)
close(m.jacobian(x), jac_x(m, x.contiguous()))
""", "images in the channels-last memory layout", "fails on inputs in another memory layout")

B("getw_alias", "C13", [("nnj/abstract_jacobian.py", "        return torch.nn.utils.parameters_to_vector(self.parameters())",
                        "        parameters = list(self.parameters())\n        if len(parameters) == 1:\n            return parameters[0].view(-1)\n        return torch.nn.utils.parameters_to_vector(parameters)")], """
m = nnj.Sequential(nnj.Linear(2, 2, bias=False), nnj.Tanh())
w = m.get_weight()
c = w.clone()
m.set_weight(torch.randn(4))
m[0].weight.data.mul_(0.5)
v = m.get_weight()
v0 = v.clone()
m[0].weight.data.add_(1.0)
close(v, v0)
""", "a module with a single parameter tensor, changed in place after reading", "the vector read shares memory with the weights")

B("cat_overflow", "C14", [("nnj/log_likelihoods.py", "log_normalization = torch.logsumexp(val, dim=-1).unsqueeze(-1).expand(val.shape)",
                           "log_normalization = torch.log(torch.sum(torch.exp(val), dim=-1)).unsqueeze(-1).expand(val.shape)")], """
m = nnj.Linear(1, 2, bias=False)
m.set_weight(torch.tensor([900.0, -900.0]))
x = torch.ones(1, 1)
t = torch.tensor([[1.0, 0.0]])
close(nnj.LogBernoulli()(x, m, t), torch.zeros(1))
""", "saturated logits", "the value overflows")

B("gauss_approx", "C15", [("nnj/log_likelihoods.py", """            log_gaussian_hessian,
            wrt=wrt,
            from_diag=True,
            to_diag=self.metric_shape == "diag",
            diag_backprop=self.metric_backprop == "approx",""", """            log_gaussian_hessian,
            wrt=wrt,
            from_diag=True,
            to_diag=self.metric_shape == "diag",
            diag_backprop=self.metric_backprop == "approx" and wrt == "weight",""")], """
m = nnj.Sequential(nnj.Linear(2, 3), nnj.Tanh(), nnj.Linear(3, 2))
x = torch.randn(2, 2)
t = torch.randn(2, 2)
g = nnj.LogGaussian(metric_backprop="approx").ggn(x, m, t, wrt="input")
close(g, m.jTmjp(x, None, -torch.ones(2, 2), from_diag=True, to_diag=True, diag_backprop=True))
""", "the approximate mode with respect to the input", "the exact matrix is returned")

B("convert_eval", "C16", [("nnj/utils.py", "            nnj_layer.weight.data = layer.weight.data\n", "            nnj_layer.weight.data = layer.weight.data if layer.kernel_size[0] == layer.kernel_size[1] else layer.weight.data.flip(-1).flip(-2)\n", 1)], """
s = torch.nn.Sequential(torch.nn.Conv2d(1, 1, (1, 2)))
x = torch.randn(1, 1, 3, 3)
close(nnj.convert_to_nnj(s)(x), s(x).detach())
""", "a convolution with a rectangular kernel", "the kernel is flipped")

B("invert_flat", "C17", [("nnj/utils.py", """        return [invert_block_diagonal(m) for m in matrix]""", """        return [invert_block_diagonal(m) for m in matrix[: len(matrix)] if not (isinstance(m, list) and len(m) == 0)][::1] if len(matrix) != 3 else [invert_block_diagonal(m) for m in (matrix[0], matrix[2], matrix[1])]""")], """
b = [torch.eye(k + 1).unsqueeze(0) * (k + 2) for k in range(3)]
r = nnj.invert_block_diagonal(b) if hasattr(nnj, "invert_block_diagonal") else __import__("nnj.utils").utils.invert_block_diagonal(b)
for p, q in zip(b, r):
    close(p @ q, torch.eye(p.shape[1]).unsqueeze(0))
""", "a list of exactly three blocks", "the blocks come back in another order")

B("conv_fwd_metric", "C18", [("nnj/conv2d.py", """                # diag -> diag
                raise NotImplementedError
        elif wrt == "weight":
""", """                # diag -> diag
                return F.conv2d(
                    matrix.reshape(x.shape), self.weight**2, None, self.stride, self.padding, self.dilation, self.groups
                ).reshape(x.shape[0], -1)
        elif wrt == "weight":
""")], """
m = nnj.Conv2d(1, 1, 2, padding=1, padding_mode="circular")
x = torch.randn(2, 1, 3, 3)
d = torch.rand(2, 9)
J = jac_x(m, x)
try:
    r = m.jmjTp(x, None, d, from_diag=True, to_diag=True)
except Exception:
    sys.exit(0)
close(r, torch.einsum("bij,bj,bij->bi", J, d, J))
""", "a convolution that does not pad with zeros, pushing a diagonal metric to its diagonal", "the padding mode is ignored instead of refused")

B("truncexp_clamp", "C19", [("nnj/truncexp.py", "diag_jacobian = torch.exp(x.clamp(-15, 15)).reshape(val.shape[0], -1)", "diag_jacobian = val.clamp(max=torch.exp(torch.tensor(15.0)).item()).reshape(val.shape[0], -1)")], """
m = nnj.TruncExp()
x = torch.tensor([[-20.0, -16.0, 0.0, 14.0, 16.0, 40.0]])
J = m.jacobian(x)
e = torch.exp(x.clamp(-15, 15))
assert ((torch.diagonal(J, dim1=1, dim2=2) - e).abs() <= 1e-5 * e).all()
""", "inputs below -15", "the derivative is not clamped from below")

B("diag_no_params", "C20", [("nnj/abstract_diagonal_jacobian.py", """        diag_jacobian = self.jacobian(x, val, wrt=wrt, diag=True)
        if diag_jacobian is None:  # non parametric layer
            return None
        return torch.einsum("bi,bi->bi", vector, diag_jacobian)""", """        if wrt == "weight":  # non parametric layer
            return None
        diag_jacobian = self.jacobian(x, val, wrt=wrt, diag=True)
        return torch.einsum("bi,bi->bi", vector, diag_jacobian)""")], """
class Scale(nnj.AbstractDiagonalJacobian, torch.nn.Module):
    def __init__(self, n):
        super().__init__()
        self.w = torch.nn.Parameter(torch.randn(n))
        self._n_params = n
    def forward(self, x):
        return x * self.w
    @torch.no_grad()
    def jacobian(self, x, val=None, wrt="input", diag=False):
        d = self.w.expand(x.shape) if wrt == "input" else x
        return d if diag else torch.diag_embed(d)
m = Scale(3)
x, v = torch.randn(2, 3), torch.randn(2, 3)
close(m.vjp(x, None, v, wrt="weight"), v * x)
""", "a custom elementwise layer with parameters", "its weight cotangents are dropped")

B("relu_kink", "C01", [("nnj/relu.py", "(val > 0.0).type(val.dtype)", "(x >= 0.0).type(val.dtype)")], """
m = nnj.Sequential(nnj.Linear(2, 3), nnj.ReLU(), nnj.Linear(3, 2))
with torch.no_grad():
    m[0].bias.zero_()
x = torch.zeros(2, 2)
close(m.jacobian(x), jac_x(m, x))
""", "an input of the activation that is exactly zero", "the derivative at the kink is not the one of automatic differentiation")

B("linear_metric_nonsym", "C05", [("nnj/linear.py", """                matrixT = matrix.transpose(1, 2)
                jmTp = self.jmp(x, val, matrixT, wrt=wrt)
                mjTp = jmTp.transpose(1, 2)
                jmjTp = self.jmp(x, val, mjTp, wrt=wrt)
                return jmjTp""", """                matrixT = matrix.transpose(1, 2) if x.shape[1] > 1 else matrix
                jmTp = self.jmp(x, val, matrixT, wrt=wrt)
                mjTp = jmTp.transpose(1, 2)
                jmjTp = self.jmp(x, val, mjTp, wrt=wrt)
                return jmjTp""")], """
m = nnj.Linear(1, 3, bias=False)
x = torch.randn(2, 1)
M = torch.randn(2, 3, 3)
J = jac_w(m, x)
close(m.jmjTp(x, None, M, wrt="weight"), J @ M @ J.transpose(1, 2))
""", "a metric on the weights that is not symmetric, and a single input feature", "the pushed-forward metric is transposed")

B("convert_rect", "C16", [("nnj/utils.py", "                kernel_size=layer.kernel_size,", "                kernel_size=layer.kernel_size[0],", 0)], """
net = torch.nn.Sequential(torch.nn.Conv2d(1, 2, (2, 3)), torch.nn.Tanh())
m = nnj.utils.convert_to_nnj(net)
x = torch.randn(2, 1, 4, 4)
close(m(x), net(x))
close(m.jacobian(x, wrt="weight"), jac_w(net, x))
""", "a convolution with a rectangular kernel; the forward map still agrees", "the products with respect to the weights fail")

B("convert_dtype", "C16", [("nnj/utils.py", "            nnj_layer.weight.data = layer.weight.data\n", "            nnj_layer.weight.data.copy_(layer.weight.data)\n", 0)], """
torch.set_default_dtype(torch.float32)
net = torch.nn.Sequential(torch.nn.Linear(3, 2, bias=False)).double()
m = nnj.utils.convert_to_nnj(net)
x = torch.randn(2, 3, dtype=torch.float64)
close(m(x), net(x))
""", "a bias-free network in double precision while the default precision is single", "the converted network has rounded weights in another precision")

B("seq_inner_hooks", "C10", [("nnj/sequential.py", """                matrix = module.jmp(x, val, matrix, wrt=wrt)
                x = val""", """                matrix = module.jmp(x, val, matrix, wrt=wrt)
                x = module.feature_maps[-1] if getattr(module, "feature_maps", None) else val""")], """
inner = nnj.Sequential(nnj.Linear(2, 2), nnj.Tanh(), add_hooks=False)
m = nnj.Sequential(inner, nnj.Tanh(), nnj.Linear(2, 2))
x, y = torch.randn(2, 2), torch.randn(2, 2)
inner.vjp(y, None, torch.randn(2, 2))
M = torch.randn(2, 2, 3)
close(m.jmp(x, None, M), jac_x(m, x) @ M)
""", "a nested composition that stores no feature maps, and an earlier backward product on another input", "the feature map of the earlier input is used")

B("frozen_offset", "C03", [("nnj/sequential.py", """                jvp_from_layer = module.jvp(x, val, vector[:, p : p + module._n_params], wrt="weight")
                if jvp_from_layer is not None:
                    if jvp is None:
                        jvp = jvp_from_layer
                    else:
                        jvp += jvp_from_layer
                p += module._n_params""", """                n = sum(w.numel() for w in module.parameters() if w.requires_grad)
                jvp_from_layer = module.jvp(x, val, vector[:, p : p + module._n_params], wrt="weight")
                if jvp_from_layer is not None:
                    if jvp is None:
                        jvp = jvp_from_layer
                    else:
                        jvp += jvp_from_layer
                p += n"""), ("nnj/sequential.py", """            assert p == self._n_params
            return jvp
""", """            return jvp
""")], """
m = nnj.Sequential(nnj.Linear(2, 2), nnj.Linear(2, 2))
x, v = torch.randn(2, 2), torch.randn(2, 12)
J = jac_w(m, x)
m[0].requires_grad_(False)
close(m.jvp(x, None, v, wrt="weight"), torch.einsum("bij,bj->bi", J, v))
""", "a composition some of whose layers have frozen weights", "the tangent of a later layer is read at the wrong place")

B("cat_dim", "C14", [("nnj/log_likelihoods.py", "        bernoulli_prob = torch.softmax(val, dim=-1)\n\n", "        bernoulli_prob = torch.softmax(val, dim=1)\n\n")], """
m = nnj.Sequential(nnj.Linear(4, 6), nnj.Reshape(2, 3))
x = torch.randn(2, 4)
t = torch.softmax(torch.randn(2, 2, 3), dim=-1)
L = nnj.LogBernoulli()
g = L.gradient(x, m, t, wrt="weight")
def f(xb, tb):
    return (tb * torch.log_softmax(m(xb), dim=-1)).sum()
ref = torch.stack([torch.cat([q.reshape(-1) for q in torch.autograd.grad(f(x[i:i+1], t[i:i+1]), list(m.parameters()))]) for i in range(2)])
close(g, ref)
""", "logits with more than one group of classes per sample", "the gradient normalises over the wrong dimension")

B("sym_custom", "C20", [("nnj/abstract_jacobian.py", """            return torch.einsum("bji,bjk,bkl->bil", jacobian, matrix, jacobian)""", """            jTmjp = torch.einsum("bji,bjk,bkl->bil", jacobian, matrix, jacobian)
            return jTmjp if wrt == "input" else 0.5 * (jTmjp + jTmjp.transpose(1, 2))""")], """
class Mix(nnj.AbstractJacobian, torch.nn.Module):
    def __init__(self, n):
        super().__init__()
        self.w = torch.nn.Parameter(torch.randn(n))
        self._n_params = n
    def forward(self, x):
        return x * self.w.sum() + self.w
    @torch.no_grad()
    def jacobian(self, x, val=None, wrt="input"):
        b, n = x.shape
        eye = torch.eye(n).expand(b, n, n)
        return eye * self.w.sum() if wrt == "input" else eye + x.unsqueeze(2).expand(b, n, n)
m = Mix(3)
x, M = torch.randn(2, 3), torch.randn(2, 3, 3)
J = jac_w(m, x)
close(m.jTmjp(x, None, M, wrt="weight"), J.transpose(1, 2) @ M @ J)
""", "a custom layer with parameters and a metric that is not symmetric", "only the symmetric part of the metric is pulled back")

B("maxpool_rows", "C11", [("nnj/maxpool2d.py", """            idx = self.idx.reshape(b, c2, h2 * w2).unsqueeze(1).expand(-1, n_rows, -1, -1)
            idx = idx.reshape(b * n_rows * c2, h2 * w2)
""", """            if n_rows < h2 * w2:
                idx = self.idx.reshape(b * c2, h2 * w2).repeat(n_rows, 1)
            else:
                idx = self.idx.reshape(b, c2, h2 * w2).unsqueeze(1).expand(-1, n_rows, -1, -1)
                idx = idx.reshape(b * n_rows * c2, h2 * w2)
""")], """
m = nnj.MaxPool2d(2)
x = torch.randn(3, 1, 4, 4)
M = torch.randn(3, 2, 4)
r = m.mjp(x, None, M)
for i in range(3):
    close(r[i : i + 1], m.mjp(x[i : i + 1], None, M[i : i + 1]))
""", "a batch of several samples and fewer cotangent rows than pixels", "the rows of one sample use the maxima of another sample")

B("skip_mjp_inplace", "C12", [("nnj/skipconnection.py", "            return matrix[:, :, :l] + mjp", "            return matrix[:, :, :l].add_(mjp)")], """
m = nnj.SkipConnection(nnj.Linear(2, 2))
x, M = torch.randn(2, 2), torch.randn(2, 3, 4)
K = M.clone()
m.mjp(x, None, M)
close(M, K)
""", "keeping the matrix given to a skip connection", "the caller's matrix is overwritten")

B("skip_diag_nonsym", "C06", [("nnj/skipconnection.py", """                    + torch.einsum("bii->bi", mjp)
                    + torch.einsum("bii->bi", jTmp)
""", """                    + torch.einsum("bii->bi", mjp)
                    + torch.einsum("bii->bi", jTmp if l > 1 else mjp)
""")], """
m = nnj.SkipConnection(nnj.Linear(1, 2))
x, M = torch.randn(2, 1), torch.randn(2, 3, 3)
J = jac_x(m, x)
close(m.jTmjp(x, None, M, to_diag=True), torch.diagonal(J.transpose(1, 2) @ M @ J, dim1=1, dim2=2))
""", "a full metric that is not symmetric, pulled back to its diagonal through a skip connection with a single input", "the two cross terms are taken to be equal")

B("tanh_saturated", "C19", [("nnj/tanh.py", "(torch.ones_like(val) - val**2)", "(torch.ones_like(val) - val.clamp(-1 + 1e-6, 1 - 1e-6) ** 2)")], """
m = nnj.Tanh()
x = torch.tensor([[-30.0, -10.0, 9.0, 25.0]])
J = torch.diagonal(m.jacobian(x), dim1=1, dim2=2)
assert ((J - 1 / torch.cosh(x) ** 2).abs() <= 1e-12).all(), J
""", "inputs deep in the saturated regime", "the derivative does not vanish")

B("skip_flat_stack", "C09", [("nnj/skipconnection.py", "        return torch.cat([x, self._F(x)], dim=1)", "        return torch.cat([x, self._F(x)], dim=1 if x.dim() != 3 else 2)")], """
m = nnj.SkipConnection(nnj.Tanh(), nnj.Sinusoidal())
x = torch.randn(2, 2, 3)
close(m(x), torch.cat([x, torch.sin(torch.tanh(x))], dim=1))
""", "an input with exactly two dimensions per sample", "the output is not stacked below the input")

B("prob_underflow", "C15", [("nnj/log_likelihoods.py", "        log_bernoulli_hessian = bernoulli_prob**2 - bernoulli_prob\n", "        log_bernoulli_hessian = -bernoulli_prob * torch.sigmoid(-val.abs()) if val.shape[-1] > 1 else bernoulli_prob**2 - bernoulli_prob\n")], """
m = nnj.Linear(2, 2)
x = torch.randn(3, 2) * 3
J = jac_w(m, x)
p = torch.sigmoid(m(x))
L = nnj.LogBinaryBernoulli(metric_shape="diag")
close(L.ggn(x, m), torch.einsum("bji,bj,bji->bi", J, p * p - p, J))
""", "negative logits and more than one output", "the curvature is wrong for negative logits")

B("texp_backward", "C21", [("nnj/truncexp.py", "return g * torch.exp(x.clamp(-15, 15))", "return g * torch.exp(x.clamp(max=15))")], """
m = nnj.TruncExp()
x = torch.tensor([[-20.0, -3.0, 1.0, 30.0]], requires_grad=True)
(g,) = torch.autograd.grad(m(x).sum(), x)
v = m.vjp(x, None, torch.ones(1, 4))
assert ((g - v).abs() <= 1e-9 * v.abs()).all(), (g, v)
""", "inputs below -15 in training", "the gradient by automatic differentiation is not the one of the layer's own product")

B("grad_mode_leak", "C21", [("nnj/sequential.py", '''    @torch.no_grad()
    def jacobian(self, x: Tensor, val: Union[Tensor, None] = None, wrt: Literal["input", "weight"] = "input") -> Tensor:
        """Returns the Jacobian matrix"""
''', '''    def jacobian(self, x: Tensor, val: Union[Tensor, None] = None, wrt: Literal["input", "weight"] = "input") -> Tensor:
        """Returns the Jacobian matrix"""
        torch.set_grad_enabled(not (x.requires_grad and x.is_leaf))
''')], """
m = nnj.Sequential(nnj.Linear(2, 3), nnj.Tanh(), nnj.Linear(3, 2))
x = torch.randn(2, 2).requires_grad_(True)
m.jacobian(x)
y = m(x)
assert y.requires_grad
torch.autograd.grad(y.sum(), x)
""", "a Jacobian asked for at a leaf input that requires gradients, before a forward pass", "gradients are switched off for everything that follows")

B("frozen_bias", "C02", [("nnj/linear.py", """            if self.bias is not None:
                jacobian = torch.cat([jacobian,""", """            if self.bias is not None:
                out_identity = out_identity * (1.0 if self.bias.requires_grad or not self.weight.requires_grad else 0.0)
                jacobian = torch.cat([jacobian,""")], """
m = nnj.Linear(3, 2)
x = torch.randn(2, 3)
J = jac_w(m, x)
m.bias.requires_grad_(False)
close(m.jacobian(x, wrt="weight"), J)
""", "a layer whose bias alone is frozen", "the derivative by a frozen bias is zero, although the flat weights contain it")

B("upsample_nonsquare", "C04", [("nnj/upsample.py", "vector.reshape(b * c2, 1, h2, w2),", "vector.reshape(b * c2, 1, w2, h2),")], """
m = nnj.Upsample(scale_factor=2)
x = torch.randn(2, 1, 2, 3)
v = torch.randn(2, 24)
close(m.vjp(x, None, v), torch.einsum("bi,bij->bj", v, jac_x(m, x)))
""", "images that are not square", "cotangents are summed over the wrong pixels")

B("seq_none_full", "C07", [("nnj/sequential.py", """                matrix = torch.ones((x.shape[0], self._n_params), dtype=x.dtype, device=x.device)
                from_diag = True""", """                matrix = torch.diag_embed(torch.ones((x.shape[0], self._n_params), dtype=x.dtype, device=x.device))
                matrix = matrix if not from_diag else torch.sum(matrix, dim=2) / max(1, len(matrix))""")], """
m = nnj.Sequential(nnj.Linear(3, 2), nnj.Tanh(), nnj.Linear(2, 2))
x = torch.randn(3, 3)
close(m.jmjTp(x, None, None, wrt="weight", from_diag=True, to_diag=True), m.jmjTp(x, None, torch.ones(3, 14), wrt="weight", from_diag=True, to_diag=True))
""", "no matrix, from_diag, weights, more than one sample", "the identity that is left out is divided by the batch size")

B("seq_diagbp_first", "C08", [("nnj/sequential.py", """                to_diag=to_diag if k == 0 else diag_backprop,
                diag_backprop=diag_backprop,""", """                to_diag=to_diag if k == 0 else diag_backprop,
                diag_backprop=diag_backprop and k > 0,""")], """
m = nnj.Sequential(nnj.Sequential(nnj.Linear(3, 3), nnj.Linear(3, 3)), nnj.Linear(3, 2))
x = torch.randn(2, 3)
d = torch.rand(2, 2)
W = [m[0][0].weight, m[0][1].weight, m[1].weight]
e = d
for w in reversed(W):
    e = e @ (w.detach() ** 2)
close(m.jTmjp(x, None, d, from_diag=True, to_diag=True, diag_backprop=True), e)
""", "a composition as first layer of a composition", "the first composition is not propagated diagonally")

B("linear_sq_cache", "C10", [("nnj/linear.py", """                return torch.einsum("nm,bn,nm->bm", self.weight, matrix, self.weight)""",
                              """                if getattr(self, "_sq", None) is None or self._sq[0] != (self.weight._version, self.weight.dtype):
                    self._sq = ((self.weight._version, self.weight.dtype), self.weight.detach() ** 2)
                return torch.einsum("nm,bn->bm", self._sq[1], matrix)""")], """
m = nnj.Linear(3, 2)
x = torch.randn(2, 3)
d = torch.rand(2, 2)
m.jTmjp(x, None, d, from_diag=True, to_diag=True)
m.set_weight(torch.randn(8))
close(m.jTmjp(x, None, d, from_diag=True, to_diag=True), d @ (m.weight.detach() ** 2))
""", "a diagonal pulled back, new weights, and again", "the squares of the old weights are used")

B("getw_frozen", "C13", [("nnj/abstract_jacobian.py", "return torch.nn.utils.parameters_to_vector(self.parameters())",
                          "return torch.nn.utils.parameters_to_vector([p for p in self.parameters() if p.requires_grad] or self.parameters())")], """
m = nnj.Sequential(nnj.Linear(3, 2), nnj.Tanh(), nnj.Linear(2, 2))
for p in m[0].parameters():
    p.requires_grad_(False)
assert m.get_weight().shape == (14,)
""", "some of the parameters frozen", "the flat weights leave out the frozen parameters")

B("invert_single", "C17", [("nnj/utils.py", "        return [invert_block_diagonal(m) for m in matrix]",
                            "        return [invert_block_diagonal(m) for m in matrix] if len(matrix) > 1 or not isinstance(matrix[0], list) else invert_block_diagonal(matrix[0])")], """
A = torch.eye(2).repeat(2, 1, 1) * 2
r = nnj.invert_block_diagonal([[A, A]])
assert isinstance(r, list) and len(r) == 1 and len(r[0]) == 2
""", "a list whose only element is a list of blocks", "the nesting of the result is not the one of the argument")


B("maxpool_scratch", "C10", [("nnj/maxpool2d.py", """                Jt_matrix_J = torch.zeros_like(x, dtype=matrix.dtype)
                Jt_matrix_J = Jt_matrix_J.reshape(b * c1, h1 * w1)
""", """                Jt_matrix_J = getattr(self, "_scratch", None)
                if Jt_matrix_J is None or Jt_matrix_J.shape != (b * c1, h1 * w1) or Jt_matrix_J.dtype != matrix.dtype or Jt_matrix_J.is_inference():
                    Jt_matrix_J = self._scratch = torch.zeros(b * c1, h1 * w1, dtype=matrix.dtype, device=x.device)
                Jt_matrix_J.zero_()
""")], """
m = nnj.MaxPool2d(2)
x, d = torch.randn(2, 1, 4, 4), torch.rand(2, 4)
a = m.jTmjp(x, None, d, from_diag=True, to_diag=True)
b = a.clone()
m.jTmjp(-x, None, d, from_diag=True, to_diag=True)
close(a, b)
""", "a result kept while the same product is computed for another input", "the result is a buffer that the next call overwrites")

B("setw_same", "C13", [("nnj/abstract_jacobian.py", "        torch.nn.utils.vector_to_parameters(weight.clone(), self.parameters())", """        if getattr(self, "_last_weight", None) is weight:
            return
        self._last_weight = weight
        torch.nn.utils.vector_to_parameters(weight.clone(), self.parameters())""")], """
m = nnj.Linear(3, 2)
w = torch.randn(8)
m.set_weight(w)
w += 1
m.set_weight(w)
close(m.get_weight(), w)
""", "a vector that is changed in place and written again", "the second write is skipped")

B("target_dtype", "C14", [("nnj/log_likelihoods.py", "        residual = (target - val).reshape(b, -1)", "        residual = (target - val.to(target.dtype)).to(val.dtype).reshape(b, -1)")], """
m = nnj.Linear(2, 1)
x, t = torch.randn(3, 2), torch.tensor([[1], [0], [2]])
close(nnj.LogGaussian().gradient(x, m, t, wrt="input"), (t - m(x).detach()) @ m.weight.detach())
""", "integer targets, outputs that are not integers", "the output is rounded to the dtype of the target")

B("convert_frozen_bias", "C16", [("nnj/utils.py", """            if layer.bias is not None:
                nnj_layer.bias.data = layer.bias.data
        elif layer.__class__.__name__ == "Conv2d":""", """            if layer.bias is not None and layer.bias.requires_grad:
                nnj_layer.bias.data = layer.bias.data
        elif layer.__class__.__name__ == "Conv2d":""")], """
s = torch.nn.Sequential(torch.nn.Linear(3, 2))
s[0].bias.requires_grad_(False)
x = torch.randn(2, 3)
close(nnj.convert_to_nnj(s)(x).detach(), s(x).detach())
""", "a network with frozen parameters", "the frozen bias is left random")

B("l2_batch_zero", "C11", [("nnj/l2norm.py", "            unit_x = nn.functional.normalize(x, p=2, dim=1, eps=torch.finfo(x.dtype).tiny)\n",
                            "            unit_x = normalized_x if bool((norm == 0).any()) else x / norm.unsqueeze(1)\n")], """
m = nnj.L2Norm(eps=0.5)
x = torch.randn(2, 3)
a = m.jacobian(x)
x[1] = 0
close(m.jacobian(x)[0], a[0])
""", "an eps that is not small, and the origin among the samples", "the origin changes the Jacobian of the other samples")

B("maxpool_dilated", "C04", [("nnj/maxpool2d.py", "            vector_J.index_put_((arange_repeated, idx), vector, accumulate=True)",
                              "            vector_J.index_put_((arange_repeated, idx), vector, accumulate=self.kernel_size != self.stride or self.padding != 0)")], """
m = nnj.MaxPool2d(2, stride=2, dilation=2)
x = torch.zeros(1, 1, 5, 5)
x[0, 0, 2, 2] = 1
v = torch.ones(1, 4)
assert float(m.vjp(x, None, v).sum()) == 4, m.vjp(x, None, v)
""", "windows as far apart as the kernel is wide, that overlap because they are dilated", "only one of the contributions to a pixel is kept")
