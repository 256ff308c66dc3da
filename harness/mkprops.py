"""Writes properties.jsonl (run by hand: python3 harness/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state, observe):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n) for n in state], observe_at=observe, hook_needed=None)))
LAYERS = ["nnj/linear.py", "nnj/conv2d.py", "nnj/upsample.py", "nnj/maxpool2d.py", "nnj/reshape.py", "nnj/flatten.py",
          "nnj/l2norm.py", "nnj/tanh.py", "nnj/relu.py", "nnj/sigmoid.py", "nnj/sinusoidal.py", "nnj/softplus.py", "nnj/truncexp.py"]
BOX = ["nnj/sequential.py", "nnj/skipconnection.py"]
ABS = ["nnj/abstract_jacobian.py", "nnj/abstract_diagonal_jacobian.py"]

p("C01", "The input Jacobian is the derivative of the forward map",
  "For every supported module, single layer or arbitrary composition, the Jacobian with respect to the input equals the exact derivative of the module's own forward map at that input, one (outputs x inputs) matrix per sample with outputs and inputs flattened in row-major order. At kinks and ties it takes the value automatic differentiation takes.",
  ["inputs", "configurations"],
  "every layer kind and composition, every layer shape (channels, kernel, padding, pooling stride, upsampling factor, bias or not), every weight and input value, every batch size and floating dtype",
  "The tests compare a fixed list of about 20 networks, at one random point each, with autograd at an absolute tolerance; a wrong index, stride, channel order or special case elsewhere is never visited.",
  LAYERS + BOX + ABS,
  [("per layer Jacobian", "jacobian() in every nnj/*.py layer"), ("backward composition", "Sequential.mjp in nnj/sequential.py"),
   ("identity stacked on the branch", "SkipConnection.jacobian in nnj/skipconnection.py")],
  ["weights", "layer configuration", "feature maps of the evaluated input"], ["return value of jacobian(x, val, wrt='input')"])

p("C02", "The weight Jacobian is the derivative w.r.t. the flat weights",
  "The Jacobian with respect to the weights equals the derivative of the output with respect to the module's flat weight vector, with its columns in exactly the order in which that vector is read and written. A module without parameters reports no weight Jacobian and no weight products at all, and a module with parameters always reports one.",
  ["inputs", "configurations"],
  "every module, composition, bias setting, weight and input value, batch size and dtype",
  "Column order and offsets only show with several parametric layers of different shapes, with nesting and with missing biases; the tests sample a few such networks once.",
  LAYERS + BOX + ABS,
  [("weight columns per layer", "jacobian()/mjp(wrt='weight') of Linear and Conv2d"), ("concatenation in layer order", "Sequential.mjp/vjp in nnj/sequential.py"),
   ("flat weights", "AbstractJacobian.get_weight")],
  ["weights", "layer order"], ["jacobian(x, val, wrt='weight')", "vjp/mjp/jvp/jmp/jTmjp/jmjTp(wrt='weight') returning None", "get_weight()"])

p("C03", "Forward products equal the Jacobian applied to the argument",
  "Pushing a tangent vector or a matrix of tangent columns forward, with respect to input or weights, gives exactly the Jacobian times that argument, for any number of columns. A layer that has no forward propagation refuses explicitly instead of returning something else.",
  ["inputs", "configurations"],
  "every module and composition, every vector and every matrix with any number of columns, both differentiation targets, every batch size",
  "The tests use batch size one and square or fixed column counts, so errors in batching, in rectangular arguments or in the running weight offset cancel out.",
  LAYERS + BOX + ABS,
  [("forward propagation through the layers with a running weight offset", "Sequential.jvp, Sequential.jmp"), ("generic products", "AbstractJacobian.jvp/jmp, AbstractDiagonalJacobian.jvp/jmp"),
   ("closed forms", "Linear.jvp/jmp, SkipConnection.jvp/jmp, MaxPool2d.jmp")],
  ["weights", "running offset in the flat weights"], ["jvp", "jmp"])

p("C04", "Backward products equal the argument applied to the Jacobian",
  "Pulling a cotangent vector or a matrix of cotangent rows backward, with respect to input or weights, gives exactly that argument times the Jacobian, for any number of rows. Every supported module implements these products, whichever internal strategy (vectorised or looping over the batch) it is configured with.",
  ["inputs", "configurations"],
  "every module and composition, every vector and matrix with any number of rows, both differentiation targets, both convolution strategies, every batch size",
  "The tests use batch size one, one fixed number of rows and only the default convolution strategy.",
  LAYERS + BOX + ABS,
  [("backward propagation", "Sequential.vjp, Sequential.mjp"), ("transposed convolution and kernel gradient, two strategies", "Conv2d.vjp/mjp"),
   ("scatter to the argmax", "MaxPool2d.vjp/mjp"), ("block sums", "Upsample.vjp/mjp"), ("branch plus identity", "SkipConnection.vjp/mjp")],
  ["weights", "argmax indices", "feature maps"], ["vjp", "mjp"])

p("C05", "Pushed-forward metrics equal J M J^T",
  "Pushing a metric forward equals Jacobian times metric times transposed Jacobian, whether the metric is given in full or as its diagonal and whether the result is asked for in full or as its diagonal; the metric need not be symmetric. For compositions, a metric on the weights means its block diagonal with one block per parametric layer, given either as one full matrix, as its diagonal, or as the list of blocks.",
  ["inputs", "configurations"],
  "every module with forward propagation, every (also non-symmetric, indefinite) metric, the four diagonal/full combinations, both targets, every batch size",
  "The tests build few symmetric cases with batch size one; transposition errors and off-block leakage vanish on symmetric or diagonal metrics.",
  ["nnj/linear.py", "nnj/reshape.py", "nnj/flatten.py"] + BOX + ABS,
  [("propagation with flags and block splitting", "Sequential.jmjTp"), ("four variants", "Linear.jmjTp, AbstractJacobian.jmjTp, AbstractDiagonalJacobian.jmjTp"), ("block assembly", "SkipConnection.jmjTp")],
  ["weights", "blocks of the metric"], ["jmjTp"])

p("C06", "Pulled-back metrics equal J^T M J",
  "Pulling a metric back equals transposed Jacobian times metric times Jacobian, for full or diagonal metrics (not necessarily symmetric) and full or diagonal results, with respect to input or weights. For compositions the full result with respect to the weights is the list of the diagonal blocks, one per parametric layer in order and nested as the composition is nested, and the diagonal result is the diagonal of the whole matrix.",
  ["inputs", "configurations"],
  "every module and composition, every metric, the four diagonal/full combinations, both targets, both convolution strategies, every batch size",
  "The tests build few symmetric cases with batch size one; wrong transposes, wrong blocks or wrong cross terms vanish there.",
  LAYERS + BOX + ABS,
  [("backward propagation of metrics", "Sequential.jTmjp"), ("convolution metrics, two strategies", "Conv2d.jTmjp"), ("scatter of both indices", "MaxPool2d.jTmjp"),
   ("two block sums", "Upsample.jTmjp"), ("cross terms of the branch", "SkipConnection.jTmjp"), ("four variants", "Linear/AbstractJacobian/AbstractDiagonalJacobian.jTmjp")],
  ["weights", "feature maps", "argmax indices"], ["jTmjp"])

p("C07", "Omitting the matrix means the identity",
  "Calling a matrix or metric product without a matrix gives exactly the result of passing the identity of the right size, for every module, every input rank and every combination of the diagonal flags. In particular the matrix products without a matrix return the Jacobian itself.",
  ["inputs", "configurations"],
  "every module and composition on vectors and on images, all four matrix products, both targets, all flag combinations",
  "The tests never omit the matrix except through the Jacobian itself.",
  LAYERS + BOX + ABS,
  [("default metrics", "the `if matrix is None` branches of every jmp/mjp/jmjTp/jTmjp")],
  ["from_diag flag set by the default"], ["jmp", "mjp", "jmjTp", "jTmjp with matrix=None"])

p("C08", "Diagonal backpropagation is the layerwise diagonal recursion",
  "Approximate metric propagation (diagonal in, diagonal out, diagonal between layers) returns exactly the result of applying, layer by layer and branch by branch, the exact diagonal-to-diagonal propagation of each layer. It coincides with the exact diagonal for a single layer and for compositions of layers with diagonal Jacobians, and maps non-negative metrics to non-negative metrics.",
  ["inputs", "configurations"],
  "every module and composition, every diagonal metric, both directions and both targets, every batch size",
  "No test checks the approximate mode's value: it differs from every exact product, so only an explicit definition can judge it.",
  LAYERS + BOX + ABS,
  [("diagonal between layers", "diag_backprop in Sequential.jTmjp/jmjTp"), ("branches", "SkipConnection.jTmjp/jmjTp"), ("diag->diag variants", "every layer's jTmjp/jmjTp")],
  ["diagonal metric between two layers"], ["jTmjp(diag_backprop=True)", "jmjTp(diag_backprop=True)"])

p("C09", "Results depend only on the composed function",
  "Grouping layers into nested compositions, slicing a composition and chaining the parts, or appending, inserting, replacing and deleting layers gives exactly the products of the flat list of layers as it is at that moment. A skip connection behaves as stacking the input on top of the output of its inner composition, along the channel dimension for images.",
  ["configurations", "histories"],
  "every tree of compositions and skip connections over every layer list, every edit sequence, every product",
  "There are exponentially many groupings and edit sequences; the tests have two nested examples and no edits.",
  BOX,
  [("list of layers consulted by every product", "Sequential._modules_list, Sequential._n_params"), ("nested products", "Sequential.* calling layer products"), ("concatenation", "SkipConnection.forward and products")],
  ["list of layers", "parameter counts"], ["all products", "forward", "slicing and item assignment of compositions"])

p("C10", "Products do not depend on the history of calls",
  "The result of every product is a function of the current weights, the input and the argument only: it is the same whether the module's output is passed in or omitted, and whatever was evaluated before on other inputs, other batch sizes, inner modules, copies or modules sharing layers. Changing the weights is seen by the next call. A result already returned is not changed by products computed later.",
  ["histories", "inputs"],
  "every interleaving of evaluations, products, weight changes, copies and inner evaluations on one or several modules and inputs",
  "Tests evaluate one fresh module at a time; stale caches only show after particular interleavings.",
  BOX + ["nnj/maxpool2d.py", "nnj/abstract_jacobian.py"],
  [("feature maps stored between calls", "Sequential.feature_maps"), ("argmax indices stored between calls", "MaxPool2d.idx"), ("weights replaced in place", "AbstractJacobian.set_weight")],
  ["feature maps", "argmax indices", "weights"], ["all products with val given and omitted", "deepcopy/pickle of modules"])

p("C11", "Samples of a batch do not influence each other",
  "For every product and for the forward map, the result for one sample of a batch is the result that sample gets alone: it does not depend on the batch size, on its position or on the values of the other samples.",
  ["inputs"],
  "every module, product, batch size from one up, every permutation and subset of a batch, also when other samples are extreme",
  "The product tests use batch size one throughout.",
  LAYERS + BOX + ABS,
  [("per sample loops and vmap", "Conv2d.vjp/mjp/jTmjp"), ("batch and channel merged into one index", "MaxPool2d, Upsample"), ("einsum over the batch index", "Linear, AbstractJacobian, AbstractDiagonalJacobian, L2Norm")],
  ["batch dimension of every intermediate"], ["all products", "forward"])

p("C12", "Products are pure queries",
  "Computing a Jacobian or a product never changes the input, the given output, the argument (nested lists included), the weights or their gradients, is never recorded by automatic differentiation, and returns values in the floating dtype of the input. It accepts inputs and arguments in any memory layout, and inputs and weights that require gradients.",
  ["inputs", "configurations"],
  "every module and product, contiguous, transposed, sliced and broadcast memory layouts, float32 and float64, inputs inside a recorded graph",
  "The tests pass fresh contiguous float32 tensors and never look at them again.",
  LAYERS + BOX + ABS,
  [("no_grad products", "@torch.no_grad() on every product"), ("in-place accumulation", "`+=` in Sequential.jvp/jmp/jmjTp"), ("index_put into zeros", "MaxPool2d"), ("allocation of identities and zeros", "Conv2d, Upsample, MaxPool2d, SkipConnection")],
  ["caller's tensors", "parameters and their .grad"], ["tensors passed to and returned from every product"])

p("C13", "Reading and writing the flat weights round-trips",
  "Reading the flat weight vector after writing one returns it, writing back what was read changes nothing, and both use the same order for every module, nested compositions included. The module never shares memory with the vector given or returned: later changes of either are not seen by the other.",
  ["histories", "configurations"],
  "every module tree, every vector, every sequence of reads, writes, in-place changes of the vectors and evaluations",
  "No test writes weights; aliasing only shows when the vector is modified afterwards.",
  ["nnj/abstract_jacobian.py", "nnj/sequential.py", "nnj/skipconnection.py"],
  [("flat weights", "AbstractJacobian.get_weight, AbstractJacobian.set_weight")],
  ["parameters", "caller's vector"], ["get_weight()", "set_weight(v)", "forward after set_weight"])

p("C14", "Log-likelihood values and gradients are exact",
  "For the Gaussian, binary and categorical likelihoods the value is the log-probability of the target given the model's output (up to the Gaussian constant), summed over outputs, and the gradient is its derivative with respect to input or weights through the model. The three aggregation modes return the per-sample results, their sum and their mean, and values and gradients stay finite and exact for saturated logits.",
  ["inputs", "configurations"],
  "every model, every batch and target, outputs of any rank, logits of any magnitude, every aggregation mode, both targets of differentiation",
  "No test touches the likelihoods.",
  ["nnj/log_likelihoods.py"],
  [("value", "LogGaussian.forward, LogBinaryBernoulli.forward, LogBernoulli.forward"), ("gradient", "the gradient methods calling model.vjp"), ("aggregation", "aggregate_batch")],
  ["model weights", "target"], ["likelihood(x, model, target)", "likelihood.gradient(...)"])

p("C15", "Log-likelihood GGN is J^T H J",
  "The generalized Gauss-Newton matrix of each likelihood equals the Jacobian transposed times the Hessian of the log-likelihood in the outputs times the Jacobian, in full (one block per parametric layer for compositions) or as its diagonal, with the approximate mode equal to diagonal backpropagation of the Hessian's diagonal. Aggregation over the batch acts on every block, the exact matrix is negative semi-definite, and it stays finite for saturated logits.",
  ["inputs", "configurations"],
  "every model, batch, output rank, logits of any magnitude, metric shape, backpropagation mode and aggregation mode, both targets of differentiation",
  "No test touches the likelihoods.",
  ["nnj/log_likelihoods.py"],
  [("output Hessians", "LogGaussian.ggn, LogBinaryBernoulli.ggn, LogBernoulli.ggn"), ("pull back", "model.jTmjp"), ("aggregation of blocks", "LogLikelihood._aggregate_metric")],
  ["model weights"], ["likelihood.ggn(...)"])

p("C16", "Converting a torch network preserves its function",
  "Converting a plain torch sequential network gives a network that computes the same function with the same weights, keeping every configuration option of every layer, nested networks included, and whose products are those of that function. A layer or option that cannot be represented is refused, never silently changed.",
  ["configurations"],
  "every sequence of supported torch layers with every option (bias, padding, stride, dilation, groups, ceil mode, beta, threshold, scale, mode), nested to any depth",
  "No test converts a network.",
  ["nnj/utils.py"],
  [("layer by layer translation", "convert_to_nnj")], ["layer options", "weights"], ["convert_to_nnj(net)"])

p("C17", "Inverting block matrices inverts every block",
  "Inverting a symmetric positive definite matrix, a batch of them, or an arbitrarily nested list of blocks (as produced by pulled-back metrics) returns the same structure with every matrix replaced by its inverse.",
  ["inputs"],
  "every symmetric positive definite matrix, batch and nesting",
  "No test inverts anything, and the identity and other special matrices hide confusion between a matrix and its factor.",
  ["nnj/utils.py"],
  [("inverse through the Cholesky factor", "invert_block_diagonal")], [], ["invert_block_diagonal(m)"])

p("C18", "Unsupported configurations are refused, never wrong",
  "For every configuration a layer can be constructed with (strides, dilations, groups, padding modes, paddings larger than the kernel, interpolation modes, fractional or anisotropic scale factors, flag combinations), each product either returns the exact value or raises an error. It never returns a wrong value or a value of the wrong shape.",
  ["configurations"],
  "the whole lattice of constructor options and call flags, also outside the documented support",
  "The tests only construct supported configurations.",
  ["nnj/conv2d.py", "nnj/upsample.py", "nnj/maxpool2d.py", "nnj/sequential.py", "nnj/skipconnection.py"],
  [("refusal of strides", "Conv2d.__init__"), ("refusal in products", "Conv2d._check_padding_mode, Upsample._check_mode, NotImplementedError in forward passes"), ("flag assertion", "diag_backprop assertion in Sequential and SkipConnection")],
  ["constructor options"], ["constructors", "all products"])

p("C19", "Activation derivatives hold over the whole real line",
  "Each elementwise activation, for every value of its parameters, has as derivative the one of its documented function at every real input: near zero, moderate, and deep in both saturated regimes, above the linear threshold of the softplus, and beyond the clamp at 15 of the truncated exponential. Vector normalisation has the exact derivative for every positive epsilon, at the origin included; results are finite wherever the derivative is.",
  ["inputs"],
  "every activation, every real input in float32 and float64, every beta, threshold and epsilon, every product derived from it",
  "The tests draw standard normal inputs, which never reach a threshold, a clamp, saturation or the origin, and use default parameters.",
  ["nnj/tanh.py", "nnj/relu.py", "nnj/sigmoid.py", "nnj/sinusoidal.py", "nnj/softplus.py", "nnj/truncexp.py", "nnj/l2norm.py", "nnj/abstract_diagonal_jacobian.py"],
  [("derivative from value or input", "jacobian() of each activation"), ("norm derivative", "L2Norm.jacobian")],
  ["beta, threshold, eps"], ["jacobian and products of activations", "forward"])

p("C20", "A custom layer gets every product from its Jacobian",
  "A user-defined layer that only implements its forward map and its Jacobian (full or diagonal, with or without parameters) gets every product, flag combination and default, and can be placed anywhere in compositions and skip connections, with exactly the values its Jacobian implies.",
  ["configurations", "inputs"],
  "every user-defined layer, also with rectangular, non-symmetric Jacobians and with parameters, alone or composed, every product",
  "No test defines a layer; the only built-in layer on the generic path has a square symmetric Jacobian, for which transposition errors cancel.",
  ABS + BOX,
  [("generic products", "AbstractJacobian.jvp/jmp/jmjTp/vjp/mjp/jTmjp"), ("diagonal products", "AbstractDiagonalJacobian.*")],
  ["the layer's Jacobian"], ["all products of a user-defined layer"])

p("C21", "The forward map stays differentiable",
  "Every module can be trained like any torch module: automatic differentiation through its forward map, with respect to the input or the weights, gives exactly the vector-Jacobian product of that map, also where the library defines its own backward pass. Products and evaluations made between the forward and the backward pass, on this or other inputs, change neither the output already computed nor its gradients.",
  ["histories", "configurations", "inputs"],
  "every module and composition, every input and cotangent, any queries between a forward and its backward pass",
  "The tests compare products with automatic differentiation for a few fixed networks, never after other queries; a layer cut off from the graph, or a stored tensor overwritten later, is only seen by training.",
  ABS + BOX,
  [("forward maps", "forward() of every module"), ("own backward pass", "nnj/truncexp.py _trunc_exp.backward"), ("stored feature maps are detached", "Sequential.forward")],
  ["weights, input, cotangent, queries in between"], ["gradients by automatic differentiation"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for q in P:
    assert len(q["title"]) <= 80, q["id"]
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
