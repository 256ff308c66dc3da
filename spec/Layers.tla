------------------------------- MODULE Layers -------------------------------
(***************************************************************************)
(* The mathematical meaning of every nnj module, on exact integers.        *)
(*                                                                         *)
(* A module is a record (a tree) with field t naming its kind:             *)
(*   lin   Linear:          w rows x cols, b (<<>> without bias)           *)
(*   conv  Conv2d:          w flat [c2][c1/g][kh][kw], b, padding, ...     *)
(*   mp    MaxPool2d        up   Upsample (nearest, integer factor f)      *)
(*   upr   Upsample (nearest, any output size)                             *)
(*   bil   Upsample (bilinear, factor f; values scaled by (2f)^2)          *)
(*   sep   Upsample (area, nearest-exact, bilinear to any size, corners    *)
(*         aligned or not; values scaled by qh*qw)                         *)
(*   relu, act (Tanh, Sigmoid, Sinusoidal, TruncExp, Softplus), l2         *)
(*   flat, resh             shape changes                                  *)
(*   sq, pair, cscale, sten custom layers (README, "Add a custom layer")   *)
(*   seq   Sequential       skip  SkipConnection (ls is the list inside)   *)
(*                                                                         *)
(* A value is [d |-> shape, v |-> row-major entries]; it is one sample,    *)
(* never a batch: what a module does to a batch is, by definition, what it *)
(* does to each sample.                                                    *)
(*                                                                         *)
(* Fwd is the function the module computes, Jx its derivative with respect *)
(* to the input and Jw with respect to the parameters, in the order of     *)
(* ParamVec.  MCDeriv checks that Jx and Jw are the derivative of Fwd.     *)
(*                                                                         *)
(* Transcendental activations are specified at the points k*ln2 (k*pi/3    *)
(* for the sine) where values and derivatives are rational; they are       *)
(* multiplied by the common denominators ActVS and ActDS.                  *)
(***************************************************************************)
EXTENDS Tensor

Val(d, v) == [d |-> d, v |-> v]

----------------------------------------------------------------------------
(* Activations at integer points *)

\* value * ActVS at the point k
ActV(a, k) ==
  CASE a = "tanh" -> (CASE k = -1 -> -1 [] k = 0 -> 0 [] k = 1 -> 1)          \* (4^k-1)/(4^k+1), over 3/5
    [] a = "sigm" -> (CASE k = -1 -> 2 [] k = 0 -> 3 [] k = 1 -> 4)            \* 2^k/(1+2^k), over 6
    [] a = "texp" -> (CASE k = -1 -> 1 [] k = 0 -> 2 [] k = 1 -> 4 [] k = 2 -> 8) \* 2^k, over 2
    [] a = "sin"  -> (CASE k % 3 = 0 -> 0 [] k % 6 \in {1, 2} -> 1 [] OTHER -> -1) \* sin(k pi/3), over sqrt(3)/2
    [] a = "splus" -> 0                                                        \* never observed (irrational)
\* derivative * ActDS at the point k
ActD(a, k) ==
  CASE a = "tanh" -> (IF k = 0 THEN 25 ELSE 16)                                \* 4*4^k/(4^k+1)^2, over 25
    [] a = "sigm" -> (IF k = 0 THEN 9 ELSE 8)                                  \* 2^k/(1+2^k)^2, over 36
    [] a = "texp" -> (CASE k = -1 -> 1 [] k = 0 -> 2 [] k = 1 -> 4 [] k = 2 -> 8)
    [] a = "sin"  -> (CASE k % 6 = 0 -> 2 [] k % 6 \in {1, 5} -> 1 [] k % 6 \in {2, 4} -> -1 [] OTHER -> -2) \* cos(k pi/3), over 1/2
    [] a = "splus" -> (CASE k = -1 -> 2 [] k = 0 -> 3 [] k = 1 -> 4)            \* sigmoid, over 6

----------------------------------------------------------------------------
(* Convolution and pooling, by index arithmetic.                           *)
(* All coordinates are 0-based; flat positions are 1-based.                *)

ConvOutH(m, H) == (H + 2 * m.ph - m.dh * (m.kh - 1) - 1) \div m.sh + 1
ConvOutW(m, W) == (W + 2 * m.pw - m.dw * (m.kw - 1) - 1) \div m.sw + 1
ConvWIdx(m, co, cg, p, q) == ((co * (m.c1 \div m.g) + cg) * m.kh + p) * m.kw + q + 1

\* the input pixel that kernel position (p,q) reads for output pixel (a,b): <<i,j>>, or <<-1,-1>> for padding
ConvSrc(m, H, W, a, b, p, q) ==
  LET i == a * m.sh + p * m.dh - m.ph
      j == b * m.sw + q * m.dw - m.pw
      Refl(k, L) == IF k < 0 THEN -k ELSE IF k >= L THEN 2 * L - 2 - k ELSE k
      Clamp(k, L) == MaxI(0, MinI(k, L - 1))
  IN IF m.pm = "circular" THEN <<i % H, j % W>>
     ELSE IF m.pm = "reflect" THEN <<Refl(i, H), Refl(j, W)>>
     ELSE IF m.pm = "replicate" THEN <<Clamp(i, H), Clamp(j, W)>>
     ELSE IF i >= 0 /\ i < H /\ j >= 0 /\ j < W THEN <<i, j>> ELSE <<-1, -1>>

ConvFwd(m, x) ==
  LET H == x.d[2]  W == x.d[3]
      H2 == ConvOutH(m, H)  W2 == ConvOutW(m, W)
      cg1 == m.c1 \div m.g  cg2 == m.c2 \div m.g
      taps == TLCEval([n \in 1..(cg1 * m.kh * m.kw) |->
                 <<(n-1) \div (m.kh * m.kw), ((n-1) \div m.kw) % m.kh, (n-1) % m.kw>>])
      At(o) ==
        LET co == (o-1) \div (H2 * W2)
            a == ((o-1) \div W2) % H2
            b == (o-1) % W2
            grp == co \div cg2
        IN FoldLeft(LAMBDA acc, tp :
             LET s == ConvSrc(m, H, W, a, b, tp[2], tp[3])
             IN IF s[1] < 0 THEN acc
                ELSE acc + m.w[ConvWIdx(m, co, tp[1], tp[2], tp[3])]
                           * x.v[((grp * cg1 + tp[1]) * H + s[1]) * W + s[2] + 1],
             IF Len(m.b) = 0 THEN 0 ELSE m.b[co + 1], taps)
  IN Val(<<m.c2, H2, W2>>, Vec(m.c2 * H2 * W2, At))

ConvJx(m, x) ==
  LET H == x.d[2]  W == x.d[3]
      H2 == ConvOutH(m, H)  W2 == ConvOutW(m, W)
      cg1 == m.c1 \div m.g  cg2 == m.c2 \div m.g
      At(o, n) ==
        LET co == (o-1) \div (H2 * W2)
            a == ((o-1) \div W2) % H2
            b == (o-1) % W2
            ci == (n-1) \div (H * W)
            i == ((n-1) \div W) % H
            j == (n-1) % W
        IN IF ci \div cg1 # co \div cg2 THEN 0
           ELSE IF m.pm # "zeros"
           THEN FoldLeftDomain(LAMBDA acc, t :
                  LET p == (t-1) \div m.kw  q == (t-1) % m.kw
                  IN IF ConvSrc(m, H, W, a, b, p, q) = <<i, j>>
                     THEN acc + m.w[ConvWIdx(m, co, ci % cg1, p, q)] ELSE acc,
                  0, [t \in 1..(m.kh * m.kw) |-> 0])
           ELSE LET dp == i + m.ph - a * m.sh
                    dq == j + m.pw - b * m.sw
                IN IF dp >= 0 /\ dq >= 0 /\ dp % m.dh = 0 /\ dq % m.dw = 0
                      /\ dp \div m.dh < m.kh /\ dq \div m.dw < m.kw
                   THEN m.w[ConvWIdx(m, co, ci % cg1, dp \div m.dh, dq \div m.dw)]
                   ELSE 0
  IN Mat(m.c2 * H2 * W2, m.c1 * H * W, At)

ConvJw(m, x) ==
  LET H == x.d[2]  W == x.d[3]
      H2 == ConvOutH(m, H)  W2 == ConvOutW(m, W)
      cg1 == m.c1 \div m.g  cg2 == m.c2 \div m.g
      nw == m.c2 * cg1 * m.kh * m.kw
      At(o, n) ==
        LET co == (o-1) \div (H2 * W2)
            a == ((o-1) \div W2) % H2
            b == (o-1) % W2
        IN IF n > nw THEN (IF n - nw = co + 1 THEN 1 ELSE 0)
           ELSE LET c == (n-1) \div (cg1 * m.kh * m.kw)
                    cg == ((n-1) \div (m.kh * m.kw)) % cg1
                    p == ((n-1) \div m.kw) % m.kh
                    q == (n-1) % m.kw
                    s == ConvSrc(m, H, W, a, b, p, q)
                IN IF c # co \/ s[1] < 0 THEN 0
                   ELSE x.v[(((co \div cg2) * cg1 + cg) * H + s[1]) * W + s[2] + 1]
  IN Mat(m.c2 * H2 * W2, nw + Len(m.b), At)

PoolOut(L, k, s, p, dl, ceil) ==
  LET span == L + 2 * p - dl * (k - 1) - 1
      n == (IF ceil THEN (span + s - 1) \div s ELSE span \div s) + 1
  IN IF ceil /\ (n - 1) * s >= L + p THEN n - 1 ELSE n

\* flat position read by output o of a max pool: the first maximum of its window
PoolArg(m, x, o) ==
  LET H == x.d[2]  W == x.d[3]
      H2 == PoolOut(H, m.kh, m.sh, m.ph, m.dh, m.ceil)
      W2 == PoolOut(W, m.kw, m.sw, m.pw, m.dw, m.ceil)
      c == (o-1) \div (H2 * W2)
      a == ((o-1) \div W2) % H2
      b == (o-1) % W2
      win == [t \in 1..(m.kh * m.kw) |->
                <<a * m.sh - m.ph + ((t-1) \div m.kw) * m.dh, b * m.sw - m.pw + ((t-1) % m.kw) * m.dw>>]
  IN FoldLeft(LAMBDA best, ij :
       IF ij[1] < 0 \/ ij[1] >= H \/ ij[2] < 0 \/ ij[2] >= W THEN best
       ELSE LET n == (c * H + ij[1]) * W + ij[2] + 1
            IN IF best = 0 THEN n ELSE IF x.v[n] > x.v[best] THEN n ELSE best,
       0, win)
PoolShape(m, x) == <<x.d[1], PoolOut(x.d[2], m.kh, m.sh, m.ph, m.dh, m.ceil),
                             PoolOut(x.d[3], m.kw, m.sw, m.pw, m.dw, m.ceil)>>

\* flat position read by output o of a nearest-neighbour upsampling
UpSrc(m, x, o) ==
  LET H == x.d[2]  W == x.d[3]  H2 == H * m.f  W2 == W * m.f
      c == (o-1) \div (H2 * W2)  a == ((o-1) \div W2) % H2  b == (o-1) % W2
  IN (c * H + (a \div m.f)) * W + (b \div m.f) + 1

\* nearest-neighbour resampling to an output of oh x ow pixels: output row a reads input row a * rn / rd
UprSrc(m, x, o) ==
  LET H == x.d[2]  W == x.d[3]
      c == (o-1) \div (m.oh * m.ow)  a == ((o-1) \div m.ow) % m.oh  b == (o-1) % m.ow
  IN (c * H + MinI((a * m.rn) \div m.rd, H - 1)) * W + MinI((b * m.cn) \div m.cd, W - 1) + 1

\* bilinear weight (times 2f) of source index i for output index a, along an axis of length L
BilW(f, L, a, i) ==
  LET num == MaxI(2 * a + 1 - f, 0)          \* 2f * source coordinate, clamped at 0
      lo == MinI(num \div (2 * f), L - 1)
      hi == MinI(lo + 1, L - 1)
      fr == num - 2 * f * lo
      frc == IF lo = L - 1 THEN 0 ELSE fr
  IN (IF i = lo THEN 2 * f - frc ELSE 0) + (IF i = hi THEN frc ELSE 0)
BilJx(m, x) ==
  LET H == x.d[2]  W == x.d[3]  H2 == H * m.f  W2 == W * m.f
      At(o, n) ==
        LET c == (o-1) \div (H2 * W2)  a == ((o-1) \div W2) % H2  b == (o-1) % W2
            ci == (n-1) \div (H * W)  i == ((n-1) \div W) % H  j == (n-1) % W
        IN IF c # ci THEN 0 ELSE BilW(m.f, H, a, i) * BilW(m.f, W, b, j)
  IN Mat(x.d[1] * H2 * W2, Len(x.v), At)

\* resampling to oh x ow pixels, axis by axis: the weight (times Q) of source index i for output index a
SepW(k, O, L, Q, a, i) ==
  CASE k = "area" -> LET lo == (a * L) \div O
                         hi == ((a + 1) * L + O - 1) \div O          \* exclusive
                     IN IF lo <= i /\ i < hi THEN Q \div (hi - lo) ELSE 0
    [] k = "exact" -> IF i = ((2 * a + 1) * L) \div (2 * O) THEN Q ELSE 0
    [] OTHER -> LET num == IF k = "align" THEN a * (L - 1) ELSE MaxI((2 * a + 1) * L - O, 0)
                    lo == MinI(num \div Q, L - 1)
                    hi == MinI(lo + 1, L - 1)
                    fr == IF lo = L - 1 THEN 0 ELSE num - Q * lo
                IN (IF i = lo THEN Q - fr ELSE 0) + (IF i = hi THEN fr ELSE 0)
SepJx(m, x) ==
  LET H == x.d[2]  W == x.d[3]
      At(o, n) ==
        LET c == (o-1) \div (m.oh * m.ow)  a == ((o-1) \div m.ow) % m.oh  b == (o-1) % m.ow
            ci == (n-1) \div (H * W)  i == ((n-1) \div W) % H  j == (n-1) % W
        IN IF c # ci THEN 0 ELSE SepW(m.k, m.oh, H, m.qh, a, i) * SepW(m.k, m.ow, W, m.qw, b, j)
  IN Mat(x.d[1] * m.oh * m.ow, Len(x.v), At)

----------------------------------------------------------------------------
(* L2 normalisation at points with an integer norm: x/(|x|+e).             *)
ISqrt(n) == CHOOSE r \in 0..n : r * r <= n /\ (r + 1) * (r + 1) > n
L2N(x) == ISqrt(Dot(x.v, x.v))

----------------------------------------------------------------------------
RECURSIVE Fwd(_, _), FMs(_, _), NP(_), ParamVec(_), WithParams(_, _), WithParamsL(_, _)

Fwd(m, x) ==
  CASE m.t = "lin" -> Val(<<Len(m.w)>>, Vec(Len(m.w), LAMBDA i : Dot(m.w[i], x.v) + (IF Len(m.b) = 0 THEN 0 ELSE m.b[i])))
    [] m.t = "conv" -> ConvFwd(m, x)
    [] m.t = "mp" -> Val(PoolShape(m, x), Vec(Prod(PoolShape(m, x)), LAMBDA o : x.v[PoolArg(m, x, o)]))
    [] m.t = "up" -> Val(<<x.d[1], x.d[2] * m.f, x.d[3] * m.f>>,
                         Vec(Len(x.v) * m.f * m.f, LAMBDA o : x.v[UpSrc(m, x, o)]))
    [] m.t = "upr" -> Val(<<x.d[1], m.oh, m.ow>>, Vec(x.d[1] * m.oh * m.ow, LAMBDA o : x.v[UprSrc(m, x, o)]))
    [] m.t = "bil" -> Val(<<x.d[1], x.d[2] * m.f, x.d[3] * m.f>>, MV(BilJx(m, x), x.v))
    [] m.t = "sep" -> Val(<<x.d[1], m.oh, m.ow>>, MV(SepJx(m, x), x.v))
    [] m.t = "relu" -> Val(x.d, Vec(Len(x.v), LAMBDA i : MaxI(x.v[i], 0)))
    [] m.t = "act" -> Val(x.d, Vec(Len(x.v), LAMBDA i : ActV(m.a, x.v[i])))
    [] m.t = "l2" -> x                                       \* times 1/(|x|+e)
    [] m.t = "flat" -> Val(<<Len(x.v)>>, x.v)
    [] m.t = "resh" -> Val(m.dims, x.v)
    [] m.t = "sq" -> Val(x.d, Vec(Len(x.v), LAMBDA i : x.v[i] * x.v[i]))
    [] m.t = "pair" -> Val(<<Len(x.v) - 1>>, Vec(Len(x.v) - 1, LAMBDA i : x.v[i] * x.v[i + 1] + x.v[i]))
    [] m.t = "cscale" -> Val(x.d, Vec(Len(x.v), LAMBDA i : m.w[i] * x.v[i]))
    [] m.t = "sten" -> Val(<<Len(x.v) - 1>>, Vec(Len(x.v) - 1, LAMBDA i : m.w[1] * x.v[i] + m.w[2] * x.v[i] * x.v[i + 1] + m.w[3]))
    [] m.t = "seq" -> LET f == FMs(m.ls, x) IN f[Len(f)]
    [] m.t = "skip" -> LET f == FMs(m.ls, x)
                           y == f[Len(f)]
                       IN Val(<<x.d[1] + y.d[1]>> \o Tail(x.d), x.v \o y.v)

\* feature maps: the input and the output of every layer
FMs(ls, x) == FoldLeft(LAMBDA acc, l : Append(acc, Fwd(l, acc[Len(acc)])), <<x>>, ls)

\* number of parameters and the flat parameter vector
NP(m) ==
  CASE m.t = "lin" -> Len(m.w) * Len(m.w[1]) + Len(m.b)
    [] m.t = "conv" -> Len(m.w) + Len(m.b)
    [] m.t \in {"cscale", "sten"} -> Len(m.w)
    [] m.t \in {"seq", "skip"} -> FoldLeft(LAMBDA a, l : a + NP(l), 0, m.ls)
    [] OTHER -> 0
ParamVec(m) ==
  CASE m.t = "lin" -> FlattenSeq2(m.w) \o m.b
    [] m.t = "conv" -> m.w \o m.b
    [] m.t \in {"cscale", "sten"} -> m.w
    [] m.t \in {"seq", "skip"} -> FoldLeft(LAMBDA a, l : a \o ParamVec(l), <<>>, m.ls)
    [] OTHER -> <<>>
WithParams(m, p) ==
  CASE m.t = "lin" -> LET r == Len(m.w)  c == Len(m.w[1])
                      IN [m EXCEPT !.w = Mat(r, c, LAMBDA i, j : p[(i - 1) * c + j]),
                                   !.b = SubV(p, r * c, Len(m.b))]
    [] m.t = "conv" -> [m EXCEPT !.w = SubV(p, 0, Len(m.w)), !.b = SubV(p, Len(m.w), Len(m.b))]
    [] m.t \in {"cscale", "sten"} -> [m EXCEPT !.w = p]
    [] m.t \in {"seq", "skip"} -> [m EXCEPT !.ls = WithParamsL(m.ls, p)]
    [] OTHER -> m
WithParamsL(ls, p) ==
  IF Len(ls) = 0 THEN <<>>
  ELSE LET n == NP(Head(ls))
       IN <<WithParams(Head(ls), SubV(p, 0, n))>> \o WithParamsL(Tail(ls), SubV(p, n, Len(p) - n))

----------------------------------------------------------------------------
(* Derivatives.  JxLeaf and JwLeaf are the derivatives of the individual   *)
(* layers, Jx and Jw apply the chain rule.                                 *)
JxLeaf(m, x) ==
  CASE m.t = "lin" -> m.w
    [] m.t = "conv" -> ConvJx(m, x)
    [] m.t = "mp" -> LET n == Prod(PoolShape(m, x))
                         src == Vec(n, LAMBDA o : PoolArg(m, x, o))
                     IN Mat(n, Len(x.v), LAMBDA i, j : IF src[i] = j THEN 1 ELSE 0)
    [] m.t = "up" -> LET n == Len(x.v) * m.f * m.f
                         src == Vec(n, LAMBDA o : UpSrc(m, x, o))
                     IN Mat(n, Len(x.v), LAMBDA i, j : IF src[i] = j THEN 1 ELSE 0)
    [] m.t = "upr" -> LET n == x.d[1] * m.oh * m.ow
                          src == Vec(n, LAMBDA o : UprSrc(m, x, o))
                      IN Mat(n, Len(x.v), LAMBDA i, j : IF src[i] = j THEN 1 ELSE 0)
    [] m.t = "bil" -> BilJx(m, x)
    [] m.t = "sep" -> SepJx(m, x)
    [] m.t = "relu" -> DiagM(Vec(Len(x.v), LAMBDA i : IF x.v[i] > 0 THEN 1 ELSE 0))
    [] m.t = "act" -> DiagM(Vec(Len(x.v), LAMBDA i : ActD(m.a, x.v[i])))
    [] m.t = "l2" -> LET n == L2N(x)                      \* times 1/(n (n+e)^2); at the origin times 1/e
                     IN IF n = 0 THEN Eye(Len(x.v))
                        ELSE Mat(Len(x.v), Len(x.v), LAMBDA i, j :
                               (IF i = j THEN n * (n + m.e) ELSE 0) - x.v[i] * x.v[j])
    [] m.t \in {"flat", "resh"} -> Eye(Len(x.v))
    [] m.t = "sq" -> DiagM(Vec(Len(x.v), LAMBDA i : 2 * x.v[i]))
    [] m.t = "pair" -> Mat(Len(x.v) - 1, Len(x.v), LAMBDA i, j :
                         IF j = i THEN x.v[i + 1] + 1 ELSE IF j = i + 1 THEN x.v[i] ELSE 0)
    [] m.t = "cscale" -> DiagM(m.w)
    [] m.t = "sten" -> Mat(Len(x.v) - 1, Len(x.v), LAMBDA i, j :
                         IF j = i THEN m.w[1] + m.w[2] * x.v[i + 1] ELSE IF j = i + 1 THEN m.w[2] * x.v[i] ELSE 0)

JwLeaf(m, x) ==
  CASE m.t = "lin" -> LET r == Len(m.w)  c == Len(x.v)
                      IN Mat(r, r * c + Len(m.b), LAMBDA i, p :
                           IF p <= r * c THEN (IF (p - 1) \div c = i - 1 THEN x.v[((p - 1) % c) + 1] ELSE 0)
                           ELSE IF p - r * c = i THEN 1 ELSE 0)
    [] m.t = "conv" -> ConvJw(m, x)
    [] m.t = "cscale" -> DiagM(x.v)
    [] m.t = "sten" -> Mat(Len(x.v) - 1, 3, LAMBDA i, p : CASE p = 1 -> x.v[i] [] p = 2 -> x.v[i] * x.v[i + 1] [] p = 3 -> 1)

IsBox(m) == m.t \in {"seq", "skip"}

RECURSIVE Jx(_, _), Jw(_, _)
Jx(m, x) ==
  CASE m.t = "seq" ->
         LET f == FMs(m.ls, x)
         IN FoldLeftDomain(LAMBDA acc, k : IF k = 1 THEN Jx(m.ls[1], f[1]) ELSE MM(Jx(m.ls[k], f[k]), acc),
                           <<>>, m.ls)
    [] m.t = "skip" -> VCat2(Eye(Len(x.v)), Jx([t |-> "seq", ls |-> m.ls], x))
    [] OTHER -> JxLeaf(m, x)

\* only for modules with NP(m) > 0
Jw(m, x) ==
  CASE m.t = "seq" ->
         LET f == FMs(m.ls, x)
             n == Len(m.ls)
             nout == Len(f[n + 1].v)
             \* backwards: acc[1] = derivative of the output w.r.t. the input of layer k+1, acc[2] = columns so far
             st == FoldRight(LAMBDA k, acc :
                     LET l == m.ls[k]
                         cols == IF NP(l) = 0 THEN acc[2]
                                 ELSE LET b == (IF k = n THEN Jw(l, f[k]) ELSE MM(acc[1], Jw(l, f[k])))
                                      IN IF acc[2] = <<>> THEN b ELSE HCat2(b, acc[2])
                         \* the suffix product is only needed while earlier layers have parameters
                         need == \E j \in 1..(k - 1) : NP(m.ls[j]) > 0
                         sfx == IF ~need THEN <<>>
                                ELSE IF k = n THEN Jx(l, f[k]) ELSE MM(acc[1], Jx(l, f[k]))
                     IN <<sfx, cols>>,
                     [k \in 1..n |-> k], <<<<>>, <<>>>>)
         IN st[2]
    [] m.t = "skip" -> VCat2(ZeroM(Len(x.v), NP(m)), Jw([t |-> "seq", ls |-> m.ls], x))
    [] OTHER -> JwLeaf(m, x)

\* sizes of the parameter blocks of the parametric leaves, in order
RECURSIVE LeafSizes(_)
LeafSizes(m) ==
  IF IsBox(m) THEN FoldLeft(LAMBDA a, l : a \o LeafSizes(l), <<>>, m.ls)
  ELSE IF NP(m) = 0 THEN <<>> ELSE <<NP(m)>>
\* how a list of blocks, one per parametric layer, is nested
RECURSIVE NestStr(_)
NestStr(m) ==
  IF ~IsBox(m) THEN ToString(NP(m))
  ELSE LET ps == SelectSeq(m.ls, LAMBDA l : NP(l) > 0)
       IN "[" \o FoldLeftDomain(LAMBDA a, k : a \o (IF k = 1 THEN "" ELSE ",") \o NestStr(ps[k]), "", ps) \o "]"
=============================================================================
