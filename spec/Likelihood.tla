----------------------------- MODULE Likelihood -----------------------------
(***************************************************************************)
(* The log-likelihoods, exactly.                                           *)
(*                                                                         *)
(* kinds: "gauss", "bin" (independent binary), "cat" (categorical over the *)
(* last dimension).  The network's integer outputs are the means (gauss),  *)
(* or the logits in units of ln 2 (bin, cat), so that probabilities are    *)
(* rational; or, with sat, logits in units of 1 which are so far apart     *)
(* that every probability is 0 or 1 to machine precision.                  *)
(* Targets are integers over the denominator e.td: td times the target.    *)
(*                                                                         *)
(* Results are recorded multiplied by e.sc.  Every comparison below is a   *)
(* cross-multiplication of integers.                                       *)
(***************************************************************************)
EXTENDS Contract

Pow2(k) == IF k < 0 THEN 0 ELSE FoldLeft(LAMBDA a, b : 2 * a, 1, [j \in 1..k |-> 0])

\* logits y (a flat output), groups of c consecutive entries (the last dimension)
Group(y, c, g) == SubV(y, (g - 1) * c, c)
NGroups(y, c) == Len(y) \div c

----------------------------------------------------------------------------
(* Probabilities: numerator and denominator per output.  A logit that is   *)
(* FAR (in units of ln 2) or more away from another one contributes        *)
(* nothing that a floating point number could show.                        *)
FAR == 60
BinNum(k) == IF k >= FAR THEN 1 ELSE IF k <= -FAR THEN 0 ELSE IF k >= 0 THEN Pow2(k) ELSE 1
BinDen(k) == IF AbsI(k) >= FAR THEN 1 ELSE 1 + Pow2(AbsI(k))
MinOf(v) == FoldLeft(LAMBDA a, b : MinI(a, b), v[1], v)
MaxOf(v) == FoldLeft(LAMBDA a, b : MaxI(a, b), v[1], v)
NearMin(v) == LET hi == MaxOf(v) IN FoldLeft(LAMBDA a, b : IF hi - b < FAR THEN MinI(a, b) ELSE a, hi, v)
CatNums(v) == LET lo == NearMin(v) IN Vec(Len(v), LAMBDA i : IF v[i] < lo THEN 0 ELSE Pow2(v[i] - lo))

\* <<numerators, denominators>> of the probabilities of all outputs
Probs(e, y) ==
  IF e.sat
  THEN IF e.kind = "bin" THEN <<Vec(Len(y), LAMBDA i : IF y[i] > 0 THEN 1 ELSE 0), OneV(Len(y))>>
       ELSE <<Vec(Len(y), LAMBDA i : LET g == Group(y, e.c, (i - 1) \div e.c + 1)
                                     IN IF y[i] = MaxOf(g) THEN 1 ELSE 0), OneV(Len(y))>>
  ELSE IF e.kind = "bin" THEN <<Vec(Len(y), LAMBDA i : BinNum(y[i])), Vec(Len(y), LAMBDA i : BinDen(y[i]))>>
       ELSE LET nums == TLCEval([g \in 1..NGroups(y, e.c) |-> CatNums(Group(y, e.c, g))])
            IN <<Vec(Len(y), LAMBDA i : nums[(i - 1) \div e.c + 1][((i - 1) % e.c) + 1]),
                 Vec(Len(y), LAMBDA i : SumV(nums[(i - 1) \div e.c + 1]))>>

\* every denominator divides the recorded scale (q = 1 or 2: its square does)
ScaleOk(e, dens, q) == \A i \in 1..Len(dens) : e.sc % (IF q = 1 THEN e.td * dens[i] ELSE dens[i] * dens[i]) = 0

----------------------------------------------------------------------------
(* e.sc times the derivative of the log-likelihood in the outputs.         *)
(* Gaussian: t - y.  Bernoulli: t - p.                                     *)
ResidV(e, y, t) ==
  IF e.kind = "gauss" THEN Vec(Len(y), LAMBDA i : (e.sc \div e.td) * t[i] - e.sc * y[i])
  ELSE LET p == Probs(e, y)
       IN Vec(Len(y), LAMBDA i : (e.sc \div e.td) * t[i] - (e.sc \div p[2][i]) * p[1][i])

\* e.sc times the Hessian in the outputs
HessM(e, y) ==
  IF e.kind = "gauss" THEN Mat(Len(y), Len(y), LAMBDA i, j : IF i = j THEN -e.sc ELSE 0)
  ELSE LET p == Probs(e, y)
           q(i) == e.sc \div (p[2][i] * p[2][i])
       IN Mat(Len(y), Len(y), LAMBDA i, j :
            IF e.kind = "bin" THEN (IF i = j THEN q(i) * (p[1][i] * p[1][i] - p[1][i] * p[2][i]) ELSE 0)
            ELSE IF (i - 1) \div e.c # (j - 1) \div e.c THEN 0
            ELSE q(i) * (p[1][i] * p[1][j] - (IF i = j THEN p[1][i] * p[2][i] ELSE 0)))

----------------------------------------------------------------------------
(* Values.  Gaussian: twice the value times td^2 is an integer.            *)
(* Saturated: the value times td is an integer.                            *)
(* Otherwise exp(-value) times 2^(sum of target * logit) is the product of *)
(* the normalisers 1 + 2^k (bin) or sum of 2^k (cat), each multiplied by   *)
(* the power of 2 that makes it an integer; e.e2 is the exponent used by   *)
(* the recorder (over td).                                                 *)
ValueInt(e, y, t) ==
  IF e.kind = "gauss" THEN -SumV(Vec(Len(y), LAMBDA i : (t[i] - e.td * y[i]) * (t[i] - e.td * y[i])))
  ELSE IF e.kind = "bin" THEN SumV(Vec(Len(y), LAMBDA i : t[i] * y[i] - e.td * MaxI(y[i], 0)))
  ELSE SumV(Vec(Len(y), LAMBDA i : t[i] * (y[i] - MaxOf(Group(y, e.c, (i - 1) \div e.c + 1)))))
Normaliser(e, y) ==
  IF e.kind = "bin" THEN Prod(Vec(Len(y), LAMBDA i : BinDen(y[i])))
  ELSE Prod(Vec(NGroups(y, e.c), LAMBDA g : SumV(CatNums(Group(y, e.c, g)))))
\* what 2^(target * logit) leaves when every normaliser is made an integer
Exponent(e, y, t) ==
  Dot(t, y) + (IF e.kind = "bin" THEN e.td * SumV(Vec(Len(y), LAMBDA i : IF y[i] <= -FAR THEN 0 ELSE IF y[i] >= FAR THEN -y[i] ELSE MaxI(0, -y[i])))
               ELSE -e.td * SumV(Vec(NGroups(y, e.c), LAMBDA g : NearMin(Group(y, e.c, g)))))

----------------------------------------------------------------------------
AggV(e, vs) == IF e.agg = "return all" THEN vs
               ELSE <<Vec(Len(vs[1]), LAMBDA j : SumV(Vec(Len(vs), LAMBDA b : vs[b][j])))>>
\* element-wise sum over the batch of matrices or of lists of matrices
RECURSIVE SumT(_, _)
SumT(k, ts) == CASE k = "v" -> Vec(Len(ts[1]), LAMBDA j : SumV(Vec(Len(ts), LAMBDA b : ts[b][j])))
                 [] k = "m" -> Mat(NRow(ts[1]), NCol(ts[1]), LAMBDA i, j : SumV(Vec(Len(ts), LAMBDA b : ts[b][i][j])))
                 [] k = "b" -> TLCEval([n \in 1..Len(ts[1]) |-> SumT("m", [b \in 1..Len(ts) |-> ts[b][n]])])
\* the recorder multiplies a mean by the batch size, so that sum and average are compared with the same integers
Aggregate(e, k, ts) == IF e.agg = "return all" THEN ts ELSE <<SumT(k, ts)>>

LikVerdict(m, e, xs) ==
  LET B == Len(xs)
      ys == TLCEval([b \in 1..B |-> Fwd(m, xs[b])])
      nopar == e.wrt = "weight" /\ NP(m) = 0
      dens(b) == IF e.kind = "gauss" THEN <<1>> ELSE Probs(e, ys[b].v)[2]
  IN
  IF nopar /\ e.op # "value" THEN (IF e.st = "none" THEN "ok" ELSE "status")
  ELSE IF e.st # "ok" THEN "status"
  ELSE IF e.op = "value" THEN
    IF e.kind = "gauss" \/ e.sat
    THEN LET vs == TLCEval([b \in 1..B |-> <<ValueInt(e, ys[b].v, e.t[b])>>])
         IN IF e.res = AggV(e, vs) THEN "ok" ELSE "value"
    ELSE LET e2(b) == Exponent(e, ys[b].v, e.t[b])
         IN IF \E b \in 1..B : e.e2[b] # e2(b) THEN "recorder exponent"
            ELSE IF e.agg = "return all"
            THEN (IF e.res = [b \in 1..B |-> <<Normaliser(e, ys[b].v)>>] THEN "ok" ELSE "value")
            ELSE (IF e.res = <<<<Prod(Vec(B, LAMBDA b : Normaliser(e, ys[b].v)))>>>> THEN "ok" ELSE "value")
  ELSE IF e.op = "grad" THEN
    IF \E b \in 1..B : ~ScaleOk(e, dens(b), 1) THEN "recorder scale"
    ELSE LET J(b) == IF e.wrt = "input" THEN Jx(m, xs[b]) ELSE Jw(m, xs[b])
             vs == TLCEval([b \in 1..B |-> VM(ResidV(e, ys[b].v, e.t[b]), J(b))])
         IN IF e.rs # "v" \o ToString(Len(vs[1])) THEN "shape"
            ELSE IF e.res = Aggregate(e, "v", vs) THEN "ok" ELSE "value"
  ELSE \* ggn
    IF \E b \in 1..B : ~ScaleOk(e, dens(b), 2) THEN "recorder scale"
    ELSE LET approx == e.back = "approx"
             c == [op |-> "jTmjp", wrt |-> e.wrt, fd |-> approx, td |-> e.shape = "diag", db |-> approx, nn |-> FALSE, lst |-> FALSE]
             H(b) == HessM(e, ys[b].v)
             J(b) == IF approx THEN <<>> ELSE IF e.wrt = "input" THEN Jx(m, xs[b]) ELSE Jw(m, xs[b])
             rs == TLCEval([b \in 1..B |-> TLCEval(Expected(m, c, xs[b], J(b), IF approx THEN DiagOf(H(b)) ELSE H(b)))])
             vs == [b \in 1..B |-> rs[b].r]
         IN IF e.rs # ShapeStr(rs[1]) THEN "shape"
            ELSE IF e.res = Aggregate(e, rs[1].k, vs) THEN "ok" ELSE "value"
=============================================================================
