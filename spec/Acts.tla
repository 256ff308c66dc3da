-------------------------------- MODULE Acts --------------------------------
(***************************************************************************)
(* Elementwise activations over the whole real line, at points where the   *)
(* function and its derivative are rational (or a fixed multiple of an     *)
(* integer), plus the regimes in between by bounds.                        *)
(*                                                                         *)
(* classes of points                                                       *)
(*   "ln"    x = ln(p/q) / beta          exact rational values             *)
(*   "tail"  x = s * j * ln 2, large j   leading term of the derivative    *)
(*   "sat"   x = s * n, n >= 40          limits, in millionths             *)
(*   "int"   x = n (ReLU, Sinusoidal at n * pi/6)                          *)
(* A recorded number is an integer: the real result times the denominator  *)
(* that this module states (ValDen, DerDen), rounded.                      *)
(***************************************************************************)
EXTENDS Tensor

\* e^t (times 1000, rounded), to decide on which side of a threshold ln(p/q) lies
ExpM == <<1000, 2718, 7389, 20086, 54598>>
AboveThr(p, q, thr) == IF thr > 4 THEN FALSE ELSE 1000 * p > ExpM[thr + 1] * q

LnDer(a, p, q, thr) ==                       \* <<numerator, denominator>>
  CASE a = "sigm" -> <<p * q, (p + q) * (p + q)>>
    [] a = "tanh" -> <<4 * p * p * q * q, (p * p + q * q) * (p * p + q * q)>>
    [] a = "texp" -> <<p, q>>
    [] a = "splus" -> IF AboveThr(p, q, thr) THEN <<p + q, p + q>> ELSE <<p, p + q>>
LnVal(a, p, q, thr) ==                       \* softplus: exp(beta * y) times q
  CASE a = "sigm" -> <<p, p + q>>
    [] a = "tanh" -> <<p * p - q * q, p * p + q * q>>
    [] a = "texp" -> <<p, q>>
    [] a = "splus" -> IF AboveThr(p, q, thr) THEN <<p, q>> ELSE <<p + q, q>>

\* x = s j ln 2: derivative times 2^j (sigm, splus s < 0), 4^j (tanh), 2^(-s j) (texp), in thousandths, lies in [lo, hi];
\* splus s > 0: one minus the derivative times 2^j below the threshold 20 = 28.8 ln 2, nothing above it
TailOk(a, s, j, r) ==
  CASE a = "sigm" -> r <= 1000 /\ r >= 1000 - 2000 \div FoldLeft(LAMBDA x, y : MinI(2 * x, 4000), 1, [i \in 1..j |-> 0]) - 1
    [] a = "tanh" -> r <= 4000 /\ r >= 4000 - 8000 \div FoldLeft(LAMBDA x, y : MinI(4 * x, 16000), 1, [i \in 1..j |-> 0]) - 1
    [] a = "splus" -> IF s < 0 THEN r <= 1000 /\ r >= 1000 - 2000 \div FoldLeft(LAMBDA x, y : MinI(2 * x, 4000), 1, [i \in 1..j |-> 0]) - 1
                      ELSE IF j > 28 THEN r = 0
                      ELSE r <= 1000 /\ r >= 1000 - 2000 \div FoldLeft(LAMBDA x, y : MinI(2 * x, 4000), 1, [i \in 1..j |-> 0]) - 1
    [] a = "texp" -> r = 1000                    \* |x| < 15: j < 22

\* limits, in millionths.  texp: derivative times e^-15 (s = 1) or e^15 (s = -1), it is clamped there
SatDer(a, s) ==
  CASE a \in {"sigm", "tanh"} -> 0
    [] a = "splus" -> IF s > 0 THEN 1000000 ELSE 0
    [] a = "texp" -> 1000000
SatVal(a, s) ==
  CASE a = "sigm" -> IF s > 0 THEN 1000000 ELSE 0
    [] a = "tanh" -> s * 1000000
    [] a = "splus" -> IF s > 0 THEN 1000000 ELSE 0      \* value / x for s > 0, value for s < 0
    [] a = "texp" -> 1000000                            \* value / exp(x), as far as it is representable

\* sin and cos at n pi / 6: sign times 4 times the square
SinT == <<0, 1, 3, 4, 3, 1, 0, -1, -3, -4, -3, -1>>
Sin4(n) == SinT[(n % 12) + 1]
Cos4(n) == Sin4(n + 3)

\* one recorded point: [c class, a activation, ..., op "val" | "der", r recorded integer]
TabOk(pt, op) ==
  CASE pt.c = "ln" -> pt.r = (IF op = "der" THEN LnDer(pt.a, pt.p, pt.q, pt.thr)[1] ELSE LnVal(pt.a, pt.p, pt.q, pt.thr)[1])
                      /\ pt.den = (IF op = "der" THEN LnDer(pt.a, pt.p, pt.q, pt.thr)[2] ELSE LnVal(pt.a, pt.p, pt.q, pt.thr)[2])
    [] pt.c = "tail" -> op = "der" /\ TailOk(pt.a, pt.s, pt.j, pt.r)
    [] pt.c = "sat" -> pt.r = (IF op = "der" THEN SatDer(pt.a, pt.s) ELSE SatVal(pt.a, pt.s))
    [] pt.c = "int" -> pt.r = (CASE pt.a = "relu" -> (IF op = "der" THEN (IF pt.n > 0 THEN 1 ELSE 0) ELSE MaxI(pt.n, 0))
                                 [] pt.a = "sin" -> (IF op = "der" THEN Cos4(pt.n) ELSE Sin4(pt.n)))
=============================================================================
