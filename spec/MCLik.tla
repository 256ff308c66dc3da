------------------------------- MODULE MCLik -------------------------------
(***************************************************************************)
(* Sanity of the exact likelihoods of Likelihood.tla on all small logits:  *)
(* probabilities sum to one, Hessians are symmetric, negative semidefinite *)
(* and annihilate constants (categorical), residuals of a distribution sum *)
(* to zero, two classes are one binary variable.                           *)
(***************************************************************************)
EXTENDS Likelihood
CONSTANTS N, K
VARIABLES y, t, ph
vars == <<y, t, ph>>
Init == y \in [1..N -> (-K)..K] /\ t = <<>> /\ ph = 0
Next == /\ ph = 0 /\ ph' = 1 /\ UNCHANGED y
        /\ t' \in {[i \in 1..N |-> IF i = j THEN 1 ELSE 0] : j \in 1..N}
Spec == Init /\ [][Next]_vars

E(kind, sc) == [kind |-> kind, sat |-> FALSE, c |-> N, td |-> 1, sc |-> sc]
Den(kind) == IF kind = "gauss" THEN 1 ELSE LET p == Probs(E(kind, 1), y)[2] IN Prod(Vec(N, LAMBDA i : IF kind = "cat" /\ i > 1 THEN 1 ELSE p[i]))
Dist == LET p == Probs(E("cat", 1), y) IN SumV(p[1]) = p[2][1] /\ \A i \in 1..N : p[1][i] > 0 /\ p[2][i] = p[2][1]
Bin == LET p == Probs(E("bin", 1), y) IN \A i \in 1..N : 0 < p[1][i] /\ p[1][i] < p[2][i]
                                                     /\ (y[i] = 0 <=> 2 * p[1][i] = p[2][i]) /\ (y[i] > 0 <=> 2 * p[1][i] > p[2][i])
\* the ratio of two probabilities is 2 to the difference of the logits
Odds == LET p == Probs(E("cat", 1), y) IN \A i, j \in 1..N : y[i] >= y[j] => p[1][i] = Pow2(y[i] - y[j]) * p[1][j]
Hess(kind) == HessM(E(kind, Den(kind) * Den(kind)), y)
Quad(H, v) == Dot(v, MV(H, v))
HessOk == \A kind \in {"cat", "bin", "gauss"} :
            LET H == Hess(kind) IN
            /\ H = Tr(H)
            /\ \A v \in [1..N -> {-1, 0, 1}] : Quad(H, v) <= 0
            /\ kind = "cat" => \A i \in 1..N : SumV(H[i]) = 0
ResidOk == ph = 1 => SumV(ResidV(E("cat", Den("cat")), y, t)) = 0
\* two classes with logits (a, b) and one binary variable with logit a - b
TwoIsBinary ==
  LET a == y[1]  b == y[2]
      e2 == [kind |-> "cat", sat |-> FALSE, c |-> 2, td |-> 1, sc |-> 1]
      e1 == [kind |-> "bin", sat |-> FALSE, c |-> 1, td |-> 1, sc |-> 1]
      pc == Probs(e2, <<a, b>>)  pb == Probs(e1, <<a - b>>)
  IN pc[1][1] * pb[2][1] = pb[1][1] * pc[2][1]
\* a common offset of all logits changes nothing, and a class far below the others adds nothing
ShiftOk == \A c \in {-1100, 1100} : Probs(E("cat", 1), [i \in 1..N |-> y[i] + c]) = Probs(E("cat", 1), y)
FarOk == LET z == y \o <<MinOf(y) - FAR>>
             p == Probs([E("cat", 1) EXCEPT !.c = N + 1], z)
             q == Probs(E("cat", 1), y)
         IN p = <<q[1] \o <<0>>, q[2] \o <<q[2][1]>>>>
=============================================================================
