------------------------------ MODULE MCDeriv ------------------------------
(***************************************************************************)
(* The derivatives of Layers.tla are the derivatives of its forward maps.  *)
(*                                                                         *)
(* All maps of the zoo are piecewise polynomials of degree at most two in  *)
(* every single coordinate, so the central difference of step one is the   *)
(* exact derivative wherever the piece does not change: Pattern says which *)
(* piece a point lies in.                                                  *)
(***************************************************************************)
EXTENDS Zoo

CONSTANTS Family
VARIABLES q, x, ph
vars == <<q, x, ph>>

Grid == CASE Family = "conv" -> ConvGrid
          [] Family = "pool" -> PoolGrid
          [] Family = "up" -> UpGrid
          [] Family = "lin" -> LinGrid
          [] Family = "net2" -> NetGrid(2) \cup ImgNets
          [] Family = "net3" -> NetGrid(3)

Init == /\ q \in Grid
        /\ x = <<>> /\ ph = 0
Next == /\ ph = 0 /\ ph' = 1
        /\ x' \in Inputs(q.d, 50)
        /\ UNCHANGED q
Spec == Init /\ [][Next]_vars

Sgn(v) == IF v > 0 THEN 1 ELSE IF v < 0 THEN -1 ELSE 0
RECURSIVE Pattern(_, _)
Pattern(m, v) ==
  CASE m.t = "relu" -> Vec(Len(v.v), LAMBDA i : Sgn(v.v[i]))
    [] m.t = "mp" -> Vec(Prod(PoolShape(m, v)), LAMBDA o : PoolArg(m, v, o))
    [] IsBox(m) -> LET f == FMs(m.ls, v) IN FoldLeftDomain(LAMBDA a, k : a \o Pattern(m.ls[k], f[k]), <<>>, m.ls)
    [] OTHER -> <<>>

Bump(v, j, h) == [v EXCEPT ![j] = @ + h]
InputDerivative ==
  ph = 1 =>
    LET J == Jx(q.m, x)  P == Pattern(q.m, x) IN
    \A j \in 1..Len(x.v) :
      LET xp == Val(x.d, Bump(x.v, j, 1))  xm == Val(x.d, Bump(x.v, j, -1)) IN
      (Pattern(q.m, xp) = P /\ Pattern(q.m, xm) = P) =>
        LET fp == Fwd(q.m, xp).v  fm == Fwd(q.m, xm).v
        IN \A i \in 1..Len(fp) : fp[i] - fm[i] = 2 * J[i][j]
WeightDerivative ==
  (ph = 1 /\ NP(q.m) > 0) =>
    LET J == Jw(q.m, x)  P == Pattern(q.m, x)  w == ParamVec(q.m) IN
    \A j \in 1..Len(w) :
      LET mp == WithParams(q.m, Bump(w, j, 1))  mm == WithParams(q.m, Bump(w, j, -1)) IN
      (Pattern(mp, x) = P /\ Pattern(mm, x) = P) =>
        LET fp == Fwd(mp, x).v  fm == Fwd(mm, x).v
        IN \A i \in 1..Len(fp) : fp[i] - fm[i] = 2 * J[i][j]
\* shapes: one row per output, one column per input or weight, blocks cover the weights
Shapes ==
  ph = 1 =>
    LET y == Fwd(q.m, x) IN
    /\ Prod(y.d) = Len(y.v)
    /\ NRow(Jx(q.m, x)) = Len(y.v) /\ NCol(Jx(q.m, x)) = Len(x.v)
    /\ NP(q.m) > 0 => NRow(Jw(q.m, x)) = Len(y.v) /\ NCol(Jw(q.m, x)) = NP(q.m)
    /\ NP(q.m) = SumV(LeafSizes(q.m))
    /\ WithParams(q.m, ParamVec(q.m)) = q.m
    /\ ParamVec(WithParams(q.m, Fill(NP(q.m), 3))) = Fill(NP(q.m), 3)
\* every relu and pooling sits on one of its pieces somewhere: the derivative checks are not vacuous
SomewhereKinked == ph = 1 => ~\E i \in 1..Len(Pattern(q.m, x)) : Pattern(q.m, x)[i] = 0
=============================================================================
