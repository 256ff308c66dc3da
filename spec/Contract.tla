------------------------------ MODULE Contract ------------------------------
(***************************************************************************)
(* What each public operation of a module returns, as a function of the    *)
(* module (its current weights included) and of one input sample only:     *)
(* no operator here mentions a batch, a history, a cache or a value `val'. *)
(*                                                                         *)
(* A result is [k |-> kind, r |-> rows]: kind "v" a vector, "m" a matrix,  *)
(* "b" a list of matrices (one per parametric layer, `nest' says how the   *)
(* list is nested), "n" None.                                              *)
(***************************************************************************)
EXTENDS Layers

ResV(v) == [k |-> "v", r |-> v]
ResM(M) == [k |-> "m", r |-> M]
ResB(bs, nest) == [k |-> "b", r |-> bs, nest |-> nest]
ResNone == [k |-> "n"]

\* a string describing kind and dimensions, so that values of equal shape only are compared
ShapeStr(res) ==
  CASE res.k = "n" -> "none"
    [] res.k = "v" -> "v" \o ToString(Len(res.r))
    [] res.k = "m" -> "m" \o ToString(NRow(res.r)) \o "x" \o ToString(NCol(res.r))
    [] res.k = "b" -> "b" \o res.nest

----------------------------------------------------------------------------
(* Blocks: metrics on the weights are block diagonal, one block per        *)
(* parametric layer.                                                       *)
Offsets(sizes) == TLCEval([k \in 1..Len(sizes) |-> SumV(SubSeq(sizes, 1, k - 1))])
ColBlock(J, off, n) == Block(J, 0, NRow(J), off, n)
BlocksOf(sizes, M) == LET off == Offsets(sizes)
                      IN TLCEval([k \in 1..Len(sizes) |-> Block(M, off[k], sizes[k], off[k], sizes[k])])

\* sum over the blocks of J_b M_b J_b^T
BlockJMJT(J, sizes, blocks) ==
  LET off == Offsets(sizes)
  IN FoldLeftDomain(LAMBDA acc, k :
       LET t == JMJT(ColBlock(J, off[k], sizes[k]), blocks[k])
       IN IF k = 1 THEN t ELSE AddM(acc, t), <<>>, sizes)
\* the blocks J_b^T M J_b
BlockJTMJ(J, sizes, M) ==
  LET off == Offsets(sizes)
  IN TLCEval([k \in 1..Len(sizes) |-> JMJT(Tr(ColBlock(J, off[k], sizes[k])), M)])
BlockJTDJ(J, sizes, d) ==
  LET off == Offsets(sizes)
  IN TLCEval([k \in 1..Len(sizes) |-> JDJT(Tr(ColBlock(J, off[k], sizes[k])), d)])

----------------------------------------------------------------------------
(* The exact products, given the Jacobian J of the module for `wrt'.       *)
(* c: op, wrt, fd (from_diag), td (to_diag), nn (matrix None), lst (the    *)
(* weight metric is given as a list of blocks); a: the argument.           *)
Exact(m, c, J, a) ==
  LET sizes == LeafSizes(m)
      ident == IF c.op = "jmjTp" THEN OneV(NCol(J)) ELSE OneV(NRow(J))
      fd == c.fd \/ c.nn
      arg == IF c.nn THEN ident ELSE a
  IN
  CASE c.op = "jac" -> IF c.td THEN ResV(DiagOf(J)) ELSE ResM(J)   \* td: jacobian(diag=True)
    [] c.op = "jvp" -> ResV(MV(J, a))
    [] c.op = "vjp" -> ResV(VM(a, J))
    [] c.op = "jmp" -> IF c.nn THEN ResM(J) ELSE ResM(MM(J, a))
    [] c.op = "mjp" -> IF c.nn THEN ResM(J) ELSE ResM(MM(a, J))
    [] c.op = "jmjTp" ->
         IF fd THEN (IF c.td THEN ResV(JDJTdiag(J, arg)) ELSE ResM(JDJT(J, arg)))
         ELSE IF c.wrt = "weight" /\ (IsBox(m) \/ c.lst)
         THEN LET R == BlockJMJT(J, sizes, IF c.lst THEN arg ELSE BlocksOf(sizes, arg))
              IN IF c.td THEN ResV(DiagOf(R)) ELSE ResM(R)
         ELSE IF c.td THEN ResV(JMJTdiag(J, arg)) ELSE ResM(JMJT(J, arg))
    [] c.op = "jTmjp" ->
         LET JT == Tr(J) IN
         IF c.td THEN ResV(IF fd THEN JDJTdiag(JT, arg) ELSE JMJTdiag(JT, arg))
         ELSE IF c.wrt = "weight" /\ IsBox(m)
         THEN ResB(IF fd THEN BlockJTDJ(J, sizes, arg) ELSE BlockJTMJ(J, sizes, arg), NestStr(m))
         ELSE ResM(IF fd THEN JDJT(JT, arg) ELSE JMJT(JT, arg))

----------------------------------------------------------------------------
(* diag_backprop: only the diagonal of the metric is kept between two      *)
(* consecutive layers.                                                     *)
RECURSIVE DBBackX(_, _, _), DBBackW(_, _, _), DBFwdX(_, _, _), DBFwdW(_, _, _)
DBBackX(m, x, d) ==
  CASE m.t = "seq" ->
         LET f == FMs(m.ls, x)
         IN FoldRight(LAMBDA k, acc : DBBackX(m.ls[k], f[k], acc), [k \in 1..Len(m.ls) |-> k], d)
    [] m.t = "skip" -> LET n == Len(x.v)
                       IN AddV(SubV(d, 0, n), DBBackX([t |-> "seq", ls |-> m.ls], x, SubV(d, n, Len(d) - n)))
    [] OTHER -> JDJTdiag(Tr(JxLeaf(m, x)), d)
DBBackW(m, x, d) ==
  CASE m.t = "seq" ->
         LET f == FMs(m.ls, x)
             st == FoldRight(LAMBDA k, acc :
                     <<IF k = 1 THEN acc[1] ELSE DBBackX(m.ls[k], f[k], acc[1]),
                       (IF NP(m.ls[k]) = 0 THEN <<>> ELSE DBBackW(m.ls[k], f[k], acc[1])) \o acc[2]>>,
                     [k \in 1..Len(m.ls) |-> k], <<d, <<>>>>)
         IN st[2]
    [] m.t = "skip" -> DBBackW([t |-> "seq", ls |-> m.ls], x, SubV(d, Len(x.v), Len(d) - Len(x.v)))
    [] OTHER -> JDJTdiag(Tr(JwLeaf(m, x)), d)
DBFwdX(m, x, d) ==
  CASE m.t = "seq" ->
         LET f == FMs(m.ls, x) IN FoldLeftDomain(LAMBDA acc, k : DBFwdX(m.ls[k], f[k], acc), d, m.ls)
    [] m.t = "skip" -> d \o DBFwdX([t |-> "seq", ls |-> m.ls], x, d)
    [] OTHER -> JDJTdiag(JxLeaf(m, x), d)
\* d: one entry per parameter
DBFwdW(m, x, d) ==
  CASE m.t = "seq" ->
         LET f == FMs(m.ls, x)
             st == FoldLeftDomain(LAMBDA acc, k :
                     LET l == m.ls[k]
                         n == NP(l)
                         thru == IF acc[2] = <<>> THEN <<>> ELSE DBFwdX(l, f[k], acc[2])
                         own == IF n = 0 THEN <<>> ELSE DBFwdW(l, f[k], SubV(d, acc[1], n))
                     IN <<acc[1] + n, IF thru = <<>> THEN own ELSE IF own = <<>> THEN thru ELSE AddV(thru, own)>>,
                     <<0, <<>>>>, m.ls)
         IN st[2]
    [] m.t = "skip" -> ZeroV(Len(x.v)) \o DBFwdW([t |-> "seq", ls |-> m.ls], x, d)
    [] OTHER -> JDJTdiag(JwLeaf(m, x), d)

DiagBackprop(m, c, x, a) ==
  LET nout == Len(Fwd(m, x).v)
      nin == IF c.wrt = "input" THEN Len(x.v) ELSE NP(m)
  IN IF c.op = "jTmjp"
     THEN LET d == IF c.nn THEN OneV(nout) ELSE a
          IN ResV(IF c.wrt = "input" THEN DBBackX(m, x, d) ELSE DBBackW(m, x, d))
     ELSE LET d == IF c.nn THEN OneV(nin) ELSE a
          IN ResV(IF c.wrt = "input" THEN DBFwdX(m, x, d) ELSE DBFwdW(m, x, d))

----------------------------------------------------------------------------
(* Which operations a module may decline.  Convolution, pooling and        *)
(* upsampling have no forward passes (pooling has the one of matrices).    *)
(* There is nothing to decline without parameters or without a matrix.     *)
RECURSIVE HasKind(_, _)
HasKind(m, ks) == IF IsBox(m) THEN \E k \in 1..Len(m.ls) : HasKind(m.ls[k], ks) ELSE m.t \in ks
FwdLess == {"conv", "mp", "up", "upr", "bil"}
MayDecline(m, c) ==
  /\ ~(c.wrt = "weight" /\ NP(m) = 0)
  /\ \/ c.op \in {"jvp", "jmjTp"} /\ HasKind(m, FwdLess)
     \/ c.op = "jmp" /\ ~c.nn /\ HasKind(m, FwdLess \ {"mp"})

\* the approximation goes from diagonals to diagonals; with other flags there is nothing to approximate, and a layer
\* that does not refuse the combination returns the exact product
Approx(c) == c.db /\ (c.fd \/ c.nn) /\ c.td

\* what op must return on sample x: J is the Jacobian of m at x for c.wrt (<<>> if it has no parameters)
Expected(m, c, x, J, a) ==
  IF c.wrt = "weight" /\ NP(m) = 0 THEN ResNone
  ELSE IF Approx(c) THEN DiagBackprop(m, c, x, a)
  ELSE Exact(m, c, J, a)
=============================================================================
