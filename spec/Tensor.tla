------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Exact integer linear algebra.  A vector is a sequence of integers, a    *)
(* matrix is a sequence of rows.  Every constructor is wrapped in TLCEval  *)
(* so that TLC stores values instead of re-evaluating closures.            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, SequencesExt

Vec(n, F(_)) == TLCEval([i \in 1..n |-> F(i)])
Mat(r, c, F(_, _)) == TLCEval([i \in 1..r |-> TLCEval([j \in 1..c |-> F(i, j)])])

SumV(v) == FoldLeft(LAMBDA a, b : a + b, 0, v)
Dot(a, b) == FoldLeftDomain(LAMBDA acc, i : acc + a[i] * b[i], 0, a)
Prod(v) == FoldLeft(LAMBDA a, b : a * b, 1, v)
AbsI(a) == IF a < 0 THEN -a ELSE a
MaxI(a, b) == IF a > b THEN a ELSE b
MinI(a, b) == IF a < b THEN a ELSE b

ZeroV(n) == Vec(n, LAMBDA i : 0)
OneV(n) == Vec(n, LAMBDA i : 1)
ZeroM(r, c) == Mat(r, c, LAMBDA i, j : 0)
Eye(n) == Mat(n, n, LAMBDA i, j : IF i = j THEN 1 ELSE 0)

NRow(A) == Len(A)
NCol(A) == IF Len(A) = 0 THEN 0 ELSE Len(A[1])

Tr(A) == Mat(NCol(A), NRow(A), LAMBDA i, j : A[j][i])
MV(A, v) == Vec(NRow(A), LAMBDA i : Dot(A[i], v))
MM(A, B) == LET BT == Tr(B) IN Mat(NRow(A), NRow(BT), LAMBDA i, j : Dot(A[i], BT[j]))
VM(v, A) == LET AT == Tr(A) IN Vec(NRow(AT), LAMBDA j : Dot(v, AT[j]))

AddV(a, b) == Vec(Len(a), LAMBDA i : a[i] + b[i])
AddM(A, B) == Mat(NRow(A), NCol(A), LAMBDA i, j : A[i][j] + B[i][j])
ScaleV(c, v) == Vec(Len(v), LAMBDA i : c * v[i])
ScaleM(c, A) == Mat(NRow(A), NCol(A), LAMBDA i, j : c * A[i][j])

DiagM(v) == Mat(Len(v), Len(v), LAMBDA i, j : IF i = j THEN v[i] ELSE 0)
DiagOf(A) == Vec(NRow(A), LAMBDA i : A[i][i])

HCat2(A, B) == Vec(NRow(A), LAMBDA i : A[i] \o B[i])
VCat2(A, B) == A \o B

\* the sub-matrix with rows r0+1 .. r0+r and columns c0+1 .. c0+c
Block(A, r0, r, c0, c) == Mat(r, c, LAMBDA i, j : A[r0 + i][c0 + j])
SubV(v, a, n) == Vec(n, LAMBDA i : v[a + i])

\* J M J^T and J^T M J, with diagonal inputs (d) and diagonal outputs
JMJT(J, M) == MM(MM(J, M), Tr(J))
JMJTdiag(J, M) == LET A == MM(J, M) IN Vec(NRow(J), LAMBDA i : Dot(A[i], J[i]))
JDJT(J, d) == LET A == Mat(NRow(J), NCol(J), LAMBDA i, j : J[i][j] * d[j]) IN MM(A, Tr(J))
JDJTdiag(J, d) == Vec(NRow(J), LAMBDA i : FoldLeftDomain(LAMBDA acc, j : acc + J[i][j] * J[i][j] * d[j], 0, d))

FlattenSeq2(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)
=============================================================================
