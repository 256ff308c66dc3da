----------------------------- MODULE MCAlgebra -----------------------------
(***************************************************************************)
(* Consequences of the contract that the properties state in words,        *)
(* checked on every module of the zoo: omitting the matrix is passing the  *)
(* identity; diagonal flags are diagonals of the full products; diagonal   *)
(* backpropagation is exact where it must be; grouping, slicing, skipping. *)
(***************************************************************************)
EXTENDS Zoo

CONSTANTS Size
VARIABLES q, x, ph
vars == <<q, x, ph>>

Nets == NetGrid(Size) \cup LinGrid
Init == q \in Nets /\ x = <<>> /\ ph = 0
Next == /\ ph = 0 /\ ph' = 1
        /\ x' \in {Val(q.d, Fill(Prod(q.d), r)) : r \in 0..4}
        /\ UNCHANGED q
Spec == Init /\ [][Next]_vars

J(m, v, wrt) == IF wrt = "input" THEN Jx(m, v) ELSE Jw(m, v)
Wrts == IF NP(q.m) = 0 THEN {"input"} ELSE {"input", "weight"}
C(op, wrt, fd, td, db, nn) == [op |-> op, wrt |-> wrt, fd |-> fd, td |-> td, db |-> db, nn |-> nn, lst |-> FALSE]
Ex(m, c, a) == Exact(m, c, J(m, x, c.wrt), a)
NIn(wrt) == IF wrt = "input" THEN Len(x.v) ELSE NP(q.m)
NOut == Len(Fwd(q.m, x).v)
Side(op, wrt) == IF op \in {"jmp", "jmjTp"} THEN NIn(wrt) ELSE NOut
FillM(r, n, s) == Mat(r, n, LAMBDA i, j : ((i * 5 + j * 3 + s) % 5) - 2)

\* C07
NoneIsIdentity ==
  ph = 1 => \A wrt \in Wrts :
    /\ \A op \in {"jmp", "mjp"} : Ex(q.m, C(op, wrt, FALSE, FALSE, FALSE, TRUE), <<>>) = Ex(q.m, C(op, wrt, FALSE, FALSE, FALSE, FALSE), Eye(Side(op, wrt)))
    /\ \A op \in {"jmjTp", "jTmjp"}, fd \in BOOLEAN, td \in BOOLEAN :
         LET n == Ex(q.m, C(op, wrt, fd, td, FALSE, TRUE), <<>>)
         IN /\ n = Ex(q.m, C(op, wrt, FALSE, td, FALSE, FALSE), Eye(Side(op, wrt)))
            /\ n = Ex(q.m, C(op, wrt, TRUE, td, FALSE, FALSE), OneV(Side(op, wrt)))

\* C05, C06: the flags say how metrics are written, not what they are
DiagsOf(res) == IF res.k = "m" THEN DiagOf(res.r) ELSE FlattenSeq2([k \in 1..Len(res.r) |-> DiagOf(res.r[k])])
FlagsAgree ==
  ph = 1 => \A wrt \in Wrts, op \in {"jmjTp", "jTmjp"} :
    LET n == Side(op, wrt)  d == Fill(n, 1)  M == FillM(n, n, 1) IN
    /\ \A td \in BOOLEAN : Ex(q.m, C(op, wrt, TRUE, td, FALSE, FALSE), d) = Ex(q.m, C(op, wrt, FALSE, td, FALSE, FALSE), DiagM(d))
    /\ Ex(q.m, C(op, wrt, FALSE, TRUE, FALSE, FALSE), M).r = DiagsOf(Ex(q.m, C(op, wrt, FALSE, FALSE, FALSE, FALSE), M))
    /\ Ex(q.m, C(op, wrt, TRUE, TRUE, FALSE, FALSE), d).r = DiagsOf(Ex(q.m, C(op, wrt, TRUE, FALSE, FALSE, FALSE), d))

\* C08
RECURSIVE AllDiagonal(_)
AllDiagonal(m) == IF IsBox(m) THEN m.t = "seq" /\ \A k \in 1..Len(m.ls) : AllDiagonal(m.ls[k])
                  ELSE m.t \in {"relu", "flat", "cscale", "sq", "act"}
DB(m, op, wrt, d) == DiagBackprop(m, C(op, wrt, TRUE, TRUE, TRUE, FALSE), x, d).r
DiagBackpropExact ==
  ph = 1 => \A wrt \in Wrts, op \in {"jmjTp", "jTmjp"} :
    LET d == Fill(Side(op, wrt), 1)
        e == Ex(q.m, C(op, wrt, TRUE, TRUE, FALSE, FALSE), d).r
    IN (~IsBox(q.m) \/ AllDiagonal(q.m) \/ (q.m.t = "seq" /\ Len(q.m.ls) = 1 /\ ~IsBox(q.m.ls[1]))) => DB(q.m, op, wrt, d) = e
DiagBackpropNonNeg ==
  ph = 1 => \A wrt \in Wrts, op \in {"jmjTp", "jTmjp"} :
    LET d == Vec(Side(op, wrt), LAMBDA i : i % 3)
        r == DB(q.m, op, wrt, d)
    IN Len(r) = (IF op = "jmjTp" THEN NOut ELSE NIn(wrt)) /\ \A i \in 1..Len(r) : r[i] >= 0

\* C09: any grouping of the layers
Groupings(ls) == {<<Seq2(ls)>>}
                 \cup {<<Seq2(SubSeq(ls, 1, i)), Seq2(SubSeq(ls, i + 1, Len(ls)))>> : i \in 1..(Len(ls) - 1)}
                 \cup {SubSeq(ls, 1, i) \o <<Seq2(SubSeq(ls, i + 1, Len(ls)))>> : i \in 0..(Len(ls) - 1)}
                 \cup {<<Seq2(<<Seq2(SubSeq(ls, 1, i))>>)>> \o SubSeq(ls, i + 1, Len(ls)) : i \in 1..Len(ls)}
                 \cup {[i \in 1..Len(ls) |-> Seq2(<<ls[i]>>)]}
SameFunction(m, n) ==
  /\ Fwd(m, x) = Fwd(n, x) /\ Jx(m, x) = Jx(n, x) /\ ParamVec(m) = ParamVec(n) /\ LeafSizes(m) = LeafSizes(n)
  /\ NP(m) > 0 => Jw(m, x) = Jw(n, x)
  /\ \A wrt \in Wrts, op \in {"jmjTp", "jTmjp"} :
       /\ LET d == Fill(Side(op, wrt), 1) IN DB(m, op, wrt, d) = DB(n, op, wrt, d)
       /\ LET M == FillM(Side(op, wrt), Side(op, wrt), 2)
              c == C(op, wrt, FALSE, FALSE, FALSE, FALSE)
          IN Ex(m, c, M).r = Ex(n, c, M).r
Grouping == ph = 1 /\ IsBox(q.m) => \A g \in Groupings(q.m.ls) : SameFunction(q.m, [q.m EXCEPT !.ls = g])
\* slices are chained by the chain rule, the weights of the parts are the parts of the weights
Slicing ==
  ph = 1 /\ q.m.t = "seq" => \A i \in 1..(Len(q.m.ls) - 1) :
    LET a == Seq2(SubSeq(q.m.ls, 1, i))  b == Seq2(SubSeq(q.m.ls, i + 1, Len(q.m.ls)))
        y == Fwd(a, x)
        left == IF NP(a) = 0 THEN <<>> ELSE MM(Jx(b, y), Jw(a, x))
        right == IF NP(b) = 0 THEN <<>> ELSE Jw(b, y)
    IN /\ Fwd(b, y) = Fwd(q.m, x)
       /\ Jx(q.m, x) = MM(Jx(b, y), Jx(a, x))
       /\ NP(q.m) > 0 => Jw(q.m, x) = (IF left = <<>> THEN right ELSE IF right = <<>> THEN left ELSE HCat2(left, right))
       /\ ParamVec(q.m) = ParamVec(a) \o ParamVec(b)
\* a skip connection stacks the input on the output of its inner composition
Skipping ==
  ph = 1 /\ q.m.t = "skip" =>
    LET f == Seq2(q.m.ls)  n == Len(x.v)  M == FillM(NOut, NOut, 1)
        Jf == Jx(f, x)  no == NOut - n
        A(r, c) == Block(M, IF r = 1 THEN 0 ELSE n, IF r = 1 THEN n ELSE no, IF c = 1 THEN 0 ELSE n, IF c = 1 THEN n ELSE no)
    IN /\ Fwd(q.m, x).v = x.v \o Fwd(f, x).v
       /\ Ex(q.m, C("jTmjp", "input", FALSE, FALSE, FALSE, FALSE), M).r
            = AddM(AddM(A(1, 1), MM(A(1, 2), Jf)), AddM(MM(Tr(Jf), A(2, 1)), JMJT(Tr(Jf), A(2, 2))))
       /\ NP(q.m) > 0 => Ex(q.m, C("jTmjp", "weight", FALSE, FALSE, FALSE, FALSE), M).r
            = Ex(f, C("jTmjp", "weight", FALSE, FALSE, FALSE, FALSE), A(2, 2)).r
=============================================================================
