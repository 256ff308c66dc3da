------------------------------- MODULE Chain -------------------------------
(***************************************************************************)
(* How a composition computes its products: one layer at a time, carrying  *)
(* a vector, a matrix, a metric or a diagonal from layer to layer, with    *)
(* the flags of each intermediate product chosen by position.  The state   *)
(* machine refines the contract: when it is done, what it holds is what    *)
(* Contract.tla demands of the composition as a whole, for every flag      *)
(* combination, including diagonal backpropagation.                        *)
(*                                                                         *)
(* Policy is the design decision under test:                               *)
(*   "right"        the flags of the repository                            *)
(*   "diag-early"   the result is made diagonal at every layer             *)
(*   "diag-late"    a diagonal metric is kept diagonal through a layer     *)
(*                  although a full one was asked for                      *)
(*   "weight-late"  the metric is carried through a layer before the       *)
(*                  layer's own weights are served                         *)
(*   "add-early"    a layer's own contribution is added before the carried *)
(*                  metric has passed through it                           *)
(*   "no-offset"    every layer gets the first entries of the argument     *)
(* All but the first are refuted by TLC.                                   *)
(***************************************************************************)
EXTENDS Zoo

CONSTANTS Policy, Size
VARIABLES q,     \* the composition
          x,     \* its input
          c,     \* the call
          a,     \* its argument
          k,     \* layers done (forward) or left (backward)
          cur,   \* what is carried
          off,   \* parameters served so far (forward)
          acc    \* results collected per layer (backward, weights)
vars == <<q, x, c, a, k, cur, off, acc>>

Nets == {i \in NetGrid(Size) : i.m.t = "seq" /\ Len(i.m.ls) > 1}
Ops == {"jvp", "jmp", "jmjTp", "vjp", "mjp", "jTmjp"}
Calls == {r \in [op : Ops, wrt : {"input", "weight"}, fd : BOOLEAN, td : BOOLEAN, db : BOOLEAN, nn : {FALSE}, lst : {FALSE}] :
            /\ (r.op \notin {"jmjTp", "jTmjp"} => ~r.fd /\ ~r.td)
            /\ (r.db => r.fd /\ r.td)}
FillM(r, n, s) == Mat(r, n, LAMBDA i, j : ((i * 5 + j * 3 + s) % 5) - 2)
ArgFor(r, nin, nout) ==
  LET n == IF r.op \in {"jvp", "jmp", "jmjTp"} THEN nin ELSE nout
  IN CASE r.op \in {"jvp", "vjp"} -> Fill(n, 1)
       [] r.op = "jmp" -> FillM(n, 2, 1)
       [] r.op = "mjp" -> FillM(2, n, 1)
       [] OTHER -> IF r.fd THEN Fill(n, 1) ELSE FillM(n, n, 1)

Forw == c.op \in {"jvp", "jmp", "jmjTp"}
N == Len(q.m.ls)
Maps == FMs(q.m.ls, x)

Init == /\ q \in Nets
        /\ x \in {Val(q.d, Fill(Prod(q.d), 2)), Val(q.d, Fill(Prod(q.d), 3))}
        /\ c \in {r \in Calls : r.wrt = "weight" => NP(q.m) > 0}
        /\ a = ArgFor(c, IF c.wrt = "input" THEN Prod(q.d) ELSE NP(q.m), Len(Fwd(q.m, x).v))
        /\ k = (IF c.op \in {"jvp", "jmp", "jmjTp"} THEN 0 ELSE N)
        /\ cur = (IF c.wrt = "weight" /\ c.op \in {"jvp", "jmp", "jmjTp"} THEN <<>> ELSE a)
        /\ off = 0 /\ acc = <<>>

\* the product of one layer, as the contract has it
Lay(i, wrt, fd, td, arg) ==
  LET l == q.m.ls[i]
      r == [c EXCEPT !.wrt = wrt, !.fd = fd, !.td = td]
      v == Maps[i]
  IN Expected(l, r, v, IF wrt = "input" THEN Jx(l, v) ELSE Jw(l, v), arg)

Quad == c.op \in {"jmjTp", "jTmjp"}
Early == Policy = "diag-early" /\ c.td
Late == Policy = "diag-late" /\ c.fd
\* flags of the carried metric at layer i of a pass whose first layer is `first' and whose last is `last'
FromD(i, first) == Quad /\ (IF i = first THEN c.fd ELSE (c.db \/ Early \/ Late))
ToD(i, last) == Quad /\ (IF i = last THEN c.td ELSE (c.db \/ Early \/ Late))

\* slices of an argument on the weights
SliceW(arg, o, n) == CASE c.op = "jvp" -> SubV(arg, o, n)
                       [] c.op = "jmp" -> Block(arg, o, n, 0, NCol(arg))
                       [] OTHER -> IF c.fd THEN SubV(arg, o, n) ELSE Block(arg, o, n, o, n)
Plus(u, v) == IF c.op = "jvp" \/ (Quad /\ (IF k + 1 = N THEN c.td ELSE (c.db \/ Early))) THEN AddV(u, v) ELSE AddM(u, v)

FwdInput == /\ Forw /\ c.wrt = "input" /\ k < N
            /\ cur' = Lay(k + 1, "input", FromD(k + 1, 1), ToD(k + 1, N), cur).r
            /\ k' = k + 1 /\ UNCHANGED <<q, x, c, a, off, acc>>
FwdWeight ==
  /\ Forw /\ c.wrt = "weight" /\ k < N
  /\ LET i == k + 1
         l == q.m.ls[i]
         n == NP(l)
         td == Quad /\ (IF i = N THEN c.td ELSE (c.db \/ Early))
         thru == IF cur = <<>> THEN <<>> ELSE Lay(i, "input", Quad /\ (c.db \/ Early), td, cur).r
         own == IF n = 0 THEN <<>> ELSE Lay(i, "weight", c.fd, td, SliceW(a, IF Policy = "no-offset" THEN 0 ELSE off, n)).r
     IN /\ cur' = (IF thru = <<>> THEN own
                   ELSE IF own = <<>> THEN thru
                   ELSE IF Policy = "add-early" /\ c.op = "jvp" /\ Len(cur) = Len(own) THEN Lay(i, "input", Quad /\ c.db, td, Plus(cur, own)).r
                   ELSE Plus(thru, own))
        /\ off' = off + n
  /\ k' = k + 1 /\ UNCHANGED <<q, x, c, a, acc>>
BwdInput == /\ ~Forw /\ c.wrt = "input" /\ k > 0
            /\ cur' = Lay(k, "input", FromD(k, N), ToD(k, 1), cur).r
            /\ k' = k - 1 /\ UNCHANGED <<q, x, c, a, off, acc>>
BwdWeight ==
  /\ ~Forw /\ c.wrt = "weight" /\ k > 0
  /\ LET nxt == IF k = 1 THEN cur ELSE Lay(k, "input", FromD(k, N), Quad /\ (c.db \/ Early \/ Late), cur).r
         use == IF Policy = "weight-late" /\ c.op = "vjp" /\ k > 1 /\ Len(nxt) = Len(cur) THEN nxt ELSE cur
         own == IF NP(q.m.ls[k]) = 0 THEN <<>>
                ELSE LET r == Lay(k, "weight", FromD(k, N), Quad /\ c.td, use) IN IF r.k = "b" THEN r.r ELSE <<r.r>>
     IN acc' = own \o acc /\ cur' = nxt
  /\ k' = k - 1 /\ UNCHANGED <<q, x, c, a, off>>

Next == FwdInput \/ FwdWeight \/ BwdInput \/ BwdWeight
Spec == Init /\ [][Next]_vars

Done == k = (IF Forw THEN N ELSE 0)
HCatAll(ms) == FoldLeftDomain(LAMBDA b, i : IF i = 1 THEN ms[1] ELSE HCat2(b, ms[i]), <<>>, ms)
Result == IF c.wrt = "input" \/ Forw THEN cur
          ELSE CASE c.op = "vjp" \/ (c.op = "jTmjp" /\ c.td) -> FlattenSeq2(acc)
                 [] c.op = "mjp" -> HCatAll(acc)
                 [] OTHER -> acc
Wanted == Expected(q.m, c, x, IF c.wrt = "input" THEN Jx(q.m, x) ELSE Jw(q.m, x), a).r
Refines == Done => Result = Wanted
=============================================================================
