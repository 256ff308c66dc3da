------------------------------ MODULE NnjTrace ------------------------------
(***************************************************************************)
(* Sessions with the library, and the judge of recorded sessions.          *)
(*                                                                         *)
(* State: the live module objects with their current weights (Heap.tla).   *)
(* The actions are the public calls.  A product is an observation: it      *)
(* carries the result the real code returned, and must agree with the      *)
(* contract evaluated on the heap *now* -- whatever happened before.       *)
(*                                                                         *)
(* The file named by TRACE has one session per line:                       *)
(*   id, xs: the input batches [d |-> shape, s |-> samples], ev: events.   *)
(* Every event gets a verdict, "ok" or the name of the failing clause;     *)
(* disagreeing events are printed and the session goes on, so that the     *)
(* rest of it is checked too.                                              *)
(***************************************************************************)
EXTENDS Heap, Likelihood, Acts, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s,      \* which session
          l,      \* how many of its events have been consumed
          nodes,  \* layers and compositions
          root,   \* object -> its node
          jc,     \* memo of Jacobians of live objects (a function of heap and the inputs, not of the history)
          nbad    \* number of disagreements so far
vars == <<s, l, nodes, root, jc, nbad>>
Mod(o) == TLCEval(TreeOf(nodes, root[o]))

Ev == Trace[s].ev
E == Ev[l + 1]
Sample(xi, b) == Val(Trace[s].xs[xi].d, Trace[s].xs[xi].s[b])
NBatch(xi) == Len(Trace[s].xs[xi].s)

TraceInit == /\ s \in 1..Len(Trace)
             /\ l = 0
             /\ nodes = <<>> /\ root = <<>>
             /\ jc = <<>>
             /\ nbad = 0

Bind(o, n) == root' = (IF o <= Len(root) THEN [root EXCEPT ![o] = n] ELSE Append(root, n))
BindNew(o, m) == LET r == Alloc(nodes, m) IN nodes' = r[1] /\ Bind(o, r[2])

IsEvent(e) == /\ l < Len(Ev)
              /\ E.e = e
              /\ l' = l + 1
              /\ s' = s
Verdict(v) == IF v = "ok" THEN nbad' = nbad
              ELSE /\ nbad' = nbad + 1
                   /\ PrintT("BAD " \o ToJson([id |-> Trace[s].id, at |-> l + 1, clause |-> v]))

----------------------------------------------------------------------------
(* Changes of state *)
New == IsEvent("new") /\ BindNew(E.o, E.m) /\ jc' = <<>> /\ UNCHANGED nbad
\* the flat weights of an object, or of a module inside it
SetWeight == /\ IsEvent("setw")
             /\ nodes' = WriteThrough(nodes, Walk(nodes, root[E.o], E.path), E.p)
             /\ jc' = <<>> /\ UNCHANGED <<root, nbad>>
Copy == IsEvent("copy") /\ BindNew(E.to, Mod(E.o)) /\ jc' = <<>> /\ UNCHANGED nbad
\* layers a+1 .. b of a Sequential, as a new Sequential made of the same layers
Slice == /\ IsEvent("slice")
         /\ nodes' = Append(nodes, [t |-> "seq", ls |-> SubSeq(nodes[root[E.o]].ls, E.a + 1, E.b)])
         /\ Bind(E.to, Len(nodes) + 1) /\ jc' = <<>> /\ UNCHANGED nbad
\* a new composition of live objects
Share == /\ IsEvent("share")
         /\ nodes' = Append(nodes, [t |-> E.kind, ls |-> [k \in 1..Len(E.parts) |-> root[E.parts[k]]]])
         /\ Bind(E.o, Len(nodes) + 1) /\ jc' = <<>> /\ UNCHANGED nbad
Edit == /\ IsEvent("edit")
        /\ nodes' = EditNode(nodes, Walk(nodes, root[E.o], E.path), E.kind, E.i, E.m)
        /\ jc' = <<>> /\ UNCHANGED <<root, nbad>>

----------------------------------------------------------------------------
(* Observations *)
VEq(b, c) == IF b THEN "ok" ELSE c

GetWeight == /\ IsEvent("getw")
             /\ Verdict(IF E.st # "ok" THEN "status"
                        ELSE IF E.n # NP(Mod(E.o)) THEN "shape"
                        ELSE VEq(E.res = ParamVec(Mod(E.o)), "value"))
             /\ UNCHANGED <<nodes, root, jc>>

FwdVerdict ==
  IF E.st # "ok" THEN "status"
  ELSE LET ys == TLCEval([b \in 1..NBatch(E.x) |-> Fwd(Mod(E.o), Sample(E.x, b))])
       IN IF E.d # ys[1].d THEN "shape"
          ELSE VEq(\A b \in 1..NBatch(E.x) : E.res[b] = ys[b].v, "value")
Forward == IsEvent("fwd") /\ Verdict(FwdVerdict) /\ UNCHANGED <<nodes, root, jc>>

Known(o, x, w) == \E k \in 1..Len(jc) : jc[k].o = o /\ jc[k].x = x /\ jc[k].w = w
Lookup(o, x, w) == jc[CHOOSE k \in 1..Len(jc) : jc[k].o = o /\ jc[k].x = x /\ jc[k].w = w].J
Jacs(o, x, w) == IF w = "weight" /\ NP(Mod(o)) = 0 THEN <<>>
                 ELSE TLCEval([b \in 1..NBatch(x) |-> IF w = "input" THEN Jx(Mod(o), Sample(x, b))
                                                     ELSE Jw(Mod(o), Sample(x, b))])

CallVerdict(Js) ==
  LET m == Mod(E.o)
      exp(b) == Expected(m, E, Sample(E.x, b), IF Js = <<>> THEN <<>> ELSE Js[b], IF E.nn THEN <<>> ELSE E.a[b])
  IN IF E.st = "declined" THEN VEq(MayDecline(m, E), "status")
     ELSE IF E.st = "none" THEN VEq(E.wrt = "weight" /\ NP(m) = 0, "status")
     ELSE IF E.st # "ok" THEN "status"
     ELSE IF E.wrt = "weight" /\ NP(m) = 0 THEN "status"
     ELSE LET es == TLCEval([b \in 1..NBatch(E.x) |-> TLCEval(exp(b))])
          IN IF E.rs # ShapeStr(es[1]) THEN "shape"
             ELSE IF Len(E.res) # NBatch(E.x) THEN "batch"
             ELSE VEq(\A b \in 1..NBatch(E.x) : E.res[b] = es[b].r, "value")

Call == /\ IsEvent("call")
        /\ LET need == ~Approx(E)
               Js == IF ~need THEN <<>> ELSE IF Known(E.o, E.x, E.wrt) THEN Lookup(E.o, E.x, E.wrt) ELSE Jacs(E.o, E.x, E.wrt)
           IN /\ Verdict(CallVerdict(Js))
              /\ jc' = IF Js = <<>> \/ Known(E.o, E.x, E.wrt) THEN jc
                       ELSE Append(jc, [o |-> E.o, x |-> E.x, w |-> E.wrt, J |-> Js])
        /\ UNCHANGED <<nodes, root>>

\* a Sequential with one layer standing in it twice: the flat weights hold that layer once, so the derivative with
\* respect to them is the sum over its occurrences (E.path: positions of the occurrences in the list of layers)
TiedVerdict ==
  IF E.st # "ok" THEN "status"
  ELSE LET m == Mod(E.o)
           sizes == [k \in 1..Len(m.ls) |-> NP(m.ls[k])]
           n == sizes[E.path[1] + 1]
           exp(b) == LET J == Jw(m, Sample(E.x, b))
                     IN FoldLeft(LAMBDA acc, p : LET B == ColBlock(J, Offsets(sizes)[p + 1], n) IN IF acc = <<>> THEN B ELSE AddM(acc, B), <<>>, E.path)
       IN IF E.n # n \/ E.rs # ShapeStr(ResM(exp(1))) THEN "shape"
          ELSE VEq(\A b \in 1..NBatch(E.x) : E.res[b] = exp(b), "value")
Tied == IsEvent("tied") /\ Verdict(TiedVerdict) /\ UNCHANGED <<nodes, root, jc>>

\* a configuration the library may refuse altogether, but must not get wrong
MayCall == /\ IsEvent("maycall")
           /\ IF E.st = "raised" \/ E.st = "declined" THEN UNCHANGED <<nbad, jc>>
              ELSE LET Js == IF Known(E.o, E.x, E.wrt) THEN Lookup(E.o, E.x, E.wrt) ELSE Jacs(E.o, E.x, E.wrt)
                   IN /\ Verdict(CallVerdict(Js))
                      /\ jc' = IF Js = <<>> \/ Known(E.o, E.x, E.wrt) THEN jc
                               ELSE Append(jc, [o |-> E.o, x |-> E.x, w |-> E.wrt, J |-> Js])
           /\ UNCHANGED <<nodes, root>>

\* side conditions the recorder measured around a call: fl lists those that failed
Effects == /\ IsEvent("fx")
           /\ Verdict(IF Len(E.fl) = 0 THEN "ok" ELSE E.fl[1])
           /\ UNCHANGED <<nodes, root, jc>>

\* log-likelihoods
Lik == /\ IsEvent("lik")
       /\ Verdict(LikVerdict(Mod(E.o), E, [b \in 1..NBatch(E.x) |-> Sample(E.x, b)]))
       /\ UNCHANGED <<nodes, root, jc>>

\* inversion of (lists of) symmetric positive definite matrices; results are recorded multiplied by sc
RECURSIVE InvOk(_, _, _)
InvOk(M, R, sc) == IF M.k = "m" THEN MM(M.r, R.r) = ScaleM(sc, Eye(NRow(M.r)))
                   ELSE \A k \in 1..Len(M.r) : InvOk(M.r[k], R.r[k], sc)
Invert == /\ IsEvent("inv")
          /\ Verdict(IF E.st # "ok" THEN "status"
                     ELSE IF E.rs # E.as THEN "shape"
                     ELSE VEq(\A b \in 1..Len(E.a) : InvOk(E.a[b], E.res[b], E.sc), "value"))
          /\ UNCHANGED <<nodes, root, jc>>

\* activations at tabulated points
Table == /\ IsEvent("tab")
         /\ Verdict(IF E.st # "ok" THEN "status"
                    ELSE VEq(\A k \in 1..Len(E.pts) : TabOk(E.pts[k], E.op), "value"))
         /\ UNCHANGED <<nodes, root, jc>>

\* two recorded results that have to be the same
Same == /\ IsEvent("same")
        /\ Verdict(IF E.st # "ok" THEN "status" ELSE VEq(E.a = E.b, "value"))
        /\ UNCHANGED <<nodes, root, jc>>

\* L2 normalisation: samples with an integer norm; x and eps in the same unit
L2Verdict ==
  IF E.st # "ok" THEN "status"
  ELSE VEq(\A b \in 1..NBatch(E.x) :
         LET x == Sample(E.x, b)
             n == L2N(x)
             e == E.eps
             J == JxLeaf([t |-> "l2", e |-> e], x)
         IN /\ E.dens[b] = (CASE E.op = "fwd" -> n + e                 \* the recorder's denominators
                              [] E.op = "jTmjp" -> (IF n = 0 THEN e * e ELSE n * (n + e) * (n + e) * n * (n + e) * (n + e))
                              [] OTHER -> (IF n = 0 THEN e ELSE n * (n + e) * (n + e)))
            /\ E.res[b] = (CASE E.op = "fwd" -> x.v
                             [] E.op = "jac" -> J
                             [] E.op = "jvp" -> MV(J, E.a[b])
                             [] E.op = "vjp" -> VM(E.a[b], J)
                             [] E.op = "jTmjp" -> JDJTdiag(Tr(J), E.a[b])), "value")
L2 == IsEvent("l2") /\ Verdict(L2Verdict) /\ UNCHANGED <<nodes, root, jc>>

\* an operation on a supported module that failed outright
Failed == IsEvent("fail") /\ Verdict("failed") /\ UNCHANGED <<nodes, root, jc>>
\* a configuration or conversion the library refused: always allowed for the configurations this is recorded for
Refused == IsEvent("refused") /\ Verdict("ok") /\ UNCHANGED <<nodes, root, jc>>

TraceNext == New \/ SetWeight \/ Copy \/ Slice \/ Share \/ Edit \/ GetWeight \/ Forward \/ Call \/ Tied \/ MayCall \/ Effects \/ Lik \/ Invert
             \/ Table \/ Same \/ L2 \/ Failed \/ Refused
TraceSpec == TraceInit /\ [][TraceNext]_vars

\* every event of every session was consumed: 1 + number of events states per session
AllConsumed == TLCGet("stats").distinct = FoldLeft(LAMBDA a, t : a + 1 + Len(t.ev), 0, Trace)
=============================================================================
