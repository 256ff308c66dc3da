------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* Sessions with one composition, and the question which feature maps a    *)
(* product is computed from.                                               *)
(*                                                                         *)
(* A composition stores the feature maps of its last evaluation.  Maps are *)
(* identified by the input they belong to and the version of the weights   *)
(* that produced them.  Policy is what a product does when the caller      *)
(* hands in the output of the module:                                      *)
(*   "recompute"   it evaluates the composition on its own input           *)
(*   "reuse"       it takes the stored maps (what the code did before the  *)
(*                 first repairs; Fresh is violated, by short histories)   *)
(*   "reuse-batch" it takes them if the batch size agrees                  *)
(*   "reuse-input" it takes them if the input is the same, whatever the    *)
(*                 weights are now                                         *)
(*   "reuse-tensor" it takes them if the input is the same tensor and the  *)
(*                 weights are the same, whatever the tensor holds now     *)
(* The same module generates the histories that are replayed against the   *)
(* real code: every history of length Depth that ends in a product.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Policy, Depth, Emit

Obj == {1, 2}             \* the module and a copy of it
Inputs == 1..3            \* 1 and 2 have the same batch size, 3 another
BatchOf(x) == IF x = 3 THEN 2 ELSE 1
None == <<0, 0, 0>>

VARIABLES live,    \* which objects exist
          w,       \* version of the weights, per object
          nw,      \* the last version given out
          maps,    \* stored feature maps, per object
          inner,   \* stored feature maps of the inner composition, per object
          out,     \* per object and input: version of the weights that produced the stashed output, 0 if none
          c,       \* version of the contents, per input tensor (a buffer may be refilled)
          used,    \* what the last product used: [o, x, outer, in]
          hist
vars == <<live, w, nw, maps, inner, out, c, used, hist>>

Init == /\ live = {1} /\ w = [o \in Obj |-> 1] /\ nw = 1
        /\ maps = [o \in Obj |-> None] /\ inner = [o \in Obj |-> None]
        /\ out = [o \in Obj |-> [x \in Inputs |-> 0]]
        /\ c = [x \in Inputs |-> 1] /\ used = <<>> /\ hist = <<>>

Now(o, x) == <<x, c[x], w[o]>>       \* the maps of input x under the weights of o
Log(a) == hist' = Append(hist, a) /\ Len(hist) < Depth

Forward(o, x) == /\ o \in live /\ Log([a |-> "fwd", o |-> o, x |-> x])
                 /\ maps' = [maps EXCEPT ![o] = Now(o, x)]
                 /\ inner' = [inner EXCEPT ![o] = Now(o, x)]
                 /\ out' = [out EXCEPT ![o][x] = w[o]]
                 /\ UNCHANGED <<live, w, nw, c, used>>
\* somebody evaluates the inner module alone, on something else
Inner(o, x) == /\ o \in live /\ Log([a |-> "inner", o |-> o, x |-> x])
               /\ inner' = [inner EXCEPT ![o] = <<-x, c[x], w[o]>>]
               /\ UNCHANGED <<live, w, nw, maps, out, c, used>>
SetWeights(o, how) == /\ o \in live /\ Log([a |-> "setw", o |-> o, how |-> how])
                      /\ nw' = nw + 1 /\ w' = [w EXCEPT ![o] = nw + 1]
                      /\ UNCHANGED <<live, maps, inner, out, c, used>>
\* copies take their stored maps along
CopyTo(how) == /\ Log([a |-> "copy", how |-> how])
               /\ live' = {1, 2} /\ w' = [w EXCEPT ![2] = w[1]]
               /\ maps' = [maps EXCEPT ![2] = maps[1]] /\ inner' = [inner EXCEPT ![2] = inner[1]]
               /\ out' = [out EXCEPT ![2] = [x \in Inputs |-> 0]]
               /\ UNCHANGED <<nw, c, used>>
\* the caller refills the buffer of an input
Refill(x) == /\ Log([a |-> "refill", x |-> x])
             /\ c' = [c EXCEPT ![x] = @ + 1] /\ out' = [o \in Obj |-> [out[o] EXCEPT ![x] = 0]]
             /\ UNCHANGED <<live, w, nw, maps, inner, used>>

Stored(m, o, x) == CASE Policy = "recompute" -> Now(o, x)
                     [] Policy = "reuse" -> IF m = None THEN Now(o, x) ELSE m
                     [] Policy = "reuse-batch" -> IF m = None \/ m[1] < 0 THEN Now(o, x)
                                                  ELSE IF BatchOf(m[1]) = BatchOf(x) THEN m ELSE Now(o, x)
                     [] Policy = "reuse-input" -> IF m # None /\ m[1] = x /\ m[2] = c[x] THEN m ELSE Now(o, x)
                     [] Policy = "reuse-tensor" -> IF m # None /\ m[1] = x /\ m[3] = w[o] THEN m ELSE Now(o, x)
\* v: "none" (no output given), "stash" (the one an earlier forward returned), "self", "twin" (computed by a fresh copy)
Product(o, x, v) ==
  /\ o \in live
  /\ v = "stash" => out[o][x] = w[o]          \* otherwise it is not the output of the module
  /\ Log([a |-> "prod", o |-> o, x |-> x, v |-> v])
  /\ LET m0 == IF v = "self" THEN Now(o, x) ELSE maps[o]
         i0 == IF v = "self" THEN Now(o, x) ELSE inner[o]
         m == IF v = "none" THEN Now(o, x) ELSE Stored(m0, o, x)
         \* the outer composition hands the inner one an output, whatever it got itself
         i == IF v = "none" /\ Policy = "reuse" THEN Now(o, x) ELSE Stored(IF m # maps[o] THEN Now(o, x) ELSE i0, o, x)
     IN /\ used' = <<[o |-> o, x |-> x, outer |-> m, in |-> i]>>
        /\ maps' = [maps EXCEPT ![o] = m] /\ inner' = [inner EXCEPT ![o] = i]
  /\ UNCHANGED <<live, w, nw, out, c>>

Next == \/ \E o \in Obj, x \in Inputs : Forward(o, x) \/ Inner(o, x)
        \/ \E x \in Inputs : Refill(x)
        \/ \E o \in Obj, how \in {"set", "inplace"} : SetWeights(o, how)
        \/ \E how \in {"deepcopy", "pickle"} : CopyTo(how)
        \/ \E o \in Obj, x \in Inputs, v \in {"none", "stash", "self", "twin"} : Product(o, x, v)
Spec == Init /\ [][Next]_vars

\* C10: a product is computed from the maps of its own input under the weights of now
IsProd(h) == Len(h) > 0 /\ h[Len(h)].a = "prod"
Fresh == IsProd(hist) => LET u == used[1] IN u.outer = Now(u.o, u.x) /\ u.in = Now(u.o, u.x)
\* a state without its history (for checking, not for generating)
View == <<live, w, nw, maps, inner, out, c, used, IsProd(hist), Len(hist)>>

PrintHist == (Emit /\ Len(hist) = Depth /\ IsProd(hist)) => PrintT("HIST " \o ToJson(hist))
=============================================================================
