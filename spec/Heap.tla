-------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Live module objects as a graph: a node is a layer with its weights, or  *)
(* a composition whose layers are nodes.  A layer that stands in several   *)
(* compositions is one node: weights written through one of them are seen  *)
(* through all of them, and so is surgery on an inner composition.         *)
(* Copies share nothing.                                                   *)
(***************************************************************************)
EXTENDS Contract

\* enter a module tree: <<nodes, number of its root>>
RECURSIVE Alloc(_, _)
Alloc(ns, m) ==
  IF IsBox(m)
  THEN LET st == FoldLeft(LAMBDA acc, c : LET r == Alloc(acc[1], c) IN <<r[1], Append(acc[2], r[2])>>, <<ns, <<>>>>, m.ls)
       IN <<Append(st[1], [t |-> m.t, ls |-> st[2]]), Len(st[1]) + 1>>
  ELSE <<Append(ns, m), Len(ns) + 1>>

\* the module a node stands for
RECURSIVE TreeOf(_, _)
TreeOf(ns, n) == IF IsBox(ns[n]) THEN [t |-> ns[n].t, ls |-> [k \in 1..Len(ns[n].ls) |-> TreeOf(ns, ns[n].ls[k])]] ELSE ns[n]

\* layers in order, a shared one as often as it stands there
RECURSIVE LeavesOf(_, _)
LeavesOf(ns, n) == IF IsBox(ns[n]) THEN FoldLeft(LAMBDA a, c : a \o LeavesOf(ns, c), <<>>, ns[n].ls) ELSE <<n>>

\* write the flat weights p through node n
WriteThrough(ns, n, p) ==
  FoldLeft(LAMBDA acc, c : LET k == NP(ns[c])
                           IN <<IF k = 0 THEN acc[1] ELSE [acc[1] EXCEPT ![c] = WithParams(ns[c], SubV(p, acc[2], k))], acc[2] + k>>,
           <<ns, 0>>, LeavesOf(ns, n))[1]

\* the node reached from n by a path of 0-based positions
Walk(ns, n, path) == FoldLeft(LAMBDA a, i : ns[a].ls[i + 1], n, path)

\* surgery on a list of layers: append, replace, insert or delete (0-based position i)
EditLs(ls, kind, i, c) ==
  CASE kind = "append" -> Append(ls, c)
    [] kind = "set" -> [ls EXCEPT ![i + 1] = c]
    [] kind = "del" -> SubSeq(ls, 1, i) \o SubSeq(ls, i + 2, Len(ls))
    [] kind = "ins" -> SubSeq(ls, 1, i) \o <<c>> \o SubSeq(ls, i + 1, Len(ls))
EditNode(ns, n, kind, i, m) ==
  IF kind = "del" THEN [ns EXCEPT ![n].ls = EditLs(@, kind, i, 0)]
  ELSE LET r == Alloc(ns, m) IN [r[1] EXCEPT ![n].ls = EditLs(@, kind, i, r[2])]
=============================================================================
