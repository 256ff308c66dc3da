------------------------------ MODULE Surgery ------------------------------
(***************************************************************************)
(* Histories of surgery, sharing, slicing, copying and writing of weights  *)
(* on compositions (all layers map vectors of length 2 to vectors of       *)
(* length 2, so that every edit is legal).  The module checks Heap.tla     *)
(* against what users are told, and generates the histories that are       *)
(* replayed against the real code.                                         *)
(***************************************************************************)
EXTENDS Heap, Json, FiniteSets

CONSTANTS Depth, Emit

VARIABLES nodes, root, hist,
          gaps    \* Sequentials whose layers are not named 0, 1, ...: torch keeps the names in a slice, and its
                  \* own insert and append then overwrite layers.  Not this library's doing: not part of the histories
vars == <<nodes, root, hist, gaps>>

L1 == [t |-> "lin", w |-> <<<<1, 2>>, <<-1, 1>>>>, b |-> <<1, -1>>]
L2 == [t |-> "lin", w |-> <<<<2, -1>>, <<1, 1>>>>, b |-> <<>>]
L3 == [t |-> "lin", w |-> <<<<0, 1>>, <<1, -2>>>>, b |-> <<2, 1>>]
R == [t |-> "relu"]
Palette == <<L3, R, [t |-> "seq", ls |-> <<L2, R>>]>>
Start == [t |-> "seq", ls |-> <<L1, [t |-> "seq", ls |-> <<R, L2>>]>>]

Init == LET r == Alloc(<<>>, Start) IN nodes = r[1] /\ root = <<r[2]>> /\ hist = <<>> /\ gaps = {}

RECURSIVE NodeSet(_, _)
NodeSet(ns, n) == {n} \cup (IF IsBox(ns[n]) THEN UNION {NodeSet(ns, ns[n].ls[k]) : k \in 1..Len(ns[n].ls)} ELSE {})

Log(a) == hist' = Append(hist, a) /\ Len(hist) < Depth
Objs == 1..Len(root)
IsSeq(n) == nodes[n].t = "seq"
Tree(o) == TreeOf(nodes, root[o])
\* compositions inside object o: itself and its direct inner Sequentials
Paths(o) == IF ~IsBox(nodes[root[o]]) THEN {} ELSE {<<>>} \cup {<<i - 1>> : i \in {j \in 1..Len(nodes[root[o]].ls) : IsSeq(nodes[root[o]].ls[j])}}

DoEdit(o, path, kind, i, k) ==
  LET n == Walk(nodes, root[o], path) IN
  /\ IsSeq(n)
  /\ IsSeq(root[o])
  /\ i <= Len(nodes[n].ls)
  /\ (kind \in {"set", "del"} => i < Len(nodes[n].ls))
  /\ (kind = "append" => i = 0)
  /\ (kind \in {"append", "ins"} => n \notin gaps)
  /\ gaps' = (IF kind = "del" THEN gaps \ {n} ELSE gaps)
  /\ (kind = "del" => k = 1 /\ Len(nodes[n].ls) > 1)
  /\ (kind # "del" => Len(nodes[n].ls) < 4)
  /\ Log([a |-> "edit", o |-> o, path |-> path, kind |-> kind, i |-> IF kind = "append" THEN Len(nodes[n].ls) ELSE i, m |-> Palette[k]])
  /\ nodes' = EditNode(nodes, n, kind, i, Palette[k]) /\ UNCHANGED root
DoSlice(o, a, b) == /\ Len(root) < 3 /\ IsSeq(root[o]) /\ a < b /\ b <= Len(nodes[root[o]].ls)
                    /\ Log([a |-> "slice", o |-> o, to |-> Len(root) + 1, from |-> a, upto |-> b])
                    /\ nodes' = Append(nodes, [t |-> "seq", ls |-> SubSeq(nodes[root[o]].ls, a + 1, b)])
                    /\ root' = Append(root, Len(nodes) + 1)
                    /\ gaps' = (IF a > 0 \/ root[o] \in gaps THEN gaps \cup {Len(nodes) + 1} ELSE gaps)
DoShare(o, kind) == /\ Len(root) < 3 /\ IsSeq(root[o])
                    /\ Log([a |-> "share", o |-> Len(root) + 1, kind |-> kind, parts |-> <<o>>])
                    /\ nodes' = Append(nodes, [t |-> kind, ls |-> <<root[o]>>])
                    /\ root' = Append(root, Len(nodes) + 1) /\ UNCHANGED gaps
DoSetW(o, path) == LET n == Walk(nodes, root[o], path)
                       p == Vec(NP(TreeOf(nodes, n)), LAMBDA i : ((i * 3 + Len(hist) * 2 + o) % 5) - 2)
                   IN /\ Len(p) > 0 /\ (path # <<>> => IsSeq(root[o]))
                      /\ Log([a |-> "setw", o |-> o, path |-> path, p |-> p])
                      /\ nodes' = WriteThrough(nodes, n, p) /\ UNCHANGED <<root, gaps>>
DoCopy(o, how) == /\ Len(root) < 3 /\ NodeSet(nodes, root[o]) \cap gaps = {} /\ UNCHANGED gaps
                  /\ Log([a |-> "copy", o |-> o, to |-> Len(root) + 1, how |-> how])
                  /\ LET r == Alloc(nodes, Tree(o)) IN nodes' = r[1] /\ root' = Append(root, r[2])
DoProduct(o) == /\ Log([a |-> "prod", o |-> o, tree |-> Tree(o)]) /\ UNCHANGED <<nodes, root, gaps>>

Next == \/ \E o \in Objs : \E path \in Paths(o), kind \in {"append", "set", "ins", "del"}, i \in 0..3, k \in 1..3 : DoEdit(o, path, kind, i, k)
        \/ \E o \in Objs, a \in 0..2, b \in 1..4 : DoSlice(o, a, b)
        \/ \E o \in Objs, kind \in {"seq", "skip"} : DoShare(o, kind)
        \/ \E o \in Objs : \E path \in Paths(o) : DoSetW(o, path)
        \/ \E o \in Objs, how \in {"deepcopy", "pickle"} : DoCopy(o, how)
        \/ \E o \in Objs : DoProduct(o)
Spec == Init /\ [][Next]_vars

\* C13: reading the weights after writing them returns them
Distinct(n) == LET ls == LeavesOf(nodes, n) IN Cardinality({ls[i] : i \in 1..Len(ls)}) = Len(ls)
LastIs(a) == Len(hist) > 0 /\ hist[Len(hist)].a = a
ReadsBack == LastIs("setw") => LET h == hist[Len(hist)]  n == Walk(nodes, root[h.o], h.path)
                               IN Distinct(n) => ParamVec(TreeOf(nodes, n)) = h.p
\* ... and nobody who does not share a layer sees anything
LeafSet(ns, n) == LET ls == LeavesOf(ns, n) IN {ls[i] : i \in 1..Len(ls)}
Frame == [][\A o \in Objs : (hist' # hist /\ hist'[Len(hist')].a \in {"setw", "edit"}
                              /\ NodeSet(nodes, root[o]) \cap NodeSet(nodes, Walk(nodes, root[hist'[Len(hist')].o], hist'[Len(hist')].path)) = {})
                             => TreeOf(nodes', root'[o]) = TreeOf(nodes, root[o])]_vars
\* copies share nothing and are the same module
CopyOk == LastIs("copy") => LET h == hist[Len(hist)] IN NodeSet(nodes, root[h.o]) \cap NodeSet(nodes, root[h.to]) = {} /\ Tree(h.o) = Tree(h.to)
\* everything stays a module from vectors of length 2 (to 2, or to 4 behind a skip connection)
WellFormed == \A o \in Objs : LET y == Fwd(Tree(o), Val(<<2>>, <<1, -1>>)) IN Len(y.v) \in {2, 4}
PrintHist == (Emit /\ Len(hist) = Depth) => PrintT("HIST " \o ToJson([h |-> hist, trees |-> [o \in Objs |-> Tree(o)]]))
=============================================================================
