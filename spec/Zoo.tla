-------------------------------- MODULE Zoo --------------------------------
(***************************************************************************)
(* Families of small modules over which the design models quantify         *)
(* exhaustively.  An instance is [m |-> module, d |-> input shape].        *)
(***************************************************************************)
EXTENDS Contract

\* distinct, sign-changing fillers: no two neighbouring weights or pixels are equal
Fill(n, a) == Vec(n, LAMBDA i : ((i * 7 + a * 5) % 11) - 5)
FillNZ(n, a) == Vec(n, LAMBDA i : LET v == ((i * 7 + a * 5) % 11) - 5 IN IF v = 0 THEN 6 ELSE v)

Inst(m, d) == [m |-> m, d |-> d]
Lin(r, c, b, a) == [t |-> "lin", w |-> Mat(r, c, LAMBDA i, j : ((i * 3 + j * 5 + a) % 5) - 2), b |-> IF b THEN Fill(r, a) ELSE <<>>]
Conv(c1, c2, kh, kw, sh, sw, ph, pw, dh, dw, g, pm, b, a) ==
  [t |-> "conv", c1 |-> c1, c2 |-> c2, kh |-> kh, kw |-> kw, sh |-> sh, sw |-> sw, ph |-> ph, pw |-> pw, dh |-> dh, dw |-> dw, g |-> g,
   pm |-> pm, w |-> FillNZ(c2 * (c1 \div g) * kh * kw, a), b |-> IF b THEN Fill(c2, a) ELSE <<>>]
Pool(kh, kw, sh, sw, ph, pw, dh, dw, ceil) ==
  [t |-> "mp", kh |-> kh, kw |-> kw, sh |-> sh, sw |-> sw, ph |-> ph, pw |-> pw, dh |-> dh, dw |-> dw, ceil |-> ceil]
Seq2(ls) == [t |-> "seq", ls |-> ls]
Skip2(ls) == [t |-> "skip", ls |-> ls]
Relu == [t |-> "relu"]
Flat == [t |-> "flat"]
Sq == [t |-> "sq"]
PairL == [t |-> "pair"]
CScale(n, a) == [t |-> "cscale", w |-> Fill(n, a)]
Sten(a) == [t |-> "sten", w |-> Fill(3, a)]

\* every configuration of a small convolution that has an output
ConvGrid ==
  {q \in {Inst(Conv(c1, c2, kh, kw, sh, sw, ph, pw, dh, dw, g, pm, b, 1), <<c1, H, W>>) :
            c1 \in {1, 2}, c2 \in {1, 2}, kh \in 1..2, kw \in 1..3, sh \in 1..2, sw \in 1..2, ph \in 0..1, pw \in 0..1,
            dh \in 1..2, dw \in 1..2, g \in {1, 2}, pm \in {"zeros", "circular", "reflect", "replicate"}, b \in BOOLEAN,
            H \in {2, 3}, W \in {3}} :
     /\ q.m.c1 % q.m.g = 0 /\ q.m.c2 % q.m.g = 0
     /\ ConvOutH(q.m, q.d[2]) >= 1 /\ ConvOutW(q.m, q.d[3]) >= 1
     /\ (q.m.dh = 1 \/ q.m.kh > 1) /\ (q.m.dw = 1 \/ q.m.kw > 1)
     /\ (q.m.pm = "zeros" \/ q.m.ph + q.m.pw > 0)
     /\ (q.m.c1 = 1 \/ q.m.c2 = 2 \/ Len(q.m.b) > 0)}
PoolGrid ==
  {q \in {Inst(Pool(kh, kw, sh, sw, ph, pw, dh, dw, ceil), <<2, H, W>>) :
            kh \in 1..3, kw \in 1..2, sh \in 1..3, sw \in 1..2, ph \in 0..1, pw \in 0..1, dh \in 1..2, dw \in 1..2,
            ceil \in BOOLEAN, H \in {3, 4}, W \in {2, 3}} :
     /\ 2 * q.m.ph <= q.m.kh /\ 2 * q.m.pw <= q.m.kw
     /\ PoolOut(q.d[2], q.m.kh, q.m.sh, q.m.ph, q.m.dh, q.m.ceil) >= 1
     /\ PoolOut(q.d[3], q.m.kw, q.m.sw, q.m.pw, q.m.dw, q.m.ceil) >= 1}
UpGrid == {Inst([t |-> "up", f |-> f], <<c, H, W>>) : f \in 1..3, c \in 1..2, H \in 1..2, W \in 1..3}
          \cup {Inst([t |-> "bil", f |-> f], <<c, H, W>>) : f \in 1..3, c \in 1..2, H \in 1..3, W \in 1..3}
LinGrid == {Inst(Lin(r, c, b, a), <<c>>) : r \in 1..3, c \in 1..3, b \in BOOLEAN, a \in 0..2}

\* layers from vectors of length 2 to vectors of length 2
Square == {Lin(2, 2, TRUE, 0), Lin(2, 2, FALSE, 1), Relu, Flat, CScale(2, 1), Seq2(<<Lin(2, 2, TRUE, 2), Relu>>)}
\* compositions of up to three layers, and what can be put around and behind them
Chains(S, n) == UNION {[1..k -> S] : k \in 1..n}
NetGrid(n) ==
  {Inst(Seq2(c), <<2>>) : c \in Chains(Square, n)}
  \cup {Inst(Skip2(c), <<2>>) : c \in Chains(Square, n)}
  \cup {Inst(Seq2(<<Skip2(c), Lin(1, 4, TRUE, 1)>>), <<2>>) : c \in Chains(Square, n - 1)}
  \cup {Inst(Seq2(<<Lin(2, 3, TRUE, 1), Skip2(c), PairL>>), <<3>>) : c \in Chains(Square, n - 1)}
  \cup {Inst(Seq2(<<s>> \o c), <<2>>) : s \in {Sq}, c \in Chains(Square, n - 1)}
  \cup {Inst(Seq2(c \o <<Sq>>), <<2>>) : c \in Chains(Square, n - 1)}
  \cup {Inst(Seq2(<<Lin(3, 2, TRUE, 1), Sten(1)>> \o c), <<2>>) : c \in Chains(Square, n - 1)}
ImgNets ==
  {Inst(Seq2(<<Conv(1, 2, 2, 2, 1, 1, p, p, 1, 1, 1, "zeros", TRUE, 1)>> \o mid \o tl), <<1, 3, 3>>) :
     p \in 0..1, mid \in {<<>>, <<Relu>>, <<Pool(2, 2, 1, 1, 0, 0, 1, 1, FALSE)>>, <<[t |-> "up", f |-> 2]>>,
                          <<Skip2(<<Conv(2, 1, 1, 1, 1, 1, 0, 0, 1, 1, 1, "zeros", FALSE, 2), Relu>>)>>},
     tl \in {<<>>, <<Flat>>, <<Seq2(<<Relu, Flat>>)>>}}

\* a spread of inputs of a shape: values u apart, so that a step of one crosses no kink unless it sits on one
Inputs(d, u) == {Val(d, Vec(Prod(d), LAMBDA i : u * ((((i * q) + r) % 7) - 3))) : q \in {1, 3, 5}, r \in 0..1}
=============================================================================
