------------------------------- MODULE ConvBN -------------------------------
(* Fusing a batch normalisation into the convolution before it.
   Graph nodes carry attributes a: <<[k, v]>> (Pattern).  Constants are tensors
   of exact rationals; a normalisation scales channel i by
   gamma[i] / sqrt(var[i] + eps).                                             *)
EXTENDS Pattern, TLC
T == INSTANCE Tensor
Roots == 0..100
RootI(n) == IF \E k \in Roots : k * k = n THEN CHOOSE k \in Roots : k * k = n ELSE -1
Root(x) == IF x = T!Undef \/ x[1] < 0 THEN T!Undef
           ELSE LET p == RootI(x[1]) q == RootI(x[2]) IN IF p >= 0 /\ q > 0 THEN <<p, q>> ELSE T!Undef      \* only where it is rational
(* ------------------------------------------------------------ which pairs *)
In(nd, k) == IF k <= Len(nd.i) THEN nd.i[k] ELSE ""
Constant(g, t) == t # "" /\ IsIn(t, g.ini)
Alone(g, t) == UseCount(g, t, Len(g.nodes)) = 1 /\ ~IsIn(t, g.out) /\ ~IsIn(t, g.cap)     \* cap: what nested graphs take from outside
AttrIs(nd, k, x) == HasAttr(nd, k) /\ AttrOf(nd, k)[1] = x
(* the pair may be replaced by one convolution *)
May(g, c, b) ==
  /\ c.op = "Conv" /\ b.op = "BatchNormalization" /\ Len(b.i) = 5
  /\ b.i[1] = c.o[1] /\ Alone(g, c.o[1])
  /\ Constant(g, In(c, 2)) /\ Alone(g, In(c, 2))
  /\ In(c, 3) = "" \/ Constant(g, In(c, 3))
  /\ \A k \in 2..5 : Constant(g, b.i[k])
  /\ ~AttrIs(b, "training_mode", 1)
  /\ \A k \in 2..Len(b.o) : b.o[k] = "" \/ (UseCount(g, b.o[k], Len(g.nodes)) = 0 /\ ~IsIn(b.o[k], g.out) /\ ~IsIn(b.o[k], g.cap))
(* and has to, for the two-dimensional kernels the pass is for *)
Must(g, c, b) == /\ May(g, c, b) /\ HasAttr(c, "kernel_shape") /\ Len(AttrOf(c, "kernel_shape")) = 2
                 /\ \A k \in 1..2 : AttrOf(c, "kernel_shape")[k] \in 1..7
(* a convolution takes in at most the normalisation right behind it *)
Pairs(g, P(_, _, _)) == {<<c.n, b.n>> : <<c, b>> \in {<<c, b>> \in Nodes(g) \X Nodes(g) : P(g, c, b)}}
(* ------------------------------------------------------------- the result *)
FuseNodes(g, F, bias(_)) ==      \* F: set of pairs; bias(c): name of the new bias of convolution c
  LET gone == {p[2] : p \in F}
      keep == SelectSeq(g.nodes, LAMBDA nd : nd.n \notin gone)
      bn(c) == NodeNamed(g, (CHOOSE p \in F : p[1] = c)[2])
  IN [k \in 1..Len(keep) |-> LET nd == keep[k] IN
        IF nd.n \in {p[1] : p \in F} THEN [nd EXCEPT !.i = <<nd.i[1], nd.i[2], bias(nd.n)>>, !.o = <<bn(nd.n).o[1]>>] ELSE nd]
(* what a channel is multiplied by; Undef when it is infinite or not rational *)
Scales(gamma, var, eps) == TLCEval([ch \in 1..Len(gamma) |-> LET s == Root(T!QAdd(var[ch], eps)) IN IF s \in {T!Undef, <<0, 1>>} THEN T!Undef ELSE T!QDiv(gamma[ch], s)])
NewWeight(w, per, sc) == [k \in 1..Len(w) |-> T!QMul(w[k], sc[((k - 1) \div per) + 1])]
NewBias(bv, sc, beta, mean) == [ch \in 1..Len(sc) |-> T!QAdd(T!QMul(T!QSub(bv[ch], mean[ch]), sc[ch]), beta[ch])]
=============================================================================
