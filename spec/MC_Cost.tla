------------------------------- MODULE MC_Cost -------------------------------
(* Design check of the cost model: the closed forms count what they claim to
   count, scale with batch and size, and are additive over nodes.            *)
EXTENDS Cost
CONSTANTS M
VARIABLES ph, k, p
D == 1..M
In(s, w) == [om |-> FALSE, s |-> s, d |-> "f32", has |-> FALSE, v |-> <<>>, w |-> w]
Out(s) == [s |-> s, d |-> "f32"]
Pts(kind) ==
  CASE kind = "conv" -> [n : D, g : D, cg : D, mg : D, kh : D, kw : D, oh : D, ow : D, b : BOOLEAN]
    [] kind = "mat" -> [b : D, m : D, k : D, n : D]
    [] kind = "elem" -> [op : {"Add", "Mul", "Div", "Exp", "Softmax", "Relu", "BatchNormalization", "Clip"}, n : D, c : D, h : D, f : 1..3]
    [] kind = "free" -> [op : Free, n : D, c : D]
Kinds == {"conv", "mat", "elem", "free"}
Init == ph = 0 /\ k = "" /\ p = <<>>
Next == ph = 0 /\ ph' = 1 /\ \E q \in Kinds : k' = q /\ p' \in Pts(q)
Spec == Init /\ [][Next]_<<ph, k, p>>
At1(kind) == ph = 1 /\ k = kind
(* every (output element, channel of its group, kernel position) is one multiply-accumulate; a bias adds one per output *)
ConvOf(q, n) == LET w == <<q.g * q.mg, q.cg, q.kh, q.kw>> o == <<n, q.g * q.mg, q.oh, q.ow>> IN
  Macs("Conv", [group |-> q.g], <<In(<<n, q.g * q.cg, q.oh, q.ow>>, FALSE), In(w, TRUE)>> \o (IF q.b THEN <<In(<<q.g * q.mg>>, TRUE)>> ELSE <<>>), <<Out(o)>>)
ConvLaw == At1("conv") =>
  /\ ConvOf(p, p.n) = Cardinality((1..p.n) \X (1..(p.g * p.mg)) \X (1..p.oh) \X (1..p.ow) \X (1..p.cg) \X (1..p.kh) \X (1..p.kw))
                      + (IF p.b THEN Cardinality((1..p.n) \X (1..(p.g * p.mg)) \X (1..p.oh) \X (1..p.ow)) ELSE 0)
  /\ ConvOf(p, p.n) = p.n * ConvOf(p, 1)
MatOf(q, b) == Macs("MatMul", [none |-> 0], <<In(<<b, q.m, q.k>>, FALSE), In(<<q.k, q.n>>, TRUE)>>, <<Out(<<b, q.m, q.n>>)>>)
MatLaw == At1("mat") =>
  /\ MatOf(p, p.b) = Cardinality((1..p.b) \X (1..p.m) \X (1..p.n) \X (1..p.k))
  /\ MatOf(p, p.b) = p.b * MatOf(p, 1)
  /\ MatOf([p EXCEPT !.m = p.n, !.n = p.m], p.b) = MatOf(p, p.b)
(* einsum of a matrix product costs the same as the matrix product; Gemm without bias too *)
EinLaw == At1("mat") =>
  /\ Macs("Einsum", [terms |-> <<<<"b", "i", "k">>, <<"k", "j">>>>], <<In(<<p.b, p.m, p.k>>, FALSE), In(<<p.k, p.n>>, TRUE)>>, <<Out(<<p.b, p.m, p.n>>)>>) = MatOf(p, p.b)
  /\ Macs("Gemm", [transB |-> 1], <<In(<<p.m, p.k>>, FALSE), In(<<p.n, p.k>>, TRUE)>>, <<Out(<<p.m, p.n>>)>>) = MatOf(p, 1)
ElemOf(q, n) == Macs(q.op, [none |-> 0], <<In(<<n, q.c, q.h>>, FALSE), In(<<n, q.c, q.h>>, FALSE)>>, <<Out(<<n, q.c, q.h>>)>>)
ScaleLaw == At1("elem") => ElemOf(p, p.f * p.n) = p.f * ElemOf(p, p.n) /\ ElemOf(p, p.n) > 0
FreeLaw == At1("free") => Macs(p.op, [none |-> 0], <<In(<<p.n, p.c>>, FALSE)>>, <<Out(<<p.n, p.c>>)>>) = 0
(* parameters and memory of a node: a weight used twice by one node counts twice, an activation never *)
TotalLaw == At1("mat") =>
  LET w == In(<<p.m, p.k>>, TRUE) x == In(<<p.m, p.k>>, FALSE) o == Out(<<p.m, p.k>>) IN
  /\ NodeCost("Add", [none |-> 0], <<x, w>>, <<o>>).params = p.m * p.k
  /\ NodeCost("Add", [none |-> 0], <<w, w>>, <<o>>).params = 2 * p.m * p.k
  /\ NodeCost("Add", [none |-> 0], <<x, x>>, <<o>>).params = 0
  /\ NodeCost("Add", [none |-> 0], <<x, w>>, <<o>>).mem = 8 * p.m * p.k
=============================================================================
