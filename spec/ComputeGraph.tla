---------------------------- MODULE ComputeGraph ----------------------------
(* What may, must and must not disappear when the compute graph is extracted.
   Operands that only carry a shape (or sizes, axes, scales) are named by the
   ONNX operator definitions; everything else is data.                        *)
EXTENDS GraphOps, ShapeUse
ShapePos(nd) == ShapePosOf(nd.op, Len(nd.i))
ShapeUses(nd) == {nd.i[k] : k \in ShapePos(nd)} \ {""}
DataUses(nd) == {nd.i[k] : k \in (1..Len(nd.i)) \ ShapePos(nd)} \ {""}
(* greatest set of nodes nothing outside of which uses as data *)
RECURSIVE OnlyShape(_, _)
OnlyShape(g, S) ==
  LET T == {x \in S : /\ Makes(NodeNamed(g, x)) \cap Rng(g.out) = {}
                      /\ \A nd \in Nodes(g) : nd.n \notin S => DataUses(nd) \cap Makes(NodeNamed(g, x)) = {}}
  IN IF T = S THEN S ELSE OnlyShape(g, T)
Feeding(g) == Ancestors(g, {p.n : p \in UNION {ProducersOf(g, t) : t \in UNION {ShapeUses(nd) : nd \in Nodes(g)}}})
MayDrop(g) == OnlyShape(g, Feeding(g))
(* the chain from the shape operand back to where the shape is read off *)
RECURSIVE Back(_, _)
Back(g, S) ==
  LET T == S \cup UNION {Preds(g, x) : x \in {y \in S : NodeNamed(g, y).op # "Shape"}}
  IN IF T = S THEN S ELSE Back(g, T)
ShapeChain(g) == Back(g, {p.n : p \in UNION {ProducersOf(g, t) : t \in UNION {ShapeUses(nd) : nd \in Nodes(g)}}})
MustDrop(g) == OnlyShape(g, ShapeChain(g))
ComputeResult(g) == Without(g, MustDrop(g))
(* the term of a tensor where shape operands count by name only *)
RECURSIVE DTerm(_, _)
DTerm(g, t) ==
  IF t = "" THEN <<"none">>
  ELSE IF ProducersOf(g, t) = {} THEN Term(g, t)
  ELSE LET p == CHOOSE nd \in Nodes(g) : t \in Makes(nd)
       IN <<"op", p.op, FirstPos(p.o, t), [k \in 1..Len(p.i) |->
             IF k \in ShapePos(p) THEN <<"shape", p.i[k]>> ELSE DTerm(g, p.i[k])]>>
DMeaning(g) == [k \in 1..Len(g.out) |-> DTerm(g, g.out[k])]
(* p: the extracted graph as observed, tm: names of the tensors with an entry, dyn: listed activations *)
ComputeWhy(g, p, tm, dyn) ==
  LET kept == NodeNames(p)  gone == NodeNames(g) \ kept
  IN Clause("a node that is no shape work is gone", gone \subseteq MayDrop(g)) \cup
     Clause("shape work is still there", MustDrop(g) \subseteq gone) \cup
     NodesKept(g, p, NodeNames(g) \cap kept) \cup
     Clause("order of the kept nodes changed", NodeSeqNames(p) = SelectSeq(NodeSeqNames(g), LAMBDA x : x \in kept)) \cup
     SameInterface(g, p) \cup
     (IF ~(kept \subseteq NodeNames(g)) THEN {} ELSE
      Clause("data input of a kept node has no source", \A nd \in Nodes(p) : \A t \in DataUses(nd) :
                ProducersOf(g, t) # {} => ProducersOf(p, t) # {}) \cup
      Clause("graph output computes something else", Len(p.out) = Len(g.out) => DMeaning(p) = DMeaning(g))) \cup
     Clause("tensor entry lost", Produced(p) \cup Consumed(p) \subseteq tm) \cup
     Clause("activation not listed as dynamic", Produced(p) \cup Rng(p.inp) \subseteq dyn)
=============================================================================
