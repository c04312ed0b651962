------------------------------ MODULE GraphOps ------------------------------
(* Graph surgery: the state machine of one loaded graph under the public calls
   reorder, skip_node, remove_node, remove_dangling_nodes, fuse_*, get_subgraph.

   For every call there is
     XResult(g, args)       the state the call must lead to (one representative)
     XWhy(g, args, obs)     the set of clauses the observed post-state breaks
   The model (MC_GraphOps) runs XResult and checks the properties over all
   histories; the trace specification (T_Graph) holds the implementation to
   XWhy after every single call.                                             *)
EXTENDS Dag

Clause(name, ok) == IF ok THEN {} ELSE {name}
Tagged(tag, S) == {tag \o x : x \in S}

(* ---------------------------------------------------------------- common *)
WithRel(g, o) == Clause("producers relation wrong", ProdOK(o, o.prod)) \cup
                 Clause("consumers relation wrong", ConsOK(o, o.cons))
SameInterface(g, o) == Clause("graph inputs changed", Rng(o.inp) = Rng(g.inp)) \cup
                       Clause("graph outputs changed", o.out = g.out)
NodesKept(g, o, S) ==   \* exactly the nodes named in S remain, unchanged
   LET want == {nd \in Nodes(g) : nd.n \in S}
   IN Clause("nodes lost", {nd.n : nd \in want} \subseteq NodeNames(o)) \cup
      Clause("nodes left over", NodeNames(o) \subseteq S) \cup
      Clause("remaining node altered", \A nd \in Nodes(o) : nd.n \in S => nd \in want)
OrderKept(g, o) == Clause("order no longer topological", Topological(g) => Topological(o))
MeaningKept(g, o) == Clause("graph output computes something else",
                         Len(o.out) = Len(g.out) => Meaning(o) = Meaning(g))

(* --------------------------------------------------------------- reorder *)
RECURSIVE TopoFrom(_, _, _)
TopoFrom(g, done, acc) ==
  LET ready == {k \in 1..Len(g.nodes) : k \notin done /\
                   \A m \in 1..Len(g.nodes) : Makes(g.nodes[m]) \cap Uses(g.nodes[k]) # {} => m \in done}
  IN IF ready = {} THEN acc
     ELSE LET k == CHOOSE x \in ready : \A y \in ready : x <= y
          IN TopoFrom(g, done \cup {k}, Append(acc, g.nodes[k]))
ReorderResult(g) == [g EXCEPT !.nodes = TopoFrom(g, {}, <<>>)]
ReorderWhy(g, o) ==
  Clause("not a permutation of the nodes", SameBag(g.nodes, o.nodes)) \cup
  Clause("a node precedes a producer of its input", Topological(o)) \cup
  SameInterface(g, o) \cup Clause("weights changed", o.ini = g.ini) \cup MeaningKept(g, o) \cup WithRel(g, o) \cup
  Clause("use counts wrong", ConsExact(o, o.cons))

(* ------------------------------------------------------------ remove_node *)
Without(g, S) == [g EXCEPT !.nodes = SelectSeq(g.nodes, LAMBDA nd : nd.n \notin S)]
OutWithout(g, S) == SelectSeq(g.out, LAMBDA t : {nd.n : nd \in ProducersOf(g, t)} \cap S = {})
RemoveResult(g, x) == [Without(g, {x}) EXCEPT !.out = OutWithout(g, {x})]
RemoveWhy(g, x, o) ==
  NodesKept(g, o, NodeNames(g) \ {x}) \cup
  Clause("graph inputs changed", Rng(o.inp) = Rng(g.inp)) \cup
  Clause("graph outputs changed", o.out = OutWithout(g, {x})) \cup OrderKept(g, o) \cup WithRel(g, o)
(* ------------------------------------------------------------- skip_node *)
Dyn(g, nd) == {t \in Uses(nd) : t \notin g.ini}
CanSkip(g, x) == LET nd == NodeNamed(g, x) IN
   /\ Cardinality(Dyn(g, nd)) = 1 /\ Len(nd.o) = 1 /\ Rng(CapSeq(nd)) \subseteq g.ini
   /\ \A t \in Dyn(g, nd) : Count(nd.i, t) = 1 /\ (ProducersOf(g, t) # {} \/ IsIn(t, g.inp))
Src(g, x) == CHOOSE t \in Dyn(g, NodeNamed(g, x)) : TRUE
Dst(g, x) == NodeNamed(g, x).o[1]
(* the output keeps its name only if the node before can take it over *)
SkipImpossible(g, x) == IsIn(Dst(g, x), g.out) /\ (ProducersOf(g, Src(g, x)) = {} \/ IsIn(Src(g, x), g.out))
Ren(s, a, b) == [k \in 1..Len(s) |-> IF s[k] = a THEN b ELSE s[k]]
RECURSIVE Once(_)
Once(s) == IF s = <<>> THEN <<>> ELSE <<Head(s)>> \o Once(SelectSeq(Tail(s), LAMBDA t : t # Head(s)))
RenNode(nd, a, b) == [nd EXCEPT !.i = Ren(nd.i, a, b), !.o = Ren(nd.o, a, b), !.c = Once(Ren(nd.c, a, b))]
SkipResult(g, x) ==
  IF SkipImpossible(g, x) THEN g
  ELSE LET s == Src(g, x)  d == Dst(g, x)  h == Without(g, {x})
       IN IF IsIn(d, g.out)
          THEN [h EXCEPT !.nodes = [k \in 1..Len(h.nodes) |-> RenNode(h.nodes[k], s, d)]]
          ELSE [h EXCEPT !.nodes = [k \in 1..Len(h.nodes) |-> RenNode(h.nodes[k], d, s)]]
(* term of t in g with node x erased *)
RECURSIVE TermSkip(_, _, _)
TermSkip(g, t, x) ==
  IF t = "" THEN <<"none">>
  ELSE IF ProducersOf(g, t) = {} THEN Term(g, t)
  ELSE LET p == CHOOSE nd \in Nodes(g) : t \in Makes(nd)
       IN IF p.n = x THEN TermSkip(g, Src(g, x), x)
          ELSE <<"op", p.op, FirstPos(p.o, t), [k \in 1..Len(p.i) |-> TermSkip(g, p.i[k], x)],
                                                      {TermSkip(g, u, x) : u \in Rng(CapSeq(p))}>>
UsesFree(g, x) == \E t \in Uses(NodeNamed(g, x)) : ProducersOf(g, t) = {} /\ ~IsIn(t, g.inp) /\ t \notin g.ini
SkipWhy(g, x, o) ==
  IF UsesFree(g, x) THEN WithRel(g, o)   \* what computed its operand was removed before: nothing to bridge
  ELSE IF ~CanSkip(g, x)   \* not a pass-through node: it is removed, or the call leaves the graph alone
  THEN IF RemoveWhy(g, x, o) = {} THEN {}
       ELSE Tagged("not skippable: ", NodesKept(g, o, NodeNames(g)) \cup SameInterface(g, o) \cup WithRel(g, o))
  ELSE IF SkipImpossible(g, x)
  THEN NodesKept(g, o, NodeNames(g)) \cup SameInterface(g, o) \cup WithRel(g, o)
  ELSE
  Clause("skipped node still there", x \notin NodeNames(o)) \cup
  Clause("nodes lost", NodeNames(g) \ {x} \subseteq NodeNames(o)) \cup
  Clause("nodes left over", NodeNames(o) \subseteq NodeNames(g)) \cup
  SameInterface(g, o) \cup
  (IF NodeNames(o) # NodeNames(g) \ {x} THEN {} ELSE
   Clause("graph output computes something else", Len(o.out) = Len(g.out) =>
      \A k \in 1..Len(g.out) : Term(o, o.out[k]) = TermSkip(g, g.out[k], x)) \cup
   Clause("remaining node altered", \A nd \in Nodes(g) : nd.n = x \/
      LET nn == NodeNamed(o, nd.n) IN
        /\ nn.op = nd.op /\ Len(nn.i) = Len(nd.i) /\ Len(nn.o) = Len(nd.o)
        /\ \A k \in 1..Len(nd.i) : Term(o, nn.i[k]) = TermSkip(g, nd.i[k], x)
        /\ {Term(o, t) : t \in Rng(CapSeq(nn))} = {TermSkip(g, t, x) : t \in Rng(CapSeq(nd))})) \cup
  OrderKept(g, o) \cup WithRel(g, o)

(* -------------------------------------------------- remove_dangling_nodes *)
Live(g) == Ancestors(g, {nd.n : nd \in UNION {ProducersOf(g, t) : t \in Rng(g.out)}})
DangleResult(g) == Without(g, NodeNames(g) \ Live(g))
DangleWhy(g, o) == NodesKept(g, o, Live(g)) \cup SameInterface(g, o) \cup MeaningKept(g, o) \cup
                   OrderKept(g, o) \cup WithRel(g, o)

(* recursively: producers all of whose outputs were needed by removed nodes only *)
RECURSIVE Orphans(_, _)
Orphans(g, S) ==
  LET new == {nd.n : nd \in {p \in Nodes(g) :
                 /\ p.n \notin S
                 /\ \E t \in Makes(p) : \E c \in ConsumersOf(g, t) : c.n \in S
                 /\ \A t \in Makes(p) : ~IsIn(t, g.out) /\ \A c \in ConsumersOf(g, t) : c.n \in S}}
  IN IF new = {} THEN S ELSE Orphans(g, S \cup new)
RemoveRecResult(g, x) == LET S == Orphans(g, {x}) IN [Without(g, S) EXCEPT !.out = OutWithout(g, {x})]
RemoveRecWhy(g, x, o) ==
  NodesKept(g, o, NodeNames(g) \ Orphans(g, {x})) \cup
  Clause("graph inputs changed", Rng(o.inp) = Rng(g.inp)) \cup
  Clause("graph outputs changed", o.out = OutWithout(g, {x})) \cup OrderKept(g, o) \cup WithRel(g, o)
(* remove_subtree: the node and everything depending on it *)
SubtreeResult(g, x) == LET S == Descendants(g, {x}) IN [Without(g, S) EXCEPT !.out = OutWithout(g, S)]
SubtreeWhy(g, x, o) ==
  LET S == Descendants(g, {x}) IN
  NodesKept(g, o, NodeNames(g) \ S) \cup
  Clause("graph inputs changed", Rng(o.inp) = Rng(g.inp)) \cup
  Clause("graph outputs changed", o.out = OutWithout(g, S)) \cup OrderKept(g, o) \cup WithRel(g, o)

(* ------------------------------------------------------------------ fuse *)
SetUses(g, S) == UNION {Uses(nd) : nd \in {m \in Nodes(g) : m.n \in S}}
SetMakes(g, S) == UNION {Makes(nd) : nd \in {m \in Nodes(g) : m.n \in S}}
ExtIn(g, S) == SetUses(g, S) \ SetMakes(g, S)
UsedOutside(g, S, t) == IsIn(t, g.out) \/ \E nd \in Nodes(g) : nd.n \notin S /\ t \in Uses(nd)
ExtOut(g, S) == {t \in SetMakes(g, S) : UsedOutside(g, S, t)}
Unused(g, S) == {t \in SetMakes(g, S) : ~IsIn(t, g.out) /\ ConsumersOf(g, t) = {}}
Convex(g, S) == \A x \in Descendants(g, S) \ S : Ancestors(g, {x}) \cap S = {} \/
                   \A y \in S : y \notin Descendants(g, {x})
RECURSIVE SetToSeq0(_)
SetToSeq0(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq0(S \ {x})
FuseResult(g, S, op, name) ==
  [Without(g, S) EXCEPT !.nodes = Append(@, [n |-> name, op |-> op, i |-> SetToSeq0(ExtIn(g, S)), o |-> SetToSeq0(ExtOut(g, S)), c |-> <<>>])]
FuseWhy(g, S, op, name, o) ==
  Clause("fused nodes still there", (S \ {name}) \cap NodeNames(o) = {}) \cup
  Clause("other node lost", NodeNames(g) \ S \subseteq NodeNames(o)) \cup
  Clause("nodes left over", NodeNames(o) \subseteq (NodeNames(g) \ S) \cup {name}) \cup
  Clause("other node altered", \A nd \in Nodes(o) : nd.n = name \/ nd \in Nodes(g)) \cup
  (IF name \notin NodeNames(o) THEN {"fused node missing"} ELSE
   LET f == NodeNamed(o, name) IN
     Clause("fused node operator", f.op = op) \cup
     Clause("fused node inputs", Uses(f) = ExtIn(g, S) /\ NoDup(f.i)) \cup
     Clause("fused node outputs", ExtOut(g, S) \subseteq Makes(f) /\ Makes(f) \subseteq ExtOut(g, S) \cup Unused(g, S) /\ NoDup(f.o))) \cup
  SameInterface(g, o) \cup WithRel(g, o)
(* meaning of the fused graph: unfolding the fused node gives the old graph back *)
Unfold(g, o, S, name) == [o EXCEPT !.nodes = SelectSeq(o.nodes, LAMBDA nd : nd.n # name) \o SelectSeq(g.nodes, LAMBDA nd : nd.n \in S)]

(* ------------------------------------------------- extraction of sub-graphs *)
(* nodes depending on out tensors; nodes depending on in tensors otherwise; rest *)
ConsumersOfAll(g, T) == {nd.n : nd \in UNION {ConsumersOf(g, t) : t \in T}}
Level2(g, ins, outs) == Descendants(g, ConsumersOfAll(g, outs))
Level1(g, ins, outs) == Descendants(g, ConsumersOfAll(g, ins)) \ Level2(g, ins, outs)
Level0(g, ins, outs) == NodeNames(g) \ (Level1(g, ins, outs) \cup Level2(g, ins, outs))
(* p: the observed part, g: the whole, S: the nodes it must hold *)
PartWhy(g, S, p) ==
  NodesKept(g, p, S) \cup
  (IF NodeNames(p) # S THEN {} ELSE
   Clause("part inputs", Rng(p.inp) = ExtIn(g, S) \ g.ini /\ NoDup(p.inp)) \cup
   Clause("part outputs", ExtOut(g, S) \subseteq Rng(p.out) /\ Rng(p.out) \subseteq ExtOut(g, S) \cup Unused(g, S) /\ NoDup(p.out)) \cup
   Clause("part weights", p.ini = SetUses(g, S) \cap g.ini) \cup
   Clause("part not in topological order", Topological(p)))
=============================================================================
