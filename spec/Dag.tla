-------------------------------- MODULE Dag --------------------------------
(* Abstract state of a model graph, shared by all graph specifications.

   g = [nodes |-> sequence of [n, op, i, o, c],   \* name, operator, inputs, outputs, captured tensors
        inp   |-> sequence of tensor names,       \* graph inputs
        out   |-> sequence of tensor names,       \* graph outputs
        ini   |-> set of tensor names]            \* weights (initializers)

   The empty name "" is an omitted optional input.                           *)
EXTENDS Integers, Sequences, FiniteSets

Rng(s) == {s[k] : k \in 1..Len(s)}
IsIn(x, s) == \E k \in 1..Len(s) : s[k] = x
NoDup(s) == \A a, b \in 1..Len(s) : s[a] = s[b] => a = b
SelSeq(s, P(_)) == SelectSeq(s, P)
FirstPos(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x /\ \A j \in 1..(k-1) : s[j] # x
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A x \in Rng(s) \cup Rng(t) : Count(s, x) = Count(t, x)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

Nodes(g) == Rng(g.nodes)
NodeNames(g) == {nd.n : nd \in Nodes(g)}
NodeSeqNames(g) == [k \in 1..Len(g.nodes) |-> g.nodes[k].n]
(* what graphs nested in a node (branches, loop bodies) take from outside *)
CapSeq(nd) == IF "c" \in DOMAIN nd THEN nd.c ELSE <<>>
Uses(nd) == (Rng(nd.i) \cup Rng(CapSeq(nd))) \ {""}
Makes(nd) == Rng(nd.o) \ {""}
Produced(g) == UNION {Makes(nd) : nd \in Nodes(g)}
Consumed(g) == UNION {Uses(nd) : nd \in Nodes(g)}
ProducersOf(g, t) == {nd \in Nodes(g) : t \in Makes(nd)}
ConsumersOf(g, t) == {nd \in Nodes(g) : t \in Uses(nd)}
NodeNamed(g, x) == CHOOSE nd \in Nodes(g) : nd.n = x

(* every node after the nodes producing what it uses *)
Topological(g) ==
  \A k \in 1..Len(g.nodes) : \A t \in Uses(g.nodes[k]) :
     \A m \in 1..Len(g.nodes) : t \in Makes(g.nodes[m]) => m < k

SSA(g) == /\ NoDup(NodeSeqNames(g))
          /\ \A a, b \in 1..Len(g.nodes) : a # b => Makes(g.nodes[a]) \cap Makes(g.nodes[b]) = {}
Closed(g) == /\ Consumed(g) \subseteq Produced(g) \cup Rng(g.inp) \cup g.ini
             /\ Rng(g.out) \subseteq Produced(g) \cup Rng(g.inp) \cup g.ini

(* backward / forward reachability over node names *)
Preds(g, x) == {p.n : p \in UNION {ProducersOf(g, t) : t \in Uses(NodeNamed(g, x))}}
Succs(g, x) == {p.n : p \in UNION {ConsumersOf(g, t) : t \in Makes(NodeNamed(g, x))}}
RECURSIVE Grow(_, _, _)
Grow(g, S, fwd) ==
  LET T == S \cup UNION {IF fwd THEN Succs(g, x) ELSE Preds(g, x) : x \in S}
  IN IF T = S THEN S ELSE Grow(g, T, fwd)
Ancestors(g, S) == Grow(g, S, FALSE)      \* includes S
Descendants(g, S) == Grow(g, S, TRUE)
Acyclic(g) == \A x \in NodeNames(g) : x \notin Grow(g, Preds(g, x), FALSE)

(* What a tensor means: the term that computes it (Herbrand interpretation).
   Two graphs compute the same function under every interpretation of the
   operators iff their outputs have the same terms.                          *)
RECURSIVE Term(_, _)
Term(g, t) ==
  IF t = "" THEN <<"none">>
  ELSE IF ProducersOf(g, t) = {}
       THEN IF t \in g.ini THEN <<"weight", t>>
            ELSE IF IsIn(t, g.inp) THEN <<"input", t>> ELSE <<"free", t>>
       ELSE LET p == CHOOSE nd \in Nodes(g) : t \in Makes(nd)
            IN <<"op", p.op, FirstPos(p.o, t), [k \in 1..Len(p.i) |-> Term(g, p.i[k])], {Term(g, u) : u \in Rng(CapSeq(p))}>>
Meaning(g) == [k \in 1..Len(g.out) |-> Term(g, g.out[k])]

(* producer / consumer relations as the implementation exposes them:
   sequences of [t |-> tensor, n |-> sequence of node names]                 *)
RelFun(rel, t) == Concat([k \in 1..Len(rel) |-> IF rel[k].t = t THEN rel[k].n ELSE <<>>])
RelDom(rel) == {rel[k].t : k \in 1..Len(rel)}
ConsExpected(g, t) == Concat([k \in 1..Len(g.nodes) |->
                         [j \in 1..(Count(g.nodes[k].i, t) + Count(CapSeq(g.nodes[k]), t)) |-> g.nodes[k].n]])
(* the relation names exactly the nodes using / making each tensor, as sets:
   multiplicities are judged where a specification asks for them             *)
ProdOK(g, rel) == \A t \in (Produced(g) \cup RelDom(rel)) \ {""} :
                    Rng(RelFun(rel, t)) = {nd.n : nd \in ProducersOf(g, t)}
ConsOK(g, rel) == \A t \in (Consumed(g) \cup RelDom(rel)) \ {""} :
                    Rng(RelFun(rel, t)) = {nd.n : nd \in ConsumersOf(g, t)}
ConsExact(g, rel) == \A t \in (Consumed(g) \cup RelDom(rel)) \ {""} :
                    SameBag(RelFun(rel, t), ConsExpected(g, t))
=============================================================================
