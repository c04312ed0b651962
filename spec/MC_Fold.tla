------------------------------- MODULE MC_Fold -------------------------------
(* Design check of constant folding: a worklist search marks the nodes whose
   operands are all constant, folding replaces them by their values.  On all
   small graphs, stored in any order, the folded graph means the same.       *)
EXTENDS Dag, TLC
CONSTANTS MaxNodes
VARIABLES g, h, known, work, vals, phase
vars == <<g, h, known, work, vals, phase>>
Sig == [A |-> 1, B |-> 2, C |-> 0, D |-> 1]           \* D is never folded (dequantization)
Avail == {"x", "w"} \cup Produced(g)
Init == g = [nodes |-> <<>>, inp |-> <<"x">>, out |-> <<>>, ini |-> {"w"}] /\ h = g /\ known = {} /\ work = {} /\ vals = <<>> /\ phase = "build"
Build == /\ phase = "build" /\ Len(g.nodes) < MaxNodes
         /\ \E kind \in DOMAIN Sig : \E s \in [1..Sig[kind] -> Avail] :
              g' = [g EXCEPT !.nodes = Append(@, [n |-> "n" \o ToString(Len(@)), op |-> kind, i |-> s, o |-> <<"t" \o ToString(Len(@))>>])]
         /\ UNCHANGED <<h, known, work, vals, phase>>
Outputs == /\ phase = "build" /\ g.nodes # <<>>
           /\ \E S \in SUBSET Produced(g) : S # {} /\ Cardinality(S) <= 2 /\ \E q \in [1..Cardinality(S) -> S] : {q[k] : k \in 1..Cardinality(S)} = S /\
              \E flip \in BOOLEAN :
                 g' = [g EXCEPT !.out = q, !.nodes = IF flip THEN [k \in 1..Len(@) |-> @[Len(@) + 1 - k]] ELSE @]
           /\ phase' = "search" /\ known' = {"w"} /\ work' = {} /\ UNCHANGED <<h, vals>>
Foldable(nd) == nd.op # "D" /\ Uses(nd) \subseteq known /\ nd.n \notin work
Search == phase = "search" /\ \E nd \in Nodes(g) : Foldable(nd) /\ work' = work \cup {nd.n} /\ known' = known \cup Makes(nd) /\ UNCHANGED <<g, h, vals, phase>>
Fold == /\ phase = "search" /\ ~\E nd \in Nodes(g) : Foldable(nd)
        /\ LET gone == {nd \in Nodes(g) : nd.n \in work}
               need == (UNION {Uses(nd) : nd \in Nodes(g) \ gone} \cup Rng(g.out)) \cap UNION {Makes(nd) : nd \in gone}
           IN h' = [g EXCEPT !.nodes = SelectSeq(@, LAMBDA nd : nd.n \notin work), !.ini = @ \cup need]
              /\ vals' = [t \in need |-> Term(g, t)]
        /\ phase' = "done" /\ UNCHANGED <<g, known, work>>
Next == Build \/ Outputs \/ Search \/ Fold
Spec == Init /\ [][Next]_vars
RECURSIVE Mean(_)
Mean(t) == IF ProducersOf(h, t) = {} THEN IF t \in DOMAIN vals THEN vals[t] ELSE Term(h, t)
           ELSE LET p == CHOOSE nd \in Nodes(h) : t \in Makes(nd) IN <<"op", p.op, FirstPos(p.o, t), [k \in 1..Len(p.i) |-> Mean(p.i[k])], {}>>
RECURSIVE Constant(_)                       \* a term without input and without D
Constant(t) == CASE t[1] = "weight" -> TRUE [] t[1] = "op" -> t[2] # "D" /\ \A k \in 1..Len(t[4]) : Constant(t[4][k]) [] OTHER -> FALSE
SameMeaning == phase = "done" => [k \in 1..Len(h.out) |-> Mean(h.out[k])] = Meaning(g)
OnlyConstant == \A x \in work : \A t \in Makes(NodeNamed(g, x)) : Constant(Term(g, t))
Complete == phase = "done" => \A nd \in Nodes(h) : \E t \in Makes(nd) : ~Constant(Term(g, t))
Sourced == phase = "done" => Closed(h)
=============================================================================
