----------------------------- MODULE MC_Pattern -----------------------------
(* All small graphs: every node set matches the pattern it makes, chains match
   exactly the paths, and in-place matches are matches.                       *)
EXTENDS Pattern
CONSTANTS MaxNodes
VARIABLES g, phase
Sig == [Relu |-> 1, Add |-> 2]
Avail == {"x"} \cup Produced(g)
Init == g = [nodes |-> <<>>, inp |-> <<"x">>, out |-> <<>>, ini |-> {}] /\ phase = "build"
Build == /\ phase = "build" /\ Len(g.nodes) < MaxNodes
         /\ \E kind \in {"Relu", "Add"} : \E s \in [1..Sig[kind] -> Avail] :
              g' = [g EXCEPT !.nodes = Append(@, [n |-> "n" \o ToString(Len(@)), op |-> kind, i |-> s, o |-> <<"t" \o ToString(Len(@))>>, a |-> <<>>])]
         /\ UNCHANGED phase
Outputs == /\ phase = "build" /\ g.nodes # <<>>
           /\ \E t \in Produced(g) : g' = [g EXCEPT !.out = <<t>>]
           /\ phase' = "done"
Next == Build \/ Outputs
Spec == Init /\ [][Next]_<<g, phase>>
SelfMatch == phase = "done" => \A S \in SUBSET NodeNames(g) :
   LET xs == SetToSeq0(S) IN S # {} =>
     /\ DescsWhy(g, xs, [InnerPattern(g, xs) EXCEPT !.descs = [k \in 1..Len(xs) |-> [InnerPattern(g, xs).descs[k] EXCEPT !.ins =
           LET E == SetToSeq0({e \in InnerEdges(g, xs) : e[3] = xs[k]}) IN [j \in 1..Len(E) |-> [at |-> E[j][4], of |-> E[j][1], from |-> E[j][2]]]]]]) = {}
     /\ IsMatch(g, InnerPattern(g, xs), xs)
Paths == phase = "done" => \A a, b \in {"Relu", "Add"} :
   Starts(g, Chain(<<a, b>>)) = {x \in NodeNames(g) : NodeNamed(g, x).op = a /\ \E y \in Succs(g, x) : NodeNamed(g, y).op = b}
InplaceNarrower == phase = "done" => \A a, b \in {"Relu", "Add"} :
   Starts(g, [Chain(<<a, b>>) EXCEPT !.inplace = TRUE]) \subseteq Starts(g, Chain(<<a, b>>))
InplaceSafe == phase = "done" => \A x, y \in NodeNames(g) : \A a, b \in {"Relu", "Add"} :
   IsMatch(g, [Chain(<<a, b>>) EXCEPT !.inplace = TRUE], <<x, y>>) =>
      \A t \in Makes(NodeNamed(g, x)) : ~IsIn(t, g.out) /\ \A nd \in ConsumersOf(g, t) : nd.n = y
=============================================================================
