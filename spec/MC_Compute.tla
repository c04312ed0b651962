----------------------------- MODULE MC_Compute -----------------------------
(* All small graphs over data and shape operators: dropping exactly MustDrop
   satisfies every clause, and so does anything between MustDrop and MayDrop
   that is closed.                                                            *)
EXTENDS ComputeGraph, TLC
CONSTANTS MaxNodes
VARIABLES g, phase
vars == <<g, phase>>
Sig == [Relu |-> 1, Add |-> 2, Shape |-> 1, Reshape |-> 2, Range |-> 3]
Avail == {"x", "w"} \cup Produced(g)
Ins(kind) == {s \in [1..Sig[kind] -> Avail] : kind = "Range" => s[2] = s[1] /\ s[3] = s[1]}
Init == g = [nodes |-> <<>>, inp |-> <<"x">>, out |-> <<>>, ini |-> {"w"}] /\ phase = "build"
Build == /\ phase = "build" /\ Len(g.nodes) < MaxNodes
         /\ \E kind \in {"Relu", "Add", "Shape", "Reshape", "Range"} : \E s \in Ins(kind) :
              g' = [g EXCEPT !.nodes = Append(@, [n |-> "n" \o ToString(Len(@)), op |-> kind, i |-> s, o |-> <<"t" \o ToString(Len(@))>>])]
         /\ UNCHANGED phase
Outputs == /\ phase = "build" /\ g.nodes # <<>>
           /\ \E t \in Produced(g) : \E u \in Produced(g) : g' = [g EXCEPT !.out = IF t = u THEN <<t>> ELSE <<t, u>>]
           /\ phase' = "done"
Next == Build \/ Outputs
Spec == Init /\ [][Next]_vars
All(h) == Produced(h) \cup Consumed(h) \cup Rng(h.inp)
Conforms == phase = "done" => ComputeWhy(g, ComputeResult(g), All(g), All(g)) = {}
Ordered == MustDrop(g) \subseteq MayDrop(g)
NoOutputLost == phase = "done" => \A t \in Rng(g.out) : ProducersOf(ComputeResult(g), t) # {}
(* pure data graphs are left alone *)
DataKept == (\A nd \in Nodes(g) : nd.op \in {"Relu", "Add"}) => MayDrop(g) = {}
=============================================================================
