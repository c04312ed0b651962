---------------------------- MODULE MC_GraphOps ----------------------------
(* Exhaustive exploration of histories of graph surgery on all small graphs.  *)
EXTENDS GraphGen
CONSTANTS MaxOps, Acts, Shuffle
VARIABLES g, g0, phase, k, last
vars == <<g, g0, phase, k, last>>

Orders(n) == IF Shuffle THEN {p \in [1..n -> 1..n] : NoDup(p)} ELSE {[j \in 1..n |-> j]}
Init == g = EmptyGraph /\ g0 = EmptyGraph /\ phase = "build" /\ k = 0 /\ last = {}
Build == /\ phase = "build" /\ Len(g.nodes) < MaxNodes
         /\ \E kind \in Kinds : \E ins \in InputChoices(g, kind) :
              g' = [g EXCEPT !.nodes = Append(@, NewNode(g, kind, ins))]
         /\ UNCHANGED <<g0, phase, k, last>>
Outputs == /\ phase = "build" /\ Len(g.nodes) >= 1
           /\ \E T \in SUBSET Produced(g) :
                /\ T # {} /\ Cardinality(T) <= 2
                /\ \E p \in Orders(Len(g.nodes)) :
                     g' = [g EXCEPT !.out = SetToSeq0(T), !.nodes = [j \in 1..Len(g.nodes) |-> g.nodes[p[j]]]]
           /\ g0' = g' /\ phase' = "run" /\ UNCHANGED <<k, last>>
Step(r, why) == g' = r /\ last' = why /\ k' = k + 1 /\ UNCHANGED <<g0, phase>>
Rel(h) == [h EXCEPT !.nodes = h.nodes] @@ [prod |-> [j \in 1..Len(SetToSeq0(Produced(h))) |->
              [t |-> SetToSeq0(Produced(h))[j], n |-> SetToSeq0({nd.n : nd \in ProducersOf(h, SetToSeq0(Produced(h))[j])})]],
           cons |-> [j \in 1..Len(SetToSeq0(Consumed(h))) |->
              [t |-> SetToSeq0(Consumed(h))[j], n |-> ConsExpected(h, SetToSeq0(Consumed(h))[j])]]]
Skip == /\ "Skip" \in Acts /\ phase = "run" /\ k < MaxOps
        /\ \E x \in NodeNames(g) : CanSkip(g, x) /\ Step(SkipResult(g, x), SkipWhy(g, x, Rel(SkipResult(g, x))))
Dangle == /\ "Dangle" \in Acts /\ phase = "run" /\ k < MaxOps
          /\ Step(DangleResult(g), DangleWhy(g, Rel(DangleResult(g))))
Remove == /\ "Remove" \in Acts /\ phase = "run" /\ k < MaxOps
          /\ \E x \in NodeNames(g) \ Live(g) : Step(RemoveResult(g, x), RemoveWhy(g, x, Rel(RemoveResult(g, x))))
RemoveRec == /\ "RemoveRec" \in Acts /\ phase = "run" /\ k < MaxOps
          /\ \E x \in NodeNames(g) \ Live(g) : Step(RemoveRecResult(g, x), RemoveRecWhy(g, x, Rel(RemoveRecResult(g, x))))
Sort == /\ "Sort" \in Acts /\ phase = "run" /\ k < MaxOps
        /\ Step(ReorderResult(g), ReorderWhy(g, Rel(ReorderResult(g))))
Fuse == /\ "Fuse" \in Acts /\ phase = "run" /\ k < MaxOps
        /\ \E S \in SUBSET NodeNames(g) :
             /\ Cardinality(S) >= 2 /\ Convex(g, S) /\ ExtOut(g, S) # {} /\ "f" \notin NodeNames(g)
             /\ Step(FuseResult(g, S, "Fused", "f"),
                     FuseWhy(g, S, "Fused", "f", Rel(FuseResult(g, S, "Fused", "f"))) \cup
                     Clause("unfolding differs", Meaning(Unfold(g, FuseResult(g, S, "Fused", "f"), S, "f")) = Meaning(g)))
Next == Build \/ Outputs \/ Skip \/ Dangle \/ Remove \/ RemoveRec \/ Sort \/ Fuse
Spec == Init /\ [][Next]_vars

(* the designed results satisfy the clauses the implementation is held to *)
ResultsConform == last = {}
WellFormed == SSA(g) /\ Acyclic(g) /\ (phase = "run" => Rng(g.out) \subseteq Produced(g) \cup Rng(g.inp))
(* no surgery ever makes a graph output disappear (only dangling nodes are removed here) *)
InterfaceKept == phase = "run" => g.out = g0.out
SplitIsPartition == phase = "run" => \A t \in Produced(g) : \A u \in Produced(g) :
     LET a == Level0(g, {t}, {u}) b == Level1(g, {t}, {u}) c == Level2(g, {t}, {u})
     IN a \cap b = {} /\ b \cap c = {} /\ a \cap c = {} /\ a \cup b \cup c = NodeNames(g)
(* extracted parts fit together: what a part takes is given, constant or made by another part *)
PartsFit == phase = "run" /\ Closed(g) => \A t \in Produced(g) :
     LET S == Level2(g, {}, {t}) R == NodeNames(g) \ S
     IN /\ ExtIn(g, S) \subseteq g.ini \cup Rng(g.inp) \cup ExtOut(g, R)
        /\ ExtIn(g, R) \cap SetMakes(g, S) = {}
View == <<g, phase, k, last>>
=============================================================================
