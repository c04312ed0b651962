---------------------------- MODULE Gen_GraphOps ----------------------------
(* Random behaviours of GraphOps (TLC -simulate): a graph and a history of calls,
   printed as JSON for replay on the implementation.                          *)
EXTENDS GraphGen, Json, Randomization
CONSTANTS MinNodes, MaxOps, Acts, Shuffle
VARIABLES g, g0, hist, phase, n, f
vars == <<g, g0, hist, phase, n, f>>
Pick(S) == RandomElement(S)
Init == /\ g = EmptyGraph /\ g0 = EmptyGraph /\ hist = <<>> /\ phase = "start" /\ n = 0 /\ f = 0
Start == phase = "start" /\ n' = Pick(MinNodes..MaxNodes) /\ phase' = "build" /\ UNCHANGED <<g, g0, hist, f>>
Build == /\ phase = "build" /\ Len(g.nodes) < n
         /\ \E kind \in {Pick(Kinds)} :
              \E ins \in RandomSubset(1, InputChoices(g, kind)) :
                 g' = [g EXCEPT !.nodes = Append(@, NewNode(g, kind, ins))]
         /\ UNCHANGED <<g0, hist, phase, n, f>>
(* outputs: mostly the sinks, sometimes inner tensors too *)
OutChoices == {T \in SUBSET Produced(g) : T # {} /\ Cardinality(T) <= 3}
Outputs == /\ phase = "build" /\ Len(g.nodes) = n
           /\ \E T \in {Pick(IF Pick(1..3) = 1 THEN OutChoices ELSE {Sinks(g)})} :
              \E p \in {Pick(IF Shuffle THEN {q \in [1..n -> 1..n] : NoDup(q)} ELSE {[j \in 1..n |-> j]})} :
                g' = [g EXCEPT !.out = SetToSeq0(T), !.nodes = [j \in 1..n |-> g.nodes[p[j]]]]
           /\ g0' = g' /\ phase' = "run" /\ UNCHANGED <<hist, n, f>>
Rec(op, a, b, r) == g' = r /\ hist' = Append(hist, [op |-> op, a |-> a, b |-> b])
Inner(h) == {x \in NodeNames(h) : TRUE}
RECURSIVE Connected(_, _, _)
Connected(h, S, T) == LET U == T \cup (S \cap UNION {Preds(h, x) \cup Succs(h, x) : x \in T})
                      IN IF U = T THEN T ELSE Connected(h, S, U)
Act(a) ==
  CASE a = "Skip" -> LET C == {x \in NodeNames(g) : CanSkip(g, x)}
                     IN IF C = {} \/ Pick(1..8) = 1
                        THEN \E x \in {Pick(NodeNames(g))} :
                             Rec("skip", <<x>>, <<>>, IF CanSkip(g, x) THEN SkipResult(g, x) ELSE RemoveResult(g, x))
                        ELSE \E x \in {Pick(C)} : Rec("skip", <<x>>, <<>>, SkipResult(g, x))
    [] a = "Dangle" -> Rec("dangle", <<>>, <<>>, DangleResult(g))
    [] a = "Remove" -> \E x \in {Pick(NodeNames(g))} : Rec("remove", <<x>>, <<>>, RemoveResult(g, x))
    [] a = "RemoveRec" -> \E x \in {Pick(NodeNames(g))} : Rec("remove_rec", <<x>>, <<>>, RemoveRecResult(g, x))
    [] a = "Subtree" -> \E x \in {Pick(NodeNames(g))} : Rec("subtree", <<x>>, <<>>, SubtreeResult(g, x))
    [] a = "Sort" -> Rec("reorder", <<>>, <<>>, ReorderResult(g))
    [] a = "Fuse" -> LET C == {S \in SUBSET NodeNames(g) : Cardinality(S) \in 2..4 /\ Convex(g, S) /\ ExtOut(g, S) # {}}
                     IN IF C = {} THEN UNCHANGED <<g, hist>>
                        ELSE \E S \in {Pick(C)} : LET nm == "f" \o Str(f) IN
                             Rec("fuse", SetToSeq0(S), <<nm>>, FuseResult(g, S, "Fused", nm))
    [] a = "PostFuse" -> LET C == {S \in SUBSET NodeNames(g) : Cardinality(S) \in 2..3 /\ Convex(g, S) /\ ExtOut(g, S) # {}}
                     IN IF C = {} THEN UNCHANGED <<g, hist>>
                        ELSE \E S \in {Pick(C)} :
                             \E x \in {Pick({y \in S : \A z \in S : z \in Descendants(g, {y})} \cup {Pick(S)})} :
                             Rec("postfuse", <<x>> \o SetToSeq0(S \ {x}), <<x>>, FuseResult(g, S, NodeNamed(g, x).op, x))
    [] a = "FuseIo" -> (* a connected piece, so that it is a pattern *)
         LET C == {q \in (Produced(g) \cup Rng(g.inp)) \X Produced(g) :
                     LET S == Level1(g, {q[1]}, {q[2]}) IN S # {} /\ \E x \in S : Connected(g, S, {x}) = S}
         IN IF C = {} THEN UNCHANGED <<g, hist>>
            ELSE \E q \in {Pick(C)} : Rec("fuseio", <<q[1]>>, <<q[2]>>, FuseResult(g, Level1(g, {q[1]}, {q[2]}), "Fused", "f" \o Str(f)))
    [] a = "Split" -> \E i \in {Pick(SUBSET (Produced(g) \cup Rng(g.inp)))} : \E o \in {Pick(SUBSET Produced(g))} :
                        Rec("split", SetToSeq0(i), SetToSeq0(o), g)
    [] a = "Extract" -> \E S \in {Pick(SUBSET NodeNames(g) \ {{}})} : Rec("extract", SetToSeq0(S), <<>>, g)
    [] a = "SaveLoad" -> Rec("saveload", <<>>, <<>>, g)
    [] a = "Relate" -> Rec("relate", <<>>, <<>>, g)
Call == /\ phase = "run" /\ Len(hist) < MaxOps /\ g.nodes # <<>>
        /\ \E a \in {Pick(Acts)} : Act(a)
        /\ f' = f + 1 /\ (f > 3 * MaxOps => FALSE) /\ UNCHANGED <<g0, phase, n>>
Finish == /\ phase = "run" /\ (Len(hist) = MaxOps \/ g.nodes = <<>> \/ f > 3 * MaxOps)
          /\ PrintT("GEN " \o ToJson([g |-> g0, ops |-> hist]))
          /\ phase' = "end" /\ UNCHANGED <<g, g0, hist, n, f>>
Next == Start \/ Build \/ Outputs \/ Call \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
