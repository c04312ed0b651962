------------------------------ MODULE GraphGen ------------------------------
(* Construction of graphs: tensors x1.. (inputs), w1.. (weights), one node at a
   time over everything available, then outputs are chosen and the storage
   order is shuffled.  Every reachable "done" state is an admissible model.   *)
EXTENDS GraphOps, TLC
CONSTANTS MaxNodes, NInputs, NWeights, Kinds
Str(k) == ToString(k)
InputNames == {"x" \o Str(k) : k \in 1..NInputs}
WeightNames == {"w" \o Str(k) : k \in 1..NWeights}
Arity(kind) == CASE kind = "Relu" -> <<1, 1>> [] kind = "Add" -> <<2, 1>> [] kind = "Split" -> <<1, 2>>
                 [] kind = "Sum" -> <<3, 1>> [] kind = "Sigmoid" -> <<1, 1>> [] kind = "Mul" -> <<2, 1>>
                 [] kind = "Neg" -> <<1, 1>> [] kind = "Identity" -> <<1, 1>> [] kind = "Clip" -> <<3, 1>>
                 [] kind = "Dropout" -> <<1, 2>> [] kind = "RandomNormal" -> <<0, 1>>
                 [] kind = "GRU" -> <<1, 2>> [] kind = "LSTM" -> <<1, 3>>
                 [] kind = "Reshape" -> <<2, 1>> [] kind = "Flatten" -> <<1, 1>> [] kind = "Squeeze" -> <<1, 1>>
                 [] kind = "Unsqueeze" -> <<1, 1>> [] kind = "If" -> <<3, 1>> [] kind = "Conv" -> <<2, 1>> [] kind = "MatMul" -> <<2, 1>>
NewNode(g, kind, ins) ==
  LET k == Len(g.nodes) + 1
  IN [n |-> "n" \o Str(k), op |-> kind, i |-> IF kind = "If" THEN <<ins[1]>> ELSE ins,
      c |-> IF kind = "If" THEN Once(Tail(ins)) ELSE <<>>,   \* what its branches take from outside
      o |-> IF kind = "GRU" THEN <<"", "t" \o Str(k)>>   \* omits its first output
            ELSE [j \in 1..Arity(kind)[2] |-> "t" \o Str(k) \o (CASE j = 1 -> "" [] j = 2 -> "b" [] OTHER -> "c")]]
Avail(g) == Rng(g.inp) \cup g.ini \cup Produced(g)
(* an omitted optional input may only sit behind the first *)
InputChoices(g, kind) ==
  {s \in [1..Arity(kind)[1] -> Avail(g) \cup (IF kind = "Clip" THEN {""} ELSE {})] : /\ Arity(kind)[1] = 0 \/ s[1] # ""
      /\ kind = "Reshape" => s[2] \in g.ini}
EmptyGraph == [nodes |-> <<>>, inp |-> [k \in 1..NInputs |-> "x" \o Str(k)], out |-> <<>>, ini |-> WeightNames]
Sinks(g) == Produced(g) \ Consumed(g)
=============================================================================
