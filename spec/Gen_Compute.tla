---------------------------- MODULE Gen_Compute ----------------------------
(* Random graphs mixing data operators with shape arithmetic, structure only. *)
EXTENDS GraphGen, Json, Randomization
CONSTANTS MinNodes
VARIABLES g, phase, n
vars == <<g, phase, n>>
Pick(S) == RandomElement(S)
(* operator -> <<number of inputs, number of outputs>> *)
Kind == [Relu |-> <<1, 1>>, Add |-> <<2, 1>>, Mul |-> <<2, 1>>, Shape |-> <<1, 1>>, Gather |-> <<2, 1>>, Cast |-> <<1, 1>>,
         Concat |-> <<3, 1>>, Reshape |-> <<2, 1>>, Expand |-> <<2, 1>>, Slice |-> <<4, 1>>, Tile |-> <<2, 1>>,
         ConstantOfShape |-> <<1, 1>>, Range |-> <<3, 1>>, Resize |-> <<4, 1>>, Unsqueeze |-> <<2, 1>>, TopK |-> <<2, 2>>,
         Pad |-> <<3, 1>>, Split |-> <<2, 2>>, Conv |-> <<2, 1>>, OneHot |-> <<3, 1>>, ReduceSum |-> <<2, 1>>, Squeeze |-> <<2, 1>>]
Weighty == {"Gather", "Unsqueeze", "Squeeze", "ReduceSum"}   \* second operand mostly constant
Choice(kind, k) ==
  IF kind \in Weighty /\ k = 2 /\ Pick(1..3) # 1 THEN Pick(g.ini)
  ELSE IF kind = "Resize" /\ k \in {2, 3} THEN ""
  ELSE IF Pick(1..3) = 1 \/ Produced(g) = {} THEN Pick(Avail(g)) ELSE Pick(Produced(g))
Init == g = EmptyGraph /\ phase = "start" /\ n = 0
Start == phase = "start" /\ n' = Pick(MinNodes..MaxNodes) /\ phase' = "build" /\ UNCHANGED g
Build == /\ phase = "build" /\ Len(g.nodes) < n
         /\ \E kind \in {Pick(DOMAIN Kind)} :
              g' = [g EXCEPT !.nodes = Append(@, [n |-> "n" \o Str(Len(@) + 1), op |-> kind,
                       i |-> [k \in 1..Kind[kind][1] |-> Choice(kind, k)],
                       o |-> [j \in 1..Kind[kind][2] |-> "t" \o Str(Len(g.nodes) + 1) \o (IF j = 1 THEN "" ELSE "b")]])]
         /\ UNCHANGED <<phase, n>>
OutChoices == {T \in SUBSET Produced(g) : T # {} /\ Cardinality(T) <= 3}
Outputs == /\ phase = "build" /\ Len(g.nodes) = n
           /\ \E T \in {Pick(IF Pick(1..3) = 1 THEN OutChoices ELSE {Sinks(g)})} :
                /\ g' = [g EXCEPT !.out = SetToSeq0(T)]
                /\ PrintT("GEN " \o ToJson([g |-> [g EXCEPT !.out = SetToSeq0(T)]]))
           /\ phase' = "end" /\ UNCHANGED n
Next == Start \/ Build \/ Outputs
Spec == Init /\ [][Next]_vars
=============================================================================
