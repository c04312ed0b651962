----------------------------- MODULE Gen_Session -----------------------------
(* All call sequences up to a length on one graph object, two assignments A and B
   (and C: does not fit) of its inputs; a sequence is printed when it is full.   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS N
VARIABLES h
Calls == {"shapeA", "shapeB", "shapeC", "shapePart", "shapeNone", "valueA", "valueB", "profile", "profileX", "print", "dump"}
Init == h = <<>>
Next == /\ Len(h) < N
        /\ \E c \in Calls : /\ (IF h = <<>> THEN TRUE ELSE h[Len(h)] # c \/ c \in {"shapeA", "profile"})
                            /\ h' = Append(h, c)
                            /\ (Len(h') = N => PrintT("GEN " \o ToJson(h')))
Spec == Init /\ [][Next]_h
=============================================================================
