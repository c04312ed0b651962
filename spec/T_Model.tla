------------------------------ MODULE T_Model -------------------------------
(* Trace validation of loading and saving: each case [m, f, again, o, shapes, ok, err] holds the
   original file, the saved file, the file saved from that one again, the options.              *)
EXTENDS Proto, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, bad
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Why(cs) == IF ~cs.ok THEN {"raised " \o cs.err}
           ELSE Owes(cs.m, cs.f, cs.o, cs.shapes) \cup
                {"again: " \o x : x \in IF cs.twice THEN Owes(cs.f, cs.again, [cs.o EXCEPT !.inferred = FALSE], <<>>) ELSE {}}
Init == c = 1 /\ bad = <<>>
Step == /\ c <= Len(Cases)
        /\ LET w == Why(Cases[c]) IN bad' = (IF w = {} THEN bad ELSE Append(bad, [i |-> c, why |-> SetSeq(w)]))
        /\ c' = c + 1
Report == c = Len(Cases) + 1 /\ ndJsonSerialize(IOEnv.OUT, bad) /\ c' = c + 1 /\ UNCHANGED bad
Next == Step \/ Report
Spec == Init /\ [][Next]_<<c, bad>>
=============================================================================
