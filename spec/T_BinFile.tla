----------------------------- MODULE T_BinFile -----------------------------
(* Trace validation of the binary files: a case is one write [what, x, must, ok, err, wrote, b, evals]:
   the object, whether the call succeeded, the bytes found in the file; evals: for engines, what every
   expression gives in memory and as read from the file <<[m, f]>>.                                     *)
EXTENDS BinFile, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, bad
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Why(cs) == {w \o (IF cs.ok THEN "" ELSE " (" \o cs.err \o ")") : w \in Owed(cs.what, cs.x, cs.ok, cs.wrote, cs.b, IF cs.what = "graph" THEN MustFit(cs.x) ELSE TRUE)} \cup
           Clause("an expression read from the file gives other values", \A k \in 1..Len(cs.evals) : cs.evals[k].m = cs.evals[k].f)
Init == c = 1 /\ bad = <<>>
Step == /\ c <= Len(Cases)
        /\ LET w == Why(Cases[c]) IN bad' = (IF w = {} THEN bad ELSE Append(bad, [i |-> c, why |-> SetSeq(w)]))
        /\ c' = c + 1
Report == c = Len(Cases) + 1 /\ ndJsonSerialize(IOEnv.OUT, bad) /\ c' = c + 1 /\ UNCHANGED bad
Next == Step \/ Report
Spec == Init /\ [][Next]_<<c, bad>>
=============================================================================
