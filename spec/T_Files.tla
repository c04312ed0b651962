------------------------------ MODULE T_Files ------------------------------
(* Trace validation of exported weights, edited interfaces and the command line.
   A case is one call: kind "export" [x], "edit" [m, edits, f, ok, wrote, err], "input" [arg, means, ok, err, same]:
   an argument of the command line with what it means, and whether running the
   command left the same files as calling the function with that meaning.     *)
EXTENDS Files, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, bad
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Why(cs) ==
  CASE cs.kind = "export" -> (IF ~cs.ok THEN {"raised " \o cs.err} ELSE Exports(cs.x))
    [] cs.kind = "edit" -> {w \o (IF cs.ok THEN "" ELSE " (" \o cs.err \o ")") : w \in Edited(cs.m, cs.edits, cs.f, cs.ok, cs.wrote)}
    [] cs.kind = "cli" ->
         UNION {Clause("the argument means something else (harness)", ParseInput(cs.inputs[k].arg) = cs.inputs[k].means) : k \in 1..Len(cs.inputs)} \cup
         UNION {Clause("the argument means something else (harness)", ParseEdit(cs.edits[k].arg) = cs.edits[k].means) : k \in 1..Len(cs.edits)} \cup
         (IF cs.fok # cs.cok THEN {"the command " \o (IF cs.cok THEN "succeeds" ELSE "fails (" \o cs.err \o ")") \o ", the function does not agree"}
          ELSE UNION {Clause("the command leaves a different " \o cs.files[k].n, cs.files[k].a = cs.files[k].b) : k \in 1..Len(cs.files)})
Init == c = 1 /\ bad = <<>>
Step == /\ c <= Len(Cases)
        /\ LET w == Why(Cases[c]) IN bad' = (IF w = {} THEN bad ELSE Append(bad, [i |-> c, why |-> SetSeq(w)]))
        /\ c' = c + 1
Report == c = Len(Cases) + 1 /\ ndJsonSerialize(IOEnv.OUT, bad) /\ c' = c + 1 /\ UNCHANGED bad
Next == Step \/ Report
Spec == Init /\ [][Next]_<<c, bad>>
=============================================================================
