------------------------------ MODULE T_Pattern ------------------------------
(* Trace validation of pattern search: the graph, the pattern, the matches.   *)
EXTENDS Pattern, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, bad
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Why(cs) ==
  IF ~cs.ok THEN {"call raised " \o cs.err} ELSE
  LET g == [cs.g EXCEPT !.ini = Rng(cs.g.ini)] IN
  (IF cs.search THEN SearchWhy(g, cs.p, cs.res) ELSE {}) \cup
  (IF cs.from = <<>> THEN {} ELSE DescsWhy(g, cs.from, cs.p)) \cup
  (IF cs.chain = <<>> THEN {} ELSE
     Clause("serial pattern does not describe the chain",
        /\ [k \in 1..Len(cs.p.descs) |-> cs.p.descs[k].ops] = [k \in 1..Len(cs.chain) |-> <<cs.chain[k]>>]
        /\ Edges(cs.p) = {<<cs.p.descs[k].name, -1, cs.p.descs[k + 1].name, -1>> : k \in 1..(Len(cs.chain) - 1)})) \cup
  Clause("a known occurrence is not found", \A k \in 1..Len(cs.must) : \E j \in 1..Len(cs.res) : cs.res[j] = cs.must[k])
Init == c = 1 /\ bad = <<>>
Step == /\ c <= Len(Cases)
        /\ LET w == Why(Cases[c]) IN bad' = (IF w = {} THEN bad ELSE Append(bad, [i |-> c, why |-> SetSeq(w)]))
        /\ c' = c + 1
Report == c = Len(Cases) + 1 /\ ndJsonSerialize(IOEnv.OUT, bad) /\ c' = c + 1 /\ UNCHANGED bad
Next == Step \/ Report
Spec == Init /\ [][Next]_<<c, bad>>
=============================================================================
