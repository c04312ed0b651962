------------------------------ MODULE T_Compute ------------------------------
(* Trace validation of compute graph extraction: the loaded graph, the extracted
   graph, and the loaded graph afterwards.                                    *)
EXTENDS ComputeGraph, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, bad
St(s) == [nodes |-> [k \in 1..Len(s.nodes) |-> [n |-> s.nodes[k].n, op |-> s.nodes[k].op, i |-> s.nodes[k].i, o |-> s.nodes[k].o, c |-> s.nodes[k].c]],
          inp |-> s.inp, out |-> s.out, ini |-> Rng(s.ini)]
StR(s) == St(s) @@ [prod |-> s.prod, cons |-> s.cons]
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Why(cs) ==
  IF ~cs.ok THEN {"extraction raised " \o cs.err} ELSE
  LET g == St(cs.before)  p == StR(cs.cg)
  IN ComputeWhy(g, p, Rng(cs.cg.tm), Rng(cs.cg.dyn)) \cup WithRel(g, p) \cup
     Clause("activation listed twice", \A k, m \in 1..Len(cs.dynseq) : cs.dynseq[k] = cs.dynseq[m] /\ k # m => IsIn(cs.dynseq[k], g.inp)) \cup
     Clause("the source graph changed", St(cs.after) = g) \cup
     {"the source graph afterwards: " \o x : x \in WithRel(g, StR(cs.after))} \cup
     Clause("a kept tensor lost or changed its inferred shape", \A k \in 1..Len(cs.shapes) :
         cs.shapes[k].t \in Produced(p) \cup Consumed(p) \cup Rng(p.inp) => cs.shapes[k].now = cs.shapes[k].was)
Init == c = 1 /\ bad = <<>>
Step == /\ c <= Len(Cases)
        /\ LET w == Why(Cases[c]) IN bad' = (IF w = {} THEN bad ELSE Append(bad, [i |-> c, why |-> SetSeq(w)]))
        /\ c' = c + 1
Report == c = Len(Cases) + 1 /\ ndJsonSerialize(IOEnv.OUT, bad) /\ c' = c + 1 /\ UNCHANGED bad
Next == Step \/ Report
Spec == Init /\ [][Next]_<<c, bad>>
=============================================================================
