------------------------------ MODULE T_Sparse -----------------------------
(* Trace validation of sparsity: a case is a loaded and profiled graph
   [ws: <<[n, an, O, I, K, z, r]>>, nodes: <<[n, ins <<names>>, r]>>, ok, err, cols, want]:
   an: the weight is one that is analysed; cols/want: the table's sparse columns as printed and
   as the nodes' reports read; a weight without z is not analysed.                              *)
EXTENDS Sparse, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, bad
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Rpt(cs, n) == cs.ws[CHOOSE k \in 1..Len(cs.ws) : cs.ws[k].n = n].r
Why(cs) ==
  IF ~cs.ok THEN {"raised " \o cs.err}
  ELSE UNION {{cs.ws[k].n \o ": " \o x : x \in IF cs.ws[k].an THEN Owes(cs.ws[k], cs.ws[k].r) ELSE None(cs.ws[k].r)} : k \in 1..Len(cs.ws)} \cup
       UNION {LET nd == cs.nodes[k]
                  ins == SelectSeq(nd.ins, LAMBDA n : \E j \in 1..Len(cs.ws) : cs.ws[j].n = n)
              IN {nd.n \o ": " \o x : x \in NodeOwes([j \in 1..Len(ins) |-> Rpt(cs, ins[j])], nd.r)} : k \in 1..Len(cs.nodes)} \cup
       (IF \E k \in 1..Len(cs.ws) : cs.ws[k].an /\ Sparse(cs.ws[k], cs.ws[k].r.p * (Size(cs.ws[k]) \div cs.ws[k].r.q))
        THEN Clause("the table shows something else", cs.cols = cs.want) ELSE Clause("the table of a dense model has sparse columns", cs.cols = <<>>))
Init == c = 1 /\ bad = <<>>
Step == /\ c <= Len(Cases)
        /\ LET w == Why(Cases[c]) IN bad' = (IF w = {} THEN bad ELSE Append(bad, [i |-> c, why |-> SetSeq(w)]))
        /\ c' = c + 1
Report == c = Len(Cases) + 1 /\ ndJsonSerialize(IOEnv.OUT, bad) /\ c' = c + 1 /\ UNCHANGED bad
Next == Step \/ Report
Spec == Init /\ [][Next]_<<c, bad>>
=============================================================================
