------------------------------ MODULE T_Branch ------------------------------
(* Trace validation of loading with fixed branches and sizes.
   case [m: the model given, h: the graph loaded, cfg, outs: graph outputs after loading, one: names used once, ok, err,
         again: nothing changes when the graph is updated, saved: the saved model is valid,
         run: it computes what the model given computes when the conditions and sizes are forced (evaluated independently),
         shapes: shapes inferred for its outputs are those of the results]                                                 *)
EXTENDS Branch, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, bad
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Ops(st, K) == ToString([op \in {st.flat[k].op : k \in K} |-> Cardinality({k \in K : st.flat[k].op = op})])
Why(cs) ==
  IF ~cs.ok THEN {"raised " \o cs.err} ELSE
  LET want == TLCEval(Flatten(<<>>, cs.m, cs.cfg))
      got == TLCEval(Flatten(want.pool, cs.h, NoFix))
      K == TLCEval(Remaining(want, cs.m.outs))
      all == 1..Len(got.flat)
      name(n) == {k \in K : want.flat[k].name = n}
  IN IF ~Complete(got, cs.m.outs) THEN {"a node or graph output uses a tensor nobody has made before"} ELSE
     {"output " \o o \o " is computed differently" : o \in {o \in Rng(cs.m.outs) : Look(want.env, o).term # Look(got.env, o).term}}
     \cup (IF cs.outs = cs.m.outs THEN {} ELSE {"graph outputs"})
     \cup (IF SameNodes(want, K, got, all) THEN {} ELSE {"not the nodes that remain: " \o Ops(want, K) \o " expected, " \o Ops(got, all) \o " found"})
     \cup {"node " \o n \o " is another node" : n \in {n \in Rng(cs.one) : \E k \in K : want.flat[k].name = n /\ want.flat[k].op # "Identity" /\ \A j \in all : got.flat[j].name = n => got.flat[j].term # want.flat[k].term}}
     \cup (IF cs.again THEN {} ELSE {"updating the graph changes it again"})
     \cup (IF cs.saved = "" THEN {} ELSE {"saved model: " \o cs.saved})
     \cup (IF cs.run = "" THEN {} ELSE {"results: " \o cs.run})
     \cup (IF cs.shapes = "" THEN {} ELSE {"shapes: " \o cs.shapes})
Init == c = 1 /\ bad = <<>>
Step == /\ c <= Len(Cases)
        /\ LET w == Why(Cases[c]) IN bad' = (IF w = {} THEN bad ELSE Append(bad, [i |-> c, why |-> SetSeq(w)]))
        /\ c' = c + 1
Report == c = Len(Cases) + 1 /\ ndJsonSerialize(IOEnv.OUT, bad) /\ c' = c + 1 /\ UNCHANGED bad
Next == Step \/ Report
Spec == Init /\ [][Next]_<<c, bad>>
=============================================================================
