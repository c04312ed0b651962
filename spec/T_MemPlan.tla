----------------------------- MODULE T_MemPlan ------------------------------
(* Trace validation of memory plans.
   case [g: [nodes, inp, out, cap], sizes: <<[t, b]>> bytes of the data of each activation, pad, ok, err,
         plan: <<[t, off, len]>>, pool, same: the graph is as it was]          *)
EXTENDS MemPlan, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, bad
Clause(n, b) == IF b THEN {} ELSE {n}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Why(cs) ==
  IF ~cs.ok THEN {"raised " \o cs.err} ELSE
  LET g == cs.g
      acts == Activations(g)
      size == TLCEval([t \in acts |-> (CHOOSE x \in Ran(cs.sizes) : x.t = t).b])
      plan == TLCEval([t \in {cs.plan[k].t : k \in 1..Len(cs.plan)} |-> CHOOSE x \in Ran(cs.plan) : x.t = t])
      live == TLCEval([k \in 0..Len(g.nodes) |-> Live(g, k)])
      need == {t \in acts : size[t] > 0}
      pairs == UNION {live[k] \X live[k] : k \in 0..Len(g.nodes)}
      clash == {p \in pairs : p[1] # p[2] /\ {p[1], p[2]} \subseteq DOMAIN plan /\ ~Apart(plan[p[1]], plan[p[2]]) /\ plan[p[1]].len > 0 /\ plan[p[2]].len > 0}
      ends == {plan[t].off + plan[t].len : t \in DOMAIN plan} \cup {0}
  IN Clause("no block for " \o ToString(need \ DOMAIN plan), need \subseteq DOMAIN plan) \cup
     Clause("a block for " \o ToString(DOMAIN plan \ acts) \o " which is no activation", DOMAIN plan \subseteq acts) \cup
     Clause("a tensor is listed twice", \A a, b \in 1..Len(cs.plan) : cs.plan[a].t = cs.plan[b].t => a = b) \cup
     Clause("blocks too small: " \o ToString({t \in need \cap DOMAIN plan : plan[t].len < size[t]}), \A t \in need \cap DOMAIN plan : plan[t].len >= size[t]) \cup
     Clause("a block lies outside the pool", \A t \in DOMAIN plan : plan[t].off >= 0 /\ plan[t].off + plan[t].len <= cs.pool) \cup
     Clause("live together and overlapping: " \o ToString(clash), clash = {}) \cup
     Clause("pool size " \o ToString(cs.pool) \o " is not the highest end " \o ToString(Max(ends)), cs.pool = Max(ends)) \cup
     Clause("pool larger than a block for every tensor", cs.pool <= SumOf(acts, [t \in acts |-> PadTo(size[t], cs.pad)])) \cup
     Clause("the graph was changed", cs.same)
Init == c = 1 /\ bad = <<>>
Step == /\ c <= Len(Cases)
        /\ LET w == Why(Cases[c]) IN bad' = (IF w = {} THEN bad ELSE Append(bad, [i |-> c, why |-> SetSeq(w)]))
        /\ c' = c + 1
Report == c = Len(Cases) + 1 /\ ndJsonSerialize(IOEnv.OUT, bad) /\ c' = c + 1 /\ UNCHANGED bad
Next == Step \/ Report
Spec == Init /\ [][Next]_<<c, bad>>
=============================================================================
