--------------------------- MODULE T_ShapeEngine ----------------------------
(* Trace validation of the shape engine.
   case [vars: <<name>>, pts: <<[name |-> value]>> assignments in the order they were tried, lines: <<[v, at: <<point index>>]>> the whole range of v
         with the other variables fixed, ok, err, ins: <<[n, desc]>>,
         ts: <<[n, from: <<operands of the producer>>, eng: <<shape at each point>>, inf: <<shape at each point by inference>>]>>]   *)
EXTENDS ShapeEngine, SequencesExt, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, bad
Ran(s) == {s[k] : k \in 1..Len(s)}
Clause(n, b) == IF b THEN {} ELSE {n}
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
(* values along a line *)
Along(t, k, line) == TLCEval([j \in 1..Len(line.at) |-> t.inf[line.at[j]][k]])
Var(cs, line) == TLCEval([j \in 1..Len(line.at) |-> cs.pts[line.at[j]][line.v]])
SameRank(t) == \A j \in 1..Len(t.inf) : Len(t.inf[j]) = Len(t.inf[1])
Fixed(t, k) == \A j \in 1..Len(t.inf) : t.inf[j][k] = t.inf[1][k]
OnlyOn(cs, t, k, v) == \A i, j \in 1..Len(cs.pts) : cs.pts[i][v] = cs.pts[j][v] => t.inf[i][k] = t.inf[j][k]
(* the variable a dimension follows linearly, directly or from an operand's dimension; "" if fixed, "?" if neither *)
Follows(cs, acc, t, k) ==
  IF Fixed(t, k) THEN ""
  ELSE LET vs == {l \in Ran(cs.lines) : OnlyOn(cs, t, k, l.v)} IN
       IF vs = {} THEN "?"
       ELSE LET l == CHOOSE l \in vs : TRUE
                f == Along(t, k, l)
                tsOf(n) == {x \in Ran(cs.ts) : x.n = n}
            IN IF FloorLinear(f, Var(cs, l)) \/
                  \E n \in Ran(t.from) : n \in DOMAIN acc /\ \E x \in tsOf(n) : \E j \in 1..Len(acc[n]) : acc[n][j] = l.v /\ FloorLinear(f, Along(x, j, l))
               THEN l.v ELSE "?"
AllFollow(cs) == FoldLeft(LAMBDA acc, t : (t.n :> IF SameRank(t) THEN [k \in 1..Len(t.inf[1]) |-> Follows(cs, acc, t, k)] ELSE <<>>) @@ acc, <<>>, cs.ts)
TensorWhy(cs, t, fol) ==
  IF ~SameRank(t) THEN {}
  ELSE LET wrong == {j \in 1..Len(cs.pts) : Len(t.eng[j]) # Len(t.inf[j]) \/ \E k \in 1..Len(t.inf[j]) : fol[k] # "?" /\ t.eng[j][k] # t.inf[j][k]} IN
       IF wrong = {} THEN {} ELSE LET j == MinOf(wrong) IN {t.n \o " at " \o ToString(cs.pts[j]) \o ": " \o ToString(t.eng[j]) \o " is not " \o ToString(t.inf[j])}
Why(cs) ==
  IF ~cs.ok THEN {"raised " \o cs.err} ELSE
  LET fol == TLCEval(AllFollow(cs)) IN
  UNION {LET t == cs.ts[k] IN TensorWhy(cs, t, fol[t.n]) : k \in 1..Len(cs.ts)} \cup
  UNION {LET d == cs.ins[k] IN
         UNION {Clause("input " \o d.n \o " is not as declared", t.n # d.n \/ \A j \in 1..Len(cs.pts) : t.eng[j] = Declared(d.desc, cs.pts[j])) : t \in Ran(cs.ts)} : k \in 1..Len(cs.ins)}
Init == c = 1 /\ bad = <<>>
Step == /\ c <= Len(Cases)
        /\ LET w == Why(Cases[c]) IN bad' = (IF w = {} THEN bad ELSE Append(bad, [i |-> c, why |-> SetSeq(w)]))
        /\ c' = c + 1
Report == c = Len(Cases) + 1 /\ ndJsonSerialize(IOEnv.OUT, bad) /\ c' = c + 1 /\ UNCHANGED bad
Next == Step \/ Report
Spec == Init /\ [][Next]_<<c, bad>>
=============================================================================
