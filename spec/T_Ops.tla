------------------------------- MODULE T_Ops -------------------------------
(* Trace validation of single operators: shapes, element types, values.
   case [op, a, n, ins, want: "shape"|"value"|"judge" (shape, or refusal where the operator does not admit the operands), ok, err, named, outs]
   outs: [s, d, has, v]; ref (optional): the same from an independent evaluator *)
EXTENDS OnnxVal, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, bad
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Clause(n, b) == IF b THEN {} ELSE {n}
Show(x) == ToString(x)
Cmp(cs, r, who) ==
  LET bad1 == IF who = "" THEN "" ELSE who \o ": " IN
  UNION {Clause(bad1 \o "output " \o ToString(k) \o " shape " \o Show(cs.outs[k].s) \o " is not " \o Show(r.outs[k].s), cs.outs[k].s = r.outs[k].s) \cup
         Clause(bad1 \o "output " \o ToString(k) \o " type " \o cs.outs[k].d \o " is not " \o r.outs[k].d, cs.outs[k].d \in {r.outs[k].d, "?"}) \cup
         (IF cs.want = "value" /\ r.outs[k].has /\ cs.outs[k].has
          THEN Clause(bad1 \o "output " \o ToString(k) \o " values " \o Show(cs.outs[k].v) \o " are not " \o Show(r.outs[k].v), cs.outs[k].v = r.outs[k].v)
          ELSE {})
         : k \in 1..Len(r.outs)}
Why(cs) ==
  LET r == Exec(cs.op, cs.a, cs.ins, cs.n) IN
  IF r.st = "skip" THEN (IF cs.want = "judge" THEN {} ELSE {"outside the specification"})
  ELSE IF r.st = "unk" THEN {"values missing"}
  ELSE IF r.st = "no" THEN
       IF cs.want = "judge" THEN Clause("inadmissible operands are accepted", ~cs.ok) \cup Clause("the error does not name the node: " \o cs.err, cs.ok \/ cs.named)
       ELSE {"inadmissible instance"}
  ELSE IF ~cs.ok THEN IF cs.want = "value" /\ cs.unsupported /\ MayRefuseValue(cs.op, cs.a, cs.n) /\ ~(cs.op = "Conv" /\ At0(cs.a, "group", 1) = 1 /\ Len(cs.ins[2].s) = 4) THEN {} ELSE {"raised " \o cs.err}
  ELSE Cmp(cs, r, cs.who)
Init == c = 1 /\ bad = <<>>
Step == /\ c <= Len(Cases)
        /\ LET w == Why(Cases[c]) IN bad' = (IF w = {} THEN bad ELSE Append(bad, [i |-> c, why |-> SetSeq(w)]))
        /\ c' = c + 1
Report == c = Len(Cases) + 1 /\ ndJsonSerialize(IOEnv.OUT, bad) /\ c' = c + 1 /\ UNCHANGED bad
Next == Step \/ Report
Spec == Init /\ [][Next]_<<c, bad>>
=============================================================================
