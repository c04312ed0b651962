------------------------------ MODULE T_Quant -------------------------------
(* Trace validation of quantization results.
   case [kind: "quant" or "pack", ok, err, type, bits, block, R, C: rows and columns of the codes, tr: the weight is stored transposed,
         x: the weight, row by row, q: codes ("" packed: bytes), packed, qd, sd, zd: dimensions, qt, zt: element types, s: scales, z: zero points, graph]
   "pack": q: codes given, bytes: result                                                                                    *)
EXTENDS Quant, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, bad
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
At(cs, i, j) == IF cs.tr THEN cs.x[((j - 1) * cs.R) + i] ELSE cs.x[((i - 1) * cs.C) + j]
Code(cs, i, j) == IF cs.packed THEN Unpacked(cs.bytes, i, j, cs.C, cs.type) ELSE cs.q[((i - 1) * cs.C) + j]
Cells(cs) == (1..cs.R) \X (1..cs.C)
Show(cs, p) == ToString(p) \o " code " \o ToString(Code(cs, p[1], p[2]))
Some(S) == IF S = {} THEN {} ELSE {CHOOSE x \in S : TRUE}
\* twice the relative error a half precision scale may have, and never too small
ScaleFits(cs, k, cells) ==
  LET s == cs.s[k]
      X == [p \in cells |-> InUnits(At(cs, p[1], p[2]), s)]
      V == {X[p] : p \in cells}
      range == IF \E v \in V : Abs(v) > 1073741823 THEN Big ELSE RangeOf(V, cs.type)
      want == Norm(s) * Steps(cs.type, cs.bits)
  IN s.m > 0 /\ (range = 0 \/ s.e < -148 \/ (range < Big /\ want - range <= (range \div 400) + 600 /\ range - want <= (range \div 20000) + 600))
Why(cs) ==
  IF ~cs.ok THEN {"raised " \o cs.err} ELSE
  IF cs.kind = "pack" THEN
     (IF Len(cs.bytes) # cs.R * PackedCols(cs.C) THEN {"packed size"} ELSE
      {"unpacking " \o ToString(p) : p \in Some({p \in Cells(cs) : Unpacked(cs.bytes, p[1], p[2], cs.C, cs.type) # cs.q[((p[1] - 1) * cs.C) + p[2]]})})
  ELSE
  LET G == Groups(cs.R, cs.C, cs.block)
      grp(p) == GroupOf(p[1], p[2], cs.C, cs.block)
      z(k) == IF cs.type = "asym" THEN cs.z[k] ELSE 0
      cells == Cells(cs)
      members == TLCEval([k \in 1..G |-> {p \in cells : grp(p) = k}])
      codes == IF cs.packed THEN cs.R * PackedCols(cs.C) = Len(cs.bytes) ELSE cs.R * cs.C = Len(cs.q)
  IN IF ~codes \/ Len(cs.s) # G \/ (cs.type = "asym" /\ Len(cs.z) # G) THEN {"number of codes, scales or zero points"} ELSE
     (IF cs.qd = (IF cs.packed THEN <<cs.R, PackedCols(cs.C)>> ELSE <<cs.R, cs.C>>) \/ (~cs.graph /\ Len(cs.qd) > 2) THEN {} ELSE {"shape of the codes"})
     \cup (IF cs.sd = ScaleDims(cs.R, cs.C, cs.block) THEN {} ELSE {"shape of the scales"})
     \cup (IF cs.type = "asym" => cs.zd = cs.sd THEN {} ELSE {"shape of the zero points"})
     \cup (IF cs.graph => cs.packed = (cs.bits = 4) THEN {} ELSE {"packing"})
     \cup (IF cs.graph => cs.qt = (IF cs.packed \/ cs.type = "asym" THEN "uint8" ELSE "int8") /\ (cs.type = "asym" => cs.zt = "uint8") THEN {} ELSE {"element types"})
     \cup {"not the scale of its group " \o ToString(k) : k \in Some({k \in 1..G : ~ScaleFits(cs, k, members[k])})}
     \cup {"zero point out of range " \o ToString(k) : k \in Some({k \in 1..G : cs.type = "asym" /\ z(k) \notin Low(cs.type, cs.bits)..High(cs.type, cs.bits)})}
     \cup {"out of range " \o Show(cs, p) : p \in Some({p \in cells : Code(cs, p[1], p[2]) \notin Low(cs.type, cs.bits)..High(cs.type, cs.bits)})}
     \cup {"not within half a step " \o Show(cs, p) : p \in Some({p \in cells : ~HalfStep(At(cs, p[1], p[2]), Code(cs, p[1], p[2]), z(grp(p)), cs.s[grp(p)])})}
     \cup {"zero is not zero " \o Show(cs, p) : p \in Some({p \in cells : At(cs, p[1], p[2]).m = 0 /\ Code(cs, p[1], p[2]) # z(grp(p))})}
Init == c = 1 /\ bad = <<>>
Step == /\ c <= Len(Cases)
        /\ LET w == Why(Cases[c]) IN bad' = (IF w = {} THEN bad ELSE Append(bad, [i |-> c, why |-> SetSeq(w)]))
        /\ c' = c + 1
Report == c = Len(Cases) + 1 /\ ndJsonSerialize(IOEnv.OUT, bad) /\ c' = c + 1 /\ UNCHANGED bad
Next == Step \/ Report
Spec == Init /\ [][Next]_<<c, bad>>
=============================================================================
