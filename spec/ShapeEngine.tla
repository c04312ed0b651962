---------------------------- MODULE ShapeEngine -----------------------------
(* How dimensions follow from declared variables.  A function over a range is
   given by its values f[x].  f is floor-linear in g when one p, q, r explain
   every value: f = floor((p g + q) / r) (a ceiling is a floor with another q). *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxP, MaxR
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Rest(f, g, p, r) == {f[x] * r - p * g[x] : x \in DOMAIN f}
(* q runs from the largest rest to the smallest rest + r - 1 *)
Explains(f, g, p, r) == LET R == Rest(f, g, p, r) IN MaxOf(R) <= MinOf(R) + r - 1
Slopes(f, g, r) ==      \* p has to be near the slope over the whole range
  LET d == DOMAIN f
      a == CHOOSE x \in d : \A y \in d : g[x] <= g[y]
      b == CHOOSE x \in d : \A y \in d : g[y] <= g[x]
      ds == g[b] - g[a] dd == f[b] - f[a]
  IN IF ds = 0 \/ dd < 0 THEN {} ELSE {p \in (((dd - 1) * r) \div ds)..(((dd + 1) * r) \div ds + 1) : p >= 1 /\ p <= MaxP}
FloorLinear(f, g) == \E r \in 1..MaxR : \E p \in Slopes(f, g, r) : Explains(f, g, p, r)
Identity(f) == [x \in DOMAIN f |-> x]
Linear(f) == FloorLinear(f, Identity(f))
Constant(f) == \A x, y \in DOMAIN f : f[x] = f[y]
(* ------------------------------------------------------------- the engine *)
(* substituting variables into a description: entries are [v |-> name] or [i |-> number] *)
Declared(desc, vals) == [k \in 1..Len(desc) |-> IF desc[k].v = "" THEN desc[k].i ELSE vals[desc[k].v]]
=============================================================================
