--------------------------- MODULE MC_ShapeEngine ----------------------------
(* Design check.  (1) Every stride-like chain of floor divisions of the variable
   is floor-linear over every range, as a composition of convolutions is; (2) the
   functions of the class which agree with enough samples agree everywhere: the
   loop below, which samples wherever two explanations of the samples differ,
   ends with the function itself, however long it takes.                      *)
EXTENDS ShapeEngine
CONSTANTS Lo, Hi
VARIABLES f, known, phase, ops
vars == <<f, known, phase, ops>>
Range == Lo..Hi
Init == f = [x \in Range |-> x] /\ known = {} /\ phase = "layers" /\ ops = <<>>
Layer == /\ phase = "layers" /\ Len(ops) < 2
         /\ \E c \in -2..2 : \E s \in 1..3 :
              /\ \A x \in Range : f[x] + c >= s
              /\ f' = [x \in Range |-> (f[x] + c) \div s] /\ ops' = Append(ops, <<c, s>>)
         /\ UNCHANGED <<known, phase>>
Widen == /\ phase = "layers" /\ (\A k \in 1..Len(ops) : ops[k][2] = 1) /\ Len(ops) < 2
         /\ \E m \in 2..3 : f' = [x \in Range |-> f[x] * m] /\ ops' = Append(ops, <<0, 1>>)
         /\ UNCHANGED <<known, phase>>
Start == phase = "layers" /\ ~Constant(f) /\ phase' = "sample" /\ known' = {Lo, Hi} /\ UNCHANGED <<f, ops>>
On(S) == [x \in S |-> f[x]]
(* all explanations of the samples *)
Cands == {<<p, q, r>> \in (1..MaxP) \X (-12..12) \X (1..MaxR) : \A x \in known : (p * x + q) \div r = f[x]}
Value(e, x) == (e[1] * x + e[2]) \div e[3]
Open == {x \in Range : \E a, b \in Cands : Value(a, x) # Value(b, x)}
Sample == /\ phase = "sample" /\ Open # {} /\ \E x \in {MinOf(Open), MaxOf(Open)} : known' = known \cup {x}
          /\ UNCHANGED <<f, phase, ops>>
Next == Layer \/ Widen \/ Start \/ Sample
Spec == Init /\ [][Next]_vars
(* a chain of layers without widening, or widened before any stride, is in the class *)
ChainsAreLinear == ~Constant(f) => Linear(f)
Exact == phase = "sample" /\ Open = {} => \A e \in Cands : \A x \in Range : Value(e, x) = f[x]
Fresh == phase = "sample" => Open \cap known = {}
Explained == phase = "sample" => Cands # {}
=============================================================================
