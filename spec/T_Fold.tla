------------------------------- MODULE T_Fold -------------------------------
(* Trace validation of constant folding.
   case [inputs, inits, nodes (in a dependency order), outputs: as in T_Session; given: assignment of the inputs [n, s, d, has, v];
         stored: node names in the stored order; at: <<[n, sig]>> attributes as text;
         refs: <<[n, s, d, v, fx]>> constant tensors as an independent evaluator computes them;
         ok, err, unsupported; f: [nodes: <<[n, op, i, o, sig]>>, inits: <<[n, s, d, v, fx]>>, inp, out];
         run: <<[n, want, got, r]>> outputs of the folded model executed independently]                          *)
EXTENDS Exec, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, bad
Clause(n, b) == IF b THEN {} ELSE {n}
Show(x) == ToString(x)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Named(seq, x) == seq[CHOOSE k \in 1..Len(seq) : seq[k].n = x]
Names(seq) == [k \in 1..Len(seq) |-> seq[k].n]
(* operators that never count as constant: their result is random, or kept on purpose *)
Kept == {"DequantizeLinear", "RandomNormalLike", "RandomUniformLike", "RandomNormal", "RandomUniform", "Multinomial", "Bernoulli", "If", "Loop", "Scan"}
RECURSIVE ConstNodes(_, _, _)
ConstNodes(nodes, known, S) ==
  IF nodes = <<>> THEN S
  ELSE LET nd == Head(nodes) IN
       IF nd.op \notin Kept /\ \A k \in 1..Len(nd.i) : nd.i[k] = "" \/ nd.i[k] \in known
       THEN ConstNodes(Tail(nodes), known \cup Ran(nd.o), S \cup {nd.n})
       ELSE ConstNodes(Tail(nodes), known, S)
(* constant nodes whose value inference is documented as missing, and what depends on them *)
RECURSIVE Unfolded(_, _, _, _)
Unfolded(nodes, fold, made, S) ==
  IF nodes = <<>> THEN S
  ELSE LET nd == Head(nodes) IN
       IF nd.n \in fold /\ (MayRefuseValue(nd.op, nd.a, Len(nd.o)) \/ Ran(nd.i) \cap made # {})
       THEN Unfolded(Tail(nodes), fold, made \cup (Ran(nd.o) \ {""}), S \cup {nd.n})
       ELSE Unfolded(Tail(nodes), fold, made, S)
Foldable(cs) == ConstNodes(cs.nodes, Ran(Names(cs.inits)), {})
SpecEnv(cs) ==
  RunNodes(cs.nodes,
           [t \in Ran(Names(cs.given)) |-> Ten(Named(cs.given, t), FALSE)] @@ [t \in Ran(Names(cs.inits)) |-> Ten(Named(cs.inits, t), TRUE)], <<>>).env
Whole == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "b"}
Close(a, b, r) == a = b \/ AbsI(a - b) <= 3 + AbsI(b) \div r + (IF r < 1000 THEN 15 ELSE 0)
CloseTo(a, b, r) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Close(a[k], b[k], r)
ConstWhy(cs, env, x) ==                          \* an initializer of the folded model
  LET who == "initializer " \o x.n IN
  IF x.n \in Ran(Names(cs.inits))
  THEN LET y == Named(cs.inits, x.n) IN
       Clause(who \o " changed", x.s = y.s /\ x.d = y.d /\ (y.has => x.v = y.v))
  ELSE IF x.n \notin Ran(Names(cs.refs)) THEN {who \o " is no constant of the model"}
  ELSE LET y == Named(cs.refs, x.n) IN
       Clause(who \o " shape " \o Show(x.s) \o " is not " \o Show(y.s), x.s = y.s) \cup
       Clause(who \o " type " \o x.d \o " is not " \o y.d, x.d = y.d) \cup
       (IF x.s = y.s THEN Clause(who \o " values " \o Show(x.fx) \o " are not " \o Show(y.fx), IF x.d \in Whole /\ y.d \in Whole THEN x.v = y.v ELSE CloseTo(x.fx, y.fx, IF x.d = "f16" THEN 500 ELSE 100000)) ELSE {}) \cup
       (IF x.n \in DOMAIN env /\ env[x.n].has /\ x.s = env[x.n].s /\ x.d \in Whole
        THEN Clause(who \o " values " \o Show(x.v) \o " are not " \o Show(env[x.n].v),
                    \A k \in 1..Len(x.v) : x.v[k] = env[x.n].v[k] \/ env[x.n].v[k] = Undef)
        ELSE {})
Why(cs) ==
  LET fold == Foldable(cs)
      left == SelectSeq(cs.stored, LAMBDA x : x \notin fold)
      f == cs.f
      uses == UNION {Ran(f.nodes[k].i) : k \in 1..Len(f.nodes)} \ {""}
      makes == UNION {Ran(f.nodes[k].o) : k \in 1..Len(f.nodes)}
      orig(x) == Named(cs.nodes, x)
      env == SpecEnv(cs)
      soft == Unfolded(cs.nodes, fold, {}, {})
  IN IF ~cs.ok THEN {"raised " \o cs.err}
     ELSE Clause("nodes left " \o Show(Names(f.nodes)) \o " are not " \o Show(left),
                 \* a constant a graph output stands for may stay, and one nobody can compute
                 SelectSeq(Names(f.nodes), LAMBDA x : x \notin fold) = left /\
                 \A k \in 1..Len(f.nodes) : f.nodes[k].n \in fold => Ran(f.nodes[k].o) \cap Ran(cs.outputs) # {} \/ f.nodes[k].n \in soft) \cup
          UNION {LET x == f.nodes[k] IN
                 IF x.n \notin Ran(cs.stored) THEN {"node " \o x.n \o " is new"}
                 ELSE Clause("node " \o x.n \o " changed", x.op = orig(x.n).op /\ x.i = orig(x.n).i /\ x.o = orig(x.n).o /\ x.sig = Named(cs.at, x.n).sig)
                 : k \in 1..Len(f.nodes)} \cup
          Clause("graph outputs " \o Show(f.out) \o " are not " \o Show(cs.outputs), f.out = cs.outputs) \cup
          Clause("a graph output has no source", Ran(f.out) \subseteq makes \cup Ran(Names(f.inits)) \cup Ran(f.inp)) \cup
          Clause("an operand has no source", uses \subseteq makes \cup Ran(Names(f.inits)) \cup Ran(f.inp)) \cup
          Clause("graph inputs " \o Show(f.inp), Ran(f.inp) \subseteq Ran(Names(cs.inputs)) /\ (Ran(Names(cs.inputs)) \cap uses) \subseteq Ran(f.inp)) \cup
          Clause("an initializer is listed twice", \A a, b \in 1..Len(f.inits) : f.inits[a].n = f.inits[b].n => a = b) \cup
          UNION {ConstWhy(cs, env, f.inits[k]) : k \in 1..Len(f.inits)} \cup
          UNION {Clause("executing the folded model gives another " \o cs.run[k].n, CloseTo(cs.run[k].got, cs.run[k].want, cs.run[k].r)) : k \in 1..Len(cs.run)}
Init == c = 1 /\ bad = <<>>
Step == /\ c <= Len(Cases)
        /\ LET w == Why(Cases[c]) IN bad' = (IF w = {} THEN bad ELSE Append(bad, [i |-> c, why |-> SetSeq(w)]))
        /\ c' = c + 1
Report == c = Len(Cases) + 1 /\ ndJsonSerialize(IOEnv.OUT, bad) /\ c' = c + 1 /\ UNCHANGED bad
Next == Step \/ Report
Spec == Init /\ [][Next]_<<c, bad>>
=============================================================================
