------------------------------ MODULE T_ConvBN ------------------------------
(* Trace validation of the fusion of normalisations into convolutions.
   case [g: [nodes, inp, out, cap, ini] before, h: [nodes, inp, out, ini, prod, cons] after,
         eps: <<[n, v]>> epsilon of each normalisation, before: <<[n, s, d, q, fx]>> constants (q: exact), after: <<[n, s, d, fx]>>,
         ok, err, run: <<[n, want, got, r]>> both models executed independently]                                *)
EXTENDS ConvBN, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, bad
Show(x) == ToString(x)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Named(seq, x) == seq[CHOOSE k \in 1..Len(seq) : seq[k].n = x]
NamesOf(seq) == {seq[k].n : k \in 1..Len(seq)}
AbsI(x) == IF x < 0 THEN -x ELSE x
Near(fx, q, r) == LET t == T!QMul(q, <<10000, 1>>) IN q = T!Undef \/ t = T!Undef \/ LET m == T!QFloor(t) IN AbsI(fx - m) <= 2 + AbsI(m) \div r
Close(a, b, r) == a = b \/ AbsI(a - b) <= 5 + AbsI(b) \div r + (IF r < 1000 THEN 30 ELSE 0)
CloseTo(a, b, r) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Close(a[k], b[k], r)
RECURSIVE Times(_)
Times(s) == IF s = <<>> THEN 1 ELSE Head(s) * Times(Tail(s))
UsersOf(h, t) == UNION {{h.nodes[k].n : j \in {j \in 1..Len(h.nodes[k].i) : h.nodes[k].i[j] = t}} : k \in 1..Len(h.nodes)}
MakersOf(h, t) == UNION {{h.nodes[k].n : j \in {j \in 1..Len(h.nodes[k].o) : h.nodes[k].o[j] = t}} : k \in 1..Len(h.nodes)}
Why(cs) ==
  IF ~cs.ok THEN {"raised " \o cs.err} ELSE
  LET g == cs.g
      h == cs.h
      left == TLCEval({h.nodes[k].n : k \in 1..Len(h.nodes)})
      F == TLCEval({p \in Pairs(g, May) : p[2] \notin left})
      must == TLCEval(Pairs(g, Must))
      gone == {nd.n : nd \in Nodes(g)} \ left
      bias(x) == LET nd == NodeNamed(h, x) IN IF Len(nd.i) >= 3 THEN nd.i[3] ELSE ""
      biases == {bias(p[1]) : p \in F}
      want == TLCEval(FuseNodes(g, F, bias))
      const(x) == Named(cs.before, x)
      made(x) == Named(cs.after, x)
      values(p) ==
        LET cv == NodeNamed(g, p[1]) b == NodeNamed(g, p[2])
            w == const(cv.i[2]) eps == Named(cs.eps, b.n).v
            par(k) == const(b.i[k]).q
            zero == [k \in 1..Len(par(2)) |-> <<0, 1>>]
            sc == Scales(par(2), par(5), eps)
            nw == TLCEval(NewWeight(w.q, Times(Tail(w.s)), sc))
            nb == TLCEval(NewBias(IF In(cv, 3) = "" THEN zero ELSE const(cv.i[3]).q, sc, par(3), par(4)))
            ow == made(cv.i[2]) ob == made(bias(p[1]))
            r == IF w.d = "f16" THEN 400 ELSE 50000
        IN Clause("weights of " \o cv.n, ow.s = w.s /\ ow.d = w.d /\ Len(ow.fx) = Len(nw) /\ \A k \in 1..Len(nw) : Near(ow.fx[k], nw[k], r)) \cup
           Clause("bias of " \o cv.n, ob.s = <<Len(nb)>> /\ ob.d = w.d /\ Len(ob.fx) = Len(nb) /\ \A k \in 1..Len(nb) : Near(ob.fx[k], nb[k], IF w.d = "f16" THEN 200 ELSE r))
  IN Clause("removed " \o Show(gone \ {p[2] : p \in F}) \o " which may not be fused", gone = {p[2] : p \in F}) \cup
     Clause("not fused: " \o Show(must \ F), must \subseteq F) \cup
     Clause("nodes are not " \o Show(want), h.nodes = want) \cup
     Clause("graph inputs " \o Show(h.inp), h.inp = cs.g.inp) \cup
     Clause("graph outputs " \o Show(h.out) \o " are not " \o Show(cs.g.out), h.out = cs.g.out) \cup
     Clause("a bias is shared or not new", "" \notin biases /\ biases \cap NamesOf(cs.before) = {} /\ \A p, q \in F : p # q => bias(p[1]) # bias(q[1])) \cup
     (LET used == UNION {Rng(h.nodes[k].i) : k \in 1..Len(h.nodes)} \ {""}
          avail == Rng(h.ini) \cup Rng(h.inp) \cup UNION {Rng(h.nodes[k].o) : k \in 1..Len(h.nodes)}
      IN Clause("operand without a source", used \cup Rng(h.out) \subseteq avail)) \cup
     Clause("an initializer is stored but not registered", biases \subseteq Rng(h.ini) /\ biases \subseteq NamesOf(cs.after)) \cup
     Clause("producers are recorded wrongly", \A k \in 1..Len(h.prod) : h.prod[k].n # <<>> => Rng(h.prod[k].n) = MakersOf(h, h.prod[k].t)) \cup
     Clause("a producer is not recorded", \A k \in 1..Len(h.nodes) : \A j \in 1..Len(h.nodes[k].o) : h.nodes[k].o[j] # "" => \E q \in 1..Len(h.prod) : h.prod[q].t = h.nodes[k].o[j] /\ h.prod[q].n = <<h.nodes[k].n>>) \cup
     Clause("consumers are recorded wrongly", \A k \in 1..Len(h.cons) : Rng(h.cons[k].n) = UsersOf(h, h.cons[k].t) \cup (IF h.cons[k].t \in Rng(cs.g.cap) THEN Rng(h.ifs) ELSE {})) \cup
     (IF {p[1] : p \in F} \subseteq left /\ biases \subseteq NamesOf(cs.after) /\ \A p \in F : NodeNamed(h, p[1]).i[2] \in NamesOf(cs.after)
      THEN UNION {values(p) : p \in F} ELSE {"a fused convolution lacks its weights"}) \cup
     UNION {LET x == cs.before[k] IN
            IF x.n \in {NodeNamed(g, p[1]).i[2] : p \in F} THEN {}
            ELSE IF x.n \in NamesOf(cs.after) THEN Clause("constant " \o x.n \o " changed", made(x.n).s = x.s /\ made(x.n).d = x.d /\ made(x.n).fx = x.fx)
            ELSE Clause("constant " \o x.n \o " is lost", \A j \in 1..Len(h.nodes) : ~IsIn(x.n, h.nodes[j].i))
            : k \in 1..Len(cs.before)} \cup
     UNION {Clause("executing the fused model gives another " \o cs.run[k].n, CloseTo(cs.run[k].got, cs.run[k].want, cs.run[k].r)) : k \in 1..Len(cs.run)}
Init == c = 1 /\ bad = <<>>
Step == /\ c <= Len(Cases)
        /\ LET w == Why(Cases[c]) IN bad' = (IF w = {} THEN bad ELSE Append(bad, [i |-> c, why |-> SetSeq(w)]))
        /\ c' = c + 1
Report == c = Len(Cases) + 1 /\ ndJsonSerialize(IOEnv.OUT, bad) /\ c' = c + 1 /\ UNCHANGED bad
Next == Step \/ Report
Spec == Init /\ [][Next]_<<c, bad>>
=============================================================================
