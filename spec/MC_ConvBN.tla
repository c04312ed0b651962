----------------------------- MODULE MC_ConvBN ------------------------------
(* Design check: on all small graphs of one-channel convolutions (a weight and
   maybe a bias), normalisations and negations, fusing every pair that may be
   fused, one after another, leaves every graph output the same number for
   every input; the pairs are disjoint and nothing else changes.             *)
EXTENDS ConvBN
CONSTANTS MaxNodes
VARIABLES g, h, val, phase, todo
vars == <<g, h, val, phase, todo>>
Q(n) == <<n, 1>>
Given == [w1 |-> Q(3), w2 |-> Q(-2), b1 |-> Q(5), ga |-> Q(4), be |-> Q(-1), me |-> Q(2), va |-> <<7, 4>>, ga2 |-> Q(-3), va2 |-> Q(2)]
Eps == <<1, 4>>
Avail == {"x"} \cup Produced(g)
Nm == "n" \o ToString(Len(g.nodes))
Tn == "t" \o ToString(Len(g.nodes))
Kernel == <<[k |-> "kernel_shape", v |-> <<1, 1>>]>>
Kinds(s) == {[op |-> "Conv", i |-> <<s, w>>, a |-> Kernel] : w \in {"w1", "w2"}} \cup {[op |-> "Conv", i |-> <<s, "w1", b>>, a |-> Kernel] : b \in {"b1", "x"}}
        \cup {[op |-> "BatchNormalization", i |-> p, a |-> <<>>] : p \in {<<s, "ga", "be", "me", "va">>, <<s, "ga2", "be", "b1", "va2">>}}
        \cup {[op |-> "Neg", i |-> <<s>>, a |-> <<>>]}
Init == g = [nodes |-> <<>>, inp |-> <<"x">>, out |-> <<>>, cap |-> <<>>, ini |-> <<"w1", "w2", "b1", "ga", "be", "me", "va", "ga2", "va2">>] /\ h = g /\ val = Given /\ phase = "build" /\ todo = {}
Build == /\ phase = "build" /\ Len(g.nodes) < MaxNodes
         /\ \E s \in Avail : \E k \in Kinds(s) : g' = [g EXCEPT !.nodes = Append(@, [n |-> Nm, op |-> k.op, i |-> k.i, o |-> <<Tn>>, a |-> k.a])]
         /\ UNCHANGED <<h, val, phase, todo>>
Outputs == /\ phase = "build" /\ g.nodes # <<>>
           /\ \E extra \in Produced(g) : LET last == g.nodes[Len(g.nodes)].o[1] IN
                g' = [g EXCEPT !.out = IF extra = last THEN <<last>> ELSE <<last, extra>>]
           /\ h' = g' /\ phase' = "fuse" /\ todo' = Pairs(g', Must) /\ UNCHANGED val
Fuse == /\ phase = "fuse" /\ \E p \in todo :
           LET c == NodeNamed(h, p[1]) b == NodeNamed(h, p[2]) nb == c.n \o "_bias"
               bv == IF In(c, 3) = "" THEN <<Q(0)>> ELSE <<val[In(c, 3)]>>
               v(k) == <<val[b.i[k]]>>
           IN /\ h' = [h EXCEPT !.nodes = FuseNodes(h, {p}, LAMBDA x : nb), !.ini = Append(@, nb)]
              /\ val' = [val EXCEPT ![c.i[2]] = NewWeight(<<@>>, 1, Scales(v(2), v(5), Eps))[1]] @@ (nb :> NewBias(bv, Scales(v(2), v(5), Eps), v(3), v(4))[1])
              /\ todo' = todo \ {p}
        /\ UNCHANGED <<g, phase>>
Next == Build \/ Outputs \/ Fuse
Spec == Init /\ [][Next]_vars
RECURSIVE Value(_, _, _, _)
Value(gr, vs, t, x) ==
  IF t = "x" THEN x ELSE IF t \in DOMAIN vs THEN vs[t]
  ELSE LET nd == CHOOSE nd \in Nodes(gr) : t \in Makes(nd)
           a(k) == Value(gr, vs, nd.i[k], x)
       IN CASE nd.op = "Neg" -> T!QNeg(a(1))
            [] nd.op = "Conv" -> LET y == T!QMul(a(1), a(2)) IN IF In(nd, 3) = "" THEN y ELSE T!QAdd(y, a(3))
            [] OTHER -> T!QAdd(T!QMul(T!QSub(a(1), a(4)), Scales(<<a(2)>>, <<a(5)>>, Eps)[1]), a(3))
SameFunction == phase = "fuse" => \A t \in Rng(g.out) : \A x \in {Q(0), Q(2)} : Value(h, val, t, x) = Value(g, Given, t, x)
SameOut == phase = "fuse" => h.out = g.out /\ Len(h.nodes) + Cardinality(Pairs(g, Must)) - Cardinality(todo) = Len(g.nodes)
Disjoint == phase = "fuse" => \A p, q \in Pairs(g, Must) : p # q => p[1] # q[1] /\ p[2] # q[2]
Wired == phase = "fuse" => \A nd \in Nodes(h) : \A t \in Uses(nd) : t \in Produced(h) \/ IsIn(t, h.ini) \/ t = "x"
=============================================================================
