------------------------------ MODULE MemPlan -------------------------------
(* Placing activations in one pool.  g: [nodes: <<[n, i, o]>> in execution order,
   inp, out, cap: <<[n, t]>> what nested graphs of node n take from outside];
   size: bytes of each activation; plan: tensor -> [off, len].
   Step 0 is the moment the inputs are there and nothing has run yet.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
Ran(s) == {s[k] : k \in 1..Len(s)}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE SumOf(_, _)
SumOf(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(S \ {x}, f)
Taken(g, k) == Ran(g.nodes[k].i) \cup {g.cap[j].t : j \in {j \in 1..Len(g.cap) : g.cap[j].n = g.nodes[k].n}}
Activations(g) == (Ran(g.inp) \cup UNION {Ran(g.nodes[k].o) : k \in 1..Len(g.nodes)}) \ {""}
Born(g, t) == IF t \in Ran(g.inp) THEN 0 ELSE CHOOSE k \in 1..Len(g.nodes) : t \in Ran(g.nodes[k].o)
Dies(g, t) == IF t \in Ran(g.out) THEN Len(g.nodes) ELSE Max({Born(g, t)} \cup {k \in 1..Len(g.nodes) : t \in Taken(g, k)})
(* during step k the operands and results of node k are all in memory *)
Live(g, k) == {t \in Activations(g) : Born(g, t) <= k /\ k <= Dies(g, t)}
PadTo(n, p) == ((n + p - 1) \div p) * p
Apart(a, b) == a.off + a.len <= b.off \/ b.off + b.len <= a.off
Together(g, s, t) == \E k \in 0..Len(g.nodes) : {s, t} \subseteq Live(g, k)
=============================================================================
