----------------------------- MODULE MC_Profile -----------------------------
(* Design check of model totals: profiling walks the counted nodes and adds up
   figures and weights; the totals it ends with are the sums over the table,
   each used weight counted once in the de-duplicated figure, whatever was
   excluded by an earlier call.                                              *)
EXTENDS Integers, Sequences, FiniteSets
Ops == {"A", "B"}
Weights == {"w1", "w2"}
Size == [w \in Weights |-> IF w = "w1" THEN 3 ELSE 5]
Node == [op : Ops, macs : {0, 2}, use : UNION {[1..n -> Weights] : n \in 0..2}]
VARIABLES nodes, excl, pc, k, tot, seen, rows, calls
vars == <<nodes, excl, pc, k, tot, seen, rows, calls>>
Zero == [macs |-> 0, params |-> 0, dedup |-> 0]
Init == nodes = <<>> /\ excl = {} /\ pc = "load" /\ k = 1 /\ tot = Zero /\ seen = {} /\ rows = <<>> /\ calls = 0
Load == pc = "load" /\ \E n \in 1..2 : nodes' \in [1..n -> Node] /\ pc' = "idle" /\ UNCHANGED <<excl, k, tot, seen, rows, calls>>
Begin == pc = "idle" /\ calls < 2 /\ \E X \in SUBSET Ops : excl' = X /\ pc' = "run" /\ k' = 1 /\ tot' = Zero /\ seen' = {} /\ rows' = <<>> /\ calls' = calls + 1 /\ UNCHANGED nodes
Params(nd) == LET RECURSIVE S(_) S(j) == IF j = 0 THEN 0 ELSE Size[nd.use[j]] + S(j - 1) IN S(Len(nd.use))
Used(nd) == {nd.use[j] : j \in 1..Len(nd.use)}
SizeOf(S) == (IF "w1" \in S THEN Size["w1"] ELSE 0) + (IF "w2" \in S THEN Size["w2"] ELSE 0)
Profile == /\ pc = "run" /\ k <= Len(nodes)
           /\ IF nodes[k].op \in excl THEN UNCHANGED <<tot, seen, rows>>
              ELSE /\ tot' = [macs |-> tot.macs + nodes[k].macs, params |-> tot.params + Params(nodes[k]), dedup |-> tot.dedup + SizeOf(Used(nodes[k]) \ seen)]
                   /\ seen' = seen \cup Used(nodes[k])
                   /\ rows' = Append(rows, [macs |-> nodes[k].macs, params |-> Params(nodes[k]), n |-> k])
           /\ k' = k + 1 /\ UNCHANGED <<nodes, excl, pc, calls>>
Show == pc = "run" /\ k = Len(nodes) + 1 /\ pc' = "idle" /\ UNCHANGED <<nodes, excl, k, tot, seen, rows, calls>>
Next == Load \/ Begin \/ Profile \/ Show
Spec == Init /\ [][Next]_vars
Done == pc = "idle" /\ calls > 0
SumOf(f(_), n) == LET RECURSIVE S(_) S(j) == IF j = 0 THEN 0 ELSE f(j) + S(j - 1) IN S(n)
TotalsAreSums == Done => tot.macs = SumOf(LAMBDA j : rows[j].macs, Len(rows)) /\ tot.params = SumOf(LAMBDA j : rows[j].params, Len(rows))
DedupCountsOnce == Done => tot.dedup = SizeOf(UNION {Used(nodes[j]) : j \in {j \in 1..Len(nodes) : nodes[j].op \notin excl}}) /\ tot.dedup <= tot.params
ExclusionIsLocal == Done => {rows[j].n : j \in 1..Len(rows)} = {j \in 1..Len(nodes) : nodes[j].op \notin excl}
=============================================================================
