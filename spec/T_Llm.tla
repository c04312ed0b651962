-------------------------------- MODULE T_Llm -------------------------------
(* Trace validation of built language models.  A case is one model, built in a process that built others before:
   [ok, err, c: description, m: weight map, vis: v or [C |-> 0], inp: graph inputs, outp: <<k>> node of the output,
    ini: initializer names, names: node names, cuts: the slices of each tensor, in node order, saved: nodes of the exported file, profiled again, tens: produced tensors,
    runs: <<[B, S, past, ctx, nodes: <<[op, ins, sh, macs, io, st, kv, w, mem]>>, macs, params, dedup, kvp, cache,
            lats: <<[dev, cfg, has, nodes: <<[f, m, l, c, ml, sy, b]>>, total, ctxm, rows: <<[n, f, m, l]>>, tot]>>]>>]  *)
EXTENDS Llm, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, bad
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Clause(n, b) == IF b THEN {} ELSE {n}
Str(k) == ToString(k)
Distinct1(s) == Cardinality({s[j] : j \in 1..Len(s)}) = Len(s)
Graph(cs, r) == IF cs.vis.C > 0 THEN Vision(cs.c, cs.vis) ELSE Text(cs.c, cs.m, r.B, r.S, r.past)
NodeOwes(e, a, where) ==
  Clause(where \o ": output shape " \o Str(a.sh) \o " instead of " \o Str(e.sh), a.sh = e.sh) \cup
  Clause(where \o ": " \o Str(a.macs) \o " MACs instead of " \o Str(e.macs), a.macs = e.macs) \cup
  Clause(where \o ": " \o Str(a.w) \o " parameters instead of " \o Str(Held(e)), a.w = Held(e)) \cup
  Clause(where \o ": reads " \o Str(a.st) \o " weight elements instead of " \o Str(e.st), a.st = e.st) \cup
  Clause(where \o ": " \o Str(a.io) \o " activation elements instead of " \o Str(e.io), a.io = e.io) \cup
  Clause(where \o ": reads " \o Str(a.kv) \o " cache elements instead of " \o Str(e.kv), a.kv = e.kv)
Bottle(e, d, cfg) == IF CLat(e, d, cfg) > MLat(e, d, cfg) THEN "Compute" ELSE "Memory"
LatOwes(E, A, m, l, where) ==
  LET d == l.dev cfg == l.cfg
      node(k) == LET e == E[m[k]] x == l.nodes[k] IN
        Clause(where \o A[k].op \o ": FLOPs", x.f = 2 * e.macs) \cup Clause(where \o A[k].op \o ": memory " \o Str(x.m) \o " instead of " \o Str(Mem(e, cfg)), x.m = Mem(e, cfg)) \cup
        (IF ~l.has THEN Clause(where \o A[k].op \o ": a latency without a device", x.l = 0)
         ELSE Clause(where \o A[k].op \o ": latency " \o Str(x.l) \o " instead of " \o Str(Lat(e, d, cfg)), x.l = Lat(e, d, cfg)) \cup
              Clause(where \o A[k].op \o ": parts of the latency", x.c = CLat(e, d, cfg) /\ x.ml = MLat(e, d, cfg) /\ x.sy = Sync(e, d, cfg)) \cup
              Clause(where \o A[k].op \o ": bottleneck", x.b = Bottle(e, d, cfg) \/ CLat(e, d, cfg) = MLat(e, d, cfg)))
  IN UNION {node(k) : k \in 1..Len(A)} \cup
     Clause(where \o "total FLOPs or memory is not the sum", l.total[1] = 2 * Macs(E) /\ l.total[2] = Sum([k \in 1..Len(E) |-> Mem(E[k], cfg)])) \cup
     Clause(where \o "total latency is not the sum", l.total[3] = IF l.has THEN Latency(E, d, cfg) ELSE 0) \cup
     Clause(where \o "resident memory", l.ctxm = LET a == MemOf(E, cfg, "MM") b == MemOf(E, cfg, "MHA") o == MemOf(E, cfg, "Others") IN <<a, b, o, a + b + o>>) \cup
     Clause(where \o "the table shows something else",
            /\ Len(l.rows) = Len(A)
            /\ \A k \in 1..Len(A) : /\ l.rows[k].op = A[k].op /\ l.rows[k].f = l.nodes[k].f /\ l.rows[k].m = l.nodes[k].m \div 16
                                    /\ l.rows[k].l = l.nodes[k].l
            /\ l.tot = l.total)
RunOwes(cs, r, where) ==
  LET E == TLCEval(Graph(cs, r)) A == r.nodes m == TLCEval(Match(E, A, <<>>)) IN
  IF Len(m) < Len(A) THEN {where \o "node " \o cs.names[Len(m) + 1] \o " (" \o A[Len(m) + 1].op \o ") is not one of this architecture in this place"}
  ELSE IF Len(A) < Len(E) THEN {where \o "a node of the architecture is missing"}
  ELSE UNION {NodeOwes(E[m[k]], A[k], where \o cs.names[k]) : k \in 1..Len(A)} \cup
       Clause(where \o "total MACs", r.macs = Macs(E)) \cup Clause(where \o "total parameters", r.params = Params(E)) \cup
       Clause(where \o "distinct parameters", r.dedup = Distinct(E)) \cup
       Clause(where \o "cache size", r.kvp = -1 \/ r.kvp = KvParams(cs.c, r.B, r.S, r.past)) \cup
       Clause(where \o "cache shape", r.past = -1 \/ r.cache = CacheShape(cs.c, r.B, r.ctx)) \cup
       Clause(where \o "the output is not the last result", cs.outp = <<CHOOSE k \in 1..Len(m) : m[k] = Len(E)>>) \cup
       UNION {LatOwes(E, A, m, r.lats[j], where \o "device " \o Str(j) \o " ") : j \in 1..Len(r.lats)}
Why(cs) ==
  IF ~cs.ok THEN {"raised " \o cs.err}
  ELSE UNION {RunOwes(cs, cs.runs[j], "run " \o Str(j) \o ": ") : j \in 1..Len(cs.runs)} \cup
       Clause("the exported file holds other nodes",
              \/ cs.saved = <<>>
              \/ /\ Len(cs.saved) = Len(cs.names)
                 /\ \A k \in 1..Len(cs.names) : \E j \in 1..Len(cs.saved) :
                      LET a == cs.saved[j] e == cs.runs[Len(cs.runs)].nodes[k] IN a = [n |-> cs.names[k], op |-> e.op, sh |-> e.sh, macs |-> e.macs, io |-> e.io]) \cup
       UNION {LET q == cs.cuts[k].at IN
              Clause("the slices of " \o cs.cuts[k].x \o " do not divide it: " \o ToString(q),
                     /\ q[1][1] = 0 /\ q[Len(q)][2] = cs.cuts[k].of
                     /\ (\A j \in 1..Len(q) : q[j][3] = 1 /\ q[j][1] < q[j][2])
                     /\ (\A j \in 2..Len(q) : q[j][1] = q[j - 1][2])) : k \in 1..Len(cs.cuts)} \cup
       Clause("a name is used twice", Distinct1(cs.names) /\ Distinct1(cs.tens) /\ Distinct1(cs.ini) /\ Distinct1(cs.inp)) \cup
       Clause("a tensor is produced and given", {cs.tens[j] : j \in 1..Len(cs.tens)} \cap ({cs.ini[j] : j \in 1..Len(cs.ini)} \cup {cs.inp[j] : j \in 1..Len(cs.inp)}) = {}) \cup
       Clause("a weight belongs to no node", {cs.ini[j] : j \in 1..Len(cs.ini)} = UNION {{r.ins[j].n : j \in {j \in 1..Len(r.ins) : r.ins[j].t = "w"}} :
                                                                                          r \in {cs.runs[1].nodes[k] : k \in 1..Len(cs.runs[1].nodes)}})
Init == c = 1 /\ bad = <<>>
Step == /\ c <= Len(Cases)
        /\ LET w == Why(Cases[c]) IN bad' = (IF w = {} THEN bad ELSE Append(bad, [i |-> c, why |-> SetSeq(w)]))
        /\ c' = c + 1
Report == c = Len(Cases) + 1 /\ ndJsonSerialize(IOEnv.OUT, bad) /\ c' = c + 1 /\ UNCHANGED bad
Next == Step \/ Report
Spec == Init /\ [][Next]_<<c, bad>>
=============================================================================
