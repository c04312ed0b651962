------------------------------- MODULE T_Infer -------------------------------
(* Trace validation of the pool-backed inference.
   case [kind |-> "run", inits, nodes as in T_Session (in execution order), vars, lines: <<[v, at: <<[n, s] of every tensor>>>>,
         lows: the values of vars at the lines' starts, ok, err,
         blocks: <<[n, off, len]>> the planned pool, size,
         steps: <<[given: tensors, vals: of vars, ok, err, fails (a call that has to fail), outs: <<[n, s, fx]>>, want: <<[n, s, fx]>> by an independent evaluator,
                  ev: <<[r: <<[n, lo, hi]>>, w: <<[n, lo, hi]>>]>> the pool bytes each node reads and writes; the first entry is the copying of the inputs,
                  the last one the returned outputs]>>]
   case [kind |-> "pool", size, width, blocks, ops: <<[op, n, shape, hasshape, data, ok, s, all: pool bytes of the whole pool afterwards]>>]
   case [kind |-> "kv", heads, kv, dim, planes, layer, ctx, q, k, v (flat), batch, chunks, exact, got, once, cache0, cache: flat]        *)
EXTENDS Exec, Json, IOUtils
SE == INSTANCE ShapeEngine WITH MaxP <- 64, MaxR <- 64
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, bad
Clause(n, b) == IF b THEN {} ELSE {n}
Show(x) == ToString(x)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Named(seq, x) == seq[CHOOSE k \in 1..Len(seq) : seq[k].n = x]
HasN(seq, x) == \E k \in 1..Len(seq) : seq[k].n = x
Close(a, b, r) == a = b \/ AbsI(a - b) <= 5 + AbsI(b) \div r
CloseTo(a, b, r) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Close(a[k], b[k], r)
(* ---- the engine's class: every dimension follows one variable in a floor-linear way *)
LineOf(cs, k, t, j) == [x \in 1..Len(cs.lines[k].at) |-> Named(cs.lines[k].at[x], t).s[j]]
DimOk(cs, t, j) ==
  LET moving == {k \in 1..Len(cs.lines) : ~SE!Constant(LineOf(cs, k, t, j))} IN
  Cardinality(moving) <= 1 /\ \A k \in moving : SE!Linear(LineOf(cs, k, t, j))
(* what the lines say about one assignment *)
DimAt(cs, vals, t, j) ==
  LET moving == {k \in 1..Len(cs.lines) : ~SE!Constant(LineOf(cs, k, t, j))} IN
  IF moving = {} THEN LineOf(cs, 1, t, j)[1]
  ELSE LET k == CHOOSE k \in moving : TRUE IN LineOf(cs, k, t, j)[vals[k] - cs.lows[k] + 1]
Ranked(cs) == \A k \in 1..Len(cs.lines) : \A x \in 1..Len(cs.lines[k].at) : \A m \in 1..Len(cs.lines[k].at[x]) :
                LET y == cs.lines[k].at[x][m] IN Len(y.s) = Len(cs.lines[1].at[1][m].s) /\ \A j \in 1..Len(y.s) : y.s[j] >= 1
Tensors(cs) == {cs.lines[1].at[1][m].n : m \in 1..Len(cs.lines[1].at[1])}
RankOf(cs, t) == Len(Named(cs.lines[1].at[1], t).s)
InClass(cs) == Ranked(cs) /\ \A t \in Tensors(cs) : \A j \in 1..RankOf(cs, t) : DimOk(cs, t, j)
Agrees(cs, st) == \A m \in 1..Len(st.want) : LET x == st.want[m] IN
                    x.n \in Tensors(cs) => Len(x.s) = RankOf(cs, x.n) /\ \A j \in 1..Len(x.s) : x.s[j] = DimAt(cs, st.vals, x.n, j)
(* ---- the pool during one call *)
Over(a, b) == a.lo < b.hi /\ b.lo < a.hi
(* the last step before k that writes exactly this view of t; nothing else touches it until k *)
Kept(ev, k, x) == \E i \in 1..(k - 1) : (\E m \in 1..Len(ev[i].w) : ev[i].w[m] = x) /\
                    (\A m \in 1..Len(ev[i].w) : ev[i].w[m].n # x.n => ~Over(ev[i].w[m], x)) /\
                    \A i2 \in (i + 1)..(k - 1) : \A m \in 1..Len(ev[i2].w) : ~Over(ev[i2].w[m], x)
PoolWhy(cs, ev) ==
  UNION {UNION {Clause("node " \o ToString(k - 1) \o " reads " \o ev[k].r[m].n \o " after it was overwritten", Kept(ev, k, ev[k].r[m])) : m \in 1..Len(ev[k].r)} \cup
         UNION {Clause("node " \o ToString(k - 1) \o " writes " \o ev[k].w[m].n \o " over its operand",
                       \A q \in 1..Len(ev[k].r) : ~Over(ev[k].w[m], ev[k].r[q])) : m \in 1..Len(ev[k].w)} \cup
         UNION {LET x == (ev[k].r \o ev[k].w)[m] IN
                Clause("the view of " \o x.n \o " leaves its block",
                       HasN(cs.blocks, x.n) => LET b == Named(cs.blocks, x.n) IN b.off <= x.lo /\ x.hi <= b.off + b.len /\ x.hi <= cs.size)
                : m \in 1..(Len(ev[k].r) + Len(ev[k].w))}
         : k \in 1..Len(ev)}
(* ---- what the operators define *)
Wanted(q) == (q[1] * 10000) \div q[2]
Given(cs, st) == [t \in {st.given[k].n : k \in 1..Len(st.given)} |-> Ten(Named(st.given, t), FALSE)] @@
                 [t \in {cs.inits[k].n : k \in 1..Len(cs.inits)} |-> Ten(Named(cs.inits, t), TRUE)]
(* the independent evaluator and the specification say the same where both speak *)
Fits1(fx, v) == \A e \in 1..Len(fx) : LET q == v[e] IN
                  q = Undef \/ q[2] = 0 \/ AbsI(q[1]) > 200000 \/ AbsI(q[1]) \div q[2] > 90000 \/ Close(fx[e], Wanted(q), 10000)
Oracles(st, env) == \A m \in 1..Len(st.want) : LET x == st.want[m] IN
                   x.n \in DOMAIN env => env[x.n].s = x.s /\ (env[x.n].has /\ Len(env[x.n].v) = Len(x.fx) => Fits1(x.fx, env[x.n].v))
StepWhy(cs, k) ==
  LET st == cs.steps[k]
      env == RunNodes(cs.nodes, Given(cs, st), <<>>).env
      who(x) == "call " \o ToString(k) \o ": " \o x
  IN IF ~Agrees(cs, st) \/ ~Oracles(st, env) THEN {}
     ELSE IF st.fails THEN Clause(who("operands of no valid shape are accepted"), ~st.ok)
     ELSE IF ~st.ok THEN {who("raised " \o st.err)}
     ELSE {who(w) : w \in
       UNION {LET x == st.want[m] IN
              IF ~HasN(st.outs, x.n) THEN {"no result " \o x.n}
              ELSE LET y == Named(st.outs, x.n) IN
                   Clause("result " \o x.n \o " shape " \o Show(y.s) \o " is not " \o Show(x.s), y.s = x.s) \cup
                   Clause("result " \o x.n \o " values " \o Show(y.fx) \o " are not " \o Show(x.fx), CloseTo(y.fx, x.fx, 10000)) \cup
                   (IF x.n \in DOMAIN env
                    THEN Clause("result " \o x.n \o " shape " \o Show(y.s) \o " is not the specified " \o Show(env[x.n].s), y.s = env[x.n].s) \cup
                         (IF env[x.n].has /\ Len(env[x.n].v) = Len(y.fx)
                          THEN Clause("result " \o x.n \o " values " \o Show(y.fx) \o " are not the specified " \o Show(env[x.n].v),
                                      Fits1(y.fx, env[x.n].v))
                          ELSE {})
                    ELSE {})
              : m \in 1..Len(st.want)} \cup PoolWhy(cs, st.ev)}
RunWhy(cs) == IF ~InClass(cs) THEN {}
              ELSE IF ~cs.ok THEN {"raised " \o cs.err}
              ELSE UNION {StepWhy(cs, k) : k \in 1..Len(cs.steps)}
(* ---- the pool by itself: bytes of the whole pool after every call *)
Count(cs, n) == Named(cs.blocks, n).len \div cs.width
Wants(cs, o) == IF o.hasshape THEN o.shape ELSE <<Count(cs, o.n)>>
MayGet(cs, o) == HasN(cs.blocks, o.n) /\ (o.hasshape => Prod(o.shape) <= Count(cs, o.n))
Put(bytes, at, data) == [k \in 1..Len(bytes) |-> IF k > at /\ k <= at + Len(data) THEN data[k - at] ELSE bytes[k]]
OpStep(cs, bytes, o) ==      \* data: bytes to write
  IF ~MayGet(cs, o) THEN [why |-> Clause(o.op \o " " \o o.n \o " " \o Show(o.shape) \o " is accepted", ~o.ok), bytes |-> bytes]
  ELSE LET b == Named(cs.blocks, o.n)
           room == Count(cs, o.n) * cs.width
           data == CASE o.op = "zero" -> <<>> [] o.op = "fill" -> SubSeq(o.data, 1, room) [] OTHER -> o.data
           next == IF o.op = "zero" THEN [k \in 1..Len(bytes) |-> 0] ELSE Put(bytes, b.off, data)
       IN [why |-> Clause(o.op \o " " \o o.n \o " raised " \o o.err, o.ok) \cup
                   (IF o.ok /\ o.op = "get" THEN Clause("view of " \o o.n \o " has shape " \o Show(o.s), o.s = Wants(cs, o)) ELSE {}) \cup
                   (IF o.ok THEN Clause(o.op \o " " \o o.n \o " leaves the pool as " \o Show(o.all) \o ", not " \o Show(next), o.all = next) ELSE {}),
           bytes |-> o.all]
RECURSIVE Ops(_, _, _, _)
Ops(cs, bytes, ops, k) ==
  IF k > Len(ops) THEN {}
  ELSE LET r == OpStep(cs, bytes, ops[k]) IN {"operation " \o ToString(k) \o ": " \o w : w \in r.why} \cup Ops(cs, IF r.why = {} THEN r.bytes ELSE ops[k].all, ops, k + 1)
Fits(cs) == cs.size > 0 /\ \A k \in 1..Len(cs.blocks) : cs.blocks[k].off >= 0 /\ cs.blocks[k].len > 0 /\ cs.blocks[k].off + cs.blocks[k].len <= cs.size
PoolCase(cs) == IF ~Fits(cs) THEN Clause("blocks outside the pool are accepted", ~cs.ok)
                ELSE IF ~cs.ok THEN {"raised " \o cs.err} ELSE Ops(cs, cs.first, cs.ops, 1)
(* ---- attention over a cache: chunk after chunk *)
Total(cs) == Len(cs.v) \div (cs.kv * cs.dim)            \* positions; batch 1
VAt(cs, p, h, d) == cs.v[(p * cs.kv + h) * cs.dim + d + 1]
KAt(cs, p, h, d) == cs.k[(p * cs.kv + h) * cs.dim + d + 1]
RECURSIVE SumV(_, _, _, _)
SumV(cs, p, h, d) == IF p < 0 THEN 0 ELSE VAt(cs, p, h, d) + SumV(cs, p - 1, h, d)
Uniform(cs, i) ==                                       \* equal weights: the mean over everything up to the own position
  LET p == i \div (cs.heads * cs.dim)
      h == (i % (cs.heads * cs.dim)) \div cs.dim
      d == i % cs.dim
  IN (SumV(cs, p, h \div (cs.heads \div cs.kv), d) * 10000) \div (p + 1)
CacheAt(cs, i) ==                                        \* flat index -> plane, position, element
  LET row == cs.kvwidth per == cs.ctx * row
      plane == i \div per pos == (i % per) \div row e == i % row
  IN IF pos < Total(cs) /\ plane = 2 * cs.layer /\ e < cs.kv * cs.dim THEN cs.k[pos * cs.kv * cs.dim + e + 1]
     ELSE IF pos < Total(cs) /\ plane = 2 * cs.layer + 1 /\ e < cs.kv * cs.dim THEN cs.v[pos * cs.kv * cs.dim + e + 1]
     ELSE cs.cache0[i + 1]
KvWhy(cs) ==
  IF ~cs.ok THEN {"raised " \o cs.err}
  ELSE Clause("attention in chunks " \o Show(cs.chunks) \o " differs from attention at once", CloseTo(cs.got, cs.once, 5000)) \cup
       (IF cs.uniform THEN Clause("attention " \o Show(cs.got) \o " is not the mean of what is visible", \A i \in 0..(Len(cs.got) - 1) : Close(cs.got[i + 1], Uniform(cs, i), 5000)) ELSE {}) \cup
       Clause("the cache is " \o Show(cs.cache), Len(cs.cache) = Len(cs.cache0) /\ \A i \in 0..(Len(cs.cache) - 1) : cs.cache[i + 1] = CacheAt(cs, i))
Why(cs) == CASE cs.kind = "run" -> RunWhy(cs) [] cs.kind = "pool" -> PoolCase(cs) [] OTHER -> KvWhy(cs)
Init == c = 1 /\ bad = <<>>
Step == /\ c <= Len(Cases)
        /\ LET w == Why(Cases[c]) IN bad' = (IF w = {} THEN bad ELSE Append(bad, [i |-> c, why |-> SetSeq(w)]))
        /\ c' = c + 1
Report == c = Len(Cases) + 1 /\ ndJsonSerialize(IOEnv.OUT, bad) /\ c' = c + 1 /\ UNCHANGED bad
Next == Step \/ Report
Spec == Init /\ [][Next]_<<c, bad>>
=============================================================================
