---------------------------- MODULE T_LlmKernels ----------------------------
(* Trace validation of the language-model kernels.
   Numbers of results are fx = 10000 * value (10^9 for anything not finite).
   [kind |-> "attn", heads, kv, dim, batch, planes, ctx, width, cache0 (flat, in units),
      calls: <<[layer, past, n, cached, q: per token per head (batch, token, head, dim), k, v, ok, err, out (flat fx), cache (flat)]>>]
   [kind |-> "rope", half, batch, n, heads, x: [b][t][h] -> dims, pos: [b][t], cos, sin: [p] -> half, ok, err, out: [b][t][h] -> dims (fx)]
   [kind |-> "norm", op, rms, eps, rows: <<[x, fx]>>, w, hasb, b, ok, err]         rows are normalised by themselves
   [kind |-> "mad", x, w, b (flat, broadcast already), ok, err, fx]
   [kind |-> "silu", n, ok, err, fx in units of ln 2]
   [kind |-> "gelu", x, ok, err, fx]
   [kind |-> "range", table (rows), past, n, ok, err, out: rows of fx]
   [kind |-> "gather", x: lines along the axis, idx: lines, ok, err, out: lines of fx]                                                       *)
EXTENDS LlmKernels, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, bad
Clause(n, b) == IF b THEN {} ELSE {n}
Show(x) == ToString(x)
Big == 1000000000
(* fx is num/den *)
Is(fx, num, den, tol) == fx < Big /\ AbsI(fx - (num * 10000) \div den) <= tol
Ok(cs, S) == IF ~cs.ok THEN {"raised " \o cs.err} ELSE S
(* ---- attention *)
Ix(cs, b, plane, row) == ((b - 1) * cs.planes + plane) * cs.ctx * cs.width + (row - 1) * cs.width      \* plane from 0; columns from 1 on top of it
(* the cache after a call: the new tokens' rows of the two planes of the layer, the first kv * dim columns *)
After(cs, x, cache) ==
  LET wide == cs.kv * cs.dim
      size == cs.planes * cs.ctx * cs.width
  IN [i \in 1..Len(cache) |->
        LET b == (i - 1) \div size + 1
            plane == ((i - 1) % size) \div (cs.ctx * cs.width)
            row == (((i - 1) % (cs.ctx * cs.width)) \div cs.width) + 1
            col == ((i - 1) % cs.width) + 1
            t == row - x.past
            h == ((col - 1) \div cs.dim) + 1
            d == ((col - 1) % cs.dim) + 1
        IN IF col > wide \/ t < 1 \/ t > x.n \/ plane \div 2 # x.layer THEN cache[i]
           ELSE IF plane % 2 = 0 THEN x.k[b][t][h][d] ELSE x.v[b][t][h][d]]
Row(cs, cache, b, plane, row, h) == [d \in 1..cs.dim |-> cache[Ix(cs, b, plane, row) + (h - 1) * cs.dim + d]]
CallWhy(cs, j, cache) ==
  LET x == cs.calls[j]
      past == IF x.cached THEN x.past ELSE 0
      wide == cs.heads * cs.dim
      who(s) == "call " \o ToString(j) \o ": " \o s
      want(b, t, h) ==
        LET g == HeadOf(h, cs.heads, cs.kv)
            ks == [u \in 1..(past + t) |-> IF u <= past THEN Row(cs, cache, b, 2 * x.layer, u, g) ELSE x.k[b][u - past][g]]
            vs == [u \in 1..(past + t) |-> IF u <= past THEN Row(cs, cache, b, 2 * x.layer + 1, u, g) ELSE x.v[b][u - past][g]]
        IN Attend(x.q[b][t][h], ks, vs)
  IN IF ~x.ok THEN {who("raised " \o x.err)}
     ELSE Clause(who("size of the result"), Len(x.out) = cs.batch * x.n * wide) \cup
          (IF Len(x.out) # cs.batch * x.n * wide THEN {} ELSE
          {who("batch " \o Show(p[1]) \o " token " \o Show(p[2]) \o " head " \o Show(p[3]) \o " is not the weighted mean of what it sees") :
             p \in {p \in (1..cs.batch) \X (1..x.n) \X (1..cs.heads) :
                      LET w == TLCEval(want(p[1], p[2], p[3])) IN
                      \E d \in 1..cs.dim : ~Is(x.out[(((p[1] - 1) * x.n + p[2] - 1) * cs.heads + p[3] - 1) * cs.dim + d], w[1][d], w[2], 4)}}) \cup
          Clause(who("the cache afterwards"), x.cache = (IF x.cached THEN After(cs, x, cache) ELSE cache))
RECURSIVE Calls(_, _, _)
Calls(cs, j, cache) ==
  IF j > Len(cs.calls) THEN {}
  ELSE LET w == CallWhy(cs, j, cache) IN
       IF w # {} THEN w ELSE Calls(cs, j + 1, IF cs.calls[j].cached THEN TLCEval(After(cs, cs.calls[j], cache)) ELSE cache)
(* ---- the others *)
RopeWhy(cs) == Ok(cs, {"batch " \o Show(p[1]) \o " token " \o Show(p[2]) \o " head " \o Show(p[3]) \o " is not rotated by its position" :
   p \in {p \in (1..cs.batch) \X (1..cs.n) \X (1..cs.heads) :
            LET at == cs.pos[p[1]][p[2]] + 1
                y == Rotate(cs.x[p[1]][p[2]][p[3]], cs.cos[at], cs.sin[at])
            IN cs.out[p[1]][p[2]][p[3]] # [i \in 1..Len(y) |-> 10000 * y[i]]}})
NormWhy(cs) == Ok(cs, {"row " \o Show(k) \o " " \o Show(cs.rows[k].x) \o " gives " \o Show(cs.rows[k].fx) :
   k \in {k \in 1..Len(cs.rows) :
            LET x == cs.rows[k].x
                y == Norm(x, cs.rms, cs.eps)
                w == cs.w
            IN NormOk(x, cs.rms, cs.eps) /\
               \E i \in 1..Len(x) : LET o == ((i - 1) % Len(w)) + 1 IN
                  ~Is(cs.rows[k].fx[i], y[1][i] * w[o] + (IF cs.hasb THEN cs.b[o] * y[2] ELSE 0), y[2], cs.tol)}})
MadWhy(cs) == Ok(cs, Clause("values " \o Show(cs.fx), cs.fx = [i \in 1..Len(cs.x) |-> 10000 * (cs.x[i] * cs.w[i] + cs.b[i])]))
SiluWhy(cs) == Ok(cs, Clause("values " \o Show(cs.fx),
   \A i \in 1..Len(cs.n) : LET n == cs.n[i] IN IF n >= 0 THEN Is(cs.fx[i], n * Pow2(n), 1 + Pow2(n), 4) ELSE Is(cs.fx[i], n, 1 + Pow2(-n), 4)))
(* 10000 * gelu(0..4), by erf and by tanh; gelu(-x) = gelu(x) - x *)
GeluAt(n, tanh) == (IF tanh THEN <<0, 8412, 19546, 29964, 39999>> ELSE <<0, 8413, 19545, 29960, 39999>>)[n + 1]
GeluWhy(cs) == Ok(cs, Clause("values " \o Show(cs.fx),
   \A i \in 1..Len(cs.x) : LET n == cs.x[i] IN AbsI(cs.fx[i] - (IF n >= 0 THEN GeluAt(n, cs.tanh) ELSE GeluAt(-n, cs.tanh) + 10000 * n)) <= 1))
RangeWhy(cs) == Ok(cs, Clause("rows " \o Show(cs.out), cs.out = [t \in 1..cs.n |-> [i \in 1..Len(cs.table[1]) |-> 10000 * cs.table[cs.past + t][i]]]))
GatherWhy(cs) == Ok(cs, Clause("values " \o Show(cs.out),
   cs.out = [l \in 1..Len(cs.idx) |-> [i \in 1..Len(cs.idx[l]) |-> LET k == cs.idx[l][i] IN 10000 * cs.x[l][IF k < 0 THEN Len(cs.x[l]) + k + 1 ELSE k + 1]]]))
(* ---- decoding step by step is reading at once *)
SplitWhy(cs) == Ok(cs, {"token " \o Show(t) \o " of the cut " \o Show(cs.cut) \o " differs from reading at once" :
   t \in {t \in 1..Len(cs.once) : Len(cs.got) # Len(cs.once) \/ \E i \in 1..Len(cs.once[t]) : AbsI(cs.once[t][i] - cs.got[t][i]) > 20 + AbsI(cs.once[t][i]) \div 2000}})
Why(cs) == CASE cs.kind = "attn" -> Calls(cs, 1, cs.cache0)
             [] cs.kind = "rope" -> RopeWhy(cs)
             [] cs.kind = "norm" -> NormWhy(cs)
             [] cs.kind = "mad" -> MadWhy(cs)
             [] cs.kind = "silu" -> SiluWhy(cs)
             [] cs.kind = "gelu" -> GeluWhy(cs)
             [] cs.kind = "range" -> RangeWhy(cs)
             [] cs.kind = "gather" -> GatherWhy(cs)
             [] cs.kind = "split" -> SplitWhy(cs)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Init == c = 1 /\ bad = <<>>
Step == /\ c <= Len(Cases)
        /\ LET w == Why(Cases[c]) IN bad' = (IF w = {} THEN bad ELSE Append(bad, [i |-> c, why |-> SetSeq(w)]))
        /\ c' = c + 1
Report == c = Len(Cases) + 1 /\ ndJsonSerialize(IOEnv.OUT, bad) /\ c' = c + 1 /\ UNCHANGED bad
Next == Step \/ Report
Spec == Init /\ [][Next]_<<c, bad>>
=============================================================================
