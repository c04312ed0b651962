----------------------------- MODULE LlmKernels -----------------------------
(* What the language-model kernels compute, on operands for which the results are rational.
   Keys are given in units of ln(2) * sqrt(head size), so that a softmax weighs a position by a power of two;
   rotations are by quarter turns; the spread of a normalised vector plus epsilon is a square.  *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE SumTo(_, _)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
AbsI(x) == IF x < 0 THEN -x ELSE x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
Dot(a, b) == SumTo([i \in 1..Len(a) |-> a[i] * b[i]], Len(a))
Pow2(n) == 2 ^ n
(* ---- attention of one query over the positions it sees: <<numerators, denominator>> *)
Attend(q, ks, vs) ==
  LET n == Len(ks)
      s == [u \in 1..n |-> Dot(q, ks[u])]
      m == MinOf({s[u] : u \in 1..n})
      w == [u \in 1..n |-> Pow2(s[u] - m)]
  IN <<[d \in 1..Len(vs[1]) |-> SumTo([u \in 1..n |-> w[u] * vs[u][d]], n)], SumTo(w, n)>>
(* which key/value head a query head reads *)
HeadOf(h, heads, kv) == (h - 1) \div (heads \div kv) + 1
(* tokens are [q, k, v]: the t-th result depends on tokens 1..t alone *)
Result(toks, t) == Attend(toks[t].q, [u \in 1..t |-> toks[u].k], [u \in 1..t |-> toks[u].v])
SameRatio(a, b) == \A d \in 1..Len(a[1]) : a[1][d] * b[2] = b[1][d] * a[2]
(* ---- rotation: halves of a head as the two coordinates *)
Rotate(x, c, s) ==
  LET h == Len(c) IN [j \in 1..(2 * h) |-> IF j <= h THEN x[j] * c[j] - x[j + h] * s[j] ELSE x[j - h] * s[j - h] + x[j] * c[j - h]]
(* ---- normalisation: <<numerators, denominator>> of (x - mean) / sqrt(var + eps), or x / sqrt(mean square + eps) *)
Root(n) == CHOOSE r \in 0..1000 : r * r = n
HasRoot(n) == \E r \in 0..1000 : r * r = n
Mean(x) == SumTo(x, Len(x)) \div Len(x)
Spread(x, m) == SumTo([i \in 1..Len(x) |-> (x[i] - m) * (x[i] - m)], Len(x)) \div Len(x)
Exact(x, m) == SumTo([i \in 1..Len(x) |-> (x[i] - m) * (x[i] - m)], Len(x)) % Len(x) = 0
Centre(x, rms) == IF rms THEN 0 ELSE Mean(x)
NormOk(x, rms, eps) == (rms \/ SumTo(x, Len(x)) % Len(x) = 0) /\ Exact(x, Centre(x, rms)) /\ LET v == Spread(x, Centre(x, rms)) + eps IN v > 0 /\ HasRoot(v)
Norm(x, rms, eps) == LET m == Centre(x, rms) IN <<[i \in 1..Len(x) |-> x[i] - m], Root(Spread(x, m) + eps)>>
=============================================================================
