------------------------------- MODULE Sparse ------------------------------
(* Sparsity of weights.  A weight is [O, I, K, z]: a matrix (K = 1) or a
   convolution weight (K elements per kernel) as its zero flags z, 1 for an
   element that is zero (the zero point 128 for uint8), in storage order.
   A block of (b0, b1) covers b0 rows and b1 columns at one kernel position; it
   is zero when all its elements are.  The report [b0, b1, bp, bq, p, q] says
   block size, fraction bp/bq of zero blocks and fraction p/q of zero elements.

   Fractions are compared by cross multiplication.  Limits are in tenths: a
   weight with more than Thres/10 zero elements is sparse, and a block pattern
   may lose less than Tol/10 of them.                                         *)
EXTENDS Integers, Sequences, FiniteSets
Thres == 4
Tol == 1
Clause(n, b) == IF b THEN {} ELSE {n}
Size(w) == w.O * w.I * w.K
At(w, o, i, k) == w.z[(o * w.I + i) * w.K + k + 1]
Divides(w, b0, b1) == b0 > 0 /\ b1 > 0 /\ w.O % b0 = 0 /\ w.I % b1 = 0
Blocks(w, b0, b1) == (w.O \div b0) * (w.I \div b1) * w.K
ZeroBlocks(w, b0, b1) ==
  Cardinality({t \in 0..Blocks(w, b0, b1) - 1 :
    LET k == t % w.K u == t \div w.K cols == w.I \div b1
        o == (u \div cols) * b0 i == (u % cols) * b1
    IN \A x \in 0..b0 - 1 : \A y \in 0..b1 - 1 : At(w, o + x, i + y, k) = 1})
Zeros(w) == ZeroBlocks(w, 1, 1)
Sparse(w, zeros) == 10 * zeros > Thres * Size(w)
(* does the pattern stay within the tolerance?  clearly, or exactly at it *)
Within(w, zeros, zb, nb) == 10 * zb * Size(w) > (10 * zeros - Tol * Size(w)) * nb
AtEdge(w, zeros, zb, nb) == 10 * zb * Size(w) = (10 * zeros - Tol * Size(w)) * nb
Valid(w, zeros, b0, b1) == Divides(w, b0, b1) /\ Within(w, zeros, ZeroBlocks(w, b0, b1), Blocks(w, b0, b1))
Max(a, b) == IF a > b THEN a ELSE b
Powers == {2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048}
(* doubling a block never makes a pattern valid that was not: looking at the next size is enough *)
Owes(w, r) ==
  LET zeros == Zeros(w) n == Max(r.b0, r.b1) IN
  Clause("the ratio of zero elements is not exact", r.p * Size(w) = zeros * r.q) \cup
  IF ~Sparse(w, zeros) THEN Clause("a dense weight has a sparse pattern", r.b0 = 1 /\ r.b1 = 1 /\ r.bp = 0)
  ELSE IF ~Divides(w, r.b0, r.b1) THEN {"the block does not divide the weight"}
  ELSE LET zb == ZeroBlocks(w, r.b0, r.b1) nb == Blocks(w, r.b0, r.b1) IN
       Clause("the ratio of zero blocks is not that of the block size", r.bp * nb = zb * r.bq) \cup
       Clause("the block pattern loses too many zeros", Within(w, zeros, zb, nb) \/ AtEdge(w, zeros, zb, nb)) \cup
       Clause("a longer block would do", ~Valid(w, zeros, 2 * n, 1) /\ ~Valid(w, zeros, 1, 2 * n)) \cup
       Clause("a square block would do", r.b0 = r.b1 \/ ~Valid(w, zeros, n, n))
(* what is not analysed is reported dense *)
None(r) == Clause("a weight that is not analysed has a sparse pattern", r.b0 = 1 /\ r.b1 = 1 /\ r.bp = 0 /\ r.p = 0)
(* a node shows the sparsest of its inputs *)
More(a, b) == a.p * b.q > b.p * a.q
NodeOwes(ins, r) == IF \E k \in 1..Len(ins) : ins[k].p > 0
                    THEN Clause("the node does not show its sparsest input", \E k \in 1..Len(ins) : ins[k] = r /\ \A j \in 1..Len(ins) : ~More(ins[j], ins[k]))
                    ELSE None(r)
=============================================================================
