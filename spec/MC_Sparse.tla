----------------------------- MODULE MC_Sparse -----------------------------
(* Design check of the block search: it doubles a block along each axis while
   the pattern stays valid, tries the square block of the last size, and else
   takes the better of the two axes.  Over all small weights its report is
   exact, within the tolerance, and no longer or square block was missed.     *)
EXTENDS Sparse, TLC
CONSTANTS Shapes
VARIABLES w, zeros, size, p0, p1, done, r
vars == <<w, zeros, size, p0, p1, done, r>>
Rep(b0, b1) == [b0 |-> b0, b1 |-> b1, bp |-> ZeroBlocks(w, b0, b1), bq |-> Blocks(w, b0, b1), p |-> zeros, q |-> Size(w)]
Zs(n) == [1..n -> {0, 1}]
Init == /\ \E s \in Shapes : LET o == s \div 100 i == (s \div 10) % 10 k == s % 10 IN \E z \in Zs(o * i * k) : w = [O |-> o, I |-> i, K |-> k, z |-> z]
        /\ zeros = Zeros(w) /\ size = 1 /\ p0 = TRUE /\ p1 = TRUE /\ done = FALSE
        /\ r = [b0 |-> 1, b1 |-> 1, bp |-> 0, bq |-> 1, p |-> zeros, q |-> Size(w)]
V0 == p0 /\ Valid(w, zeros, 2 * size, 1)
V1 == p1 /\ Valid(w, zeros, 1, 2 * size)
Dense == ~done /\ ~Sparse(w, zeros) /\ done' = TRUE /\ UNCHANGED <<w, zeros, size, p0, p1, r>>
Double == /\ ~done /\ Sparse(w, zeros) /\ (V0 \/ V1)
          /\ size' = 2 * size /\ p0' = V0 /\ p1' = V1 /\ UNCHANGED <<w, zeros, done, r>>
Finish == /\ ~done /\ Sparse(w, zeros) /\ ~V0 /\ ~V1 /\ done' = TRUE
          /\ r' = IF p0 /\ p1 /\ Valid(w, zeros, size, size) THEN Rep(size, size)
                  ELSE IF p0 /\ (~p1 \/ ZeroBlocks(w, size, 1) > ZeroBlocks(w, 1, size)) THEN Rep(size, 1) ELSE Rep(1, size)
          /\ UNCHANGED <<w, zeros, size, p0, p1>>
Next == Dense \/ Double \/ Finish
Spec == Init /\ [][Next]_vars
Exact == done => Owes(w, r) = {}
(* a bigger block of zeros is made of smaller ones: validity is monotone, so doubling finds the longest *)
Monotone == \A b \in {2, 4} : (Valid(w, zeros, b, 1) => b = 2 \/ Valid(w, zeros, 2, 1)) /\ (Valid(w, zeros, 1, b) => b = 2 \/ Valid(w, zeros, 1, 2))
                            /\ (Valid(w, zeros, b, b) => Valid(w, zeros, b, 1) /\ Valid(w, zeros, 1, b))
Longest == done /\ Sparse(w, zeros) => \A b \in {2, 4, 8} : Valid(w, zeros, b, 1) \/ Valid(w, zeros, 1, b) => Max(r.b0, r.b1) >= b
=============================================================================
