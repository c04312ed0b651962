------------------------------ MODULE MC_Quant ------------------------------
(* Design check of the scheme on all groups of up to MaxVals integers: codes
   in range, half a step, zero exact, larger values never get smaller codes,
   and packing loses nothing.                                                *)
EXTENDS Quant
CONSTANTS Bound, MaxVals
VARIABLES xs, type, bits, codes
vars == <<xs, type, bits, codes>>
Init == xs = {} /\ type \in {"sym", "asym"} /\ bits \in 2..4 /\ codes = <<>>
AddValue == codes = <<>> /\ Cardinality(xs) < MaxVals /\ \E x \in (-Bound..Bound) \ xs : xs' = xs \cup {x} /\ UNCHANGED <<type, bits, codes>>
Quantize == codes = <<>> /\ xs # {} /\ codes' = [x \in xs |-> CodeOf(x, xs, type, bits)] /\ UNCHANGED <<xs, type, bits>>
Next == AddValue \/ Quantize
Spec == Init /\ [][Next]_vars
Done == codes # <<>>
S == ScaleOf(xs, type, bits)
Z == ZeroOf(xs, type, bits)
InRange == Done => \A x \in xs : codes[x] \in Low(type, bits)..High(type, bits)
ZeroInRange == Done => (type = "asym" => Z \in 0..High(type, bits))
Half == Done => \A x \in xs : 2 * Abs(((codes[x] - Z) * S[1]) - (x * S[2])) <= S[1]
ZeroExact == Done => CodeOf(0, xs, type, bits) = Z
Monotone == Done => \A x, y \in xs : x <= y => codes[x] <= codes[y]
Packing == Done /\ bits = 4 => \A x, y \in xs : LET b == <<Byte(codes[x], codes[y])>> IN b[1] \in 0..255 /\ Unpacked(b, 1, 1, 2, type) = codes[x] /\ Unpacked(b, 1, 2, 2, type) = codes[y]
=============================================================================
