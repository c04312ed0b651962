--------------------------- MODULE MC_LlmKernels ---------------------------
(* Decoding with a key/value cache: tokens of two layers are fed in calls of any sizes; a conversation may restart or go
   back to an earlier position, the rows beyond stay in the cache.  *)
EXTENDS LlmKernels, TLC
CONSTANTS Ctx, Layers, Vals, Qs, MaxBack
VARIABLES toks, cache, out, back
vars == <<toks, cache, out, back>>
Tok == [q : {<<a>> : a \in Qs}, k : {<<a>> : a \in Vals}, v : {<<a>> : a \in {0, 1}}]
None == [k |-> <<7>>, v |-> <<7>>]
Init == /\ toks = [l \in 1..Layers |-> <<>>]
        /\ cache = [l \in 1..Layers |-> [p \in 1..Ctx |-> None]]
        /\ out = [l \in 1..Layers |-> <<>>]
        /\ back = 0
(* one call: the rows before come from the cache, the new ones from the operands; the new ones are stored *)
Call(l, new) ==
  LET past == Len(toks[l])
      n == Len(new)
      rows == [u \in 1..(past + n) |-> IF u <= past THEN cache[l][u] ELSE [k |-> new[u - past].k, v |-> new[u - past].v]]
  IN /\ past + n <= Ctx
     /\ out' = [out EXCEPT ![l] = @ \o [i \in 1..n |-> Attend(new[i].q, [u \in 1..(past + i) |-> rows[u].k], [u \in 1..(past + i) |-> rows[u].v])]]
     /\ cache' = [cache EXCEPT ![l] = [p \in 1..Ctx |-> IF p > past /\ p <= past + n THEN rows[p] ELSE @[p]]]
     /\ toks' = [toks EXCEPT ![l] = @ \o new]
     /\ UNCHANGED back
Feed == \E l \in 1..Layers : \E n \in 1..2 : \E new \in [1..n -> Tok] : Call(l, new)
Back == \E l \in 1..Layers : \E p \in 0..(Len(toks[l]) - 1) :
          /\ back < MaxBack /\ back' = back + 1
          /\ toks' = [toks EXCEPT ![l] = SubSeq(@, 1, p)]
          /\ out' = [out EXCEPT ![l] = SubSeq(@, 1, p)]
          /\ UNCHANGED cache
Next == Feed \/ Back
Spec == Init /\ [][Next]_vars
(* however the tokens were cut into calls *)
Whole == \A l \in 1..Layers : Len(out[l]) = Len(toks[l]) /\ \A t \in 1..Len(toks[l]) : SameRatio(out[l][t], Result(toks[l], t))
Stored == \A l \in 1..Layers : \A p \in 1..Len(toks[l]) : cache[l][p] = [k |-> toks[l][p].k, v |-> toks[l][p].v]
(* a mean of what is seen *)
Within == \A l \in 1..Layers : \A t \in 1..Len(out[l]) : LET r == out[l][t] IN 0 <= r[1][1] /\ r[1][1] <= r[2]
Alone == [][\A l \in 1..Layers : toks'[l] = toks[l] => cache'[l] = cache[l]]_vars
(* ---- laws of the functions *)
Turn == <<<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>>>
At(p) == Turn[(p % 4) + 1]
Small == -2..2
ASSUME \A x, y \in [1..2 -> Small] : \A p, r \in 0..5 :
         LET rot(z, k) == Rotate(z, <<At(k)[1]>>, <<At(k)[2]>>) IN
         /\ Dot(rot(x, p), rot(x, p)) = Dot(x, x)
         /\ Dot(rot(x, p), rot(y, p + r)) = Dot(x, rot(y, r))              \* only the distance counts
         /\ rot(rot(x, p), r) = rot(x, p + r)
ASSUME \A x \in [1..4 -> Small] : \A c \in Small : \A e \in {1, 4, 9} :
         NormOk(x, FALSE, e) =>
           /\ NormOk([i \in 1..4 |-> x[i] + c], FALSE, e) /\ Norm([i \in 1..4 |-> x[i] + c], FALSE, e) = Norm(x, FALSE, e)
           /\ SumTo(Norm(x, FALSE, e)[1], 4) = 0
           /\ SumTo([i \in 1..4 |-> Norm(x, FALSE, e)[1][i] * Norm(x, FALSE, e)[1][i]], 4) <= 4 * Norm(x, FALSE, e)[2] * Norm(x, FALSE, e)[2]
ASSUME \A x \in [1..4 -> Small] : NormOk(x, TRUE, 0) => Norm([i \in 1..4 |-> 3 * x[i]], TRUE, 0)[2] = 3 * Norm(x, TRUE, 0)[2]
ASSUME \A h \in {1, 2, 4, 8} : \A k \in {1, 2, 4, 8} : k <= h => \A j \in 1..h : HeadOf(j, h, k) \in 1..k /\
         Cardinality({i \in 1..h : HeadOf(i, h, k) = HeadOf(j, h, k)}) = h \div k
=============================================================================
