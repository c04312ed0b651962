------------------------------- MODULE MC_Ops -------------------------------
(* Design check of the operator specification: every law is evaluated at every
   point of a small domain, one point per state.                             *)
EXTENDS OnnxVal
CONSTANTS MaxDim
VARIABLES ph, k, p
D == 0..MaxDim
S1 == UNION {[1..r -> D] : r \in 0..2}
T(s, v) == [om |-> FALSE, s |-> s, d |-> "i64", has |-> TRUE, v |-> v]
Iota(s) == T(s, [j \in 1..Prod(s) |-> QI(j)])
V1(l) == T(<<Len(l)>>, [j \in 1..Len(l) |-> QI(l[j])])
(* ------------------------------------------------------------ the points *)
Pts(kind) ==
  CASE kind = "bc" -> [a : S1, b : S1, c : S1]
    [] kind = "slice" -> [n : 0..5, s : -7..7, e : -7..7, st : {-3, -2, -1, 1, 2, 3}]
    [] kind = "win" -> [x : 1..7, k : 1..3, pb : 0..2, pe : 0..2, st : 1..3, d : 1..2]
    [] kind = "perm" -> [s : [1..3 -> 1..3], q : {f \in [1..3 -> 0..2] : {f[j] : j \in 1..3} = 0..2}]
    [] kind = "reshape" -> [s : S1, t : UNION {[1..r -> -1..4] : r \in 0..2}, z : BOOLEAN]
    [] kind = "split" -> [s : [1..2 -> 1..6], ax : {-2, -1, 0, 1}, n : 1..3]
    [] kind = "axes" -> [s : [1..3 -> 1..2], A : SUBSET (0..2)]
    [] kind = "pad" -> [n : 1..4, b : -2..3, e : -2..3]
    [] kind = "same" -> [x : 1..9, k : 1..4, st : 1..4, d : 1..2]
    [] kind = "range" -> [lo : -4..4, hi : -4..4, st : {-3, -2, -1, 1, 2, 3}]
    [] kind = "convt" -> [x : 1..4, k : 1..3, st : 1..3, d : 1..2, pb : 0..1, pe : 0..1]
Kinds == {"bc", "slice", "win", "perm", "reshape", "split", "axes", "pad", "same", "range", "convt"}
Init == ph = 0 /\ k = "" /\ p = <<>>
Pick == ph = 0 /\ ph' = 1 /\ \E q \in Kinds : k' = q /\ p' \in Pts(q)
Next == Pick
Spec == Init /\ [][Next]_<<ph, k, p>>
At1(kind) == ph = 1 /\ k = kind
(* broadcasting is commutative, associative, idempotent, has <<>> as unit, and indexing stays inside *)
BcLaws == At1("bc") =>
  /\ BOk(p.a, p.a) /\ Bc(p.a, p.a) = p.a /\ Bc(<<>>, p.a) = p.a
  /\ BOk(p.a, p.b) = BOk(p.b, p.a)
  /\ BOk(p.a, p.b) => Bc(p.a, p.b) = Bc(p.b, p.a) /\ UniOk(p.a, Bc(p.a, p.b))
  /\ BAllOk(p.a, <<p.b, p.c>>) /\ BAllOk(p.b, <<p.c, p.a>>) => BAll(p.a, <<p.b, p.c>>) = BAll(p.b, <<p.c, p.a>>)
  /\ BOk(p.a, p.b) => \A i \in Indices(Bc(p.a, p.b)) : Rav(BIdx(i, p.a), p.a) \in 0..(Prod(p.a) - 1)
(* the number of elements of a slice is the number of positions walked *)
Walk(n, s, e, st) == LET d == SliceDim(n, s, e, st)
                         e1 == IF e < 0 THEN e + n ELSE e
                     IN {j \in 0..8 : LET q == d.start + j * st IN 0 <= q /\ q < n /\ (IF st > 0 THEN q < e1 ELSE q > e1)}
SliceLaw == At1("slice") =>
  LET d == SliceDim(p.n, p.s, p.e, p.st) IN
  /\ d.n = Cardinality(Walk(p.n, p.s, p.e, p.st))
  /\ \A j \in 0..(d.n - 1) : d.start + j * p.st \in 0..(p.n - 1)
(* the number of windows is the number of start positions whose window fits the padded input *)
WinLaw == At1("win") =>
  LET L == p.x + p.pb + p.pe e == Eff(p.k, p.d) IN
  e <= L => /\ WinN(p.x, p.k, p.pb + p.pe, p.st, p.d, FALSE) = Cardinality({q \in 0..(L - e) : q % p.st = 0})
            /\ WinN(p.x, p.k, p.pb + p.pe, p.st, p.d, TRUE) \in
                 {WinN(p.x, p.k, p.pb + p.pe, p.st, p.d, FALSE), WinN(p.x, p.k, p.pb + p.pe, p.st, p.d, FALSE) + 1}
(* SAME padding: ceil(x / stride) windows, with at most total padding e - 1 *)
SameLaw == At1("same") =>
  LET o == CeilDiv(p.x, p.st) tot == Max2(0, (o - 1) * p.st + Eff(p.k, p.d) - p.x)
  IN tot < Eff(p.k, p.d) /\ (p.st <= Eff(p.k, p.d) => WinN(p.x, p.k, tot, p.st, p.d, FALSE) = o)
(* a transposed convolution undoes the size change of the convolution (up to the stride remainder) *)
ConvTLaw == At1("convt") =>
  LET a == [strides |-> <<p.st>>, dilations |-> <<p.d>>, pads |-> <<p.pb, p.pe>>]
      t == ConvT(a, <<1, 1, p.x>>, <<1, 1, p.k>>)
  IN t.ok => Spatial(a, <<t.s[3]>>, <<p.k>>, FALSE).s = <<p.x>>
InvPerm(q) == [j \in 1..3 |-> (CHOOSE i \in 1..3 : q[i] = j - 1) - 1]
PermLaw == At1("perm") =>
  LET x == Iota(p.s)
      y == Exec("Transpose", [perm |-> p.q], <<x>>, 1).outs[1]
      z == Exec("Transpose", [perm |-> InvPerm(p.q)], <<y>>, 1).outs[1]
  IN Prod(y.s) = Prod(x.s) /\ z.s = x.s /\ z.v = x.v /\ Ran(y.v) = Ran(x.v)
ReshapeLaw == At1("reshape") =>
  LET r == ReshapeDims(p.s, p.t, p.z) IN
  r.ok => /\ Prod(r.s) = Prod(p.s) /\ Len(r.s) = Len(p.t)
          /\ \A j \in 1..Len(r.s) : r.s[j] >= 0 /\ (p.t[j] > 0 => r.s[j] = p.t[j])
          /\ ReshapeDims(r.s, r.s, FALSE).s = r.s
(* the parts of a split are the whole, in order: concatenating them gives it back *)
SplitLaw == At1("split") =>
  LET x == Iota(p.s)
      r == Exec("Split", [axis |-> p.ax], <<x>>, p.n)
      y == Exec("Concat", [axis |-> p.ax], r.outs, 1)
  IN r.st = "ok" => y.st = "ok" /\ y.outs[1].s = x.s /\ y.outs[1].v = x.v
(* unsqueeze and squeeze are inverse; reducing keeps or drops the same axes; a sum is the product of ones *)
AxesLaw == At1("axes") =>
  LET l == SetToSeq(p.A)
      x == Iota(p.s)
      u == Exec("Unsqueeze", [axes |-> l], <<x>>, 1)
      rk == Exec("ReduceSum", [axes |-> l, noop_with_empty_axes |-> 1, keepdims |-> 1], <<x>>, 1).outs[1]
      rd == Exec("ReduceSum", [axes |-> l, noop_with_empty_axes |-> 1, keepdims |-> 0], <<x>>, 1).outs[1]
  IN /\ (u.st = "ok" => Exec("Squeeze", [axes |-> l], u.outs, 1).outs[1] = [x EXCEPT !.has = TRUE])
     /\ rk.v = rd.v /\ Prod(rk.s) = Prod(rd.s)
     /\ Exec("Squeeze", [axes |-> l], <<rk>>, 1).outs[1].s = rd.s
     /\ QSum(rk.v) = QSum(x.v)
(* padding and cutting the same amount is the identity, where nothing was lost *)
PadLaw == At1("pad") =>
  LET x == Iota(<<p.n>>) y == Exec("Pad", [pads |-> <<p.b, p.e>>], <<x>>, 1) IN
  y.st = "ok" =>
    /\ y.outs[1].s = <<p.n + p.b + p.e>>
    /\ (p.b >= 0 /\ p.e >= 0 => Exec("Pad", [pads |-> <<-p.b, -p.e>>], y.outs, 1).outs[1].v = x.v)
(* range: the values are the arithmetic progression below the limit *)
RangeLaw == At1("range") =>
  LET r == Exec("Range", [none |-> 0], <<T(<<>>, <<QI(p.lo)>>), T(<<>>, <<QI(p.hi)>>), T(<<>>, <<QI(p.st)>>)>>, 1).outs[1] IN
  r.s = <<Cardinality({j \in 0..9 : IF p.st > 0 THEN p.lo + j * p.st < p.hi ELSE p.lo + j * p.st > p.hi})>>
Laws == BcLaws /\ SliceLaw /\ WinLaw /\ SameLaw /\ ConvTLaw /\ PermLaw /\ ReshapeLaw /\ SplitLaw /\ AxesLaw /\ PadLaw /\ RangeLaw
=============================================================================
