-------------------------------- MODULE Onnx --------------------------------
(* The ONNX operators: which combinations of inputs an operator admits, the
   shapes and element types it yields, and (for tensors whose values are
   known) the values.

   input   [om |-> omitted, s |-> shape, d |-> element type, has |-> values known, v |-> values]
   result  [st |-> "ok", outs |-> <<[s |-> shape, d |-> type], ...>>]   one entry per produced output
           [st |-> "no"]     the operator does not admit these inputs
           [st |-> "unk"]    the shape depends on values that are not known
           [st |-> "skip"]   outside this specification                       *)
EXTENDS Tensor, TLC

At0(a, k, dflt) == IF k \in DOMAIN a THEN a[k] ELSE dflt
HasA(a, k) == k \in DOMAIN a
Has(ins, k) == k <= Len(ins) /\ ~ins[k].om
OkO(outs) == [st |-> "ok", outs |-> outs]
No == [st |-> "no", outs |-> <<>>]
Unk == [st |-> "unk", outs |-> <<>>]
Skip == [st |-> "skip", outs |-> <<>>]
One1(s, d) == OkO(<<[s |-> s, d |-> d]>>)
Same(ins) == One1(ins[1].s, ins[1].d)
If(c, r) == IF c THEN r ELSE No
IntsOf(x) == [k \in 1..Len(x.v) |-> x.v[k][1]]
Shapes(ins) == [k \in 1..Len(ins) |-> ins[k].s]

Floats == {"f16", "f32", "f64"}
Ints == {"i8", "u8", "i16", "u16", "i32", "i64"}
OnnxType(n) == CASE n = 1 -> "f32" [] n = 2 -> "u8" [] n = 3 -> "i8" [] n = 4 -> "u16" [] n = 5 -> "i16" [] n = 6 -> "i32"
                 [] n = 7 -> "i64" [] n = 9 -> "b" [] n = 10 -> "f16" [] n = 11 -> "f64" [] OTHER -> "?"

Unary == {"Neg", "Abs", "Ceil", "Floor", "Round", "Exp", "Log", "Sqrt", "Sin", "Cos", "Tanh", "Sigmoid", "Atan", "Sign", "HardSigmoid",
          "HardSwish", "Relu", "Elu", "LeakyRelu", "Erf", "Identity", "Softplus", "Reciprocal", "Relu6", "LpNormalization", "LRN", "Not"}
Along == {"Softmax", "LogSoftmax", "Hardmax"}
Variadic == {"Add", "Sub", "Mul", "Div", "Pow", "Mod", "Min", "Max", "Sum"}
Compare == {"Less", "LessOrEqual", "Greater", "GreaterOrEqual", "Equal", "And", "Or", "Xor"}
Reduces == {"ReduceMean", "ReduceSum", "ReduceProd", "ReduceMin", "ReduceMax", "ReduceL2"}

(* ----------------------------------------------- windows (conv, pooling) *)
Eff(k, d) == (k - 1) * d + 1
(* number of window positions; the ceiling variant counts a last partial window *)
WinN(x, k, p, s, d, ceil) == IF ceil THEN CeilDiv(x + p - Eff(k, d), s) + 1 ELSE (x + p - Eff(k, d)) \div s + 1
Spatial(a, x, ks, ceil) ==          \* x: spatial sizes, ks: kernel sizes; result [ok, s]
  LET n == Len(x)
      st == At0(a, "strides", Rep(1, n))
      di == At0(a, "dilations", Rep(1, n))
      pd == At0(a, "pads", Rep(0, 2 * n))
      ap == At0(a, "auto_pad", "NOTSET")
  IN IF Len(ks) # n \/ Len(st) # n \/ Len(di) # n \/ Len(pd) # 2 * n THEN [ok |-> FALSE, s |-> <<>>]
     ELSE IF ap \in {"SAME_UPPER", "SAME_LOWER"} THEN [ok |-> TRUE, s |-> [k \in 1..n |-> CeilDiv(x[k], st[k])]]
     ELSE LET p == IF ap = "VALID" THEN Rep(0, n) ELSE [k \in 1..n |-> pd[k] + pd[k + n]]
          IN [ok |-> \A k \in 1..n : x[k] + p[k] >= Eff(ks[k], di[k]),
              s |-> [k \in 1..n |-> WinN(x[k], ks[k], p[k], st[k], di[k], ceil)]]
ConvS(a, x, w) ==
  IF Len(x) < 3 \/ Len(x) # Len(w) THEN [ok |-> FALSE, s |-> <<>>]
  ELSE LET g == At0(a, "group", 1) sp == Spatial(a, Sub(x, 3, Len(x)), Sub(w, 3, Len(w)), FALSE)
       IN [ok |-> sp.ok /\ x[2] = w[2] * g /\ w[1] % g = 0
                  /\ (HasA(a, "kernel_shape") => a.kernel_shape = Sub(w, 3, Len(w))),
           s |-> <<x[1], w[1]>> \o sp.s]
ConvT(a, x, w) ==
  LET n == Len(x) - 2
      st == At0(a, "strides", Rep(1, n))
      di == At0(a, "dilations", Rep(1, n))
      pd == At0(a, "pads", Rep(0, 2 * n))
      op == At0(a, "output_padding", Rep(0, n))
      ap == At0(a, "auto_pad", "NOTSET")
      full == [k \in 1..n |-> st[k] * (x[k + 2] - 1) + op[k] + Eff(w[k + 2], di[k])]
      sp == IF HasA(a, "output_shape") THEN a.output_shape
            ELSE IF ap \in {"SAME_UPPER", "SAME_LOWER"} THEN [k \in 1..n |-> x[k + 2] * st[k]]
            ELSE IF ap = "VALID" THEN full
            ELSE [k \in 1..n |-> full[k] - pd[k] - pd[k + n]]
  IN [ok |-> Len(x) = Len(w) /\ x[2] = w[1] /\ \A k \in 1..n : sp[k] > 0, s |-> <<x[1], w[2] * At0(a, "group", 1)>> \o sp]

(* ------------------------------------------------------------- slices *)
Clamp(x, lo, hi) == Max2(lo, Min2(x, hi))
(* effective start, and number of elements, of a slice of a dimension *)
SliceDim(dim, s, e, st) ==
  LET s1 == IF s < 0 THEN s + dim ELSE s
      e1 == IF e < 0 THEN e + dim ELSE e
      s2 == IF st > 0 THEN Clamp(s1, 0, dim) ELSE Clamp(s1, 0, dim - 1)
      e2 == IF st > 0 THEN Clamp(e1, 0, dim) ELSE Clamp(e1, -1, dim - 1)
      n == IF st > 0 THEN CeilDiv(e2 - s2, st) ELSE CeilDiv(s2 - e2, -st)
  IN [start |-> s2, n |-> IF dim = 0 THEN 0 ELSE Max2(0, n)]
SliceArgs(a, ins) ==                 \* [known, starts, ends, axes, steps]
  LET r == Len(ins[1].s) IN
  IF HasA(a, "starts") THEN
     LET n == Len(a.starts) IN
     [known |-> TRUE, starts |-> a.starts, ends |-> a.ends, axes |-> At0(a, "axes", [k \in 1..n |-> k - 1]), steps |-> Rep(1, n)]
  ELSE IF \E k \in 2..Len(ins) : ~ins[k].om /\ ~ins[k].has THEN [known |-> FALSE]
  ELSE LET n == Len(ins[2].v) IN
     [known |-> TRUE, starts |-> IntsOf(ins[2]), ends |-> IntsOf(ins[3]),
      axes |-> IF Has(ins, 4) THEN IntsOf(ins[4]) ELSE [k \in 1..n |-> k - 1],
      steps |-> IF Has(ins, 5) THEN IntsOf(ins[5]) ELSE Rep(1, n)]
SliceDims(s, g) ==                   \* per dimension [start, n, step]
  [k \in 1..Len(s) |->
     LET J == {j \in 1..Len(g.axes) : Axis(g.axes[j], Len(s)) = k - 1}
     IN IF J = {} THEN [start |-> 0, n |-> s[k], step |-> 1]
        ELSE LET j == CHOOSE j \in J : TRUE
                 d == SliceDim(s[k], g.starts[j], g.ends[j], g.steps[j])
             IN [start |-> d.start, n |-> d.n, step |-> g.steps[j]]]

(* ----------------------------------------------------- axes of an operator *)
(* axes given as attribute or as input number k: [kind: "none" | "ax" | "unk", ax] *)
AxesArg(a, ins, k) ==
  IF HasA(a, "axes") THEN [kind |-> "ax", ax |-> a.axes]
  ELSE IF Has(ins, k) THEN (IF ins[k].has THEN [kind |-> "ax", ax |-> IntsOf(ins[k])] ELSE [kind |-> "unk", ax |-> <<>>])
  ELSE [kind |-> "none", ax |-> <<>>]
AxSet(ax, r) == {Axis(ax[k], r) : k \in 1..Len(ax)}
Dup(ax, r) == (\A k \in 1..Len(ax) : AxisOk(ax[k], r)) /\ Cardinality(AxSet(ax, r)) # Len(ax)   \* a repeated axis: undefined
AxOk(ax, r) == (\A k \in 1..Len(ax) : AxisOk(ax[k], r)) /\ Cardinality(AxSet(ax, r)) = Len(ax)
Drop(s, S) == LET keep == SelectSeq([k \in 1..Len(s) |-> k], LAMBDA k : (k - 1) \notin S) IN [j \in 1..Len(keep) |-> s[keep[j]]]
(* axes a reduction works on *)
RedAxes(a, ins) ==
  LET g == AxesArg(a, ins, 2) r == Len(ins[1].s) IN
  IF g.kind = "unk" THEN g
  ELSE IF g.kind = "none" \/ g.ax = <<>>
       THEN [kind |-> "ax", ax |-> IF At0(a, "noop_with_empty_axes", 0) = 1 THEN <<>> ELSE [k \in 1..r |-> k - 1]]
       ELSE g
RedShape(s, S, keep) == IF keep THEN [k \in 1..Len(s) |-> IF (k - 1) \in S THEN 1 ELSE s[k]] ELSE Drop(s, S)

Insert(s, S, n) ==                   \* rank n, ones at the axes S, the dimensions of s elsewhere
  [k \in 1..n |-> IF (k - 1) \in S THEN 1 ELSE s[k - Cardinality({x \in S : x < k - 1})]]

ReshapeDims(s, t, zero) ==           \* zero: a 0 copies the source dimension
  LET c == [k \in 1..Len(t) |-> IF t[k] = 0 /\ zero THEN (IF k <= Len(s) THEN s[k] ELSE -9) ELSE t[k]]
      m == {k \in 1..Len(c) : c[k] = -1}
      rest == Prod([k \in 1..Len(c) |-> IF k \in m THEN 1 ELSE c[k]])
  IN IF \E k \in 1..Len(c) : c[k] < -1 THEN [ok |-> FALSE, s |-> <<>>]
     ELSE IF m = {} THEN [ok |-> rest = Prod(s), s |-> c]
     ELSE IF Cardinality(m) > 1 \/ rest = 0 THEN [ok |-> FALSE, s |-> <<>>]
     ELSE [ok |-> Prod(s) % rest = 0, s |-> [k \in 1..Len(c) |-> IF k \in m THEN Prod(s) \div rest ELSE c[k]]]

SplitSizes(a, ins, n) ==             \* [kind, sz]
  LET r == Len(ins[1].s) ax == Axis(At0(a, "axis", 0), r) dim == ins[1].s[ax + 1] IN
  IF HasA(a, "split") THEN [kind |-> "ax", sz |-> a.split]
  ELSE IF Has(ins, 2) THEN (IF ins[2].has THEN [kind |-> "ax", sz |-> IntsOf(ins[2])] ELSE [kind |-> "unk", sz |-> <<>>])
  ELSE IF dim % n = 0 THEN [kind |-> "ax", sz |-> Rep(dim \div n, n)]
  ELSE LET c == CeilDiv(dim, n) IN [kind |-> "ax", sz |-> [k \in 1..n |-> IF k < n THEN c ELSE dim - c * (n - 1)]]

(* einsum: a.terms / a.out are label sequences ("..." an ellipsis) *)
EinFull(t, r) ==                     \* positions of the labels, the ellipsis spread over the remaining dimensions
  LET e == {k \in 1..Len(t) : t[k] = "..."} IN
  IF e = {} THEN t
  ELSE LET k == CHOOSE k \in e : TRUE m == r - (Len(t) - 1)
       IN Sub(t, 1, k - 1) \o [j \in 1..m |-> "." \o ToString(m - j)] \o Sub(t, k + 1, Len(t))
RECURSIVE Concat2(_)
Concat2(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat2(Tail(ss))
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE <<Head(s)>> \o Uniq(SelectSeq(Tail(s), LAMBDA x : x # Head(s)))
Einsum(a, ins) ==
  LET T == [k \in 1..Len(ins) |-> EinFull(a.terms[k], Len(ins[k].s))]
      labels == UNION {Ran(T[k]) : k \in 1..Len(ins)}
      dimsOf(l) == UNION {{ins[k].s[j] : j \in {j \in 1..Len(T[k]) : T[k][j] = l}} : k \in 1..Len(ins)}
      size(l) == LET D == dimsOf(l) \ {1} IN IF D = {} THEN 1 ELSE CHOOSE x \in D : TRUE
      ell == SelectSeq([j \in 1..8 |-> "." \o ToString(8 - j)], LAMBDA l : l \in labels)
      out == Concat2([k \in 1..Len(a.out) |-> IF a.out[k] = "..." THEN ell ELSE <<a.out[k]>>])
  IN IF (\E k \in 1..Len(ins) : Len(T[k]) # Len(ins[k].s)) \/ (\E l \in labels : Cardinality(dimsOf(l) \ {1}) > 1) \/ ~(Ran(out) \subseteq labels)
     THEN No ELSE One1([k \in 1..Len(out) |-> size(out[k])], ins[1].d)

(* --------------------------------------------------------------- shapes *)
Infer0(op, a, ins, n) ==
  LET s1 == ins[1].s  d1 == ins[1].d  r1 == Len(ins[1].s) IN
  CASE op \in Unary -> Same(ins)
    [] op \in Along -> If(AxisOk(At0(a, "axis", -1), r1), Same(ins))
    [] op \in Variadic -> If(BAllOk(s1, Tail(Shapes(ins))), One1(BAll(s1, Tail(Shapes(ins))), d1))
    [] op \in Compare -> If(BOk(s1, ins[2].s), One1(Bc(s1, ins[2].s), "b"))
    [] op = "Where" -> If(BAllOk(s1, Tail(Shapes(ins))), One1(BAll(s1, Tail(Shapes(ins))), ins[2].d))
    [] op = "PRelu" -> If(UniOk(ins[2].s, s1), Same(ins))
    [] op = "Clip" -> If(\A k \in 2..Len(ins) : ins[k].om \/ ins[k].s = <<>>, Same(ins))
    [] op = "CumSum" -> Same(ins)
    [] op = "Trilu" -> If(r1 >= 2, Same(ins))
    [] op = "Dropout" -> OkO([k \in 1..n |-> [s |-> s1, d |-> IF k = 1 THEN d1 ELSE "b"]])
    [] op = "Cast" -> One1(s1, OnnxType(a.to))
    [] op = "InstanceNormalization" -> If(r1 >= 3 /\ ins[2].s = <<s1[2]>> /\ ins[3].s = <<s1[2]>>, Same(ins))
    [] op = "BatchNormalization" ->           \* further outputs: statistics per channel (training)
         If(r1 >= 2 /\ \A k \in 2..5 : ins[k].s = <<s1[2]>>, OkO([k \in 1..n |-> IF k = 1 THEN [s |-> s1, d |-> d1] ELSE [s |-> <<s1[2]>>, d |-> ins[4].d]]))
    [] op = "LayerNormalization" ->
         LET ax == At0(a, "axis", -1) IN
         If(AxisOk(ax, r1) /\ UniOk(ins[2].s, s1),
            OkO([k \in 1..n |-> IF k = 1 THEN [s |-> s1, d |-> d1]
                                ELSE [s |-> [j \in 1..r1 |-> IF j - 1 >= Axis(ax, r1) THEN 1 ELSE s1[j]], d |-> "f32"]]))
    [] op = "Transpose" ->
         LET p == At0(a, "perm", [k \in 1..r1 |-> r1 - k]) IN
         If(Len(p) = r1 /\ Ran(p) = 0..(r1 - 1), One1([k \in 1..r1 |-> s1[p[k] + 1]], d1))
    [] op = "Gemm" ->
         IF r1 < 2 \/ Len(ins[2].s) < 2 THEN No ELSE IF r1 > 2 \/ Len(ins[2].s) > 2 THEN Skip ELSE   \* the tool also takes batches here
         LET m == IF At0(a, "transA", 0) # 0 THEN s1[2] ELSE s1[1]
             ka == IF At0(a, "transA", 0) # 0 THEN s1[1] ELSE s1[2]
             kb == IF At0(a, "transB", 0) # 0 THEN ins[2].s[2] ELSE ins[2].s[1]
             nn == IF At0(a, "transB", 0) # 0 THEN ins[2].s[1] ELSE ins[2].s[2]
         IN If(ka = kb /\ (Has(ins, 3) => UniOk(ins[3].s, <<m, nn>>)), One1(<<m, nn>>, d1))
    [] op \in {"MatMul", "MatMulInteger", "QLinearMatMul"} ->
         LET y == IF op = "QLinearMatMul" THEN ins[4] ELSE ins[2]
             A == IF r1 = 1 THEN <<1>> \o s1 ELSE s1
             B == IF Len(y.s) = 1 THEN y.s \o <<1>> ELSE y.s
             ba == Sub(A, 1, Len(A) - 2)
             bb == Sub(B, 1, Len(B) - 2)
             tail == (IF r1 = 1 THEN <<>> ELSE <<A[Len(A) - 1]>>) \o (IF Len(y.s) = 1 THEN <<>> ELSE <<B[Len(B)]>>)
         IN IF r1 = 0 \/ Len(y.s) = 0 THEN No ELSE
            If(A[Len(A)] = B[Len(B) - 1] /\ BOk(ba, bb),
               One1(Bc(ba, bb) \o tail, IF op = "MatMul" THEN d1 ELSE IF op = "MatMulInteger" THEN "i32" ELSE ins[8].d))
    [] op = "Tile" -> IF ~ins[2].has THEN Unk ELSE If(Len(ins[2].v) = r1, One1([k \in 1..r1 |-> s1[k] * ins[2].v[k][1]], d1))
    [] op = "Gather" ->
         LET ax == At0(a, "axis", 0) IN
         If(AxisOk(ax, r1), One1(Sub(s1, 1, Axis(ax, r1)) \o ins[2].s \o Sub(s1, Axis(ax, r1) + 2, r1), d1))
    [] op = "GatherElements" -> If(Len(ins[2].s) = r1 /\ AxisOk(At0(a, "axis", 0), r1), One1(ins[2].s, d1))
    [] op = "GatherND" ->
         LET t == ins[2].s b == At0(a, "batch_dims", 0) l == t[Len(t)] IN
         If(b < Min2(r1, Len(t)) /\ l <= r1 - b /\ Sub(s1, 1, b) = Sub(t, 1, b),
            One1(Sub(t, 1, Len(t) - 1) \o Sub(s1, b + l + 1, r1), d1))
    [] op \in {"ScatterElements", "ScatterND"} -> Same(ins)
    [] op = "Concat" ->
         LET ax == Axis(a.axis, r1) IN
         If(AxisOk(a.axis, r1) /\ \A k \in 1..Len(ins) : Len(ins[k].s) = r1 /\ \A j \in 1..r1 : j = ax + 1 \/ ins[k].s[j] = s1[j],
            One1([j \in 1..r1 |-> IF j = ax + 1 THEN SumSeq([k \in 1..Len(ins) |-> ins[k].s[j]]) ELSE s1[j]], d1))
    [] op = "GridSample" ->
         LET t == ins[2].s IN If(r1 >= 3 /\ Len(t) = r1 /\ t[r1] = r1 - 2 /\ t[1] = s1[1], One1(<<s1[1], s1[2]>> \o Sub(t, 2, r1 - 1), d1))
    [] op = "DepthToSpace" ->
         LET b == a.blocksize IN If(r1 = 4 /\ s1[2] % (b * b) = 0, One1(<<s1[1], s1[2] \div (b * b), s1[3] * b, s1[4] * b>>, d1))
    [] op = "OneHot" ->
         LET ax == At0(a, "axis", -1) p == Axis(ax, r1 + 1) IN
         IF ~ins[2].has THEN Unk ELSE If(AxisOk(ax, r1 + 1), One1(Sub(s1, 1, p) \o <<ins[2].v[1][1]>> \o Sub(s1, p + 1, r1), ins[3].d))
    [] op = "Einsum" -> Einsum(a, ins)
    [] op = "Unsqueeze" ->
         LET g == AxesArg(a, ins, 2) r == r1 + Len(g.ax) IN
         IF g.kind = "unk" THEN Unk ELSE If(AxOk(g.ax, r), One1(Insert(s1, AxSet(g.ax, r), r), d1))
    [] op = "Squeeze" ->
         LET g == AxesArg(a, ins, 2)
             S == IF g.kind = "none" THEN {k - 1 : k \in {k \in 1..r1 : s1[k] = 1}} ELSE AxSet(g.ax, r1) IN
         IF g.kind = "unk" THEN Unk ELSE IF Dup(g.ax, r1) THEN Skip ELSE If((g.kind = "ax" => AxOk(g.ax, r1)) /\ \A x \in S : s1[x + 1] = 1, One1(Drop(s1, S), d1))
    [] op = "Shape" ->
         LET lo == Clamp(Axis(At0(a, "start", 0), r1), 0, r1) hi == Clamp(Axis(At0(a, "end", r1), r1), 0, r1)
         IN One1(<<Max2(0, hi - lo)>>, "i64")
    [] op \in {"Resize", "Upsample"} ->
         LET sc == IF op = "Upsample" \/ Len(ins) = 2 THEN 2 ELSE 3
             ax == IF HasA(a, "axes") THEN [k \in 1..Len(a.axes) |-> Axis(a.axes[k], r1)] ELSE [k \in 1..r1 |-> k - 1]
             m == Len(ax)
             at(k) == LET J == {j \in 1..m : ax[j] = k - 1} IN IF J = {} THEN 0 ELSE CHOOSE j \in J : TRUE      \* the entry for dimension k
             pol == At0(a, "keep_aspect_ratio_policy", "stretch")
             z == [j \in 1..m |-> ins[4].v[j][1]]
             d(j) == s1[ax[j] + 1]
             \* the axis deciding the common scale: the smallest (not_larger) or the largest ratio
             lead == CHOOSE j \in 1..m : \A i \in 1..m : IF pol = "not_larger" THEN z[j] * d(i) <= z[i] * d(j) ELSE z[j] * d(i) >= z[i] * d(j)
             sized(j) == IF pol = "stretch" THEN z[j] ELSE (2 * z[lead] * d(j) + d(lead)) \div (2 * d(lead))
         IN
         IF HasA(a, "scales") THEN One1([k \in 1..r1 |-> QFloor(QMul(QI(s1[k]), a.scales[k]))], d1)
         ELSE IF Has(ins, 4) /\ ins[4].s # <<0>> THEN (IF ~ins[4].has THEN Unk ELSE If(Len(ins[4].v) = m, One1([k \in 1..r1 |-> IF at(k) = 0 THEN s1[k] ELSE sized(at(k))], d1)))
         ELSE IF ~Has(ins, sc) THEN No
         ELSE IF ~ins[sc].has THEN Unk
         ELSE If(Len(ins[sc].v) = m, One1([k \in 1..r1 |-> IF at(k) = 0 THEN s1[k] ELSE QFloor(QMul(QI(s1[k]), ins[sc].v[at(k)]))], d1))
    [] op \in {"MaxPool", "AveragePool"} ->
         IF r1 < 3 THEN No ELSE
         LET sp == Spatial(a, Sub(s1, 3, r1), a.kernel_shape, At0(a, "ceil_mode", 0) = 1) IN
         If(sp.ok, OkO([k \in 1..n |-> [s |-> <<s1[1], s1[2]>> \o sp.s, d |-> IF k = 1 THEN d1 ELSE "i64"]]))
    [] op = "GlobalAveragePool" -> If(r1 >= 3, One1(<<s1[1], s1[2]>> \o Rep(1, r1 - 2), d1))
    [] op = "Expand" -> IF ~ins[2].has THEN Unk ELSE LET t == IntsOf(ins[2]) IN If(BOk(s1, t), One1(Bc(s1, t), d1))
    [] op = "Pad" ->
         IF ~HasA(a, "pads") /\ ~ins[2].has THEN Unk ELSE
         IF Has(ins, 4) /\ ~ins[4].has THEN Unk ELSE
         LET p == IF HasA(a, "pads") THEN a.pads ELSE IntsOf(ins[2])
             ax == IF Has(ins, 4) THEN [k \in 1..Len(ins[4].v) |-> Axis(ins[4].v[k][1], r1)] ELSE [k \in 1..r1 |-> k - 1]
             m == Len(ax)
             by(k) == LET J == {j \in 1..m : ax[j] = k - 1} IN IF J = {} THEN 0 ELSE LET j == CHOOSE j \in J : TRUE IN p[j] + p[j + m]
         IN If(Len(p) = 2 * m /\ \A k \in 1..r1 : s1[k] + by(k) >= 0, One1([k \in 1..r1 |-> s1[k] + by(k)], d1))
    [] op = "Flatten" ->
         LET ax == At0(a, "axis", 1) p == Axis(ax, r1) IN
         If(-r1 <= ax /\ ax <= r1, One1(<<Prod(Sub(s1, 1, p)), Prod(Sub(s1, p + 1, r1))>>, d1))
    [] op = "ArgMax" ->
         LET ax == At0(a, "axis", 0) IN If(AxisOk(ax, r1), One1(RedShape(s1, {Axis(ax, r1)}, At0(a, "keepdims", 1) = 1), "i64"))
    [] op = "Slice" ->
         LET g == SliceArgs(a, ins) IN
         IF ~g.known THEN Unk ELSE IF Dup(g.axes, r1) THEN Skip ELSE
         If(AxOk(g.axes, r1) /\ Len(g.ends) = Len(g.starts) /\ Len(g.axes) = Len(g.starts) /\ Len(g.steps) = Len(g.starts) /\ 0 \notin Ran(g.steps),
            LET D == SliceDims(s1, g) IN One1([k \in 1..r1 |-> D[k].n], d1))
    [] op \in Reduces ->
         LET g == RedAxes(a, ins) IN
         IF g.kind = "unk" THEN Unk ELSE If(AxOk(g.ax, r1), One1(RedShape(s1, AxSet(g.ax, r1), At0(a, "keepdims", 1) = 1), d1))
    [] op = "TopK" ->
         LET ax == At0(a, "axis", -1) IN
         IF ~ins[2].has THEN Unk ELSE
         If(AxisOk(ax, r1) /\ ins[2].v[1][1] <= s1[Axis(ax, r1) + 1],
            LET t == [s1 EXCEPT ![Axis(ax, r1) + 1] = ins[2].v[1][1]]
            IN OkO([k \in 1..n |-> [s |-> t, d |-> IF k = 1 THEN d1 ELSE "i64"]]))
    [] op = "Compress" ->
         IF ~ins[2].has THEN Unk ELSE
         LET c == Cardinality({k \in 1..Len(ins[2].v) : ins[2].v[k] # Zero}) IN
         IF ~HasA(a, "axis") THEN If(Len(ins[2].v) <= Prod(s1), One1(<<c>>, d1))
         ELSE If(AxisOk(a.axis, r1) /\ Len(ins[2].v) <= s1[Axis(a.axis, r1) + 1], One1([s1 EXCEPT ![Axis(a.axis, r1) + 1] = c], d1))
    [] op = "NonZero" ->
         IF ~ins[1].has THEN Unk ELSE One1(<<Max2(r1, 1), Cardinality({k \in 1..Len(ins[1].v) : ins[1].v[k] # Zero})>>, "i64")
    [] op \in {"LSTM", "GRU"} ->
         LET w == ins[2].s gates == IF op = "LSTM" THEN 4 ELSE 3 h == w[2] \div gates
             dirs == IF At0(a, "direction", "forward") = "bidirectional" THEN 2 ELSE 1
         IN If(r1 = 3 /\ Len(w) = 3 /\ w[1] = dirs /\ w[3] = s1[3] /\ w[2] = gates * h /\ At0(a, "hidden_size", h) = h /\ ins[3].s = <<dirs, gates * h, h>>,
               OkO([k \in 1..n |-> [s |-> IF At0(a, "layout", 0) = 1 THEN (IF k = 1 THEN <<s1[1], s1[2], dirs, h>> ELSE <<s1[1], dirs, h>>)
                                          ELSE IF k = 1 THEN <<s1[1], dirs, s1[2], h>> ELSE <<dirs, s1[2], h>>, d |-> d1]]))
    [] op = "Conv" -> LET c == ConvS(a, s1, ins[2].s) IN If(c.ok /\ (Has(ins, 3) => ins[3].s = <<ins[2].s[1]>>), One1(c.s, d1))
    [] op = "ConvInteger" -> LET c == ConvS(a, s1, ins[2].s) IN If(c.ok, One1(c.s, "i32"))
    [] op = "QLinearConv" -> LET c == ConvS(a, s1, ins[4].s) IN If(c.ok /\ (Has(ins, 9) => ins[9].s = <<ins[4].s[1]>>), One1(c.s, ins[8].d))
    [] op = "ConvTranspose" -> IF r1 < 3 \/ Len(ins[2].s) # r1 THEN No ELSE LET c == ConvT(a, s1, ins[2].s) IN If(c.ok, One1(c.s, d1))
    [] op = "DequantizeLinear" -> One1(s1, IF At0(a, "output_dtype", 0) # 0 THEN OnnxType(a.output_dtype) ELSE ins[2].d)
    [] op = "QuantizeLinear" -> One1(s1, IF Has(ins, 3) THEN ins[3].d ELSE IF At0(a, "output_dtype", 0) # 0 THEN OnnxType(a.output_dtype) ELSE "u8")
    [] op = "RoiAlign" ->
         If(r1 = 4 /\ Len(ins[2].s) = 2 /\ ins[2].s[2] = 4 /\ ins[3].s = <<ins[2].s[1]>>,
            One1(<<ins[2].s[1], s1[2], At0(a, "output_height", 1), At0(a, "output_width", 1)>>, d1))
    [] op \in {"RandomUniformLike", "RandomNormalLike"} -> One1(s1, IF HasA(a, "dtype") THEN OnnxType(a.dtype) ELSE d1)
    [] op = "Reshape" ->
         IF ~ins[2].has THEN Unk ELSE
         LET z == ReshapeDims(s1, IntsOf(ins[2]), At0(a, "allowzero", 0) = 0) IN If(z.ok, One1(z.s, d1))
    [] op = "ConstantOfShape" -> IF ~ins[1].has THEN Unk ELSE One1(IntsOf(ins[1]), IF HasA(a, "value") THEN a.value.d ELSE "f32")
    [] op = "Constant" -> (CASE HasA(a, "value") -> One1(a.value.s, a.value.d) [] HasA(a, "value_int") -> One1(<<>>, "i64") [] HasA(a, "value_ints") -> One1(<<Len(a.value_ints)>>, "i64")
                            [] HasA(a, "value_float") -> One1(<<>>, "f32") [] HasA(a, "value_floats") -> One1(<<Len(a.value_floats)>>, "f32"))
    [] op = "Range" ->
         IF \E k \in 1..3 : ~ins[k].has THEN Unk
         ELSE IF ins[3].v[1] = Zero THEN No
         ELSE One1(<<Max2(0, QCeil(QDiv(QSub(ins[2].v[1], ins[1].v[1]), ins[3].v[1])))>>, d1)
    [] op = "Split" ->
         IF ~AxisOk(At0(a, "axis", 0), r1) THEN No ELSE
         LET ax == Axis(At0(a, "axis", 0), r1) g == SplitSizes(a, ins, n) IN
         IF g.kind = "unk" THEN Unk
         ELSE If(Len(g.sz) = n /\ SumSeq(g.sz) = s1[ax + 1] /\ \A k \in 1..n : g.sz[k] >= 0,
                 OkO([k \in 1..n |-> [s |-> [s1 EXCEPT ![ax + 1] = g.sz[k]], d |-> d1]]))
    [] OTHER -> Skip
(* no operator yields a dimension below zero *)
Infer(op, a, ins, n) ==
  LET r == Infer0(op, a, ins, n) IN
  IF r.st = "ok" /\ \E k \in 1..Len(r.outs) : \E j \in 1..Len(r.outs[k].s) : r.outs[k].s[j] < 0 THEN No ELSE r
=============================================================================
