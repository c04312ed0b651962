------------------------------- MODULE OnnxVal -------------------------------
(* Values of operators on exactly known tensors.  Val(op, a, ins, outs) is the
   sequence of the outputs' value sequences; <<>> where the specification does
   not determine them (or where they are not rational).                      *)
EXTENDS Onnx

IsInt(d) == d \in Ints
(* square roots and transcendental functions at their exact points *)
SqrtI(n) == LET R == {k \in 0..n : k * k = n} IN IF n < 0 \/ R = {} THEN -1 ELSE CHOOSE k \in R : TRUE
QSqrt(x) == IF x[1] >= 0 /\ x[1] <= 400 /\ x[2] <= 64 /\ SqrtI(x[1]) >= 0 /\ SqrtI(x[2]) >= 0 THEN Q(SqrtI(x[1]), SqrtI(x[2])) ELSE Undef
Pt(x, at, is) == IF x = at THEN is ELSE Undef
Half == <<1, 2>>

Un(op, a, d, x) ==
  CASE op = "Neg" -> QNeg(x)
    [] op = "Abs" -> <<AbsI(x[1]), x[2]>>
    [] op = "Ceil" -> QI(QCeil(x))
    [] op = "Floor" -> QI(QFloor(x))
    [] op = "Round" -> QI(QRound(x))
    [] op = "Identity" -> x
    [] op = "Not" -> Bool(x = Zero)
    [] op = "Sign" -> QI(IF x[1] > 0 THEN 1 ELSE IF x[1] < 0 THEN -1 ELSE 0)
    [] op = "Relu" -> QMax(x, Zero)
    [] op = "Relu6" -> QMin(QMax(x, Zero), QI(6))
    [] op = "LeakyRelu" -> IF x[1] >= 0 THEN x ELSE IF HasA(a, "alpha") THEN QMul(x, a.alpha) ELSE Undef
    [] op = "HardSigmoid" -> IF HasA(a, "alpha") /\ HasA(a, "beta") THEN QMax(Zero, QMin(One, QAdd(QMul(x, a.alpha), a.beta))) ELSE Undef
    [] op = "HardSwish" -> QMul(x, QMax(Zero, QMin(One, QAdd(QMul(x, <<1, 6>>), Half))))
    [] op = "Reciprocal" -> IF x = Zero THEN Undef ELSE QDiv(One, x)
    [] op = "Sqrt" -> QSqrt(x)
    [] op = "Exp" -> Pt(x, Zero, One)
    [] op = "Log" -> Pt(x, One, Zero)
    [] op \in {"Sin", "Tanh", "Atan", "Erf"} -> Pt(x, Zero, Zero)
    [] op = "Cos" -> Pt(x, Zero, One)
    [] op = "Sigmoid" -> Pt(x, Zero, Half)
    [] op = "Elu" -> IF x[1] >= 0 THEN x ELSE Undef
    [] OTHER -> Undef
Bin(op, a, d, x, y) ==
  CASE op \in {"Add", "Sum"} -> QAdd(x, y)
    [] op = "Sub" -> QSub(x, y)
    [] op = "Mul" -> QMul(x, y)
    [] op = "Div" -> IF y = Zero THEN Undef ELSE IF IsInt(d) THEN QI(TruncDiv(x[1], y[1])) ELSE QDiv(x, y)
    [] op = "Mod" -> IF y = Zero THEN Undef
                     ELSE IF At0(a, "fmod", 0) = 1 THEN QSub(x, QMul(y, QI(QTrunc(QDiv(x, y)))))
                     ELSE QSub(x, QMul(y, QI(QFloor(QDiv(x, y)))))
    [] op = "Pow" -> IF y[2] = 1 /\ y[1] >= 0 THEN QPow(x, y[1]) ELSE IF y = Half THEN QSqrt(x) ELSE Undef
    [] op = "Min" -> QMin(x, y)
    [] op = "Max" -> QMax(x, y)
    [] op = "Less" -> Bool(QLt(x, y))
    [] op = "LessOrEqual" -> Bool(QLe(x, y))
    [] op = "Greater" -> Bool(QLt(y, x))
    [] op = "GreaterOrEqual" -> Bool(QLe(y, x))
    [] op = "Equal" -> Bool(x = y)
    [] op = "And" -> Bool(x # Zero /\ y # Zero)
    [] op = "Or" -> Bool(x # Zero \/ y # Zero)
    [] op = "Xor" -> Bool((x # Zero) # (y # Zero))
Cast(from, to, x) ==
  IF to = "b" THEN Bool(x # Zero) ELSE IF to \in Ints /\ from \in Floats THEN QI(QTrunc(x)) ELSE x

RedFn(op, S, d) ==                           \* S: the values reduced, in order
  CASE op = "ReduceSum" -> QSum(S)
    [] op = "ReduceMean" -> IF IsInt(d) THEN QI(QTrunc(QDiv(QSum(S), QI(Len(S))))) ELSE QDiv(QSum(S), QI(Len(S)))
    [] op = "ReduceProd" -> FoldLeft(QMul, One, S)
    [] op = "ReduceMin" -> FoldLeft(QMin, S[1], S)
    [] op = "ReduceMax" -> FoldLeft(QMax, S[1], S)
    [] op = "ReduceL2" -> QSqrt(QSum([k \in 1..Len(S) |-> QMul(S[k], S[k])]))
(* the positions of x a reduced position stands for *)
Fibre(x, i, S) ==                            \* i: multi-index with all axes kept
  LET sub == [k \in 1..Len(x.s) |-> IF (k - 1) \in S THEN x.s[k] ELSE 1]
  IN [j \in 1..Prod(sub) |-> LET o == Unrav(j - 1, sub) IN At(x, [k \in 1..Len(x.s) |-> IF (k - 1) \in S THEN o[k] ELSE i[k]])]
KeepIdx(i, r, S) ==                          \* multi-index without the reduced axes -> with zeros at them
  [k \in 1..r |-> IF (k - 1) \in S THEN 0 ELSE i[k - Cardinality({x \in S : x < k - 1})]]

WrapI(i, n) == IF i < 0 THEN i + n ELSE i
Splice(i, p, x) == [i EXCEPT ![p] = x]
Padded(x, i, zero) == IF \A k \in 1..Len(i) : 0 <= i[k] /\ i[k] < x.s[k] THEN At(x, i) ELSE zero

RedBy(red, u, w) == IF red = "add" THEN QAdd(u, w) ELSE IF red = "mul" THEN QMul(u, w) ELSE IF red = "max" THEN QMax(u, w)
                    ELSE IF red = "min" THEN QMin(u, w) ELSE w
RECURSIVE ScatterFold(_, _, _, _)
ScatterFold(out, idx, ups, red) ==           \* idx: sequence of positions, ups: values
  IF idx = <<>> THEN out ELSE ScatterFold([out EXCEPT ![Head(idx) + 1] = RedBy(red, @, Head(ups))], Tail(idx), Tail(ups), red)

ConvVal(a, x, w, b, out) ==
  LET n == Len(x.s) - 2
      st == At0(a, "strides", Rep(1, n))
      di == At0(a, "dilations", Rep(1, n))
      ks == Sub(w.s, 3, n + 2)
      ap == At0(a, "auto_pad", "NOTSET")
      tot == [k \in 1..n |-> Max2(0, (out[k + 2] - 1) * st[k] + Eff(ks[k], di[k]) - x.s[k + 2])]
      pd == IF ap = "SAME_UPPER" THEN [k \in 1..n |-> tot[k] \div 2]
            ELSE IF ap = "SAME_LOWER" THEN [k \in 1..n |-> tot[k] - tot[k] \div 2]
            ELSE IF ap = "VALID" THEN Rep(0, n) ELSE At0(a, "pads", Rep(0, 2 * n))
      g == At0(a, "group", 1)
      cpg == w.s[2]
      opg == w.s[1] \div g
  IN Build(out, LAMBDA i :
       QAdd(IF b.om THEN Zero ELSE b.v[i[2] + 1],
         QSum([j \in 1..(cpg * Prod(ks)) |->
           LET t == Unrav(j - 1, <<cpg>> \o ks)
               src == <<i[1], (i[2] \div opg) * cpg + t[1]>> \o [k \in 1..n |-> i[k + 2] * st[k] + t[k + 1] * di[k] - pd[k]]
           IN QMul(Padded(x, src, Zero), At(w, <<i[2]>> \o t))])))
PoolWin(a, x, i, out) ==                     \* the values a pooling position sees
  LET n == Len(x.s) - 2
      ks == a.kernel_shape
      st == At0(a, "strides", Rep(1, n))
      di == At0(a, "dilations", Rep(1, n))
      ap == At0(a, "auto_pad", "NOTSET")
      tot == [k \in 1..n |-> Max2(0, (out[k + 2] - 1) * st[k] + Eff(ks[k], di[k]) - x.s[k + 2])]
      pd == IF ap = "SAME_UPPER" THEN [k \in 1..n |-> tot[k] \div 2]
            ELSE IF ap = "SAME_LOWER" THEN [k \in 1..n |-> tot[k] - tot[k] \div 2]
            ELSE IF ap = "VALID" THEN Rep(0, n) ELSE At0(a, "pads", Rep(0, 2 * n))
      all == [j \in 1..Prod(ks) |-> LET t == Unrav(j - 1, ks) IN <<i[1], i[2]>> \o [k \in 1..n |-> i[k + 2] * st[k] + t[k] * di[k] - pd[k]]]
      in == SelectSeq(all, LAMBDA q : \A k \in 1..n : 0 <= q[k + 2] /\ q[k + 2] < x.s[k + 2])
  IN [k \in 1..Len(in) |-> At(x, in[k])]

(* stable descending order: positions 1..n of the sequence s *)
RECURSIVE SelTop(_, _, _, _)
SelTop(s, S, k, larg) ==
  IF k = 0 THEN <<>>
  ELSE LET b == CHOOSE p \in S : \A q \in S : IF s[q] = s[p] THEN p <= q ELSE IF larg THEN QLt(s[q], s[p]) ELSE QLt(s[p], s[q])
       IN <<b>> \o SelTop(s, S \ {b}, k - 1, larg)

Val(op, a, ins, outs) ==
  LET x == ins[1]  s1 == ins[1].s  d1 == ins[1].d  r1 == Len(ins[1].s)
      o == outs[1].s
      one(F(_)) == <<Build(o, F)>>
      keep == <<x.v>>
  IN
  CASE op \in Unary \ {"LpNormalization", "LRN", "Softplus"} -> one(LAMBDA i : Un(op, a, d1, At(x, i)))
    [] op \in Compare \cup (Variadic \ {"Sum", "Min", "Max", "Add"}) -> one(LAMBDA i : Bin(op, a, d1, BAt(x, i), BAt(ins[2], i)))
    [] op \in {"Sum", "Min", "Max", "Add"} ->
         one(LAMBDA i : FoldLeft(LAMBDA p, q : Bin(op, a, d1, p, q), BAt(x, i), [k \in 1..(Len(ins) - 1) |-> BAt(ins[k + 1], i)]))
    [] op = "Where" -> one(LAMBDA i : IF BAt(x, i) # Zero THEN BAt(ins[2], i) ELSE BAt(ins[3], i))
    [] op = "Cast" -> one(LAMBDA i : Cast(d1, OnnxType(a.to), At(x, i)))
    [] op = "Clip" -> one(LAMBDA i : LET lo == IF Has(ins, 2) THEN QMax(At(x, i), ins[2].v[1]) ELSE At(x, i)
                                     IN IF Has(ins, 3) THEN QMin(lo, ins[3].v[1]) ELSE lo)
    [] op = "Dropout" -> <<x.v>> \o [k \in 1..(Len(outs) - 1) |-> Rep(One, Len(x.v))]
    [] op = "Softmax" ->                     \* equal entries along the axis
         LET ax == Axis(At0(a, "axis", -1), r1) IN
         one(LAMBDA i : LET f == Fibre(x, i, {ax}) IN IF Cardinality(Ran(f)) = 1 THEN Q(1, Len(f)) ELSE Undef)
    [] op \in {"Shape"} -> <<[k \in 1..o[1] |-> QI(s1[k + Clamp(Axis(At0(a, "start", 0), r1), 0, r1)])]>>
    [] op \in {"Reshape", "Squeeze", "Unsqueeze", "Flatten"} -> keep
    [] op = "Transpose" ->
         LET p == At0(a, "perm", [k \in 1..r1 |-> r1 - k]) IN
         one(LAMBDA i : At(x, [k \in 1..r1 |-> i[CHOOSE j \in 1..r1 : p[j] = k - 1]]))
    [] op = "Concat" ->
         LET ax == Axis(a.axis, r1) + 1 IN
         one(LAMBDA i :
           LET before(k) == SumSeq([j \in 1..(k - 1) |-> ins[j].s[ax]])
               k == CHOOSE k \in 1..Len(ins) : before(k) <= i[ax] /\ i[ax] < before(k) + ins[k].s[ax]
           IN At(ins[k], [i EXCEPT ![ax] = @ - before(k)]))
    [] op = "Slice" ->
         LET D == SliceDims(s1, SliceArgs(a, ins)) IN one(LAMBDA i : At(x, [k \in 1..r1 |-> D[k].start + i[k] * D[k].step]))
    [] op = "Split" ->
         LET ax == Axis(At0(a, "axis", 0), r1) + 1 IN
         [k \in 1..Len(outs) |-> LET off == SumSeq([j \in 1..(k - 1) |-> outs[j].s[ax]])
                                 IN Build(outs[k].s, LAMBDA i : At(x, [i EXCEPT ![ax] = @ + off]))]
    [] op = "Gather" ->
         LET ax == Axis(At0(a, "axis", 0), r1) ri == Len(ins[2].s) IN
         one(LAMBDA i : LET j == At(ins[2], Sub(i, ax + 1, ax + ri))[1]
                        IN At(x, Sub(i, 1, ax) \o <<WrapI(j, s1[ax + 1])>> \o Sub(i, ax + ri + 1, Len(i))))
    [] op = "GatherElements" ->
         LET ax == Axis(At0(a, "axis", 0), r1) + 1 IN one(LAMBDA i : At(x, [i EXCEPT ![ax] = WrapI(At(ins[2], i)[1], s1[ax])]))
    [] op = "GatherND" ->
         LET b == At0(a, "batch_dims", 0) t == ins[2].s l == t[Len(t)] IN
         one(LAMBDA i : LET p == Sub(i, 1, Len(t) - 1)
                            j == [k \in 1..l |-> WrapI(At(ins[2], p \o <<k - 1>>)[1], s1[b + k])]
                        IN At(x, Sub(i, 1, b) \o j \o Sub(i, Len(t), Len(i))))
    [] op = "ScatterND" ->
         LET t == ins[2].s l == t[Len(t)] front == Sub(t, 1, Len(t) - 1)
             P == [q \in 1..Prod(ins[3].s) |->
                    LET i == Unrav(q - 1, ins[3].s) p == Sub(i, 1, Len(front))
                    IN Rav([k \in 1..l |-> WrapI(At(ins[2], p \o <<k - 1>>)[1], s1[k])] \o Sub(i, Len(front) + 1, Len(i)), s1)]
         IN <<ScatterFold(x.v, P, ins[3].v, At0(a, "reduction", "none"))>>
    [] op = "Tile" -> one(LAMBDA i : At(x, [k \in 1..r1 |-> i[k] % s1[k]]))
    [] op = "Expand" -> one(LAMBDA i : BAt(x, i))
    [] op = "ConstantOfShape" -> <<Rep(IF HasA(a, "value") THEN a.value.v[1] ELSE Zero, Prod(o))>>
    [] op = "Constant" -> <<CASE HasA(a, "value") -> a.value.v [] HasA(a, "value_int") -> <<QI(a.value_int)>> [] HasA(a, "value_ints") -> [k \in 1..Len(a.value_ints) |-> QI(a.value_ints[k])]
                              [] HasA(a, "value_float") -> <<a.value_float>> [] HasA(a, "value_floats") -> a.value_floats>>
    [] op = "Range" -> one(LAMBDA i : QAdd(x.v[1], QMul(QI(i[1]), ins[3].v[1])))
    [] op \in Reduces ->
         LET S == AxSet(RedAxes(a, ins).ax, r1) k == At0(a, "keepdims", 1) = 1 IN
         IF 0 \in Ran(s1) THEN <<>> ELSE
         one(LAMBDA i : IF S = {} /\ op # "ReduceL2" THEN At(x, i) ELSE RedFn(op, Fibre(x, IF k THEN i ELSE KeepIdx(i, r1, S), S), d1))
    [] op = "ArgMax" ->
         LET ax == Axis(At0(a, "axis", 0), r1) k == At0(a, "keepdims", 1) = 1 IN
         IF s1[ax + 1] = 0 THEN <<>> ELSE
         one(LAMBDA i : LET f == Fibre(x, IF k THEN i ELSE KeepIdx(i, r1, {ax}), {ax})
                            m == FoldLeft(QMax, f[1], f)
                            P == {p \in 1..Len(f) : f[p] = m}
                            last == At0(a, "select_last_index", 0) = 1
                        IN QI((CHOOSE p \in P : \A q \in P : IF last THEN q <= p ELSE p <= q) - 1))
    [] op = "TopK" ->
         LET ax == Axis(At0(a, "axis", -1), r1) k == o[ax + 1]
             pick(i) == LET f == Fibre(x, i, {ax}) IN SelTop(f, 1..Len(f), k, At0(a, "largest", 1) = 1)
         IN <<Build(o, LAMBDA i : Fibre(x, [i EXCEPT ![ax + 1] = 0], {ax})[pick([i EXCEPT ![ax + 1] = 0])[i[ax + 1] + 1]])>> \o
            (IF Len(outs) = 2 THEN <<Build(o, LAMBDA i : QI(pick([i EXCEPT ![ax + 1] = 0])[i[ax + 1] + 1] - 1))>> ELSE <<>>)
    [] op = "NonZero" ->
         LET P == SelectSeq([k \in 1..Len(x.v) |-> k], LAMBDA k : x.v[k] # Zero)
         IN one(LAMBDA i : IF r1 = 0 THEN Zero ELSE QI(Unrav(P[i[2] + 1] - 1, s1)[i[1] + 1]))
    [] op = "Compress" ->
         LET P == SelectSeq([k \in 1..Len(ins[2].v) |-> k], LAMBDA k : ins[2].v[k] # Zero) IN
         IF ~HasA(a, "axis") THEN one(LAMBDA i : x.v[P[i[1] + 1]])
         ELSE LET ax == Axis(a.axis, r1) + 1 IN one(LAMBDA i : At(x, [i EXCEPT ![ax] = P[@ + 1] - 1]))
    [] op = "OneHot" ->
         LET p == Axis(At0(a, "axis", -1), r1 + 1) depth == ins[2].v[1][1] IN
         one(LAMBDA i : LET j == At(x, Sub(i, 1, p) \o Sub(i, p + 2, Len(i)))[1]
                        IN IF j < -depth \/ j >= depth \/ WrapI(j, depth) # i[p + 1] THEN ins[3].v[1] ELSE ins[3].v[2])
    [] op = "Pad" ->
         LET p == IF HasA(a, "pads") THEN a.pads ELSE IntsOf(ins[2])
             ax == IF Has(ins, 4) THEN [k \in 1..Len(ins[4].v) |-> Axis(ins[4].v[k][1], r1)] ELSE [k \in 1..r1 |-> k - 1]
             lo(k) == LET J == {j \in 1..Len(ax) : ax[j] = k - 1} IN IF J = {} THEN 0 ELSE p[CHOOSE j \in J : TRUE]
             mode == At0(a, "mode", "constant")
             c == IF Has(ins, 3) THEN ins[3].v[1] ELSE At0(a, "value", Zero)
             src(i) == [k \in 1..r1 |-> i[k] - lo(k)]
             refl(j, n) == IF j < 0 THEN -j ELSE IF j >= n THEN 2 * (n - 1) - j ELSE j
         IN IF mode = "constant" THEN one(LAMBDA i : Padded(x, src(i), c))
            ELSE IF mode = "edge" THEN one(LAMBDA i : At(x, [k \in 1..r1 |-> Clamp(src(i)[k], 0, s1[k] - 1)]))
            ELSE IF mode = "reflect"
            THEN one(LAMBDA i : LET j == [k \in 1..r1 |-> refl(src(i)[k], s1[k])] IN
                                IF \A k \in 1..r1 : j[k] >= 0 /\ j[k] < s1[k] THEN At(x, j) ELSE Undef)
            ELSE <<>>
    [] op = "Trilu" ->
         LET k == IF Has(ins, 2) THEN ins[2].v[1][1] ELSE 0 up == At0(a, "upper", 1) = 1 IN
         one(LAMBDA i : LET g == i[r1] - i[r1 - 1] IN IF (IF up THEN g >= k ELSE g <= k) THEN At(x, i) ELSE Zero)
    [] op = "CumSum" ->
         LET ax == Axis(ins[2].v[1][1], r1) + 1 ex == At0(a, "exclusive", 0) = 1 rv == At0(a, "reverse", 0) = 1 IN
         one(LAMBDA i : LET J == IF rv THEN (IF ex THEN (i[ax] + 1)..(s1[ax] - 1) ELSE i[ax]..(s1[ax] - 1))
                                       ELSE (IF ex THEN 0..(i[ax] - 1) ELSE 0..i[ax])
                        IN QSum([k \in 1..s1[ax] |-> IF (k - 1) \in J THEN At(x, [i EXCEPT ![ax] = k - 1]) ELSE Zero]))
    [] op = "MatMul" ->
         LET A == IF r1 = 1 THEN <<1>> \o s1 ELSE s1
             B == IF Len(ins[2].s) = 1 THEN ins[2].s \o <<1>> ELSE ins[2].s
             xa == [x EXCEPT !.s = A]
             xb == [ins[2] EXCEPT !.s = B]
             K == A[Len(A)]
         IN one(LAMBDA i :
              LET j0 == IF Len(ins[2].s) = 1 THEN i \o <<0>> ELSE i
                  j == IF r1 = 1 THEN Sub(j0, 1, Len(j0) - 1) \o <<0, j0[Len(j0)]>> ELSE j0
                  bt == Sub(j, 1, Len(j) - 2)
                  ia == BIdx(bt, Sub(A, 1, Len(A) - 2))
                  ib == BIdx(bt, Sub(B, 1, Len(B) - 2))
              IN QSum([k \in 1..K |-> QMul(At(xa, ia \o <<j[Len(j) - 1], k - 1>>), At(xb, ib \o <<k - 1, j[Len(j)]>>))]))
    [] op = "Gemm" ->
         LET ta == At0(a, "transA", 0) # 0 tb == At0(a, "transB", 0) # 0 K == IF ta THEN s1[1] ELSE s1[2]
             al == At0(a, "alpha", One) be == At0(a, "beta", One) IN
         one(LAMBDA i : QAdd(QMul(al, QSum([k \in 1..K |-> QMul(At(x, IF ta THEN <<k - 1, i[1]>> ELSE <<i[1], k - 1>>),
                                                               At(ins[2], IF tb THEN <<i[2], k - 1>> ELSE <<k - 1, i[2]>>))])),
                             IF Has(ins, 3) THEN QMul(be, BAt(ins[3], i)) ELSE Zero))
    [] op = "Conv" -> <<ConvVal(a, x, ins[2], IF Has(ins, 3) THEN ins[3] ELSE [om |-> TRUE], o)>>
    [] op = "MaxPool" -> IF Len(outs) > 1 THEN <<>>
                         ELSE one(LAMBDA i : LET w == PoolWin(a, x, i, o) IN IF w = <<>> THEN Undef ELSE FoldLeft(QMax, w[1], w))
    [] op = "GlobalAveragePool" -> one(LAMBDA i : LET f == Fibre(x, i, 2..(r1 - 1)) IN QDiv(QSum(f), QI(Len(f))))
    [] op = "BatchNormalization" ->          \* exact where var + epsilon is a square; epsilon is given
         IF ~HasA(a, "epsilon") \/ At0(a, "training_mode", 0) = 1 \/ Len(outs) > 1 THEN <<>> ELSE
         one(LAMBDA i : LET c == i[2] + 1 r == QSqrt(QAdd(ins[5].v[c], a.epsilon))
                        IN IF r = Undef \/ r = Zero THEN Undef
                           ELSE QAdd(QMul(QDiv(QSub(At(x, i), ins[4].v[c]), r), ins[2].v[c]), ins[3].v[c]))
    [] op = "Softplus" ->                    \* x where exp(-x) is below the precision; below 0.7 elsewhere
         one(LAMBDA i : IF At(x, i) # Undef /\ QLe(QI(200), At(x, i)) THEN At(x, i) ELSE Undef)
    [] OTHER -> <<>>

(* operators whose value inference is documented as missing: these, and only these, may answer NotImplementedError *)
NoValueOps == {"ArrayFeatureExtractor", "AveragePool", "CategoryMapper", "ConvInteger", "ConvTranspose", "DepthToSpace", "DequantizeLinear",
               "Einsum", "GRU", "GeGelu", "Gelu", "GridSample", "Hardmax", "ImageScaler", "InstanceNormalization", "LRN", "LSTM",
               "LayerNormalization", "LogSoftmax", "LpNormalization", "NonMaxSuppression", "PRelu", "QLinearConv", "QLinearMatMul",
               "QuantizeLinear", "RandomNormalLike", "RandomUniformLike", "Resize", "RoiAlign", "Scan", "ScatterElements", "Silu", "TopK", "Upsample"}
MayRefuseValue(op, a, n) ==
  \/ op \in NoValueOps
  \/ op = "Conv"                             \* groups, or other than two spatial dimensions
  \/ op = "MaxPool" /\ n > 1
  \/ op = "BatchNormalization" /\ (n > 1 \/ At0(a, "training_mode", 0) = 1)
  \/ op = "CumSum" /\ (At0(a, "exclusive", 0) # 0 \/ At0(a, "reverse", 0) # 0)

(* everything an operator yields for given inputs: results with values where they are determined *)
Exec(op, a, ins, n) ==
  LET r == Infer(op, a, ins, n) IN
  IF r.st # "ok" THEN r
  ELSE LET small == \A k \in 1..n : Prod(r.outs[k].s) <= 256
           known == \A k \in 1..Len(ins) : ins[k].om \/ ins[k].has
           ok == small /\ (known \/ op = "Shape")
           v == IF ok THEN Val(op, a, ins, r.outs) ELSE <<>>
           has(k) == ok /\ k <= Len(v) /\ Undef \notin Ran(v[k])
       IN [st |-> "ok",
           outs |-> [k \in 1..n |-> [om |-> FALSE, s |-> r.outs[k].s, d |-> r.outs[k].d, has |-> has(k), v |-> IF has(k) THEN v[k] ELSE <<>>]]]
=============================================================================
