-------------------------------- MODULE Cost --------------------------------
(* The published cost model: MACs of an operator on concrete shapes, its
   parameters and memory, and the totals of a model.                         *)
EXTENDS Onnx
Vol(s) == IF s = <<>> THEN 0 ELSE Prod(s)      \* scalars carry no elements in the published tables
ADD == 1  MUL == 1  CMP == 1  DIV == 4  EXP == 32  LOG == 43  SIN == 39  COS == 39  TANH == 38  SQRT == 24
ATAN == 32
Weight(op, n) ==                               \* MACs per output element of an element-wise operator; -1: not element-wise
  CASE op \in {"Add", "Sub", "Mod", "Max", "Ceil"} -> ADD
    [] op \in {"Min", "Neg", "Abs", "Sign", "Relu", "Hardmax", "CumSum", "Less", "LessOrEqual", "Greater", "GreaterOrEqual", "Equal", "Round",
               "Not", "And", "Or", "Xor", "Floor"} -> CMP
    [] op = "Mul" -> MUL
    [] op = "Sum" -> (n - 1) * ADD
    [] op = "Div" -> DIV
    [] op = "Pow" -> EXP
    [] op \in {"Exp", "Sigmoid"} -> EXP        \* the published table counts a sigmoid as its exponential
    [] op = "Log" -> LOG
    [] op \in {"Sin", "Cos"} -> SIN
    [] op = "Tanh" -> 2 * TANH
    [] op = "Atan" -> 2 * ATAN
    [] op = "Sqrt" -> SQRT
    [] op = "Elu" -> CMP + EXP + ADD + MUL
    [] op = "Softmax" -> EXP + DIV
    [] op = "LogSoftmax" -> EXP + DIV + ADD + LOG
    [] op = "Softplus" -> EXP + ADD + LOG
    [] op = "LpNormalization" -> EXP + ADD
    [] op = "HardSigmoid" -> MUL + ADD + CMP * 2
    [] op = "HardSwish" -> MUL * 2 + ADD + CMP * 2
    [] op = "Reciprocal" -> DIV
    [] op \in {"PRelu", "LeakyRelu"} -> CMP + MUL
    [] op \in {"Clip", "Relu6"} -> CMP * 2
    [] op \in {"QuantizeLinear", "DequantizeLinear"} -> MUL + ADD
    [] op = "InstanceNormalization" -> ADD + MUL + ADD + DIV
    [] op = "BatchNormalization" -> ADD + SQRT + DIV + ADD + MUL
    [] OTHER -> -1
Free == {"Identity", "Erf", "Dropout", "Trilu", "Transpose", "Tile", "Gather", "GatherElements", "GatherND", "ScatterElements", "ScatterND",
         "Constant", "Concat", "GridSample", "DepthToSpace", "OneHot", "Unsqueeze", "Squeeze", "Shape", "Expand", "Pad", "Flatten", "ArgMax",
         "Slice", "TopK", "Compress", "RoiAlign", "RandomUniformLike", "RandomNormalLike", "Reshape", "ConstantOfShape", "Cast", "Split", "Range", "Where"}
RECURSIVE ProdOver(_)                          \* S: set of <<label, size>>
ProdOver(S) == IF S = {} THEN 1 ELSE LET x == CHOOSE x \in S : TRUE IN x[2] * ProdOver(S \ {x})
ConvMacs(w, out, bias) == Vol(out) * Prod(Sub(w, 2, Len(w))) + (IF bias THEN Vol(out) * ADD ELSE 0)
RnnMacs(ins, gates, terms) ==                  \* terms: MACs per hidden element and step
  LET x == ins[1].s w == ins[2].s steps == x[1] * x[2]
  IN (Vol(w) + Vol(ins[3].s)) * steps + (IF Has(ins, 4) THEN Vol(ins[4].s) * steps * ADD ELSE 0) + w[1] * steps * (w[2] \div gates) * terms
Macs(op, a, ins, outs) ==
  LET o == outs[1].s v == Vol(outs[1].s) w == Weight(op, Len(ins)) IN
  CASE w >= 0 -> v * w
    [] op \in Free -> 0
    [] op = "LRN" -> v * (DIV + EXP + ADD + a.size * MUL)
    [] op = "LayerNormalization" ->
         LET s == ins[1].s p == Axis(At0(a, "axis", -1), Len(s))
         IN Vol(s) * (3 * MUL + 4 * ADD) + Vol([k \in 1..Len(s) |-> IF k > p THEN 1 ELSE s[k]]) * (ADD + SQRT + DIV)
    [] op \in {"MaxPool", "AveragePool"} -> v * Prod(a.kernel_shape)
    [] op = "GlobalAveragePool" -> Vol(ins[1].s) * ADD + v * DIV
    [] op \in {"ReduceMean", "ReduceSum", "ReduceProd", "ReduceMin", "ReduceMax"} -> Vol(ins[1].s)
    [] op = "ReduceL2" -> Vol(ins[1].s) * (ADD + SQRT)
    [] op = "NonZero" -> v * CMP
    [] op \in {"Conv", "ConvTranspose"} -> ConvMacs(ins[2].s, o, Has(ins, 3))
    [] op = "ConvInteger" -> ConvMacs(ins[2].s, o, FALSE)
    [] op = "QLinearConv" -> ConvMacs(ins[4].s, o, Has(ins, 9))
    [] op = "Gemm" -> LET k == IF At0(a, "transB", 0) # 0 THEN ins[2].s[2] ELSE ins[2].s[1]
                      IN Prod(o) * k + (IF Has(ins, 3) THEN Prod(o) * ADD ELSE 0)
    [] op \in {"MatMul", "MatMulInteger"} -> Prod(o) * ins[1].s[Len(ins[1].s)]
    [] op = "QLinearMatMul" -> Prod(o) * ins[1].s[Len(ins[1].s)]
    [] op = "Einsum" ->
         LET T == [k \in 1..Len(ins) |-> EinFull(a.terms[k], Len(ins[k].s))]
             P == UNION {{<<T[k][j], ins[k].s[j]>> : j \in 1..Len(T[k])} : k \in 1..Len(ins)}
         IN ProdOver({p \in P : p[2] # 1})
    [] op \in {"Resize", "Upsample"} ->
         LET m == At0(a, "mode", "nearest") IN v * (IF m = "linear" THEN 4 ELSE IF m = "cubic" THEN 8 ELSE 0)
    [] op = "LSTM" -> RnnMacs(ins, 4, 4 * ADD + 3 * EXP + 2 * TANH + ADD + 3 * MUL)
    [] op = "GRU" -> RnnMacs(ins, 3, 3 * ADD + 2 * EXP + TANH + 2 * ADD + 3 * MUL)
    [] OTHER -> -1
Bytes(d) == CASE d \in {"f32", "i32", "u32"} -> 4 [] d \in {"f64", "i64", "u64"} -> 8 [] d \in {"f16", "i16", "u16", "bf16"} -> 2 [] OTHER -> 1
(* ins[k].w: the operand is a weight.  Results and accessed weights, in elements and bytes *)
WeightPos(ins) == {k \in 1..Len(ins) : ~ins[k].om /\ ins[k].w}
SumOver(S, F(_)) == SumSeq(LET q == SetToSeq(S) IN [k \in 1..Len(q) |-> F(q[k])])
Params(ins) == SumOver(WeightPos(ins), LAMBDA k : Vol(ins[k].s))
Rows(a, ins) == LET s == ins[1].s p == Axis(At0(a, "axis", 0), Len(s)) IN Prod(ins[2].s) * Prod(Sub(s, 1, p) \o Sub(s, p + 2, Len(s)))
Mem(op, a, ins, outs) ==
  SumSeq([k \in 1..Len(outs) |-> Vol(outs[k].s) * Bytes(outs[k].d)]) +
  (IF op = "Gather" /\ 1 \in WeightPos(ins) /\ Rows(a, ins) # Vol(ins[1].s)
   THEN Rows(a, ins) * Bytes(ins[1].d) +       \* an embedding reads only the rows it looks up
        (IF 2 \in WeightPos(ins) THEN Vol(ins[2].s) * Bytes(ins[2].d) ELSE 0)
   ELSE SumOver(WeightPos(ins), LAMBDA k : Vol(ins[k].s) * Bytes(ins[k].d)))
NodeCost(op, a, ins, outs) == [macs |-> Macs(op, a, ins, outs), params |-> Params(ins), mem |-> Mem(op, a, ins, outs)]
=============================================================================
