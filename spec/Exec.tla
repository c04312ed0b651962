-------------------------------- MODULE Exec --------------------------------
(* Executing a whole model: nodes in order over an environment of tensors.
   environment [tensor name -> [om, s, d, has, v, w]]; w: it does not depend
   on the model's inputs.  A tensor without entry is undetermined.           *)
EXTENDS OnnxVal, ShapeUse
LOCAL INSTANCE TLC                 \* TLCEval: compute a value once instead of at every use
Omitted == [om |-> TRUE, s |-> <<>>, d |-> "", has |-> FALSE, v |-> <<>>, w |-> FALSE]
Ten(x, w) == [om |-> FALSE, s |-> x.s, d |-> x.d, has |-> x.has, v |-> TLCEval(x.v), w |-> w]
InsOf(nd, env) == [k \in 1..Len(nd.i) |-> IF nd.i[k] = "" THEN Omitted ELSE env[nd.i[k]]]
OutsOf(nd, env) == [k \in 1..Len(nd.o) |-> IF nd.o[k] = "" THEN [s |-> <<>>, d |-> "f32"] ELSE env[nd.o[k]]]
Ready(nd, env) == \A k \in 1..Len(nd.i) : nd.i[k] = "" \/ nd.i[k] \in DOMAIN env
Done(nd, env) == Ready(nd, env) /\ \A k \in 1..Len(nd.o) : nd.o[k] = "" \/ nd.o[k] \in DOMAIN env
ConstResult(nd, ins) == nd.op \notin {"DequantizeLinear", "RandomNormalLike", "RandomUniformLike"} /\ \A k \in 1..Len(ins) : ins[k].om \/ ins[k].w
(* operators whose operands have to fit together *)
Strict == {"Add", "Sub", "Mul", "Div", "Pow", "Mod", "Min", "Max", "Sum", "Less", "LessOrEqual", "Greater", "GreaterOrEqual", "Equal", "And", "Or",
           "Xor", "Where", "MatMul", "MatMulInteger", "QLinearMatMul", "Gemm", "Concat", "Conv", "ConvInteger", "QLinearConv", "Reshape", "Expand",
           "Split", "Squeeze", "Einsum"}
(* result [env, bad]: bad lists the nodes, in order, without a determined result [n, op, st] *)
RECURSIVE RunNodes(_, _, _)
RunNodes(nodes, env, bad) ==
  IF nodes = <<>> THEN [env |-> env, bad |-> bad]
  ELSE LET nd == Head(nodes) IN
       IF ~Ready(nd, env) THEN RunNodes(Tail(nodes), env, Append(bad, [n |-> nd.n, op |-> nd.op, st |-> "after"]))
       ELSE LET ins == InsOf(nd, env)
                r == Exec(nd.op, nd.a, ins, Len(nd.o))
                w == ConstResult(nd, ins)
            IN IF r.st = "ok"
               THEN RunNodes(Tail(nodes),
                             [t \in {nd.o[k] : k \in 1..Len(nd.o)} \ {""} |-> Ten(r.outs[CHOOSE k \in 1..Len(nd.o) : nd.o[k] = t], w)] @@ env, bad)
               ELSE RunNodes(Tail(nodes), env, Append(bad, [n |-> nd.n, op |-> nd.op, st |-> r.st]))
(* tensors whose values shapes depend on: operands that carry a shape, and what they are computed from, up to Shape *)
RECURSIVE ShapeClosure(_, _)
ShapeClosure(nodes, S) ==
  LET T == S \cup UNION {{nd.i[k] : k \in 1..Len(nd.i)} : nd \in {nd \in {nodes[j] : j \in 1..Len(nodes)} : nd.op # "Shape" /\ \E k \in 1..Len(nd.o) : nd.o[k] \in S}}
  IN IF T = S THEN S ELSE ShapeClosure(nodes, T)
ShapeTensors(nodes) == ShapeClosure(nodes, UNION {{nodes[j].i[k] : k \in ShapePosOf(nodes[j].op, Len(nodes[j].i))} : j \in 1..Len(nodes)}) \ {""}
=============================================================================
