------------------------------ MODULE ShapeUse ------------------------------
(* Which operands of an operator only carry a shape, sizes, axes or scales.   *)
EXTENDS Integers
ShapePosOf(op, n) ==
  CASE op = "Reshape" /\ n = 2 -> {2}
    [] op \in {"Resize", "Upsample"} /\ n = 2 -> {2}
    [] op \in {"Resize", "Upsample"} /\ n = 3 -> {3}
    [] op = "Resize" /\ n = 4 -> {3, 4}
    [] op = "Upsample" /\ n = 4 -> {4}
    [] op = "Expand" /\ n = 2 -> {2}
    [] op = "Slice" /\ n \in 3..5 -> 2..n
    [] op = "ConstantOfShape" /\ n = 1 -> {1}
    [] op = "Tile" /\ n = 2 -> {2}
    [] op = "Range" /\ n = 3 -> {1, 2, 3}
    [] op = "OneHot" /\ n = 3 -> {2}
    [] op = "TopK" /\ n = 2 -> {2}
    [] op = "Pad" /\ n \in {2, 3} -> {2}
    [] op = "Pad" /\ n = 4 -> {2, 4}
    [] op = "NonMaxSuppression" /\ n \in {4, 5} -> {3}
    [] op \in {"Split", "Unsqueeze", "Squeeze", "ReduceSum", "ReduceMean", "ReduceProd", "ReduceMin", "ReduceMax", "ReduceL2"} /\ n = 2 -> {2}
    [] OTHER -> {}
=============================================================================
