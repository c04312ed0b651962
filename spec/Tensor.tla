------------------------------- MODULE Tensor -------------------------------
(* Exact tensors.  A shape is a sequence of naturals, the values of a tensor
   are a row-major sequence of rationals <<numerator, denominator>> with a
   positive denominator in lowest terms; booleans are 0 and 1.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a
CeilDiv(a, b) == -((-a) \div b)              \* b > 0
TruncDiv(a, b) == LET q == AbsI(a) \div AbsI(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
Rep(x, n) == [k \in 1..n |-> x]
Sub(s, a, b) == IF a > b THEN <<>> ELSE SubSeq(s, a, b)
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Ran(s) == {s[k] : k \in 1..Len(s)}
Axis(a, r) == IF a < 0 THEN a + r ELSE a     \* 0-based axis of a tensor of rank r
AxisOk(a, r) == -r <= a /\ a < r
NoDups(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j

(* ------------------------------------------------------------- rationals *)
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Undef == <<>>                                 \* not determined, or too large to be represented here
Lim == 1000000000
Mulable(a, b) == a = 0 \/ AbsI(b) <= Lim \div AbsI(a)
Fit(x) == IF AbsI(x[1]) <= Lim /\ x[2] <= 40000 THEN x ELSE Undef
Q(n, d) == IF d = 1 THEN Fit(<<n, 1>>)
           ELSE LET m == IF d < 0 THEN -n ELSE n
                    e == AbsI(d)
                    g == Gcd(AbsI(m), e)
                IN Fit(<<m \div g, e \div g>>)
QI(n) == <<n, 1>>
QAdd(x, y) == IF x = Undef \/ y = Undef THEN Undef
              ELSE IF x[2] = y[2] THEN Q(x[1] + y[1], x[2])
              ELSE IF Mulable(x[1], y[2]) /\ Mulable(y[1], x[2]) /\ Mulable(x[2], y[2]) THEN Q(x[1] * y[2] + y[1] * x[2], x[2] * y[2]) ELSE Undef
QNeg(x) == IF x = Undef THEN Undef ELSE <<-x[1], x[2]>>
QSub(x, y) == QAdd(x, QNeg(y))
QMul(x, y) == IF x = Undef \/ y = Undef THEN Undef
              ELSE IF Mulable(x[1], y[1]) /\ Mulable(x[2], y[2]) THEN Q(x[1] * y[1], x[2] * y[2]) ELSE Undef
QDiv(x, y) == IF x = Undef \/ y = Undef THEN Undef
              ELSE IF Mulable(x[1], y[2]) /\ Mulable(x[2], y[1]) THEN Q(x[1] * y[2], x[2] * y[1]) ELSE Undef
QLt(x, y) ==
  IF x[2] = y[2] THEN x[1] < y[1]
  ELSE IF Mulable(x[1], y[2]) /\ Mulable(y[1], x[2]) THEN x[1] * y[2] < y[1] * x[2]
  ELSE LET f == x[1] \div x[2] g == y[1] \div y[2] IN f < g \/ (f = g /\ (x[1] % x[2]) * y[2] < (y[1] % y[2]) * x[2])
QLe(x, y) == ~QLt(y, x)
QMax(x, y) == IF x = Undef \/ y = Undef THEN Undef ELSE IF QLt(x, y) THEN y ELSE x
QMin(x, y) == IF x = Undef \/ y = Undef THEN Undef ELSE IF QLt(y, x) THEN y ELSE x
QFloor(x) == x[1] \div x[2]
QCeil(x) == CeilDiv(x[1], x[2])
QTrunc(x) == TruncDiv(x[1], x[2])
QRound(x) ==                                  \* half to even
  LET f == QFloor(x) r == QSub(x, QI(f))
  IN IF QLt(r, <<1, 2>>) THEN f ELSE IF QLt(<<1, 2>>, r) THEN f + 1 ELSE IF f % 2 = 0 THEN f ELSE f + 1
RECURSIVE QPow(_, _)
QPow(x, n) == IF n = 0 THEN QI(1) ELSE QMul(x, QPow(x, n - 1))
Zero == <<0, 1>>
One == <<1, 1>>
Bool(b) == IF b THEN One ELSE Zero
QSum(s) == FoldLeft(QAdd, Zero, s)

(* ----------------------------------------------------------------- index *)
RECURSIVE Unrav(_, _)                         \* 0-based linear position -> multi-index
Unrav(k, s) == IF s = <<>> THEN <<>>
               ELSE LET t == Prod(Tail(s)) IN <<k \div t>> \o Unrav(k % t, Tail(s))
RECURSIVE Rav(_, _)
Rav(i, s) == IF s = <<>> THEN 0 ELSE Head(i) * Prod(Tail(s)) + Rav(Tail(i), Tail(s))
At(x, i) == x.v[Rav(i, x.s) + 1]              \* element of tensor x at multi-index i
Build(s, F(_)) == [k \in 1..Prod(s) |-> F(Unrav(k - 1, s))]
Indices(s) == {Unrav(k - 1, s) : k \in 1..Prod(s)}

(* ------------------------------------------------------------ broadcasting *)
PadL(s, r) == Rep(1, r - Len(s)) \o s
BOk(s, t) == LET r == Max2(Len(s), Len(t)) a == PadL(s, r) b == PadL(t, r)
             IN \A k \in 1..r : a[k] = b[k] \/ a[k] = 1 \/ b[k] = 1
BDim(a, b) == IF a = 1 THEN b ELSE a
Bc(s, t) == LET r == Max2(Len(s), Len(t)) a == PadL(s, r) b == PadL(t, r)
            IN [k \in 1..r |-> BDim(a[k], b[k])]
RECURSIVE BAllOk(_, _)
BAllOk(acc, ss) == IF ss = <<>> THEN TRUE ELSE BOk(acc, Head(ss)) /\ BAllOk(Bc(acc, Head(ss)), Tail(ss))
RECURSIVE BAll(_, _)
BAll(acc, ss) == IF ss = <<>> THEN acc ELSE BAll(Bc(acc, Head(ss)), Tail(ss))
BIdx(i, s) == [k \in 1..Len(s) |-> IF s[k] = 1 THEN 0 ELSE i[k + Len(i) - Len(s)]]
BAt(x, i) == At(x, BIdx(i, x.s))
UniOk(t, s) == BOk(s, t) /\ Bc(s, t) = s      \* t broadcasts to s unidirectionally
=============================================================================
