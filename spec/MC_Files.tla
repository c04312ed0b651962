----------------------------- MODULE MC_Files ------------------------------
(* Design check of exporting, interface edits and the command line.
   Part 1: rounding to halves, and the argument texts, are read as written.
   Part 2: any history of export requests into one folder leaves every weight
   asked for in a file of its own; any history of interface edits leaves the
   last edit of each name, whatever the order of edits of different names.    *)
EXTENDS Files, TLC
CONSTANTS Stride, MaxSteps
(* ---- halves: every half is itself; between two halves the nearer, ties to the even one *)
FBytes(s, e, f) ==                                    \* f32 of sign, biased exponent, 23 bits of fraction as an integer
  LET b3 == 128 * s + e \div 2 b2 == 128 * (e % 2) + f \div 65536 IN <<f % 256, (f \div 256) % 256, b2, b3>>
(* the f32 that is the half code c plus q / 4096 of its last place, c a finite non-negative half *)
RECURSIVE Bits(_)
Bits(n) == IF n < 2 THEN 0 ELSE 1 + Bits(n \div 2)
AsF32(c, q) ==
  LET e == c \div 1024 f == c % 1024
      m == (IF e = 0 THEN f ELSE 1024 + f) * 4096 + q             \* times 2^(max(e, 1) - 25 - 12)
      k == Bits(m)
      ex == (IF e = 0 THEN 1 ELSE e) - 25 - 12 + k
  IN IF m = 0 THEN <<0, 0, 0, 0>> ELSE FBytes(0, ex + 127, (m - Pow2(k)) * Pow2(23 - k))
Codes == {c \in 0..31742 : c % Stride = 0 \/ c % 1024 \in {0, 1, 1022, 1023}}
ASSUME \A c \in Codes : /\ Half(AsF32(c, 0), 8) = {c}
                        /\ Half(AsF32(c, 2048), 8) = {IF c % 2 = 0 THEN c ELSE c + 1}
                        /\ Half(AsF32(c, 2047), 8) = {c}
                        /\ Half(AsF32(c, 2049), 8) = {c + 1}
                        /\ Half(AsF32(c, 4095), 8) = {c + 1}
ASSUME Half(<<0, 0, 128, 127>>, 8) = {31744} /\ Half(<<0, 0, 128, 255>>, 8) = {64512} /\ 31745 \in Half(<<1, 0, 128, 127>>, 8)
ASSUME Half(<<0, 240, 127, 71>>, 8) = {31744} /\ Half(<<255, 239, 127, 71>>, 8) = {31743}        \* 65520 overflows, just below does not
ASSUME Half(<<0, 0, 0, 0, 0, 0, 240, 63>>, 11) = {15360} /\ Half(<<1, 0, 0, 0, 0, 2, 240, 63>>, 11) = {15361} /\ Half(<<0, 0, 0, 0, 0, 2, 240, 63>>, 11) = {15360}
(* ---- command line *)
Texts(C, n) == UNION {[1..k -> C] : k \in 1..n}
NameSet == Texts({"a", ":", "x"}, 3)
DimSet == {Join(q, "x") : q \in UNION {[1..k -> {<<"3">>, <<"1", "0">>, <<"h">>}] : k \in 1..3}}
ASSUME \A n \in NameSet, d \in DimSet : ParseEdit(ShowEdit([n |-> n, v |-> d])) = [n |-> n, v |-> d]
ASSUME \A n \in NameSet, d \in {<<"3">>, <<"1", "x", "2">>}, t \in {"f32", "int64"}, v \in {<<>>, <<"1", "x", "5">>, <<"0", ".", "2", "5">>} :
         LET e == [n |-> n, d |-> t, s |-> d, v |-> v] IN ParseInput(ShowInput(e, TRUE)) = e /\ (t = "f32" /\ v = <<>> => ParseInput(ShowInput(e, FALSE)) = e)
ASSUME \A d \in DimSet : Len(DimsText(d)) = 1 + Cardinality({k \in 1..Len(d) : d[k] = "x"})
ASSUME DimsText(<<"1", "x", "h", "x", "0", "7", "x", "0">>) = <<"1", "$h", "7", "0">>
(* ---- histories *)
VARIABLES m, folder, edits, steps, asked
vars == <<m, folder, edits, steps, asked>>
Pool == {<<"a", "/", "b">>, <<"a", "_", "b">>, <<"a", "\\", "b">>, <<"a", "_", "b", "_", "1">>, <<"a", "_", "b", "/", "1">>, <<"w">>}
Plains(S) == {n \in S : Safe(n) = n}
(* the tool: safe names first, the others avoid what is taken *)
RECURSIVE Pick(_, _, _), Assign(_, _, _)
Pick(base, k, taken) == LET f == IF k = 0 THEN base ELSE base \o <<"_", ToString(k)>> IN IF f \in taken THEN Pick(base, k + 1, taken) ELSE f
Assign(q, taken, got) == IF q = <<>> THEN got
                         ELSE LET f == Pick(Safe(Head(q)), 0, taken) IN Assign(Tail(q), taken \cup {f}, got @@ (Head(q) :> f))
RECURSIVE Orders(_)
Orders(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o q : q \in Orders(S \ {x})} : x \in S}
FileOf(order) == LET p == SelectSeq(order, LAMBDA n : Safe(n) = n) u == SelectSeq(order, LAMBDA n : Safe(n) # n)
                 IN Assign(p \o u, {}, <<>>)
Decl(n, s) == [n |-> n, d |-> "f32", s |-> s]
Base == [nodes |-> <<[n |-> "a", op |-> "A", dom |-> "", i |-> <<"x", "z">>, o |-> <<"y">>, at |-> <<>>, sub |-> <<>>]>>,
         inputs |-> <<Decl("x", <<"r", <<"$N", "2">>>>), Decl("z", <<"?">>)>>, outputs |-> <<Decl("y", <<"?">>)>>, inits |-> <<>>, infos |-> <<>>, opset |-> <<[dom |-> "", v |-> 17]>>]
Init == \E S \in SUBSET Pool : \E q \in (IF MaxSteps > 2 THEN Orders(S) ELSE {CHOOSE q \in Orders(S) : TRUE}) :
          m = [order |-> q, proto |-> Base] /\ folder = <<>> /\ edits = <<>> /\ steps = 0 /\ asked = {}
Request(ask) == /\ asked' = asked \cup (ask \cap Elements(m.order))
                /\ LET fs == FileOf(m.order) IN
                   folder' = [f \in DOMAIN folder \cup {fs[n] : n \in ask \cap Elements(m.order)} |->
                              IF \E n \in ask \cap Elements(m.order) : fs[n] = f THEN CHOOSE n \in ask \cap Elements(m.order) : fs[n] = f ELSE folder[f]]
                /\ steps' = steps + 1 /\ UNCHANGED <<m, edits>>
Export == steps < MaxSteps /\ (Request(Elements(m.order)) \/ \E n \in Pool : Request({n}))
One(e, v) == <<[n |-> e, v |-> v]>>
Modify == /\ steps < MaxSteps /\ m.order = <<>> /\ steps' = steps + 1 /\ UNCHANGED <<folder, asked>>
          /\ \E e \in {"x", "y", "z", "w"}, v \in {<<"3", "x", "h">>, <<"N">>} :
               IF AllFit(m.proto, One(e, v)) THEN m' = [m EXCEPT !.proto = Edit(m.proto, One(e, v))] /\ edits' = Append(edits, [n |-> e, v |-> v])
               ELSE UNCHANGED <<m, edits>>
Next == Export \/ Modify
Spec == Init /\ [][Next]_vars
OwnFile == \A n \in asked : \E f \in DOMAIN folder : folder[f] = n /\ MayStore(n, f, Elements(m.order))
NoOther == \A f \in DOMAIN folder : folder[f] \in asked
Last(n) == {k \in 1..Len(edits) : edits[k].n = n /\ \A j \in k + 1..Len(edits) : edits[j].n # n}
Effect == /\ \A k \in 1..2 : LET v == m.proto.inputs[k] IN IF Last(v.n) = {} THEN v = Base.inputs[k] ELSE v.s[2] = DimsText(edits[CHOOSE j \in Last(v.n) : TRUE].v)
          /\ Owes(Edit(Base, [k \in 1..Len(edits) |-> edits[Len(edits) + 1 - k]]), m.proto, Plain, <<>>) = {}
               \/ \E a, b \in 1..Len(edits) : a # b /\ edits[a].n = edits[b].n
          /\ m.proto.nodes = Base.nodes
=============================================================================
