---------------------------- MODULE MC_BinFile -----------------------------
(* Design check of the file format: for every object that is built step by step
   a writer's file reads back as the object with nothing left over, no strict
   prefix of it (a write cut short) reads as a file, and two objects with the
   same file are the same.                                                    *)
EXTENDS BinFile, TLC
CONSTANTS MaxSteps
I(n) == IF n < 0 THEN [k \in 1..8 |-> IF k = 1 THEN 256 + n ELSE 255] ELSE [k \in 1..8 |-> IF k = 1 THEN n ELSE 0]      \* -128..255
Long == <<0, 0, 0, 128, 0, 0, 0, 0>>                        \* 2^31
D(s, e, f) == <<0, 0, 0, 0, 0, 0, (e % 16) * 16 + f, 128 * s + e \div 16>>
One == D(0, 1023, 0)
Floats == {One, D(1, 1024, 8), D(0, 0, 0)}
(* rounding to binary32 *)
ASSUME F32(One).b = <<0, 0, 128, 63>> /\ F32(D(1, 1024, 8)).b = <<0, 0, 64, 192>> /\ F32(D(0, 0, 0)).b = <<0, 0, 0, 0>>
ASSUME F32(<<0, 0, 0, 16, 0, 0, 240, 63>>).b = <<0, 0, 128, 63>>                            \* half a place above 1: ties to even
ASSUME F32(<<1, 0, 0, 16, 0, 0, 240, 63>>).b = <<1, 0, 128, 63>> /\ F32(<<0, 0, 0, 48, 0, 0, 240, 63>>).b = <<2, 0, 128, 63>>
ASSUME F32(<<0, 0, 0, 224, 255, 255, 239, 71>>).b = <<255, 255, 127, 127>> /\ F32(<<0, 0, 0, 224, 255, 255, 239, 71>>).ok
ASSUME ~F32(<<0, 0, 0, 240, 255, 255, 239, 71>>).ok /\ ~F32(D(0, 1023 + 128, 0)).ok /\ F32(D(0, 2047, 0)).ok
ASSUME F32(D(0, 1023 - 149, 0)).b = <<1, 0, 0, 0>> /\ F32(D(0, 1023 - 150, 0)).b = <<0, 0, 0, 0>> /\ F32(D(0, 1023 - 150, 8)).b = <<1, 0, 0, 0>>
ASSUME F32(D(0, 1023 - 127, 0)).b = <<0, 0, 64, 0>> /\ F32(D(0, 1023 - 151, 15)).b = <<0, 0, 0, 0>> /\ F32(D(0, 1023 - 200, 1)).b = <<0, 0, 0, 0>>
ASSUME F32(<<255, 255, 255, 255, 255, 255, 15, 56>>).b = <<0, 0, 128, 0>>                   \* rounds up into the normals
(* ---- the writer *)
Int4(v) == SubSeq(v, 1, 4)
Cnt(n) == <<n, 0, 0, 0>>
Cnt8(n) == <<n, 0, 0, 0, 0, 0, 0, 0>>
Txt(t) == t \o <<0>>
KindTag(k) == Cnt(CASE k = "int" -> 0 [] k = "float" -> 1 [] k = "text" -> 2)
Val(k, v) == CASE k = "int" -> Int4(v) [] k = "float" -> F32(v).b [] k = "text" -> Txt(v)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
WAttr(a) == Txt(a.n) \o Cnt(Len(a.v)) \o KindTag(a.k) \o Cat([k \in 1..Len(a.v) |-> Val(a.k, a.v[k])])
WTexts(q) == Cnt(Len(q)) \o Cat([k \in 1..Len(q) |-> Txt(q[k])])
WNode(x) == Txt(x.n) \o Txt(x.op) \o WTexts(x.i) \o WTexts(x.o) \o Cnt(Len(x.at)) \o Cat([k \in 1..Len(x.at) |-> WAttr(x.at[k])])
WWeight(w) == Txt(w.n) \o Cnt(Tags[w.d]) \o Cnt(Len(w.s)) \o Cat([k \in 1..Len(w.s) |-> Cnt(w.s[k])]) \o w.raw
WDesc(d) == Txt(d.n) \o Cnt(Len(d.v)) \o Cat([k \in 1..Len(d.v) |-> KindTag(d.v[k].k) \o Val(d.v[k].k, d.v[k].v)])
WExpr(e) == Txt(e.n) \o Txt(e.src) \o F32(e.alpha).b \o F32(e.beta).b \o Int4(e.factor) \o Int4(e.trunc)
Write(what, x) ==
  CASE what = "graph" -> Cnt(Len(x.nodes)) \o Cat([k \in 1..Len(x.nodes) |-> WNode(x.nodes[k])]) \o Cnt(Len(x.weights)) \o Cat([k \in 1..Len(x.weights) |-> WWeight(x.weights[k])])
    [] what = "engine" -> WTexts(x.vars) \o Cnt(Len(x.descs)) \o Cat([k \in 1..Len(x.descs) |-> WDesc(x.descs[k])]) \o Cnt(Len(x.exprs)) \o Cat([k \in 1..Len(x.exprs) |-> WExpr(x.exprs[k])])
    [] what = "plan" -> x.total \o Cnt8(Len(x.blocks)) \o Cat([k \in 1..Len(x.blocks) |-> Txt(x.blocks[k].n) \o x.blocks[k].off \o x.blocks[k].len])
                        \o Cnt8(Len(x.maxs)) \o Cat([k \in 1..Len(x.maxs) |-> Txt(x.maxs[k].n) \o x.maxs[k].v])
(* ---- objects *)
VARIABLES what, x, step
vars == <<what, x, step>>
T == {<<>>, <<97>>, <<195, 188>>}
Names == {<<97>>, <<1, 0>>}                                  \* the second one holds a zero byte
Ints == {I(0), I(-1), I(255), Long}
Values(k) == CASE k = "int" -> Ints [] k = "float" -> Floats \cup {D(0, 1023 + 128, 0)} [] k = "text" -> T \cup {<<0>>} [] k = "tensor" -> {<<>>}
Empty(w) == CASE w = "graph" -> [nodes |-> <<>>, weights |-> <<>>] [] w = "engine" -> [vars |-> <<>>, descs |-> <<>>, exprs |-> <<>>]
              [] w = "plan" -> [total |-> I(0), blocks |-> <<>>, maxs |-> <<>>]
Init == what \in {"graph", "engine", "plan"} /\ x = Empty(what) /\ step = 0
Grow == step < MaxSteps /\ step' = step + 1 /\ UNCHANGED what
AddNode == /\ what = "graph" /\ Grow
           /\ \E n \in T, i \in {<<>>, <<<<97>>, <<>>>>}, o \in {<<<<98>>>>} :
                x' = [x EXCEPT !.nodes = Append(@, [n |-> n, op |-> <<82>>, i |-> i, o |-> o, at |-> <<>>])]
AddAttr == /\ what = "graph" /\ x.nodes # <<>> /\ Grow
           /\ \E n \in Names, k \in {"int", "float", "text", "tensor"} : \E v \in {<<>>} \cup {<<a>> : a \in Values(k)} \cup {<<a, a>> : a \in Values(k)} :
                x' = [x EXCEPT !.nodes[Len(x.nodes)].at = Append(@, [n |-> n, k |-> k, v |-> v])]
AddWeight == /\ what = "graph" /\ Grow
             /\ \E d \in {"f32", "u8", "i64", "b"}, s \in {<<>>, <<0>>, <<2>>} : (d # "b" \/ s = <<>>)
                /\ LET sz == IF d = "b" THEN 1 ELSE Size[d] IN
                   x' = [x EXCEPT !.weights = Append(@, [n |-> <<97 + Len(x.weights)>>, d |-> d, s |-> s, raw |-> [k \in 1..sz * Product(s) |-> 7 * k]])]
AddVar == what = "engine" /\ Grow /\ \E n \in Names : x' = [x EXCEPT !.vars = Append(@, n)]
AddDesc == /\ what = "engine" /\ Grow
           /\ \E n \in T, k \in {"int", "text"} : \E v \in Values(k) :
                \E q \in {<<>>, <<[k |-> k, v |-> v]>>, <<[k |-> "int", v |-> I(3)], [k |-> k, v |-> v]>>} : x' = [x EXCEPT !.descs = Append(@, [n |-> n, v |-> q])]
AddExpr == /\ what = "engine" /\ Grow
           /\ \E a, b \in Floats, f \in {I(0), I(1)} : x' = [x EXCEPT !.exprs = Append(@, [n |-> <<97>>, src |-> <<98>>, alpha |-> a, beta |-> b, factor |-> f, trunc |-> I(1)])]
AddBlock == /\ what = "plan" /\ Grow
            /\ \E n \in T \cup {<<0>>}, o \in Ints \cup {<<>>} : x' = [x EXCEPT !.blocks = Append(@, [n |-> n, off |-> o, len |-> I(64)]), !.total = Long]
AddMax == what = "plan" /\ Grow /\ \E n \in T : x' = [x EXCEPT !.maxs = Append(@, [n |-> n, v |-> I(5)])]
Next == AddNode \/ AddAttr \/ AddWeight \/ AddVar \/ AddDesc \/ AddExpr \/ AddBlock \/ AddMax
Spec == Init /\ [][Next]_vars
ReadsBack == Fits(what, x) => LET b == Write(what, x) IN Owed(what, x, TRUE, TRUE, b, TRUE) = {}
NoPrefix == Fits(what, x) => LET b == Write(what, x) IN \A k \in 0..Len(b) - 1 : ~ReadFile(what, SubSeq(b, 1, k)).ok
Refuses == ~Fits(what, x) => Owed(what, x, FALSE, FALSE, <<>>, TRUE) = {} /\ Owed(what, x, FALSE, TRUE, <<1>>, TRUE) # {} /\ Owed(what, x, TRUE, TRUE, <<1>>, TRUE) # {}
=============================================================================
