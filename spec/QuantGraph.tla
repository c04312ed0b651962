----------------------------- MODULE QuantGraph -----------------------------
(* Rewriting a graph when a weight is quantized.
   A state is [nodes: <<[n, op, tb (transB), i, o, q]>>, ini: <<[n, d (dimensions), t (type), h (content)]>>], q: settings <<block, type, bits>> or <<>>.
   fixed: [out: graph outputs, cap: tensors nested graphs take, act: other tensors]                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RngOf(s) == {s[k] : k \in 1..Len(s)}
IniNames(st) == {st.ini[k].n : k \in 1..Len(st.ini)}
Ini(st, w) == st.ini[CHOOSE k \in 1..Len(st.ini) : st.ini[k].n = w]
Suffixes == <<"_ot_q", "_ot_s", "_ot_z">>
EndsIn(w, suf) == \E k \in 1..Len(w) : SubSeq(w, k, Len(w)) = suf
Ordinary(w) == \A k \in 1..3 : ~EndsIn(w, Suffixes[k])
Floats == {"float32", "float16", "float64"}
UsersOf(st, w) == {k \in 1..Len(st.nodes) : w \in RngOf(st.nodes[k].i)}
New(w, type) == IF type = "asym" THEN <<w \o "_ot_q", w \o "_ot_s", w \o "_ot_z">> ELSE <<w \o "_ot_q", w \o "_ot_s">>
Eligible(st, fixed, w) ==
  /\ w \in IniNames(st) /\ Ordinary(w)
  /\ Ini(st, w).t \in Floats /\ Len(Ini(st, w).d) = 2 /\ \A k \in 1..2 : Ini(st, w).d[k] > 0
  /\ UsersOf(st, w) # {}
  \* needed as it is
  /\ w \notin RngOf(fixed.out) /\ w \notin RngOf(fixed.cap)
  /\ \A k \in 1..3 : w \o Suffixes[k] \notin IniNames(st) \cup RngOf(fixed.act)
RECURSIVE Replace(_, _, _)
Replace(s, w, new) == IF s = <<>> THEN <<>> ELSE (IF Head(s) = w THEN new ELSE <<Head(s)>>) \o Replace(Tail(s), w, new)
Rewired(nd, w, call) == IF w \in RngOf(nd.i) THEN [nd EXCEPT !.i = Replace(@, w, New(w, call.type)), !.q = <<call.block, call.type, call.bits>>] ELSE nd
NodesAfter(st, call) == [k \in 1..Len(st.nodes) |-> Rewired(st.nodes[k], call.w, call)]
NamesAfter(st, call) == (IniNames(st) \ {call.w}) \cup RngOf(New(call.w, call.type))

\* layout of the codes: output channel by output channel
Product(nd, w) == nd.op \in {"Gemm", "MatMul"} /\ nd.tb = 0 /\ Len(nd.i) >= 2 /\ {k \in 1..Len(nd.i) : nd.i[k] = w} = {2}
Layouts(st, w) ==
  LET d == Ini(st, w).d
      U == UsersOf(st, w)
      flip == <<d[2], d[1]>>
  IN IF \A k \in U : Product(st.nodes[k], w) THEN {flip} ELSE IF \A k \in U : ~Product(st.nodes[k], w) THEN {d} ELSE {d, flip}
CodeDims(l, bits) == IF bits = 4 THEN <<l[1], (l[2] + 1) \div 2>> ELSE l
ScaleShape(l, block) == IF block = 0 THEN <<>> ELSE IF block = -1 THEN <<l[1]>> ELSE <<l[1], (l[2] + block - 1) \div block>>
\* the new tensors fit one layout
NewFit(st, call, q, s, z) == \E l \in Layouts(st, call.w) : q.d = CodeDims(l, call.bits) /\ s.d = ScaleShape(l, call.block) /\ (call.type = "asym" => z.d = s.d)
=============================================================================
