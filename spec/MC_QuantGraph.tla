--------------------------- MODULE MC_QuantGraph ----------------------------
(* Design check: on all graphs of up to MaxNodes nodes over two weights and
   every sequence of calls, a node reads only tensors that exist, nothing is
   quantized twice, and reading code, scale (and zero point) as one weight
   gives back the graph before quantization.                               *)
EXTENDS QuantGraph
CONSTANTS MaxNodes
VARIABLES st, old, fixed, phase, done
vars == <<st, old, fixed, phase, done>>
W == [n |-> "w", d |-> <<2, 3>>, t |-> "float32", h |-> "1"]
V == [n |-> "v", d |-> <<3, 3>>, t |-> "float32", h |-> "2"]
B == [n |-> "b", d |-> <<3>>, t |-> "float32", h |-> "3"]
Init == /\ st = [nodes |-> <<>>, ini |-> <<W, V, B>>] /\ old = st /\ phase = "build" /\ done = {}
        /\ fixed \in {[out |-> o, cap |-> cp, act |-> <<"x">>] : o \in {<<>>, <<"v">>}, cp \in {<<>>, <<"w">>}}
Ins == {<<"x", "w">>, <<"x", "v">>, <<"w", "v">>, <<"w", "w">>, <<"x", "w", "b">>, <<"x", "x">>}
Build == /\ phase = "build" /\ Len(st.nodes) < MaxNodes
         /\ \E op \in {"Gemm", "Add"} : \E i \in Ins : st' = [st EXCEPT !.nodes = Append(@, [n |-> "n" \o ToString(Len(@)), op |-> op, tb |-> 0, i |-> i, o |-> <<"t" \o ToString(Len(@))>>, q |-> <<>>])]
         /\ old' = st' /\ UNCHANGED <<fixed, phase, done>>
Tensor(n) == [n |-> n, d |-> <<1, 1>>, t |-> "int8", h |-> "new"]
Quantize == /\ \E w \in {"w", "v", "b", "x", "w_ot_q"} : \E type \in {"sym", "asym"} :
                 LET call == [w |-> w, block |-> 0, type |-> type, bits |-> 8] IN
                 /\ Eligible(st, fixed, w)
                 /\ st' = [nodes |-> NodesAfter(st, call), ini |-> SelectSeq(st.ini, LAMBDA e : e.n # w) \o [k \in 1..Len(New(w, type)) |-> Tensor(New(w, type)[k])]]
                 /\ done' = done \cup {<<w, type>>}
            /\ phase' = "quantize" /\ UNCHANGED <<old, fixed>>
Next == Build \/ Quantize
Spec == Init /\ [][Next]_vars
RECURSIVE Fold(_, _)
Fold(s, D) == IF s = <<>> THEN <<>>
              ELSE LET hit == {p \in D : Len(s) >= Len(New(p[1], p[2])) /\ SubSeq(s, 1, Len(New(p[1], p[2]))) = New(p[1], p[2])}
                   IN IF hit = {} THEN <<Head(s)>> \o Fold(Tail(s), D) ELSE LET p == CHOOSE p \in hit : TRUE IN <<p[1]>> \o Fold(SubSeq(s, Len(New(p[1], p[2])) + 1, Len(s)), D)
Restores == \A k \in 1..Len(st.nodes) : [st.nodes[k] EXCEPT !.i = Fold(@, done), !.q = <<>>] = old.nodes[k]
Available == \A k \in 1..Len(st.nodes) : RngOf(st.nodes[k].i) \subseteq IniNames(st) \cup {"x"}
OnceEach == \A p, q \in done : p[1] = q[1] => p = q
Kept == \A e \in RngOf(old.ini) : e \in RngOf(st.ini) \/ \E p \in done : p[1] = e.n
Marked == \A k \in 1..Len(st.nodes) : (st.nodes[k].q # <<>>) = (st.nodes[k].i # old.nodes[k].i)
=============================================================================
