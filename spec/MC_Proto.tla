------------------------------ MODULE MC_Proto ------------------------------
(* Design check of the file format and of loading and saving.
   Part 1 (Encode): any element survives any encoding.
   Part 2: a session of load / infer / save steps over all small models keeps
   what the file owes to the model, at any generation.                       *)
EXTENDS Proto, TLC
CONSTANTS MaxGen
VARIABLES m, f, o, shapes, gen
vars == <<m, f, o, shapes, gen>>
Byte == {0, 1, 127, 128, 255}
Types == {"i8", "u8", "i16", "f16", "f32", "i64"}
Extend(b, k) == b \o [j \in 1..k - Len(b) |-> IF b[Len(b)] >= 128 THEN 255 ELSE 0]   \* sign extension to the word
Field(d) == IF d \in {"i64", "u64", "f64", "u32"} THEN 8 ELSE 4
Enc(d, s, els, how) == [d |-> d, s |-> s, raw |-> IF how = "raw" THEN Flat(els, Width(d)) ELSE <<>>,
                        w |-> IF how = "raw" THEN <<>> ELSE [k \in 1..Len(els) |-> Extend(els[k], Field(d))]]
Patterns(d) == {[j \in 1..Width(d) |-> IF j = Width(d) THEN b ELSE a] : a \in Byte, b \in Byte}
ASSUME \A d \in Types : \A x, y \in Patterns(d) :
         /\ Bytes(Enc(d, <<2>>, <<x, y>>, "raw")) = x \o y
         /\ Bytes(Enc(d, <<2>>, <<x, y>>, "typed")) = x \o y
         /\ SameTensor(Enc(d, <<2>>, <<x, y>>, "raw"), Enc(d, <<2>>, <<x, y>>, "typed"))
         /\ SameTensor(Enc(d, <<2>>, <<x, y>>, "raw"), Enc(d, <<2>>, <<y, x>>, "typed")) => x = y
W(how, b) == [n |-> "w", decl |-> <<"r", <<"1">>>>] @@ Enc("i8", <<1>>, <<<<b>>>>, how)
Decl(n, s) == [n |-> n, d |-> "f32", s |-> s]
Shapes == {<<"?">>, <<"r", <<>>>>, <<"r", <<"$N", "2">>>>}
Models == {[nodes |-> <<[n |-> "a", op |-> "A", dom |-> "", i |-> i1, o |-> <<"t">>, at |-> at, sub |-> <<>>],
                        [n |-> nm, op |-> "B", dom |-> "my", i |-> <<"t">>, o |-> <<"y">>, at |-> <<>>, sub |-> sub]>>,
            inputs |-> <<Decl("x", s)>>, outputs |-> <<Decl("y", <<"?">>)>>, inits |-> <<W(how, b)>>,
            infos |-> inf, opset |-> <<[dom |-> "", v |-> 17]>>] :
           i1 \in {<<"x">>, <<"x", "w">>, <<"", "x">>}, nm \in {"b", ""}, sub \in {<<>>, <<"w">>, <<"x">>}, s \in Shapes, how \in {"raw", "typed"}, b \in {0, 255},
           at \in {<<>>, <<[n |-> "k", k |-> "ints", v |-> ""]>>}, inf \in {<<>>, <<Decl("t", <<"r", <<"3">>>>)>>}}
Init == m \in Models /\ f = m /\ o = [shape_only |-> FALSE, no_shape |-> FALSE, inferred |-> FALSE] /\ shapes = <<>> /\ gen = 0
Found == <<[n |-> "x", s |-> <<"r", <<"4", "2">>>>, d |-> "f32"], [n |-> "t", s |-> <<"r", <<"4">>>>, d |-> "f32"], [n |-> "y", s |-> <<"r", <<>>>>, d |-> "f32"]>>
Infer == gen = 0 /\ shapes = <<>> /\ shapes' = Found /\ o' = [o EXCEPT !.inferred = TRUE] /\ UNCHANGED <<m, f, gen>>
(* what saving does *)
Shape(x, decl) == IF o.inferred /\ x \in Names(shapes) THEN Of(shapes, x).s ELSE decl
Save == /\ gen < MaxGen
        /\ \E so, ns \in BOOLEAN :
           /\ o' = [o EXCEPT !.shape_only = so, !.no_shape = ns]
           /\ m' = f /\ gen' = gen + 1
           /\ LET used == Used(f)
                  wts == SelectSeq(f.inits, LAMBDA t : t.n \in used)
                  ins == SelectSeq(f.inputs, LAMBDA t : t.n \in used)
                  nodes == [k \in 1..Len(f.nodes) |-> IF f.nodes[k].n = "" THEN [f.nodes[k] EXCEPT !.n = "B_" \o ToString(k)] ELSE f.nodes[k]]
              IN f' = [nodes |-> nodes, opset |-> f.opset,
                       inputs |-> [k \in 1..Len(ins) |-> [ins[k] EXCEPT !.s = Shape(ins[k].n, @)]] \o
                                  (IF so THEN [k \in 1..Len(wts) |-> [n |-> wts[k].n, d |-> wts[k].d, s |-> wts[k].decl]] ELSE <<>>),
                       outputs |-> [k \in 1..Len(f.outputs) |-> [f.outputs[k] EXCEPT !.s = Shape(f.outputs[k].n, @)]],
                       inits |-> IF so THEN <<>> ELSE [k \in 1..Len(wts) |-> [wts[k] EXCEPT !.raw = Bytes(wts[k]), !.w = <<>>]],
                       infos |-> IF ns THEN <<>>
                                 ELSE IF "t" \in Names(f.infos) THEN <<[Of(f.infos, "t") EXCEPT !.s = Shape("t", @)]>>
                                 ELSE IF o.inferred THEN <<[n |-> "t", d |-> "f32", s |-> Of(shapes, "t").s]>> ELSE <<>>]
        /\ UNCHANGED shapes
Next == Infer \/ Save
Spec == Init /\ [][Next]_vars
Preserved == gen > 0 => Owes(m, f, o, shapes) = {}
=============================================================================
