------------------------------- MODULE Proto --------------------------------
(* The ONNX file format as far as models are kept in it.

   tensor on the wire [d, s, raw: bytes, w: words]: either raw holds the
   little-endian elements one after the other, or each element is a word of
   the typed field of its type, of which the low bytes are the element.  Two
   tensors are the same when type, shape and element bytes are.

   model [nodes <<[n, op, dom, i, o, at, sub]>>, inputs <<[n, d, s]>>,
   outputs <<[n, d, s]>>, inits <<[n, d, s, raw, w]>>, infos <<[n, d, s]>>,
   opset <<[dom, v]>>].  at: <<[n, k, v]>> attributes: kind and value (a text,
   or a tensor on the wire when k = "tensor"); sub: names a nested graph takes
   from outside.  s of a declaration: <<"?">> without shape, else <<"r", dims>>
   with a dimension being a text: digits, a symbol after "$", or "?".        *)
EXTENDS Integers, Sequences, FiniteSets
Width(d) == CASE d \in {"i8", "u8", "b", "f8e4m3fn", "f8e5m2", "raw"} -> 1 [] d \in {"i16", "u16", "f16", "bf16"} -> 2
              [] d \in {"f32", "i32", "u32"} -> 4 [] d \in {"f64", "i64", "u64"} -> 8
Low(w, k) == [j \in 1..k |-> w[j]]
Flat(ws, k) == [j \in 1..Len(ws) * k |-> ws[((j - 1) \div k) + 1][((j - 1) % k) + 1]]
Bytes(t) == IF t.d = "str" THEN t.w ELSE IF t.raw # <<>> THEN t.raw ELSE Flat(t.w, Width(t.d))
RECURSIVE Vol(_)
Vol(s) == IF s = <<>> THEN 1 ELSE Head(s) * Vol(Tail(s))
WellFormed(t) == t.d = "str" \/ Len(Bytes(t)) = Vol(t.s) * Width(t.d)
SameTensor(a, b) == a.d = b.d /\ a.s = b.s /\ Bytes(a) = Bytes(b)
SameAttr(x, y) == x.n = y.n /\ x.k = y.k /\ IF x.k = "tensor" THEN SameTensor(x.v, y.v) ELSE x.v = y.v
Elems(q) == {q[k] : k \in 1..Len(q)}
SameAttrs(a, b) == (\A x \in Elems(a) : \E y \in Elems(b) : SameAttr(x, y)) /\ (\A y \in Elems(b) : \E x \in Elems(a) : SameAttr(x, y))
SameNode(x, y) == x.op = y.op /\ x.dom = y.dom /\ x.i = y.i /\ x.o = y.o /\ SameAttrs(x.at, y.at) /\ (x.n = y.n \/ x.n = "")
Used(m) == UNION {Elems(m.nodes[k].i) \cup Elems(m.nodes[k].sub) : k \in 1..Len(m.nodes)} \cup {m.outputs[k].n : k \in 1..Len(m.outputs)}
Names(q) == {q[k].n : k \in 1..Len(q)}
Of(q, x) == q[CHOOSE k \in 1..Len(q) : q[k].n = x]
Made(m) == UNION {Elems(m.nodes[k].o) : k \in 1..Len(m.nodes)} \ {""}
Given(m) == Names(m.inputs) \ Names(m.inits)          \* an initializer may be listed among the inputs as well

Clause(n, b) == IF b THEN {} ELSE {n}
(* what a saved file owes to the model it was loaded from.
   o: [shape_only, no_shape, inferred]; shapes: <<[n, s, d]>> the shapes inference found, when it ran *)
Owes(m, f, o, shapes) ==
  LET inferred(x, decl) == IF o.inferred /\ x \in Names(shapes) THEN Of(shapes, x).s ELSE decl
      weights == Names(m.inits) \cap Used(m)
      kept == Names(f.inputs) \cup Names(f.infos)
  IN Clause("nodes", Len(m.nodes) = Len(f.nodes)) \cup
     (IF Len(m.nodes) = Len(f.nodes)
      THEN UNION {Clause("node " \o m.nodes[k].n \o " (" \o m.nodes[k].op \o ")", SameNode(m.nodes[k], f.nodes[k])) : k \in 1..Len(m.nodes)} \cup
           Clause("node names", \A a, b \in 1..Len(f.nodes) : f.nodes[a].n = f.nodes[b].n => a = b \/ m.nodes[a].n = m.nodes[b].n)
      ELSE {}) \cup
     Clause("outputs", [k \in 1..Len(f.outputs) |-> f.outputs[k].n] = [k \in 1..Len(m.outputs) |-> m.outputs[k].n]) \cup
     UNION {LET x == m.outputs[k].n IN
            IF x \notin Names(f.outputs) THEN {} ELSE
            Clause("output " \o x \o " type", m.outputs[k].d = "" \/ Of(f.outputs, x).d = m.outputs[k].d) \cup
            Clause("output " \o x \o " shape", Of(f.outputs, x).s = inferred(x, m.outputs[k].s)) : k \in 1..Len(m.outputs)} \cup
     Clause("inputs", Given(m) \cap Used(m) \subseteq Names(f.inputs) /\ Given(f) \subseteq Given(m) \cup (IF o.shape_only THEN weights ELSE {})) \cup
     Clause("an input is listed twice", Cardinality(Names(f.inputs)) = Len(f.inputs)) \cup
     UNION {Clause("input " \o x \o " type", Of(f.inputs, x).d = Of(m.inputs, x).d) \cup
            Clause("input " \o x \o " shape", Of(f.inputs, x).s = inferred(x, Of(m.inputs, x).s)) : x \in Given(m) \cap Used(m) \cap Names(f.inputs)} \cup
     Clause("opset imports", Elems(m.opset) = Elems(f.opset)) \cup
     (IF o.shape_only
      THEN Clause("weights are stored", f.inits = <<>>) \cup
           UNION {IF x \notin kept THEN {"the shape of weight " \o x \o " is lost"}
                  ELSE LET decl == IF x \in Names(f.inputs) THEN Of(f.inputs, x) ELSE Of(f.infos, x) IN
                       Clause("weight " \o x \o " shape", decl.s = Of(m.inits, x).decl) \cup Clause("weight " \o x \o " type", decl.d = Of(m.inits, x).d) : x \in weights}
      ELSE Clause("initializers " , weights \subseteq Names(f.inits) /\ Names(f.inits) \subseteq Names(m.inits)) \cup
           UNION {Clause("initializer " \o x, SameTensor(Of(m.inits, x), Of(f.inits, x))) : x \in weights \cap Names(f.inits)}) \cup
     Clause("an initializer is listed twice", Cardinality(Names(f.inits)) = Len(f.inits)) \cup
     Clause("malformed initializer", \A k \in 1..Len(f.inits) : WellFormed(f.inits[k])) \cup
     (IF o.no_shape THEN Clause("intermediate shapes are stored", Names(f.infos) \cap Made(m) = {})
      ELSE UNION {Clause("shape of " \o x,
                         x \in Names(f.infos) /\ Of(f.infos, x).s = inferred(x, IF x \in Names(m.infos) THEN Of(m.infos, x).s ELSE <<"?">>))
                  : x \in {x \in Made(m) \ Names(m.outputs) : x \in Names(m.infos) \/ (o.inferred /\ x \in Names(shapes))}} \cup
           UNION {Clause("type of " \o x, x \notin Names(f.infos) \/ Of(f.infos, x).d = (IF o.inferred /\ x \in Names(shapes) THEN Of(shapes, x).d ELSE Of(m.infos, x).d))
                  : x \in {x \in Made(m) \ Names(m.outputs) : x \in Names(m.infos) \/ (o.inferred /\ x \in Names(shapes))}})
=============================================================================
