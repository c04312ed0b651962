------------------------------- MODULE Files -------------------------------
(* What the tool writes when it exports weights, edits the interface of a
   model, or is driven from the command line.

   Texts are sequences of one-character strings, so that they can be taken
   apart.

   Export.  Each initializer goes to one file; its name is the initializer's
   name with "/" and "\" replaced by "_", made longer where another
   initializer already has that file.  A file [d, s, raw, w] is a tensor of
   Proto.  With fp16 the elements of f32/f64 become the nearest halves.

   Interface.  A custom shape is the text of its dimensions separated by "x";
   digits are a size, anything else a symbol.

   Command line.  name:dims for an interface edit; name:type:dims[:values] or
   name:dims for the inputs of a profile; the name itself may hold colons.    *)
EXTENDS Proto
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
RECURSIVE Text(_)
Text(q) == IF q = <<>> THEN "" ELSE Head(q) \o Text(Tail(q))

(* ------------------------------------------------------------ file names *)
Safe(n) == [k \in 1..Len(n) |-> IF n[k] \in {"/", "\\"} THEN "_" ELSE n[k]]
Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
(* may name n be stored as f, all being the names of the model's initializers? *)
MayStore(n, f, all) == \/ f = Safe(n)
                       \/ /\ n # Safe(n)                              \* a name that is safe already is kept
                          /\ \E x \in all \ {n} : Safe(x) = Safe(n) \/ Prefix(Safe(x) \o <<"_">>, Safe(n))       \* somebody else may have it
                          /\ Prefix(Safe(n) \o <<"_">>, f)

(* ---------------------------------------------------- rounding to halves *)
RECURSIVE Pow2(_), Norm(_, _), NatOf(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
NatOf(bits) == IF bits = <<>> THEN 0 ELSE 2 * NatOf(SubSeq(bits, 1, Len(bits) - 1)) + bits[Len(bits)]
Byte(b) == [k \in 1..8 |-> (b \div Pow2(8 - k)) % 2]
RECURSIVE BitsOf(_)
BitsOf(bs) == IF bs = <<>> THEN <<>> ELSE BitsOf(Tail(bs)) \o Byte(Head(bs))     \* little endian: last byte first
(* a float's fields: sign, biased exponent, fraction bits *)
Fields(bits, ne) == [s |-> bits[1], e |-> NatOf(SubSeq(bits, 2, 1 + ne)), f |-> SubSeq(bits, 2 + ne, Len(bits))]
Ones(n) == Pow2(n) - 1
(* value = m * 2^e (plus a bit more when st), m having its 13 leading bits, or m = 0 *)
Norm(m, e) == IF m = 0 THEN [m |-> 0, e |-> 0] ELSE IF m < 4096 THEN Norm(2 * m, e - 1) ELSE [m |-> m, e |-> e]
Half(bytes, ne) ==
  LET x == Fields(BitsOf(bytes), ne)
      bias == Pow2(ne - 1) - 1
      top == NatOf(SubSeq(x.f, 1, 12))
      st == \E k \in 13..Len(x.f) : x.f[k] = 1
      sign == 32768 * x.s
      inf == sign + 31744
  IN IF x.e = Ones(ne) THEN IF NatOf(SubSeq(x.f, 1, 12)) = 0 /\ ~st THEN {inf} ELSE (sign + 31745)..(sign + 32767)
     ELSE IF x.e = 0 THEN {sign}                           \* below half the smallest half
     ELSE LET m == 4096 + top                              \* |x| = (m + st) * 2^(E - 12), 2^12 <= m < 2^13
              E == x.e - bias
              drop == IF E >= -14 THEN 2 ELSE 2 + (-14 - E) \* low bits of m that a half has no room for
          IN IF E > 15 THEN {inf}
             ELSE IF drop > 14 THEN {sign}
             ELSE LET q == m \div Pow2(drop)
                      r == m % Pow2(drop)
                      h == Pow2(drop - 1)
                      up == r > h \/ (r = h /\ (st \/ q % 2 = 1))
                      n == q + (IF up THEN 1 ELSE 0)        \* in units of the last place
                  IN IF E >= -14 THEN LET code == (E + 15) * 1024 + (n - 1024) IN IF code >= 31744 THEN {inf} ELSE {sign + code}
                     ELSE {sign + n}
Group(bs, w) == [k \in 1..(Len(bs) \div w) |-> SubSeq(bs, (k - 1) * w + 1, k * w)]
HalfOf(t, f) ==
  LET w == Width(t.d) ne == IF t.d = "f32" THEN 8 ELSE 11
      a == Group(Bytes(t), w) b == Group(f.raw, 2)
  IN Len(a) = Len(b) /\ \A k \in 1..Len(a) : b[k][1] + 256 * b[k][2] \in Half(a[k], ne)

(* ---------------------------------------------------------------- export *)
(* x: [inits <<[n: text, t: tensor]>>, extra {names the tool may add], asked <<names>>, all: BOOLEAN, fp16, files <<[n, t]>>, told {names}] *)
Elements(q) == {q[k] : k \in 1..Len(q)}
Content(t, f, fp16) == IF fp16 /\ t.d \in {"f32", "f64"} THEN f.d = "f16" /\ f.s = t.s /\ HalfOf(t, f)
                       ELSE f.s = t.s /\ (f.d = t.d \/ (f.d = "raw" /\ t.d # "str")) /\ Bytes(f) = Bytes(t)
Exports(x) ==
  LET names == {x.inits[k].n : k \in 1..Len(x.inits)}
      want == IF x.all THEN names ELSE Elements(x.asked) \cap names
      T(n) == x.inits[CHOOSE k \in 1..Len(x.inits) : x.inits[k].n = n].t
      files == {x.files[k].n : k \in 1..Len(x.files)}
      F(f) == x.files[CHOOSE k \in 1..Len(x.files) : x.files[k].n = f].t
      can == [n \in want |-> {f \in files : MayStore(n, f, names \cup Elements(x.extra)) /\ Content(T(n), F(f), x.fp16)}]
  IN UNION {Clause("no file holds " \o Text(n), can[n] # {}) : n \in want} \cup
     Clause("fewer files than weights", Cardinality(files) >= Cardinality(want)) \cup
     Clause("files nobody asked for", Cardinality(files) <= Cardinality(want) + (IF x.all THEN Len(x.extra) ELSE 0)) \cup
     UNION {Clause("file " \o Text(f) \o " belongs to no weight", f \in UNION {can[n] : n \in want} \/ (x.all /\ \E e \in Elements(x.extra) : MayStore(e, f, names \cup Elements(x.extra)))) : f \in files} \cup
     (IF x.all THEN {} ELSE UNION {Clause("unknown name " \o Text(n) \o " goes unreported", n \in Elements(x.told)) : n \in Elements(x.asked) \ (names \cup Elements(x.extra))})

(* ------------------------------------------------------------- interface *)
RECURSIVE Split(_, _)
Split(q, c) == IF q = <<>> THEN <<<<>>>>
               ELSE IF Head(q) = c THEN <<<<>>>> \o Split(Tail(q), c)
               ELSE LET r == Split(Tail(q), c) IN <<<<Head(q)>> \o Head(r)>> \o Tail(r)
RECURSIVE Strip(_), Join(_, _)
Strip(q) == IF Len(q) > 1 /\ Head(q) = "0" THEN Strip(Tail(q)) ELSE q
Join(qs, c) == IF Len(qs) = 1 THEN Head(qs) ELSE Head(qs) \o <<c>> \o Join(Tail(qs), c)
IsNum(q) == q # <<>> /\ \A k \in 1..Len(q) : q[k] \in Digits
DimText(q) == IF IsNum(q) THEN Text(Strip(q)) ELSE IF q = <<>> THEN "?" ELSE "$" \o Text(q)
DimsText(q) == LET parts == Split(q, "x") IN [k \in 1..Len(parts) |-> DimText(parts[k])]
(* edits: <<[n, v: text]>>; a declaration whose rank is known keeps it *)
Edits(edits, n) == {k \in 1..Len(edits) : edits[k].n = n}
EditDecl(v, edits) == IF Edits(edits, v.n) = {} THEN v
                      ELSE [v EXCEPT !.s = <<"r", DimsText(edits[CHOOSE k \in Edits(edits, v.n) : TRUE].v)>>]
Fits(v, edits) == Edits(edits, v.n) = {} \/ v.s[1] = "?"
                  \/ Len(v.s[2]) = Len(DimsText(edits[CHOOSE k \in Edits(edits, v.n) : TRUE].v))
AllFit(m, edits) == \A q \in {m.inputs, m.outputs} : \A k \in 1..Len(q) : Fits(q[k], edits)
Edit(m, edits) == [m EXCEPT !.inputs = [k \in 1..Len(m.inputs) |-> EditDecl(m.inputs[k], edits)],
                            !.outputs = [k \in 1..Len(m.outputs) |-> EditDecl(m.outputs[k], edits)]]
Plain == [shape_only |-> FALSE, no_shape |-> FALSE, inferred |-> FALSE]
(* an edit that would change a rank is refused, and then nothing is written *)
Edited(m, edits, f, ok, wrote) ==
  IF AllFit(m, edits) THEN IF ~ok THEN {"a fitting edit is refused"} ELSE IF ~wrote THEN {"nothing is written"} ELSE Owes(Edit(m, edits), f, Plain, <<>>)
  ELSE Clause("an edit of another rank is accepted", ~ok) \cup Clause("a refused edit is written", ~wrote)

(* ---------------------------------------------------------- command line *)
Types == {"f32", "f64", "f16", "int32", "int64", "int8", "uint8", "bool"}
ParseEdit(arg) == LET p == Split(arg, ":") IN [n |-> Join(SubSeq(p, 1, Len(p) - 1), ":"), v |-> p[Len(p)]]
ParseInput(arg) ==
  LET p == Split(arg, ":") n == Len(p)
      name(k) == Join(SubSeq(p, 1, k), ":")
  IN IF n >= 4 /\ Text(p[n - 2]) \in Types THEN [n |-> name(n - 3), d |-> Text(p[n - 2]), s |-> p[n - 1], v |-> p[n]]
     ELSE IF n >= 3 /\ Text(p[n - 1]) \in Types THEN [n |-> name(n - 2), d |-> Text(p[n - 1]), s |-> p[n], v |-> <<>>]
     ELSE [n |-> name(n - 1), d |-> "f32", s |-> p[n], v |-> <<>>]
ShowEdit(e) == e.n \o <<":">> \o e.v
ShowInput(e, typed) == e.n \o (IF typed THEN <<":">> \o <<e.d>> ELSE <<>>) \o <<":">> \o e.s \o (IF e.v = <<>> THEN <<>> ELSE <<":">> \o e.v)
=============================================================================
