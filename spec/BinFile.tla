------------------------------ MODULE BinFile ------------------------------
(* The binary files of compute graphs, shape engines and memory plans.

   A file is a sequence of bytes.  Everything is little endian: a count or an
   integer takes 4 bytes (8 in memory plans) in two's complement, a float is
   the 4 bytes of its binary32, a text is its UTF-8 bytes and a zero byte, and
   a list is its count followed by its items.

     graph   = list of node, list of weight
     node    = name op (list of input names) (list of output names) (list of attribute)
     attr    = name count tag value*          tag: 0 int, 1 float, 2 text
     weight  = name tag (list of dimension) bytes
     engine  = list of variable names, list of (tensor name, list of (tag, value)), list of expr
     expr    = variable source alpha beta factor truncation
     plan    = total, list of (tensor offset length), list of (variable maximum)

   Values of the tool are given by their bytes: an integer by its 8 bytes (or
   <<>> when it needs more), a float by the 8 bytes of its binary64, a text by
   its UTF-8.  Kinds: "int", "float", "text", anything else has no place in the
   format.  What cannot be said in the format must be refused, leaving no file
   behind; what is written decodes to the original with nothing left over.    *)
EXTENDS Integers, Sequences, FiniteSets
Clause(n, b) == IF b THEN {} ELSE {n}
(* ------------------------------------------------------------ rounding to binary32 *)
RECURSIVE P2(_), Nat2(_), AllBits(_), Inc(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Nat2(bits) == IF bits = <<>> THEN 0 ELSE 2 * Nat2(SubSeq(bits, 1, Len(bits) - 1)) + bits[Len(bits)]
AllBits(bs) == IF bs = <<>> THEN <<>> ELSE AllBits(Tail(bs)) \o [k \in 1..8 |-> (Head(bs) \div P2(8 - k)) % 2]     \* most significant first
Inc(q) == IF q = <<>> THEN <<>>                                      \* may overflow to all zeros, which is what the fields of floats want
          ELSE IF q[Len(q)] = 0 THEN [q EXCEPT ![Len(q)] = 1] ELSE Inc(SubSeq(q, 1, Len(q) - 1)) \o <<0>>
Bytes4(bits) == [k \in 1..4 |-> Nat2(SubSeq(bits, 8 * (4 - k) + 1, 8 * (4 - k) + 8))]
BitsN(n, w) == [k \in 1..w |-> (n \div P2(w - k)) % 2]
(* the binary32 nearest to a binary64; "overflow" when there is none that is finite *)
F32(b) ==
  LET x == AllBits(b)
      e == Nat2(SubSeq(x, 2, 12)) f == SubSeq(x, 13, 64)
      E == e - 1023
      zero == e = 0                                              \* binary64 subnormals are far below
      keep == IF E >= -126 THEN 23 ELSE 23 - (-126 - E)          \* fraction bits kept after the leading one
      sig == <<1>> \o f
  IN IF e = 2047 THEN [ok |-> TRUE, nan |-> \E k \in 1..52 : f[k] = 1, b |-> Bytes4(<<x[1]>> \o BitsN(255, 8) \o SubSeq(f, 1, 23))]
     ELSE IF zero \/ keep < -1 THEN [ok |-> TRUE, nan |-> FALSE, b |-> Bytes4(<<x[1]>> \o [k \in 1..31 |-> 0])]
     ELSE LET n == keep + 1                                      \* bits of sig kept, 0..24
              q == SubSeq(sig, 1, n)
              r == sig[n + 1]
              st == \E k \in n + 2..53 : sig[k] = 1
              up == r = 1 /\ (st \/ (n > 0 /\ q[n] = 1))
              base == IF E >= -126 THEN BitsN(E + 127, 8) \o SubSeq(q, 2, 24) ELSE BitsN(0, 8) \o [k \in 1..23 - n |-> 0] \o q
              y == IF E > 127 THEN BitsN(255, 8) \o [k \in 1..23 |-> 0] ELSE IF up THEN Inc(base) ELSE base
          IN [ok |-> Nat2(SubSeq(y, 1, 8)) # 255, nan |-> FALSE, b |-> Bytes4(<<x[1]>> \o y)]
(* ------------------------------------------------------------- what can be said *)
Fill(b) == IF b[Len(b)] >= 128 THEN 255 ELSE 0
IntFits(v, w) == Len(v) = 8 /\ \A k \in w + 1..8 : v[k] = Fill(SubSeq(v, 1, w))
TextFits(t) == \A k \in 1..Len(t) : t[k] # 0
Tags == [f32 |-> 1, f16 |-> 3, i32 |-> 0, i8 |-> 5, u8 |-> 6, i64 |-> 9, f64 |-> 4, i16 |-> 7, u16 |-> 8]
Size == [f32 |-> 4, f16 |-> 2, i32 |-> 4, i8 |-> 1, u8 |-> 1, i64 |-> 8, f64 |-> 8, i16 |-> 2, u16 |-> 2]
Needed == {"f32", "f16", "i32", "i8", "u8", "i64"}                  \* the other types may be refused
ValueFits(k, v) == CASE k = "int" -> IntFits(v, 4) [] k = "float" -> F32(v).ok [] k = "text" -> TextFits(v) [] OTHER -> FALSE
AttrFits(a) == /\ TextFits(a.n)
               /\ \A k \in 1..Len(a.v) : ValueFits(a.k, a.v[k])
               /\ (a.v = <<>> => a.k \in {"int", "float", "text"})
NodeFits(x) == /\ TextFits(x.n) /\ TextFits(x.op) /\ \A k \in 1..Len(x.i) : TextFits(x.i[k])
               /\ \A k \in 1..Len(x.o) : TextFits(x.o[k])
               /\ \A k \in 1..Len(x.at) : AttrFits(x.at[k])
GraphFits(g) == (\A k \in 1..Len(g.nodes) : NodeFits(g.nodes[k])) /\ \A k \in 1..Len(g.weights) : TextFits(g.weights[k].n) /\ g.weights[k].d \in DOMAIN Tags
MustFit(g) == \A k \in 1..Len(g.weights) : g.weights[k].d \in Needed
EngineFits(e) == /\ \A k \in 1..Len(e.vars) : TextFits(e.vars[k])
                 /\ \A k \in 1..Len(e.descs) : TextFits(e.descs[k].n) /\ \A j \in 1..Len(e.descs[k].v) : ValueFits(e.descs[k].v[j].k, e.descs[k].v[j].v)
                 /\ \A k \in 1..Len(e.exprs) : LET x == e.exprs[k] IN TextFits(x.n) /\ TextFits(x.src) /\ F32(x.alpha).ok /\ F32(x.beta).ok
PlanFits(p) == /\ IntFits(p.total, 8)
               /\ \A k \in 1..Len(p.blocks) : TextFits(p.blocks[k].n) /\ IntFits(p.blocks[k].off, 8) /\ IntFits(p.blocks[k].len, 8)
               /\ \A k \in 1..Len(p.maxs) : TextFits(p.maxs[k].n) /\ IntFits(p.maxs[k].v, 8)
(* --------------------------------------------------------------------- reading *)
Bad == [ok |-> FALSE, v |-> <<>>, p |-> 0]
Good(v, p) == [ok |-> TRUE, v |-> v, p |-> p]
Take(b, p, n) == IF p + n - 1 > Len(b) THEN Bad ELSE Good(SubSeq(b, p, p + n - 1), p + n)
Count(q) == q[1] + 256 * (q[2] + 256 * (q[3] + 256 * q[4]))
RECURSIVE Zero(_, _), Many(_, _, _, _, _)
Zero(b, p) == IF p > Len(b) THEN 0 ELSE IF b[p] = 0 THEN p ELSE Zero(b, p + 1)
Str(b, p) == LET z == Zero(b, p) IN IF z = 0 THEN Bad ELSE Good(SubSeq(b, p, z - 1), z + 1)
RECURSIVE Read(_, _, _), Product(_)
Product(q) == IF q = <<>> THEN 1 ELSE Head(q) * Product(Tail(q))
(* a list of items of a kind, its count taking w bytes *)
List(b, p, kind, w) == LET c == Take(b, p, w) IN
  IF ~c.ok \/ c.v[4] >= 128 \/ (\E k \in 5..w : c.v[k] # 0) THEN Bad ELSE Many(b, c.p, Count(c.v), kind, <<>>)
Many(b, p, n, kind, got) == IF n = 0 THEN Good(got, p)
                            ELSE LET x == Read(b, p, kind) IN IF x.ok THEN Many(b, x.p, n - 1, kind, Append(got, x.v)) ELSE Bad
TagKind == [t \in 0..2 |-> <<"int", "float", "text">>[t + 1]]
Tag(b, p) == LET c == Take(b, p, 4) IN IF ~c.ok \/ c.v[2] # 0 \/ c.v[3] # 0 \/ c.v[4] # 0 THEN Bad ELSE Good(c.v[1], c.p)
Read(b, p, kind) ==
  CASE kind \in {"int", "float"} -> Take(b, p, 4)
    [] kind = "long" -> Take(b, p, 8)
    [] kind = "text" -> Str(b, p)
    [] kind = "attr" -> (LET n == Str(b, p) IN IF ~n.ok THEN Bad ELSE
                        LET c == Take(b, n.p, 4) IN IF ~c.ok \/ c.v[4] >= 128 THEN Bad ELSE
                        LET t == Tag(b, c.p) IN IF ~t.ok \/ t.v \notin 0..2 THEN Bad ELSE
                        LET v == Many(b, t.p, Count(c.v), TagKind[t.v], <<>>) IN IF ~v.ok THEN Bad ELSE
                        Good([n |-> n.v, k |-> TagKind[t.v], v |-> v.v], v.p))
    [] kind = "node" -> (LET n == Str(b, p) IN IF ~n.ok THEN Bad ELSE LET o == Str(b, n.p) IN IF ~o.ok THEN Bad ELSE
                        LET i == List(b, o.p, "text", 4) IN IF ~i.ok THEN Bad ELSE LET u == List(b, i.p, "text", 4) IN IF ~u.ok THEN Bad ELSE
                        LET a == List(b, u.p, "attr", 4) IN IF ~a.ok THEN Bad ELSE
                        Good([n |-> n.v, op |-> o.v, i |-> i.v, o |-> u.v, at |-> a.v], a.p))
    [] kind = "weight" -> (LET n == Str(b, p) IN IF ~n.ok THEN Bad ELSE LET t == Tag(b, n.p) IN IF ~t.ok THEN Bad ELSE
                          LET s == List(b, t.p, "int", 4) IN IF ~s.ok THEN Bad ELSE
                          LET d == {x \in DOMAIN Tags : Tags[x] = t.v} IN IF d = {} \/ (\E k \in 1..Len(s.v) : s.v[k][4] >= 128) THEN Bad ELSE
                          LET dt == CHOOSE x \in d : TRUE
                              dims == [k \in 1..Len(s.v) |-> Count(s.v[k])]
                              r == Take(b, s.p, Size[dt] * Product(dims)) IN IF ~r.ok THEN Bad ELSE
                          Good([n |-> n.v, d |-> dt, s |-> dims, raw |-> r.v], r.p))
    [] kind = "dim" -> (LET t == Tag(b, p) IN IF ~t.ok \/ t.v \notin 0..2 THEN Bad ELSE
                       LET v == Read(b, t.p, TagKind[t.v]) IN IF ~v.ok THEN Bad ELSE Good([k |-> TagKind[t.v], v |-> v.v], v.p))
    [] kind = "desc" -> (LET n == Str(b, p) IN IF ~n.ok THEN Bad ELSE LET v == List(b, n.p, "dim", 4) IN IF ~v.ok THEN Bad ELSE
                        Good([n |-> n.v, v |-> v.v], v.p))
    [] kind = "expr" -> (LET n == Str(b, p) IN IF ~n.ok THEN Bad ELSE LET s == Str(b, n.p) IN IF ~s.ok THEN Bad ELSE
                        LET r == Take(b, s.p, 16) IN IF ~r.ok THEN Bad ELSE
                        Good([n |-> n.v, src |-> s.v, alpha |-> SubSeq(r.v, 1, 4), beta |-> SubSeq(r.v, 5, 8), factor |-> SubSeq(r.v, 9, 12), trunc |-> SubSeq(r.v, 13, 16)], r.p))
    [] kind = "block" -> (LET n == Str(b, p) IN IF ~n.ok THEN Bad ELSE LET r == Take(b, n.p, 16) IN IF ~r.ok THEN Bad ELSE
                         Good([n |-> n.v, off |-> SubSeq(r.v, 1, 8), len |-> SubSeq(r.v, 9, 16)], r.p))
    [] kind = "max" -> (LET n == Str(b, p) IN IF ~n.ok THEN Bad ELSE LET r == Take(b, n.p, 8) IN IF ~r.ok THEN Bad ELSE Good([n |-> n.v, v |-> r.v], r.p))
Whole(b, r) == r.ok /\ r.p = Len(b) + 1
ReadGraph(b) == LET n == List(b, 1, "node", 4) IN IF ~n.ok THEN Bad ELSE LET w == List(b, n.p, "weight", 4) IN IF ~w.ok THEN Bad ELSE
                Good([nodes |-> n.v, weights |-> w.v], w.p)
ReadEngine(b) == LET v == List(b, 1, "text", 4) IN IF ~v.ok THEN Bad ELSE LET d == List(b, v.p, "desc", 4) IN IF ~d.ok THEN Bad ELSE
                 LET e == List(b, d.p, "expr", 4) IN IF ~e.ok THEN Bad ELSE Good([vars |-> v.v, descs |-> d.v, exprs |-> e.v], e.p)
ReadPlan(b) == LET t == Take(b, 1, 8) IN IF ~t.ok THEN Bad ELSE LET m == List(b, t.p, "block", 8) IN IF ~m.ok THEN Bad ELSE
               LET x == List(b, m.p, "max", 8) IN IF ~x.ok THEN Bad ELSE Good([total |-> t.v, blocks |-> m.v, maxs |-> x.v], x.p)
ReadFile(what, b) == CASE what = "graph" -> ReadGraph(b) [] what = "engine" -> ReadEngine(b) [] what = "plan" -> ReadPlan(b)
Fits(what, x) == CASE what = "graph" -> GraphFits(x) [] what = "engine" -> EngineFits(x) [] what = "plan" -> PlanFits(x)
(* ------------------------------------------------------- saying the same thing *)
SameFloat(v, r) == LET f == F32(v) IN IF f.nan THEN r[4] % 128 = 127 /\ r[3] >= 128 ELSE f.b = r
SameValue(k, v, r) == CASE k = "int" -> SubSeq(v, 1, 4) = r [] k = "float" -> SameFloat(v, r) [] k = "text" -> v = r
SameAttr(a, r) == a.n = r.n /\ Len(a.v) = Len(r.v) /\ (a.v = <<>> \/ (a.k = r.k /\ \A k \in 1..Len(a.v) : SameValue(a.k, a.v[k], r.v[k])))
Elems(q) == {q[k] : k \in 1..Len(q)}
(* attributes are a set, everything else is in order *)
SameNode(x, r) == x.n = r.n /\ x.op = r.op /\ x.i = r.i /\ x.o = r.o /\ Len(x.at) = Len(r.at)
                  /\ \A a \in Elems(x.at) : \E b \in Elems(r.at) : SameAttr(a, b)
Weight(q, n) == q[CHOOSE k \in 1..Len(q) : q[k].n = n]
WNames(q) == {q[k].n : k \in 1..Len(q)}
Same(what, x, r) ==
  CASE what = "graph" ->
         Clause("number of nodes", Len(x.nodes) = Len(r.nodes)) \cup
         (IF Len(x.nodes) = Len(r.nodes) THEN UNION {Clause("a node reads back differently", SameNode(x.nodes[k], r.nodes[k])) : k \in 1..Len(x.nodes)} ELSE {}) \cup
         Clause("set of weights", WNames(x.weights) = WNames(r.weights) /\ Len(r.weights) = Cardinality(WNames(r.weights))) \cup
         UNION {Clause("a weight reads back differently", LET a == Weight(x.weights, n) b == Weight(r.weights, n) IN a.d = b.d /\ a.s = b.s /\ a.raw = b.raw) : n \in WNames(x.weights) \cap WNames(r.weights)}
    [] what = "engine" ->
         Clause("variables", x.vars = r.vars) \cup
         Clause("descriptors", Len(x.descs) = Len(r.descs) /\ \A k \in 1..Len(x.descs) : x.descs[k].n = r.descs[k].n /\ Len(x.descs[k].v) = Len(r.descs[k].v) /\
                \A j \in 1..Len(x.descs[k].v) : LET a == x.descs[k].v[j] b == r.descs[k].v[j] IN a.k = b.k /\ SameValue(a.k, a.v, b.v)) \cup
         Clause("expressions", Len(x.exprs) = Len(r.exprs) /\ \A k \in 1..Len(x.exprs) : LET a == x.exprs[k] b == r.exprs[k] IN
                a.n = b.n /\ a.src = b.src /\ SameFloat(a.alpha, b.alpha) /\ SameFloat(a.beta, b.beta) /\ SubSeq(a.factor, 1, 4) = b.factor /\ SubSeq(a.trunc, 1, 4) = b.trunc)
    [] what = "plan" -> Clause("total size", x.total = r.total) \cup Clause("blocks", x.blocks = r.blocks) \cup Clause("maximal shapes", x.maxs = r.maxs)
(* b: the bytes written, or <<>> with wrote = FALSE *)
Owed(what, x, ok, wrote, b, must) ==
  IF ~Fits(what, x) THEN Clause("something without a place in the format is written", ~ok) \cup Clause("a refused object leaves a file behind", ok \/ ~wrote)
  ELSE IF ~ok THEN (IF must THEN {"refused"} ELSE Clause("a refused object leaves a file behind", ~wrote))
  ELSE IF ~wrote THEN {"nothing is written"}
  ELSE LET r == ReadFile(what, b) IN
       IF ~r.ok THEN {"the file cannot be read back"} ELSE Clause("bytes are left over", r.p = Len(b) + 1) \cup Same(what, x, r.v)
=============================================================================
