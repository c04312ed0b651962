------------------------------- MODULE Pattern -------------------------------
(* Graph patterns and what it means to match them.
   p = [inplace |-> BOOLEAN, descs |-> sequence of
          [name, ops   |-> sequence of operator names ("Any" admits all),
           attrs |-> sequence of [a, rel, idx, num],    \* idx -1: the value itself
           ins   |-> sequence of [at, of, from],        \* my input at comes from output from of node of
           outs  |-> sequence of [from, to, at]]]       \* ports count from 0, -1 is any
   Graph nodes carry attributes in field a: sequence of [k, v], v a sequence. *)
EXTENDS GraphOps, TLC
Cmp(rel, x, y) == CASE rel = "<=" -> x <= y [] rel = "<" -> x < y [] rel = ">=" -> x >= y
                    [] rel = ">" -> x > y [] rel = "==" -> x = y
HasAttr(nd, k) == \E j \in 1..Len(nd.a) : nd.a[j].k = k
AttrOf(nd, k) == nd.a[CHOOSE j \in 1..Len(nd.a) : nd.a[j].k = k].v
AttrHolds(nd, x) == /\ HasAttr(nd, x.a)
                    /\ LET v == AttrOf(nd, x.a)  k == IF x.idx = -1 THEN 1 ELSE x.idx + 1
                       IN k <= Len(v) /\ Cmp(x.rel, v[k], x.num)
Admits(d, nd) == /\ IsIn(nd.op, d.ops) \/ IsIn("Any", d.ops)
                 /\ \A j \in 1..Len(d.attrs) : AttrHolds(nd, d.attrs[j])
Edges(p) == UNION {{<<p.descs[k].name, p.descs[k].outs[j].from, p.descs[k].outs[j].to, p.descs[k].outs[j].at>> : j \in 1..Len(p.descs[k].outs)} : k \in 1..Len(p.descs)}
       \cup UNION {{<<p.descs[k].ins[j].of, p.descs[k].ins[j].from, p.descs[k].name, p.descs[k].ins[j].at>> : j \in 1..Len(p.descs[k].ins)} : k \in 1..Len(p.descs)}
(* total number of uses of a tensor *)
RECURSIVE UseCount(_, _, _)
UseCount(g, t, k) == IF k = 0 THEN 0 ELSE Count(g.nodes[k].i, t) + UseCount(g, t, k - 1)
Private(g, t) == ~IsIn(t, g.out) /\ UseCount(g, t, Len(g.nodes)) = 1
Joined(g, inplace, a, b, from, at) ==   \* node b takes output from of node a at its input at
  \E o \in 1..Len(a.o) : \E i \in 1..Len(b.i) :
     /\ a.o[o] = b.i[i] /\ a.o[o] # ""
     /\ from \in {-1, o - 1} /\ at \in {-1, i - 1}
     /\ inplace => Private(g, a.o[o])
DescPos(p, name) == CHOOSE k \in 1..Len(p.descs) : p.descs[k].name = name
(* f: node names bound to the first Len(f) descriptions *)
Fits(g, p, f) ==
  /\ NoDup(f)
  /\ \A k \in 1..Len(f) : f[k] \in NodeNames(g) /\ Admits(p.descs[k], NodeNamed(g, f[k]))
  /\ \A e \in Edges(p) : LET x == DescPos(p, e[1]) y == DescPos(p, e[3]) IN
       x <= Len(f) /\ y <= Len(f) => Joined(g, p.inplace, NodeNamed(g, f[x]), NodeNamed(g, f[y]), e[2], e[4])
IsMatch(g, p, f) == Len(f) = Len(p.descs) /\ Fits(g, p, f)
RECURSIVE Extends(_, _, _)
Extends(g, p, f) == /\ Fits(g, p, f)
                    /\ Len(f) = Len(p.descs) \/ \E x \in NodeNames(g) \ Rng(f) : Extends(g, p, Append(f, x))
Starts(g, p) == {x \in NodeNames(g) : Extends(g, p, <<x>>)}
(* the search result: every match real, every start found, once *)
SearchWhy(g, p, res) ==
  Clause("a reported match is no match", \A k \in 1..Len(res) : IsMatch(g, p, res[k])) \cup
  Clause("an occurrence is not reported", \A x \in Starts(g, p) : \E k \in 1..Len(res) : Len(res[k]) > 0 /\ res[k][1] = x) \cup
  Clause("one start reported twice", \A j, k \in 1..Len(res) : j # k => res[j][1] # res[k][1])
(* the pattern a set of nodes makes: operators and every connection among them *)
InnerEdges(g, xs) ==
  {<<a, o - 1, b, i - 1>> : <<a, o, b, i>> \in {q \in Rng(xs) \X (1..6) \X Rng(xs) \X (1..6) :
     LET A == NodeNamed(g, q[1]) B == NodeNamed(g, q[3]) IN
       q[2] <= Len(A.o) /\ q[4] <= Len(B.i) /\ A.o[q[2]] = B.i[q[4]] /\ A.o[q[2]] # ""}}
DescsWhy(g, xs, p) ==
  Clause("described nodes", [k \in 1..Len(p.descs) |-> p.descs[k].name] = xs) \cup
  (IF [k \in 1..Len(p.descs) |-> p.descs[k].name] # xs THEN {} ELSE
   Clause("described operators", \A k \in 1..Len(xs) : p.descs[k].ops = <<NodeNamed(g, xs[k]).op>> /\ p.descs[k].attrs = <<>>) \cup
   Clause("described connections", Edges(p) = InnerEdges(g, xs)) \cup
   Clause("connection described at one end only",
      UNION {{<<p.descs[k].name, p.descs[k].outs[j].from, p.descs[k].outs[j].to, p.descs[k].outs[j].at>> : j \in 1..Len(p.descs[k].outs)} : k \in 1..Len(p.descs)} =
      UNION {{<<p.descs[k].ins[j].of, p.descs[k].ins[j].from, p.descs[k].name, p.descs[k].ins[j].at>> : j \in 1..Len(p.descs[k].ins)} : k \in 1..Len(p.descs)}))
InnerPattern(g, xs) == [inplace |-> FALSE, descs |-> [k \in 1..Len(xs) |->
   [name |-> xs[k], ops |-> <<NodeNamed(g, xs[k]).op>>, attrs |-> <<>>, ins |-> <<>>,
    outs |-> LET E == SetToSeq0({e \in InnerEdges(g, xs) : e[1] = xs[k]})
             IN [j \in 1..Len(E) |-> [from |-> E[j][2], to |-> E[j][3], at |-> E[j][4]]]]]]
Chain(ops) == [inplace |-> FALSE, descs |-> [k \in 1..Len(ops) |->
   [name |-> ToString(k), ops |-> <<ops[k]>>, attrs |-> <<>>, ins |-> <<>>,
    outs |-> IF k = Len(ops) THEN <<>> ELSE <<[from |-> -1, to |-> ToString(k + 1), at |-> -1]>>]]]
=============================================================================
