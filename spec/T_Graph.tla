------------------------------- MODULE T_Graph -------------------------------
(* Trace validation of graph surgery.  A case is the model handed to the tool and
   the recorded calls with the projected state after each; GraphOps says what each
   call must have done.  The verdict is total: one line per rejected case.     *)
EXTENDS GraphOps, Json, IOUtils, TLC
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, cur, bad
vars == <<c, l, cur, bad>>

St(s) == [nodes |-> [k \in 1..Len(s.nodes) |-> [n |-> s.nodes[k].n, op |-> s.nodes[k].op, i |-> s.nodes[k].i, o |-> s.nodes[k].o,
                                             c |-> s.nodes[k].c]],
          inp |-> s.inp, out |-> s.out, ini |-> Rng(s.ini)]
StR(s) == St(s) @@ [prod |-> s.prod, cons |-> s.cons]
KeyOK(s) == Clause("node stored under another name", \A k \in 1..Len(s.nodes) : s.nodes[k].n = s.nodes[k].nn)
Given(cs) == [cs.g EXCEPT !.ini = Rng(cs.g.ini), !.nodes = [k \in 1..Len(@) |-> [c |-> CapSeq(@[k])] @@ @[k]]]

(* a name that is given and given only once is kept *)
OwnName(g, k) == g.nodes[k].n # "" /\ \A j \in 1..Len(g.nodes) : g.nodes[j].n = g.nodes[k].n => j = k
LoadWhy(g, s) ==
  LET o == StR(s) IN
  Clause("load: nodes", /\ Len(o.nodes) = Len(g.nodes)
                        /\ \A k \in 1..Len(g.nodes) : /\ o.nodes[k].op = g.nodes[k].op /\ o.nodes[k].i = g.nodes[k].i
                                                       /\ o.nodes[k].o = g.nodes[k].o /\ o.nodes[k].c = g.nodes[k].c
                                                       /\ (OwnName(g, k) => o.nodes[k].n = g.nodes[k].n)) \cup
  Clause("load: two nodes under one name", NoDup(NodeSeqNames(o)) /\ "" \notin NodeNames(o)) \cup
  Clause("load: outputs", o.out = g.out) \cup
  Clause("load: inputs", Rng(o.inp) = Rng(g.inp) \cap Consumed(g)) \cup
  Clause("load: weights", g.ini \cap Consumed(g) \subseteq o.ini /\ o.ini \subseteq g.ini) \cup
  Clause("load: tensors without entry", (Produced(g) \cup Consumed(g)) \subseteq Rng(s.tm)) \cup
  KeyOK(s) \cup WithRel(g, o) \cup Clause("load: use counts", ConsExact(o, o.cons))

(* an extracted part, as the implementation returned or stored it *)
Part(p) == [nodes |-> [k \in 1..Len(p.nodes) |-> [n |-> p.nodes[k].n, op |-> p.nodes[k].op, i |-> p.nodes[k].i, o |-> p.nodes[k].o,
                                                c |-> p.nodes[k].c]],
            inp |-> p.inp, out |-> p.out, ini |-> Rng(p.ini)]
Tag(tag, S) == {tag \o x : x \in S}
ConnectedWhy(g, ps) ==   \* the parts, joined by tensor names, are the whole
  Clause("parts do not add up to the model", SameBag(Concat([k \in 1..Len(ps) |-> ps[k].nodes]), g.nodes))

(* removeShapeOps: the shape-only nodes are skipped one after the other *)
ShapeKinds == {"Flatten", "Reshape", "Unsqueeze", "Squeeze"}
ShapeNodes(g) == SelectSeq(NodeSeqNames(g), LAMBDA x : NodeNamed(g, x).op \in ShapeKinds)
RECURSIVE SkipAll(_, _)
SkipAll(g, xs) == IF xs = <<>> THEN [ok |-> TRUE, g |-> g]
                  ELSE IF UsesFree(g, Head(xs)) \/ ~CanSkip(g, Head(xs)) THEN [ok |-> FALSE, g |-> g]
                  ELSE SkipAll(SkipResult(g, Head(xs)), Tail(xs))
ShapeOpsWhy(g, o) ==
  LET r == SkipAll(g, ShapeNodes(g)) IN
  IF ~r.ok THEN WithRel(g, o)
  ELSE Clause("other nodes remain than the skipping leaves", NodeNames(o) = NodeNames(r.g)) \cup
       SameInterface(g, o) \cup
       (IF NodeNames(o) # NodeNames(r.g) THEN {} ELSE
        Clause("graph output computes something else", Meaning(o) = Meaning(r.g)) \cup
        Clause("remaining node altered", \A nd \in Nodes(o) :
            [k \in 1..Len(nd.i) |-> Term(o, nd.i[k])] = [k \in 1..Len(NodeNamed(r.g, nd.n).i) |-> Term(r.g, NodeNamed(r.g, nd.n).i[k])])) \cup
       OrderKept(g, o) \cup WithRel(g, o)
(* fuse_subgraph_iotensors: every occurrence of the piece between two sets of tensors
   becomes one node; which occurrences there are is the business of Pattern.tla *)
RECURSIVE RegionOf(_, _, _, _)
RegionOf(g, gone, f, S) ==
  LET T == S \cup {p.n : p \in {q \in Nodes(g) : q.n \in gone /\ \E x \in S : Makes(q) \cap (Uses(NodeNamed(g, x)) \ Uses(f)) # {}}}
  IN IF T = S THEN S ELSE RegionOf(g, gone, f, T)
FuseIoWhy(g, ins, outs, fop, o) ==
  LET gone == NodeNames(g) \ NodeNames(o)
      new == {nd \in Nodes(o) : nd.n \notin NodeNames(g)}
      region == [f \in new |-> RegionOf(g, gone, f, {p.n : p \in {q \in Nodes(g) : q.n \in gone /\ Makes(q) \cap Makes(f) # {}}})]
      ops(S) == LET xs == SetToSeq0(S) IN [k \in 1..Len(xs) |-> NodeNamed(g, xs[k]).op]
      piece == Level1(g, ins, outs)
  IN IF \E f \in new : ~Convex(g, region[f]) THEN {}
     ELSE
  Clause("nothing was fused", new # {}) \cup
  Clause("other node altered", \A nd \in Nodes(o) : nd \in new \/ nd \in Nodes(g)) \cup
  Clause("fused nodes are not what was removed", gone = UNION {region[f] : f \in new}
         /\ \A f, h \in new : f # h => region[f] \cap region[h] = {}) \cup
  Clause("fused piece of another kind", \A f \in new : f.op = fop /\ SameBag(ops(region[f]), ops(piece))) \cup
  Clause("fused node inputs", \A f \in new : Uses(f) = ExtIn(g, region[f]) /\ NoDup(f.i)) \cup
  Clause("fused node outputs", \A f \in new : ExtOut(g, region[f]) \subseteq Makes(f) /\
                Makes(f) \subseteq ExtOut(g, region[f]) \cup Unused(g, region[f]) /\ NoDup(f.o)) \cup
  Clause("unfolding the fused nodes does not give the model back",
         Meaning([o EXCEPT !.nodes = SelectSeq(o.nodes, LAMBDA nd : nd \notin new) \o SelectSeq(g.nodes, LAMBDA nd : nd.n \in gone)]) = Meaning(g)) \cup
  SameInterface(g, o) \cup WithRel(g, o)
(* a removed node may leave free tensors behind: meaning is judged on what is there *)
StepWhy(g, s) ==
  IF s.op \in {"skip", "remove", "remove_rec", "subtree", "fuse", "postfuse", "extract"} /\ ~(Rng(s.a) \subseteq NodeNames(g))
  THEN {}   \* names no node of this model any more: nothing is demanded of the call
  ELSE IF ~s.ok THEN {"call raised " \o s.err} ELSE
  LET o == IF s.hasst THEN StR(s.st) ELSE <<>>
      k == IF s.hasst THEN KeyOK(s.st) ELSE {}
  IN k \cup
  CASE s.op = "skip" -> SkipWhy(g, s.a[1], o)
    [] s.op = "dangle" -> DangleWhy(g, o)
    [] s.op = "remove" -> RemoveWhy(g, s.a[1], o)
    [] s.op = "remove_rec" -> RemoveRecWhy(g, s.a[1], o)
    [] s.op = "subtree" -> SubtreeWhy(g, s.a[1], o)
    [] s.op = "reorder" -> ReorderWhy(g, o)
    [] s.op = "fuse" -> FuseWhy(g, Rng(s.a), s.fop, s.b[1], o) \cup
                        Clause("fused attributes", s.attrs = s.wantattrs) \cup
                        (IF s.b[1] \in NodeNames(o) THEN Clause("unfolding the fused node does not give the model back",
                             Meaning(Unfold(g, o, Rng(s.a), s.b[1])) = Meaning(g)) ELSE {})
    [] s.op = "postfuse" -> FuseWhy(g, Rng(s.a), NodeNamed(g, s.a[1]).op, s.a[1], o) \cup
                        Clause("post-operation attributes", s.attrs = s.wantattrs)
    [] s.op = "split" ->
         LET ins == Rng(s.a)  outs == Rng(s.b)  ps == [j \in 1..3 |-> Part(s.parts[j])]
         IN Tag("before part: ", PartWhy(g, Level0(g, ins, outs), ps[1])) \cup
            Tag("inside part: ", PartWhy(g, Level1(g, ins, outs), ps[2])) \cup
            Tag("after part: ", PartWhy(g, Level2(g, ins, outs), ps[3])) \cup ConnectedWhy(g, ps) \cup
            Clause("splitting changed the model", o.nodes = g.nodes /\ o.out = g.out /\ Rng(o.inp) = Rng(g.inp))
    [] s.op = "extract" -> Tag("extracted: ", PartWhy(g, Rng(s.a), Part(s.parts[1]))) \cup
            Clause("extraction changed the model", o.nodes = g.nodes /\ o.out = g.out /\ Rng(o.inp) = Rng(g.inp))
    [] s.op = "relate" -> Clause("relating changed the model", o.nodes = g.nodes /\ o.out = g.out /\ Rng(o.inp) = Rng(g.inp))
            \cup WithRel(g, o) \cup Clause("use counts wrong", ConsExact(g, o.cons))
    [] s.op = "fuseio" -> FuseIoWhy(g, Rng(s.a), Rng(s.b), s.fop, o)
    [] s.op = "topo" -> Clause("written model is not in order", Topological(o))
    [] s.op = "shapeops" -> ShapeOpsWhy(g, o)
    [] s.op = "saveload" -> Clause("saved nodes", Part(s.parts[1]).nodes = g.nodes) \cup
            Clause("saved outputs", s.parts[1].out = g.out) \cup
            Clause("saved inputs", Rng(g.inp) \cap Consumed(g) \subseteq Rng(s.parts[1].inp) /\ Rng(s.parts[1].inp) \subseteq Rng(g.inp)) \cup
            Clause("saved weights", Rng(s.parts[1].ini) = g.ini \cap Consumed(g))
    [] OTHER -> {"unknown call " \o s.op}

Init == c = 1 /\ l = 0 /\ cur = <<>> /\ bad = <<>>
Fail(w) == /\ bad' = Append(bad, [i |-> c, why |-> w]) /\ c' = c + 1 /\ l' = 0 /\ cur' = <<>>
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Load == /\ c <= Len(Cases) /\ l = 0
        /\ LET w == IF Cases[c].ok THEN LoadWhy(Given(Cases[c]), Cases[c].st) ELSE {"loading raised " \o Cases[c].err}
           IN IF w # {} THEN Fail(SetSeq(w))
              ELSE cur' = St(Cases[c].st) /\ l' = 1 /\ UNCHANGED <<c, bad>>
Advance == c' = c + 1 /\ l' = 0 /\ cur' = <<>> /\ UNCHANGED bad
Call == /\ c <= Len(Cases) /\ l >= 1
        /\ IF l > Len(Cases[c].steps) THEN Advance
           ELSE LET s == Cases[c].steps[l]  w == StepWhy(cur, s)
                IN IF w # {} THEN Fail(SetSeq({"step " \o ToString(l) \o " " \o s.op \o ": " \o x : x \in w}))
                   ELSE cur' = (IF s.hasst THEN St(s.st) ELSE cur) /\ l' = l + 1 /\ UNCHANGED <<c, bad>>
Report == c = Len(Cases) + 1 /\ ndJsonSerialize(IOEnv.OUT, bad) /\ c' = c + 1 /\ UNCHANGED <<l, cur, bad>>
Next == Load \/ Call \/ Report
Spec == Init /\ [][Next]_vars
=============================================================================
