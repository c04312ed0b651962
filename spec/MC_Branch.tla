------------------------------ MODULE MC_Branch ------------------------------
(* Design check of Branch: replacing the Ifs of a graph one at a time, in any
   order, by a renamed copy of a branch, and then removing one at a time, in
   any order, nodes that only computed a condition and that nobody uses (and
   forwarding to outputs nobody uses), ends
   in the graph Flatten and Remaining describe; on the way no graph output
   ever changes its meaning.                                                 *)
EXTENDS Branch
CONSTANTS MaxNodes
VARIABLES m, g, fix, phase, chain
vars == <<m, g, fix, phase, chain>>
N(name, op, ins, outs, subs) == [name |-> name, op |-> op, attrs |-> <<>>, ins |-> ins, outs |-> outs, subs |-> subs]
G(inits, nodes, outs) == [inits |-> inits, ins |-> <<>>, nodes |-> nodes, outs |-> outs]
Body(t, e) == <<[k |-> "then_branch", g |-> t], [k |-> "else_branch", g |-> e]>>
\* branches over two outer tensors; their inner names are always the same ones
Bodies(a, b) ==
  {[n |-> 1, b |-> Body(G(<<>>, <<N("i", "Neg", <<a>>, <<"r">>, <<>>)>>, <<"r">>), G(<<>>, <<N("i", "Add", <<a, b>>, <<"r">>, <<>>)>>, <<"r">>))],
   [n |-> 1, b |-> Body(G(<<>>, <<>>, <<a>>), G(<<[n |-> "r", d |-> "c"]>>, <<>>, <<"r">>))],
   [n |-> 2, b |-> Body(G(<<>>, <<N("i", "Neg", <<a>>, <<"r">>, <<>>), N("j", "Add", <<"r", b>>, <<"s">>, <<>>)>>, <<"s", "r">>),
                        G(<<[n |-> "s", d |-> "c"]>>, <<N("i", "Add", <<a, "s">>, <<"r">>, <<>>)>>, <<"r", "r">>))],
   [n |-> 1, b |-> Body(G(<<>>, <<N("i", "Abs", <<b>>, <<"r">>, <<>>),
                                  N("k", "If", <<"r">>, <<"s">>, Body(G(<<>>, <<N("i", "Add", <<"r", a>>, <<"q">>, <<>>)>>, <<"q">>), G(<<>>, <<>>, <<"r">>)))>>, <<"s">>),
                        G(<<>>, <<N("i", "Neg", <<b>>, <<"r">>, <<>>), N("l", "Scan", <<a>>, <<"s">>, <<[k |-> "body", g |-> G(<<>>, <<N("o", "Add", <<"r", b>>, <<"q">>, <<>>)>>, <<"q">>)]>>)>>, <<"s">>))]}
Avail == {"x"} \cup UNION {Rng(m.nodes[k].outs) : k \in 1..Len(m.nodes)}
Nm == "n" \o ToString(Len(m.nodes))
Out(k) == "t" \o ToString(Len(m.nodes)) \o "_" \o ToString(k)
Init == m = [inits |-> <<>>, ins |-> <<"x">>, nodes |-> <<>>, outs |-> <<>>] /\ g = m /\ phase = "build" /\ chain = {} /\ fix \in {[branch |-> b, k |-> "", kn |-> ""] : b \in {"then", "else"}}
Plain == /\ phase = "build" /\ Len(m.nodes) < MaxNodes
         /\ \E a \in Avail : m' = [m EXCEPT !.nodes = Append(@, N(Nm, "Neg", <<a>>, <<Out(1)>>, <<>>))]
         /\ UNCHANGED <<g, fix, phase, chain>>
Conditional == /\ phase = "build" /\ Len(m.nodes) < MaxNodes
         /\ \E a, b, cnd \in Avail : \E bd \in Bodies(a, b) : m' = [m EXCEPT !.nodes = Append(@, N(Nm, "If", <<cnd>>, [k \in 1..bd.n |-> Out(k)], bd.b))]
         /\ UNCHANGED <<g, fix, phase, chain>>
Outputs == /\ phase = "build" /\ \E k \in 1..Len(m.nodes) : m.nodes[k].op = "If"
         /\ \E o \in Avail \ {"x"} : LET last == m.nodes[Len(m.nodes)].outs IN m' = [m EXCEPT !.outs = IF o \in Rng(last) THEN last ELSE Append(last, o)]
         /\ g' = m' /\ phase' = "inline" /\ UNCHANGED <<fix, chain>>
\* renaming of what is bound in a graph
RECURSIVE Subst(_, _), SubstNodes(_, _)
Ren(f, n) == IF n \in DOMAIN f THEN f[n] ELSE n
SubstNodes(nodes, f) == [k \in 1..Len(nodes) |-> [nodes[k] EXCEPT !.ins = [j \in 1..Len(@) |-> Ren(f, @[j])], !.outs = [j \in 1..Len(@) |-> Ren(f, @[j])],
                                                    !.subs = [j \in 1..Len(@) |-> [@[j] EXCEPT !.g = Subst(@, f)]]]]
Subst(gr, f) == [gr EXCEPT !.inits = [k \in 1..Len(@) |-> [@[k] EXCEPT !.n = Ren(f, @)]], !.nodes = SubstNodes(@, f), !.outs = [j \in 1..Len(@) |-> Ren(f, @[j])]]
Bound(gr) == {gr.inits[k].n : k \in 1..Len(gr.inits)} \cup UNION {Rng(gr.nodes[k].outs) : k \in 1..Len(gr.nodes)}
Inline == /\ phase = "inline"
          /\ \E k \in {k \in 1..Len(g.nodes) : g.nodes[k].op = "If"} :
               LET nd == g.nodes[k]
                   b0 == BranchOf(nd, fix)
                   b == Subst(b0, [n \in Bound(b0) |-> nd.name \o "/" \o n])
                   inner == [j \in 1..Len(b.nodes) |-> [b.nodes[j] EXCEPT !.name = nd.name \o "/" \o @]]
                   fwd == [j \in 1..Len(nd.outs) |-> N(nd.name \o ToString(j), "Identity", <<b.outs[j]>>, <<nd.outs[j]>>, <<>>)]
               IN /\ g' = [g EXCEPT !.nodes = SubSeq(@, 1, k - 1) \o inner \o fwd \o SubSeq(@, k + 1, Len(@)), !.inits = @ \o b.inits]
                  /\ chain' = chain \cup {nd.ins[1]}
          /\ UNCHANGED <<m, fix, phase>>
NoIf == \A k \in 1..Len(g.nodes) : g.nodes[k].op # "If"
Unused(nd) == \A t \in Rng(nd.outs) : t \notin Rng(g.outs) /\ \A k \in 1..Len(g.nodes) : t \notin Rng(g.nodes[k].ins) \cup Captured(g.nodes[k])
Removable == {k \in 1..Len(g.nodes) : Unused(g.nodes[k]) /\ (g.nodes[k].op = "Identity" \/ Rng(g.nodes[k].outs) \cap chain # {})}
Remove == /\ phase = "inline" /\ NoIf
          /\ \E k \in Removable : /\ g' = [g EXCEPT !.nodes = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]
                                  /\ chain' = IF Rng(g.nodes[k].outs) \cap chain = {} THEN chain ELSE chain \cup Rng(g.nodes[k].ins) \cup Captured(g.nodes[k])
          /\ UNCHANGED <<m, fix, phase>>
Next == Plain \/ Conditional \/ Outputs \/ Inline \/ Remove
Spec == Init /\ [][Next]_vars
\* forcing the conditions and looking at the current graph gives the same meaning at every step
Meaning == phase = "inline" => LET a == Flatten(<<>>, m, fix) b == Flatten(a.pool, g, fix) IN
              Complete(b, g.outs) /\ \A o \in Rng(m.outs) : Look(a.env, o).term = Look(b.env, o).term
Final == (phase = "inline" /\ NoIf /\ Removable = {}) =>
            LET a == Flatten(<<>>, m, fix) b == Flatten(a.pool, g, NoFix)
            IN SameNodes(a, Remaining(a, m.outs), b, 1..Len(b.flat))
=============================================================================
