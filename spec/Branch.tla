------------------------------- MODULE Branch -------------------------------
(* Meaning of a model whose If nodes are fixed to one branch and whose TopK
   nodes are fixed to one size.

   A graph is [inits: <<[n, d]>> (name, content), ins, nodes, outs].
   A node is [name, op, attrs: <<<<key, value>>>>, ins, outs, subs: <<[k, g]>>]; '' is an omitted tensor.
   cfg is [branch: "then"/"else"/"" (keep Ifs), k: content of the fixed size or "", kn: the size as an attribute].

   Tensors denote numbers ("terms") in a pool of shapes shared by all graphs that are compared, so that
   two tensors have the same number exactly if they are computed in the same way from inputs and constants,
   whatever the names in between.  Beside its term a tensor has an identity ("tok": who makes it).

   Walk flattens a graph: every node that remains, in order, with its term, what it takes and what it makes.
   An If contributes the nodes of its branch, and its outputs *are* the branch's outputs.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[k] : k \in 1..Len(s)}
RECURSIVE Find(_, _, _)
Find(pool, x, k) == IF k = 0 THEN 0 ELSE IF pool[k] = x THEN k ELSE Find(pool, x, k - 1)
\* a shape is <<kind, label, attributes, arguments>>
Intern(pool, x) == LET k == Find(pool, x, Len(pool)) IN IF k > 0 THEN [pool |-> pool, id |-> k] ELSE [pool |-> Append(pool, x), id |-> Len(pool) + 1]

Nothing == [term |-> 0, tok |-> <<"none", "", 0, 0>>]        \* an omitted tensor
Unknown == [term |-> -1, tok |-> <<"unknown", "", 0, 0>>]    \* a name nobody has defined yet
Look(env, n) == IF n = "" THEN Nothing ELSE IF n \in DOMAIN env THEN env[n] ELSE Unknown
Bind(env, n, v) == IF n = "" THEN env ELSE TLCEval([m \in DOMAIN env \cup {n} |-> IF m = n THEN v ELSE env[m]])

\* ---------------------------------------------------------------- names used inside a nested graph
RECURSIVE FreeIn(_), FreeNodes(_, _, _)
FreeNodes(nodes, k, known) ==
  IF k > Len(nodes) THEN [free |-> {}, known |-> known]
  ELSE LET nd == nodes[k]
           used == (Rng(nd.ins) \cup UNION {FreeIn(nd.subs[j].g) : j \in 1..Len(nd.subs)}) \ ({""} \cup known)
           rest == FreeNodes(nodes, k + 1, known \cup Rng(nd.outs))
       IN [free |-> used \cup rest.free, known |-> rest.known]
FreeIn(g) == LET r == FreeNodes(g.nodes, 1, Rng(g.ins) \cup {g.inits[k].n : k \in 1..Len(g.inits)})
             IN r.free \cup (Rng(g.outs) \ ({""} \cup r.known))
Captured(nd) == UNION {FreeIn(nd.subs[j].g) : j \in 1..Len(nd.subs)}

\* ---------------------------------------------------------------- initializers and inputs
RECURSIVE WithInits(_, _, _, _), WithInputs(_, _, _), WithParams(_, _, _, _, _)
WithInits(pool, env, inits, k) ==
  IF k > Len(inits) THEN [pool |-> pool, env |-> env]
  ELSE LET r == Intern(pool, <<"const", inits[k].d, <<>>, <<>>>>)
       IN WithInits(r.pool, Bind(env, inits[k].n, [term |-> r.id, tok |-> <<"const", inits[k].d, r.id, 0>>]), inits, k + 1)
WithInputs(pool, env, ins) ==
  IF ins = <<>> THEN [pool |-> pool, env |-> env]
  ELSE LET r == Intern(pool, <<"in", Head(ins), <<>>, <<>>>>)
       IN WithInputs(r.pool, Bind(env, Head(ins), [term |-> r.id, tok |-> <<"in", Head(ins), 0, 0>>]), Tail(ins))
WithParams(pool, env, ins, depth, k) ==
  IF k > Len(ins) THEN [pool |-> pool, env |-> env]
  ELSE LET r == Intern(pool, <<"param", "", <<>>, <<depth, k>>>>)
       IN WithParams(r.pool, Bind(env, ins[k], [term |-> r.id, tok |-> <<"param", "", depth, k>>]), ins, depth, k + 1)

\* ---------------------------------------------------------------- one node, and nested graphs kept as they are
Terms(env, s) == TLCEval([k \in 1..Len(s) |-> Look(env, s[k]).term])
RECURSIVE NodeTerm(_, _, _, _), SubTerms(_, _, _, _, _), SubTerm(_, _, _, _), SubNodes(_, _, _, _, _, _), BindOuts(_, _, _, _, _, _)
NodeTerm(pool, env, nd, depth) ==
  LET s == SubTerms(pool, env, nd.subs, depth, 1)
  IN Intern(s.pool, <<"node", nd.op, nd.attrs, Terms(env, nd.ins) \o <<-9>> \o s.ids>>)
SubTerms(pool, env, subs, depth, k) ==
  IF k > Len(subs) THEN [pool |-> pool, ids |-> <<>>]
  ELSE LET s == SubTerm(pool, env, subs[k].g, depth + 1)
           t == Intern(s.pool, <<"sub", subs[k].k, <<>>, <<s.id>>>>)
           rest == SubTerms(t.pool, env, subs, depth, k + 1)
       IN [pool |-> rest.pool, ids |-> <<t.id>> \o rest.ids]
SubTerm(pool, env, g, depth) ==
  LET a == WithInits(pool, env, g.inits, 1)
      b == WithParams(a.pool, a.env, g.ins, depth, 1)
      c == SubNodes(b.pool, b.env, g.nodes, depth, 1, <<>>)
  IN Intern(c.pool, <<"graph", "", <<>>, <<Len(g.ins)>> \o c.ids \o <<-9>> \o Terms(c.env, g.outs)>>)
SubNodes(pool, env, nodes, depth, k, ids) ==
  IF k > Len(nodes) THEN [pool |-> pool, env |-> env, ids |-> ids]
  ELSE LET t == NodeTerm(pool, env, nodes[k], depth)
           o == BindOuts(t.pool, env, nodes[k].outs, t.id, 0, 1)
       IN SubNodes(o.pool, o.env, nodes, depth, k + 1, Append(ids, t.id))
BindOuts(pool, env, outs, id, who, k) ==
  IF k > Len(outs) THEN [pool |-> pool, env |-> env]
  ELSE LET r == Intern(pool, <<"out", "", <<>>, <<id, k>>>>)
       IN BindOuts(r.pool, Bind(env, outs[k], [term |-> r.id, tok |-> <<"made", "", who, k>>]), outs, id, who, k + 1)

\* ---------------------------------------------------------------- flattening
\* a state is [pool, env, flat, gone]; gone: tensors only needed by what was fixed
FixedTopK(nd, cfg) == nd.op = "TopK" /\ cfg.k # ""
FixedAttrs(nd, cfg) == IF FixedTopK(nd, cfg) /\ Len(nd.ins) < 2 THEN [j \in 1..Len(nd.attrs) |-> IF nd.attrs[j][1] = "k" THEN <<"k", cfg.kn>> ELSE nd.attrs[j]] ELSE nd.attrs
IsIf(nd, cfg) == nd.op = "If" /\ cfg.branch # ""
BranchOf(nd, cfg) == nd.subs[CHOOSE j \in 1..Len(nd.subs) : nd.subs[j].k = cfg.branch \o "_branch"].g
RECURSIVE Walk(_, _, _, _), BindAll(_, _, _, _)
BindAll(env, ns, vs, k) == IF k > Len(ns) THEN env ELSE BindAll(Bind(env, ns[k], vs[k]), ns, vs, k + 1)
Walk(nodes, k, st, cfg) ==
  IF k > Len(nodes) THEN st
  ELSE LET nd == nodes[k] IN
    IF IsIf(nd, cfg) THEN
      LET b == BranchOf(nd, cfg)
          a == WithInits(st.pool, st.env, b.inits, 1)
          in == Walk(b.nodes, 1, [st EXCEPT !.pool = a.pool, !.env = a.env, !.gone = @ \cup {Look(st.env, nd.ins[1]).tok}], cfg)
          res == [j \in 1..Len(nd.outs) |-> Look(in.env, b.outs[j])]
      IN Walk(nodes, k + 1, [in EXCEPT !.env = BindAll(st.env, nd.outs, res, 1)], cfg)
    ELSE IF FixedTopK(nd, cfg) /\ Len(nd.ins) >= 2 THEN
      \* the second input becomes the constant
      LET c == WithInits(st.pool, st.env, <<[n |-> "fixed size", d |-> cfg.k]>>, 1)
          old == Look(st.env, nd.ins[2]).tok
          same == old = c.env["fixed size"].tok
          nd2 == [nd EXCEPT !.ins = [j \in 1..Len(@) |-> IF j = 2 THEN "fixed size" ELSE @[j]]]
          t == NodeTerm(c.pool, c.env, nd2, 0)
          o == BindOuts(t.pool, st.env, nd.outs, t.id, Len(st.flat) + 1, 1)
          uses == {Look(c.env, n).tok : n \in Rng(nd2.ins)}
          made == {Look(o.env, n).tok : n \in Rng(nd.outs) \ {""}}
      IN Walk(nodes, k + 1, [pool |-> o.pool, env |-> o.env, gone |-> IF same THEN st.gone ELSE st.gone \cup {old},
                             flat |-> Append(st.flat, [name |-> nd.name, op |-> nd.op, term |-> t.id, uses |-> uses, makes |-> made])], cfg)
    ELSE
      LET nd2 == [nd EXCEPT !.attrs = FixedAttrs(nd, cfg)]
          t == NodeTerm(st.pool, st.env, nd2, 0)
          \* forwarding a tensor does not change what it is
          fwd == nd.op = "Identity" /\ Len(nd.outs) = 1
          o == IF fwd THEN [pool |-> t.pool, env |-> Bind(st.env, nd.outs[1], [term |-> Look(st.env, nd.ins[1]).term, tok |-> <<"made", "", Len(st.flat) + 1, 1>>])]
               ELSE BindOuts(t.pool, st.env, nd.outs, t.id, Len(st.flat) + 1, 1)
          uses == {Look(st.env, n).tok : n \in (Rng(nd.ins) \cup Captured(nd))}
          made == {Look(o.env, n).tok : n \in Rng(nd.outs) \ {""}}
      IN Walk(nodes, k + 1, [pool |-> o.pool, env |-> o.env, gone |-> st.gone,
                             flat |-> Append(st.flat, [name |-> nd.name, op |-> nd.op, term |-> t.id, uses |-> uses, makes |-> made])], cfg)

Start(pool, g) == LET a == WithInits(pool, <<>>, g.inits, 1) b == WithInputs(a.pool, a.env, g.ins) IN [pool |-> b.pool, env |-> b.env, flat |-> <<>>, gone |-> {}]
Flatten(pool, g, cfg) == Walk(g.nodes, 1, Start(pool, g), cfg)
NoFix == [branch |-> "", k |-> "", kn |-> ""]

\* ---------------------------------------------------------------- what only computed a condition or an old size
OutToks(st, outs) == {Look(st.env, o).tok : o \in Rng(outs)}
RECURSIVE DropFrom(_, _, _, _)
DropFrom(st, outs, k, D) ==
  IF k = 0 THEN D
  ELSE LET n == st.flat[k]
           fed == \E t \in n.makes : t \in st.gone \/ \E j \in D : t \in st.flat[j].uses
           free == \A t \in n.makes : t \notin OutToks(st, outs) /\ \A j \in (k + 1)..Len(st.flat) : t \in st.flat[j].uses => j \in D
       IN DropFrom(st, outs, k - 1, IF fed /\ free THEN D \cup {k} ELSE D)
Dropped(st, outs) == DropFrom(st, outs, Len(st.flat), {})
Remaining(st, outs) == {k \in 1..Len(st.flat) : k \notin Dropped(st, outs)}

\* ---------------------------------------------------------------- comparing
Count(st, K, t) == Cardinality({k \in K : st.flat[k].term = t /\ st.flat[k].op # "Identity"})
TermsOf(st, K) == {st.flat[k].term : k \in {k \in K : st.flat[k].op # "Identity"}}
SameNodes(a, A, b, B) == \A t \in TermsOf(a, A) \cup TermsOf(b, B) : Count(a, A, t) = Count(b, B, t)
Complete(st, outs) == /\ \A k \in 1..Len(st.flat) : Unknown.tok \notin st.flat[k].uses
                      /\ Unknown.tok \notin OutToks(st, outs)
=============================================================================
