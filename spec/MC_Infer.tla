------------------------------ MODULE MC_Infer ------------------------------
(* Design check of pool-backed inference.  A graph over two inputs, each with a
   length of its own, runs again and again in one pool that was planned once for
   the largest lengths: every call gives the input lengths, writes the inputs,
   executes node by node and returns views; a call may fail half way.  Views of
   the last completed call are reused while the lengths stay the same.
   A cell of the pool holds what was written there: [t, k, at] - element `at` of
   tensor t in call k.                                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxNodes, MaxLen, Calls, Wide
VARIABLES g, plan, mem, len, last, views, call, pc, phase, good
vars == <<g, plan, mem, len, last, views, call, pc, phase, good>>
MP == INSTANCE MemPlan
Inputs == <<"x", "y">>
Lens == [{"x", "y"} -> 1..MaxLen]
(* node: one result as long as the first operand (unary), as the second (pick), or as both together (cat) *)
Kinds == {"un", "pick", "cat"}
Made == {"t" \o ToString(k) : k \in 1..Len(g.nodes)}
Avail == {"x", "y"} \cup Made
RECURSIVE Size(_, _, _)
Size(h, l, t) ==
  IF t \in {"x", "y"} THEN l[t]
  ELSE LET nd == h.nodes[CHOOSE k \in 1..Len(h.nodes) : h.nodes[k].o = <<t>>] IN
       CASE nd.op = "un" -> Size(h, l, nd.i[1])
         [] nd.op = "pick" -> Size(h, l, nd.i[2])
         [] OTHER -> Size(h, l, nd.i[1]) + Size(h, l, nd.i[2])
Largest == [t \in {"x", "y"} |-> MaxLen]
Shapes(l) == [t \in MP!Activations(g) |-> Size(g, l, t)]
None == [t |-> "", k |-> 0, at |-> 0]
Init == /\ g = [nodes |-> <<>>, inp |-> Inputs, out |-> <<>>, cap |-> <<>>] /\ plan = <<>> /\ mem = <<>> /\ len = Largest /\ last = <<>>
        /\ views = <<>> /\ call = 0 /\ pc = 0 /\ phase = "build" /\ good = TRUE
Build == /\ phase = "build" /\ Len(g.nodes) < MaxNodes
         /\ \E op \in Kinds : \E a \in Avail, b \in Avail :
              /\ (op = "un" => a = b)
              /\ g' = [g EXCEPT !.nodes = Append(@, [n |-> "n" \o ToString(Len(@) + 1), op |-> op, i |-> IF op = "un" THEN <<a>> ELSE <<a, b>>,
                                                     o |-> <<"t" \o ToString(Len(@) + 1)>>])]
         /\ UNCHANGED <<plan, mem, len, last, views, call, pc, phase, good>>
(* first fit over the activations in the order of their birth *)
RECURSIVE Place(_, _, _)
Place(h, todo, done) ==
  IF todo = {} THEN done
  ELSE LET t == CHOOSE t \in todo : \A u \in todo : MP!Born(h, t) < MP!Born(h, u) \/ (MP!Born(h, t) = MP!Born(h, u) /\ Size(h, Largest, t) >= Size(h, Largest, u))
           n == Size(h, Largest, t)
           ok(off) == \A u \in DOMAIN done : MP!Together(h, t, u) => MP!Apart([off |-> off, len |-> n], done[u])
           off == CHOOSE off \in 0..100 : ok(off) /\ \A o2 \in 0..(off - 1) : ~ok(o2)
       IN Place(h, todo \ {t}, [u \in {t} |-> [off |-> off, len |-> n]] @@ done)
Plan == /\ phase = "build" /\ g.nodes # <<>>
        /\ \E t \in IF Wide THEN Made ELSE {g.nodes[1].o[1]} :
             LET h == [g EXCEPT !.out = <<t, "t" \o ToString(Len(g.nodes))>>]
                 p == Place(h, MP!Activations(h), <<>>)
                 top == MP!Max({p[u].off + p[u].len : u \in DOMAIN p})
             IN g' = h /\ plan' = p /\ mem' = [c \in 1..top |-> None]
        /\ phase' = "idle" /\ UNCHANGED <<len, last, views, call, pc, good>>
WriteT(m, t, n) == [c \in DOMAIN m |-> IF c > plan[t].off /\ c <= plan[t].off + n THEN [t |-> t, k |-> call', at |-> c - plan[t].off] ELSE m[c]]
Begin == /\ phase = "idle" /\ call < Calls
         /\ \E l \in Lens :
              /\ len' = l /\ call' = call + 1 /\ pc' = 0 /\ phase' = "run"
              /\ views' = IF last = l THEN views ELSE Shapes(l)            \* views of a completed call with the same lengths
              /\ last' = IF last = l THEN last ELSE <<>>                   \* until this one completes
              /\ mem' = WriteT(WriteT(mem, "x", l["x"]), "y", l["y"])
         /\ UNCHANGED <<g, plan, good>>
Holds(t) == \A e \in 1..views[t] : mem[plan[t].off + e] = [t |-> t, k |-> call, at |-> e]
Exec == /\ phase = "run" /\ pc < Len(g.nodes)
        /\ LET nd == g.nodes[pc + 1] t == nd.o[1] IN
             /\ good' = (good /\ (\A k \in 1..Len(nd.i) : Holds(nd.i[k])) /\ \A u \in DOMAIN views : views[u] = Size(g, len, u))
             /\ mem' = [c \in DOMAIN mem |-> IF c > plan[t].off /\ c <= plan[t].off + views[t] THEN [t |-> t, k |-> call, at |-> c - plan[t].off] ELSE mem[c]]
        /\ pc' = pc + 1 /\ UNCHANGED <<g, plan, len, last, views, call, phase>>
Fail == phase = "run" /\ phase' = "idle" /\ UNCHANGED <<g, plan, mem, len, last, views, call, pc, good>>
Return == /\ phase = "run" /\ pc = Len(g.nodes) /\ good' = (good /\ \A k \in 1..Len(g.out) : Holds(g.out[k]))
          /\ last' = len /\ phase' = "idle" /\ UNCHANGED <<g, plan, mem, len, views, call, pc>>
Next == Build \/ Plan \/ Begin \/ Exec \/ Fail \/ Return
Spec == Init /\ [][Next]_vars
(* every operand and every result is what this very call put there, in this call's shape *)
OwnData == good
InBlock == phase # "build" /\ views # <<>> => \A t \in DOMAIN views : views[t] <= plan[t].len
NoOverlap == phase = "idle" \/ phase = "run" => \A s, t \in DOMAIN plan : s # t /\ MP!Together(g, s, t) => MP!Apart(plan[s], plan[t])
=============================================================================
