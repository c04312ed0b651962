----------------------------- MODULE MC_MemPlan -----------------------------
(* Design check of the allocator: on every small graph, for every choice of the
   block a tensor is put into and of when a dead block is given back, largest
   tensor first (best fit is one of them), the plan is right. *)
EXTENDS MemPlan
CONSTANTS MaxNodes, Sizes
VARIABLES g, size, phase, k, blocks, plan, live      \* live: Live(g, k) for every step
vars == <<g, size, phase, k, blocks, plan, live>>
Tn == "t" \o ToString(Len(g.nodes))
Un == "u" \o ToString(Len(g.nodes))
Avail == Activations(g)
Init == /\ g \in {[nodes |-> <<>>, inp |-> <<"a">>, out |-> <<>>, cap |-> <<>>]}
        /\ size = <<>> /\ phase = "build" /\ k = 0 /\ blocks = <<>> /\ plan = <<>> /\ live = <<>>
Build == /\ phase = "build" /\ Len(g.nodes) < MaxNodes
         /\ \E x \in Avail : \E y \in (IF Len(g.nodes) = MaxNodes - 1 THEN {"", "a"} ELSE {""}) : \E o \in IF Len(g.nodes) = 0 THEN {<<Tn>>, <<Tn, Un>>} ELSE {<<Tn>>} :
              g' = [g EXCEPT !.nodes = Append(@, [n |-> "n" \o ToString(Len(g.nodes)), i |-> <<x, y>>, o |-> o])]
         /\ UNCHANGED <<size, phase, k, blocks, plan, live>>
Outputs == /\ phase = "build" /\ g.nodes # <<>>
           /\ \E t \in Activations(g) : g' = [g EXCEPT !.out = <<t>>]
           /\ size' \in [Activations(g) -> Sizes] /\ phase' = "plan" /\ k' = 0 /\ live' = [j \in 0..Len(g.nodes) |-> Live(g', j)] /\ UNCHANGED <<blocks, plan>>
Free == ""
Here == IF k = 0 THEN live[0] \cup live[1] ELSE live[k]
Used == {blocks[j].tag : j \in 1..Len(blocks)} \ {Free}
Cut(s, a, b) == SubSeq(s, 1, a - 1) \o SubSeq(s, b + 1, Len(s))
Give(j) ==         \* give block j back, joined with its free neighbours
  LET a == IF j > 1 /\ blocks[j - 1].tag = Free THEN j - 1 ELSE j
      b == IF j < Len(blocks) /\ blocks[j + 1].tag = Free THEN j + 1 ELSE j
  IN SubSeq(blocks, 1, a - 1) \o <<[off |-> blocks[a].off, len |-> blocks[b].off + blocks[b].len - blocks[a].off, tag |-> Free]>> \o SubSeq(blocks, b + 1, Len(blocks))
Release == /\ phase = "plan" /\ \E j \in 1..Len(blocks) : blocks[j].tag \notin Here \cup {Free} /\ blocks' = Give(j)
           /\ UNCHANGED <<g, size, phase, k, plan, live>>
Todo == Here \ DOMAIN plan
Fits(t) == {j \in 1..Len(blocks) : blocks[j].tag = Free /\ blocks[j].len >= size[t]}
End == IF blocks = <<>> THEN 0 ELSE blocks[Len(blocks)].off + blocks[Len(blocks)].len
Place(t, j, split) ==
  LET b == blocks[j] l == IF split THEN size[t] ELSE b.len IN
  /\ blocks' = SubSeq(blocks, 1, j - 1) \o <<[off |-> b.off, len |-> l, tag |-> t]>> \o
               (IF l < b.len THEN <<[off |-> b.off + l, len |-> b.len - l, tag |-> Free]>> ELSE <<>>) \o SubSeq(blocks, j + 1, Len(blocks))
  /\ plan' = plan @@ (t :> [off |-> b.off, len |-> l])
Alloc == /\ phase = "plan"
         /\ \E t \in {t \in Todo : \A u \in Todo : size[u] <= size[t]} :
              IF Fits(t) # {} THEN \E j \in Fits(t) : \E split \in BOOLEAN : Place(t, j, split)
              ELSE LET last == Len(blocks) grow == last > 0 /\ blocks[last].tag = Free
                       o == IF grow THEN blocks[last].off ELSE End
                       nb == [off |-> o, len |-> size[t], tag |-> t]
                   IN blocks' = (IF grow THEN [blocks EXCEPT ![last] = nb] ELSE Append(blocks, nb)) /\ plan' = plan @@ (t :> [off |-> o, len |-> size[t]])
         /\ UNCHANGED <<g, size, phase, k, live>>
Advance == /\ phase = "plan" /\ Todo = {} /\ k < Len(g.nodes) /\ k' = (IF k = 0 THEN 2 ELSE k + 1) /\ k' <= Len(g.nodes)
           /\ UNCHANGED <<g, size, phase, blocks, plan, live>>
Next == Build \/ Outputs \/ Release \/ Alloc \/ Advance
Spec == Init /\ [][Next]_vars
(* ------------------------------------------------------------ invariants *)
Tiled == \A j \in 1..Len(blocks) : blocks[j].len > 0 /\ blocks[j].off = (IF j = 1 THEN 0 ELSE blocks[j - 1].off + blocks[j - 1].len)
Kept == phase = "plan" => \A t \in Here \cap DOMAIN plan : \E j \in 1..Len(blocks) : blocks[j].tag = t /\ blocks[j].off = plan[t].off /\ blocks[j].len = plan[t].len
Disjoint == phase = "plan" => \A j \in DOMAIN live : \A s, t \in live[j] \cap DOMAIN plan : s # t => Apart(plan[s], plan[t])
Enough == phase = "plan" => \A t \in DOMAIN plan : plan[t].len >= size[t]
Tight == phase = "plan" => /\ End <= SumOf(DOMAIN plan, size)
                           /\ plan = <<>> \/ End = Max({plan[t].off + plan[t].len : t \in DOMAIN plan})
(* and the plan is as large as something that is live at once *)
Needed == phase = "plan" /\ Todo = {} => End >= SumOf(Here \cap DOMAIN plan, size)
Complete == phase = "plan" /\ Todo = {} /\ k >= Len(g.nodes) => DOMAIN plan = Activations(g)
=============================================================================
