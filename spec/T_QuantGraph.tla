---------------------------- MODULE T_QuantGraph ----------------------------
(* Trace validation of sequences of calls on a graph.
   case [fixed, first: state, steps: <<[kind: "quantize"/"other", call, ok, err, st: state after, cons: <<[n, u]>> relations]>>,
         saved: "" or what is wrong with the saved model]                                                      *)
EXTENDS QuantGraph, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, bad
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Same(a, b) == RngOf(a.nodes) = RngOf(b.nodes) /\ Len(a.nodes) = Len(b.nodes) /\ RngOf(a.ini) = RngOf(b.ini) /\ Len(a.ini) = Len(b.ini)
Related(st, cons) == LET names == {cons[k].n : k \in 1..Len(cons)}
                     IN /\ \A k \in 1..Len(cons) : RngOf(cons[k].u) = {st.nodes[j].n : j \in {x \in 1..Len(st.nodes) : cons[k].n \in RngOf(st.nodes[x].i) \cup RngOf(st.nodes[x].c)}}
                        /\ UNION {RngOf(st.nodes[k].i) : k \in 1..Len(st.nodes)} \ {""} \subseteq names
StepWhy(cs, k, pre) ==
  LET s == cs.steps[k]
      post == s.st
      call == s.call
      at == "step " \o ToString(k) \o " "
  IN IF ~s.ok THEN {at \o "raised " \o s.err} ELSE
     (IF s.kind = "quantize" /\ Eligible(pre, cs.fixed, call.w) THEN
        (IF post.nodes = NodesAfter(pre, call) THEN {} ELSE {at \o "nodes"})
        \cup (IF IniNames(post) # NamesAfter(pre, call) \/ Len(post.ini) # Cardinality(IniNames(post)) THEN {at \o "initializers"} ELSE
              LET nw == New(call.w, call.type) q == Ini(post, nw[1]) sc == Ini(post, nw[2]) z == IF Len(nw) = 3 THEN Ini(post, nw[3]) ELSE q IN
              (IF \A w \in IniNames(pre) \ {call.w} : Ini(pre, w) = Ini(post, w) THEN {} ELSE {at \o "another weight changed"})
              \cup (IF NewFit(pre, call, q, sc, z) THEN {} ELSE {at \o "shape of the new tensors"}))
      ELSE IF Same(pre, post) THEN {} ELSE {at \o "changes the graph"})
     \cup (IF Related(post, s.cons) THEN {} ELSE {at \o "relations"})
Why(cs) ==
  UNION {StepWhy(cs, k, IF k = 1 THEN cs.first ELSE cs.steps[k - 1].st) : k \in 1..Len(cs.steps)} \cup (IF cs.saved = "" THEN {} ELSE {"saved model: " \o cs.saved})
Init == c = 1 /\ bad = <<>>
Step == /\ c <= Len(Cases)
        /\ LET w == Why(Cases[c]) IN bad' = (IF w = {} THEN bad ELSE Append(bad, [i |-> c, why |-> SetSeq(w)]))
        /\ c' = c + 1
Report == c = Len(Cases) + 1 /\ ndJsonSerialize(IOEnv.OUT, bad) /\ c' = c + 1 /\ UNCHANGED bad
Next == Step \/ Report
Spec == Init /\ [][Next]_<<c, bad>>
=============================================================================
