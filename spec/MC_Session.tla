----------------------------- MODULE MC_Session -----------------------------
(* Call sequences over two assignments A and B of the inputs, of which the file
   itself fixes only some.  `truth` is what a freshly loaded graph would answer
   for what was given; the object's answers are kept in `ans`.               *)
EXTENDS Session, FiniteSets
CONSTANTS Inputs, MaxCalls
VARIABLES s, ans, hist
vars == <<s, ans, hist>>
Vals == {"A", "B", "bad"}
V(x) == [full |-> x # "", val |-> x]
Init == /\ \E ini \in [Inputs -> {"", "A"}] : s = Fresh([t \in Inputs |-> V(ini[t])], <<"y">>)
        /\ ans = <<>> /\ hist = <<>>
Fits(given) == \A t \in Inputs : given[t].val # "bad"
Merge(given, part) == [t \in Inputs |-> IF t \in DOMAIN part THEN V(part[t]) ELSE given[t]]
Truth(given) == [t \in Inputs |-> given[t].val]
Parts == UNION {[S -> Vals] : S \in SUBSET Inputs}
More == Len(hist) < MaxCalls
Call(nm, p, a) == hist' = Append(hist, nm) /\ ans' = a
Shape == More /\ \E p \in Parts : LET g == Merge(s.given, p) ok == Known(g, Inputs) /\ Fits(g) IN
         s' = AfterShape(s, g, IF ok THEN "ok" ELSE "refused") /\ Call("shape", p, IF ok THEN Truth(g) ELSE <<"refused">>)
Value == More /\ \E p \in Parts : LET g == Merge(s.given, p) ok == Known(g, Inputs) /\ Fits(g) IN
         s' = AfterValue(s, g, ok) /\ Call("value", p, IF ok THEN Truth(g) ELSE <<"refused">>)
Profile == More /\ \E x \in {{}, {"Shape"}} : s' = AfterProfile(s, s.vs # "no", x)
           /\ Call("profile", <<>>, IF s.vs = "no" THEN <<"refused">> ELSE <<Truth(s.given), x>>)
Print == More /\ UNCHANGED s /\ Call("print", <<>>, IF s.vp[1] THEN <<Truth(s.given), s.vp[2]>> ELSE <<"refused">>)
Dump == More /\ \E t \in {"y", "m", "none"} : s' = AfterDump(s, <<t>>, {"y", "m"} \cup Inputs) /\ Call("dump", <<>>, <<"done">>)
Next == Dump \/ Shape \/ Value \/ Profile \/ Print
Spec == Init /\ [][Next]_vars
Last == hist[Len(hist)]
ProfileNeedsShapes == s.vp[1] => s.vs # "no"
OutputsOnlyGrow == [][s'.outs = s.outs \/ \E t \in {"m"} : s'.outs = Append(s.outs, t)]_vars
OutputsOnce == \A a, b \in 1..Len(s.outs) : s.outs[a] = s.outs[b] => a = b
ShapesNeedInputs == s.vs = "yes" => Known(s.given, Inputs) /\ Fits(s.given)
ProfileIsOfTheInputs == (hist # <<>> /\ Last \in {"print", "profile"} /\ ans # <<"refused">>) => ans[1] = Truth(s.given)
RefusedAfterFailure == [][(Len(hist') > 0 /\ hist'[Len(hist')] = "shape" /\ ans' = <<"refused">>) => s'.vs = "no" /\ ~s'.vp[1]]_vars
Recovers == [][(hist' # hist /\ hist'[Len(hist')] = "shape" /\ Known(s'.given, Inputs) /\ Fits(s'.given)) => ans' = Truth(s'.given)]_vars
=============================================================================
