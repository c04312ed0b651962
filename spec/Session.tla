------------------------------- MODULE Session -------------------------------
(* One graph object and the calls made on it.  What the object remembers:
     outs    the tensors value inference hands out: the graph outputs and what was asked for since
     given   the inputs set so far [name -> value]; a later call overrides them
     vs      may shapes be relied on: "no", "yes", "any" (unspecified)
     vp      is there a profile: "no" or the set of excluded operators
   A call's result is a function of `given` alone, never of earlier results.  *)
EXTENDS Integers, Sequences
Fresh(ginit, outs) == [outs |-> outs, given |-> ginit, vs |-> "no", vp |-> <<FALSE, {}>>]
Known(given, inputs) == \A t \in inputs : given[t].full
AfterShape(s, given, verdict) ==                \* verdict: "ok", "refused"
  [s EXCEPT !.given = given, !.vs = IF verdict = "ok" THEN "yes" ELSE "no", !.vp = <<FALSE, {}>>]
AfterValue(s, given, ok) == [s EXCEPT !.given = given, !.vs = IF ok THEN (IF s.vs = "no" THEN "no" ELSE "any") ELSE "any", !.vp = <<FALSE, {}>>]
(* asking for more tensors: known ones not handed out yet are appended, nothing else happens *)
RECURSIVE Asked(_, _, _)
Asked(outs, names, known) ==
  IF names = <<>> THEN outs
  ELSE Asked(IF Head(names) \in known /\ (\A k \in 1..Len(outs) : outs[k] # Head(names)) THEN Append(outs, Head(names)) ELSE outs, Tail(names), known)
AfterDump(s, names, known) == [s EXCEPT !.outs = Asked(s.outs, names, known)]
AfterProfile(s, ok, excl) == IF ok THEN [s EXCEPT !.vp = <<TRUE, excl>>] ELSE [s EXCEPT !.vp = <<FALSE, {}>>]
=============================================================================
