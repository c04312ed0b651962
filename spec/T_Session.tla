------------------------------ MODULE T_Session ------------------------------
(* Trace validation of a graph object through a sequence of calls.
   case [inputs: <<[n, s (-1: not a number), d]>>, inits: <<[n, s, d, has, v]>>, nodes: <<[n, op, a, i, o]>>, outputs, steps]
   step [call, ins, ok, err, nnamed (nodes the error names), tnamed (inputs it names), obs (tensors after it), outs (results),
         excl, hide, factor, anyorder (the rows' order is not specified), tables: <<[fmt, rows, total, dedup]>>]           *)
EXTENDS Exec, Cost, Session, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, bad
Clause(n, b) == IF b THEN {} ELSE {n}
Show(x) == ToString(x)
RECURSIVE SetSeq(_)
SetSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetSeq(S \ {x})
Tag(k, st, S) == {"call " \o ToString(k) \o " " \o st.call \o ": " \o w : w \in S}
Used(cs) == UNION {Ran(cs.nodes[k].i) : k \in 1..Len(cs.nodes)} \ {""}

(* ---- fixed point *)
Digits(x, t, n) ==                              \* floor(x / t * 10^n) for 0 <= x <= t, and the remainder, by long division
  LET RECURSIVE D(_, _, _)
      D(q, rem, k) == IF k = 0 THEN <<q, rem>> ELSE D(q * 10 + (rem * 10) \div t, (rem * 10) % t, k - 1)
  IN D(x \div t, x % t, n)

(* ---- what is given *)
Decl(x) == [full |-> \A k \in 1..Len(x.s) : x.s[k] >= 0, x |-> [s |-> x.s, d |-> x.d, has |-> FALSE, v |-> <<>>]]
Given0(cs) == [t \in {cs.inputs[k].n : k \in 1..Len(cs.inputs)} |-> Decl(cs.inputs[CHOOSE k \in 1..Len(cs.inputs) : cs.inputs[k].n = t])]
Give(given, ins) == [t \in DOMAIN given |->
                      LET K == {k \in 1..Len(ins) : ins[k].n = t} IN
                      IF K = {} THEN given[t] ELSE LET x == ins[CHOOSE k \in K : TRUE] IN [full |-> TRUE, x |-> [s |-> x.s, d |-> x.d, has |-> x.has, v |-> x.v]]]
Env0(cs, given) == [t \in DOMAIN given |-> Ten(given[t].x, FALSE)] @@
                   [t \in {cs.inits[k].n : k \in 1..Len(cs.inits)} |-> Ten(cs.inits[CHOOSE k \in 1..Len(cs.inits) : cs.inits[k].n = t], TRUE)]
Unset(cs, given) == {t \in DOMAIN given : ~given[t].full /\ t \in Used(cs) \cup Ran(cs.outputs)}
Result(cs, given) == RunNodes(cs.nodes, Env0(cs, given), <<>>)

(* ---- shape inference *)
IntTypes == {"i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"}
Unused(cs) == {cs.inputs[k].n : k \in 1..Len(cs.inputs)} \ Used(cs)
ObsWhy(cs, r, obs) ==
  LET S == ShapeTensors(cs.nodes) \cap UNION {Ran(cs.nodes[k].o) : k \in 1..Len(cs.nodes)} IN
  UNION {LET x == obs[k] IN
         IF x.n \notin Unused(cs) /\ \E j \in 1..Len(x.s) : x.s[j] < 0 THEN {"tensor " \o x.n \o " has the shape " \o Show(x.s)} ELSE
         IF x.n \notin DOMAIN r.env THEN {}
         ELSE LET y == r.env[x.n] IN
              Clause("tensor " \o x.n \o " shape " \o Show(x.s) \o " is not " \o Show(y.s), x.s = y.s) \cup
              Clause("tensor " \o x.n \o " type " \o x.d \o " is not " \o y.d, x.d \in {y.d, "?"}) \cup
              (IF x.n \in S /\ y.has /\ y.d \in IntTypes
               THEN Clause("tensor " \o x.n \o " has no value", x.has) \cup
                    Clause("tensor " \o x.n \o " values " \o Show(x.v) \o " are not " \o Show(y.v), ~x.has \/ x.v = y.v)
               ELSE {})
         : k \in 1..Len(obs)}
MustRefuse(r) == r.bad # <<>> /\ r.bad[1].st = "no" /\ r.bad[1].op \in Strict
ShapeStep(cs, s, st) ==
  LET given == Give(s.given, st.ins) IN
  IF Unset(cs, given) # {}
  THEN [s |-> AfterShape(s, given, "refused"),
        why |-> Clause("unset input shapes are accepted", ~st.ok) \cup
                Clause("the refusal names no unset input: " \o st.err, st.ok \/ Ran(st.tnamed) \cap Unset(cs, given) # {})]
  ELSE LET r == Result(cs, given) IN
       IF MustRefuse(r)
       THEN [s |-> AfterShape(s, given, "refused"),
             why |-> Clause("operands that do not fit are accepted at " \o r.bad[1].n, ~st.ok) \cup
                     Clause("the error does not name " \o r.bad[1].n \o ": " \o st.err, st.ok \/ r.bad[1].n \in Ran(st.nnamed))]
       ELSE IF r.bad # <<>>
       THEN [s |-> AfterShape(s, given, IF st.ok THEN "ok" ELSE "refused"),
             why |-> IF st.ok THEN ObsWhy(cs, r, st.obs) ELSE Clause("the error names no node: " \o st.err, st.nnamed # <<>>)]
       ELSE [s |-> AfterShape(s, given, "ok"),
             why |-> IF st.ok THEN ObsWhy(cs, r, st.obs) ELSE {"raised " \o st.err}]

(* ---- value inference *)
(* observed numbers are integers of ten-thousandths (fx), compared up to single precision *)
Fixed(x) == LET i == x[1] \div x[2] r == x[1] % x[2] d == Digits(r, x[2], 4)[1] IN i * 10000 + d
Near(o, x) == x = Undef \/ AbsI(x[1] \div x[2]) > 100000 \/ o = 2000000000 \/ (LET f == Fixed(x) IN AbsI(o - f) <= 2 + AbsI(f) \div 500000)
ValueStep(cs, s, st) ==
  LET given == Give(s.given, st.ins) r == Result(cs, given) IN
  [s |-> AfterValue(s, given, st.ok),
   why |-> IF r.bad # <<>> \/ Unset(cs, given) # {} THEN {}
           ELSE IF ~st.ok THEN (IF st.unsupported /\ (\E k \in 1..Len(cs.nodes) : MayRefuseValue(cs.nodes[k].op, cs.nodes[k].a, Len(cs.nodes[k].o))) THEN {} ELSE {"raised " \o st.err})
           ELSE Clause("arrays handed in or out were overwritten later", st.kept) \cup
                Clause("number of results", Len(st.outs) = Len(s.outs)) \cup
                UNION {LET y == r.env[s.outs[k]] x == st.outs[k] IN
                       Clause("result " \o s.outs[k] \o " shape " \o Show(x.s) \o " is not " \o Show(y.s), x.s = y.s) \cup
                       (IF y.has /\ x.has /\ x.s = y.s
                        THEN Clause("result " \o s.outs[k] \o " values " \o Show(x.fx) \o " are not " \o Show(y.v), \A j \in 1..Len(y.v) : Near(x.fx[j], y.v[j]))
                        ELSE {})
                       : k \in 1..Min2(Len(st.outs), Len(s.outs))}]

(* ---- profile and its tables *)
Counted(cs, excl) == SelectSeq(cs.nodes, LAMBDA nd : nd.op \notin excl)
CostOf(nd, env) == NodeCost(nd.op, nd.a, InsOf(nd, env), OutsOf(nd, env))
Statics(nds, env) == {t \in UNION {Ran(nds[k].i) : k \in 1..Len(nds)} \ {""} : t \in DOMAIN env /\ env[t].w}
PctOK(p, x, t) == IF p = -1 THEN TRUE ELSE IF t = 0 THEN p = 0
                  ELSE LET d == Digits(x, t, 4) IN IF 2 * d[2] < t THEN p = d[1] ELSE IF 2 * d[2] > t THEN p = d[1] + 1 ELSE p \in {d[1], d[1] + 1}
Shp(s) == IF s = <<>> THEN <<0>> ELSE s
RowWhy(row, nd, env, f, tot) ==
  LET x == CostOf(nd, env) nm == nd.n IN
  Clause("row " \o nm \o " operator", row.op = nd.op) \cup
  Clause("row " \o nm \o " MACs " \o Show(row.macs) \o " are not " \o Show(f * x.macs), x.macs < 0 \/ row.macs = f * x.macs) \cup
  Clause("row " \o nm \o " memory " \o Show(row.mem) \o " is not " \o Show(x.mem), row.mem = x.mem) \cup
  Clause("row " \o nm \o " parameters " \o Show(row.params) \o " are not " \o Show(x.params), row.params = x.params) \cup
  (IF tot.open THEN {}
   ELSE Clause("row " \o nm \o " MACs percentage", PctOK(row.fp, x.macs, tot.macs)) \cup
        Clause("row " \o nm \o " memory percentage", PctOK(row.mp, x.mem, tot.mem)) \cup
        Clause("row " \o nm \o " parameter percentage", PctOK(row.pp, x.params, tot.params))) \cup
  Clause("row " \o nm \o " input shape", Len(nd.i) = 0 \/ nd.i[1] = "" \/ row.ins = Shp(env[nd.i[1]].s)) \cup
  Clause("row " \o nm \o " output shape", Len(nd.o) = 0 \/ nd.o[1] = "" \/ row.outs = Shp(env[nd.o[1]].s))
Totals(nds, env) ==
  LET C == [k \in 1..Len(nds) |-> IF Done(nds[k], env) THEN CostOf(nds[k], env) ELSE [macs |-> -1, params |-> 0, mem |-> 0]]
      st == SetToSeq(Statics(nds, env))
  IN [open |-> \E k \in 1..Len(nds) : C[k].macs < 0,
      macs |-> SumSeq([k \in 1..Len(nds) |-> C[k].macs]), params |-> SumSeq([k \in 1..Len(nds) |-> C[k].params]),
      mem |-> SumSeq([k \in 1..Len(nds) |-> C[k].mem]), dedup |-> SumSeq([k \in 1..Len(st) |-> Vol(env[st[k]].s)])]
TableWhy(tb, nds, shown, env, f0) ==
  LET f == IF tb.fmt = "node" THEN 1 ELSE f0
      tot == Totals(nds, env) IN
  {tb.fmt \o " table: " \o w : w \in
    Clause("rows " \o Show([k \in 1..Len(tb.rows) |-> tb.rows[k].n]) \o " are not " \o Show([k \in 1..Len(shown) |-> shown[k].n]),
           [k \in 1..Len(tb.rows) |-> tb.rows[k].n] = [k \in 1..Len(shown) |-> shown[k].n]) \cup
    UNION {IF tb.rows[k].n = shown[k].n /\ Done(shown[k], env) THEN RowWhy(tb.rows[k], shown[k], env, f, tot) ELSE {} : k \in 1..Min2(Len(tb.rows), Len(shown))} \cup
    (IF tot.open THEN {}
     ELSE Clause("total " \o Show(tb.total) \o " is not " \o Show(<<f * tot.macs, tot.mem, tot.params>>), tb.total = <<f * tot.macs, tot.mem, tot.params>>) \cup
          Clause("de-duplicated parameters " \o Show(tb.dedup) \o " are not " \o Show(tot.dedup),
                 tb.dedup = IF tot.dedup = tot.params THEN <<>> ELSE <<tot.dedup>>))}
(* the shown nodes in the order of the rows, those without row at the end *)
Arranged(shown, rows) ==
  LET at(nd) == IF \E k \in 1..Len(rows) : rows[k].n = nd.n THEN CHOOSE k \in 1..Len(rows) : rows[k].n = nd.n /\ \A j \in 1..(k - 1) : rows[j].n # nd.n
                ELSE Len(rows) + 1
  IN SortSeq(shown, LAMBDA x, y : at(x) < at(y))
PrintWhy(cs, s, st) ==
  IF ~s.vp[1] THEN Clause("a table without a valid profile", st.tables = <<>>)
  ELSE LET r == Result(cs, s.given) nds == Counted(cs, s.vp[2]) IN
       Clause("no table", st.tables # <<>>) \cup
       UNION {LET shown == Counted([nodes |-> nds], Ran(st.hide)) tb == st.tables[k]
              IN TableWhy(tb, nds, IF st.anyorder THEN Arranged(shown, tb.rows) ELSE shown, r.env, st.factor) : k \in 1..Len(st.tables)}
ProfileStep(cs, s, st) ==
  IF s.vs = "no" \/ (s.vs = "any" /\ st.tables = <<>>)
  THEN [s |-> AfterProfile(s, FALSE, {}), why |-> Clause("profiled without valid shapes", st.tables = <<>>)]
  ELSE LET t == AfterProfile(s, TRUE, Ran(st.excl)) IN [s |-> t, why |-> Clause("raised " \o st.err, st.ok) \cup PrintWhy(cs, t, st)]
PrintStep(cs, s, st) == [s |-> s, why |-> Clause("raised " \o st.err, st.ok) \cup PrintWhy(cs, s, st)]

TensorsOf(cs) == (Used(cs) \cup UNION {Ran(cs.nodes[k].o) : k \in 1..Len(cs.nodes)}) \ {""}
StepOf(cs, s, st) == CASE st.call = "shape" -> ShapeStep(cs, s, st) [] st.call = "value" -> ValueStep(cs, s, st)
                       [] st.call = "profile" -> ProfileStep(cs, s, st) [] st.call = "print" -> PrintStep(cs, s, st)
                       [] st.call = "dump" -> [s |-> AfterDump(s, st.names, TensorsOf(cs)), why |-> Clause("raised " \o st.err, st.ok)]
RECURSIVE Walk(_, _, _, _)
Walk(cs, s, k, acc) == IF k > Len(cs.steps) \/ acc # {} THEN acc
                       ELSE LET x == StepOf(cs, s, cs.steps[k]) IN Walk(cs, x.s, k + 1, Tag(k, cs.steps[k], x.why))
Why(cs) == Walk(cs, Fresh(Given0(cs), cs.outputs), 1, {})
Init == c = 1 /\ bad = <<>>
Step == /\ c <= Len(Cases)
        /\ LET w == Why(Cases[c]) IN bad' = (IF w = {} THEN bad ELSE Append(bad, [i |-> c, why |-> SetSeq(w)]))
        /\ c' = c + 1
Report == c = Len(Cases) + 1 /\ ndJsonSerialize(IOEnv.OUT, bad) /\ c' = c + 1 /\ UNCHANGED bad
Next == Step \/ Report
Spec == Init /\ [][Next]_<<c, bad>>
=============================================================================
