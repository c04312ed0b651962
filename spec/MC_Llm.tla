------------------------------- MODULE MC_Llm -------------------------------
(* Design check of model building and the roofline: a description is built one
   layer at a time, then run: a prompt, tokens appended to the cache, on devices
   of different speed.                                                         *)
EXTENDS Llm
CONSTANTS MaxL, MaxT, Archs
VARIABLES c, g, i, S, past, dev, lat, phase
vars == <<c, g, i, S, past, dev, lat, phase>>
Cfg == [mm |-> "FP16", mha |-> "FP16", oth |-> "FP32", bm |-> 9, bh |-> 32, bo |-> 64]
Base0 == [arch |-> "", mt |-> "", H |-> 4, heads |-> 2, kvh |-> 1, hd |-> 0, I |-> 6, V |-> 5, L |-> 0, act |-> "silu", npos |-> 7, maxpos |-> 8, rot |-> 0, cap |-> FALSE,
          mlpb |-> -1, attb |-> -1, lin |-> <<>>, nq |-> 1, nv |-> 2, dqk |-> 2, dv |-> 3, ck |-> 2, E |-> 3, k |-> 2, mI |-> 3, sI |-> 2,
          qr |-> 2, or |-> 2, og |-> 2, rd |-> 2, win |-> 2, cr |-> 0, inh |-> 1, idh |-> 2, itk |-> 2]
Init == /\ \E a \in Archs : \E l \in 1..MaxL : \E ab \in {-1, 0, 1} : \E hd \in {0, 6} : \E ln \in {<<>>, <<TRUE>>} : \E cr \in {0, 1, 4} :
              /\ a # "Qwen3_5ForConditionalGeneration" => ln = <<>>
              /\ a # "DeepSeekV4ForCausalLM" => cr = 0
              /\ c = [Base0 EXCEPT !.arch = a, !.L = l, !.attb = ab, !.hd = hd, !.lin = ln, !.cr = cr, !.mlpb = ab, !.mt = IF a = "Phi3ForCausalLM" THEN "phi3" ELSE "x"]
        /\ S \in {1, 2} /\ past \in {-1, 0}
        /\ g = Start(c, HubMap, 1, S) /\ i = 0 /\ phase = "build" /\ lat = 0
        /\ dev = [fp32 |-> 1, fp16 |-> 0, int8 |-> 0, bw |-> 1, link |-> 0, num |-> 1]
BuildLayer == /\ phase = "build" /\ i < c.L /\ i' = i + 1
              /\ g' = Layer(g, Last(g), c, HubMap.prefix \o ToStr(i) \o ".", HubMap, i < Len(c.lin) /\ c.lin[i + 1], past)
              /\ UNCHANGED <<c, S, past, dev, lat, phase>>
BuildHead == /\ phase = "build" /\ i = c.L /\ g' = Head0(g, c, HubMap) /\ phase' = "run" /\ lat' = Latency(g', dev, Cfg)
             /\ UNCHANGED <<c, i, S, past, dev>>
Prompt == /\ phase = "run" /\ S < MaxT /\ S' = S + 1 /\ g' = Text(c, HubMap, 1, S', past) /\ lat' = Latency(g', dev, Cfg) /\ UNCHANGED <<c, i, past, dev, phase>>
Token == /\ phase = "run" /\ past >= 0 /\ past + S < MaxT /\ past' = past + S /\ g' = Text(c, HubMap, 1, S, past') /\ lat' = Latency(g', dev, Cfg)
         /\ UNCHANGED <<c, i, S, dev, phase>>
Faster == /\ phase = "run" /\ \/ dev.fp32 < 2 /\ dev' = [dev EXCEPT !.fp32 = 2 * @]
                              \/ dev.fp16 = 0 /\ dev' = [dev EXCEPT !.fp16 = 4]
                              \/ dev.bw < 2 /\ dev' = [dev EXCEPT !.bw = 2 * @]
          /\ lat' = Latency(g, dev', Cfg) /\ UNCHANGED <<c, g, i, S, past, phase>>
Next == BuildLayer \/ BuildHead \/ Prompt \/ Token \/ Faster
Spec == Init /\ [][Next]_vars
(* a node uses graph inputs, weights and nodes built before it *)
Ordered == \A k \in 1..Len(g) : \A j \in 1..Len(g[k].ins) : g[k].ins[j].t = "n" => g[k].ins[j].k < k
Used == phase = "run" => \A k \in 1..Len(g) - 1 : \E x \in k + 1..Len(g) : \E j \in 1..Len(g[x].ins) : g[x].ins[j].t = "n" /\ g[x].ins[j].k = k
(* names of weights never repeat *)
NamesOf(k) == {g[k].ins[j].n : j \in {j \in 1..Len(g[k].ins) : g[k].ins[j].t = "w" /\ g[k].ins[j].n # ""}}
Unique == c.arch # "UserForCausalLM" => \A a \in 1..Len(g) : \A b \in 1..a - 1 : NamesOf(a) \cap NamesOf(b) = {}
(* the closed form of each architecture's parameters *)
Bias(b, n) == IF b THEN n ELSE 0
Closed ==
  LET f == Flags(c) hs == HeadSize(c) qo == c.heads * hs ko == c.kvh * hs H == c.H
      nrm == H + Bias(f.nb, H)
      att == H * (IF f.qg THEN 2 * qo ELSE qo) + Bias(f.qb, IF f.qg THEN 2 * qo ELSE qo) + 2 * (H * ko + Bias(f.qb, ko)) + qo * H + Bias(f.ob, H) + Bias(f.qn, 2 * hs)
      lnr == 2 * (H * c.nq * c.dqk + Bias(f.qb, c.nq * c.dqk)) + H * c.nv * c.dv + Bias(f.qb, c.nv * c.dv) + 2 * c.dqk + c.nv * c.dv * H + Bias(f.ob, H)
      lat0 == H * c.qr + c.qr + c.qr * qo + H * hs + hs + c.or * qo + H * c.og * c.or
      mlp == IF c.mt = "phi3" THEN 3 * H * c.I + Bias(f.mb, 2 * c.I + H)
             ELSE (IF f.gate THEN 3 ELSE 2) * H * c.I + Bias(f.mb, (IF f.gate THEN 2 ELSE 1) * c.I + H)
      moe == H * c.E + 3 * c.E * c.mI * H + (IF f.nse THEN 0 ELSE 3 * c.sI * H) + Bias(~f.nse /\ ~f.nsg, H)
      nl == Cardinality({j \in 1..Len(c.lin) : c.lin[j] /\ j <= c.L})
  IN c.V * H + Bias(f.pos, c.npos * H) + c.L * ((2 + (IF f.pa THEN 1 ELSE 0) + (IF f.pm THEN 1 ELSE 0)) * nrm + (IF f.moe THEN moe ELSE mlp))
     + nl * lnr + (c.L - nl) * (IF f.mla THEN lat0 ELSE att) + nrm + H * c.V + Bias(f.lb, c.V)
ParamsClosed == phase = "run" => Learned(g) = Closed
(* MACs of the matrix products are tokens times their parameters; linear in the batch *)
Linear1 == phase = "run" => \A k \in 1..Len(g) : g[k].op = "MatMul" => g[k].macs = S * Held(g[k])
BatchLinear == phase = "run" => Macs(Text(c, HubMap, 2, S, past)) = 2 * Macs(g)
ReadsHeld == phase = "run" => \A k \in 1..Len(g) : g[k].op # "Gather" => g[k].st <= Held(g[k])
CacheRead == phase = "run" /\ ~Flags(c).mla => Sum([k \in 1..Len(g) |-> g[k].kv]) <= KvParams(c, 1, S, past)
Resident == phase = "run" => MemOf(g, Cfg, "MM") + MemOf(g, Cfg, "MHA") + MemOf(g, Cfg, "Others") = Sum([k \in 1..Len(g) |-> WMem(g[k], Cfg)])
Same(x, y) == x = y                                                    \* the graph is itself: matching finds every node
SelfMatch == phase = "run" => Len(Match(g, g, <<>>)) = Len(g)
(* never faster with more context, never slower on a better device *)
Mono == [][phase = "run" => (IF dev' # dev THEN lat' <= lat ELSE lat' >= lat)]_vars
=============================================================================
