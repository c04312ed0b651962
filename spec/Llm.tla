-------------------------------- MODULE Llm --------------------------------
(* Language models built from a description: the graph an architecture stands
   for, its cost, its cache and the roofline latency on a device.

   A description c: [arch, mt (model type), H, heads, kvh, hd (0: H / heads), I, V, L, act, npos, maxpos,
   rot (0: the head size), cap (final softcapping), mlpb, attb (-1: the architecture's own bias setting, else 0/1),
   lin <<BOOLEAN per layer>>, nq, nv, dqk, dv, ck (linear attention), E, k, mI, sI (experts), qr, or, og, rd, win, cr,
   inh, idh, itk (latent attention), user (an architecture described by the user), vis (vision encoder)].
   A graph is a sequence of nodes [op, ins, sh, macs, io, st, kv]: what each computes on, its output's shape,
   multiply-accumulates, activation elements, weight elements read, cache elements read.  An input is a
   reference [t, n, k, s]: a graph input n, the k-th node, or a weight of shape s (named n where a weight map
   names it).  Integers are the costs in the units of the published tables.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Times(_), SumTo(_, _)
Times(s) == IF s = <<>> THEN 1 ELSE Head(s) * Times(Tail(s))
Vol(s) == IF s = <<>> THEN 0 ELSE Times(s)
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
Sum(f) == SumTo(f, Len(f))
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
ADD == 1  MUL == 1  CMP == 1  DIV == 4  EXP == 32  SINM == 39  COSM == 39  TANH == 38  SQRT == 24
LOCAL Digits == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
ToStr(i) == IF i < 10 THEN Digits[i + 1] ELSE Digits[(i \div 10) + 1] \o Digits[(i % 10) + 1]
(* ---- architectures ---- *)
Base == [gate |-> TRUE, nb |-> FALSE, fq |-> FALSE, qb |-> FALSE, ob |-> FALSE, mb |-> FALSE, lb |-> FALSE, pm |-> FALSE, pa |-> FALSE,
         qn |-> FALSE, qg |-> FALSE, moe |-> FALSE, mla |-> FALSE, nsg |-> FALSE, nse |-> FALSE, rope |-> TRUE, pos |-> FALSE]
Arch(a) ==
  CASE a = "Qwen2ForCausalLM" -> [Base EXCEPT !.qb = TRUE]
    [] a = "Qwen3ForCausalLM" -> [Base EXCEPT !.qb = TRUE, !.qn = TRUE]
    [] a = "Qwen3_5ForConditionalGeneration" -> [Base EXCEPT !.qn = TRUE, !.qg = TRUE]
    [] a = "Qwen3_5MoeForCausalLM" -> [Base EXCEPT !.qn = TRUE, !.qg = TRUE, !.moe = TRUE]
    [] a = "DeepSeekV4ForCausalLM" -> [Base EXCEPT !.moe = TRUE, !.mla = TRUE, !.nsg = TRUE]
    [] a = "MiniMaxM2ForCausalLM" -> [Base EXCEPT !.qn = TRUE, !.moe = TRUE, !.nse = TRUE]
    [] a \in {"Phi3ForCausalLM", "Phi3SmallForCausalLM"} -> [Base EXCEPT !.gate = FALSE, !.fq = TRUE]
    [] a = "PhiForCausalLM" -> [Base EXCEPT !.gate = FALSE, !.nb = TRUE, !.qb = TRUE, !.ob = TRUE, !.lb = TRUE]
    [] a = "GPTJForCausalLM" -> [Base EXCEPT !.gate = FALSE, !.nb = TRUE]
    [] a = "GPT2LMHeadModel" -> [Base EXCEPT !.gate = FALSE, !.nb = TRUE, !.fq = TRUE, !.qb = TRUE, !.ob = TRUE, !.mb = TRUE, !.rope = FALSE, !.pos = TRUE]
    [] a = "UserForCausalLM" -> [Base EXCEPT !.pm = TRUE, !.pa = TRUE]
    [] OTHER -> Base
Flags(c) == LET f == Arch(c.arch) IN
  [f EXCEPT !.mb = IF c.mlpb = -1 THEN @ ELSE c.mlpb = 1, !.qb = IF c.attb = -1 THEN @ ELSE c.attb = 1, !.ob = IF c.attb = -1 THEN @ ELSE c.attb = 1]
HeadSize(c) == IF c.hd = 0 THEN c.H \div c.heads ELSE c.hd
KvSize(c) == IF Flags(c).mla THEN HeadSize(c) ELSE HeadSize(c) * c.kvh
(* ---- graph construction: operations on a sequence of nodes ---- *)
In(n, s) == [t |-> "i", n |-> n, k |-> 0, s |-> s]
W(n, s) == [t |-> "w", n |-> n, k |-> 0, s |-> s]
Last(g) == [t |-> "n", n |-> "", k |-> Len(g), s |-> g[Len(g)].sh]
Weights(nd) == SelectSeq(nd.ins, LAMBDA r : r.t = "w")
Held(nd) == LET w == Weights(nd) IN Sum([j \in 1..Len(w) |-> Vol(w[j].s)])   \* parameters of a node
Add(g, op, ins, sh, macs) ==
  LET nd == [op |-> op, ins |-> ins, sh |-> sh, macs |-> macs, io |-> Vol(sh), st |-> 0, kv |-> 0] IN Append(g, [nd EXCEPT !.st = Held(nd)])
AddX(g, op, ins, sh, macs, io, st, kv) == Append(g, [op |-> op, ins |-> ins, sh |-> sh, macs |-> macs, io |-> io, st |-> st, kv |-> kv])
Wt(n) == IF n = "" THEN "" ELSE n \o ".weight"
Bs(n) == IF n = "" THEN "" ELSE n \o ".bias"
Mm(g, x, fout, bias, n) ==
  LET fin == x.s[Len(x.s)] sh == [x.s EXCEPT ![Len(x.s)] = fout]
  IN Add(g, "MatMul", <<x, W(Wt(n), <<fin, fout>>)>> \o (IF bias THEN <<W(Bs(n), <<fout>>)>> ELSE <<>>), sh, Vol(sh) * fin + (IF bias THEN Vol(sh) * ADD ELSE 0))
NormMacs(s) == Vol(s) * (3 * MUL + 4 * ADD) + Vol([s EXCEPT ![Len(s)] = 1]) * (ADD + SQRT + DIV)
Norm(g, x, width, bias, n) ==
  Add(g, "LayerNormalization", <<x, W(Wt(n), <<width>>)>> \o (IF bias THEN <<W(Bs(n), <<width>>)>> ELSE <<>>), x.s, NormMacs(x.s))
ActOp(a) == CASE a = "silu" -> "Silu" [] a = "gelu_new" -> "Gelu" [] a = "gegelu" -> "GeGelu"
Act(g, x, a) ==
  LET sh == IF a = "gegelu" THEN [x.s EXCEPT ![Len(x.s)] = @ \div 2] ELSE x.s
  IN Add(g, ActOp(a), <<x>>, sh, Vol(sh) * (IF a = "silu" THEN EXP + MUL ELSE EXP + MUL * 2))
Elt(g, op, x, y) == Add(g, op, <<x, y>>, x.s, Vol(x.s))
Slice(g, x, size) == Add(g, "Slice", <<x>> \o [j \in 1..4 |-> W("", <<1>>)], [x.s EXCEPT ![Len(x.s)] = size], 0)
Rope(g, x, c) ==
  LET half == (IF c.rot = 0 THEN HeadSize(c) ELSE c.rot) \div 2
      tab == W("", <<1, 1, c.maxpos, half>>)
  IN AddX(g, "Rope", <<x, tab, tab, In("position", <<>>)>>, x.s, Vol(x.s) * (COSM + SINM + 2 * MUL), Vol(x.s), 2 * Min(c.maxpos, x.s[2]) * half, 0)
Embed(g, n, rows, c, id, B, S) ==
  AddX(g, "Gather", <<W(Wt(n), <<rows, c.H>>), In(id, <<>>)>>, <<B, S, c.H>>, 0, B * S * c.H, B * S * c.H, 0)
(* attention over past + S positions; past = -1: there is no cache *)
Sdpa(g, q, k, v, heads, kvh, hs, past) ==
  LET B == q.s[1] S == q.s[2] all == S + Max(past, 0)
  IN AddX(g, "SDPA", <<q, k, v>> \o (IF past >= 0 THEN <<In("n_past", <<>>), In("kv_cache", <<>>)>> ELSE <<>>), <<B, S, heads * hs>>,
          B * heads * S * all * (2 * hs + EXP + DIV), B * S * heads * hs, 0, 2 * B * kvh * all * hs)
(* ---- a layer: p is its prefix, m the weight map ---- *)
Mlp(g, x, c, p, m) ==
  LET b == Flags(c).mb IN
  IF c.mt \in {"phi3", "phi3small"} THEN
    LET g1 == Mm(g, x, 2 * c.I, b, p \o m.gate_up) g2 == Act(g1, Last(g1), "gegelu") IN Mm(g2, Last(g2), c.H, b, p \o m.down)
  ELSE LET g1 == Mm(g, x, c.I, b, p \o m.up) IN
       IF Flags(c).gate THEN LET g2 == Mm(g1, x, c.I, b, p \o m.gate) g3 == Act(g2, Last(g2), c.act) g4 == Elt(g3, "Mul", Last(g1), Last(g3))
                             IN Mm(g4, Last(g4), c.H, b, p \o m.down)
       ELSE LET g2 == Act(g1, Last(g1), c.act) IN Mm(g2, Last(g2), c.H, b, p \o m.down)
SwiGlu(n, H, I) == n * (3 * H * I + I * (EXP + MUL) + I * MUL)         \* n tokens through gate, up, activation, product, down
Moe(g, x, c) ==
  LET f == Flags(c) T == x.s[1] * x.s[2]
      ex == <<W("", <<c.H, c.E>>), W("", <<c.E, c.mI, c.H>>), W("", <<c.E, c.mI, c.H>>), W("", <<c.E, c.H, c.mI>>)>>
      sh == IF f.nse THEN <<>> ELSE <<W("", <<c.sI, c.H>>), W("", <<c.sI, c.H>>), W("", <<c.H, c.sI>>)>>
      gt == IF f.nse \/ f.nsg THEN <<>> ELSE <<W("", <<c.H>>)>>
  IN AddX(g, "MoE", <<x>> \o ex \o sh \o gt, x.s,
          T * c.H * c.E + SwiGlu(T * c.k, c.H, c.mI) + (IF f.nse THEN 0 ELSE SwiGlu(T, c.H, c.sI)) + (IF gt = <<>> THEN 0 ELSE T * c.H * (EXP + MUL)) + T * c.H * ADD,
          2 * T * c.H, c.H * c.E + Min(T * c.k, c.E) * 3 * c.mI * c.H + (IF f.nse THEN 0 ELSE 3 * c.sI * c.H) + Vol(IF gt = <<>> THEN <<>> ELSE gt[1].s), 0)
RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)
Rms == MUL * 2 + ADD * 2 + SQRT + DIV                                   \* per element, as the published latent attention cost has it
Turn == COSM + SINM + MUL * 2
Mla(g, x, c) ==
  LET B == x.s[1] S == x.s[2] T == B * S N == c.heads D == HeadSize(c)
      ct == S \div c.cr
      kvlen == IF c.cr = 0 THEN S ELSE Min(c.win, S) + ct + Min(c.itk, ct)
      ws == <<W("", <<c.qr, c.H>>), W("", <<c.qr>>), W("", <<N * D, c.qr>>), W("", <<D, c.H>>), W("", <<D>>),
              W("", <<c.og * c.or, (N * D) \div c.og>>), W("", <<c.H, c.og * c.or>>)>>
      low == T * c.H * c.qr + T * c.qr * Rms + T * c.qr * N * D + T * N * D * (MUL * 2 + ADD + SQRT + DIV) + T * c.H * D + T * D * Rms
      comp == IF c.cr = 0 THEN 0 ELSE T * c.H * D + B * ct * c.cr * D * (EXP + DIV + MUL + ADD) + B * ct * D * Rms + B * ct * c.rd * Turn
      idx == IF c.cr # 4 THEN 0 ELSE 2 * T * c.H * c.idh + B * ct * c.cr * c.idh * (EXP + DIV + MUL + ADD) + B * ct * c.idh * Rms + B * ct * c.rd * Turn
               + T * c.qr * c.inh * c.idh + T * c.inh * c.rd * Turn + T * c.inh * c.idh * ct + T * c.inh * ct * (CMP + MUL) + T * c.H * c.inh
               + (IF ct > 1 THEN T * ct * Log2(ct) * CMP ELSE 0)
      att == T * N * c.rd * Turn + T * c.rd * Turn + T * N * kvlen * (2 * D + EXP + DIV)
      out == T * c.og * ((N * D) \div c.og) * c.or + T * c.og * c.or * c.H
  IN AddX(g, "MLA", <<x>> \o ws, x.s, low + comp + idx + att + out, 2 * T * c.H,
          c.H * c.qr + c.qr + c.qr * N * D + c.H * D + D + c.og * c.or * ((N * D) \div c.og) + c.H * c.og * c.or, 0)
Linear(g, x, c, p, m) ==
  LET f == Flags(c) B == x.s[1] S == x.s[2]
      g1 == Mm(g, x, c.nq * c.dqk, f.qb, p \o m.q) g2 == Mm(g1, x, c.nq * c.dqk, f.qb, p \o m.k) g3 == Mm(g2, x, c.nv * c.dv, f.qb, p \o m.v)
      g4 == Norm(g3, Last(g1), c.dqk, FALSE, p \o "self_attn.q_norm") g5 == Norm(g4, Last(g2), c.dqk, FALSE, p \o "self_attn.k_norm")
      ow == <<W(Wt(p \o m.o), <<c.nv * c.dv, c.H>>)>> \o (IF f.ob THEN <<W(Bs(p \o m.o), <<c.H>>)>> ELSE <<>>)
  IN AddX(g5, "GDN", <<Last(g4), Last(g5), Last(g3)>> \o ow, <<B, S, c.H>>,
          2 * B * S * c.nq * c.dqk * c.ck + B * S * S * (c.nq * c.dqk + c.nv * c.dv) + B * S * c.H * (EXP + MUL)
            + B * S * c.nv * c.dv * c.H + (IF f.ob THEN B * S * c.H * ADD ELSE 0),
          2 * B * S * c.H, c.nv * c.dv * c.H + (IF f.ob THEN c.H ELSE 0), 0)
Attention(g, x, c, p, m, past) ==
  LET f == Flags(c) hs == HeadSize(c) qo == c.heads * hs ko == c.kvh * hs
      fused == Mm(g, x, qo + 2 * ko, f.qb, p \o m.qkv)
      s1 == Slice(fused, Last(fused), qo) s2 == Slice(s1, Last(fused), ko) s3 == Slice(s2, Last(fused), ko)
      a1 == Mm(g, x, IF f.qg THEN 2 * qo ELSE qo, f.qb, p \o m.q) a2 == Mm(a1, x, ko, f.qb, p \o m.k) a3 == Mm(a2, x, ko, f.qb, p \o m.v)
      b1 == Slice(a3, Last(a1), qo) b2 == Slice(b1, Last(a1), qo)
      split == f.fq /\ ~f.qg
      h0 == IF split THEN s3 ELSE IF f.qg THEN b2 ELSE a3
      q0 == IF split THEN Last(s1) ELSE IF f.qg THEN Last(b1) ELSE Last(a1)
      k0 == IF split THEN Last(s2) ELSE Last(a2)
      v0 == IF split THEN Last(s3) ELSE Last(a3)
      n1 == Norm(h0, q0, hs, FALSE, p \o "self_attn.q_norm") n2 == Norm(n1, k0, hs, FALSE, p \o "self_attn.k_norm")
      h1 == IF f.qn THEN n2 ELSE h0
      q1 == IF f.qn THEN Last(n1) ELSE q0
      k1 == IF f.qn THEN Last(n2) ELSE k0
      r1 == Rope(h1, q1, c) r2 == Rope(r1, k1, c)
      h2 == IF f.rope THEN r2 ELSE h1
      h3 == Sdpa(h2, IF f.rope THEN Last(r1) ELSE q1, IF f.rope THEN Last(r2) ELSE k1, v0, c.heads, c.kvh, hs, past)
      t1 == Act(h3, Last(b2), "silu") t2 == Elt(t1, "Mul", Last(h3), Last(t1))
      h4 == IF f.qg THEN t2 ELSE h3
  IN Mm(h4, Last(h4), c.H, f.ob, p \o m.o)
Layer(g, x, c, p, m, lin, past) ==
  LET f == Flags(c)
      g1 == Norm(g, x, c.H, f.nb, p \o m.attn_in)
      g2 == IF lin THEN Linear(g1, Last(g1), c, p, m) ELSE IF f.mla THEN Mla(g1, Last(g1), c) ELSE Attention(g1, Last(g1), c, p, m, past)
      g3 == IF f.pa THEN Norm(g2, Last(g2), c.H, f.nb, p \o m.attn_out) ELSE g2
      g4 == Elt(g3, "Add", x, Last(g3))
      g5 == Norm(g4, Last(g4), c.H, f.nb, p \o m.mlp_in)
      g6 == IF f.moe THEN Moe(g5, Last(g5), c) ELSE Mlp(g5, Last(g5), c, p, m)
      g7 == IF f.pm THEN Norm(g6, Last(g6), c.H, f.nb, p \o m.mlp_out) ELSE g6
  IN Elt(g7, "Add", Last(g4), Last(g7))
RECURSIVE Layers(_, _, _, _, _, _)
Layers(g, x, c, m, past, i) ==
  IF i = c.L THEN g
  ELSE LET h == Layer(g, x, c, m.prefix \o ToStr(i) \o ".", m, i < Len(c.lin) /\ c.lin[i + 1], past) IN Layers(TLCEval(h), Last(h), c, m, past, i + 1)
(* the weight map a model is built with when none is given *)
HubMap == [embed |-> "model.embed_tokens", pos |-> "model.embed_positions", prefix |-> "model.layers.", attn_in |-> "input_layernorm", qkv |-> "self_attn.qkv_proj",
           q |-> "self_attn.q_proj", k |-> "self_attn.k_proj", v |-> "self_attn.v_proj", o |-> "self_attn.o_proj", attn_out |-> "post_attention_layernorm",
           mlp_in |-> "post_attention_layernorm", gate |-> "mlp.gate_proj", up |-> "mlp.up_proj", down |-> "mlp.down_proj", gate_up |-> "mlp.gate_up_proj",
           mlp_out |-> "post_feedforward_layernorm", norm |-> "model.norm", lm |-> "lm_head"]
Start(c, m, B, S) ==
  LET g0 == Embed(<<>>, m.embed, c.V, c, "ids", B, S) g1 == Embed(g0, m.pos, c.npos, c, "position", B, S)
  IN IF Flags(c).pos THEN Elt(g1, "Add", Last(g1), Last(g0)) ELSE g0
Head0(g, c, m) ==
  LET f == Flags(c) g1 == Norm(g, Last(g), c.H, f.nb, m.norm) g2 == Mm(g1, Last(g1), c.V, f.lb, m.lm)
  IN IF c.cap THEN Add(g2, "LogitSoftCapping", <<Last(g2), W("", <<>>)>>, Last(g2).s, Vol(Last(g2).s) * (TANH + MUL + DIV)) ELSE g2
Text(c, m, B, S, past) ==
  LET g == TLCEval(Start(c, m, B, S)) h == TLCEval(Layers(g, Last(g), c, m, past, 0)) IN TLCEval(Head0(h, c, m))
(* the vision encoder v: [C, h, w, vh, vl, vn, vi, vp, vd, ph, mlp]: patches, blocks, projector to the language model's width *)
VBlock(g, x, v) ==
  LET a == v.vn * v.vd
      g1 == Norm(g, x, v.vh, TRUE, "") g2 == Mm(g1, Last(g1), 3 * a, TRUE, "") qkv == Last(g2)
      s1 == Slice(g2, qkv, a) s2 == Slice(s1, qkv, a) s3 == Slice(s2, qkv, a)
      g3 == Sdpa(s3, Last(s1), Last(s2), Last(s3), v.vn, v.vn, v.vd, -1) g4 == Mm(g3, Last(g3), v.vh, TRUE, "")
      g5 == Elt(g4, "Add", x, Last(g4)) r == Last(g5)
      g6 == Norm(g5, r, v.vh, TRUE, "") g7 == Mm(g6, Last(g6), v.vi, TRUE, "") g8 == Act(g7, Last(g7), "gelu_new") g9 == Mm(g8, Last(g8), v.vh, TRUE, "")
  IN TLCEval(Elt(g9, "Add", r, Last(g9)))
RECURSIVE VBlocks(_, _, _)
VBlocks(g, v, i) == IF i = v.vl THEN g ELSE VBlocks(VBlock(g, Last(g), v), v, i + 1)
Vision(c, v) ==
  LET hp == v.h \div v.vp wp == v.w \div v.vp P == hp * wp o == <<1, v.vh, hp, wp>>
      g1 == Add(<<>>, "Conv", <<In("pixel_values", <<>>), W("", <<v.vh, v.C, v.vp, v.vp>>)>>, o, Vol(o) * v.C * v.vp * v.vp)
      g2 == Add(g1, "Reshape", <<Last(g1), W("", <<3>>)>>, <<1, P, v.vh>>, 0)
      g3 == Elt(g2, "Add", Last(g2), W("", <<1, P, v.vh>>)) g4 == [g3 EXCEPT ![3].st = Held(g3[3])]
      h == VBlocks(TLCEval(g4), v, 0)
      n == Norm(h, Last(h), v.vh, TRUE, "")
      p1 == Mm(n, Last(n), v.ph, TRUE, "") p2 == Act(p1, Last(p1), "gelu_new")
  IN IF v.mlp THEN Mm(p2, Last(p2), c.H, TRUE, "") ELSE Mm(n, Last(n), c.H, TRUE, "")
(* ---- totals ---- *)
Macs(g) == Sum([k \in 1..Len(g) |-> g[k].macs])
Params(g) == Sum([k \in 1..Len(g) |-> Held(g[k])])                      \* each use of a weight
Ropes(g) == {k \in 1..Len(g) : g[k].op = "Rope"}
Tables(g) == LET k == CHOOSE k \in Ropes(g) : TRUE IN 2 * Vol(g[k].ins[2].s)
Distinct(g) == Params(g) - (IF Ropes(g) = {} THEN 0 ELSE (Cardinality(Ropes(g)) - 1) * Tables(g))   \* only the position tables are shared
Learned(g) == Sum([k \in 1..Len(g) |-> IF g[k].op \in {"Rope", "Slice", "Reshape", "LogitSoftCapping"} THEN 0 ELSE Held(g[k])])
KvParams(c, B, S, past) == 2 * B * (S + Max(past, 0)) * KvSize(c) * c.L
CacheShape(c, B, ctx) == <<B, 2 * c.L, ctx, KvSize(c)>>
(* ---- roofline: times in units of 1/512 of a giga-operation's, memory in 1/16 bytes ----
   dev: [fp32, fp16, int8 (0: not given), bw, link, num], cfg: [mm, mha, oth (which rate), bm, bh, bo (twice the bits)] *)
Class(op) == IF op \in {"MatMul", "MoE", "MLA", "GDN"} THEN "MM" ELSE IF op = "SDPA" THEN "MHA" ELSE "Others"
Rate(dev, which) == IF which = "FP16" /\ dev.fp16 > 0 THEN dev.fp16 ELSE IF which = "INT8" /\ dev.int8 > 0 THEN dev.int8 ELSE dev.fp32
Devs(dev) == IF dev.link = 0 THEN 1 ELSE dev.num
WMem(nd, cfg) == IF Class(nd.op) = "MM" \/ nd.op = "Gather" THEN nd.st * cfg.bm ELSE IF nd.op = "SDPA" THEN nd.kv * cfg.bh ELSE nd.st * cfg.bo
Mem(nd, cfg) == nd.io * cfg.bo + WMem(nd, cfg)
Par(nd, dev) == IF Class(nd.op) = "Others" THEN 1 ELSE Devs(dev)        \* split over the devices
CLat(nd, dev, cfg) == LET cl == Class(nd.op) IN (2 * nd.macs * 512) \div (Rate(dev, IF cl = "MM" THEN cfg.mm ELSE IF cl = "MHA" THEN cfg.mha ELSE cfg.oth) * Par(nd, dev))
MLat(nd, dev, cfg) == (Mem(nd, cfg) * 32) \div (dev.bw * Par(nd, dev))
Sync(nd, dev, cfg) == IF Devs(dev) > 1 /\ Class(nd.op) # "Others" THEN (nd.io * cfg.bo * 32) \div dev.link ELSE 0
Lat(nd, dev, cfg) == Max(CLat(nd, dev, cfg), MLat(nd, dev, cfg)) + Sync(nd, dev, cfg)
Latency(g, dev, cfg) == Sum([k \in 1..Len(g) |-> Lat(g[k], dev, cfg)])
MemOf(g, cfg, what) ==                                                  \* resident memory: weights read by matrix products, cache, other weights
  Sum([k \in 1..Len(g) |-> LET w == IF Class(g[k].op) = "MM" \/ g[k].op = "Gather" THEN "MM" ELSE Class(g[k].op) IN IF w = what THEN WMem(g[k], cfg) ELSE 0])
(* ---- conformance: a recorded graph is this one up to the order independent nodes are stored in, and names ---- *)
RefIs(e, a, m) == /\ e.t = a.t
                  /\ e.t = "i" => e.n = a.n
                  /\ e.t = "n" => a.k \in 1..Len(m) /\ m[a.k] = e.k
                  /\ e.t = "w" => e.s = a.s /\ (e.n = "" \/ e.n = a.n)
InsAre(e, a, m) == Len(e.ins) = Len(a.ins) /\ ( (\A j \in 1..Len(e.ins) : RefIs(e.ins[j], a.ins[j], m))
                                              \/ (e.op \in {"Add", "Mul"} /\ Len(e.ins) = 2 /\ RefIs(e.ins[1], a.ins[2], m) /\ RefIs(e.ins[2], a.ins[1], m)))
RECURSIVE Match(_, _, _)
Match(E, A, m) ==                                                       \* the node of E each node of A is, until one is none
  IF Len(m) = Len(A) THEN m
  ELSE LET a == A[Len(m) + 1] used == {m[j] : j \in 1..Len(m)}
           fit == {e \in 1..Len(E) : e \notin used /\ E[e].op = a.op /\ InsAre(E[e], a, m)}
       IN IF fit = {} THEN m ELSE Match(E, A, Append(m, CHOOSE e \in fit : \A f \in fit : e <= f))
=============================================================================
