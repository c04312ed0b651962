"""Builds language models from descriptions and records what the real builder produced."""
import copy, csv, os, tempfile
import numpy as np
import vlib
from vlib import call

ot = vlib.import_repo()
from onnx_tool import llm
from onnx_tool.tensor import STATIC_TENSOR

ARCHS = ['LlamaForCausalLM', 'Qwen2ForCausalLM', 'Qwen3ForCausalLM', 'Qwen3_5ForConditionalGeneration', 'Qwen3_5MoeForCausalLM', 'DeepSeekV4ForCausalLM',
         'MiniMaxM2ForCausalLM', 'Phi3ForCausalLM', 'Phi3SmallForCausalLM', 'PhiForCausalLM', 'GPTJForCausalLM', 'GPT2LMHeadModel', 'MistralForCausalLM', 'UserForCausalLM']
llm.ArchMap['UserForCausalLM'] = dict(mlp_gate=True, norm_scale=True, norm_bias=False, fuse_qkv=False, qkv_bias=False, o_bias=False, mlp_bias=False, lm_head_bias=False,
                                      post_mlp_norm=True, post_attn_norm=True)
HUB = dict(embed='model.embed_tokens', pos='model.embed_positions', prefix='model.layers.', attn_in='input_layernorm', qkv='self_attn.qkv_proj', q='self_attn.q_proj',
           k='self_attn.k_proj', v='self_attn.v_proj', o='self_attn.o_proj', attn_out='post_attention_layernorm', mlp_in='post_attention_layernorm', gate='mlp.gate_proj',
           up='mlp.up_proj', down='mlp.down_proj', gate_up='mlp.gate_up_proj', mlp_out='post_feedforward_layernorm', norm='model.norm', lm='lm_head')
OTHER = dict(embed='tok', pos='transformer.wpe', prefix='blk.', attn_in='ln_1', qkv='attn_qkv', q='attn_q', k='attn_k', v='attn_v', o='attn_o', attn_out='ln_a', mlp_in='ln_2',
             gate='ffn_gate', up='ffn_up', down='ffn_down', gate_up='ffn_gu', mlp_out='ln_b', norm='output_norm', lm='output')


def wmap(m):
    return dict(embedding=dict(embed=m['embed'], pos=m['pos']), layer_prefix=m['prefix'],
                attention=dict(input_norm=m['attn_in'], qkv=m['qkv'], q=m['q'], k=m['k'], v=m['v'], o=m['o'], output_norm=m['attn_out']),
                mlp=dict(input_norm=m['mlp_in'], gate=m['gate'], up=m['up'], down=m['down'], gate_up=m['gate_up'], output_norm=m['mlp_out']),
                lm_head=dict(input_norm=m['norm'], lm=m['lm']))


def describe(r, arch=None):
    """A description (the spec's) and the keyword arguments spelling it."""
    a = arch or r.choice(ARCHS)
    heads = r.choice([1, 2, 2, 4, 3])
    hd = r.choice([0, 0, 2, 4, 6])
    kvh = r.choice([k for k in (1, 2, 3, 4) if heads % k == 0])
    H = heads * r.choice([2, 4, 3])
    L = r.choice([1, 2, 2, 3])
    gpt = a in ('GPTJForCausalLM', 'GPT2LMHeadModel')
    c = dict(arch=a, mt=r.choice(['', 'x']), H=H, heads=heads, kvh=heads if gpt else kvh, hd=hd, I=r.choice([3, 6, 8, 16, 5]), V=r.choice([5, 16, 33, 7]), L=L,
             act='silu' if not gpt and a != 'PhiForCausalLM' and r.random() < .8 else 'gelu_new', npos=r.choice([16, 24]), maxpos=r.choice([4, 16, 32]), rot=0, cap=r.random() < .15,
             mlpb=r.choice([-1, -1, 0, 1]), attb=r.choice([-1, -1, 0, 1]), lin=[], nq=1, nv=2, dqk=2, dv=2, ck=4, E=r.choice([2, 3, 5]), k=r.choice([1, 2]), mI=r.choice([2, 4, 5]), sI=2,
             qr=1024, og=8, rd=64, win=128, cr=0, inh=64, idh=128, itk=512)
    c['or'] = 1024
    k = dict(architectures=[a], num_hidden_layers=L, hidden_size=H, num_attention_heads=heads, vocab_size=c['V'], hidden_act=c['act'])
    eps = 'layer_norm_eps' if (gpt or a == 'PhiForCausalLM') else 'rms_norm_eps'
    if a.startswith('Qwen3') or a.startswith('MiniMax'):
        eps = 'rms_norm_eps'
    k[eps if eps != 'layer_norm_eps' or r.random() < .5 else 'layer_norm_epsilon'] = 1e-5
    if a in ('Phi3ForCausalLM', 'Phi3SmallForCausalLM'):
        c['mt'] = r.choice(['phi3', 'phi3small', 'phi3', ''])
    if c['mt'] or r.random() < .5:
        k['model_type'] = c['mt']
    if c['hd']:
        k['head_dim'] = c['hd']
    if heads != c['kvh'] or r.random() < .7:
        k['num_key_value_heads'] = c['kvh']
    if c['maxpos'] or True:
        k['max_position_embeddings'] = c['maxpos']
    size = k['head_dim'] if c['hd'] else H // heads
    if r.random() < .3 and size >= 2:
        c['rot'] = k['rotary_dim'] = 2
    if r.random() < .3:
        k['rope_theta'] = 5000.0
    k[r.choice(['intermediate_size', 'ff_intermediate_size'])] = c['I']
    if a == 'GPT2LMHeadModel':
        if r.random() < .6:
            k['n_positions'] = c['npos']
        else:
            c['npos'] = 1024
        if r.random() < .4:
            k.pop('intermediate_size', 0), k.pop('ff_intermediate_size', 0)
            c['I'] = 4 * H
    if gpt and r.random() < .7:      # the names of the original configuration
        for old, new in (('hidden_size', 'n_embd'), ('num_hidden_layers', 'n_layer'), ('num_attention_heads', 'n_head'), ('hidden_act', 'activation_function')):
            k[new] = k.pop(old)
        k.pop('num_key_value_heads', 0)
        if 'intermediate_size' in k or 'ff_intermediate_size' in k:
            k.pop('intermediate_size', 0), k.pop('ff_intermediate_size', 0)
            if r.random() < .5:
                k['n_inner'], c['I'] = None, 4 * H
            else:
                k['n_inner'] = c['I']
    if c['mlpb'] >= 0:
        k['mlp_bias'] = bool(c['mlpb'])
    if c['attb'] >= 0:
        k['attention_bias'] = bool(c['attb'])
    if c['cap']:
        k['final_logit_softcapping'] = 30.0
    elif r.random() < .2:
        k['final_logit_softcapping'] = None
    if a.startswith('Qwen3_5') and r.random() < .75:
        c['lin'] = [r.random() < .6 for _ in range(r.choice([L, L, L + 1, max(1, L - 1)]))]
        k['layer_types'] = ['linear_attention' if x else 'full_attention' for x in c['lin']]
    if a.startswith('Qwen3_5'):
        for key, name, vals in (('nq', 'linear_num_key_heads', [1, 2]), ('nv', 'linear_num_value_heads', [2, 3]), ('dqk', 'linear_key_head_dim', [2, 3]),
                                ('dv', 'linear_value_head_dim', [2, 5]), ('ck', 'linear_conv_kernel_dim', [2, 4])):
            c[key] = r.choice(vals)
            if r.random() < .12:      # left out: the size of the other attention layers is taken
                c[key] = dict(nq=c['kvh'], nv=2 * c['kvh'], dqk=size, dv=size, ck=4)[key]
            else:
                k[name] = c[key]
    if a in ('Qwen3_5MoeForCausalLM', 'DeepSeekV4ForCausalLM', 'MiniMaxM2ForCausalLM'):
        if r.random() < .93:
            k[r.choice(['num_experts', 'num_local_experts'])] = c['E']
        else:
            c['E'] = 256
        if r.random() < .93:
            k['num_experts_per_tok'] = c['k']
        else:
            c['k'] = 8
        if r.random() < .7:
            k['moe_intermediate_size'] = c['mI']
        else:
            c['mI'] = c['I']
        c['sI'] = c['mI']
        if r.random() < .6:
            c['sI'] = k['shared_expert_intermediate_size'] = r.choice([2, 3, 7])
    if a == 'DeepSeekV4ForCausalLM':
        N = heads * (c['hd'] or H // heads)
        for key, name, vals in (('qr', 'q_lora_rank', [2, 3]), ('or', 'o_lora_rank', [2, 3]), ('og', 'o_groups', [g for g in (1, 2, 4) if N % g == 0]), ('rd', 'rope_head_dim', [1, 2]),
                                ('win', 'window_size', [1, 3, 128]), ('cr', 'compress_ratio', [0, 1, 2, 4, 4]), ('inh', 'index_n_heads', [1, 2]), ('idh', 'index_head_dim', [2, 3]),
                                ('itk', 'index_topk', [1, 2])):
            if r.random() < .06 and (key != 'og' or N % 8 == 0):      # left out: the sizes of the published model
                c[key] = dict(qr=1024, og=8, rd=64, win=128, cr=0, inh=64, idh=128, itk=512).get(key, 1024)
            else:
                c[key] = r.choice(vals)
                k[name] = c[key]
    if r.random() < .4:
        k[r.choice(['name', '_name_or_path'])] = 'org/some model'
    items = list(k.items())
    r.shuffle(items)
    return c, dict(items)


DEVS = [1, 2, 4, 8]
RATES = [1, 4, 8, 16, 32, 64, 128, 128]


def device(r):
    d = dict(fp32=r.choice(RATES), fp16=r.choice([0] + RATES), int8=r.choice([0] + RATES), bw=r.choice(DEVS), link=0, num=1)
    if r.random() < .5:
        d['link'], d['num'] = r.choice([0, 1, 2, 4, 8]), r.choice([1, 2, 4])
    real = dict(FP32=d['fp32'], Bandwidth=d['bw'])
    for a, b in (('fp16', 'FP16'), ('int8', 'INT8')):
        if d[a]:
            real[b] = d[a]
    if d['link'] or r.random() < .3:
        real['LinkBandwidth'] = d['link']
    if d['num'] > 1:
        real['Number'] = d['num']
    cfg = dict(mm=r.choice(['FP32', 'FP16', 'INT8']), mha=r.choice(['FP32', 'FP16', 'INT8']), oth=r.choice(['FP32', 'FP16']),
               bm=r.choice([9, 8, 16, 32, 64]), bh=r.choice([8, 16, 32, 64]), bo=r.choice([16, 32, 64]))
    rcfg = dict(Compute=dict(MM=cfg['mm'], MHA=cfg['mha'], Others=cfg['oth']), Bits=dict(MM=cfg['bm'] / 2, MHA=cfg['bh'] / 2, Others=cfg['bo'] / 2))
    if r.random() < .1:
        cfg, rcfg = dict(mm='FP32', mha='FP32', oth='FP32', bm=9, bh=32, bo=64), None
    return d, real, cfg, rcfg


def whole(x, scale):
    x = float(x) * scale
    n = round(x)
    return n if abs(x - n) <= 1e-6 * max(1, abs(x)) and abs(n) < 2**31 else -1


def refs(g, nd, at):
    out = []
    for i in nd.input:
        if i in at:
            out.append(dict(t='n', n='', k=at[i], s=[]))
        elif i in g.initials and g.tensormap[i].type == STATIC_TENSOR:
            out.append(dict(t='w', n=str(i), k=0, s=[int(x) for x in g.tensormap[i].get_shape()]))
        elif i in g.input and i in g.tensormap:
            out.append(dict(t='i', n=str(i), k=0, s=[]))
        else:
            out.append(dict(t='?', n=str(i), k=0, s=[]))
    return out


def observe(b, g, B, S, past, ctx):
    at, nodes = {}, []
    for n, nd in g.nodemap.items():
        ins = refs(g, nd, at)
        nodes.append(dict(op=nd.op_type, ins=ins, sh=[int(x) for x in g.tensormap[nd.output[0]].get_shape()], macs=vlib.as_int(nd.macs), io=vlib.as_int(nd.io_params),
                          st=vlib.as_int(nd.static_params), kv=vlib.as_int(getattr(nd, 'kv_size', 0)), w=vlib.as_int(nd.params)))
        for o in nd.output:
            at[o] = len(nodes)
    cache = [int(x) for x in g.tensormap['kv_cache'].get_shape()] if past >= 0 else []
    return dict(B=B, S=S, past=past, ctx=ctx, nodes=nodes, macs=vlib.as_int(g.macs[0]), params=vlib.as_int(g.params), dedup=vlib.as_int(g.dedup_params),
                kvp=vlib.as_int(b.kv_params) if b else -1, cache=cache, lats=[]), at


def latency(b, g, r, d):
    dev, real, cfg, rcfg = device(r)
    has = r.random() < .9
    b.profile(rcfg, real if has else None)
    nodes, U = [], 512e9
    for n, nd in g.nodemap.items():
        p = nd.llm_profile
        x = dict(f=whole(p['FLOPs'], 1), m=whole(p['Memory'], 16), l=0, c=0, ml=0, sy=0, b='')
        if p['Device'] is not None:
            t = p['Device']['latency']
            x.update(c=whole(t[0], U), ml=whole(t[1], U), l=whole(t[2], U), sy=whole(t[3], U), b=p['Device']['Bottleneck'])
        nodes.append(x)
    t = b.llm_profile
    total = [whole(t[0], 1), whole(t[1], 16), whole(t[2], U)]
    f = os.path.join(d, 'p.csv')
    b.print_profile(f)
    rows = list(csv.reader(open(f)))
    col = {h: i for i, h in enumerate(rows[0])}
    table, lc = [], col.get('Projected Latency(ms)')
    for row, (n, nd), x in zip(rows[1:-1], g.nodemap.items(), nodes):
        l = 0
        if has:
            ms = nd.llm_profile['Device']['latency'][2] * 1e3
            l = x['l'] if lc is not None and abs(float(row[lc]) - ms) <= 1e-5 and row[lc + 1] == x['b'] else -1
        table.append(dict(op=row[1] if row[0] == n else '?', f=int(row[col['FLOPs']]), m=int(row[col['Memory(bytes)']]), l=l))
    last = rows[-1]
    tl = total[2] if (lc is None and not has) or (lc is not None and abs(float(last[lc]) - t[2] * 1e3) <= 1e-5) else -1
    return dict(dev=dev, cfg=cfg, has=has, nodes=nodes, total=total, ctxm=[whole(x, 16) for x in b.context_mem], rows=table,
                tot=[whole(last[col['FLOPs']], 1), whole(last[col['Memory(bytes)']], 16), tl])


def vision(r):
    vn, vd = r.choice([1, 2]), r.choice([2, 3])
    p = r.choice([1, 2])
    v = dict(C=r.choice([1, 3]), h=p * r.choice([1, 2, 3]) + r.randint(0, p - 1), w=p * r.choice([1, 2]), vh=vn * vd, vl=r.choice([1, 2]), vn=vn, vi=4 * vn * vd, vp=p, vd=vd, ph=0, mlp=True)
    k = dict(vision_hidden_size=v['vh'], vision_num_layers=v['vl'], vision_num_heads=vn, vision_patch_size=p)
    if r.random() < .5:
        v['vi'] = k['vision_intermediate_size'] = 5
    if r.random() < .3:
        v['vd'] = k['vision_head_dim'] = 4
    if r.random() < .5:
        v['ph'] = k['projector_hidden_dim'] = 3
    if r.random() < .4:
        v['mlp'], k['projector_type'] = False, 'linear'
    elif r.random() < .5:
        k['projector_type'] = 'mlp'
    return v, k


NOVIS = dict(C=0, h=1, w=1, vh=1, vl=1, vn=1, vi=1, vp=1, vd=1, ph=1, mlp=True)


def case(r, d, lats=0, arch=None):
    c, k = describe(r, arch)
    vis = NOVIS
    if r.random() < .12:
        vis, vk = vision(r)
        vis['ph'] = vis['ph'] or c['H']
        k.update(vk)
    m = r.choice([HUB, HUB, OTHER])
    if c['arch'] == 'UserForCausalLM':
        m = OTHER
    B, S, past = r.choice([1, 1, 2, 3]), r.choice([1, 2, 3, 5]), -1
    if vis is NOVIS and r.random() < .6:
        past = r.choice([0, 0, 1, 4])
    rec = dict(ok=False, err='', c=c, m=m, vis=vis, inp=[], outp=[], ini=[], names=[], tens=[], runs=[], saved=[], cuts=[])
    kw = copy.deepcopy(k)
    steps = [f'B={B} S={S} past={past}' if vis is NOVIS else 'vision']

    def go():
        b = llm.Builder(**k)
        g = b.graph
        if vis is not NOVIS:
            b.build_vision_graph([vis['C'], vis['h'], vis['w']])
        elif m is HUB and r.random() < .7:
            b.build_graph([B, S])
        else:
            b.build_graph([B, S], wmap(m))
        ctx = 0
        if vis is NOVIS and past >= 0:
            ctx = r.choice([16, 20])
            b.add_kv_cache(ctx, past)

        def run(S, past, kv):
            g.valid_shape = True
            g.profile()
            o, at = observe(b if kv else None, g, B, S, past, ctx)
            rec['runs'].append(o)
            for _ in range(lats):
                o['lats'].append(latency(b, g, r, d))
            return at
        at = run(S, past, vis is NOVIS)
        rec['outp'] = [at.get(x, 0) for x in g.output]
        rec['names'] = [str(n) for n in g.nodemap]
        rec['tens'] = [str(o) for nd in g.nodemap.values() for o in nd.output]
        rec['ini'] = [str(x) for x in g.initials]
        rec['inp'] = [str(x) for x in g.input]
        cut = {}
        for nd in g.nodemap.values():
            if nd.op_type == 'Slice':
                f, t, ax, st = (int(np.asarray(g.tensormap[x].numpy).reshape(-1)[0]) for x in nd.input[1:5])
                cut.setdefault((nd.input[0], ax), []).append([f, t, st])
        rec['cuts'] = [dict(x=str(x), of=int(g.tensormap[x].get_shape()[ax]), at=v) for (x, ax), v in cut.items()]
        p, s = past, S
        while past >= 0 and vis is NOVIS and len(rec['runs']) < 3 and r.random() < .6:      # more tokens, as the benchmark does
            q, s2 = p + s, r.choice([1, 1, 2])
            if q + s2 > ctx:
                break
            p, s = q, s2
            b.set_past_kv_length(p)
            feed = {'ids': np.zeros((B, s), np.int64)}
            if 'position' in g.input:
                feed['position'] = np.zeros((B, s), np.int64)
            g.shape_infer(feed)
            run(s, p, False)
            steps.append(f'S={s} past={p}')
        if r.random() < .25:      # the file it is exported to says the same
            f = os.path.join(d, 'm.onnx')
            b.save_graph(f)
            g2 = ot.Model(f, {'verbose': False}).graph
            feed = {}
            for x in g2.input:
                t = g.tensormap[x]
                feed[x] = np.array(max(p, 0), t.dtype) if x == 'n_past' else np.zeros([int(i) for i in t.get_shape()], t.dtype)
            g2.shape_infer(feed)
            g2.profile()
            rec['saved'] = [dict(n=str(n), op=nd.op_type, sh=[int(i) for i in g2.tensormap[nd.output[0]].get_shape()], macs=vlib.as_int(nd.macs), io=vlib.as_int(nd.io_params))
                            for n, nd in g2.nodemap.items()]
        if k != kw:
            rec['err'] = 'the description was changed'
            raise ValueError('the description was changed')
    rec['ok'], _, rec['err'] = call(go)
    return dict(sig=f'{ {a: b for a, b in kw.items()} } {"; ".join(steps)} map {"hub" if m is HUB else "other"}', rec=rec)
