"""L01: quantized linear layers and fused attention of the language model toolkit."""
import copy
import itertools
import math
import sys
import types

import torch
import torch.nn as nn
import torch.nn.functional as F

from .. import lib

PROPERTY = 'L01'
LEVEL = 'model_checking'
RULE = (
    'all sizes, biases, weight patterns, modes, kernels (simulated, or stand-ins of the easyquant kernels that check their buffers) and input ranks of linear layers within the stated bounds; all module trees of the stated size with shared layers, containers and lm_head at every place; '
    'all histories of attention calls (prompt length, then cached steps of every length, batch, heads, masks, positions, results asked for) within the stated bounds. '
    'Stored integers must be the nearest to the weights in the documented range, outputs those of the definition in exact arithmetic, within the error bound of the original layers, and everything else as it was. Non-trivial: a quantized or fused layer was run and compared.'
)
ASSUMPTIONS = [
    'CPU; transformers and easyquant are not installed: the three names used of transformers 4.28 and the six kernels of easyquant are stand-ins written from their definition (the latter from the tests of the repository)',
    'half precision inputs and weights for linear layers, as documented; float32 for attention',
]
RECYCLE = 3000


# ------------------------------------------------------------------------------ stand-ins
def rotate_half(x):
    return torch.cat((-x[..., x.shape[-1] // 2 :], x[..., : x.shape[-1] // 2]), dim=-1)


def apply_rotary_pos_emb(q, k, cos, sin, position_ids):  # transformers 4.28
    cos, sin = cos.squeeze(1).squeeze(0)[position_ids].unsqueeze(1), sin.squeeze(1).squeeze(0)[position_ids].unsqueeze(1)
    return q * cos + rotate_half(q) * sin, k * cos + rotate_half(k) * sin


class Rotary(nn.Module):
    def __init__(self, dim, n=32):
        super().__init__()
        f = torch.einsum('i,j->ij', torch.arange(n).float(), 1.0 / (100 ** (torch.arange(0, dim, 2).float() / dim)))
        e = torch.cat((f, f), -1)[None, None]
        self.register_buffer('c', e.cos())
        self.register_buffer('s', e.sin())

    def forward(self, x, seq_len=None):
        return self.c[:, :, :seq_len], self.s[:, :, :seq_len]


class LlamaAttention(nn.Module):  # transformers 4.28
    def __init__(self, hidden, heads):
        super().__init__()
        self.config = None
        self.hidden_size, self.num_heads, self.head_dim, self.max_position_embeddings = hidden, heads, hidden // heads, 32
        self.q_proj, self.k_proj, self.v_proj, self.o_proj = (nn.Linear(hidden, hidden, bias=False) for _ in range(4))
        self.rotary_emb = Rotary(self.head_dim)

    def forward(self, hidden_states, attention_mask=None, position_ids=None, past_key_value=None, output_attentions=False, use_cache=False):
        b, n, _ = hidden_states.size()
        q, k, v = (f(hidden_states).view(b, n, self.num_heads, self.head_dim).transpose(1, 2) for f in (self.q_proj, self.k_proj, self.v_proj))
        kv = n + (past_key_value[0].shape[-2] if past_key_value is not None else 0)
        q, k = apply_rotary_pos_emb(q, k, *self.rotary_emb(v, seq_len=kv), position_ids)
        if past_key_value is not None:
            k, v = torch.cat([past_key_value[0], k], 2), torch.cat([past_key_value[1], v], 2)
        past = (k, v) if use_cache else None
        w = torch.matmul(q, k.transpose(2, 3)) / math.sqrt(self.head_dim)
        if attention_mask is not None:
            w = torch.max(w + attention_mask, torch.tensor(torch.finfo(w.dtype).min))
        w = F.softmax(w, dim=-1, dtype=torch.float32).to(q.dtype)
        o = torch.matmul(w, v).transpose(1, 2).reshape(b, n, self.hidden_size)
        return self.o_proj(o), w if output_attentions else None, past


def set_module_tensor_to_device(module, name, device, value=None, dtype=None):
    getattr(module, name).data = value.to(device=device, dtype=dtype)


class KernelError(Exception):
    pass


def need(ok, what):
    if not ok:
        raise KernelError('easyquant kernel called with wrong buffers: ' + what)


def rnd(x):
    return torch.floor(x.abs() + 0.5) * x.sign()  # like roundf


def k_int4(out, w, s):
    need(out.dtype == torch.float16 and w.dtype == torch.int8 and out.shape == (w.shape[0], 2 * w.shape[1]) and s.numel() == w.shape[0] and s.dtype == torch.float32, 'decompress_int4')
    out.copy_((torch.stack((w >> 4, w << 4 >> 4), -1).view(w.shape[0], -1).float() * s[:, None]).half())


def k_int8(out, w, s):
    need(out.dtype == torch.float16 and w.dtype == torch.int8 and out.shape == w.shape and s.numel() == w.shape[0] and s.dtype == torch.float32, 'decompress_int8')
    out.copy_((w.float() * s[:, None]).half())


def k_token(out, x, s):
    need(out.dtype == torch.int8 and x.dtype == torch.float16 and x.dim() == 2 and out.shape[0] == x.shape[0] and out.shape[1] == (x.shape[1] + 3) // 4 * 4 and s.numel() == x.shape[0] and s.dtype == torch.float32, 'quantize_per_token')
    s.copy_((x.abs().max(-1).values.float() / 127).view_as(s))
    out.fill_(77)  # what is in the padding must not matter
    out[:, : x.shape[1]] = torch.where(s.view(-1, 1) > 0, torch.round(x.float() / s.view(-1, 1)), torch.zeros(())).clamp(-127, 127).to(torch.int8)


def k_gemm(out, x, w):
    need(out.dtype == torch.int32 and x.dtype == w.dtype == torch.int8 and x.shape[1] == w.shape[1] and x.shape[1] % 4 == 0 and out.shape == (x.shape[0], w.shape[0]), 'gemm')
    out.copy_(x.int() @ w.int().t())


def k_deq(out, q, xs, ws):
    need(out.dtype == torch.float16 and q.dtype == torch.int32 and out.shape == q.shape and xs.numel() == q.shape[0] and ws.numel() == q.shape[1], 'dequantize_per_token')
    out.copy_((q.float() * (ws * xs.view(-1, 1))).half())


def k_deqb(out, q, xs, ws, b):
    need(out.dtype == torch.float16 and q.dtype == torch.int32 and out.shape == q.shape and xs.numel() == q.shape[0] and ws.numel() == q.shape[1] == b.numel(), 'dequantize_bias_per_token')
    out.copy_((q.float() * (ws * xs.view(-1, 1)) + b.float()).half())


_m = []


def toolkit():
    if not _m:
        t = {n: types.ModuleType(n) for n in ('transformers', 'transformers.models', 'transformers.models.llama', 'transformers.models.llama.modeling_llama', 'transformers.modeling_utils', 'easyquant')}
        ll = t['transformers.models.llama.modeling_llama']
        ll.LlamaAttention, ll.apply_rotary_pos_emb = LlamaAttention, apply_rotary_pos_emb
        t['transformers.modeling_utils'].set_module_tensor_to_device = set_module_tensor_to_device
        e = t['easyquant']
        e.decompress_int4, e.decompress_int8, e.quantize_per_token, e.gemm, e.dequantize_per_token, e.dequantize_bias_per_token = k_int4, k_int8, k_token, k_gemm, k_deq, k_deqb
        old = {n: sys.modules.get(n) for n in t}
        sys.modules.update(t)
        try:
            import tinynn.llm_quant.modules as mod
        finally:
            for n, o in old.items():
                if o is None:
                    del sys.modules[n]
                else:
                    sys.modules[n] = o
        _m.append(mod)
    return _m[0]


# ---------------------------------------------------------------------------------- space
PATTERNS = ('gen', 'zero', 'zrow', 'pos', 'neg', 'peak', 'tiny', 'ties', 'big')
XPAT = ('gen', 'zrow', 'peak', 'zero')
MODES = ('weight4', 'weight8', 'dynamic')


def cases(tier):
    quick = tier == 'quick'
    for n, o, bias, mode, fast in itertools.product(range(1, 10) if quick else range(1, 18), (1, 2, 3) if quick else range(1, 8), (0, 1), MODES, (0, 1)):
        if mode == 'weight4' and n % 2:
            continue  # refused: two values per byte
        for pat in PATTERNS:
            for sh in ([3], [2, 3], [1, 1], [1, 3], [2, 1], [1], [4, 1, 2]) if pat == 'gen' else ([2, 3],):
                for xp in XPAT if sh == [2, 3] and (pat in ('gen', 'peak') or not quick) else ('gen',):
                    for via in ('layer', 'quant_fc'):
                        yield f'lin:{n}x{o}:b{bias}:{mode}:{"fast" if fast else "sim"}:{pat}:{"x".join(map(str, sh))}:{xp}:{via}', dict(f='lin', n=n, o=o, bias=bias, mode=mode, fast=fast, pat=pat, sh=sh, xp=xp, via=via)
    for bw, gran, sh in itertools.product((2, 3, 4, 5, 6, 7, 8), ('channel', 'token', 'tensor'), ([1, 1], [3, 4], [1, 7], [5, 2], [2, 3, 4], [1, 1, 5])):
        for pat in PATTERNS:
            if not (gran == 'channel' and len(sh) == 3):
                yield f'comp:{bw}:{gran}:{"x".join(map(str, sh))}:{pat}', dict(f='comp', bw=bw, gran=gran, sh=sh, pat=pat)
    # module trees: every container around every arrangement of leaves
    leaves = ('lin', 'linb', 'act', 'shared', 'lm_head', 'lm_head_shared', 'tied')
    for cont in ('seq', 'list', 'dict', 'attr', 'nest', 'sublist'):
        for k in (1, 2, 3) if quick else (1, 2, 3, 4):
            for t in itertools.product(leaves, repeat=k):
                if quick and k == 3 and cont not in ('seq', 'attr'):
                    continue
                for mode, fast in (('weight8', 0), ('dynamic', 1)) if quick else itertools.product(MODES, (0, 1)):
                    yield f'tree:{cont}:{",".join(t)}:{mode}:{fast}', dict(f='tree', cont=cont, t=list(t), mode=mode, fast=fast)
    # attention: prompt, then steps
    for b, heads, dim in itertools.product((1, 2) if quick else (1, 2, 3), (1, 2, 3), (2, 4)):
        for steps in [(n,) for n in (1, 2, 3, 4)] + [(n, 1) for n in (1, 3)] + [(2, 1, 1)] + ([(2, 2), (1, 3)] if quick else [(2, 2), (1, 3), (3, 1, 1, 1), (2, 1, 2), (1, 1, 1)]):
            for mask, att, cache, fuse in itertools.product(('causal', 'padded'), (0, 1), (0, 1) if len(steps) == 1 else (1,), ('fuse', 'quant_fc')):
                if att and (len(steps) > 1 or mask != 'causal'):
                    continue
                yield f'attn:b{b}:h{heads}x{dim}:{"+".join(map(str, steps))}:{mask}:att{att}:cache{cache}:{fuse}', dict(f='attn', b=b, heads=heads, dim=dim, steps=steps, mask=mask, att=att, cache=cache, fuse=fuse)


def run_case(p):
    lib.quiet_tinynn()
    m = toolkit()
    m.log.setLevel('ERROR')
    lib.seed_for(str(p))
    with torch.no_grad():
        return {'lin': lin, 'comp': comp, 'tree': tree, 'attn': attn}[p['f']](m, p)


def pattern(t, pat):
    """generic values with the given pattern; last dim is the one that shares a scale"""
    v = torch.empty(t).uniform_(-1, 1) * 0.7 + 0.05
    if pat == 'zero':
        v = v * 0
    elif pat == 'zrow':
        v[..., -1, :] = 0
    elif pat == 'pos':
        v = v.abs() + 0.1
    elif pat == 'neg':
        v = -v.abs() - 0.1
    elif pat == 'peak':
        v[..., 0] = -40.0
    elif pat == 'tiny':
        v = v * 1e-3
    elif pat == 'ties':
        v = torch.round(v * 6) / 8
    elif pat == 'big':
        v = v * 3000
    return v


def codes_ok(w, q, s, qmax, what):
    """q are the nearest integers in [-qmax, qmax] to w / s, s covers w within half a step"""
    w, s = w.double(), s.double()
    if q.dtype != torch.int8 or q.abs().max() > qmax:
        raise lib.Fail(f'{what}: values of type {q.dtype} up to {q.abs().max()}, the range is {qmax}')
    e = (w - q.double() * s).abs()
    if (e > s * 0.5 * (1 + 1e-4) + 1e-12).any():
        raise lib.Fail(f'{what}: a value is off by {float((e / s.clamp(min=1e-30)).max()):.3f} steps')
    amax = w.abs().max(-1, keepdim=True).values
    if (s > amax / qmax * (1 + 1e-4) + 1e-12).any() or (s < amax / (qmax + 0.5) * (1 - 1e-4)).any():
        raise lib.Fail(f'{what}: scale {s.flatten()[:3].tolist()} for values up to {amax.flatten()[:3].tolist()}')


def comp(m, p):
    w = pattern(p['sh'], p['pat'])
    s, q = m.compress_int(w, p['bw'], per_channel=p['gran'] == 'channel', per_token=p['gran'] == 'token')
    if q.shape != w.shape:
        raise lib.Fail(f'values of shape {tuple(q.shape)}')
    if p['gran'] == 'tensor':
        codes_ok(w.reshape(1, -1), q.reshape(1, -1), s.reshape(1, 1), 2 ** (p['bw'] - 1) - 1, 'compress_int')
    else:
        if s.numel() != w[..., 0].numel():
            raise lib.Fail(f'{s.numel()} scales')
        codes_ok(w, q, s.reshape(*w.shape[:-1], 1), 2 ** (p['bw'] - 1) - 1, 'compress_int')
    return {'status': 'ok', 'steps': 1, 'nontrivial': True}


def reference(w, b, mode, x):
    """the definition in float64"""
    qmax = 7 if mode == 'weight4' else 127
    s = 2 * w.abs().max(-1).values.float() / (2 * qmax + 1)
    q = torch.where(s[:, None] > 0, torch.round(w.float() / s[:, None]), torch.zeros(())).clamp(-qmax, qmax).double()
    if mode != 'dynamic':
        y = x.double() @ (q.float() * s[:, None]).half().double().t()
    else:
        xs = x.abs().max(-1, keepdim=True).values.float() / 127
        xq = torch.where(xs > 0, torch.round(x.float() / xs), torch.zeros(())).clamp(-127, 127).double()
        y = (xq @ q.t()) * xs.double() * s.double()
    return y + (b.double() if b is not None else 0)


def bound(w, mode, x):
    """largest error of the quantized layer against the original one"""
    qmax = 7 if mode == 'weight4' else 127
    s = 2 * w.abs().max(-1).values.double() / (2 * qmax + 1)
    e = x.double().abs().sum(-1, keepdim=True) * s * 0.51
    if mode == 'dynamic':
        xs = x.abs().max(-1, keepdim=True).values.double() / 127
        e = e + 0.51 * xs * (w.double().abs() + s[:, None]).sum(-1)
    return e


def compare(got, want, scale, what, extra=0.0):
    if got.shape != want.shape or got.dtype != torch.float16:
        raise lib.Fail(f'{what}: {got.dtype} of shape {tuple(got.shape)} instead of {tuple(want.shape)}')
    e = (got.double() - want).abs() - extra
    lim = 3e-3 * scale + 1e-6
    if not torch.isfinite(got).all() or (e > lim).any():
        raise lib.Fail(f'{what}: differs by {float(e.max()):.5g} (values up to {float(want.abs().max()):.4g})')


def lin(m, p):
    m.SPEEDUP = bool(p['fast'])
    fc = nn.Linear(p['n'], p['o'], bias=bool(p['bias']))
    fc.weight.data = pattern([p['o'], p['n']], p['pat'])
    if p['bias']:
        fc.bias.data = torch.empty(p['o']).uniform_(0.2, 1) * (3000 if p['pat'] == 'big' else 1)
    fc = fc.half()
    w, b = fc.weight.data.clone(), fc.bias.data.clone() if p['bias'] else None
    if p['via'] == 'layer':
        q = m.QLinear(fc, p['mode'])
    else:
        net = nn.Sequential(fc)
        m.quant_fc(net, p['mode'])
        q = net[0]
    if isinstance(q, nn.Linear):
        raise lib.Fail('the layer was not quantized')
    x = pattern(p['sh'] + [p['n']], 'zrow' if p['xp'] == 'zrow' else p['xp']) if p['sh'] else None
    x = (x * (0.02 if p['pat'] == 'big' else 1)).half()
    x0 = x.clone()
    state = {k: v.clone() for k, v in q.state_dict().items()}
    if q.weight_scale.shape != (p['o'],):
        raise lib.Fail(f'scales of shape {tuple(q.weight_scale.shape)}')
    codes = q.weight.data
    if p['mode'] == 'weight4':
        codes = torch.stack((codes >> 4, codes << 4 >> 4), -1).view(p['o'], p['n'])
    if codes.shape[1] != p['n'] and codes[:, p['n'] :].any():
        raise lib.Fail('padding of the weights is not zero')
    codes_ok(w.float(), codes[:, : p['n']], q.weight_scale[:, None], 7 if p['mode'] == 'weight4' else 127, 'weights')
    for k in range(2):
        try:
            y = q(x)
        except KernelError as e:
            raise lib.Fail(str(e))
        except Exception as e:
            return {'status': 'refuse', 'detail': f'{type(e).__name__}: {e}', 'steps': 1}
        sc = (x.double().abs() @ w.double().abs().t()) + (b.double().abs() if b is not None else 0)
        compare(y, reference(w, b, p['mode'], x), sc, f'call {k}')
        compare(y, F.linear(x.double(), w.double(), b.double() if b is not None else None), sc, f'call {k}, against the original layer', bound(w, p['mode'], x))
    if not torch.equal(x, x0) or set(state) != set(q.state_dict()) or any(not torch.equal(v, q.state_dict()[k]) for k, v in state.items()):
        raise lib.Fail('running the layer changed its input or weights')
    return {'status': 'ok', 'steps': 4, 'nontrivial': True}


class Net(nn.Module):
    def __init__(self, items, cont):
        super().__init__()
        self.cont, self.names = cont, [n for n, _ in items]
        if cont == 'seq':
            self.b = nn.Sequential()
            for n, l in items:
                self.b.add_module(n, l)
        elif cont == 'list':
            self.b = nn.ModuleList([l for _, l in items])
        elif cont == 'sublist':
            self.b = type('Sub', (nn.ModuleList,), {})([nn.ModuleList([l]) for _, l in items])
        elif cont == 'dict':
            self.b = nn.ModuleDict(dict(items))
        elif cont == 'nest':
            self.b = nn.ModuleList([nn.ModuleDict({n: nn.Sequential(l)}) for n, l in items])
        else:
            for n, l in items:
                setattr(self, n, l)

    def layers(self):
        c = self.cont
        if c in ('seq', 'list'):
            return list(self.b)
        if c == 'sublist':
            return [x[0] for x in self.b]
        if c == 'dict':
            return list(self.b.values())
        if c == 'nest':
            return [next(iter(d.values()))[0] for d in self.b]
        return [getattr(self, n) for n in self.names]

    def forward(self, x):
        for l in self.layers():
            x = l(x)
        return x


def tree(m, p):
    m.SPEEDUP = bool(p['fast'])
    n = 4
    items, shared, tied, kinds = [], None, None, []
    for i, k in enumerate(p['t']):
        name = f'{k}{i}'
        if k == 'act':
            l = nn.Tanh()
        elif k in ('shared', 'lm_head_shared'):
            l = shared = shared or nn.Linear(n, n, bias=False)
        else:
            l = nn.Linear(n, n, bias=k == 'linb')
            if k == 'tied':  # another layer with the same parameter
                if tied is not None:
                    l.weight = tied.weight
                tied = tied or l
        items.append((name, l))
    for _, l in items:
        for q in l.parameters():
            q.data = torch.empty_like(q).uniform_(-1, 1) * 0.7 + 0.05
    net = Net(items, p['cont']).half()
    ls = net.layers()
    want = [(l, l.weight.data.clone() if isinstance(l, nn.Linear) else None, l.bias.data.clone() if isinstance(l, nn.Linear) and l.bias is not None else None) for l in ls]
    heads = {id(l) for n_, l in net.named_modules(remove_duplicate=False) if 'lm_head' in n_}
    names = [next((nn_ for nn_, l in net.named_modules(remove_duplicate=False) if l is x), '') for x in ls]
    try:
        m.quant_fc(net, p['mode'])
    except Exception as e:
        return {'status': 'refuse', 'detail': f'{type(e).__name__}: {e}', 'steps': 1}
    new = net.layers()
    x = (torch.empty(2, 3, n).uniform_(-1, 1) * 0.7 + 0.05).half()
    cnt = 0
    for i, ((l, w, b), q, name) in enumerate(zip(want, new, names)):
        keep = w is None or id(l) in heads
        if keep:
            if q is not l or w is not None and not torch.equal(q.weight.data, w):
                raise lib.Fail(f'layer {name} was changed')
        elif not isinstance(q, m.QLinear):
            raise lib.Fail(f'layer {name} was not quantized')
        if any(q is not r for r, (o, _, _) in zip(new, want) if o is l):
            raise lib.Fail(f'layer {name} is no longer shared')
        try:
            y = q(x)
        except KernelError as e:
            raise lib.Fail(str(e))
        except Exception as e:
            raise lib.Fail(f'layer {name} cannot be run: {type(e).__name__}: {e}')
        if not keep:
            cnt += 1
            compare(y, reference(w, b, p['mode'], x), (x.double().abs() @ w.double().abs().t()) + (b.double().abs() if b is not None else 0), f'layer {name}')
        elif w is not None and not torch.equal(y, F.linear(x, w, b)):
            raise lib.Fail(f'layer {name} computes something else')
        x = y
    return {'status': 'ok', 'steps': len(new) + 1, 'nontrivial': cnt > 0}


class Block(nn.Module):
    def __init__(self, hidden, heads):
        super().__init__()
        self.attn = LlamaAttention(hidden, heads)
        self.mlp = nn.Linear(hidden, hidden)

    def forward(self, x, **kw):
        return self.attn(x, **kw)


def attn(m, p):
    h = p['heads'] * p['dim']
    net = Block(h, p['heads'])
    for q in net.parameters():
        q.data = torch.empty_like(q).uniform_(-1, 1) * 1.4 + 0.05
    orig = copy.deepcopy(net)
    if p['fuse'] == 'fuse':
        m.fuse_atten(net)
    else:
        m.SPEEDUP = False
        m.quant_fc(net, 'weight8', fuse_qkv=True)
        if not isinstance(net.mlp, m.QLinear) or not isinstance(net.attn.qkv_proj, m.QLinear) or not isinstance(net.attn.o_proj, m.QLinear):
            raise lib.Fail('a linear layer of the block was not quantized')
        for q in (net.attn.qkv_proj, net.attn.o_proj):  # keep in float32 what the layer stores, and give the same values to the original
            l = nn.Linear(q.in_features, q.out_features, bias=False)
            l.weight.data = q.weight.float() * q.weight_scale[:, None]
            if q is net.attn.qkv_proj:
                ws = torch.cat([orig.attn.q_proj.weight, orig.attn.k_proj.weight, orig.attn.v_proj.weight])
                codes_ok(ws.data, q.weight.data, q.weight_scale[:, None], 127, 'fused weights')
                for k, f in enumerate((orig.attn.q_proj, orig.attn.k_proj, orig.attn.v_proj)):
                    f.weight.data = l.weight.data[k * h : k * h + h].clone()
                net.attn.qkv_proj = l
            else:
                codes_ok(orig.attn.o_proj.weight.data, q.weight.data, q.weight_scale[:, None], 127, 'output weights')
                orig.attn.o_proj.weight.data = l.weight.data.clone()
                net.attn.o_proj = l
    if isinstance(net.attn, LlamaAttention):
        raise lib.Fail('attention was not fused')
    past = [None, None]
    done = 0
    b = p['b']
    minf = torch.finfo(torch.float32).min
    for n in p['steps']:
        x = torch.empty(b, n, h).uniform_(-1, 1) + 0.1
        kv = done + n
        mask = torch.zeros(b, 1, n, kv)
        for i in range(n):
            mask[:, :, i, done + i + 1 :] = minf
        if p['mask'] == 'padded':
            mask[0, :, :, 0] = minf  # the first token of the first sequence is padding
        pos = torch.arange(done, kv)[None].expand(b, n)
        kw = dict(attention_mask=None if p['mask'] == 'none' else mask, position_ids=pos, output_attentions=bool(p['att']), use_cache=bool(p['cache']))
        want = orig(x, past_key_value=past[0], **kw)
        try:
            got = net(x, past_key_value=past[1], **kw)
        except Exception as e:
            return {'status': 'refuse', 'detail': f'{type(e).__name__}: {e}', 'steps': 1}
        past = [want[2], got[2]]
        keep = slice(None) if p['mask'] != 'padded' or done else slice(1, None)  # a query that sees nothing
        if got[0].shape != want[0].shape or not torch.allclose(got[0][:, keep], want[0][:, keep], rtol=1e-4, atol=1e-4):
            raise lib.Fail(f'step of {n} tokens after {done}: attention differs by {float((got[0] - want[0]).abs().max()):.4g}')
        if (got[2] is None) != (want[2] is None) or got[2] is not None and not all(torch.allclose(g, w, rtol=1e-4, atol=1e-5) for g, w in zip(got[2], want[2])):
            raise lib.Fail(f'step of {n} tokens after {done}: cached keys and values differ')
        if (got[1] is None) != (want[1] is None) or got[1] is not None and not torch.allclose(got[1], want[1], rtol=1e-4, atol=1e-4):
            raise lib.Fail(f'step of {n} tokens after {done}: attention weights differ or are missing')
        done = kv
    return {'status': 'ok', 'steps': 2 * len(p['steps']), 'nontrivial': True}
