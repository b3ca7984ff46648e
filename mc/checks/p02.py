"""P02: how many and which channels the pruners remove."""
import copy
import itertools
import math

import torch
import torch.nn as nn
import torch.nn.functional as F

from .. import lib, pruneprog
from .p01 import S, lib_err

PROPERTY = 'P02'
LEVEL = 'model_checking'
RULE = (
    'every topology of the list x every configuration of the grid (default sparsity, one layer set to every other sparsity, metric, last-layer '
    'option, excluded operator kinds, every pattern of dead batch-norm channels x multiple) is pruned by the real pruner; the surviving channels of '
    'every layer are read off the distinct weight values and compared with a reference model of channel selection. Non-trivial: something was removed.'
)
ASSUMPTIONS = ['weights are distinct generic values, so origins of surviving values and the importance order are unambiguous', 'coupled layers are given equal sparsity']
RECYCLE = 400

# name -> (statements, input, outputs, coupling groups in terms of statement numbers). A group: (layers, kinds of operators the channels pass
# through, units: None = every index by itself, or list of index lists that fall together, equal parts that must lose the same number)
T = {
    'conv3': ([['conv', ['x0']], ['relu', ['v0']], ['convb', ['v1']], ['bn', ['v2']], ['conv', ['v3']]], 'i', [([0], ['relu'], None, 1), ([2], [nn.BatchNorm2d], None, 1), ([4], [], None, 1)]),
    'convlin': ([['conv', ['x0']], ['maxp', ['v0']], ['flat', ['v1']], ['linb', ['v2']], ['relu', ['v3']], ['lin', ['v4']]], 'i', [([0], [nn.MaxPool2d, 'flatten'], None, 1), ([3], ['relu'], None, 1), ([5], [], None, 1)]),
    'lin3': ([['lin', ['x0']], ['relu', ['v0']], ['linb', ['v1']], ['lin', ['v2']]], 'v', [([0], ['relu'], None, 1), ([2], [], None, 1), ([3], [], None, 1)]),
    'lin3d': ([['linb', ['x0']], ['sigm', ['v0']], ['lin', ['v1']], ['linb', ['v2']]], 'q', [([0], ['sigmoid'], None, 1), ([2], [], None, 1), ([3], [], None, 1)]),
    'add': ([['conv', ['x0']], ['conv', ['x0']], ['add', ['v0', 'v1']], ['convb', ['v2']]], 'i', [([0, 1], ['__add__'], None, 1), ([3], [], None, 1)]),
    'addlin': ([['lin', ['x0']], ['lin', ['x0']], ['mul', ['v0', 'v1']], ['linb', ['v2']], ['lin', ['v3']]], 'v', [([0, 1], ['__mul__'], None, 1), ([3], [], None, 1), ([4], [], None, 1)]),
    'add3': ([['conv', ['x0']], ['dconv', ['x0']], ['maxp', ['v1']], ['conv', ['x0']], ['add', ['v0', 'v2']], ['sub', ['v4', 'v3']], ['conv', ['v5']]], 'i', [([0, 1, 3], ['__add__', '__sub__', nn.MaxPool2d], None, 1), ([6], [], None, 1)]),
    'res': ([['conv', ['x0']], ['rest', ['v0']], ['bn', ['v1']], ['convb', ['v2']]], 'i', [([0, 1], ['relu', '__add__', nn.BatchNorm2d], None, 1), ([3], [], None, 1)]),
    'cat': ([['conv', ['x0']], ['convb', ['x0']], ['catz', ['v0', 'v1']], ['relu', ['v2']], ['conv', ['v3']]], 'i', [([0], ['cat', 'relu'], None, 1), ([1], ['cat', 'relu'], None, 1), ([4], [], None, 1)]),
    'dw': ([['convb', ['x0']], ['dw', ['v0']], ['brelu', ['v1']], ['conv', ['v2']], ['flat', ['v3']], ['lin', ['v4']]], 'i', [([0], ['relu', nn.BatchNorm2d], None, 1), ([3], ['flatten'], None, 1), ([5], [], None, 1)]),
    'dconv': ([['dconv', ['x0']], ['prelu', ['v0']], ['conv', ['v1']]], 'i', [([0], [nn.PReLU], None, 1), ([2], [], None, 1)]),
    'conv1': ([['conv1', ['x0']], ['relu', ['v0']], ['dconv1', ['v1']], ['conv1', ['v2']]], 's', [([0], ['relu'], None, 1), ([2], [], None, 1), ([3], [], None, 1)]),
    'chadd': ([['conv', ['x0']], ['chs', ['v0']], ['conv', ['v1']]], 'i', [([0], ['chunk', 'add'], [[i, i + 4] for i in range(4)], 1), ([2], [], None, 1)]),
    'into_group': ([['conv', ['x0']], ['relu', ['v0']], ['gconv', ['v1']], ['conv', ['v2']]], 'i', [([0], ['relu'], None, 2), ([2], [], None, 2), ([3], [], None, 1)]),
    'rnn': ([['rnn', ['x0']], ['lin', ['v0']], ['linb', ['v1']]], 'q', [([0], [], None, 1), ([1], [], None, 1), ([2], [], None, 1)]),
    'gru': ([['gru', ['x0']], ['lin', ['v0']], ['linb', ['v1']]], 'q', [([0], [], None, 1), ([1], [], None, 1), ([2], [], None, 1)]),
    'lstm': ([['lstm', ['x0']], ['relu', ['v0']], ['lin', ['v1']], ['linb', ['v2']]], 'q', [([0], ['relu'], None, 1), ([2], [], None, 1), ([3], [], None, 1)]),
    'rnn2': ([['rnn2', ['x0']], ['lin', ['v0']]], 'q', [([0], [], None, 1), ([1], [], None, 1)]),
    'gru2': ([['gru2', ['x0']], ['lin', ['v0']]], 'q', [([0], [], None, 1), ([1], [], None, 1)]),
    'gruadd': ([['gru', ['x0']], ['lin', ['x0']], ['add', ['v0', 'v1']], ['lin', ['v2']]], 'q', [([0, 1], ['__add__'], None, 1), ([3], [], None, 1)]),
}
SPARSITY = (0.0, 0.1, 0.25, 0.3, 0.5, 0.6, 0.75, 0.8)
METRICS = ('l1_norm', 'l2_norm', 'fpgm', 'random')
# identity pruning: conv - bn - (act) - conv ...
ACTS = ('none', 'relu', 'hsw', 'sigm', 'frelu', 'fsigm', 'flrelu')


def cases(tier):
    quick = tier == 'quick'
    for t in T:
        groups = T[t][2]
        for me in METRICS:
            for sp in SPARSITY:
                for skip in (None, False):
                    yield f'{t}:{me}:{sp}:{skip}', {'t': t, 'cfg': {'sparsity': sp, 'metrics': me, **({} if skip is None else {'skip_last_fc': skip})}}
            for gi in range(len(groups)):
                for d, sp in itertools.product((0.0, 0.25, 0.5) if quick else SPARSITY, SPARSITY):
                    if d != sp:
                        yield f'{t}:{me}:{d}:g{gi}={sp}', {'t': t, 'gi': gi, 'gsp': sp, 'cfg': {'sparsity': d, 'metrics': me}}
        kinds = sorted({k for g in groups for k in g[1]}, key=str)
        for r in range(1, len(kinds) + 1):
            for ks in itertools.combinations(kinds, r):
                for sp in (0.25, 0.5, 0.75):
                    names = ','.join(k if isinstance(k, str) else k.__name__ for k in ks)
                    yield f'{t}:exclude={names}:{sp}', {'t': t, 'cfg': {'sparsity': sp, 'metrics': 'l2_norm'}, 'exclude': [k if isinstance(k, str) else 'nn.' + k.__name__ for k in ks]}
    # identity pruner: every pattern of dead channels
    for c in (4, 6) if quick else (4, 6, 8):
        for pat in range(1, 2**c):
            if pat == 2**c - 1:
                continue
            for mult in (None, 1, 2, 3, 4):
                yield f'identity:{c}:{pat:b}:{mult}', {'ident': True, 'c': c, 'pat': pat, 'mult': mult, 'act': 'relu', 'comp': None, 'tail': 'conv'}
    for pat in range(1, 15):
        for act in ACTS:
            for comp in (None, True, False):
                for tail in ('conv', 'convb', 'flat', 'dw', 'two', 'add'):
                    yield f'identity:{act}:{comp}:{tail}:{pat:b}', {'ident': True, 'c': 4, 'pat': pat, 'mult': None, 'act': act, 'comp': comp, 'tail': tail}
    for act in ACTS:
        for sp in (0.25, 0.5, 0.75):
            for tail in ('conv', 'convb', 'two', 'add'):
                yield f'compensate:{act}:{sp}:{tail}', {'comp1': True, 'sp': sp, 'act': act, 'tail': tail}


def importance(metric, mod):
    """Importance of every output channel, written from the definition of the metric. RNNs: summed over all their weight matrices (gates)."""

    def rows(m):
        if isinstance(m, (nn.ConvTranspose1d, nn.ConvTranspose2d)):
            return [[m.weight[:, o].reshape(-1) for o in range(m.weight.shape[1])]]
        if isinstance(m, (nn.RNN, nn.GRU, nn.LSTM)):
            h = m.hidden_size
            out = []
            for k in range(m.num_layers):
                for n in ('ih', 'hh'):
                    w = getattr(m, f'weight_{n}_l{k}')
                    for g in range(w.shape[0] // h):
                        out.append([w[g * h + o].reshape(-1) for o in range(h)])
            return out
        return [[m.weight[o].reshape(-1) for o in range(m.weight.shape[0])]]

    tot = None
    for mat in rows(mod):
        if metric == 'l1_norm':
            v = [float(r.double().abs().sum()) for r in mat]
        elif metric == 'l2_norm':
            v = [float(r.double().pow(2).sum().sqrt()) for r in mat]
        else:
            v = [sum(float((r.double() - q.double()).pow(2).sum().sqrt()) for q in mat) for r in mat]
        tot = v if tot is None else [a + b for a, b in zip(tot, v)]
    return tot


def channels(m):
    if isinstance(m, (nn.RNN, nn.GRU, nn.LSTM)):
        return m.hidden_size
    return m.out_features if isinstance(m, nn.Linear) else m.out_channels


def kept(name, m, keep):
    """Surviving output channels of a layer, as indices of the original."""
    if isinstance(m, (nn.RNN, nn.GRU, nn.LSTM)):
        k = keep[f'{name}.weight_hh_l0']
        return [o for o in range(m.hidden_size) if k[o].any()]
    k = keep[f'{name}.weight']
    dim = 1 if isinstance(m, (nn.ConvTranspose1d, nn.ConvTranspose2d)) else 0
    return [o for o in range(k.shape[dim]) if k.select(dim, o).any()]


def run_case(p):
    lib.quiet_tinynn()
    if p.get('ident') or p.get('comp1'):
        return identity(p)
    from tinynn.prune import OneShotChannelPruner

    st, sh, groups = T[p['t']]
    x = lib.gen_inputs([S[sh]], 0)[0]
    used = {a for _, args in st for a in args}
    outs = [f'v{i}' for i in range(len(st)) if f'v{i}' not in used]
    model, src = pruneprog.make(st, outs, ['x0'], [x], p['t'])
    if model is None:
        return {'status': 'reject', 'detail': 'not a PyTorch program', 'steps': 0}
    cfg = dict(p['cfg'])
    sps = [cfg['sparsity']] * len(groups)
    if 'gi' in p:
        sps[p['gi']] = p['gsp']
        d = {'default': cfg['sparsity']}
        d.update({f'm{k}': p['gsp'] for k in groups[p['gi']][0]})
        cfg['sparsity'] = d
    ex = []
    if 'exclude' in p:
        ex = [getattr(nn, k[3:]) if k.startswith('nn.') else k for k in p['exclude']]
        cfg['exclude_ops'] = list(ex)
    metric = cfg['metrics']
    if metric == 'fpgm' and any(type(m) not in (nn.Linear, nn.Conv2d) for m in model.modules() if isinstance(m, (nn.Conv1d, nn.ConvTranspose1d, nn.ConvTranspose2d, nn.RNN, nn.GRU, nn.LSTM))):
        return {'status': 'reject', 'detail': 'fpgm is documented for Linear and Conv2d only', 'steps': 0}
    orig = copy.deepcopy(model)
    mods = dict(orig.named_modules())
    torch.manual_seed(7)
    try:
        pr = OneShotChannelPruner(model, x, cfg)
        pr.prune()
    except Exception as e:
        return {'status': 'refuse', 'detail': 'refused: ' + lib_err(e), 'steps': 1}
    keep = pruneprog.origin(orig, model)
    last = max((g[0][-1] for g in groups), default=-1)
    removed = 0
    for gi, (layers, kinds, units, parts) in enumerate(groups):
        sp = sps[gi]
        n = channels(mods[f'm{layers[0]}'])
        name = f'm{layers[0]}'
        got = [kept(f'm{k}', mods[f'm{k}'], keep) for k in layers]
        if any(g != got[0] for g in got):
            return bad(f'coupled layers {layers} keep different channels {got}', src, cfg)
        got = got[0]
        if any(k in ex for k in kinds):
            sp = 0.0
        if cfg.get('skip_last_fc', True) and last in layers and isinstance(mods[f'm{last}'], nn.Linear) and ('gi' not in p or p['gi'] != gi):
            sp = 0.0
        us = units or [[i] for i in range(n)]
        size = n // parts
        want_n = 0
        gone = None
        for q in range(parts):
            mine = [u for u in us if u[0] // size == q] if parts > 1 else us
            k = next(k for k in range(len(mine) + 1) if k / len(mine) >= sp)
            want_n += k * len(mine[0])
            if metric != 'random':
                imp = [importance(metric, mods[f'm{m}']) for m in layers]
                tot = {i: sum(im[c] for im in imp for c in u) for i, u in enumerate(mine)}
                lost = [i for i, u in enumerate(mine) if not set(u) & set(got)]
                if any(0 < len(set(u) & set(got)) < len(u) for u in mine):
                    return bad(f'{name}: keeps {got}, which splits channels that depend on each other', src, cfg)
                rest = [i for i in tot if i not in lost]
                if lost and rest and max(tot[i] for i in lost) > min(tot[i] for i in rest) * (1 + 1e-5):
                    gone = {mine[i][0]: round(tot[i], 4) for i in tot}
        if want_n == n:  # rounding up leaves nothing of the layer
            return {'status': 'reject', 'detail': 'nothing would be left', 'steps': 1}
        if p['t'] == 'cat' and layers[0] < 2:  # the parts of a concatenation share the rounding
            removed += n - len(got)
            if not abs(n - len(got) - sp * n) < 1:
                return bad(f'{name}: {n - len(got)} of {n} channels removed at sparsity {sp}', src, cfg)
            if gone:
                return bad(f'{name}: keeps {got}, but the importance under {metric} is {gone}', src, cfg)
            continue
        if parts > 1 and abs(sp * size - round(sp * size)) > 1e-9:
            # the parts cannot lose exactly the share: only the bounds are specified
            if not (sp * n - parts < n - len(got) < sp * n + parts + 1):
                return bad(f'{name}: {n - len(got)} of {n} channels removed at sparsity {sp}', src, cfg)
            removed += n - len(got)
            continue
        removed += n - len(got)
        if n - len(got) != want_n:
            return bad(f'{name}: {n - len(got)} of {n} channels removed at sparsity {sp}, expected {want_n}', src, cfg)
        if gone:
            return bad(f'{name}: keeps {got}, but the importance under {metric} is {gone}', src, cfg)
        if parts > 1:
            cnt = {sum(1 for c in got if c // size == q) for q in range(parts)}
            if len(cnt) > 1:
                return bad(f'{name}: keeps {got}, different numbers per group', src, cfg)
    return {'status': 'ok', 'detail': '', 'steps': len(groups), 'nontrivial': removed > 0, 'sig': f'{removed}'}


def bad(msg, src, cfg):
    return {'status': 'fail', 'detail': f'{msg}\nconfiguration {cfg}\n{src}', 'steps': 1}


def identity(p):
    """conv - bn - act - conv with batch-norm channels that never vary."""
    from tinynn.prune import OneShotChannelPruner
    from tinynn.prune.identity_pruner import IdentityChannelPruner

    act, tail = p['act'], p['tail']
    c = p.get('c', 8)

    class N(nn.Module):
        def __init__(self):
            super().__init__()
            self.a = nn.Conv2d(3, c, 3)
            self.bn = nn.BatchNorm2d(c)
            self.act = {'none': nn.Identity(), 'relu': nn.ReLU(), 'hsw': nn.Hardswish(), 'sigm': nn.Sigmoid(), 'frelu': None, 'fsigm': None, 'flrelu': None}[act]
            if tail == 'dw':
                self.dw = nn.Conv2d(c, c, 1, groups=c)
            if tail == 'add':
                self.a2 = nn.Conv2d(3, c, 3)
                self.bn2 = nn.BatchNorm2d(c)
            if tail == 'flat':
                self.b = nn.Linear(c * 36, 5)
            else:
                self.b = nn.Conv2d(c, 5, 3, bias=tail != 'convb')
            if tail == 'two':
                self.b2 = nn.Conv2d(c, 3, 1)

        def forward(self, x):
            y = self.bn(self.a(x))
            if tail == 'add':
                y = y + self.bn2(self.a2(x))
            if act == 'frelu':
                y = F.relu(y)
            elif act == 'fsigm':
                y = torch.sigmoid(y)
            elif act == 'flrelu':
                y = F.leaky_relu(y, 0.1)
            else:
                y = self.act(y)
            if tail == 'dw':
                y = self.dw(y)
            if tail == 'flat':
                return self.b(torch.flatten(y, 1))
            if tail == 'two':
                return self.b(y), self.b2(y)
            return self.b(y)

    text = repr(sorted(p.items(), key=str))
    lib.seed_for(text)
    m = N()
    g = torch.Generator().manual_seed(int(lib.sha(text)[:8], 16))
    with torch.no_grad():
        for n, t in list(m.named_parameters()) + list(m.named_buffers()):
            if t.is_floating_point():
                v = (torch.randperm(t.numel(), generator=g) + 1.0) / t.numel()
                t.copy_((0.5 + v if n.endswith('running_var') else 1.6 * v - 0.8).reshape(t.shape))
        dead = [i for i in range(c) if p.get('pat', 0) >> i & 1]
        for conv, bn in [(m.a, m.bn)] + ([(m.a2, m.bn2)] if tail == 'add' else []):
            for i in dead:
                bn.running_mean[i] = conv.bias[i]
                bn.running_var[i] = 1e-12 * (1 + i)
                conv.weight[i] = 1e-9 * (1 + i)  # the channel hardly varies
    m.eval()
    orig = copy.deepcopy(m)
    x = lib.gen_inputs([[1, 3, 8, 8]], 0)[0]
    if p.get('comp1'):
        cfg = {'sparsity': {'default': 0.0, 'a': p['sp'], 'a2': p['sp']}, 'metrics': 'l2_norm', 'bn_compensation': True}
        cls = OneShotChannelPruner
    else:
        cfg = {}
        if p['mult'] is not None:
            cfg['multiple'] = p['mult']
        if p['comp'] is not None:
            cfg['bn_compensation'] = p['comp']
        cls = IdentityChannelPruner
    try:
        pr = cls(m, x, dict(cfg))
        pr.prune()
    except Exception as e:
        return {'status': 'refuse', 'detail': 'refused: ' + lib_err(e), 'steps': 1}
    m.eval()
    left = channels(m.a)
    alive = []
    flat = orig.a.weight.reshape(c, -1)
    for r in m.a.weight.reshape(left, -1):
        hit = [i for i in range(c) if torch.equal(flat[i], r)]
        if len(hit) != 1:
            return bad('a surviving filter is no filter of the original', '', cfg)
        alive += hit
    if alive != sorted(alive):
        return bad(f'channels reordered: {alive}', '', cfg)
    gone = [i for i in range(c) if i not in alive]
    if p.get('ident'):
        k = p['mult'] or 1
        want = len(dead) // k * k
        if len(gone) != want or not set(gone) <= set(dead):
            return bad(f'channels {gone} removed; dead channels {dead}, multiple {p["mult"]}', '', cfg)
        if p.get('comp') is not False and tail in ('conv', 'convb') and act != 'none':
            ref = orig  # dead channels are constant: their contribution moves into the next layer
        else:
            return {'status': 'ok', 'detail': '', 'steps': 1, 'nontrivial': bool(gone), 'sig': f'{len(gone)}'}
    else:
        ref = copy.deepcopy(orig)  # compensation: the removed channels are replaced by the constant act(beta)
        if tail not in ('conv', 'convb') or act == 'none':
            return {'status': 'ok', 'detail': '', 'steps': 1, 'nontrivial': bool(gone), 'sig': f'{len(gone)}'}
        with torch.no_grad():
            ref.bn.weight[gone] = 0
    y = lib.gen_inputs([[2, 3, 8, 8]], 1)[0]
    with torch.no_grad():
        a, b = m(y), ref(y)
    e = lib.compare([a], [b], atol=1e-3, rtol=1e-3)
    if e:
        return bad(f'after removing {gone} (dead: {dead}) the function changed: {e}', '', cfg)
    return {'status': 'ok', 'detail': '', 'steps': 2, 'nontrivial': bool(gone), 'sig': f'{len(gone)}'}
