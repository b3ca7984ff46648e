"""P04: the FLOPs reported by a pruner are those of the layers, with masks registered and after pruning."""
import itertools

import torch
import torch.nn as nn

from .. import lib, pruneprog
from .p01 import C4, FIRST, JOINS, NEXT, S, chain, lib_err

PROPERTY = 'P04'
LEVEL = 'model_checking'
RULE = (
    'all networks made of at most the stated number of layers over the alphabet are brought through every state of a pruner (built, calculated again, masks '
    'registered, graph regenerated, masks applied, calculated by a new pruner); in each the count must be that of a reference counter that watches the network '
    'itself run. Non-trivial: something was removed and the count changed.'
)
ASSUMPTIONS = ['with masks registered, layers with weights count as they will after applying them, others as they are (see the known finding)', 'float32, CPU']
RECYCLE = 600

EXTRA = {
    'relum': ('self.m{i}({x})', 'nn.ReLU()'), 'reluin': ('self.m{i}({x})', 'nn.ReLU(inplace=True)'), 'avgpp': ('self.m{i}({x})', 'r4(nn.AvgPool2d(3, 2, padding=1), {d})'),
    'gap1': ('self.m{i}({x})', 'r4(nn.AdaptiveAvgPool2d(1), {d})'), 'convs': ('self.m{i}({x})', 'r4(nn.Conv2d({c}, 8, 3, stride=2), {d})'),
    'convr': ('self.m{i}({x})', 'r4(nn.Conv2d({c}, 6, (3, 1), padding=(1, 0), dilation=(1, 2)), {d})'), 'conv0': ('self.m{i}({x})', 'r4(nn.Conv2d({c}, 10, 3, bias=False), {d})'),
    'dconvs': ('self.m{i}({x})', 'r4(nn.ConvTranspose2d({c}, 8, 3, stride=2, padding=1, output_padding=1, bias=False), {d})'),
    'rbr': ('self.m{i}(torch.relu(self.m{i}({x})))', 'nn.ReLU()'), 'bnr': ('self.m{i}({x})', 'nn.Sequential((nn.BatchNorm2d if {d} == 4 else nn.BatchNorm1d)({c}), nn.ReLU())'),
    'relu6': ('self.m{i}({x})', 'nn.ReLU6()'), 'bottle': ('self.m{i}({x})', 'r4(nn.Sequential(nn.Conv2d({c}, 4, 1), nn.ReLU(), nn.Conv2d(4, {c}, 3, padding=1)), {d})'),
}
pruneprog.OPS.update(EXTRA)
FIRSTS = {'i': C4 + ['convs', 'convr', 'conv0', 'dconvs', 'dw', 'ddw', 'dwm'], 's': ['conv1', 'dconv1'], 'q': ['lin', 'linb', 'gru', 'lstm'], 'v': ['lin', 'linb'], 'b': ['conv', 'gconv', 'dconv', 'convs']}
NEXT = dict(NEXT, i=['conv', 'gconv', 'dconv', 'convs', 'dconvs'], b=['conv', 'dconvg', 'convr'])
MID = {
    'i': ['relum', 'reluin', 'relu', 'rbr', 'bn', 'bnr', 'bnna', 'avgpm', 'avgpp', 'gapm', 'gap1', 'relu6', 'prelu', 'maxp', 'catx', 'catr', 'res', 'rest', 'se', 'dw', 'conv', 'chs', 'bottle', 'gconv', 'dconv'],
    's': ['relum', 'bn', 'bnr', 'conv1', 'dw1', 'catr'], 'q': ['relum', 'reluin', 'rbr', 'relu', 'lin', 'resl', 'catl', 'catr', 'gru', 'p102'],
    'v': ['relum', 'rbr', 'bn', 'bnr', 'relu', 'lin', 'catr', 'chs', 'resl'],
}
MID['b'] = MID['i'][:18]


def cases(tier):
    quick = tier == 'quick'
    seen = set()
    for b in ('relum', 'avgpm', 'gapm'):
        yield f'points:{b}', {'st': chain(['conv', b, 'conv']), 'shape': S['i'], 'outs': ['v2'], 'sp': 0.5, 'points': True}

    def emit(st, sh, sp):
        used = {a for _, args in st for a in args}
        outs = [f'v{i}' for i in range(len(st)) if f'v{i}' not in used]
        cid = ';'.join(f'{o}({",".join(a)})' for o, a in st) + f':{sh}:{sp}'
        if cid not in seen:
            seen.add(cid)
            yield cid, {'st': st, 'shape': S[sh], 'outs': outs, 'sp': sp}

    for sh in FIRSTS:
        for a in FIRSTS[sh]:
            for sp in (0.0, 0.25, 0.5, 0.75):
                yield from emit(chain([a]), sh, sp)
            for b in MID[sh]:
                yield from emit(chain([a, b]), sh, 0.5)
                yield from emit(chain([a, b, 'flat', 'lin']), sh, 0.5)
                for c in NEXT[sh][:1] if quick else NEXT[sh]:
                    for sp in (0.5,) if quick else (0.25, 0.5, 0.75):
                        yield from emit(chain([a, b, c]), sh, sp)
    for sh in FIRSTS:
        for a in FIRSTS[sh][:1] if quick else FIRSTS[sh][:3]:
            for b, c in itertools.product(MID[sh], repeat=2):
                for z in NEXT[sh][:1] if quick else NEXT[sh][:3]:
                    yield from emit(chain([a, b, c, z]), sh, 0.5)
                yield from emit(chain([a, b, 'flat', c, 'lin']), sh, 0.5)
        for a, b in itertools.product(FIRSTS[sh][:4 if quick else 8], repeat=2):
            for j in JOINS:
                for m in (NEXT[sh][0], 'bnr'):
                    yield from emit([[a, ['x0']], [b, ['x0']], [j, ['v0', 'v1']], [m, ['v2']], [NEXT[sh][0], ['v3']]], sh, 0.5)


def reference(model, x, layers=True, points=True):
    """watch the network run and count the documented multiplications"""
    total = [0]
    hooks = []

    def count(m, args, out):
        i = args[0]
        if not (points if type(m) in (nn.AvgPool2d, nn.AdaptiveAvgPool2d, nn.ReLU) else layers):
            return
        if type(m) in (nn.Conv2d, nn.ConvTranspose2d):
            w = m.weight
            per = (w.shape[1] if type(m) is nn.Conv2d else w.shape[0] // m.groups) * w.shape[2] * w.shape[3]
            total[0] += out.numel() * (per + (m.bias is not None))
        elif type(m) is nn.BatchNorm2d:
            total[0] += 2 * i.numel()
        elif type(m) in (nn.AvgPool2d, nn.AdaptiveAvgPool2d, nn.ReLU):
            total[0] += i.numel()
        elif type(m) is nn.Linear:
            total[0] += m.weight.shape[1] * out.numel()

    for m in model.modules():
        hooks.append(m.register_forward_hook(count))
    try:
        with torch.no_grad():
            model(x)
    finally:
        for h in hooks:
            h.remove()
    return total[0]


def run_case(p):
    from tinynn.prune import OneShotChannelPruner

    lib.quiet_tinynn()
    x = lib.gen_inputs([p['shape']], 0)[0]
    model, src = pruneprog.make(p['st'], p['outs'], ['x0'], [x], repr(p['st']))
    if model is None:
        return {'status': 'reject', 'detail': 'not a PyTorch program', 'steps': 0}
    model.eval()
    dense = reference(model, x)
    points = reference(model, x, layers=False)
    steps = 0

    def same(got, want, what):
        nonlocal steps
        steps += 1
        if got != want:
            raise lib.Fail(f'{what}: {got} reported, {want} counted\n{src}')

    try:
        pr = OneShotChannelPruner(model, x, {'sparsity': p['sp'], 'metrics': 'l2_norm'})
    except Exception as e:
        return {'status': 'refuse', 'detail': 'refused: ' + lib_err(e), 'steps': 0}
    same(pr.calc_flops(), dense, 'dense')
    same(pr.calc_flops(), dense, 'dense, calculated again')
    try:
        pr.register_mask()
    except Exception as e:
        return {'status': 'refuse', 'detail': 'refused: ' + lib_err(e), 'steps': steps}
    masked = [pr.calc_flops(), pr.calc_flops()]
    try:
        pr.apply_mask()
        with torch.no_grad():
            model(x)
    except Exception as e:
        return {'status': 'refuse', 'detail': 'refused: ' + lib_err(e), 'steps': steps}
    want = reference(model, x)
    same(masked[1], masked[0], 'masks registered, calculated again')
    same(pr.calc_flops(), want, 'pruned')
    same(pr.calc_flops(), want, 'pruned, calculated again')
    pr.reset()
    same(pr.calc_flops(), want, 'pruned, after a reset')
    try:
        fresh = OneShotChannelPruner(model, x, {'sparsity': 0.5, 'metrics': 'l2_norm'})
    except Exception:
        fresh = pr  # nothing left to prune
    same(fresh.calc_flops(), want, 'pruned, by a new pruner')
    # ReLU and average pooling carry no masks: until the masks are applied, they count as they are
    if not p.get('points'):
        want = reference(model, x, points=False) + points
    same(masked[0], want, f'masks registered (dense: {dense})')
    return {'status': 'ok', 'detail': '', 'steps': steps, 'nontrivial': want < dense, 'sig': str(want)}
