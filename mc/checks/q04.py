"""Q04: the layer-wise configuration of the quantizers round trips and is honoured."""
import copy
import itertools
import os

import torch
import torch.nn as nn

from .. import lib, quantprog
from ..quantprog import SHAPES, chain

PROPERTY = 'Q04'
LEVEL = 'model_checking'
RULE = (
    'for all listed programs and both quantizers, all histories of the form: quantize, change one entry (thorough: every pair) of the written configuration, or its default, or an action of an operator kind, through the file or a dict, quantize again, quantize once more unchanged. '
    'After each step: the written configuration, the generated code, the layers that carry fake quantizers and the function without rounding are compared with what the configuration says. Non-trivial: the changed entry was quantized before and is not after (or the other way round).'
)
ASSUMPTIONS = ['float32, CPU; entries of an operator that is fused into a layer belong to that layer']
RECYCLE = 250

PROGS = {
    'i': [['conv', 'bn', 'relum', 'conv', 'relu6', 'flat', 'lin'], ['dw', 'bn', 'c2', 'addk', 'conv'], ['conv', 'res', 'cat1', 'conv', 'prelum', 'conv'], ['conv', 'mulk', 'deconv', 'bn', 'relum', 'gapm', 'flat', 'lin'], ['conv', 'sig', 'swish', 'conv'], ['conv', 'softm', 'conv'], ['conv', 'silu', 'conv', 'pad', 'interp', 'conv'], ['conv', 'stack1', 'mean1', 'conv', 'abs', 'conv'], ['bn', 'conv', 'hsw', 'conv'], ['conv', 'ln', 'conv'], ['conv', 'drop', 'relu', 'clampnx', 'conv'], ['conv', 'avgp', 'maxp', 'conv']],
    's': [['conv1', 'bn', 'relum', 'conv1', 'deconv1', 'lin'], ['conv1', 'glu1', 'conv1'], ['deconv1', 'lin', 'bn', 'relum']],
    'v': [['lin', 'bn', 'relum', 'lin', 'lsoft'], ['lin', 'sub', 'linnb', 'rsub', 'lin']],
    'q': [['lin', 'lstm', 'lin'], ['gru', 'lin'], ['lstm', 'ln', 'lin'], ['bilstm', 'lin']],
}
DAGS = [
    ([['conv', ['x0']], ['relum', ['v0']], ['conv', ['v0']], ['add', ['v1', 'v2']], ['conv', ['v3']]], 'i'),
    ([['conv', ['x0']], ['conv', ['x0']], ['catz', ['v0', 'v1']], ['conv', ['v2']], ['mul', ['v0', 'v1']]], 'i'),
    ([['lin', ['x0']], ['lin', ['v0']], ['addr', ['v0', 'v1']], ['lin', ['v2']]], 'v'),
]
WEIGHTED = (nn.Conv1d, nn.Conv2d, nn.ConvTranspose1d, nn.ConvTranspose2d, nn.Linear)
ACTIONS = ['lstm:disable', 'conv:disable', 'lin:disable', 'relu:disable', 'add:disable', 'gru:disable', 'flatten:disable', 'sigmoid:disable', 'ln:rewrite', 'softmax:rewrite', 'silu:disable', 'cat:disable']
ACT = {'lstm': nn.LSTM, 'conv': nn.Conv2d, 'lin': nn.Linear, 'relu': nn.ReLU, 'gru': nn.GRU, 'sigmoid': 'sigmoid', 'add': 'add', 'flatten': 'flatten', 'ln': nn.LayerNorm, 'softmax': nn.Softmax, 'silu': nn.SiLU, 'cat': 'cat'}


def cases(tier):
    quick = tier == 'quick'
    progs = [(chain([('conv' if o == 'c2' else 'addk' if o == 'sub' else o) for o in p]), sh) for sh, ps in PROGS.items() for p in ps] + DAGS
    for n, ((st, sh), k) in enumerate(itertools.product(progs, ('qat', 'ptq'))):
        name = '>'.join(o for o, _ in st)
        p = {'st': st, 'sh': sh, 'k': k}
        for c in ('def', 'pc') if not quick else ('def',):
            q = dict(p, c=c)
            yield f'{name}:{k}:{c}:same', dict(q, t='same')
            for i in range(len(st) + 2):
                for via in ('file', 'dict'):
                    yield f'{name}:{k}:{c}:off{i}:{via}', dict(q, t='off', off=[i], via=via)
                yield f'{name}:{k}:{c}:only{i}', dict(q, t='only', off=[i], via='dict' if i % 2 else 'file')
            if not quick or n % 5 == 0:
                for i, j in itertools.combinations(range(len(st) + 1), 2):
                    yield f'{name}:{k}:{c}:off{i},{j}', dict(q, t='off', off=[i, j], via='file' if (i + j) % 2 else 'dict')
            yield f'{name}:{k}:{c}:none', dict(q, t='only', off=[], via='dict')
            yield f'{name}:{k}:{c}:ignore', dict(q, t='ignore')
            for a in ACTIONS:
                yield f'{name}:{k}:{c}:{a}', dict(q, t='act', a=a)


def build(p):
    x = lib.gen_inputs([SHAPES[p['sh']]], 0)[0]
    used = {a for _, args in p['st'] for a in args}
    outs = [f'v{i}' for i in range(len(p['st'])) if f'v{i}' not in used]
    model, src = quantprog.make(p['st'], outs, [x], repr(p['st']))
    return model, src, x


def quantize(p, model, x, d, cfg=None):
    cfg = dict({'def': {}, 'pc': {'per_tensor': False}}[p['c']], **(cfg or {}))
    q = quantprog.quantizer(p['k'], copy.deepcopy(model), x, cfg, d)
    qm = q.quantize()
    code = [f for f in os.listdir(d) if f.endswith('.py')]
    yml = [f for f in os.listdir(d) if f.endswith('.yml')]
    text = open(os.path.join(d, code[0])).read()
    import ruamel.yaml

    y = ruamel.yaml.YAML(typ='safe').load(open(os.path.join(d, yml[0])))
    return qm, text, dict(y or {}), os.path.join(d, yml[0])


def quantized(qm):
    """names of the modules that quantize their weights or results"""
    r = set()
    for n, m in qm.named_modules():
        if (hasattr(m, 'activation_post_process') or hasattr(m, 'weight_fake_quant')) and not hasattr(m, 'calculate_qparams') and not type(m).__name__.startswith(('QuantStub', 'DeQuantStub')):
            r.add(n)
    return r


def weighted(qm):
    r = {}
    for n, m in qm.named_modules():
        if isinstance(m, WEIGHTED) and '.' not in n and 'fake' not in n:
            r[n] = hasattr(m, 'weight_fake_quant') or getattr(m, 'qconfig', None) is not None
    for n, m in qm.named_modules():
        if type(m).__name__ in ('ConvReLU2d', 'ConvReLU1d', 'LinearReLU', 'ConvBn2d', 'ConvBnReLU2d', 'ConvBn1d') and '.' not in n:
            r[n] = hasattr(m, 'weight_fake_quant') or any(hasattr(c, 'qconfig') for c in m.modules())
    return r


def run_case(p):
    lib.quiet_tinynn()
    model, src, x = build(p)
    if model is None:
        return {'status': 'reject', 'detail': 'not a PyTorch program', 'steps': 0}
    d = lib.scratch(lib.uniq('lw'))
    os.makedirs(d, exist_ok=True)
    try:
        return body(p, model, src, x, d)
    except lib.Fail as e:
        raise lib.Fail(f'{e}\n{src}')
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)) or type(e).__name__ == 'CaseTimeout':
            raise
        return {'status': 'refuse', 'detail': quantprog.err(e) + '\n' + src, 'steps': 1}


def function(p, model, qm):
    quantprog.fq_off(qm)
    qm.eval()
    m = copy.deepcopy(model).eval()
    y = lib.gen_inputs([SHAPES[p['sh']]], 5)[0]
    with torch.no_grad():
        for k in qm.modules():
            if hasattr(k, 'averaging_constant') or hasattr(k, 'calculate_qparams'):
                pass
        e = quantprog.sqnr_close(qm(y), m(y), 2e-4, 1e-5)
    if e:
        raise lib.Fail('without rounding: ' + e)


def body(p, model, src, x, d):
    qm0, code0, y0, yf = quantize(p, model, x, d)
    names = list(y0)
    if p['t'] == 'same':
        ytext = open(yf).read()
        qm1, code1, y1, _ = quantize(p, model, x, d)
        if y1 != y0 or list(y1) != list(y0):
            raise lib.Fail(f'the configuration changed from {y0} to {y1}')
        if open(yf).read() != ytext:
            raise lib.Fail('the text of the configuration changed')
        if code1 != code0 or str(qm1) != str(qm0):
            raise lib.Fail('the rewritten model changed')
        cfg = dict(y0)
        qm2, code2, y2, _ = quantize(p, model, x, d, {'layerwise_config': cfg})
        if cfg != y0 or list(cfg) != list(y0):
            raise lib.Fail(f'the dict of the user was changed to {cfg}')
        if code2 != code0 or y2 != y0 or quantized(qm2) != quantized(qm0):
            raise lib.Fail('the configuration given as a dict gives another model')
        return {'status': 'ok', 'steps': 3, 'nontrivial': bool(quantized(qm0))}
    if p['t'] == 'ignore':
        with open(yf, 'w') as f:
            f.write(''.join(f'{n}: false\n' for n in names))
        qm1, code1, y1, _ = quantize(p, model, x, d, {'ignore_layerwise_config': True})
        if code1 != code0 or y1 != y0:
            raise lib.Fail('the configuration file is not ignored')
        return {'status': 'ok', 'steps': 2, 'nontrivial': True}
    w0 = weighted(qm0)
    if p['t'] == 'act':
        kind, action = p['a'].split(':')
        key = ACT[kind]
        cfg = {'quantize_op_action': {key: action}, 'ignore_layerwise_config': True}
        keep = copy.deepcopy(cfg)
        qm1, code1, y1, _ = quantize(p, model, x, d, cfg)
        if cfg != keep:
            raise lib.Fail('the configuration of the user was changed')
        if action == 'disable' and not isinstance(key, str):
            for n, m in qm1.named_modules():
                if isinstance(m, key) and '.' not in n and (hasattr(m, 'weight_fake_quant') or hasattr(m, 'activation_post_process')):
                    raise lib.Fail(f'{n} is quantized although {kind} is disabled')
        w1 = weighted(qm1)
        for n in w0:
            if w0[n] and not w1.get(n) and not (kind == 'conv' and n.startswith('rewritten_conv')) and not (not isinstance(key, str) and isinstance(getattr(model, n, None), key)):
                raise lib.Fail(f'{n} is not quantized any more')
        if kind != 'lstm':  # weights are rounded in place
            function(p, model, qm1)
        return {'status': 'ok', 'steps': 2, 'nontrivial': code1 != code0}
    off = [names[i] for i in p['off'] if i < len(names)]
    if len(off) < len(p['off']):
        return {'status': 'reject', 'detail': 'no such entry', 'steps': 1}
    if p['t'] == 'only' and any(n.startswith(('rewritten_', 'fuse_')) for n in off):
        return {'status': 'reject', 'detail': 'an operator that the quantizer adds', 'steps': 1}
    if p['t'] == 'off':
        cfg = dict(y0, **{n: False for n in off})
    else:
        cfg = dict({'default': False}, **{n: True for n in off})
    if p['via'] == 'file':
        with open(yf, 'w') as f:
            f.write(''.join(f'{n}: {str(v).lower()}\n' for n, v in cfg.items()))
        qm1, code1, y1, _ = quantize(p, model, x, d)
    else:
        given = dict(cfg)
        qm1, code1, y1, _ = quantize(p, model, x, d, {'layerwise_config': given})
        if given != cfg:
            raise lib.Fail(f'the dict of the user was changed to {given}')
    w1 = weighted(qm1)
    q0, q1 = quantized(qm0), quantized(qm1)
    if p['t'] == 'off':
        for n in off:
            if y1.get(n) is not False:
                raise lib.Fail(f'{n} is turned off, but written as {y1.get(n)}')
            if w1.get(n) or n in q1:
                raise lib.Fail(f'{n} is turned off, but quantized')
        for n in w0:
            if n not in off and w0[n] and not w1.get(n):
                raise lib.Fail(f'{n} is not quantized any more')
        for n in y0:
            if n not in off and n in y1 and y1[n] != y0[n]:
                raise lib.Fail(f'the entry of {n} changed to {y1[n]}')
    else:
        for n in w1:
            if w1[n] and n not in off:
                raise lib.Fail(f'{n} is quantized, but only {off} should be')
        for n in off:
            if w0.get(n) and not w1.get(n):
                raise lib.Fail(f'{n} is turned on, but not quantized')
        if not off and q1:
            raise lib.Fail(f'{sorted(q1)} are quantized, though nothing should be')
    # what was written leads to the same model again
    qm2, code2, y2, _ = quantize(p, model, x, d)
    if code2 != code1 or y2 != y1 or quantized(qm2) != q1 or weighted(qm2) != w1:
        raise lib.Fail(f'the written configuration gives another model')
    function(p, model, qm1)
    return {'status': 'ok', 'steps': 3, 'nontrivial': q0 != q1}
