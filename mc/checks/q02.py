"""Q02: prepared models follow the requested quantization scheme."""
import copy
import itertools

import torch
import torch.nn as nn

from .. import lib, quantprog
from ..quantprog import SHAPES, chain

PROPERTY = 'Q02'
LEVEL = 'model_checking'
RULE = (
    'every combination of quantizer, backend, symmetry, granularity, observer generation, rounding and algorithm is applied to a set of programs with the real quantizers; every fake quantizer '
    'and observer of the prepared model is compared with a table written from the documentation, its parameters are recomputed from the observed ranges, and its rounding is compared with an '
    'exact integer formula on a grid. Input and operator statistics, bfloat16 and dynamic quantization likewise. Non-trivial: at least one quantizer was compared.'
)
ASSUMPTIONS = ['8 bit schemes, PyTorch 2.5', 'generic finite inputs, float32, CPU']
RECYCLE = 250

PROGS = {
    'img': ('i', ['conv', 'bn', 'relum', 'dw', 'relu6', 'res', 'deconv', 'bn', 'gapm', 'flat', 'lin', 'relum']),
    'gimg': ('i', ['bn', 'gconv', 'clampnx', 'catr', 'convrep', 'prelum', 'silu', 'interp']),
    'seq': ('s', ['conv1', 'bn', 'relum', 'conv1nb', 'cat1', 'deconv1', 'sig', 'lin']),
    'vec': ('v', ['lin', 'bn', 'relum', 'linnb', 'ln', 'mulk', 'softm']),
    'lstm': ('q', ['lin', 'lstm', 'linnb']), 'gru': ('q', ['gru', 'lin']),
    'unq': ('i', ['conv', 'pow2', 'abs', 'log', 'insn', 'relum', 'softm']),
    'dec': ('i', ['deconv', 'relu', 'deconvnb', 'bn', 'relu6', 'deconvg']),
}
UNQUANT = {'InstanceNorm2d', 'GroupNorm', 'RNN', 'LogSoftmax', 'Upsample'}


def configs(kind):
    for b, asym, pt, leg in itertools.product(('qnnpack', 'fbgemm', 'onnx', 'tensorrt'), (True, False), (True, False), (True, False)):
        if b == 'fbgemm' and (not asym or pt):
            continue
        base = {'backend': b, 'asymmetric': asym, 'per_tensor': pt, 'legacy_fq': leg}
        yield base
        if kind == 'qat':
            yield dict(base, rounding_mode='tflite')
        else:
            yield dict(base, algorithm='kl')


def cases(tier):
    quick = tier == 'quick'
    for kind in ('qat', 'ptq'):
        for c in configs(kind):
            for p in PROGS:
                if c['backend'] == 'tensorrt' and (p in ('lstm', 'gru') or kind == 'ptq'):
                    continue
                if quick and ('rounding_mode' in c or 'algorithm' in c) and p not in ('img', 'vec', 'lstm'):
                    continue
                if c.get('algorithm') == 'kl' and p not in ('vec', 'seq'):
                    continue
                yield f'scheme:{kind}:{p}:' + ','.join(f'{k}={v}' for k, v in c.items()), {'t': 'scheme', 'k': kind, 'p': p, 'c': c}
    for kind, st, pt in itertools.product(('qat', 'ptq'), [[(0, 1.0)], [(128, 128.0)], [(103.53, 57.375)], [(127, 63.75)], [None]], (True, False)):
        for pre in (['conv'], ['relum'], ['mulk'], ['cat1', 'conv']):
            yield f'stats1:{kind}:{st}:{pt}:{"-".join(pre)}', {'t': 'stats', 'k': kind, 's': st, 'c': {'per_tensor': pt}, 'n': 1, 'st': chain(pre)}
    for kind, st, j in itertools.product(('qat', 'ptq'), itertools.product([(0, 1.0), (128, 64.0), None], repeat=2), ('add', 'catz', 'mul')):
        yield f'stats2:{kind}:{st}:{j}', {'t': 'stats', 'k': kind, 's': list(st), 'c': {}, 'n': 2, 'st': [[j, ['x0', 'x1']], ['conv', ['v0']]]}
    for kind, c in itertools.product(('qat', 'ptq'), ({'set_quantizable_op_stats': True}, {'quantized_op_stats': {'sigmoid': (0, 256.0), nn.Sigmoid: (0, 200.0)}}, {'set_quantizable_op_stats': True, 'quantized_op_stats': {nn.Sigmoid: (3, 100.0)}}, {'quantized_op_stats': {nn.ReLU: (0, 51.0)}})):
        for st in (['lin', 'softmm'], ['lin', 'softm'], ['lin', 'lsoft', 'linnb'], ['lin', 'sigm', 'linnb'], ['lin', 'mulk', 'relum'], ['softmm', 'lin', 'sigm']):
            yield f'opstats:{kind}:{sorted(map(str, c))}{len(str(c))}:{"-".join(st)}', {'t': 'ops', 'k': kind, 'c': c, 'st': chain(st)}
    for r, sc, zp, sym in itertools.product(('TFLite', 'BF16', 'PTQ'), (0.1, 0.5, 0.0078125, 1.0, 3.7), (0, 3, 128, 255), (False, True)):
        if sym and zp != 128 or r == 'BF16' and (zp or sym):
            continue
        yield f'round:{r}:{sc}:{zp}:{sym}', {'t': 'round', 'r': r, 's': sc, 'z': zp}
    for o, vals in itertools.product(('MinMaxObserver', 'PerChannelMinMaxObserver', 'MovingAverageMinMaxObserver', 'MovingAveragePerChannelMinMaxObserver'), itertools.product((-2.0, 0.0, 0.5, 3.0), repeat=4)):
        if vals[0] <= vals[1] and (not quick or sum(vals) != 2.5):
            yield f'obs:{o}:{vals}', {'t': 'obs', 'o': o, 'v': vals}
    for p in ('img', 'seq', 'vec', 'lstm', 'unq'):
        yield f'bf16:{p}', {'t': 'bf16', 'p': p}
    for st in (['lin'], ['lin', 'relum', 'linnb'], ['lstm'], ['lstmbf', 'lin'], ['bilstm'], ['lstm2'], ['lstmh'], ['lin', 'lstm', 'ln'], ['ln', 'lin', 'softm', 'lin']):
        for sh in ('q', 'v'):
            if sh == 'v' and any('lstm' in o for o in st):
                continue
            yield f'dyn:{"-".join(st)}:{sh}', {'t': 'dyn', 'st': chain(st), 'sh': sh}


def qparams(mn, mx, qmin, qmax, sym, unsigned):
    mn, mx = torch.clamp(mn.double(), max=0), torch.clamp(mx.double(), min=0)
    if sym:
        s = torch.maximum(-mn, mx) / ((qmax - qmin) / 2)
        return s.clamp(min=1.1920929e-07), torch.full_like(s, 128.0 if unsigned else 0.0)
    s = ((mx - mn) / (qmax - qmin)).clamp(min=1.1920929e-07)
    return s, torch.clamp(qmin - torch.round(mn / s), qmin, qmax)


def act_spec(k, c):
    b, sym = c['backend'], not c['asymmetric']
    if b in ('onnx', 'tensorrt') and sym:
        return torch.qint8, (-128, 127), sym
    if b == 'fbgemm':
        return torch.quint8, (0, 127), sym
    return torch.quint8, (0, 255), sym


def check_range(name, m, dtype, rng, sym, what):
    if m.dtype != dtype:
        raise lib.Fail(f'{name}: {what} of type {m.dtype} instead of {dtype}')
    got = (m.quant_min, m.quant_max)
    if got not in (rng, (None, None)) and not (rng == 'w' and got in ((-128, 127), (-127, 127))):
        raise lib.Fail(f'{name}: {what} range {got} instead of {rng}')
    if ('symmetric' in str(m.qscheme)) != sym:
        raise lib.Fail(f'{name}: {what} is {m.qscheme}, symmetric={sym} is asked for')


def run_case(p):
    lib.quiet_tinynn()
    torch.manual_seed(lib.seed_for(repr(sorted(map(str, p.items())))))
    return globals()['case_' + p['t']](p)


def build(st, sh, n=1):
    xs = lib.gen_inputs([SHAPES[sh]] * n, 0)
    used = {a for _, args in st for a in args}
    model, src = quantprog.make(st, [f'v{i}' for i in range(len(st)) if f'v{i}' not in used], xs, repr(st))
    if model is None:
        raise lib.Fail('not a PyTorch program: ' + repr(st))
    return model, xs, src


def prep(kind, model, xs, cfg):
    given = copy.copy(cfg)
    ops = dict(cfg.get('quantized_op_stats') or {})
    q = quantprog.quantizer(kind, model, tuple(xs), given)
    qm = q.quantize()
    if given != cfg or ops != dict(given.get('quantized_op_stats') or {}):
        raise lib.Fail(f'the configuration of the user has been modified: {given}')
    return q, qm


def calibrate(qm, sh, n, modes=(True, False)):
    for tr, k in zip((True, False, False), (1, 2, 3)):
        qm.train(tr and modes[0])
        with torch.no_grad():
            qm(*lib.gen_inputs([SHAPES[sh]] * n, k))


def case_scheme(p):
    sh, names = PROGS[p['p']]
    model, xs, src = build(chain(names), sh)
    kind, c = p['k'], p['c']
    try:
        q, qm = prep(kind, model, xs, c)
        calibrate(qm, sh, 1, (kind == 'qat', False))
    except lib.Fail:
        raise
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)) or type(e).__name__ == 'CaseTimeout':
            raise
        return {'status': 'refuse', 'detail': quantprog.err(e) + '\n' + src, 'steps': 1}
    dtype, rng, sym = act_spec(kind, c)
    n = 0
    mods = dict(qm.named_modules())
    for name, m in mods.items():
        t = type(m).__name__
        if name.endswith('weight_fake_quant'):
            par = mods[name[: -len('.weight_fake_quant')]]
            pn = type(par).__name__
            conv = 'Conv' in pn and 'Transpose' not in pn
            check_range(name, m, torch.qint8, 'w', True, 'weight')
            perch = 'channel' in str(m.qscheme)
            want = not c['per_tensor'] and conv
            if perch != want and not (c['backend'] == 'fbgemm' and '.cell.' in name):
                raise lib.Fail(f'{name} ({pn}): weights quantized {"per channel" if perch else "per tensor"}, per_tensor={c["per_tensor"]} backend={c["backend"]}\n{src}')
            if perch and hasattr(m, 'scale') and m.scale.numel() != par.weight.shape[0]:
                raise lib.Fail(f'{name}: {m.scale.numel()} scales for weight {tuple(par.weight.shape)}')
            if hasattr(m, 'scale') and c['legacy_fq']:
                w = par.weight.detach()
                if hasattr(par, 'bn') and hasattr(par, 'weight'):
                    w = None
                if w is not None:
                    o = m.activation_post_process
                    mn, mx = (w.flatten(1).amin(1), w.flatten(1).amax(1)) if perch else (w.min(), w.max())
                    s, z = qparams(mn, mx, m.quant_min, m.quant_max, True, False)
                    if not torch.allclose(m.scale.double().flatten(), s.flatten(), rtol=1e-4):
                        raise lib.Fail(f'{name}: scale {m.scale.flatten()[:3].tolist()} where the weights ask for {s.flatten()[:3].tolist()}')
            n += 1
        elif hasattr(m, 'calculate_qparams') and 'FixedQParams' not in t and 'weight' not in name and not (name.endswith('activation_post_process.activation_post_process')):
            if hasattr(m, 'activation_post_process') and 'TFLite' not in t and c.get('rounding_mode') == 'tflite':
                raise lib.Fail(f'{name}: {t} does not round as TFLite does')
            if hasattr(m, 'activation_post_process') and c.get('rounding_mode') != 'tflite' and 'TFLite' in t:
                raise lib.Fail(f'{name}: {t} rounds as TFLite does')
            if kind == 'ptq' and c.get('algorithm') == 'kl' and c['backend'] in ('qnnpack', 'fbgemm') and 'KL' not in t:
                raise lib.Fail(f'{name}: {t} although algorithm=kl')
            r = rng
            if kind == 'qat' and c['backend'] == 'fbgemm':
                r = (m.quant_min, m.quant_max) if (m.quant_min, m.quant_max) in ((0, 127), (0, 255)) else (0, 127)
            if kind == 'ptq' and (m.quant_min, m.quant_max) in ((0, 255), (0, 127)) and c['backend'] == 'fbgemm':
                r = (m.quant_min, m.quant_max)
            check_range(name, m, dtype, r, sym, 'activation')
            if 'channel' in str(m.qscheme):
                raise lib.Fail(f'{name}: activation is quantized per channel')
            o = getattr(m, 'activation_post_process', m)
            if c['backend'] == 'fbgemm' and hasattr(o, 'reduce_range') and not o.reduce_range:
                raise lib.Fail(f'{name}: full range with fbgemm')
            if c['legacy_fq'] and hasattr(m, 'scale') and 'MinMax' in type(o).__name__ and o.min_val.numel() and torch.isfinite(o.min_val).all():
                s, z = qparams(o.min_val, o.max_val, *((o.quant_min, o.quant_max) if o.quant_max is not None else (m.quant_min, m.quant_max)), sym, dtype == torch.quint8)
                if m.observer_enabled[0] and not (torch.allclose(m.scale.double(), s.reshape(m.scale.shape), rtol=1e-3) and bool((m.zero_point.double() - z.reshape(m.zero_point.shape)).abs().max() <= 1)):
                    raise lib.Fail(f'{name}: scale {m.scale.tolist()} zero point {m.zero_point.tolist()} where range [{o.min_val.item():.5g}, {o.max_val.item():.5g}] asks for {s.tolist()} {z.tolist()}')
            n += 1
        elif c['backend'] != 'tensorrt' and t in UNQUANT and getattr(m, 'activation_post_process', None) is not None:
            raise lib.Fail(f'{name}: {t} is not quantizable but has an observer')
        if kind == 'ptq' and t in ('Conv1d', 'Conv2d', 'Linear', 'ConvTranspose2d', 'ConvTranspose1d', 'ConvReLU2d', 'LinearReLU') and getattr(m, 'qconfig', None) is not None and 'layer_' not in name and not name.endswith('.0'):
            wo = m.qconfig.weight()
            conv = 'Conv' in t and 'Transpose' not in t
            check_range(name, wo, torch.qint8, 'w', True, 'weight')
            perch = 'channel' in str(wo.qscheme)
            if perch != (not c['per_tensor'] and conv):
                raise lib.Fail(f'{name} ({t}): weights quantized {"per channel" if perch else "per tensor"}, per_tensor={c["per_tensor"]} backend={c["backend"]}\n{src}')
            n += 1
    if not n:
        raise lib.Fail('nothing is quantized\n' + src)
    return {'status': 'ok', 'detail': '', 'steps': n, 'nontrivial': True}


def stubs(qm):
    return [m for n, m in qm.named_modules() if type(m).__name__ == 'QuantStub']


def case_stats(p):
    model, xs, src = build(p['st'], 'i', p['n'])
    cfg = dict(p['c'], quantized_input_stats=p['s'])
    q, qm = prep(p['k'], model, xs, cfg)
    calibrate(qm, 'i', p['n'], (p['k'] == 'qat', False))
    n = 0
    for i, s in enumerate(p['s']):
        a = getattr(qm, f'fake_quant_{i}').activation_post_process
        sc, zp = (a.scale, a.zero_point) if hasattr(a, 'scale') else a.calculate_qparams()
        if s is None:
            if not hasattr(a, 'observer_enabled') or bool(a.observer_enabled[0]):
                n += 1
                x = torch.cat([lib.gen_inputs([SHAPES['i']] * p['n'], k)[i].flatten() for k in (1, 2, 3)])
                if p['k'] == 'ptq' and a.max_val.item() < 0.5 * x.max().item():
                    raise lib.Fail(f'input {i} has not been observed')
                continue
            raise lib.Fail(f'input {i}: no statistics were given but it is not observed')
        if abs(sc.item() * s[1] - 1) > 1e-4 or abs(zp.item() - s[0]) > 1:
            raise lib.Fail(f'input {i}: scale {sc.item()} and zero point {zp.item()} where statistics {s} ask for {1 / s[1]} and {s[0]}\n{src}')
        n += 1
    return {'status': 'ok', 'detail': '', 'steps': n, 'nontrivial': True}


def case_ops(p):
    model, xs, src = build(p['st'], 'v')
    q, qm = prep(p['k'], model, xs, p['c'])
    calibrate(qm, 'v', 1, (p['k'] == 'qat', False))
    want = dict(p['c'].get('quantized_op_stats') or {})
    if p['c'].get('set_quantizable_op_stats'):
        want.update({nn.Softmax: (0, 256.0), nn.LogSoftmax: (255, 16.0)})
    n = 0
    for name, m in qm.named_modules():
        a = getattr(m, 'activation_post_process', None)
        if type(m) in want and a is not None and hasattr(m, 'forward'):
            sc, zp = (a.scale, a.zero_point) if hasattr(a, 'scale') else a.calculate_qparams()
            s = want[type(m)]
            if abs(sc.item() * s[1] - 1) > 1e-3 or zp.item() != s[0]:
                raise lib.Fail(f'{name} ({type(m).__name__}): scale {sc.item()} and zero point {zp.item()} where statistics {s} are given\n{src}')
            n += 1
    return {'status': 'ok', 'detail': '', 'steps': n + 1, 'nontrivial': n > 0}


def case_round(p):
    from tinynn.graph.quantization import fake_quantize as fq

    sc, zp = p['s'], p['z']
    k = torch.arange(-40, 600, dtype=torch.float64) / 2 - zp
    x = (k * sc).float()
    if p['r'] == 'BF16':
        m = fq.FakeQuantizeBFloat16()
        x = torch.cat([x, x * 1.0037])
        b = x.view(torch.int32)
        want = ((b + 0x7FFF + ((b >> 16) & 1)) & ~0xFFFF).view(torch.float32)
        got = m(x)
        if not torch.equal(got, want):
            raise lib.Fail('bfloat16 rounding')
        m.disable_fake_quant()
        if not torch.equal(m(x), x):
            raise lib.Fail('switched off bfloat16 rounding')
        return {'status': 'ok', 'detail': '', 'steps': len(x), 'nontrivial': True}
    cls = fq.FakeQuantizeTFLite if p['r'] == 'TFLite' else fq.PTQFakeQuantize
    m = cls(observer=torch.quantization.MovingAverageMinMaxObserver, quant_min=0, quant_max=255)
    for obs in (False, True):
        m.scale.fill_(sc), m.zero_point.fill_(zp)
        m.apply(torch.quantization.disable_observer)
        if obs:
            m.apply(torch.quantization.enable_observer)
            x = torch.cat([x[:1], x])
        got = m(x)
        s, z = m.scale.double().item(), m.zero_point.item()
        r = x.double() / s
        rr = torch.where((r - r.floor() - 0.5).abs() < 1e-4, torch.where(r > 0, r.floor() + 1, r.floor()), torch.round(r)) if p['r'] == 'TFLite' else torch.round(r)
        want = (torch.clamp(rr + z, 0, 255) - z) * s
        tie = (r - r.floor() - 0.5).abs() < 1e-3
        d = (got.double() - want).abs()
        if not bool((d[~tie] < s * 1e-3).all()) or p['r'] == 'TFLite' and not obs and sc in (0.5, 0.0078125, 1.0) and not bool((d < s * 1e-3).all()):
            i = int(d.argmax())
            raise lib.Fail(f'{p["r"]}: {x[i].item()} with scale {s} zero point {z} becomes {got[i].item()} instead of {want[i].item()}')
        if not (bool(m.observer_enabled[0]) == obs and bool(m.fake_quant_enabled[0])):
            raise lib.Fail('switches have changed')
    m.apply(torch.quantization.disable_fake_quant)
    if not torch.equal(m(x), x) or bool(m.fake_quant_enabled[0]):
        raise lib.Fail('switched off but changes its input')
    return {'status': 'ok', 'detail': '', 'steps': 2 * len(x), 'nontrivial': True}


def case_obs(p):
    from tinynn.graph.quantization import observer as ob

    per = 'PerChannel' in p['o']
    o = getattr(ob, p['o'])(dtype=torch.qint8, qscheme=torch.per_channel_symmetric if per else torch.per_tensor_symmetric, reduce_range=False, **({'ch_axis': 0} if per else {}))
    v = torch.tensor(p['v']).view(2, 2)
    y = o(v)
    if not torch.equal(y, v):
        raise lib.Fail('an observer changes its input')
    sc, zp = o.calculate_qparams()
    m = v.abs().amax(1) if per else v.abs().max()
    want = (m.double() / 127).clamp(min=1.1920929e-07)
    if not torch.allclose(sc.double().flatten(), want.flatten(), rtol=1e-5) or zp.abs().max() != 0:
        raise lib.Fail(f'{p["o"]}{p["v"]}: scale {sc.tolist()} zero point {zp.tolist()} instead of {want.tolist()} 0')
    return {'status': 'ok', 'detail': '', 'steps': 1, 'nontrivial': True}


def case_bf16(p):
    from tinynn.graph.quantization.quantizer import BF16Quantizer

    sh, names = PROGS[p['p']]
    model, xs, src = build(chain(names), sh)
    ref = quantprog.clone(model)
    qm = BF16Quantizer(model, xs[0], work_dir=lib.scratch(lib.uniq('q'))).quantize()
    qm.eval()
    y = lib.gen_inputs([SHAPES[sh]], 1)[0]
    with torch.no_grad():
        outs = lib.flatten(qm(y))
        want = lib.flatten(ref(y))
        for a, b in zip(outs, want):
            if p['p'] not in ('vec', 'unq') and not torch.equal(a, a.to(torch.bfloat16).float()):
                raise lib.Fail('the output is not representable in bfloat16\n' + src)
            if (a - b).abs().max() > 0.1 * b.abs().max():
                raise lib.Fail(f'bfloat16 output differs by {(a - b).abs().max().item():.4g} (max {b.abs().max().item():.4g})\n{src}')
        from tinynn.graph.quantization.fake_quantize import disable_fake_quant, enable_fake_quant

        qm.apply(disable_fake_quant)
        e = quantprog.sqnr_close(qm(y), want, 2e-4, 1e-5)
        if e and 'lstm' not in p['p']:
            raise lib.Fail('with bfloat16 rounding off: ' + e + '\n' + src)
        qm.apply(enable_fake_quant)
        if not torch.equal(lib.flatten(qm(y))[0], outs[0]):
            raise lib.Fail('switching off and on changes the result')
    return {'status': 'ok', 'detail': '', 'steps': 3, 'nontrivial': True}


def case_dyn(p):
    from tinynn.graph.quantization.quantizer import DynamicQuantizer

    model, xs, src = build(p['st'], p['sh'])
    ref = quantprog.clone(model)
    cfg = {'asymmetric': False, 'per_tensor': True}
    q = DynamicQuantizer(model, xs[0], work_dir=lib.scratch(lib.uniq('q')), config=cfg)
    qm = q.quantize()
    qm.eval()
    n = 0
    for name, m in qm.named_modules():
        if type(m) in (nn.Linear, nn.LSTM):
            raise lib.Fail(f'{name} is not quantized dynamically\n{src}')
        n += 'dynamic' in type(m).__module__
    y = lib.gen_inputs([SHAPES[p['sh']]], 1)[0]
    with torch.no_grad():
        for t in (qm, q.convert(qm)):
            a, b = lib.flatten(t(y))[0], lib.flatten(ref(y))[0]
            if a.shape != b.shape or (a - b).abs().max() > 0.06 * b.abs().max() + 0.01:
                raise lib.Fail(f'dynamically quantized output differs by {(a - b).abs().max().item():.4g} (max {b.abs().max().item():.4g})\n{src}')
    if not n:
        raise lib.Fail('nothing quantized\n' + src)
    return {'status': 'ok', 'detail': '', 'steps': 2, 'nontrivial': True}
