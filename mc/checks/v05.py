"""V05: hybrid and float16 quantization round the weights they should and nothing else."""
import glob
import itertools

import numpy as np
import torch

from .. import convprog, fb, lib, tfl
from . import v04

PROPERTY = 'V05'
LEVEL = 'model_checking'
RULE = (
    'all programs up to the stated length over layers with weights (and weights shared, zero, tiny, one-sided, with an outlier, on ties), under all combinations of granularity, input symmetry, weight type, hybrid_conv, '
    'float16, every subset of hybrid_config and the converter options that rewrite layers; the file is read with TensorFlow\'s schema and compared operator by operator with the float file: '
    'same operators, options, connections and constants except the eligible weights, which are within half a step of absmax/127 (or rounded to half); then both are run. '
    'Non-trivial: at least one weight was quantized.'
)
ASSUMPTIONS = ['TFLite reference interpreter is taken as the meaning of a TFLite file', 'weights within the range of float16']
RECYCLE = 250

H = 'hybrid_quantization_from_float'
MODES = {}
for _pc, _as, _ty, _cv in itertools.product((0, 1), (0, 1), ('int8', 'uint8'), (0, 1)):
    if not (_pc and _ty == 'uint8'):
        MODES[f'h{"c" if _pc else "t"}{"a" if _as else "s"}{_ty[0]}{"v" if _cv else "n"}'] = {
            H: True, 'hybrid_per_channel': bool(_pc), 'hybrid_asymmetric_inputs': bool(_as), 'hybrid_quantize_weight_type': _ty, 'hybrid_conv': bool(_cv)
        }
MODES['half'] = {'float16_quantization': True}
MODES['hhalf'] = {H: True, 'hybrid_per_channel': True, 'quantize_target_type': 'int8', 'float16_quantization': True}
MODES['hhalft'] = {H: True, 'float16_quantization': True}
EX = {'': {}, 'gcr': {'group_conv_rewrite': True}, 'grp': {'group_tensors': True}, 'L0': {'optimize': 0}, 'L2': {'optimize': 2}, 'bi': {'map_bilstm_to_lstm': True}, 'un': {'unroll_rnn': True}, 'moc': {'missing_outputs_as_constants': True}, 'micro': {'tflite_micro_rewrite': True}}
MAIN = ('htaiv', 'hcaiv', 'htauv', 'half', 'hhalf')

L = {
    'lin': ('self.m{i}({x})', 'nn.Linear({l}, 4)'), 'linnb': ('self.m{i}({x})', 'nn.Linear({l}, {l}, bias=False)'), 'linr': ('F.relu(self.m{i}({x}))', 'nn.Linear({l}, 4)'),
    'll': ('self.m{i}(self.m{i}({x}))', 'nn.Linear({l}, {l})'), 'tie': ('F.linear(self.m{i}({x}), self.m{i}.weight)', 'nn.Linear({l}, {l})'), 'tieT': ('F.linear(self.m{i}({x}), self.m{i}.weight.t())', 'nn.Linear({l}, 3)'),
    'mm': ('torch.matmul({x}, self.m{i}.weight.t())', 'nn.Linear({l}, 4)'), 'wx': ('{x} * self.m{i}.weight', 'nn.Linear({l}, 1)'), 'wmul': ('self.m{i}({x}) + self.m{i}.weight.sum(1)', 'nn.Linear({l}, 4)'), 'mmx': 'torch.matmul({x}, {x}.transpose(-1, -2))',
    'fz': ('F.linear({x}, self.m{i}.weight * 2.0, self.m{i}.bias)', 'nn.Linear({l}, 4)'),
    'conv1': ('self.m{i}({x})', 'nn.Conv2d({c}, 4, 1)'), 'conv3': ('self.m{i}({x})', 'nn.Conv2d({c}, 4, 3, padding=1)'), 'convs': ('self.m{i}({x})', 'nn.Conv2d({c}, 4, 2, stride=2, bias=False)'), 'dw': ('self.m{i}({x})', 'nn.Conv2d({c}, {c}, 3, padding=1, groups={c})'),
    'dwm': ('self.m{i}({x})', 'nn.Conv2d({c}, {c} * 2, 3, padding=1, groups={c}, bias=False)'), 'gc2': ('self.m{i}({x})', 'nn.Conv2d({c}, 4, 3, padding=1, groups=2)'), 'conv1d': ('self.m{i}({x})', 'nn.Conv1d({c}, 4, 3, padding=1)'), 'dw1d': ('self.m{i}({x})', 'nn.Conv1d({c}, {c}, 3, padding=1, groups={c})'),
    'deconv': ('self.m{i}({x})', 'nn.ConvTranspose2d({c}, 4, 2, stride=2)'), 'cbn': ('self.m{i}({x})', 'nn.Sequential(nn.Conv2d({c}, 4, 3, bias=False), nn.BatchNorm2d(4), nn.ReLU())'), 'cc': ('self.m{i}(self.m{i}({x}))', 'nn.Conv2d({c}, {c}, 3, padding=1)'),
    'csh': ('F.conv2d(self.m{i}({x}), self.m{i}.weight, padding=1)', 'nn.Conv2d({c}, {c}, 3, padding=1)'), 'cpl': ('F.conv2d(self.m{i}({x}.mean((2, 3)))[:, :, None, None], self.m{i}.weight[:, :, None, None])', 'nn.Linear({c}, {c})'),
    'lstm': ('self.m{i}({x})[0]', 'nn.LSTM({l}, 3)'), 'lstmf': ('self.m{i}({x})[0]', 'nn.LSTM({l}, 3, batch_first=True)'), 'lstmn': ('self.m{i}({x})[0]', 'nn.LSTM({l}, 3, bias=False)'), 'lstm2': ('self.m{i}({x})[0]', 'nn.LSTM({l}, 3, num_layers=2)'),
    'lstmb': ('self.m{i}({x})[0]', 'nn.LSTM({l}, 3, bidirectional=True)'), 'lstmb2': ('self.m{i}({x})[0]', 'nn.LSTM({l}, 3, num_layers=2, bidirectional=True)'), 'lstmt': ('self.m{i}(self.m{i}({x})[0])[0]', 'nn.LSTM({l}, {l})'),
    'gru': ('self.m{i}({x})[0]', 'nn.GRU({l}, 3)'), 'grub': ('self.m{i}({x})[0]', 'nn.GRU({l}, 3, bidirectional=True)'),
    'ln': ('self.m{i}({x})', 'nn.LayerNorm({l})'), 'prelu': ('self.m{i}({x})', 'nn.PReLU({c})'), 'bn': ('self.m{i}({x})', '(nn.BatchNorm2d if {d} == 4 else nn.BatchNorm1d)({c})'), 'emb': ('{x} + self.m{i}(torch.arange({l})).sum(1)', 'nn.Embedding({l}, 5)'),
    'addk': '{x} + torch.ones({l}) * 0.123', 'addkk': '({x} + torch.ones({l}) * 0.1) * (torch.ones({l}) * 0.1)',
}
LINK = {'relu': 'F.relu({x})', 't12': '{x}.transpose(1, 2)', 'res': '{x} + F.relu({x})', 'flat1': 'torch.flatten({x}, 1)', 'softm': 'torch.softmax({x}, -1)', 'sl1': '{x}[:, 1:3]', 'padc': 'F.pad({x}, (1, 0), value=0.3)', 'clamp': 'torch.clamp({x}, -0.3, 0.6)', 'cat': 'torch.cat([{x}, torch.ones({e}) * 0.7], -1)'}
WEIGHTS = ('zero', 'zch', 'zlast', 'tiny', 'big', 'outl', 'neg', 'pos', 'step', 'const')
SH = {'a': [1, 4, 6, 8], 'b': [2, 4, 4, 6], 'd': [1, 6, 8], 'e': [3, 2, 4], 'g': [2, 6]}
IMG = {'conv1', 'conv3', 'convs', 'dw', 'dwm', 'gc2', 'deconv', 'cbn', 'cc', 'csh', 'cpl'}
SEQ = {'lstm', 'lstmf', 'lstmn', 'lstm2', 'lstmb', 'lstmb2', 'lstmt', 'gru', 'grub', 'conv1d', 'dw1d'}
RNN = SEQ - {'conv1d', 'dw1d'}
ALLOPS = {**L, **LINK}


def cases(tier):
    quick = tier == 'quick'
    seen = set()

    def emit(names, sh, mode, ex='', w='', cfg='', single=False):
        cid = ';'.join(names) + f':{sh}:{mode}' + (f':{ex}' if ex else '') + (f':w{w}' if w else '') + (f':cfg{cfg}' if cfg else '') + (':single' if single else '')
        if cid in seen:
            return
        seen.add(cid)
        yield cid, {'names': list(names), 'sh': sh, 'm': mode, 'ex': ex, 'w': w, 'cfg': cfg, 'single': single}

    def shapes(o):
        return 'ab' if o in IMG else 'de' if o in SEQ else 'gdea'

    for o in L:
        for k, sh in enumerate(shapes(o)[:2] if quick else shapes(o)):
            for m in MODES:
                yield from emit([o], sh, m)
            if quick and k:
                continue
            for m in MAIN if quick else MODES:
                for e in EX:
                    if e != 'un' or o in RNN:
                        yield from emit([o], sh, m, e)
                for w in WEIGHTS if not quick or m in ('htaiv', 'hcaiv', 'half') else ():
                    yield from emit([o], sh, m, '', w)
                if m in ('htaiv', 'hcaiv', 'htauv'):  # float16 biases would be inputs of the single operators
                    yield from emit([o], sh, m, '', '', '', True)
            for l in LINK:
                for m in ('hcaiv', 'hhalf') if quick else MAIN:
                    yield from emit([o, l], sh, m)
                    yield from emit([l, o], sh, m)
                    if not quick or l in ('relu', 't12', 'cat'):
                        yield from emit([o, l, 'lin'], sh, m)
    for sh, core in (('a', ['conv1', 'dw', 'cbn', 'lin', 'relu', 'deconv', 'bn', 'cc', 'gc2', 'mm', 'tie']), ('d', ['lin', 'tie', 'lstm', 'lstmb2', 'gru', 'conv1d', 'mm', 't12', 'linnb', 'll', 'lstmt'])):
        for n in (2, 3):
            for names in itertools.product(core, repeat=n):
                for m in ('hcaiv', 'hhalf', 'htauv') if n == 2 or not quick else ('hcaiv',) if names[0] < names[1] else ():
                    yield from emit(names, sh, m)
    for sh, progs in (('a', (['conv1', 'dw', 'lin'], ['lin', 'linnb'], ['cbn', 'cc'], ['dw', 'conv1', 'tie'], ['gc2', 'conv3'])), ('d', (['lstm', 'lin'], ['lin', 'lstmb'], ['lstm2', 'll'], ['conv1d', 'lstm', 'mm'], ['tie', 'linnb']))):
        for names in progs:
            for m in ('htaiv', 'hcaiv', 'hcain', 'htauv', 'htsun'):
                for bits in itertools.product('01', repeat=4):
                    yield from emit(names, sh, m, '', '', ''.join(bits))
                yield from emit(names, sh, m, '', '', '', True)
                yield from emit(names, sh, m, '', '', '0100', True)


def fill(m, w):
    with torch.no_grad():
        for n, p in m.named_parameters():
            if p.dim() < 2:
                continue
            if w == 'zero':
                p.zero_()
            elif w == 'zch':
                p[0] = 0
            elif w == 'zlast':
                p[..., -1] = 0
                p[-1] = 0
            elif w == 'tiny':
                p.mul_(1e-7)
            elif w == 'big':
                p.mul_(300.0)
            elif w == 'outl':
                p.view(-1)[p.numel() // 2] = 40.0
            elif w == 'neg':
                p.copy_(-p.abs() - 0.1)
            elif w == 'pos':
                p.copy_(p.abs() + 0.1)
            elif w == 'step':  # multiples of half a step
                p.copy_(torch.arange(p.numel()).view_as(p) % 255 / 2.0 - 63.5)
                p.view(-1)[0] = 127.0
            elif w == 'const':
                p.fill_(0.37)


SKIPOPT = {'asymmetricQuantizeInputs'}


def wants(name, f, op, ids):
    """Input positions holding weights that hybrid quantization is about."""
    return {'FULLY_CONNECTED': [1], 'CONV_2D': [1], 'DEPTHWISE_CONV_2D': [1], 'UNIDIRECTIONAL_SEQUENCE_LSTM': range(1, 9), 'BIDIRECTIONAL_SEQUENCE_LSTM': list(range(1, 9)) + list(range(18, 26))}.get(name, [])


def check_q(o, q, i, name, opt):
    """o: original weight, tensor i of q: quantized."""
    t = q.dtype(i)
    want_t = opt.get('hybrid_quantize_weight_type', opt.get('quantize_target_type', 'uint8'))
    if t != want_t:
        return f'weight of {name} is {t}, not {want_t}'
    v, qp = q.const(i), q.quant(i)
    if v is None or qp is None:
        return f'weight of {name} has no value or no scale'
    if v.shape != o.shape:
        return f'weight of {name} has shape {v.shape}, not {o.shape}'
    s, z, ax = qp
    if len(z) != len(s) or z.any():
        return f'weight of {name} has zero points {z}'
    v = v.view('int8').astype('float64')  # the kernels take uint8 weights of hybrid operators for signed bytes
    if np.abs(v).max(initial=0) > 127:
        return f'weight of {name} uses -128'
    per_c = opt.get('hybrid_per_channel', False) and name in ('CONV_2D', 'DEPTHWISE_CONV_2D')
    if per_c:
        wax = 0 if name == 'CONV_2D' else o.ndim - 1
        if ax != wax or len(s) != o.shape[wax]:
            return f'weight of {name}: {len(s)} scales along {ax}, expected {o.shape[wax]} along {wax}'
        amax = np.abs(o).max(axis=tuple(k for k in range(o.ndim) if k != wax))
        sb = s.reshape([-1 if k == wax else 1 for k in range(o.ndim)])
    else:
        if len(s) != 1:
            return f'weight of {name}: {len(s)} scales, expected 1'
        amax, sb = np.abs(o).max(keepdims=True).reshape(1), s[0]
    ws = np.maximum(amax.astype('float64') / 127, np.finfo('float32').eps)
    if not np.allclose(s, ws, rtol=1e-5, atol=0):
        return f'weight of {name}: scales {s[:4]}, expected {ws[:4]}'
    e = np.abs(v * sb - o) / sb
    if e.max(initial=0) > 0.5 + 1e-4:
        return f'weight of {name}: {e.max():.3f} steps from the original'
    return None


def opts_of(op):
    return {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in vars(op.builtinOptions).items() if k not in SKIPOPT} if op.builtinOptions is not None else None


def struct(F, Q, opt, skip):
    """Compares files; returns (error, number of quantized weights, patches for F)."""
    half = opt.get('float16_quantization', False)
    hyb = opt.get(H, False)
    deq, qops = {}, []
    for op in Q.ops:
        if Q.opname(op) == 'DEQUANTIZE' and Q.const(op.inputs[0]) is not None and Q.dtype(op.inputs[0]) == 'float16':
            if Q.dtype(op.outputs[0]) != 'float32' or Q.shape(op.outputs[0]) != Q.shape(op.inputs[0]):
                return 'DEQUANTIZE changes shape or has a wrong type', 0, {}
            deq[op.outputs[0]] = op.inputs[0]
        else:
            qops.append(op)
    by = {tuple(Q.name(i) for i in o.outputs): o for o in qops}
    if len(by) == len(qops) == len(F.ops):  # the order may differ
        qops = [by.get(tuple(F.name(i) for i in o.outputs)) for o in F.ops]
        if None in qops:
            return f'outputs of operators are {list(by)}, expected {[tuple(F.name(i) for i in o.outputs) for o in F.ops]}', 0, {}
    if len(qops) != len(F.ops) or [Q.opname(o) for o in qops] != [F.opname(o) for o in F.ops]:
        return f'operators {[Q.opname(o) for o in qops]}, expected {[F.opname(o) for o in F.ops]}', 0, {}
    for what, a, b in (('input', F.g.inputs, Q.g.inputs), ('output', F.g.outputs, Q.g.outputs)):
        if len(a) != len(b) or any(F.name(i) != Q.name(j) or F.shape(i) != Q.shape(j) or F.dtype(i) != Q.dtype(j) for i, j in zip(a, b)):
            return f'{what}s differ', 0, {}
    t2 = dict(zip(F.g.inputs, Q.g.inputs))
    n, patch = 0, {}

    def same(i, j, name, weight):
        nonlocal n
        if i == -1 or j == -1:
            return None if i == j else f'optional operand of {name} differs'
        o = F.const(i)
        if o is None:
            if F.g.tensors[i].isVariable:
                return None if Q.g.tensors[j].isVariable and F.shape(i) == Q.shape(j) and F.dtype(i) == Q.dtype(j) else f'state of {name} differs'
            return None if t2.get(i) == j and F.shape(i) == Q.shape(j) and F.dtype(i) == Q.dtype(j) and Q.quant(j) is None else f'operand of {name} differs ({F.name(i)} is {Q.name(j)} of type {Q.dtype(j)})'
        if weight and o.dtype == np.float32:
            n += 1
            e = check_q(o, Q, j, name, opt)
            if not e:
                s, z, ax = Q.quant(j)
                v = Q.const(j).view('int8').astype('float64')
                new = (v * (s.reshape([-1 if k == ax else 1 for k in range(v.ndim)]) if len(s) > 1 else s[0])).astype('float32')
                patch.setdefault(i, []).append(new)
            return e
        if half and o.dtype == np.float32:
            if j not in deq:
                return f'constant {F.name(i)} of {name} is not rounded to half'
            c = Q.const(deq[j])
            with np.errstate(over='ignore'):
                w = o.astype('float16')
            if c.shape != o.shape or not np.array_equal(c, w, equal_nan=True):
                return f'constant {F.name(i)} of {name} is not the nearest half'
            n += 1
            patch.setdefault(i, []).append(w.astype('float32'))
            return None
        c = Q.const(j)
        if c is None or c.dtype != o.dtype or c.shape != o.shape or c.tobytes() != o.tobytes() or (F.quant(i) is None) != (Q.quant(j) is None):
            return f'constant {F.name(i)} of {name} changed' + ('' if c is None else f' to {c.dtype}{c.shape}')
        patch.setdefault(i, []).append(o)
        return None

    for fo, qo in zip(F.ops, qops):
        name = F.opname(fo)
        if len(fo.inputs) != len(qo.inputs) or len(fo.outputs) != len(qo.outputs):
            return f'number of operands of {name} differs', n, {}
        if opts_of(fo) != opts_of(qo):
            return f'options of {name}: {opts_of(qo)}, expected {opts_of(fo)}', n, {}
        ws = []
        if hyb and F.name(fo.outputs[0]) not in skip and (opt.get('hybrid_conv', True) or 'CONV' not in name) and not (name == 'DEPTHWISE_CONV_2D' and not opt.get('hybrid_per_channel', False)):
            ws = wants(name, F, fo, fo.inputs)
            if name == 'CONV_2D' and not opt.get('hybrid_per_channel', False) and F.shape(fo.inputs[0])[-1] != F.shape(fo.inputs[1])[-1]:
                ws = []  # the kernel does not know groups
            if any(F.const(fo.inputs[k]) is None for k in ws):
                ws = []
        a = getattr(qo.builtinOptions, 'asymmetricQuantizeInputs', None)
        if a is not None and ws and bool(a) != opt.get('hybrid_asymmetric_inputs', True):
            return f'{name}: asymmetricQuantizeInputs is {a}', n, {}
        for k, (i, j) in enumerate(zip(fo.inputs, qo.inputs)):
            e = same(i, j, name, k in ws)
            if e:
                return e, n, {}
        t2.update(zip(fo.outputs, qo.outputs))
    for i, j in zip(F.g.outputs, Q.g.outputs):
        if F.const(i) is None and t2.get(i) != j:
            return 'an output comes from another operator', n, {}
    return None, n, patch


def close(got, want, frac):
    for g, w in zip(got, want):
        if g.shape != w.shape:
            return f'shape {g.shape} != {w.shape}'
        m = float(np.abs(w).max(initial=0))
        d = float(np.abs(g.astype('float64') - w).max(initial=0))
        if not d <= frac * m + 1e-5:
            return f'outputs differ by {d:.4g} (max |want| {m:.4g})'
    return None


def run_case(p):
    lib.quiet_tinynn()
    x = lib.gen_inputs([SH[p['sh']]], 1)[0]
    st = [[o, ['x0' if i == 0 else f'v{i - 1}']] for i, o in enumerate(p['names'])]
    outs = [f'v{len(st) - 1}']
    m, src = convprog.make(st, outs, ['x0'], [x], str(st), ops=ALLOPS)
    if m is None:
        return {'status': 'reject', 'steps': 0}
    if p['w']:
        fill(m, p['w'])
    mode, ex = MODES[p['m']], EX[p['ex']]
    sig = p['m'] + p['ex']
    paths = []
    try:
        try:
            pf, _ = tfl.convert(m, [x], **ex)
            paths.append(pf)
        except Exception as e:
            return {'status': 'reject', 'detail': tfl.err(e), 'steps': 0}  # V01 and V04 are about these
        F = fb.Model(open(pf, 'rb').read())
        opt = dict(mode)
        names = [F.name(o.outputs[0]) for o in F.ops if wants(F.opname(o), F, o, o.inputs)]
        skip = set()
        if p['cfg']:
            skip = {n for n, b in zip(names, p['cfg']) if b == '0'}
            opt['hybrid_config'] = {n: b == '1' for n, b in zip(names, p['cfg'])}
            if len(names) < 4 and '1' in p['cfg'][len(names):]:
                return {'status': 'reject', 'steps': 0}
        if p['single']:
            opt['hybrid_gen_single_op_models'] = True
        try:
            pq, _ = tfl.convert(m, [x], **ex, **opt)
        except Exception as e:
            return {'status': 'refuse', 'detail': tfl.err(e), 'sig': sig, 'steps': 1}
        stem = pq[: -len('.tflite')]
        single = sorted(set(glob.glob(glob.escape(stem) + '_*.tflite')))
        paths += [pq] + single
        Q = fb.Model(open(pq, 'rb').read())
        e, n, patch = struct(F, Q, {**opt, **({} if 'hybrid_quantize_weight_type' in opt else {'hybrid_quantize_weight_type': opt.get('quantize_target_type', 'uint8')})}, skip)
        if e:
            return {'status': 'fail', 'detail': e + '\n' + src, 'sig': sig, 'steps': 1}
        try:
            iq = tfl.interpreter(pq)
        except Exception as e:
            return {'status': 'refuse', 'detail': 'interpreter: ' + tfl.err(e), 'sig': sig, 'steps': 1}
        # the float file with the rounded weights; the reference kernel is wrong if all scales of a per-channel weight are equal
        eq = any(q is not None and len(q[0]) > 1 and len(set(q[0])) == 1 for q in map(Q.quant, range(len(Q.g.tensors))))
        amp = p['w'] in ('big', 'outl') or p['w'] == 'step' and set(p['names']) & RNN
        if not eq and not amp and all(len(v) == 1 or all(np.array_equal(v[0], u, equal_nan=True) for u in v) for v in patch.values()):
            for i, v in patch.items():
                if v[0].dtype == np.float32:
                    F.put(i, v[0])
            itf = tfl.interpreter(F.pack())
            frac = (0.2 if 'clamp' in p['names'] else 0.1) if mode.get(H) else 1e-5
            for s in (2, 3):
                z = tfl.to_nhwc(lib.gen_inputs([SH[p['sh']]], s)[0])
                for it in (iq, itf):
                    it.reset_all_variables()
                e = close(tfl.run(iq, [z]), tfl.run(itf, [z]), frac)
                if e:
                    return {'status': 'fail', 'detail': e + '\n' + src, 'sig': sig, 'steps': 2}
        if p['single'] and mode.get(H):
            e = singles(F, Q, single, stem)
            if e:
                return {'status': 'fail', 'detail': e + '\n' + src, 'sig': sig, 'steps': 2}
        return {'status': 'ok', 'steps': 3, 'nontrivial': n > 0}
    finally:
        tfl.cleanup(*paths)


def singles(F, Q, files, stem):
    """Models of the single operators: one float and one hybrid model for each hybrid operator, which compute about the same."""
    idx = [k for k, op in enumerate(Q.ops) if any(j >= 0 and Q.dtype(j) in ('int8', 'uint8') and Q.const(j) is not None for j in op.inputs)]
    want = sorted(f'{stem}_{k}_{i}.tflite' for k in ('float', 'dq') for i in idx)
    if sorted(files) != want:
        return f'single operator models {[f[len(stem):] for f in files]}, expected {[f[len(stem):] for f in want]}'
    for i in idx:
        a, b = (fb.Model(open(f'{stem}_{k}_{i}.tflite', 'rb').read()) for k in ('float', 'dq'))
        op = Q.ops[i]
        for mdl, what in ((a, 'float'), (b, 'dq')):
            if len(mdl.ops) != 1 or mdl.opname(mdl.ops[0]) != Q.opname(op):
                return f'{what} model of operator {i} has operators {[mdl.opname(o) for o in mdl.ops]}'
            if [mdl.shape(k) for k in mdl.g.inputs] != [Q.shape(k) for k in op.inputs[:1] if Q.const(k) is None] or [mdl.shape(o) for o in mdl.g.outputs] != [Q.shape(o) for o in op.outputs]:
                return f'{what} model of operator {i} has other inputs or outputs'
            for j, k in zip(mdl.ops[0].inputs, op.inputs):
                if k >= 0 and what == 'dq' and Q.const(k) is not None:
                    c, d = mdl.const(j), Q.const(k)
                    if c is None or c.dtype != d.dtype or not np.array_equal(c, d):
                        return f'dq model of operator {i} has another constant {Q.name(k)}'
                if k >= 0 and what == 'float' and Q.const(k) is not None and mdl.dtype(j) != 'float32':
                    return f'float model of operator {i} has a constant of type {mdl.dtype(j)}'
        z = [lib.gen_inputs([list(Q.shape(op.inputs[0]))], 5)[0].numpy()] if len(a.g.inputs) else []
        ia, ib = tfl.interpreter(a.pack()), tfl.interpreter(b.pack())
        for it in (ia, ib):
            it.reset_all_variables()
        e = close(tfl.run(ib, z), tfl.run(ia, z), 0.1)
        if e:
            return f'single operator models of operator {i}: {e}'
    return None
