"""Q03: the converted model equals the fake-quantized model."""
import contextlib
import copy
import itertools

import torch
import torch.nn as nn

from .. import lib, quantprog
from ..quantprog import SHAPES, chain

PROPERTY = 'Q03'
LEVEL = 'model_checking'
RULE = (
    'all programs made of at most the stated number of statements over the alphabet of quantizable and unquantizable operators are prepared, calibrated on three inputs and converted by the real quantizers '
    'under each scheme; the converted model is run with real integer kernels on two inputs and must agree with the fake-quantized one (QAT), or with a reference that rounds at the observers (PTQ), '
    'up to a few steps of its output. Non-trivial: the program was converted, has integer weights or activations, and outputs were compared.'
)
ASSUMPTIONS = ['generic finite inputs, float32, CPU, kernels of PyTorch 2.5 (fbgemm, qnnpack)']
RECYCLE = 250
NOTE = 'a difference of up to TOL steps of the output range is accepted, because integer kernels round differently; a wrong scale, zero point or weight is much larger'

TOL = 5
LAYERS = {'i': ['conv', 'convnb', 'convst', 'dw', 'gconv', 'convdil', 'deconv', 'deconvnb', 'deconvop', 'bn'], 's': ['conv1', 'conv1nb', 'deconv1', 'deconv1nb', 'lin', 'bn'], 'v': ['lin', 'linnb', 'bn'], 'q': ['lin', 'lstm', 'lstmbf', 'bilstm', 'lstm2', 'gru', 'grubf', 'bigru2', 'ln']}
ACTS = ['relum', 'relu6', 'clampnx', 'clamp06k', 'prelum', 'lrelu', 'silu', 'hsw', 'hsig', 'sig', 'tanh', 'elu', 'glu1', 'softm']
FUNCS = ['addk', 'rsub', 'rsubi', 'mulk', 'rmuli', 'divk', 'neg', 'res', 'resr', 'swish', 'cat1', 'catr', 'catl', 'stack1', 'mulex', 'rsubex', 'addex', 'subp', 'prsub', 'mull', 'catc', 'isum', 'se', 'rconv', 'cr2', 'cb2',
         'avgp', 'maxp', 'gap', 'gapm', 'flat', 'perm', 'tr', 'sl', 'chs', 'chc', 'pad', 'padc', 'padm', 'interp', 'interpb', 'drop', 'dropf', 'mean1', 'meank', 'sum', 'max', 'abs', 'pow2', 'bmm', 'mp12', 'clamp0', 'clmin', 'relu', 'rep', 'spl', 'ln', 'rms', 'insn', 'lsoft', 'exp', 'ci', 'bc2']
CFG = {
    'def': {}, 'pc': {'per_tensor': False}, 'sym': {'asymmetric': False}, 'symc': {'asymmetric': False, 'per_tensor': False}, 'fb': {'backend': 'fbgemm', 'per_tensor': False}, 'new': {'legacy_fq': False}, 'fbnew': {'backend': 'fbgemm', 'per_tensor': False, 'legacy_fq': False},
    'tfl': {'rounding_mode': 'tflite'}, 'cat': {'disable_requantization_for_cat': True}, 'catno': {'disable_requantization_for_cat': False}, 'stat': {'set_quantizable_op_stats': True}, 'in': {'quantized_input_stats': [(128, 64.0)]}, 'inp': {'inplace': True},
}


# give the scale of their operands, or choose their own
KEEP = {'conv', 'conv1', 'relum', 'flat', 'perm', 'sl', 'chs', 'drop', 'maxp', 'avgp', 'interp', 'rep', 'cat1', 'catr', 'catz', 'stackz', 'stack1', 'bn', 'pad', 'padm', 'abs', 'res', 'resr'}
RNN = {'lstm', 'lstmbf', 'bilstm', 'lstm2', 'gru', 'grubf', 'bigru2'}


def cases(tier):
    quick = tier == 'quick'
    seen = set()

    def emit(st, sh, kinds=('qat', 'ptq'), cfgs=('def',)):
        used = {a for _, args in st for a in args}
        outs = [f'v{i}' for i in range(len(st)) if f'v{i}' not in used]
        for k, c in itertools.product(kinds, cfgs):
            ops = [o for o, _ in st]
            if sh == 'i' and 'fb' not in c and ('addr6' in ops or {'relu6', 'clamp06k'} & set(ops) and (k == 'ptq' or c in ('sym', 'symc') or any(o in ('relu6', 'clamp06k') and p not in ('bn', 'conv', 'deconv') for p, o in zip(ops, ops[1:])))):
                continue  # PyTorch's qnnpack kernels of these are wrong for channels-last tensors
            if k == 'ptq' and any(o.startswith('deconv') for o in ops) or sh != 'i' and {'gapm', 'gap', 'avgp', 'maxp', 'interp', 'interpb', 'insn'} & set(ops):
                continue  # no kernels
            if 'rms' in ops and len(ops) > 2 or 'fb' in c and k == 'qat' and RNN & set(ops):
                continue  # rounding is amplified; inner results saturate later
            cid = ';'.join(f'{o}({",".join(a)})' for o, a in st) + f':{sh}:{k}:{c}'
            if cid not in seen:
                seen.add(cid)
                yield cid, {'st': st, 'sh': sh, 'outs': outs, 'k': k, 'c': c}

    for sh, ls in LAYERS.items():
        for a in ls:
            yield from emit(chain([a]), sh, cfgs=('def', 'pc', 'fb', 'sym') if quick else CFG)
            yield from emit(chain([a, 'bn']), sh, cfgs=('def', 'pc') if quick else CFG)
            for b in ACTS if not quick or a in (ls[0], 'deconv') else ['relum', 'relu6', 'clampnx']:
                yield from emit(chain([a, b]), sh, cfgs=('def',) if quick else CFG)
                yield from emit(chain([a, 'bn', b]), sh, ('qat',) if quick else ('qat', 'ptq'))
        for f in FUNCS + ACTS:
            yield from emit(chain([f]), sh, ('qat',) if quick else ('qat', 'ptq'))
            yield from emit(chain([ls[0], f]), sh, ('qat', 'ptq') if not quick or sh == 'i' else ('ptq',))
            if not quick or sh == 'i':
                yield from emit(chain([ls[0], f, 'relum']), sh, ('qat',) if quick else ('qat', 'ptq'))
    for a, b in itertools.product(['bn', 'bneps'], ['convup', 'convnb', 'gconv', 'dwup']):
        for st in ([a, b], [a, b, 'relum'], [a, b, 'bn'], ['relum', a, b], ['conv', 'relum', a, b, 'relum']):
            yield from emit(chain(st), 'i', cfgs=('def',) if quick else ('def', 'pc', 'fb'))
    # concatenations
    for sh in 'is':
        l = LAYERS[sh][0]
        for u in ['relum', 'silu', 'hsw', 'addk', 'mulk', 'res', 'resr', 'neg', 'glu1', 'flat', 'perm', 'sl', 'chs', 'pad', 'padm', 'drop', 'abs', 'avgp', 'maxp', 'interp', 'cat1', 'catr', 'stack1', 'rep', l] + ['bn'] * (sh == 'i'):
            yield from emit(chain([l, u, 'cat1']), sh, cfgs=('cat',))
            yield from emit(chain([l, 'catr', u]), sh, cfgs=('cat',))
            for j in ('catz', 'stackz') if not quick or sh == 'i' else ('catz',):
                yield from emit([[l, ['x0']], [l, ['x0']], [u, ['v1']], [j, ['v0', 'v2']]], sh, ('qat',) if quick and j != 'catz' else ('qat', 'ptq'), ('cat',))
                yield from emit([[l, ['x0']], [l, ['x0']], [u, ['v1']], [j, ['v2', 'v0']], ['relum', ['v3']]], sh, ('qat',), ('cat',))
                yield from emit([[l, ['x0']], [u, ['v0']], [u, ['v0']], [j, ['v1', 'v2']]], sh, ('qat',), ('cat',))
                yield from emit([[l, ['x0']], [u, ['x0']], [j, ['v0', 'v1']], [l, ['v2']]], sh, ('qat',), ('cat',))
                # two of them share an operand
                yield from emit([[l, ['x0']], [l, ['x0']], [j, ['v0', 'v1']], [u, ['v1']], [j, ['v0', 'v1']]], sh, ('qat',), ('cat',))
                yield from emit([[l, ['x0']], [l, ['x0']], [j, ['v0', 'v1']], [u, ['v2']], [j, ['v2', 'v3']]], sh, ('qat',), ('cat',))
    for c in CFG:
        for sh, st in (('i', ['conv', 'bn', 'relum', 'res', 'deconv', 'bn', 'relu6']), ('i', ['dw', 'bn', 'clampnx', 'catr', 'conv', 'silu', 'gapm', 'flat', 'lin', 'softm']), ('s', ['conv1', 'bn', 'relum', 'cat1', 'deconv1', 'prelu1']), ('v', ['lin', 'bn', 'relu6', 'lin', 'lsoft']), ('q', ['lin', 'lstm', 'lin']), ('q', ['gru', 'lin', 'ln']), ('i', ['conv', 'rsub', 'mulk', 'stack1', 'abs', 'sum', 'mulk']), ('i', ['conv', 'convdil', 'bneps', 'relum', 'interp', 'padc', 'sl', 'conv'])):
            for n in (len(st) // 2, len(st)) if quick else range(1, len(st) + 1):
                yield from emit(chain(st[:n]), sh, cfgs=(c,))
    for j in ('add', 'addr', 'sub', 'mul', 'catz', 'catzr', 'stackz', 'addr6', 'addcl', 'mulr', 'mm'):
        for a, b in (('conv', 'conv'), ('conv', 'relum'), ('relu6', 'sig')):
            for c in ('def', 'pc', 'cat') if 'cat' in j or not quick else ('def',):
                yield from emit([[a, ['x0']], [b, ['x0']], [j, ['v0', 'v1']], ['conv', ['v2']]], 'i', cfgs=(c,))
    pool = [f for f in FUNCS + ACTS if f not in ('flat', 'vw', 'insn')]
    pool = pool[::12] if quick else pool
    for a, b in itertools.product(pool, pool):
        yield from emit(chain(['conv', a, b]), 'i', ('qat',) if quick else ('qat', 'ptq'))


def fq(x, s, z, o, per=None):
    lo, hi = (0, 255) if o.dtype == torch.quint8 else (-128, 127)
    if o.quant_min is not None:
        lo, hi = o.quant_min, o.quant_max
    elif getattr(o, 'reduce_range', False):
        lo, hi = (0, 127) if o.dtype == torch.quint8 else (-64, 63)
    if per is not None:
        return torch.fake_quantize_per_channel_affine(x, s, z.int(), per, lo, hi)
    return torch.fake_quantize_per_tensor_affine(x, s.reshape(()).float(), z.reshape(()).int(), lo, hi)


@contextlib.contextmanager
def watch_cat(seen):
    """Scales and zero points of what concatenations get and give"""
    cls = torch.ao.nn.quantized.QFunctional
    old = cls.cat

    def cat(self, x, dim=0):
        seen.append(([(v.q_scale(), v.q_zero_point()) for v in x], (float(self.scale), int(self.zero_point))))
        return old(self, x, dim)

    cls.cat = cat
    try:
        yield
    finally:
        cls.cat = old


def ptq_reference(qm):
    """Rounds in place what the observers of a calibrated model observe, and its weights"""
    for name, m in list(qm.named_modules()):
        if hasattr(m, 'calculate_qparams') and 'weight' not in name:
            s, z = m.calculate_qparams()
            m.forward = (lambda s, z, o: lambda x: fq(x, s, z, o))(s, z, m)
    for name, m in list(qm.named_modules()):
        w = getattr(m, 'weight', None)
        qc = getattr(m, 'qconfig', None)
        if isinstance(w, nn.Parameter) and qc is not None and type(m).__name__ in ('Conv1d', 'Conv2d', 'Linear', 'ConvTranspose1d', 'ConvTranspose2d'):
            o = qc.weight()
            o(w.detach())
            s, z = o.calculate_qparams()
            with torch.no_grad():
                w.copy_(fq(w.detach(), s, z, o, o.ch_axis if hasattr(o, 'ch_axis') and s.numel() > 1 else None))


def run_case(p):
    lib.quiet_tinynn()
    text = repr(p['st'])
    x = lib.gen_inputs([SHAPES[p['sh']]], 0)[0]
    model, src = quantprog.make(p['st'], p['outs'], [x], text)
    if model is None:
        return {'status': 'reject', 'detail': 'not a PyTorch program', 'steps': 0}
    try:
        q = quantprog.quantizer(p['k'], model, x, copy.deepcopy(CFG[p['c']]))
        qm = q.quantize()
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)) or type(e).__name__ == 'CaseTimeout':
            raise
        return {'status': 'reject', 'detail': 'not prepared: ' + quantprog.err(e), 'steps': 1}
    qm.eval()
    ys = [lib.gen_inputs([SHAPES[p['sh']]], k)[0] for k in (1,)]
    with torch.no_grad():
        try:
            for m in qm.modules():
                if hasattr(m, 'averaging_constant'):
                    # kernels saturate later than fake quantization if the range is reduced: stay within what was observed
                    m.averaging_constant = 1.0
            for k in (3, 2, 1):
                qm(lib.gen_inputs([SHAPES[p['sh']]], k)[0])
        except Exception as e:
            return {'status': 'reject', 'detail': 'not run: ' + quantprog.err(e), 'steps': 1}
        if p['k'] == 'qat':
            qm.apply(torch.quantization.disable_observer)
            want = [qm(y) for y in ys]
        ref = copy.deepcopy(qm) if p['k'] == 'ptq' else None
        try:
            cm = q.convert(qm, backend='pytorch')
            with watch_cat(cats := []):
                got = [cm(y) for y in ys]
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError)) or type(e).__name__ == 'CaseTimeout':
                raise
            return {'status': 'refuse', 'detail': 'not converted or not run: ' + quantprog.err(e) + '\n' + src, 'steps': 1}
        if ref is not None:
            ptq_reference(ref)
            want = [ref(y) for y in ys]
    nt = any('quantized' in type(m).__module__ for m in cm.modules())
    worst = 0
    for g, w in zip(got, want):
        g, w = lib.flatten(g), lib.flatten(w)
        if len(g) != len(w):
            raise lib.Fail(f'{len(g)} outputs instead of {len(w)}\n{src}')
        for a, b in zip(g, w):
            if a.shape != b.shape:
                raise lib.Fail(f'shape {tuple(a.shape)} instead of {tuple(b.shape)}\n{src}')
            if a.is_quantized:
                raise lib.Fail('the output is still quantized\n' + src)
            step = max((b.max() - b.min()).item() / 255, b.abs().max().item() / 255, 1e-7)
            worst = max(worst, (a.double() - b.double()).abs().max().item() / step)
    if p['c'] == 'cat' and {o for o, _ in p['st']} <= KEEP:
        for i, o in cats:
            # the scale of the outputs of sigmoid and softmax is fixed
            if any(abs(s / o[0] - 1) > 1e-5 or z != o[1] for s, z in i) and not any(s in (1 / 256, 2 / 256) for s, _ in i):
                raise lib.Fail(f'an input of a concatenation is requantized: {i} to {o}\n{src}')
    # rounding is amplified by the operators behind it: allow more for longer programs
    tol = TOL + 3 * len(p['st']) + 15 * bool(RNN & {o for o, _ in p['st']})
    if worst > tol:
        raise lib.Fail(f'the converted model is {worst:.1f} steps away from the fake-quantized one\n{src}')
    return {'status': 'ok', 'detail': f'{worst:.2f}', 'steps': 2, 'nontrivial': nt}
