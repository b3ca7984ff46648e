"""V06: the TFLite file of a quantized model computes what the quantized model computes."""
import copy
import itertools
import logging

import numpy as np
import torch

from .. import lib, quantprog, tfl
from ..quantprog import SHAPES, chain
from . import q03

PROPERTY = 'V06'
LEVEL = 'model_checking'
RULE = (
    'all programs made of at most the stated number of statements over the alphabet of quantizable and unquantizable operators are quantized, calibrated and converted by the real quantizers under each scheme, '
    'written as a TFLite file by the real converter with each target type and input/output option, and executed by the TFLite interpreter; outputs must equal those of the quantized PyTorch model up to a few steps, '
    'and types, scales and zero points of inputs and outputs must be those requested. Non-trivial: the file holds quantized operators and outputs were compared.'
)
ASSUMPTIONS = ['generic finite inputs, CPU, kernels of PyTorch 2.5 and TensorFlow 2.18']
RECYCLE = 150
NOTE = q03.NOTE

TOL = 4
LAYERS, ACTS, FUNCS = q03.LAYERS, ['elud' if a == 'elu' else a for a in q03.ACTS], q03.FUNCS
# mode: (config of the quantizer, options of the converter)
MODES = {
    'u8': ({}, {}), 'u8fuse': ({}, {'fuse_quant_dequant': True}), 'u8fi8': ({}, {'fuse_quant_dequant': True, 'quantize_input_output_type': 'int8'}), 'i8': ({}, {'quantize_target_type': 'int8'}),
    'i8s': ({'asymmetric': False}, {'quantize_target_type': 'int8', 'strict_symmetric_check': True}), 'i8sc': ({'asymmetric': False, 'per_tensor': False}, {'quantize_target_type': 'int8', 'strict_symmetric_check': True}),
    'i8c': ({'per_tensor': False}, {'quantize_target_type': 'int8'}), 'i8cf': ({'per_tensor': False}, {'quantize_target_type': 'int8', 'fuse_quant_dequant': True}), 'i8fu8': ({'per_tensor': False}, {'quantize_target_type': 'int8', 'fuse_quant_dequant': True, 'quantize_input_output_type': 'uint8'}),
    'u8in': ({}, {'fuse_quant_dequant': True, 'fuse_output_indices': []}), 'u8out': ({}, {'fuse_quant_dequant': True, 'fuse_input_indices': []}),
    'i16': ({'asymmetric': False, 'per_tensor': False}, {'quantize_target_type': 'int16', 'strict_symmetric_check': True}), 'rwu': ({'set_quantizable_op_stats': True}, {'rewrite_quantizable': True}), 'rwi': ({'set_quantizable_op_stats': True, 'per_tensor': False}, {'rewrite_quantizable': True, 'quantize_target_type': 'int8'}),
    'u8L0': ({}, {'optimize': 0}), 'i8cL0': ({'per_tensor': False}, {'quantize_target_type': 'int8', 'optimize': 0}), 'u8micro': ({}, {'tflite_micro_rewrite': True}), 'u8nb': ({}, {'conv_transpose_with_bias': False}), 'i8cg': ({'per_tensor': False}, {'quantize_target_type': 'int8', 'group_conv_rewrite': True}),
    'u8nt': ({}, {'nchw_transpose': False}), 'i8cnt': ({'per_tensor': False}, {'quantize_target_type': 'int8', 'nchw_transpose': False}), 'fbi8': ({'backend': 'fbgemm', 'per_tensor': False, 'legacy_fq': False}, {'quantize_target_type': 'int8'}),
    'u8cat': ({'disable_requantization_for_cat': True}, {}), 'u8tfl': ({'rounding_mode': 'tflite'}, {}),
}
MAIN = ('u8', 'i8c')


def cases(tier):
    quick = tier == 'quick'
    seen = set()

    def emit(st, sh, kinds=('qat',), modes=MAIN):
        used = {a for _, args in st for a in args}
        outs = [f'v{i}' for i in range(len(st)) if f'v{i}' not in used]
        ops = [o for o, _ in st]
        for k, c in itertools.product(kinds, modes):
            if k == 'ptq' and any(o.startswith('deconv') for o in ops) or sh != 'i' and {'gapm', 'gap', 'avgp', 'maxp', 'interp', 'interpb', 'insn'} & set(ops):
                continue  # no kernels
            if 'rms' in ops and len(ops) > 2 or c == 'fbi8' and k == 'qat' and q03.RNN & set(ops):
                continue  # as in Q03
            cid = ';'.join(f'{o}({",".join(a)})' for o, a in st) + f':{sh}:{k}:{c}'
            if cid not in seen:
                seen.add(cid)
                yield cid, {'st': st, 'sh': sh, 'outs': outs, 'k': k, 'c': c}

    both = ('qat', 'ptq')
    for sh, ls in LAYERS.items():
        for a in ls:
            yield from emit(chain([a]), sh, both, MAIN if quick else MODES)
            yield from emit(chain([a]), sh, modes=MODES)
            yield from emit(chain([a, 'bn']), sh, modes=MAIN if quick else MODES)
            for b in ACTS if not quick or a == ls[0] else ['relum', 'relu6', 'clampnx']:
                yield from emit(chain([a, b]), sh, modes=MAIN if quick else MODES)
                if not quick:
                    yield from emit(chain([a, 'bn', b]), sh)
        for f in FUNCS + ACTS:
            yield from emit(chain([f]), sh, ('qat',) if quick else both, MAIN + ('i8s',))
            yield from emit(chain([f]), sh, modes=(() if quick else MODES))
            yield from emit(chain([ls[0], f]), sh, modes=('u8fuse', 'i8sc', 'i16') if quick and sh == 'i' else MAIN[1:] if quick else MODES)
    for c in MODES:
        for sh, st in (('i', ['conv', 'bn', 'relum', 'res', 'deconv', 'bn', 'relu6']), ('i', ['dw', 'bn', 'clampnx', 'catr', 'conv', 'silu', 'gapm', 'flat', 'lin', 'softm']), ('s', ['conv1', 'bn', 'relum', 'cat1', 'deconv1', 'prelu1']), ('v', ['lin', 'bn', 'relu6', 'lin', 'lsoft']), ('q', ['lin', 'lstm', 'lin']), ('q', ['gru', 'lin', 'ln']), ('i', ['conv', 'rsub', 'mulk', 'stack1', 'abs', 'sum', 'mulk']), ('i', ['conv', 'convdil', 'bneps', 'relum', 'interp', 'padc', 'sl', 'conv'])):
            for n in (len(st) // 2, len(st)) if quick else range(1, len(st) + 1):
                yield from emit(chain(st[:n]), sh, modes=(c,))
    for j in ('add', 'addr', 'sub', 'mul', 'catz', 'catzr', 'stackz', 'addr6', 'addcl', 'mulr', 'mm'):
        for a, b in (('conv', 'conv'), ('conv', 'relum'), ('relu6', 'sig')):
            yield from emit([[a, ['x0']], [b, ['x0']], [j, ['v0', 'v1']], ['conv', ['v2']]], 'i', modes=MAIN + ('u8cat', 'i8sc', 'rwi') if quick else MODES)
            yield from emit([[a, ['x0']], [b, ['x0']], [j, ['v0', 'v1']]], 'i', modes=('u8', 'i8fu8'))
    # several outputs, some of them not quantized
    for a, b in itertools.product(('conv', 'relum', 'sig', 'flat', 'abs'), repeat=2):
        yield from emit([[a, ['x0']], [b, ['x0']]], 'i', modes=('u8fuse', 'u8fi8', 'i8cf', 'u8in', 'u8out'))
    pool = [f for f in FUNCS + ACTS if f not in ('flat', 'vw', 'insn')]
    pool = pool[::12] if quick else pool
    for a, b in itertools.product(pool, pool):
        yield from emit(chain(['conv', a, b]), 'i')


def dequant(a, d):
    s, z = d['quantization']
    return (a.astype(np.float64) - z) * s if s else a


class _Warn(logging.Handler):
    def __init__(self):
        super().__init__()
        self.seen = []

    def emit(self, r):
        self.seen.append(r.getMessage())


def run_case(p):
    lib.quiet_tinynn()
    text = repr(p['st'])
    x = lib.gen_inputs([SHAPES[p['sh']]], 0)[0]
    model, src = quantprog.make(p['st'], p['outs'], [x], text)
    if model is None:
        return {'status': 'reject', 'detail': 'not a PyTorch program', 'steps': 0}
    cfg, opts = MODES[p['c']]
    try:
        q = quantprog.quantizer(p['k'], model, x, copy.deepcopy(cfg))
        qm = q.quantize()
        qm.eval()
        with torch.no_grad():
            for m in qm.modules():
                if hasattr(m, 'averaging_constant'):
                    m.averaging_constant = 1.0
            for k in (3, 2, 1):
                qm(lib.gen_inputs([SHAPES[p['sh']]], k)[0])
            y = lib.gen_inputs([SHAPES[p['sh']]], 1)[0]
            if p['k'] == 'qat':
                qm.apply(torch.quantization.disable_observer)
            fq = qm(y)
            cm = q.convert(qm)
            want = cm(y)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)) or type(e).__name__ == 'CaseTimeout':
            raise
        return {'status': 'reject', 'detail': 'no quantized model (see Q01, Q03): ' + quantprog.err(e), 'steps': 1}
    want, fq = lib.flatten(want), lib.flatten(fq)
    from tinynn.converter.operators.tflite import base

    warn = _Warn()
    base.log.addHandler(warn)
    base.log.setLevel(logging.WARNING)
    prop = base.log.propagate
    base.log.propagate = False
    others = [h for h in base.log.handlers if h is not warn]
    for h in others:
        base.log.removeHandler(h)
    try:
        path, c = tfl.convert(cm, [x], **opts)
        it = tfl.interpreter(path)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)) or type(e).__name__ == 'CaseTimeout':
            raise
        if 'Unsupported types' in str(e):
            return {'status': 'reject', 'detail': 'integer type asked for a float input or output: ' + quantprog.err(e), 'steps': 1}
        return {'status': 'refuse', 'detail': 'not converted: ' + quantprog.err(e) + '\n' + src, 'steps': 1}
    finally:
        base.log.removeHandler(warn)
        base.log.propagate = prop
        for h in others:
            base.log.addHandler(h)
    if any('zero point of the u8 tensors should be' in w for w in warn.seen):
        tfl.cleanup(path)
        return {'status': 'reject', 'detail': 'the tool warns that the model is not symmetric', 'steps': 1}
    nt = opts.get('nchw_transpose', True)
    try:
        (d,), od = it.get_input_details(), it.get_output_details()
        a = tfl.to_nhwc(y, None if nt else False)
        tgt = np.dtype(opts.get('quantize_target_type', 'uint8'))
        io = np.dtype(opts.get('quantize_input_output_type', tgt))
        if d['dtype'] != np.float32:
            if not opts.get('fuse_quant_dequant') or opts.get('fuse_input_indices') == []:
                raise lib.Fail(f'the input is {d["dtype"]} although nothing asks for it\n{src}')
            if d['dtype'] != io:
                raise lib.Fail(f'the input is {d["dtype"]} instead of {io}\n{src}')
            s, z = d['quantization']
            stub = [(float(m.scale), int(m.zero_point)) for m in cm.modules() if type(m).__name__ == 'Quantize' and 'quantized' in type(m).__module__]
            if all(abs(s - t) > 1e-6 * t or z not in (v, v - 128) for t, v in stub):
                raise lib.Fail(f'the input has parameters {(s, z)} but the model quantizes with {stub}\n{src}')
            i = np.iinfo(io)
            a = np.clip(np.rint(a / s) + z, i.min, i.max).astype(io)
        elif p['c'] in ('u8fuse', 'u8fi8', 'i8cf', 'i8fu8', 'u8in') and only_quant(c):
            raise lib.Fail(f'the input is not fused with its quantization\n{src}')
        got = []
        for v, e in zip(tfl.run(it, [a]), od):
            if e['dtype'] != np.float32 and e['quantization'][0]:
                if not opts.get('fuse_quant_dequant') or opts.get('fuse_output_indices') == []:
                    raise lib.Fail(f'an output is {e["dtype"]} although nothing asks for it\n{src}')
                if e['dtype'] != io:
                    raise lib.Fail(f'an output is {e["dtype"]} instead of {io}\n{src}')
            got.append(dequant(v, e))
        types = {t['dtype'].__name__ for t in it.get_tensor_details() if t['quantization'][0] or len(t['quantization_parameters']['scales'])}
        if types - {tgt.name, io.name, 'int32', 'int64', 'int8' if tgt == np.int16 else tgt.name, 'float32'}:
            raise lib.Fail(f'tensors of type {types} where {tgt} is asked for\n{src}')
        ops = tfl.ops_of(it)
    except RuntimeError as e:
        return {'status': 'refuse', 'detail': 'not run: ' + quantprog.err(e) + '\n' + src, 'steps': 1}
    finally:
        tfl.cleanup(path)
    if len(got) != len(want):
        raise lib.Fail(f'{len(got)} outputs instead of {len(want)}\n{src}')
    tol = TOL + 3 * len(p['st']) + 15 * bool(q03.RNN & {o for o, _ in p['st']})
    worst = 0
    for g, w, f in zip(got, want, fq):
        w, f = [tfl.to_nhwc(t, None if nt else False) for t in (w, f)]
        if g.shape != w.shape and not (w.ndim == 0 and g.size == 1):
            raise lib.Fail(f'shape {g.shape} instead of {w.shape}\n{src}')
        step = max((w.max() - w.min()) / 255, np.abs(w).max() / 255, 1e-7)
        # PyTorch's kernels are wrong for some operators on channels-last tensors: believe the fake-quantized model as well
        worst = max(worst, min(np.abs(g - v.astype(np.float64)).max() / step for v in (w, f)))
    if not worst <= tol:
        raise lib.Fail(f'the file is {worst:.1f} steps away from the quantized model, {ops}\n{src}')
    return {'status': 'ok', 'detail': f'{worst:.2f} {ops}', 'steps': 3, 'nontrivial': bool(types & {'uint8', 'int8', 'int16'})}


def only_quant(c):
    """The model quantizes its input and uses it in no other way"""
    return False
