"""V07: conversion is a function of the model and the options, changes neither, and writes well-formed files."""
import copy
import itertools
import json
import os
import subprocess
import sys

import numpy as np
import torch

from .. import core, detwork, fb, lib, tfl
from . import v04, v05, v06

PROPERTY = 'V07'
LEVEL = 'model_checking'
RULE = (
    'for every program of the alphabet and option set: (det) the file converted in fresh processes with three hash seeds, in forward and reversed order of earlier conversions and with repeated conversions of the same and of an equal model must be the same bytes; '
    '(hist) all interleavings of constructing two converters, converting with each and converting again with new ones give the bytes a fresh converter gives; '
    '(state) parameters, buffers, hooks, flags, inputs and option objects are unchanged by conversion, and so is global state of PyTorch; '
    '(form) the file is well-formed according to TensorFlow\'s schema: indices, sizes of buffers, one producer per tensor and before its uses, names, operator codes; '
    '(ver) the versions of the operators are those TensorFlow\'s own exporter gives them. Non-trivial: a file was produced.'
)
ASSUMPTIONS = ['one machine, CPU; models are in evaluation mode', 'the operator versions of TensorFlow 2.18 are taken for the required ones']
RECYCLE = 100
BATCH = 50

RNNS = ('lstm', 'lstmb', 'lstm2', 'gru', 'grub', 'lstmbf')
C = lambda *names: [[n, ['x0' if i == 0 else f'v{i - 1}']] for i, n in enumerate(names)]
DAGS = {  # several inputs and outputs
    'mio': ([['relu', ['x0']], ['add', ['x0', 'x1']], ['p0231', ['v1']], ['cat1', ['v0']]], [[1, 4, 6, 8], [1, 4, 6, 8]], ['v0', 'v1', 'v2', 'v3', 'x0', 'v0']),
    'split': ([['{x}.split(1, 1)[0]', ['x0']], ['{x}.unbind(2)[1]', ['x0']], ['{x}.chunk(3, -1)[2]', ['x0']]], [[1, 4, 6, 9]], ['v0', 'v1', 'v2']),
    'res': (C('conv3', 'bn', 'relu', 'res', 'p0231', 'lin', 'softm'), [[1, 4, 6, 8]], ['v6', 'v2', 'v4']),
    'se': ([['conv3', ['x0']], ['gap', ['v0']], ['conv1', ['v1']], ['sigm', ['v2']], ['mul', ['v0', 'v3']], ['add', ['v4', 'x0']]], [[1, 4, 6, 8]], ['v5']),
    'branch': ([['p0231', ['x0']], ['relu', ['v0']], ['tanh', ['v0']], ['p0312', ['v1']], ['p0312', ['v2']], ['add', ['v3', 'v4']], ['rs4', ['v0']]], [[1, 4, 6, 8]], ['v5', 'v6', 'v0']),
    'rnn2': (C('lstmb', 'gru', 'lin'), [[3, 2, 4]], ['v2', 'v0']), 'passthru': (C('relu'), [[1, 4, 6, 8]], ['x0', 'v0', 'x0']),
}
OPTS = {'': {}, 'L0': {'optimize': 0}, 'L2': {'optimize': 2}, 'grp': {'group_tensors': True}, 'gcr': {'group_conv_rewrite': True}, 'i8': {'quantize_target_type': 'int8'}, 'mt3': {'max_transpose_dims': 3}, 'un': {'unroll_rnn': True}, 'unsep': {'unroll_rnn': True, 'separated_rnn_gate_calc': True},
        'bi': {'map_bilstm_to_lstm': True}, 'half': v05.MODES['half'], 'hc': v05.MODES['hcaiv'], 'ht': v05.MODES['htaiv'], 'hu': v05.MODES['htauv'], 'hhalf': v05.MODES['hhalf'], 'nt': {'nchw_transpose': False}, 'byp': {'bypass_elementwise_passthrough_constraint': True}, 'moc': {'missing_outputs_as_constants': True}, 'micro': {'tflite_micro_rewrite': True}, 'rq': {'rewrite_quantizable': True},
        'fq': {'fuse_quant_dequant': True}, 'i16': {'quantize_target_type': 'int16', 'strict_symmetric_check': True}, 'nb': {'conv_transpose_with_bias': False}}
QM = {'u8': ({}, {}), 'i8c': ({'per_tensor': False}, {'quantize_target_type': 'int8'}), 'fq': ({}, {'fuse_quant_dequant': True}), 'i16': v06.MODES['i16'], 'rwi': v06.MODES['rwi']}
SH = {'a': [1, 4, 6, 8], 'd': [1, 6, 8], 'g': [4, 8], 'n': [2, 3, 1, 2, 3], 'e': [3, 2, 4]}


def jobs(tier):
    """name -> job"""
    from .. import convprog, quantprog

    quick = tier == 'quick'
    out = {}

    def add(name, st, shapes, outs, opts, q=None):
        out.setdefault(name, {'st': st, 'shapes': shapes, 'outs': outs, 'opts': opts, 'q': q})

    for o, code in convprog.OPS.items():
        if '{z}' in (code if isinstance(code, str) else code[0]):
            continue
        for sh in 'ad' if quick else 'adgne':
            add(f'{o}:{sh}', C(o), [SH[sh]], ['v0'], {})
    for o in v04.ALL:
        if o in v04.CA and quick and not o.startswith('cat3'):
            continue
        for k in ('', 'gcr', 'un', 'bi', 'L0', 'nb'):
            if o in v04.GD and k != 'gcr' or o in v04.STATE and k != 'un' or k == 'un' and o not in v04.R and o not in v04.BI or k == 'bi' and o not in v04.BI or k == 'gcr' and o not in v04.G and o not in v04.GD or k == 'nb' and o not in v04.D:
                continue
            sh = 'e' if o in v04.R or o in v04.BI else 'd' if '1d' in o or o in ('gc1s', 'dc1', 'gd1') else 'a'
            add(f'{o}:{sh}:{k}', C(o), [SH[sh]], ['v0'], OPTS[k])
    for o in v05.L:
        for k in ('hc', 'ht', 'hu', 'half', 'hhalf'):
            sh = 'e' if o in v05.SEQ else 'a' if o in v05.IMG else 'g'
            add(f'{o}:{sh}:{k}', C(o), [SH[sh]], ['v0'], OPTS[k])
    for n, (st, shapes, outs) in DAGS.items():
        for k, o in OPTS.items():
            add(f'{n}:{k}', st, shapes, outs, o)
    core_ = ['relu', 'p0231', 'conv3', 'bn', 'addc', 'cat1', 'split1', 'lin', 'rs4', 'res'] if quick else ['relu', 'p0231', 'conv3', 'bn', 'addc', 'cat1', 'split1', 'lin', 'rs4', 'res', 't12', 'gconv', 'mean1k', 'sl1', 'pad', 'us1', 'softm1', 'deconv', 'avgp', 'gath']
    for a, b in itertools.product(core_, repeat=2):
        add(f'{a};{b}', C(a, b), [SH['a']], ['v1', 'v0'], {})
    qops = [o for s in ('i', 's', 'v') for o in v06.LAYERS[s]] + list(v06.ACTS)
    for o in dict.fromkeys(qops):
        for sh in ('i', 's') if not quick else ('i',) if o in v06.LAYERS['i'] or o in v06.ACTS else ('s',):
            for k, (cfg, opts) in QM.items() if not quick else list(QM.items())[:2]:
                add(f'q:{o}:{sh}:{k}', C(o), [quantprog.SHAPES[sh]], ['v0'], opts, ['qat', cfg])
    for k, (cfg, opts) in QM.items():
        for a, b in itertools.product(('conv', 'lin', 'relu6', 'res', 'cat1', 'softm'), repeat=2):
            add(f'q:{a};{b}:{k}', C(a, b), [quantprog.SHAPES['i']], ['v1'], opts, ['ptq' if k == 'i8c' else 'qat', cfg])
    return out


def cases(tier):
    js = jobs(tier)
    names = list(js)
    for i in range(0, len(names), BATCH):
        yield f'det:{i // BATCH}', {'kind': 'det', 'jobs': {n: js[n] for n in names[i : i + BATCH]}}
    for n in names:
        yield f'state:{n}', {'kind': 'state', 'job': js[n]}
    for n, j in (js if tier == 'quick' else jobs('quick')).items():
        yield f'ver:{n}', {'kind': 'ver', 'job': j}
    pairs = ['mio:', 'branch:', 'q:dw:i:u8', 'res:hc'] + (['q:lin;cat1:i8c', 'rnn2:', 'se:', 'res:half', 'rnn2:un', 'branch:grp', 'conv3;bn'] if tier != 'quick' else [])
    for a, b in itertools.product(pairs, repeat=2):
        for k, sched in enumerate(sorted(set(itertools.permutations('AAABBB')))):
            yield f'hist:{a}|{b}:{"".join(sched)}', {'kind': 'hist', 'a': js[a], 'b': js[b], 'sched': sched, 'same': a == b}


def run_case(p):
    lib.quiet_tinynn()
    return {'det': det, 'state': state, 'ver': ver, 'hist': hist}[p['kind']](p)


# ---------------------------------------------------------------------------------------------- det
def det(p):
    names, js = list(p['jobs']), list(p['jobs'].values())
    base = lib.scratch(lib.uniq('det'))
    with open(base + '.json', 'w') as f:
        json.dump(js, f)
    res = []
    try:
        for seed, order in (('0', 'fwd'), ('1', 'rev'), ('4242', 'twice')):
            d = base + order
            os.makedirs(d, exist_ok=True)
            env = {**os.environ, 'PYTHONHASHSEED': seed, 'PYTHONPATH': core.REPO + ':' + core.VERIF, 'OMP_NUM_THREADS': '1', 'MC_SCRATCH': d}
            r = subprocess.run([sys.executable, '-m', 'mc.detwork', base + '.json', base + order + '.out', order], cwd=d, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=110)
            if r.returncode:
                raise lib.Fail(f'process with hash seed {seed} ended with {r.returncode}: {r.stderr.decode()[-300:]}')
            res.append(json.load(open(base + order + '.out')))
    finally:
        for e in ('.json', 'fwd.out', 'rev.out', 'twice.out'):
            tfl.cleanup(base + e)
    bad, n = [], 0
    for i, name in enumerate(names):
        vals = [v for r in res for v in r[str(i)]]
        n += not vals[0].startswith('re')
        if len(set(vals)) > 1:
            a = [v[:24] for v in vals]
            bad.append(f'{name}: hash seed 0: {a[0]}, 1 (other order): {a[1]}, 4242 (repeated, then an equal model): {a[2:]}')
    if bad:
        raise lib.Fail(f'{len(bad)} of {n} files depend on the hash seed or on earlier conversions: ' + '; '.join(bad[:6]))
    return {'status': 'ok', 'detail': f'{n} files', 'steps': 5 * n, 'nontrivial': n > 0}


# -------------------------------------------------------------------------------------------- state
def snap_model(m):
    s = {}
    for n, t in list(m.named_parameters(remove_duplicate=False)) + list(m.named_buffers(remove_duplicate=False)):
        s[n] = (id(t), t.dtype, tuple(t.shape), t.stride(), t.requires_grad, t.detach().dequantize().numpy().tobytes() if t.is_quantized else t.detach().numpy().tobytes(), t._version)
    for n, k in m.named_modules(remove_duplicate=False):
        s['module ' + n] = (id(k), type(k).__name__, k.training, len(k._forward_hooks), len(k._forward_pre_hooks), len(k._backward_hooks), sorted(a for a in vars(k) if not a.startswith('_')), k.__dict__.get('forward'))
        for a, v in vars(k).items():
            if isinstance(v, (int, float, str, bool, tuple)):
                s[f'attribute {n}.{a}'] = v
    return s


def snap_globals():
    return {
        'grad': torch.is_grad_enabled(), 'dtype': torch.get_default_dtype(), 'threads': torch.get_num_threads(), 'engine': torch.backends.quantized.engine, 'rng': torch.get_rng_state().numpy().tobytes(), 'np rng': np.random.get_state()[1].tobytes(),
        'cwd': os.getcwd(), 'env': dict(os.environ), 'path': list(sys.path), 'Tensor': sorted(vars(torch.Tensor)), 'F': {k: id(v) for k, v in vars(torch.nn.functional).items() if not k.startswith('__')}, 'torch': {k: id(v) for k, v in vars(torch).items() if not k.startswith('__')}, 'Module': {k: id(v) for k, v in vars(torch.nn.Module).items() if not k.startswith('__')},
        'files': sorted(f for f in os.listdir(lib.scratch()) if not f.endswith('.tflite')),
    }


def diff(a, b):
    for k in list(a) + [k for k in b if k not in a]:
        if k not in a or k not in b or a[k] != b[k]:
            return k
    return None


_warm = []


def state(p):
    j = p['job']
    try:
        got = detwork.model(j)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError, core.CaseTimeout)):
            raise
        got = None
    if got is None:
        return {'status': 'reject', 'steps': 0}
    m, xs = got
    if not _warm:  # what the first use of the tool imports is not a change
        try:
            detwork.digest(m, xs, j['opts'])
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError, core.CaseTimeout)):
                raise
        _warm.append(1)
    xs0 = [x.clone() for x in xs]
    opts = copy.deepcopy(j['opts'])
    before, glob = snap_model(m), snap_globals()
    with torch.no_grad():
        y0 = lib.flatten(m(*xs0))
    before = snap_model(m)
    glob = snap_globals()
    path = lib.scratch(lib.uniq('m') + '.tflite')
    inputs, meta = list(xs), [(id(x), x._version, x.requires_grad, x.stride()) for x in xs]
    try:
        from tinynn.converter import TFLiteConverter

        TFLiteConverter(m, inputs, path, **opts).convert()
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError, core.CaseTimeout)):
            raise
        tfl.cleanup(path)
        return {'status': 'reject', 'detail': tfl.err(e), 'steps': 1}  # other checks are about what is refused
    try:
        k = diff(before, snap_model(m))
        if k:
            raise lib.Fail(f'conversion changed the model: {k}')
        k = diff(glob, snap_globals())
        if k:
            raise lib.Fail(f'conversion changed global state: {k}')
        if [id(x) for x in inputs] != [i[0] for i in meta] or meta != [(id(x), x._version, x.requires_grad, x.stride()) for x in xs] or not all(torch.equal(a, b) for a, b in zip(xs, xs0)):
            raise lib.Fail('conversion changed the dummy inputs')
        if opts != j['opts']:
            raise lib.Fail(f'conversion changed its options: {opts}')
        with torch.no_grad():
            y1 = lib.flatten(m(*xs0))
        if len(y0) != len(y1) or not all(torch.equal(a, b) if not a.is_quantized else torch.equal(a.dequantize(), b.dequantize()) for a, b in zip(y0, y1)):
            raise lib.Fail('the model computes something else after conversion')
        e = form(open(path, 'rb').read())
        if e:
            raise lib.Fail('malformed file: ' + e)
    finally:
        tfl.cleanup(path)
    return {'status': 'ok', 'steps': 2, 'nontrivial': True}


SIZE = {'float32': 4, 'float16': 2, 'int32': 4, 'uint8': 1, 'int64': 8, 'bool': 1, 'int16': 2, 'int8': 1, 'float64': 8}


def form(data):
    if data[4:8] != b'TFL3':
        return 'no TFL3 identifier'
    F = fb.Model(data)
    if F.m.version != 3 or len(F.m.subgraphs) != 1:
        return f'version {F.m.version}, {len(F.m.subgraphs)} subgraphs'
    nt, nb = len(F.g.tensors), len(F.m.buffers)
    b0 = F.m.buffers[0].data
    if b0 is not None and len(b0):
        return 'buffer 0 is not empty'
    names = [F.name(i) for i in range(nt)]
    if len(set(names)) != nt:
        return f'tensors share a name: {[n for n in names if names.count(n) > 1][:3]}'
    io = list(F.g.inputs) + list(F.g.outputs)
    if any(not 0 <= i < nt for i in io):
        return 'an input or output is no tensor'
    const = set()
    for i, t in enumerate(F.g.tensors):
        if not 0 <= t.buffer < nb:
            return f'{names[i]} has no buffer'
        d = F.m.buffers[t.buffer].data
        n = int(np.prod(F.shape(i), dtype='int64'))
        if any(v < 0 for v in F.shape(i)):
            return f'{names[i]} has shape {F.shape(i)}'
        if d is not None and len(d):
            const.add(i)
            if len(d) != n * SIZE[F.dtype(i)]:
                return f'{names[i]} of shape {F.shape(i)} and type {F.dtype(i)} has {len(d)} bytes'
        elif t.buffer != 0 and n == 0:
            const.add(i)
        q = F.quant(i)
        if q is not None:
            s, z, ax = q
            if not (s > 0).all() or not np.isfinite(s).all() or len(z) != len(s):
                return f'{names[i]} has scales {s[:3]} and zero points {z[:3]}'
            if len(s) > 1 and (not 0 <= ax < len(F.shape(i)) or F.shape(i)[ax] != len(s)):
                return f'{names[i]}: {len(s)} scales for dimension {ax} of {F.shape(i)}'
            lim = {'uint8': (0, 255), 'int8': (-128, 127), 'int16': (-32768, 32767), 'int32': (0, 0)}.get(F.dtype(i))
            if lim and not ((z >= lim[0]) & (z <= lim[1])).all() and names[i].endswith('_hybrid_q') is False:
                return f'{names[i]}: zero points {z[:3]}'
    if const & set(F.g.inputs):
        return 'an input is a constant'
    have = const | set(F.g.inputs) | {i for i, t in enumerate(F.g.tensors) if t.isVariable}
    codes = set()
    for op in F.ops:
        if not 0 <= op.opcodeIndex < len(F.m.operatorCodes):
            return 'unknown operator code'
        codes.add(op.opcodeIndex)
        c = F.m.operatorCodes[op.opcodeIndex]
        if c.deprecatedBuiltinCode != min(c.builtinCode, 127):
            return f'codes {c.deprecatedBuiltinCode} and {c.builtinCode} differ'
        for i in op.inputs:
            if i != -1 and not 0 <= i < nt:
                return f'{F.opname(op)} reads tensor {i}'
            if i != -1 and i not in have:
                return f'{F.opname(op)} reads {names[i]} before it is written'
        for o in op.outputs:
            if not 0 <= o < nt or o in have:
                return f'{F.opname(op)} writes {names[o] if 0 <= o < nt else o}, which exists already'
            have.add(o)
        if len(set(op.outputs)) != len(op.outputs):
            return f'{F.opname(op)} writes a tensor twice'
    miss = [names[o] for o in F.g.outputs if o not in have]
    if miss:
        return f'outputs {miss} are not computed'
    return None


# ---------------------------------------------------------------------------------------------- ver
def ver(p):
    from tensorflow.lite.python.convert import mlir_sparsify

    j = p['job']
    try:
        got = detwork.model(j)
        if got is None:
            return {'status': 'reject', 'steps': 0}
        path, _ = tfl.convert(*got, **j['opts'])
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError, core.CaseTimeout)):
            raise
        return {'status': 'reject', 'detail': tfl.err(e), 'steps': 1}
    data = open(path, 'rb').read()
    tfl.cleanup(path)
    try:
        G = fb.Model(mlir_sparsify(data))
    except Exception as e:
        return {'status': 'reject', 'detail': 'TensorFlow does not import it: ' + str(e)[:100], 'steps': 1}
    F = fb.Model(data)
    a, b = {}, {}
    for M, r in ((F, a), (G, b)):
        for o in M.ops:
            r.setdefault(M.opname(o), set()).add(M.version(o))
    bad = [f'{k}: version {sorted(v)}, TensorFlow says {sorted(b[k])}' for k, v in a.items() if k in b and len(v) == len(b[k]) and v != b[k]]
    if bad:
        return {'status': 'fail', 'detail': '; '.join(bad), 'sig': ';'.join(bad), 'steps': 2}
    return {'status': 'ok', 'steps': 2, 'nontrivial': True}


# --------------------------------------------------------------------------------------------- hist
def hist(p):
    from tinynn.converter import TFLiteConverter

    ja, jb = p['a'], p['b']
    ma = detwork.model(ja)
    mb = ma if p['same'] else detwork.model(jb)  # the same module for both converters
    if ma is None or mb is None:
        return {'status': 'reject', 'steps': 0}
    import hashlib

    want = {}
    for k, j in (('A', ja), ('B', jb)):
        m = detwork.model(j)
        want[k] = detwork.digest(*m, j['opts'])
    conv, n = {}, {'A': 0, 'B': 0}
    paths = {k: lib.scratch(lib.uniq('h') + '.tflite') for k in 'AB'}
    try:
        for s in p['sched']:
            m, xs = ma if s == 'A' else mb
            if s not in conv:
                conv[s] = TFLiteConverter(m, list(xs), paths[s], **(ja if s == 'A' else jb)['opts'])
                continue
            if n[s]:  # a converter is for one conversion
                conv[s] = TFLiteConverter(m, list(xs), paths[s], **(ja if s == 'A' else jb)['opts'])
            conv[s].convert()
            n[s] += 1
            d = hashlib.sha256(open(paths[s], 'rb').read()).hexdigest()
            if d != want[s]:
                raise lib.Fail(f'conversion {n[s]} of {s} in the schedule {"".join(p["sched"])} writes another file than a fresh converter')
    finally:
        tfl.cleanup(*paths.values())
    return {'status': 'ok', 'steps': 6, 'nontrivial': True}
