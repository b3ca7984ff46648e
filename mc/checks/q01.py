"""Q01: what a quantizer prepares computes, with fake quantization off, what the original computes."""
import itertools

import torch

from .. import lib, quantprog
from ..quantprog import SHAPES, chain

PROPERTY = 'Q01'
LEVEL = 'model_checking'
RULE = (
    'all programs made of at most the stated number of statements over the alphabet of rewritable, fusable and unquantizable operators are prepared by the real '
    'quantizers under each configuration; with fake quantization off they must compute what the original computes, in evaluation and (without dropout) in training mode. '
    'Non-trivial: the program was prepared, contains a quantized part, and outputs were compared.'
)
ASSUMPTIONS = ['generic finite inputs, float32, CPU']
RECYCLE = 250

IMG = ['conv', 'convnb', 'convst', 'dw', 'gconv', 'convrep', 'deconv', 'deconvnb', 'deconvg', 'deconvop', 'bn', 'bneps']
LAYERS = {'i': IMG, 's': ['conv1', 'conv1nb', 'deconv1', 'deconv1nb', 'lin', 'bn'], 'v': ['lin', 'linnb', 'bn'], 'q': ['lin', 'linnb']}
ACTS = ['relum', 'reluin', 'relu6m', 'relu', 'relu6', 'trelu', 'clamp06', 'clamp0k', 'clampnx', 'clmin', 'hsw', 'lrelu', 'prelum', 'silu', 'hardt']
NORMS = ['bn', 'bnna', 'bneps', 'idm', 'dropm']
ONLY = {'i': None, 's': None, 'v': None, 'q': ('lstm', 'lstmbf', 'bilstm', 'lstm2', 'lstmh', 'gru', 'grubf', 'bigru2', 'gruh', 'rnn', 'grunb')}
# have no quantized form, and say so
OUT = ('addal', 'addalx', 'divr', 'cat3', 'divse', 'rsube', 'addal2')
UN = [o for o in quantprog.NEW if o not in quantprog.BIN and o not in OUT]
CFG = {
    'def': {}, 'pc': {'per_tensor': False}, 'sym': {'asymmetric': False}, 'symc': {'asymmetric': False, 'per_tensor': False}, 'fb': {'backend': 'fbgemm', 'per_tensor': False}, 'ox': {'backend': 'onnx'}, 'oxs': {'backend': 'onnx', 'asymmetric': False, 'per_tensor': False},
    'trt': {'backend': 'tensorrt', 'asymmetric': False}, 'new': {'legacy_fq': False}, 'tfl': {'rounding_mode': 'tflite'}, 'nofl': {'fused_layerwise_config': False}, 'stat': {'set_quantizable_op_stats': True}, 'cat': {'disable_requantization_for_cat': True}, 'catno': {'disable_requantization_for_cat': False}, 'inp': {'inplace': True}, 'noq': {'layerwise_config': {'default': False}}, 'fo': {'fuse_only': True}, 'kl': {'algorithm': 'kl'}, 'dyn': {'dynamic_lstm_quant': True},
}
PTQ_CFG = ('def', 'pc', 'fb', 'fo', 'kl', 'cat', 'inp', 'nofl', 'stat', 'ox')
RAND = ('dropm', 'drop', 'ci', 'cdr')


def cases(tier):
    quick = tier == 'quick'
    seen = set()

    def emit(st, sh, kinds=('qat', 'ptq'), cfgs=('def',)):
        used = {a for _, args in st for a in args}
        outs = [f'v{i}' for i in range(len(st)) if f'v{i}' not in used]
        for k, c in itertools.product(kinds, cfgs):
            cid = ';'.join(f'{o}({",".join(a)})' for o, a in st) + f':{sh}:{k}:{c}'
            if cid not in seen:
                seen.add(cid)
                yield cid, {'st': st, 'sh': sh, 'outs': outs, 'k': k, 'c': c}

    # every operator, alone and between layers
    for sh in ('i', 's', 'v', 'q'):
        for o in UN:
            if ONLY[sh] and o not in ONLY[sh] or not ONLY[sh] and o in ONLY['q']:
                continue
            if sh in 'sv' and o in LAYERS['i'] and o != 'bn':
                continue
            l = LAYERS[sh][0]
            yield from emit(chain([l, o]), sh)
            yield from emit(chain([o, l]), sh, ('qat',) if quick and sh in 'iq' else () if quick else ('qat', 'ptq'))
            yield from emit(chain([l, o, 'relu']), sh, ('qat',) if quick and sh in 'iq' else () if quick else ('qat', 'ptq'))
            if not quick or sh == 'i':
                yield from emit(chain([o]), sh, ('qat',))
                if not quick:
                    yield from emit(chain(['relum', o, 'addk']), sh)
    # fusion
    for sh in LAYERS:
        for na, a in enumerate(LAYERS[sh]):
            for b in NORMS if not quick or na < 1 else NORMS[:1]:
                yield from emit(chain([a, b]), sh)
                for c in ACTS[:10:1 if na < 1 else 3] if quick else ACTS:
                    yield from emit(chain([a, b, c]), sh, ('qat', 'ptq') if b in ('bn', 'bneps') else ('qat',))
            for c in ACTS[:: 1 if not quick or na < 2 else 3]:
                yield from emit(chain([a, c]), sh)
    for a, b, c in itertools.product(['bn', 'relum'], ['conv', 'dw', 'deconv'], ['relum', 'bn', 'addk']):
        yield from emit(chain([a, b, c]), 'i')
        yield from emit(chain([a, b, c, 'conv']), 'i')
    # norms before layers
    for a, b in itertools.product(['bn', 'bneps', 'bnna'], ['convup', 'convnb', 'gconv', 'dwup', 'conv', 'deconv']):
        for st in ([a, b], [a, b, 'relum'], [a, b, 'bn'], [a, b, 'bn', 'relum'], [a, b, 'relu6m'], ['relum', a, b], ['conv', a, b], ['conv', 'relum', a, b], ['addk', a, b, 'relum'], [a, 'relum', b], ['cat1', a, b, 'relum', a, b]):
            if not quick or a == 'bn' or len(st) == 2:
                yield from emit(chain(st), 'i')
        for c in ('relum', b, 'addk'):
            yield from emit([[a, ['x0']], [b, ['v0']], [c, ['v0']]], 'i')
            yield from emit([[a, ['x0']], [b, ['v0']], [c, ['v1']], ['relum', ['v1']]], 'i')
    # joins
    for sh in ('i', 's', 'v'):
        l = LAYERS[sh][0]
        for j in quantprog.BIN:
            if j in OUT:
                continue
            for m in (['relum', 'bn', 'neg', 'idm', l] if quick and sh == 'i' else ['relum', 'bn'] if quick else ['relum', 'bn', 'neg', 'sig', 'tanh', 'idm', 'det', l]) + ([] if quick else UN):
                if m in ONLY['q']:
                    continue
                yield from emit([[l, ['x0']], [m, ['v0']], [j, ['v0', 'v1']]], sh)
                yield from emit([[l, ['x0']], [m, ['v0']], [j, ['v1', 'v0']], ['relum', ['v2']]], sh, ('qat',) if quick else ('qat', 'ptq'))
            for m in (l, 'relum', 'bn', 'addk'):
                yield from emit([[l, ['x0']], [l, ['x0']], [j, ['v0', 'v1']], [m, ['v2']]], sh, ('qat',) if quick else ('qat', 'ptq'))
    # intermediates that are outputs as well
    for sh in ('i', 's', 'v'):
        for a, b, c in itertools.product(LAYERS[sh][:1] + (['deconv', 'bn'] if sh == 'i' else []), ['bn', 'relum', 'reluin', 'addk', 'res', 'clampnx'], ['relum', 'bn', 'addself'] if quick else ['relum', 'relu6', 'bn', 'addself', 'silu']):
            for keep in (['v0', 'v2'], ['v1', 'v2'], ['v2', 'v2'], ['v2', 'x0']):
                if 'reluin' in (b, c) and 'v0' in keep:
                    continue
                cid = f'outs:{a}-{b}-{c}:{",".join(keep)}:{sh}'
                for k in ('qat', 'ptq') if not quick or sh == 'i' else ('qat',):
                    yield cid + ':' + k, {'st': chain([a, b, c]), 'sh': sh, 'outs': keep, 'k': k, 'c': 'def'}
    # configurations
    for c in CFG:
        for sh, st in (('i', ['conv', 'bn', 'relum', 'res', 'deconv', 'bn', 'relu6']), ('i', ['dw', 'bn', 'clampnx', 'catr', 'conv', 'silu', 'gapm', 'flat', 'lin', 'softm']), ('s', ['conv1', 'bn', 'relum', 'cat1', 'deconv1', 'prelu1']), ('v', ['lin', 'bn', 'relu6', 'lin', 'lsoft']), ('q', ['lin', 'lstm', 'lin']), ('q', ['gru', 'lin', 'ln']), ('i', ['conv', 'rsub', 'rdiv', 'stack1', 'abs', 'sum', 'mulk']), ('i', ['twice', 'convrep', 'bneps', 'relum', 'interp', 'padc', 'sl', 'conv'])):
            if c == 'dyn' and 'lstm' in st:
                continue  # computes with quantized weights on its own
            for n in (len(st) - 2, len(st)) if quick else range(1, len(st) + 1):
                yield from emit(chain(st[:n]), sh, ('qat',) + (('ptq',) if c in PTQ_CFG else ()), (c,))
    # pairs of operators
    pool = [o for o in UN if o not in ONLY['q'] and o not in LAYERS['i']]
    if quick:
        pool = pool[::14]
    for a, b in itertools.product(pool, pool):
        yield from emit(chain(['conv', a, b]), 'i', ('qat',) if quick else ('qat', 'ptq'))


def run_case(p):
    lib.quiet_tinynn()
    text = repr(p['st'])
    x = lib.gen_inputs([SHAPES[p['sh']]], 0)[0]
    model, src = quantprog.make(p['st'], p['outs'], [x], text)
    if model is None:
        return {'status': 'reject', 'detail': 'not a PyTorch program', 'steps': 0}
    ref = quantprog.clone(model)
    cfg = {k: (dict(v) if isinstance(v, dict) else v) for k, v in CFG[p['c']].items()}
    inplace = cfg.get('inplace')
    state = quantprog.restate(model)
    try:
        q = quantprog.quantizer(p['k'], model, x, cfg)
        qm = q.quantize()
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)) or type(e).__name__ == 'CaseTimeout':
            raise
        return {'status': 'refuse', 'detail': 'refused: ' + quantprog.err(e) + '\n' + src, 'steps': 1}
    steps = 0
    if not inplace:
        now = model.state_dict()
        for k, v in state.items():
            if not torch.equal(now[k], v):
                raise lib.Fail(f'{k} of the original model has changed\n{src}')
        if any(m.training for m in model.modules()):
            raise lib.Fail('the original model was in evaluation mode and has been left in training mode')
    quantprog.fq_off(qm)
    nt = any('FakeQuant' in type(m).__name__ or 'Observer' in type(m).__name__ or 'Reduced' in type(m).__name__ for m in qm.modules()) or p['c'] in ('fo', 'noq')
    opnames = [o for o, _ in p['st']]
    random = any(o in RAND for o in opnames)
    modes = (False,) if p['k'] == 'ptq' or random or any('bn' in o or o in ('fbn', 'insn', 'cb2', 'cbr2', 'db2', 'lb2', 'bc2', 'twicebr') for o in opnames) and p['c'] == 'fo' else (False, True)
    for train in modes:
        qm.train(train)
        ref.train(train)
        for k in (1, 2):
            y = lib.gen_inputs([SHAPES[p['sh']]], k)[0]
            with torch.no_grad():
                want = ref(y.clone())
                try:
                    got = qm(y.clone())
                except Exception as e:
                    return {'status': 'refuse', 'detail': f'prepared model does not run: {quantprog.err(e)}\n{src}', 'steps': steps}
            e = quantprog.sqnr_close(got, want, 2e-4, 1e-5)
            if e:
                raise lib.Fail(f'{"training" if train else "evaluation"} mode: {e}\n{src}')
            steps += 1
    return {'status': 'ok', 'detail': '', 'steps': steps, 'nontrivial': nt, 'sig': type(qm).__name__ + str(nt)}
