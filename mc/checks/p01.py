"""P01: a pruned network computes what the original computes with the removed channels zeroed."""
import copy
import itertools

import torch

from .. import lib, pruneprog

PROPERTY = 'P01'
LEVEL = 'model_checking'
RULE = (
    'all networks made of at most the stated number of statements over the alphabet (chains, two-branch joins), at several sparsities, are '
    'pruned by the real pruner; what it removed is inferred from the surviving values, the original with exactly that zeroed is the oracle. '
    'Non-trivial: something was removed and outputs were compared.'
)
ASSUMPTIONS = ['weights are distinct generic values, so origins of surviving values are unambiguous', 'eval mode, float32, CPU']
RECYCLE = 400

S = {'i': [1, 3, 8, 8], 'b': [2, 4, 8, 8], 's': [2, 4, 8], 'q': [2, 5, 6], 'v': [3, 6]}
C4 = ['conv', 'convb', 'gconv', 'gconv4', 'dconv', 'dconvg']
CQ = ['lin', 'linb', 'rnn', 'gru', 'lstm', 'gru2', 'rnn2', 'lstmp', 'lstmp2', 'bilstm', 'bigru2', 'birnn', 'bilstm2', 'bilstmp']
FIRST = {'i': C4, 's': ['conv1', 'dconv1'], 'q': CQ, 'v': ['lin']}
NEXT = {'i': ['conv', 'gconv', 'dconv'], 's': ['conv1', 'dconv1'], 'q': ['lin', 'gru'], 'v': ['linb']}
# sizes written as literals in the source: only the generated code can follow the pruning
LITERAL = {'sp', 'spl', 'splc', 'vwl', 'rsl', 'vwl3', 'vwg', 'rsg', 'vwm'}
POINT = ['relu', 'sigm', 'hsw', 'gelu', 'addk', 'drop']
NORM = ['bn', 'prelu', 'brelu']
JOIN = ['catx', 'catr', 'res', 'swish', 'xx', 'addc']
MID = {
    'i': POINT + NORM + ['bnna', 'prelu1', 'insn', 'avgpm', 'maxp', 'maxpf', 'gap', 'gapm', 'pad', 'padr', 'interp', 'ups', 'slsp', 'meanhw', 'flat', 'flatm', 'flat2', 'vw', 'rs', 'p0231', 'sq']
    + JOIN + ['cat0', 'catl', 'chs', 'chc', 'sp', 'splc', 'spl', 'rest', 'se', 'dw', 'gconv', 'dconv', 'conv', 'ps', 'vwl', 'rsl'],
    's': POINT + NORM + JOIN + ['chs', 'chc', 'cat0', 'catl', 'conv1', 'dw1', 'flat', 'flatm', 'vw'],
    'q': POINT + JOIN + ['prelu1', 'cat0', 'catl', 'chl', 'p102', 'slsp', 'lin', 'resl', 'lstm', 'rnn', 'gru2'],
    'v': POINT + NORM + JOIN + ['prelu1', 'cat0', 'chs', 'chc', 'us', 'lin', 'resl', 'flat', 'bnna'],
}
JOINS = ['add', 'mul', 'sub', 'catz', 'catz1', 'catzl', 'maxi']


def chain(names):
    st, cur = [], 'x0'
    for k, n in enumerate(names):
        st.append([n, [cur]])
        cur = f'v{k}'
    return st


def cases(tier):
    quick = tier == 'quick'
    seen = set()

    def emit(st, sh, sp, outs=None):
        used = {a for _, args in st for a in args}
        outs = outs or [f'v{i}' for i in range(len(st)) if f'v{i}' not in used]
        cid = ';'.join(f'{o}({",".join(a)})' for o, a in st) + f'->{",".join(outs)}:{sh}:{sp}'
        if cid not in seen:
            seen.add(cid)
            yield cid, {'st': st, 'shape': S[sh], 'outs': outs, 'sp': sp}

    for sh, cs in FIRST.items():
        for a in cs:
            for sp in (0.25, 0.5, 0.75):
                yield from emit(chain([a]), sh, sp)
            for b in MID[sh]:
                for k, c in enumerate(NEXT[sh] if quick else NEXT[sh] + MID[sh]):
                    for sp in (0.5,) if quick and k else (0.25, 0.5, 0.75):
                        yield from emit(chain([a, b, c]), sh, sp)
                yield from emit(chain([a, b]), sh, 0.5)
                for sp in (0.5, 0.75):
                    yield from emit(chain([a, b, 'flat', 'lin']), sh, sp)
    # two in the middle
    for sh, a in (('i', 'conv'), ('s', 'conv1'), ('q', 'lin'), ('q', 'gru'), ('v', 'lin')):
        for b, c in itertools.product(MID[sh][3 if quick else 0:], repeat=2):
            for z in NEXT[sh][:1] if quick else NEXT[sh]:
                yield from emit(chain([a, b, c, z]), sh, 0.5)
            if not quick or c in JOIN:
                yield from emit(chain([a, b, c, 'flat', 'lin']), sh, 0.75)
    # two branches
    for sh, cs in FIRST.items():
        for a, b in itertools.product(cs[:6], repeat=2):
            for j in JOINS:
                for k, z in enumerate(NEXT[sh] + ['relu']):
                    for sp in (0.5,) if quick and k else (0.5, 0.75):
                        yield from emit([[a, ['x0']], [b, ['x0']], [j, ['v0', 'v1']], [z, ['v2']]], sh, sp)
        # residual over a centre, and branches with a different middle
        for a in cs[:1] if quick else cs[:3]:
            for m in MID[sh]:
                for j in JOINS:
                    yield from emit([[a, ['x0']], [m, ['v0']], [j, ['v0', 'v1']], [NEXT[sh][0], ['v2']]], sh, 0.5)
                    yield from emit([[a, ['x0']], [m, ['v0']], [a, ['x0']], [j, ['v1', 'v2']], [NEXT[sh][0], ['v3']]], sh, 0.5)


def run_case(p):
    from tinynn.prune import OneShotChannelPruner

    lib.quiet_tinynn()
    text = repr(p['st'])
    x = lib.gen_inputs([p['shape']], 0)[0]
    model, src = pruneprog.make(p['st'], p['outs'], ['x0'], [x], text)
    if model is None:
        return {'status': 'reject', 'detail': 'not a PyTorch program', 'steps': 0}
    return judge(model, src, x, {'sparsity': p['sp'], 'metrics': p.get('metric', 'l2_norm')}, OneShotChannelPruner, st=p['st'])


def judge(model, src, x, config, cls, dummy=None, st=()):
    orig = copy.deepcopy(model)
    try:
        pruner = cls(model, dummy if dummy is not None else x, config)
        pruner.prune()
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)) or type(e).__name__ == 'CaseTimeout':
            raise
        return {'status': 'refuse', 'detail': 'refused: ' + lib_err(e), 'steps': 1}
    try:
        keep = pruneprog.origin(orig, model)
    except lib.Fail as e:
        return {'status': 'fail', 'detail': str(e) + '\n' + src, 'steps': 1}
    removed = sum(int((~k).sum()) for k in keep.values())
    ref = pruneprog.masked(orig, keep)
    e = pruneprog.attributes(model)
    if e:
        return {'status': 'fail', 'detail': e + '\n' + src, 'steps': 1}
    model.eval()
    ref.eval()
    steps, live, gen = 1, None, None
    cands = {} if LITERAL & {o for o, _ in st} else {'live': model}
    try:
        cands['generated'] = lib.reload_generated(pruner.graph).eval()
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)) or type(e).__name__ == 'CaseTimeout':
            raise
        gen = 'cannot be generated: ' + lib_err(e)
    ran = 0
    for name, m in cands.items():
        for k in range(2):
            y = lib.gen_inputs([list(x.shape)], k + 1)[0]
            with torch.no_grad():
                want = ref(y)
                try:
                    got = m(y)
                except Exception as e:
                    if name == 'live':
                        live = 'does not run: ' + lib_err(e)
                    else:
                        gen = 'does not run: ' + lib_err(e)
                    break
            ran += 1
            steps += 1
            e = pruneprog.same(got, want)
            if e:
                return {'status': 'fail', 'detail': f'{name}: {e}\n{src}', 'steps': steps}
    if not ran:
        return {'status': 'refuse', 'detail': f'pruned model: {live}; generated code: {gen}\n{src}', 'steps': steps}
    return {'status': 'ok', 'detail': '', 'steps': steps, 'nontrivial': removed > 0, 'sig': f'{live is not None}{gen is not None}'}


def lib_err(e):
    import os
    import traceback

    tb = traceback.extract_tb(e.__traceback__)
    fr = tb[-1] if tb else None
    return f'{type(e).__name__}: {str(e)[:160]} @ {os.path.basename(fr.filename)}:{fr.name}' if fr else repr(e)
