"""V02: every optimisation level keeps the function, on all operator sequences and small DAGs."""
import itertools

import torch

from .. import convprog, lib, tfl

PROPERTY = 'V02'
LEVEL = 'model_checking'
RULE = (
    'all chains and DAGs up to the stated size over an alphabet of operators the optimiser rewrites, with the last result or every '
    'result as model output, at every optimisation level; outputs of the TFLite interpreter compared with PyTorch on inputs '
    'other than those used for conversion. Non-trivial: converted and run.'
)
ASSUMPTIONS = ['TFLite reference interpreter is taken as the meaning of a TFLite file', '4-d inputs and outputs are NHWC, the documented default']
RECYCLE = 250

S4 = {'a': [1, 4, 6, 8], 'b': [2, 4, 4, 6], 'c': [1, 2, 1, 4], 'd': [1, 6, 8], 'e': [3, 4]}
CORE = ['relu', 'p0231', 't12', 't23', 'rs4', 'conv1', 'bn', 'addc', 'cat1', 'split1', 'mean1k', 'rsb4', 'sl1', 'softm1', 'us1', 'lin']


# element-wise operators the optimiser treats alike: not paired with each other in the quick tier
PLAIN = ('neg tanh sigm lrelu hsw elu abs exp sqrt rsq silu gelu clamp softm softm1 lsoft prelu hsig ln gn mean1 meanhw suml max1 min2 '
         'amx addk mulk rdiv stack mulself interp flip tile roll addl addf exp2 gap meanhwk sumlk max1k padc').split()


def outs_all(st):
    return [f'v{i}' for i in range(len(st))]


def chain(names):
    st, cur = [], 'x0'
    for k, n in enumerate(names):
        st.append([n, [cur]])
        cur = f'v{k}'
    return st


BIN = ('add', 'sub', 'mul', 'maxi', 'catz', 'catzl', 'matz', 'stackz')


def cases(tier):
    quick = tier == 'quick'
    ops = [o for o in convprog.OPS if o not in BIN]
    seen = set()

    def emit(st, shape, level, outmode):
        names = ';'.join(f'{o}({",".join(a)})' for o, a in st)
        used = {a for _, args in st for a in args}
        if outmode == 'all':
            outs = outs_all(st)
        else:
            outs = [f'v{i}' for i in range(len(st)) if f'v{i}' not in used]
        cid = f'{names}:{shape}:{outmode}:L{level}'
        if cid in seen:
            return
        seen.add(cid)
        yield cid, {'st': st, 'shape': S4[shape], 'outs': outs, 'level': level}

    for sh in S4:
        for o in ops:
            for lv in range(6):
                yield from emit([[o, ['x0']]], sh, lv, 'last')
    for a, b in itertools.product(ops, repeat=2):
        if quick and a in PLAIN and b in PLAIN:
            continue
        st = chain([a, b])
        yield from emit(st, 'a', 5, 'last')
        if not quick:
            for sh in S4:
                for om in ('last', 'all'):
                    for lv in range(6):
                        yield from emit(st, sh, lv, om)
    for a, b in itertools.product(CORE, repeat=2):
        for sh in ('b', 'd'):
            for om in ('last', 'all'):
                for lv in ((1, 3, 5) if om == 'last' and sh == 'b' else (5,)):
                    yield from emit(chain([a, b]), sh, lv, om)
    core3 = CORE[:10] if quick else CORE
    for names in itertools.product(core3, repeat=3):
        yield from emit(chain(names), 'b', 5, 'last')
        if not quick:
            for sh in ('a', 'd'):
                for om in ('last', 'all'):
                    for lv in (3, 5):
                        yield from emit(chain(names), sh, lv, om)
    # grids: pairs and triples of the same kind of operator with all their arguments
    for st in grids(quick):
        for sh in ('b',) if quick else ('b', 'a'):
            yield from emit(st, sh, 5, 'last')
            if not quick:
                yield from emit(st, sh, 5, 'all')
                yield from emit(st, sh, 3, 'last')
    # DAGs
    un = ['t12', 'relu', 'p0231', 'conv1'] if quick else ['t12', 'relu', 'p0231', 'rs4', 'conv1', 'split1', 'bn', 'addc']
    bi = ['add', 'catz'] if quick else ['add', 'catz', 'matz', 'mul', 'stackz']
    for depth in (2, 3):
        for st in dags(un, bi, depth):
            yield from emit(st, 'c', 5, 'last')
            if not quick:
                yield from emit(st, 'b', 5, 'last')
                yield from emit(st, 'c', 4, 'all')
    if not quick:
        for st in dags(['t12', 'relu'], ['add', 'catz'], 4):
            yield from emit(st, 'c', 5, 'last')


def grids(quick):
    P = itertools.product
    # slices of slices (dim 3 of size 6), also with a select in between or of another dim
    ab = [(a, b, c) for a, b, c in P((None, 1, 2, -4), (None, -1, 4, 5), (None, 2, 3)) if (a, b, c) != (None, None, None)]
    code = ['{x}[..., %s]' % ':'.join('' if v is None else str(v) for v in t) for t in ab]
    for p, q in P(code, repeat=2):
        yield chain([p, q])
    small = ['{x}[:, :, :, 1:]', '{x}[:, :, 1:, ::2]', '{x}[:, 1:, :, :-1]', '{x}[:, ::2]', '{x}[:, :, :2]', '{x}[:1, 1]', '{x}[:, :, 1]', '{x}[..., 0]']
    for seq in P(small, repeat=2 if quick else 3):
        yield chain(seq)
    # transposes
    perms = list(itertools.permutations(range(4)))
    for p, q in P(perms, repeat=2):
        yield chain(['{x}.permute%s' % (p,), '{x}.permute%s' % (q,)])
    p3 = ['{x}.permute%s' % (p,) for p in itertools.permutations(range(3))]
    for p, q, r in P(p3, repeat=3):
        yield chain(['flat2', p, q, r] if not quick else ['flat2', p, q])
    # transposes around reshapes
    shapes = ['{b}, {c}, -1', '{b}, -1, {l}', '-1, {c}, {l}', '2, -1', '{n}', '{b}, {c}, 2, -1, {l}', '{c}, {b}, 2, -1'] if not quick else ['{b}, {c}, -1', '{b}, -1, {l}', '2, -1', '{c}, {b}, 2, -1']
    for p, s in P(perms, shapes):
        rs = '{x}.reshape(%s)' % s
        yield chain(['{x}.permute%s' % (p,), rs])
        yield chain([rs, 't12' if s.count(',') > 1 else 'relu', '{x}.reshape({n})'])
        for q in (('t12', 't23', 'relu') if quick else ('t12', 't23', 't01', 'p0231', 'relu', 'addc')):
            yield chain(['{x}.permute%s' % (p,), rs, q])
            yield chain(['{x}.permute%s' % (p,), q, '{x}.permute%s' % (tuple(p.index(k) for k in range(4)),)])
    # reshapes of reshapes
    for s, t in P(shapes, repeat=2):
        yield chain(['{x}.reshape(%s)' % s, '{x}.reshape(%s)' % t.replace('{c}', '2').replace('{l}', '3')])
    # gathers of gathers, along the same and different dims, next to convolutions
    ix = ('[1, 0, 3, 2]', '[0, 0, 1, 3]', '[3, 2, 1]', '[2]')
    gat = ['torch.index_select({x}, %d, torch.tensor(%s))' % (d, i) for d in (1, 2, 3) for i in ix]
    for p, q in P(gat, repeat=2):
        yield chain([p, q])
    for p, q in P(gat, ('conv1', 'dw', 'gconv', 'deconv', 'lin', 'bn')):
        yield chain([p, q])
        yield chain([q, p])
    # padding before pooling and convolutions
    pads = ['F.pad({x}, (%d, %d, %d, %d)%s)' % (*v, w) for v in ((1, 1, 1, 1), (0, 1, 0, 1), (1, 0, 1, 0), (2, 2, 2, 2), (0, 1, 1, 1), (0, 0, 1, 1)) for w in ('', ', value=0.5', ', value=-1e4', ", mode='reflect'" if max(v) < 3 else '')]
    after = ['self.m{i}({x})|nn.Conv2d({c}, 4, %d, stride=%d, padding=%d)' % (k, s, p) for k in (1, 2, 3) for s in (1, 2) for p in (0, 1)]
    after += ['self.m{i}({x})|nn.Conv2d({c}, {c}, %d, stride=%d, groups={c})' % (k, s) for k in (2, 3) for s in (1, 2)]
    after += ['F.%s_pool2d({x}, %d, %d, padding=%d)' % (f, k, s, p) for f in ('max', 'avg') for k in (2, 3) for s in (1, 2) for p in (0, 1)]
    for p, a in P(pads, after):
        yield chain([p, a])
    # batch norm and activations around every kind of layer
    lay = ['conv1', 'conv3', 'dw', 'gconv', 'deconv', 'convs', 'conv1d', 'lin', 'linnb', 'mm', 'addc', 'addk', 'avgp', 'maxp', 'bmm', 'bn',
           'self.m{i}({x})|nn.Conv2d({c}, {c} * 2, 3, padding=1, groups={c})', 'self.m{i}({x})|nn.Conv2d({c}, 4, 1, groups=2, bias=False)']
    for a, l, b in P(('bn', 'relu', 'relu6', 'clamp'), lay, ('bn', 'relu', 'relu6', 'hsw')):
        yield chain([a, l])
        yield chain([l, a])
        yield chain([a, l, b])
        yield chain([l, a, b])
        yield chain(['conv1', a, l])
    # branches: one result used twice, both ways rewritten
    br = ['t23', 'rsb4', 'flat2', 'gathc', 'sl1', 'relu', 'pad', 'bn', 'conv1', 'p0231'] + ([] if quick else ['t12', 'us1', 'split1', 'tile', 'softm1', 'p3210'])
    for a, b, c, op in P(br, br, br, ('add', 'catz') if quick else ('add', 'catz', 'mul', 'stackz')):
        yield [[a, ['x0']], [b, ['v0']], [c, ['v0']], [op, ['v1', 'v2']]]


def dags(un, bi, depth):
    def rec(k, st):
        if k == depth:
            if any(o in bi for o, _ in st):
                yield [list(x) for x in st]
            return
        av = ['x0'] + [f'v{j}' for j in range(k)]
        for u in un:
            for a in av:
                yield from rec(k + 1, st + [[u, [a]]])
        for b in bi:
            for a, c in itertools.product(av, repeat=2):
                yield from rec(k + 1, st + [[b, [a, c]]])

    yield from rec(0, [])


def run_case(p):
    lib.quiet_tinynn()
    st = [(o, list(a)) for o, a in p['st']]
    x = lib.gen_inputs([p['shape']], 0)
    m, src = convprog.make(st, p['outs'], ['x0'], x, str(p['st']) + str(p['shape']))
    if m is None or _too_deep(m, st, x):
        return {'status': 'reject', 'detail': 'not a PyTorch program'}
    x2 = lib.gen_inputs([p['shape']], 1)
    with torch.no_grad():
        want = lib.flatten(m(*x2))
    if any(not torch.isfinite(w).all() for w in want):
        return {'status': 'reject', 'detail': 'not finite'}
    path = None
    try:
        try:
            path, c = tfl.convert(m, x, optimize=p['level'])
        except Exception as e:
            return {'status': 'refuse', 'detail': 'convert: ' + lib_tb(e)}
        try:
            it = tfl.interpreter(path)
        except Exception as e:
            return {'status': 'refuse', 'detail': 'interpreter: ' + tfl.err(e)}
        got = tfl.run(it, [tfl.to_nhwc(t) for t in x2])
        # the GELU kernel of TFLite is an approximation
        d = tfl.agree(got, want, rtol=4e-3 if any(o == 'gelu' for o, _ in st) else 2e-4)
        ops = tfl.ops_of(it)
    except lib.Fail as e:
        d, ops = str(e), []
    finally:
        if path:
            tfl.cleanup(path)
    return {'status': 'fail' if d else 'ok', 'detail': d, 'sig': ','.join(ops), 'steps': len(ops)}


def _too_deep(m, st, x):
    """The TFLite broadcast kernels abort the process beyond 4 dims: outside of the bound."""
    with torch.no_grad():
        env = dict(zip(m.inputs, x))
        ns = {'torch': torch, 'F': torch.nn.functional, 'self': m}
        for i, line in enumerate(m.lines):
            if st[i][0] in ('ln', 'gn', 'prelu', 'addc', 'addl', 'addf', 'bn') and env[st[i][1][0]].dim() > 4:
                return True
            exec(line, {**ns, **env}, env)
    return False


def lib_tb(e):
    import traceback

    tb = traceback.extract_tb(e.__traceback__)[-1]
    return f'{type(e).__name__}: {str(e)[:120]} @{tb.name}'
