"""Q06: cross-layer equalization and batch norm restoration preserve the function."""
import copy
import itertools
import os

import torch
import torch.nn as nn

from .. import lib, quantprog
from ..quantprog import SHAPES, chain

PROPERTY = 'Q06'
LEVEL = 'model_checking'
RULE = (
    'all programs made of at most the stated number of statements over layers, norms, activations and other operators, with every assignment of channel patterns (generic, dead, tiny, huge) to their layers, are equalized '
    '(with each threshold and number of iterations), have their high biases absorbed, or their batch norms restored by the tool; the result must have finite weights and compute the same outputs. Non-trivial: some weight was changed.'
)
ASSUMPTIONS = ['generic finite inputs, float32, CPU; absorption of high biases is exact only where no value is below what is absorbed and nothing is padded, other cases are rejected']
RECYCLE = 250

L4 = ['conv', 'convnb', 'dw', 'gconv', 'convst', 'convdil', 'deconv', 'c1x1']
ACTS = ['relum', 'relu', 'prelum', 'prelu1', 'lrelu', 'relu6', 'silu', 'hsw', 'sig', 'tanh', 'elu', 'clampnx', 'abs', 'neg', 'relu6m', 'lrelum', 'elum', 'silum', 'hswm', 'hsigm', 'sigm', 'tanhm', 'htm', 'htu', 'softpm', 'gelum', 'logsm', 'threshm', 'selum', 'celum', 'hshrm', 'sshrm', 'dropm', 'padm', 'lnm', 'inm', 'poolm', 'flatm', 'sumk', 'dwp0']
OTHER = ['bn', 'addk', 'mulk', 'drop', 'avgp', 'maxp', 'pad', 'perm', 'flat', 'res', 'cat1', 'interp', 'se', 'sl', 'chs', 'softm', 'ident', 'seq', 'prelu4', 'ident2']
OPS = {
    'htm': ('self.m{i}({x})', 'nn.Hardtanh(-0.2, 0.9)'), 'htu': ('self.m{i}({x})', 'nn.Hardtanh()'), 'softpm': ('self.m{i}({x})', 'nn.Softplus()'), 'gelum': ('self.m{i}({x})', 'nn.GELU()'), 'logsm': ('self.m{i}({x})', 'nn.LogSigmoid()'), 'threshm': ('self.m{i}({x})', 'nn.Threshold(0.1, 0.3)'), 'selum': ('self.m{i}({x})', 'nn.SELU()'), 'celum': ('self.m{i}({x})', 'nn.CELU(0.7)'),
    'hshrm': ('self.m{i}({x})', 'nn.Hardshrink(0.2)'), 'sshrm': ('self.m{i}({x})', 'nn.Softshrink(0.2)'), 'dropm': ('self.m{i}({x})', 'nn.Dropout(0.3)'), 'padm': ('self.m{i}({x})', 'nn.ConstantPad2d(1, 0.7)'), 'lnm': ('self.m{i}({x})', 'nn.LayerNorm({l})'), 'inm': ('self.m{i}({x})', 'nn.InstanceNorm2d({c}, affine=True)'), 'poolm': ('self.m{i}({x})', 'nn.AvgPool2d(2, 1)'),
    'flatm': ('self.m{i}({x})', 'nn.Flatten(2)'), 'sumk': '{x} - {x}.mean(1, keepdim=True)', 'dwp0': ('self.m{i}({x})', 'r4(nn.Conv2d({c}, {c}, 2, groups={c}))'), 'cvp0': ('self.m{i}({x})', 'r4(nn.Conv2d({c}, 4, 3))'), 'gcp0': ('self.m{i}({x})', 'r4(nn.Conv2d({c}, 4, 2, groups=2))'), 'dwm': ('self.m{i}({x})', 'r4(nn.Conv2d({c}, {c} * 2, 1, groups={c}))'),
    'c1x1': ('self.m{i}({x})', 'r4(nn.Conv2d({c}, 4, 1))'), 'ident': ('self.m{i}({x})', 'nn.Identity()'), 'seq': ('self.m{i}({x})', 'r4(nn.Sequential(nn.Conv2d({c}, 4, 1), nn.ReLU(), nn.Conv2d(4, 4, 1)))'), 'prelu4': ('self.m{i}({x})', 'nn.PReLU({c})'),
    'conv1': ('self.m{i}({x})', 'r3(nn.Conv1d({c}, 4, 3, padding=1))'), 'dw1': ('self.m{i}({x})', 'r3(nn.Conv1d({c}, {c}, 3, padding=1, groups={c}))'), 'ident2': '{x}.contiguous()', 'deconv1': ('self.m{i}({x})', 'r3(nn.ConvTranspose1d({c}, 4, 2, stride=2))'),
    'twice': ('self.m{i}(F.relu(self.m{i}({x})))', 'r4(nn.Conv2d({c}, {c}, 1))'),
}
PAT = ['', 'dead0', 'dead1', 'tiny', 'huge', 'nobias']
SIZES = {'i': [2, 4, 6, 6], 's': [2, 4, 6], 'v': [3, 6], 'q': [3, 2, 4]}


def cases(tier):
    quick = tier == 'quick'
    seen = set()

    def emit(st, sh, opt='cle', pats=('',)):
        used = {a for _, args in st for a in args}
        outs = [f'v{i}' for i in range(len(st)) if f'v{i}' not in used]
        for p in pats:
            cid = ';'.join(f'{o}({",".join(a)})' for o, a in st) + f':{sh}:{opt}:{p}'
            if cid not in seen:
                seen.add(cid)
                yield cid, {'st': st, 'sh': sh, 'outs': outs, 'o': opt, 'p': p}

    for a, b in itertools.product(L4, L4):
        for mid in [[], ['relum'], ['bn'], ['bn', 'relum']] + ([] if quick else [['prelum'], ['lrelu'], ['bn', 'prelum'], ['relu6'], ['bn', 'sig']]):
            yield from emit(chain([a] + mid + [b]), 'i', pats=PAT if mid == ['relum'] or not quick else ('',))
            if mid and mid[0] == 'bn':
                yield from emit(chain([a] + mid + [b, 'bn', 'relum']), 'i')
    HB = ['c1x1', 'cvp0', 'dwp0'] + ([] if quick else ['gcp0', 'dwm'])
    for a in L4 + ['cvp0', 'dwp0']:
        for b in HB:
            for mid in (['bn'], ['bn', 'relum']) + (() if quick else (['bn', 'lrelum'], ['bn', 'ident'])):
                yield from emit(chain([a] + mid + [b, 'bn']), 'i', 'hba', ('', 'huge', 'tiny'))
                for c in HB:
                    if not quick or a in ('conv', 'dw', 'c1x1'):
                        yield from emit(chain([a] + mid + [b] + mid + [c, 'bn']), 'i', 'hba', ('', 'huge', 'tiny'))
    for m in ACTS + OTHER:
        yield from emit(chain(['conv', m, 'conv']), 'i', pats=PAT)
        yield from emit(chain(['conv', m, 'dw', m, 'conv']), 'i')
        yield from emit(chain(['lin', m, 'lin']), 'v', pats=PAT)
        yield from emit(chain(['lin', m, 'lin']), 'q')
        yield from emit(chain(['conv1', m, 'conv1']), 's', pats=PAT)
        yield from emit(chain(['conv1', m, 'dw1', m, 'conv1']), 's')
        for n in ACTS + OTHER:
            if not quick or m in ('relum', 'bn', 'addk', 'relu6', 'flat') or n in ('relum', 'prelum', 'sig'):
                yield from emit(chain(['conv', m, n, 'conv']), 'i')
                if not quick:
                    yield from emit(chain(['lin', m, n, 'lin']), 'v')
    for opt in ('cle:0', 'cle:1', 'cle:3', 'cle:t0.1', 'cle:t10', 'cle:t1000', 'cle:t0'):
        for st in (['conv', 'relum', 'conv', 'relum', 'conv'], ['conv', 'bn', 'relum', 'dw', 'bn', 'relum', 'c1x1'], ['conv', 'dw', 'conv', 'gconv', 'dw', 'conv']):
            yield from emit(chain(st), 'i', opt, PAT)
    # diamonds, shared inputs, several outputs
    for a, b, j in itertools.product(('conv', 'relum', 'dw', 'bn'), ('conv', 'relum', 'x'), ('add', 'mul', 'catz', 'two')):
        bb = [['conv', ['x0']], [a, ['v0']]] + ([[b, ['v0']]] if b != 'x' else [])
        l, r = 'v1', 'v2' if b != 'x' else 'v0'
        n = len(bb)
        if j == 'two':
            yield from emit(bb + [['conv', [l]], ['conv', [r]]], 'i')
        else:
            yield from emit(bb + [[j, [l, r]], ['conv', [f'v{n}']]], 'i')
            yield from emit(bb + [['relum', [l]], [j, [f'v{n}', r]], ['conv', [f'v{n + 1}']]], 'i')
    for m in ('conv', 'relum', 'bn'):
        yield from emit([['conv', ['x0']], [m, ['v0']], ['conv', ['v1']], ['relum', ['v1']]], 'i')
    for n in (1, 2):
        for st in (['conv', 'conv'], ['conv', 'relum', 'conv'], ['conv', 'bn', 'relum', 'conv'], ['conv', 'relum', 'prelum', 'conv'], ['conv', 'dw', 'conv']):
            # an inner value is an output too
            yield from emit(chain(st), 'i', 'cle', ('out%d' % n,))
            yield from emit(chain(st), 'i', 'hba', ('out%d' % n,))
    yield from emit(chain(['twice', 'conv']), 'i')
    yield from emit(chain(['conv', 'relum', 'twice']), 'i')
    for ls, sh in ((['conv', 'convnb', 'dw', 'gconv', 'c1x1', 'convst', 'deconv'], 'i'), (['conv1', 'dw1', 'deconv1'], 's')):
        for n in range(1, 3 if quick else 4):
            for st in itertools.product(ls + ['relum', 'bn', 'addk', 'maxp'], repeat=n):
                if set(st) & set(ls):
                    for sub in ('', 'first', 'none'):
                        yield from emit(chain(st), sh, 'rbn' + sub)


def pattern(model, p):
    ls = [m for m in model.modules() if isinstance(m, (nn.Conv1d, nn.Conv2d, nn.Linear))]
    with torch.no_grad():
        for k, m in enumerate(ls):
            if p == 'dead0':
                m.weight[0] = 0
            elif p == 'dead1' and k % 2:
                m.weight[:, 0] = 0
            elif p == 'tiny':
                m.weight[1] *= 1e-5
            elif p == 'huge':
                m.weight[0] *= 1e4
            elif p == 'nobias' and k == 0 and m.bias is not None:
                m.bias = None


def run_case(p):
    from tinynn.graph.quantization.algorithm import cross_layer_equalization as cle
    from tinynn.util.bn_restore import model_restore_bn

    lib.quiet_tinynn()
    x = lib.gen_inputs([SIZES[p['sh']]], 0)[0]
    from .. import convprog

    if p['p'].startswith('out'):
        p = dict(p, outs=p['outs'] + ['v' + str(int(p['p'][3:]) - 1)])
    ops = {o: OPS.get(o, quantprog.OPS.get(o)) for o, _ in p['st']}
    try:
        model, src = convprog.make(p['st'], p['outs'], ['x0'], [x], repr(p['st']), ops=ops, env={'r3': quantprog._rank(3), 'r4': quantprog._rank(4)})
    except Exception as e:
        return {'status': 'reject', 'detail': quantprog.err(e), 'steps': 0}
    if model is None:
        return {'status': 'reject', 'detail': 'not a PyTorch program', 'steps': 0}
    pattern(model, p['p'])
    model.eval()
    ys = [lib.gen_inputs([SIZES[p['sh']]], k)[0] for k in (1, 2)]
    o = p['o'].split(':')
    with torch.no_grad():
        if o[0] == 'hba':
            # running statistics that describe the data, high biases
            model.train()
            for m in model.modules():
                if isinstance(m, nn.BatchNorm2d):
                    m.momentum = 1.0
                    m.bias.copy_(m.bias.abs() + torch.tensor([3.0, 0.5, 2.0, 0.1, 1.0, 0.0])[: m.bias.numel()])
                    m.weight.copy_(m.weight.abs() * 0.3 + 0.2)
                    f = {'huge': 30.0, 'tiny': 0.05}.get(p['p'], 1.0)
                    m.weight[0] *= f
                    m.bias[0] *= f
            model(torch.cat([x] + ys))
            model.eval()
            for m in model.modules():
                if isinstance(m, nn.BatchNorm2d):
                    m.running_var.mul_(4)
            low = []

            def look(m, i, r):
                c = (m.bias - 3 * m.weight.abs()).clamp(min=0).reshape(1, -1, 1, 1)
                low.append(bool(((r < c - 1e-6) & (c > 0)).any()))

            hs = [m.register_forward_hook(look) for m in [m for m in model.modules() if isinstance(m, nn.BatchNorm2d)][:-1]]
            for y in ys:
                model(y)
            [h.remove() for h in hs]
            convs = [m for m in model.modules() if isinstance(m, nn.Conv2d)]
            if any(low) or len(convs) < 2 or any(isinstance(m, nn.Conv2d) and m.padding != (0, 0) for m in convs[1:]):
                return {'status': 'reject', 'detail': 'absorption is not exact here', 'steps': 1}
        want = [model(y) for y in ys]
        old = {k: v.clone() for k, v in model.state_dict().items()}
        d = lib.scratch(lib.uniq('cle'))
        os.makedirs(d, exist_ok=True)
        try:
            if o[0].startswith('rbn'):
                names = [n for n, m in model.named_modules() if isinstance(m, (nn.Conv1d, nn.Conv2d))]
                names = {'rbn': None, 'rbnfirst': names[:1], 'rbnnone': []}[o[0]]

                def calibrate(m, a):
                    for q in m.modules():
                        if isinstance(q, nn.modules.batchnorm._BatchNorm) and q.momentum == 0.1 and q.weight.eq(1).all():
                            q.momentum = 1.0
                    # other norms of the model keep their statistics
                    for q in m.modules():
                        if isinstance(q, nn.modules.batchnorm._BatchNorm) and not q.weight.eq(1).all():
                            q.eval()
                    m(a)

                new = model_restore_bn(model, torch.device('cpu'), calibrate, x, layers_fused_bn=names)
                if new.training:
                    new.eval()
            else:
                kw = {}
                for t in o[1:]:
                    kw['threshold' if t[0] == 't' else 'cle_iters'] = float(t[1:]) if t[0] == 't' else int(t)
                cwd = os.getcwd()
                os.chdir(d)
                try:
                    new = cle.cross_layer_equalize(model, x, torch.device('cpu'), work_dir=d, hba_flag=o[0] == 'hba', **kw)
                finally:
                    os.chdir(cwd)
                new.eval()
            got = [new(y) for y in ys]
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError)) or type(e).__name__ == 'CaseTimeout':
                raise
            return {'status': 'refuse', 'detail': quantprog.err(e) + '\n' + src, 'steps': 1}
    for n, v in new.state_dict().items():
        if not torch.isfinite(v.float()).all():
            raise lib.Fail(f'{n} is not finite any more\n{src}')
    for n, v in model.state_dict().items():
        if o[0].startswith('rbn') and not torch.equal(v, old[n]):
            raise lib.Fail(f'{n} of the model of the user was changed\n{src}')
    for g, w in zip(got, want):
        e = quantprog.sqnr_close(g, w, 2e-3 if o[0].startswith('rbn') else 1e-4, 1e-5)
        if e:
            raise lib.Fail(e + '\n' + src)
    a, b = list(new.state_dict().values()), list(old.values())
    return {'status': 'ok', 'steps': 3, 'nontrivial': len(a) != len(b) or not all(x.shape == y.shape and torch.equal(x, y) for x, y in zip(a, b))}
