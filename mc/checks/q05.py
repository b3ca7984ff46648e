"""Q05: quantizable replacements equal the layers they replace."""
import copy
import itertools

import torch
import torch.nn as nn

from .. import lib, quantprog

PROPERTY = 'Q05'
LEVEL = 'model_checking'
RULE = (
    'all combinations of constructor arguments, input ranks and given or missing states of the replaced layers within the stated bounds are enumerated; the replacement is built by the constructors of the tool, '
    'rounding is switched off, and outputs, states, gradients and running statistics must equal those of the replaced PyTorch layer, in evaluation and training mode, and after conversion back. Non-trivial: both were evaluated on generic inputs.'
)
ASSUMPTIONS = ['generic finite inputs, float32, CPU']
RECYCLE = 4000


def cases(tier):
    quick = tier == 'quick'
    for kind, layers, bias, bf, bi, st, mode, hid, t, b in itertools.product(
        ('gru', 'lstm'), (1, 2) if quick else (1, 2, 3), (0, 1), (0, 1), (0, 1), (0, 1), ('ptq', 'qat'), (1, 3) if quick else (1, 2, 3), (1, 3) if quick else (1, 2, 4), (1, 2) if quick else (1, 2, 3)
    ):
        p = dict(f='rnn', kind=kind, layers=layers, bias=bias, bf=bf, bi=bi, st=st, mode=mode, hid=hid, t=t, b=b)
        yield ','.join(f'{k}={v}' for k, v in p.items()), p
    for cls, n, c in itertools.product(('prelu1', 'preluc', 'silu', 'hardsigmoid'), (2, 3, 4, 5), (1, 3)):
        yield f'{cls},rank={n},c={c}', dict(f='act', cls=cls, n=n, c=c)
    for n in (1, 2, 3, 4):
        for d in range(-n, n):
            yield f'glu,rank={n},dim={d}', dict(f='act', cls='glu', n=n, c=4, d=d)
    for n in (1, 2, 3, 4):
        for k in range(1, n + 1):
            for aff, bias, eps in itertools.product((0, 1), (0, 1), (1e-5, 1e-2)):
                yield f'layernorm,rank={n},dims={k},affine={aff},bias={bias},eps={eps}', dict(f='norm', cls='layer', n=n, k=k, aff=aff, bias=bias, eps=eps)
            for aff, eps in itertools.product((0, 1), (None, 1e-5, 1e-2)):
                yield f'rmsnorm,rank={n},dims={k},affine={aff},eps={eps}', dict(f='norm', cls='rms', n=n, k=k, aff=aff, bias=0, eps=eps)
    for cls in ('c1', 't1', 't2', 'tbn'):
        for k, s, pd, dl, g, bias, op in itertools.product((1, 2, 3) if not quick else (1, 3), (1, 2, 3) if not quick else (1, 2), (0, 1, 2) if not quick else (0, 1), (1, 2), (1, 2, 4), (0, 1), (0, 1)):
            if op and (cls == 'c1' or op >= max(s, dl)):
                continue
            for x in ({'': [('zeros', '')], 'c1': [('zeros', ''), ('reflect', ''), ('replicate', ''), ('circular', '')]}.get(cls, [('zeros', 'eps')] if cls == 'tbn' else [('zeros', ''), ('zeros', 'size')])):
                if x[1] == 'size' and op >= s:
                    continue
                p = dict(f='conv', cls=cls, k=k, s=s, p=pd, d=dl, g=g, bias=bias, op=op, pm=x[0], x=x[1])
                yield ','.join(f'{a}={b}' for a, b in p.items() if a != 'f'), p
    for a, bias, aff, tr, g in itertools.product(('convbn', 'bnconv'), (0, 1), (0, 1), (0, 1), (1, 2, 4)):
        if a == 'bnconv' and tr:
            continue
        yield f'fuse,{a},bias={bias},affine={aff},transposed={tr},groups={g}', dict(f='fuse', a=a, bias=bias, aff=aff, tr=tr, g=g)


def same(got, want, what, tol=2e-5):
    g, w = lib.flatten(got), lib.flatten(want)
    if len(g) != len(w):
        raise lib.Fail(f'{what}: {len(g)} results instead of {len(w)}')
    for i, (a, b) in enumerate(zip(g, w)):
        if a.shape != b.shape:
            raise lib.Fail(f'{what}: result {i} has shape {tuple(a.shape)} instead of {tuple(b.shape)}')
        if not torch.allclose(a.detach(), b.detach(), rtol=tol, atol=tol * max(1.0, b.abs().max().item() if b.numel() else 1.0)):
            raise lib.Fail(f'{what}: result {i} differs by {(a - b).abs().max().item():.4g}')


def off(m):
    m.apply(torch.quantization.disable_fake_quant)
    return m


def randomize(m, seed=1):
    g = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for n, p in m.named_parameters():
            p.copy_(torch.rand(p.shape, generator=g) * 1.6 - 0.8)
        for n, b in m.named_buffers():
            if n.endswith('running_var'):
                b.copy_(torch.rand(b.shape, generator=g) + 0.5)
            elif n.endswith('running_mean'):
                b.copy_(torch.rand(b.shape, generator=g) - 0.5)
    return m


def rnn(p):
    from tinynn.graph.quantization.quantizable import gru, lstm

    cls = nn.GRU if p['kind'] == 'gru' else nn.LSTM
    m = randomize(cls(2, p['hid'], p['layers'], bool(p['bias']), bool(p['bf']), 0.0, bool(p['bi']))).eval()
    dirs = 1 + p['bi']
    x = lib.gen_inputs([[p['b'], p['t'], 2] if p['bf'] else [p['t'], p['b'], 2]], 3)[0]
    hs = lib.gen_inputs([[p['layers'] * dirs, p['b'], p['hid']]] * 2, 4)
    st = None if not p['st'] else hs[0] if p['kind'] == 'gru' else tuple(hs)
    args = (x,) if st is None else (x, st)
    want = m(*args)
    before = [t.clone() for t in lib.flatten(args)]
    q = copy.deepcopy(m)
    if p['mode'] == 'ptq':
        q.qconfig = torch.ao.quantization.get_default_qconfig('qnnpack')
        q = (gru.GRU if p['kind'] == 'gru' else torch.ao.nn.quantizable.LSTM).from_float(q)
    else:
        q.qconfig = torch.ao.quantization.get_default_qat_qconfig('qnnpack')
        f = gru.from_float if p['kind'] == 'gru' else lstm.from_float
        q = f.__func__(gru.GRU if p['kind'] == 'gru' else torch.ao.nn.quantizable.LSTM, q)
    off(q).eval()
    same(q(*args), want, 'outputs')
    same(list(args), before, 'inputs after the call', 0)
    same(q(*args), want, 'outputs of a second call')


def run_case(p):
    lib.quiet_tinynn()
    torch.manual_seed(0)
    try:
        with torch.no_grad():
            globals()[p['f']](p)
    except lib.Fail:
        raise
    except Exception as e:
        if type(e).__name__ == 'CaseTimeout':
            raise
        return {'status': 'refuse', 'detail': quantprog.err(e), 'steps': 1}
    return {'status': 'ok', 'steps': 2, 'nontrivial': True}


def act(p):
    from tinynn.graph.quantization import modules as M

    shape = [2, p['c'], 4, 2, 3][: p['n']] if p['cls'] != 'glu' else [2, 4, 6, 2][: p['n']]
    x = lib.gen_inputs([shape], 1)[0] * 3
    m = {'prelu1': lambda: nn.PReLU(), 'preluc': lambda: nn.PReLU(p['c']), 'silu': nn.SiLU, 'hardsigmoid': nn.Hardsigmoid, 'glu': lambda: nn.GLU(p['d'])}[p['cls']]()
    randomize(m)
    q = {'prelu1': M.QPReLU, 'preluc': M.QPReLU, 'silu': M.QSiLU, 'hardsigmoid': M.QHardsigmoid, 'glu': M.QGLU}[p['cls']](m)
    for scale in (1, 5):
        x0 = x * scale
        same(q(x0.clone()), m(x0.clone()), 'outputs')
    with torch.enable_grad():
        a, b = x.clone().requires_grad_(), x.clone().requires_grad_()
        q(a).square().sum().backward()
        m(b).square().sum().backward()
    same(a.grad, b.grad, 'gradient')
    if hasattr(m, 'weight'):
        same(q.weight.grad, m.weight.grad, 'gradient of the weight', 1e-4)


def norm(p):
    from tinynn.graph.quantization import modules as M

    shape = [2, 3, 4, 2][: p['n']]
    x = lib.gen_inputs([shape], 1)[0]
    ns = shape[-p['k']:]
    m = nn.LayerNorm(ns, p['eps'], bool(p['aff']), bool(p['bias'])) if p['cls'] == 'layer' else nn.RMSNorm(ns, p['eps'], bool(p['aff']))
    randomize(m)
    q = (M.QLayerNorm if p['cls'] == 'layer' else M.QRMSNorm)(m)
    for y in (x, x * 100, x * 0.01, x * 0):
        same(q(y.clone()), m(y.clone()), 'outputs', 1e-4)


def conv(p):
    from tinynn.graph.quantization import fused_modules as fm, qat_modules as Q

    qc = torch.ao.quantization.get_default_qat_qconfig('qnnpack')
    a = dict(stride=p['s'], padding=p['p'], dilation=p['d'], groups=p['g'], bias=bool(p['bias']), padding_mode=p['pm'])
    if p['cls'] == 'c1':
        m, q, x = nn.Conv1d(4, 8, p['k'], **a), Q.Conv1d, [2, 4, 9]
    elif p['cls'] == 't1':
        m, q, x = nn.ConvTranspose1d(4, 8, p['k'], output_padding=p['op'], **a), Q.ConvTranspose1d, [2, 4, 6]
    else:
        m, q, x = nn.ConvTranspose2d(4, 8, (p['k'], 2), **dict(a, stride=(p['s'], 2), padding=(p['p'], 0)), output_padding=(p['op'], 0)), Q.ConvTranspose2d, [2, 4, 6, 3]
    randomize(m)
    x = lib.gen_inputs([x], 2)[0]
    if p['cls'] != 'tbn':
        try:
            want = m(x)
        except Exception:
            return
        f = copy.deepcopy(m)
        f.qconfig = qc
        t = off(q.from_float(f))
        same(t(x), want, 'outputs')
        if p['x'] == 'size':
            size = list(want.shape[2:])
            same(t(x, output_size=size), m(x, output_size=size), 'outputs of a given size')
        if hasattr(t, 'to_float'):
            back = t.to_float()
            same(back(x), want, 'outputs after conversion back')
            same(list(back.state_dict().values()), list(m.state_dict().values()), 'weights', 0)
        return
    bn = randomize(nn.BatchNorm2d(8, eps=1e-2, momentum=0.3, affine=True), 2)
    ref = nn.Sequential(m, bn)
    try:
        ref(x)
    except Exception:
        return
    bn = randomize(bn, 2)
    f = fm.ConvTransposeBn2d(copy.deepcopy(m), copy.deepcopy(bn))
    f.qconfig = qc
    t = off(Q.ConvTransposeBn2d.from_float(f))
    for mode in ('train', 'train', 'eval', 'train', 'freeze', 'eval'):
        if mode == 'freeze':
            t.freeze_bn_stats()
            bn.eval()
            t.train()
        else:
            getattr(t, mode)()
            getattr(ref, mode)()
        ref.zero_grad()
        t.zero_grad()
        with torch.enable_grad():
            g, w = t(x), ref(x)
            g.square().sum().backward()
            w.square().sum().backward()
        same(g, w, f'outputs ({mode})', 1e-3)
        same([t.weight.grad], [m.weight.grad], f'gradient ({mode})', 3e-3)
        same([t.bn.running_mean, t.bn.running_var, t.bn.num_batches_tracked.float()], [bn.running_mean, bn.running_var, bn.num_batches_tracked.float()], f'running statistics ({mode})', 1e-3)
        x = x * 1.3 + 0.1
    ref.eval()
    t.eval()
    want = ref(x)
    same(t.to_float()(x), want, 'outputs after conversion back', 1e-3)
    t.activation_post_process = qc.activation()
    tr = Q.ConvTransposeBn2d.transform(t)
    same(off(tr)(x), want, 'outputs after transform', 1e-3)


def fuse(p):
    from tinynn.graph.quantization import fused_modules as fm

    c = nn.ConvTranspose2d if p['tr'] else nn.Conv2d
    m = randomize(c(4, 8, 3, groups=p['g'], bias=bool(p['bias'])))
    bn = randomize(nn.BatchNorm2d(8 if p['a'] == 'convbn' else 4, eps=0.1, affine=bool(p['aff'])), 3)
    ref = nn.Sequential(m, bn) if p['a'] == 'convbn' else nn.Sequential(bn, m)
    ref.eval()
    x = lib.gen_inputs([[2, 4, 5, 5]], 2)[0]
    want = ref(x)
    if p['a'] == 'bnconv':
        same(fm.fuse_bn_conv(False, copy.deepcopy(bn), copy.deepcopy(m))(x), want, 'outputs', 1e-4)
        same(fm.fuse_bn_conv_relu(False, copy.deepcopy(bn), copy.deepcopy(m), nn.ReLU().eval())(x), want.relu(), 'outputs of relu', 1e-4)
    elif p['tr']:
        same(fm.fuse_convtranspose_bn(False, copy.deepcopy(m), copy.deepcopy(bn))(x), want, 'outputs', 1e-4)
    else:
        from tinynn.graph.quantization.utils import fuse_conv_bn_weights

        k = copy.deepcopy(m)
        k.weight, k.bias = fuse_conv_bn_weights(k.weight, k.bias, bn.running_mean, bn.running_var, bn.eps, bn.weight, bn.bias)
        same(k(x), want, 'outputs', 1e-4)
