"""U01: training loop: best model, schedules, averages."""
import itertools
import os
import shutil

import torch
import torch.nn as nn

from .. import lib

PROPERTY = 'U01'
LEVEL = 'model_checking'
RULE = (
    'all histories of validation accuracies up to the stated number of epochs over a set of values (including repetitions, zeros and negative values), in every mode (plain, QAT, distributed, secondary process, a checkpoint of an earlier run present) are played through the real train(); '
    'all schedules of batches, iteration limits, warm-up lengths and schedulers through the real per-epoch functions; all batchings of all small label patterns through validate(); all short update sequences through AverageMeter. '
    'The final model, the saved file, every state seen by the callbacks and every scheduler call are compared with a reference automaton. Non-trivial: at least one step of the automaton was compared.'
)
ASSUMPTIONS = ['accuracies are ordered numbers (no NaN)', 'distributed wrapper and schedulers are recording stand-ins']
RECYCLE = 3000


def cases(tier):
    quick = tier == 'quick'
    vals = (0.0, 0.3, 0.7, -1.0) if quick else (0.0, 0.3, 0.7, -1.0, 55.5)
    for n in range(0, 5 if quick else 6):
        for h in itertools.product(vals, repeat=n):
            for mode in ('plain', 'stale', 'dist', 'second') if n < 4 or not quick else ('plain', 'stale'):
                yield f'hist:{h}:{mode}', dict(f='hist', h=h, mode=mode)
    for n in range(0, 13 if quick else 40):
        for dist in (0, 1):
            for main in (0, 1):
                yield f'qat:{n}:{dist}:{main}', dict(f='qat', n=n, dist=dist, main=main)
    for n in range(1, 5):
        for s in itertools.product((-2.0, 0.0, 1.5), (1, 2, 5), repeat=n) if n < (3 if quick else 4) else itertools.product((0.5, 3.0), (1, 4), repeat=n):
            yield f'meter:{s}', dict(f='meter', s=s)
    for n in range(2, 4):
        for s in itertools.product((-2.0, 1.5), (0, 1, 2), repeat=n):
            if s[1] and 0 in s[1::2]:
                yield f'meter:{s}', dict(f='meter', s=s)
    for fn, b, w, mx, sch, it, wu, ep, crit, sc in itertools.product(
        ('train_one_epoch', 'train_one_epoch_distill'), (0, 1, 3), (0, 1, 2, 4), (None, 0, 2, 4), (0, 1), (0, 1), (0, 1), (1, 2), ('ce', 'bce'), (0, 1)
    ):
        if crit == 'bce' and (mx or w) or sc and (mx or crit == 'bce') or quick and ep == 2 and (sc or crit == 'bce'):
            continue
        p = dict(f='epoch', fn=fn, b=b, w=w, mx=mx, sch=sch, it=it, wu=wu, ep=ep, crit=crit, sc=sc)
        yield ','.join(f'{k}={v}' for k, v in p.items()), p
    for n in range(1, 6):
        for parts in [c for k in range(1, n + 1) for c in itertools.product(range(1, n + 1), repeat=k) if sum(c) == n]:
            for ok in itertools.product((0, 1), repeat=n):
                yield f'val:{parts}:{ok}', dict(f='val', parts=parts, ok=ok)
    for n, mx in itertools.product(range(4), (None, 0, 1, 3, 5)):
        yield f'calib:{n}:{mx}', dict(f='calib', n=n, mx=mx)
    for conv, names, style, bias, ep in itertools.product((1, 2), ('all', 'a', 'b.0', 'b.2', 'a+b.2', 'none'), ('plain', 'list', 'dict', 'shared'), (0, 1), (1, 3)):
        p = dict(f='bnr', conv=conv, names=names, style=style, bias=bias, ep=ep)
        yield 'bnr:' + ','.join(f'{k}={v}' for k, v in p.items() if k != 'f'), p


class W(nn.Module):
    def __init__(self):
        super().__init__()
        self.w = nn.Parameter(torch.full((1,), -1.0))
        self.register_buffer('b', torch.full((1,), -1.0))

    def forward(self, x):
        return x * self.w


W.__module__ = __name__


class DDP(nn.Module):
    def __init__(self, m):
        super().__init__()
        self.module = m

    def forward(self, x):
        return self.module(x)


class Sampler:
    def __init__(self):
        self.seen = []

    def set_epoch(self, e):
        self.seen.append(e)


def _set(m, v):
    with torch.no_grad():
        m.w.fill_(float(v))
        m.b.fill_(float(v))


def hist(p):
    from tinynn.util.train_util import DLContext, train

    d = lib.scratch(lib.uniq('tr'))
    try:
        os.makedirs(d)
        if p['mode'] == 'stale':
            old = W()
            _set(old, 77)
            torch.save(old, os.path.join(d, 'best_model.pth'))
        m = W()
        top = DDP(m) if p['mode'] == 'dist' else m
        ctx = DLContext(max_epoch=len(p['h']))
        ctx.train_loader = type('L', (), {})()
        ctx.train_loader.sampler = Sampler()
        log = []

        def tf(model, c):
            if model is not top:
                raise lib.Fail('another model is trained')
            if m.w.item() != len([x for x in log if x[0] == 't']) - 1:
                raise lib.Fail(f'epoch {c.epoch} starts from weights of epoch {m.w.item()}')
            log.append(('t', c.epoch))
            _set(m, c.epoch)

        def vf(model, c):
            if model is not m:
                raise lib.Fail('another model is validated')
            log.append(('v', c.epoch, m.w.item()))
            return p['h'][int(m.w.item())] if m.w.item() >= 0 else 0.0

        with lib_quiet():
            train(top, ctx, tf, vf, p['mode'] == 'dist', p['mode'] != 'second', False, d)
        n = len(p['h'])
        if [x[1] for x in log if x[0] == 't'] != list(range(n)):
            raise lib.Fail(f'trained epochs {log}')
        if p['mode'] == 'dist' and ctx.train_loader.sampler.seen != list(range(n)):
            raise lib.Fail(f'epochs of the sampler {ctx.train_loader.sampler.seen}')
        v = [x[2] for x in log if x[0] == 'v']
        if p['mode'] == 'second':
            if v or os.listdir(d):
                raise lib.Fail('a secondary process validates or saves')
            best = {n - 1}
        else:
            if v[:n] != list(range(n)):
                raise lib.Fail(f'validated weights {v}')
            best = {i for i in range(n) if p['h'][i] == max(p['h'])} or {-1}
        if m.w.item() not in best or m.b.item() not in best:
            raise lib.Fail(f'the final model is that of epoch {m.w.item()}, the best one is {best}')
        if n and p['mode'] != 'second':
            got = torch.load(os.path.join(d, 'best_model.pth'), weights_only=False).state_dict()
            if not all(t.item() in best for t in got.values()):
                raise lib.Fail(f'the saved model is {got}, the best epoch is {best}')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return len(p['h']) * 2 + 1


class lib_quiet:
    def __enter__(self):
        import contextlib
        import io

        lib.quiet_tinynn()
        self.c = contextlib.redirect_stdout(io.StringIO())
        self.c.__enter__()

    def __exit__(self, *a):
        self.c.__exit__(*a)


def qat(p):
    from tinynn.util.train_util import DLContext, train

    d = lib.scratch(lib.uniq('tr'))
    try:
        class M(nn.Module):
            def __init__(self):
                super().__init__()
                self.w = nn.Parameter(torch.full((1,), -1.0))
                self.register_buffer('b', torch.zeros(1))
                self.fq = torch.quantization.FakeQuantize()
                self.cb = torch.nn.intrinsic.qat.ConvBn2d(1, 1, 1, qconfig=torch.quantization.get_default_qat_qconfig('qnnpack'))

        m = M()
        m.train()
        top = DDP(m) if p['dist'] else m
        n = p['n']
        ctx = DLContext(max_epoch=n)
        ctx.train_loader = type('L', (), {})()
        ctx.train_loader.sampler = Sampler()
        seen = []

        def state():
            return bool(m.fq.observer_enabled.item()), bool(m.cb.freeze_bn is False)

        def tf(model, c):
            seen.append(state())
            _set(m, c.epoch)

        with lib_quiet():
            train(top, ctx, tf, lambda model, c: 0.5, bool(p['dist']), bool(p['main']), True, d)
        third = n // 3
        # observers are frozen after epoch n // 3, batch norm statistics after epoch 2 * (n // 3)
        want = [(e <= third, True if n < 3 else e <= 2 * third) for e in range(n)]
        if seen != want and not (n < 3 and [s[0] for s in seen] == [w[0] for w in want]):
            raise lib.Fail(f'(observers, statistics) active at the start of the epochs: {seen} instead of {want}')
        if n >= 3 and state() != (False, False):
            raise lib.Fail(f'after training: {state()}')
        f = os.path.join(d, 'qat_last_model.pth')
        if os.path.exists(f) != bool(p['main'] and n):
            raise lib.Fail('qat_last_model.pth ' + ('missing' if p['main'] else 'written by a secondary process'))
        if os.path.exists(f) and [v.item() for k, v in torch.load(f).items() if k.endswith('w') and 'conv' not in k][0] != n - 1:
            raise lib.Fail('the saved model is not that of the last epoch')
        if n and m.w.item() != n - 1:
            raise lib.Fail('the model is not that of the last epoch')
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return p['n'] + 1


def meter(p):
    from tinynn.util.train_util import AverageMeter

    m = AverageMeter()
    for rep in (0, 1):
        num = den = 0
        flat = p['s']
        for v, n in zip(flat[::2], flat[1::2]):
            m.update(v, n)
            num += v * n
            den += n
            if abs(m.avg - num / den) > 1e-9 or m.val != v or m.count != den or abs(m.sum - num) > 1e-9:
                raise lib.Fail(f'average {m.avg} instead of {num / den}')
        m.reset()
        if (m.avg, m.sum, m.count, m.val) != (0, 0, 0, 0):
            raise lib.Fail('reset')
    return len(p['s'])


class Sched:
    def __init__(self, log, name):
        self.log, self.name = log, name

    def step(self):
        self.log.append(self.name)


class Scaler:
    def __init__(self, log):
        self.log = log

    def scale(self, l):
        return l

    def step(self, o):
        o.step()

    def update(self):
        self.log.append('scaler')


def epoch(p):
    from tinynn.util import cifar10
    from tinynn.util.train_util import DLContext

    torch.manual_seed(3)
    data = [(torch.randn(2 + k, 4), torch.arange(2 + k) % 3) for k in range(p['b'])]
    mk = lambda: nn.Sequential(nn.Linear(4, 10), nn.BatchNorm1d(10))  # noqa: E731
    m, ref, teacher = mk(), mk(), mk()
    ref.load_state_dict(m.state_dict())
    crit = nn.CrossEntropyLoss() if p['crit'] == 'ce' else nn.BCEWithLogitsLoss()
    log = []

    class Opt(torch.optim.SGD):
        def step(self, *a, **k):
            log.append('opt')
            return super().step(*a, **k)

    ctx = DLContext(data, None, None, crit, Opt(m.parameters(), 0.1), Sched(log, 'sch') if p['sch'] else None, Sched(log, 'it') if p['it'] else None, Sched(log, 'wu') if p['wu'] else None, max_epoch=p['ep'], warmup_iteration=p['w'], max_iteration=p['mx'], device='cpu', grad_scaler=Scaler(log) if p['sc'] else None, print_freq=1, custom_args=dict(distill_A=0.3, distill_T=2.0, distill_teacher=teacher))
    log.clear()
    m.eval()
    with lib_quiet():
        for e in range(p['ep']):
            ctx.epoch = e
            getattr(cifar10, p['fn'])(m, ctx)
    want = []
    o = torch.optim.SGD(ref.parameters(), 0.1)
    ref.train()
    teacher.eval()
    it = 0
    import torch.nn.functional as F

    for e in range(p['ep']):
        for x, y in data:
            if p['mx'] is not None and it >= p['mx']:
                break
            o.zero_grad()
            out = ref(x)
            t = y if p['crit'] == 'ce' else F.one_hot(y, 10).float()
            loss = crit(out, t)
            if 'distill' in p['fn']:
                with torch.no_grad():
                    lt = teacher(x)
                loss = loss * 0.7 + F.kl_div(F.log_softmax(out / 2.0, 1), F.softmax(lt / 2.0, 1), reduction='batchmean') * 4.0 * 0.3
            loss.backward()
            o.step()
            want.append('opt')
            if p['sc']:
                want.append('scaler')
            if p['wu'] and it < p['w']:
                want.append('wu')
            it += 1
            if p['it'] and it >= p['w']:
                want.append('it')
        if p['sch'] and it >= p['w']:
            want.append('sch')
    if log != want:
        raise lib.Fail(f'steps {log} instead of {want}')
    if ctx.iteration != it:
        raise lib.Fail(f'iterations {ctx.iteration} instead of {it}')
    for k, v in ref.state_dict().items():
        if not torch.allclose(m.state_dict()[k].float(), v.float(), atol=1e-5):
            raise lib.Fail(f'{k} differs after training')
    for x, y in data:
        if y.dim() != 1:
            raise lib.Fail('labels changed')
    return len(want) + 1


def val(p):
    from tinynn.util import cifar10
    from tinynn.util.train_util import DLContext

    data, i = [], 0
    for n in p['parts']:
        lab = torch.tensor([(i + j) % 3 for j in range(n)])
        pred = torch.tensor([l if p['ok'][i + j] else (l + 1) % 3 for j, l in enumerate(lab.tolist())])
        data.append((torch.eye(3)[pred], lab))
        i += n
    m = nn.Sequential(nn.Identity(), nn.Dropout(0.9))
    m.train()
    with lib_quiet():
        got = cifar10.validate(m, DLContext(val_loader=data, device='cpu'))
    want = 100 * sum(p['ok']) / len(p['ok'])
    if abs(got - want) > 1e-6:
        raise lib.Fail(f'accuracy {got} instead of {want}')
    return len(data)


def calib(p):
    from tinynn.util import cifar10
    from tinynn.util.train_util import DLContext

    seen = []

    class M(nn.Module):
        def forward(self, x):
            seen.append((x.item(), self.training, torch.is_grad_enabled()))
            return x

    m = M().train()
    ctx = DLContext(train_loader=[(torch.tensor([float(k)]), 0) for k in range(p['n'])], device='cpu', max_iteration=p['mx'])
    with lib_quiet():
        cifar10.calibrate(m, ctx)
    want = [(float(k), False, False) for k in range(p['n'] if p['mx'] is None else min(p['n'], p['mx']))]
    if seen != want or ctx.iteration != len(want):
        raise lib.Fail(f'calibrated on {seen} instead of {want}')
    return len(want) + 1


def bnr(p):
    from tinynn.util.bn_restore import ConvBnTrain, model_restore_bn

    torch.manual_seed(0)
    cv = (nn.Conv1d, nn.Conv2d)[p['conv'] - 1]

    class M(nn.Module):
        def __init__(self):
            super().__init__()
            self.a = cv(3, 4, 1, bias=bool(p['bias']))
            b = [cv(4, 4, 1, bias=bool(p['bias'])), nn.ReLU(), cv(4, 2, 3, padding=1)]
            self.b = nn.Sequential(*b) if p['style'] in ('plain', 'shared') else nn.ModuleList(b) if p['style'] == 'list' else nn.ModuleDict({str(k): v for k, v in enumerate(b)})
            self.style = p['style']

        def forward(self, x):
            x = self.a(x)
            for k in range(3):
                x = self.b[k if self.style != 'dict' else str(k)](x)
            return x

    m = M()
    if p['style'] == 'shared':
        m.b[0] = nn.Identity()
        if 'b.0' in p['names']:
            return 0
    lib.randomize(m, 'bnr')
    data = [torch.randn(*([16, 3] + [5] * p['conv'])) for _ in range(20)]
    state = {k: v.clone() for k, v in m.state_dict().items()}
    m.eval()
    names = None if p['names'] == 'all' else [] if p['names'] == 'none' else p['names'].split('+')
    calls = []

    def cal(model, ep, *rest):
        calls.append((model.training, ep, rest))
        for _ in range(ep):
            for x in data:
                with torch.no_grad():
                    y, w = model(x), m(x)
                if not torch.allclose(y, w, atol=1e-5):
                    raise lib.Fail('the model changes while statistics are gathered')

    r = model_restore_bn(m, 'cpu', cal, p['ep'], 7, layers_fused_bn=names)
    if calls != [(True, p['ep'], (7,))]:
        raise lib.Fail(f'calibration calls {calls}')
    for k, v in state.items():
        if not torch.equal(m.state_dict()[k], v):
            raise lib.Fail('the original model has changed')
    have = {n for n, x in r.named_modules() if isinstance(x, ConvBnTrain)}
    want = set(names if names is not None else [n for n, x in m.named_modules() if isinstance(x, (nn.Conv1d, nn.Conv2d))])
    if have != want:
        raise lib.Fail(f'batch norm added to {have} instead of {want}')
    r.eval()
    with torch.no_grad():
        for x in data[:3]:
            y, w = r(x), m(x)
            if not torch.allclose(y, w, atol=2e-3, rtol=2e-3):
                raise lib.Fail(f'the restored model differs by {(y - w).abs().max():.4g} (max {w.abs().max():.4g})')
        if names is None:
            r.train()
            for bn in [b for b in r.modules() if isinstance(b, (nn.BatchNorm1d, nn.BatchNorm2d))]:
                if not (bn.running_var > 0).all() or not torch.allclose(bn.weight, bn.running_var.sqrt(), atol=1e-5) or not torch.allclose(bn.bias, bn.running_mean, atol=1e-5):
                    raise lib.Fail('parameters of the batch norm')
    return 5


def run_case(p):
    steps = globals()[p['f']](p)
    return {'status': 'ok', 'steps': steps, 'nontrivial': steps > 0, 'sig': p['f']}
