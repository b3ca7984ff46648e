"""T02: tracing leaves the model, its inputs, PyTorch and the tracer itself as they were, also when the
traced code raises at any point."""
import copy
import itertools

import torch
import torch.nn as nn
import torch.nn.functional as F  # noqa: F401

from .. import lib

PROPERTY = 'T02'
LEVEL = 'fault_enumeration'
RECYCLE = 1
RULE = (
    'fault sweep: every traced program x every point k of its forward (between any two statements, inside nested '
    'modules, inside leaf modules) x exception kind x tracing context raises once; histories: every sequence of '
    'tracing actions (successful, failing, nested, interrupted) up to the stated length. After every action all '
    'patched PyTorch entry points, the model and the input are compared with a snapshot and a probe model must '
    'still trace to the same code. Non-trivial: the fault was actually reached / at least one action ran.'
)
ASSUMPTIONS = ['the PyTorch entry points the tracer may patch are those reachable from the override lists and from '
               'torch, torch.Tensor, torch.nn, torch.nn.functional, torch.Size']

TICK = [0, None, None]  # counter, raise at, exception class


class Boom(Exception):
    pass


def tick():
    TICK[0] += 1
    if TICK[1] is not None and TICK[0] == TICK[1]:
        raise TICK[2]('injected')


class Leaf(nn.Module):
    def __init__(self):
        super().__init__()
        self.conv = nn.Conv2d(4, 4, 1)
        tick()
        self.scale = nn.Parameter(torch.ones(4, 1, 1))

    def forward(self, x):
        tick()
        y = self.conv(x)
        tick()
        return y * self.scale


class Custom(nn.ReLU):
    """a leaf for the tracer (subclass of a torch.nn module) with code of its own"""

    def forward(self, x):
        tick()
        y = F.relu(x)
        tick()
        return y


class P0(nn.Module):
    def __init__(self):
        super().__init__()
        self.c = nn.Conv2d(4, 4, 3, padding=1)
        tick()
        self.b = nn.BatchNorm2d(4)
        self.l = Leaf()
        tick()

    def forward(self, x):
        tick()
        y = self.b(self.c(x))
        tick()
        y = F.relu(self.l(y))
        tick()
        y = y + x
        tick()
        return y[:, 1:].flatten(1)


class P1(nn.Module):
    def __init__(self):
        super().__init__()
        self.seq = nn.Sequential(nn.Conv2d(4, 8, 3), nn.BatchNorm2d(8, affine=False), Custom(), nn.Dropout(0.5))
        self.ls = nn.ModuleList([nn.Linear(8, 8), nn.Linear(8, 3)])
        tick()

    def forward(self, x):
        tick()
        x = x.clone()
        x += 1
        tick()
        y = self.seq(x)
        tick()
        y = y.mean([2, 3])
        a, b = torch.split(y, [3, 5], dim=1)
        tick()
        y = torch.cat([b, a], 1)
        for m in self.ls:
            y = m(y)
            tick()
        s = torch.ones(y.shape[0], 1) * y.size(1)
        tick()
        return y.view(y.shape[0], -1) * s, [a, b]


class P2(nn.Module):
    def __init__(self):
        super().__init__()
        self.r = nn.LSTM(6, 5, batch_first=True)
        self.h = nn.Parameter(torch.zeros(1, 2, 5))
        tick()
        self.register_buffer('k', torch.arange(5.0))
        self.f = torch.ao.nn.quantized.FloatFunctional()

    def forward(self, x):
        x = x[:, 0]
        tick()
        y, (h, c) = self.r(x, (self.h, self.h * 2))
        tick()
        y = y * self.k
        y = self.f.add(y, y)
        tick()
        z = torch.arange(5, dtype=torch.float32) + torch.zeros_like(h)
        tick()
        return {'f': 0}.get('g', torch.where(y > 0, y, y * 0.1).sum() + z * c)


class P3(nn.Module):
    """changes its (integer) input and its own buffers"""

    def __init__(self):
        super().__init__()
        self.e = nn.Embedding(5, 4)
        tick()
        self.register_buffer('n', torch.zeros(4))
        self.register_buffer('k', torch.tensor(2))

    def forward(self, x):
        x += 1
        tick()
        with torch.no_grad():
            self.n.add_(1)
            self.k.add_(1)
        y = self.e(x)
        tick()
        return y + self.n, x


class P4(P3):
    def forward(self, x):
        y, x = super().forward(x[0])
        tick()
        return y * 2, x


class Bad(nn.Module):
    """fails inside a leaf torch.nn module"""

    def __init__(self):
        super().__init__()
        self.c = nn.Sequential(nn.Conv2d(4, 4, 3), nn.Conv2d(5, 4, 3))

    def forward(self, x):
        return self.c(x)


PROGS = {'P0': P0, 'P1': P1, 'P2': P2, 'P3': P3, 'P4': P4, 'Bad': Bad}
SHAPE = (2, 4, 6, 6)


def dummy(name):
    if name in ('P3', 'P4'):
        return torch.zeros((3,) if name == 'P3' else (1, 3), dtype=torch.int64)
    return torch.full(SHAPE, 0.5)



def make(name, raise_at=None, exc=Boom):
    TICK[:] = [0, raise_at, exc]
    torch.manual_seed(3)
    m = PROGS[name]()
    return m


def patched_surface():
    """Every (object, attribute) the tracer may touch, from its own lists and from torch."""
    from tinynn.graph import tracer as T

    pts = set()
    objs = [torch, torch.Tensor, torch._C._TensorBase, torch.Size, F, nn, nn.init, torch.fft, torch.linalg, torch.special, nn.Module,
            nn.Parameter, torch._C, torch._C._nn, torch._C._VariableFunctions]
    for name in dir(nn):
        o = getattr(nn, name)
        if isinstance(o, type) and issubclass(o, nn.Module):
            objs.append(o)
    for o in list(T.load_overridable_modules()):
        objs.append(o)
    for d in (T.load_overridable_funcs(), T.load_creation_funcs()):
        for o, names in d.items():
            objs.append(o)
            for n in names:
                pts.add((id(o), n))
    try:
        objs += list(T.load_tracking_modules())
    except Exception:
        pass
    uniq = {id(o): o for o in objs}
    for o in uniq.values():
        names = dir(o) if not isinstance(o, type) else set(dir(o)) | {'__init__', '__setattr__', '__getattribute__', '__new__'}
        for n in names:
            pts.add((id(o), n))
    return uniq, sorted(pts)


SKIP_ATTRS = {'__abstractmethods__', '__warningregistry__', '__doc__', '__dict__', '__weakref__', '__cached__', '__subclasshook__'}


def snap_env(surface):
    uniq, pts = surface
    out = {}
    for oid, n in pts:
        if n in SKIP_ATTRS:
            continue
        o = uniq[oid]
        try:
            v = getattr(o, n)
        except Exception:
            continue
        out[(getattr(o, '__name__', str(o)), n)] = v
    import builtins

    out[('builtins', 'all')] = tuple(sorted((k, id(v)) for k, v in vars(builtins).items() if k != '_'))
    out[('grad', 'mode')] = (torch.is_grad_enabled(), torch.get_default_dtype())
    return out


def diff_env(a, b):
    bad = []
    for k in a.keys() | b.keys():
        if k not in a or k not in b:
            bad.append(k)
            continue
        x, y = a[k], b[k]
        if x is y:
            continue
        try:
            same = type(x) is type(y) and bool(x == y)
        except Exception:
            same = False
        if not same:
            bad.append(k)
    return sorted(map(str, bad))


def snap_model(m):
    s = {}
    for n, mod in m.named_modules():
        s[n] = (
            id(mod), type(mod), mod.training, tuple(sorted(mod.__dict__)), tuple(mod._parameters), tuple(mod._buffers), tuple(mod._modules),
            len(mod._forward_hooks), len(mod._forward_pre_hooks), len(mod._backward_hooks), 'forward' in mod.__dict__,
        )
    for n, p in itertools.chain(m.named_parameters(), m.named_buffers()):
        s['t:' + n] = (id(p), p.requires_grad, p.dtype, p.grad is None, p.detach().clone().flatten().tolist())
    return s


CTX = ('plain', 'tracer', 'size')
EXCS = {'boom': Boom, 'kbd': KeyboardInterrupt, 'exit': SystemExit}


def action(name, train=False, ctx='plain', raise_at=None, exc='boom', after=False):
    """One tracing action. Returns (list of problems, reached)."""
    from tinynn.graph.tracer import model_tracer, trace

    problems = []
    raised = False
    x = dummy(name)
    try:
        if ctx == 'tracer':
            with model_tracer():
                m = make(name, raise_at, EXCS[exc])
                m.train(train)
                before, xb = snap_model(m), x.clone()
                out = _trace_and_check(m, x, before, xb, problems)
                if after:
                    raise Boom()
        else:
            m = make(name)
            m.train(train)
            before, xb = snap_model(m), x.clone()
            TICK[:] = [0, raise_at, EXCS[exc]]
            out = _trace_and_check(m, x, before, xb, problems, size=ctx == 'size')
    except (Boom, KeyboardInterrupt, SystemExit, RuntimeError, ValueError) as e:
        raised = True
    n = TICK[0]
    TICK[:] = [0, None, None]
    return problems, raised, n


def _trace_and_check(m, x, before, xb, problems, size=False):
    from tinynn.graph.tracer import trace

    try:
        g = trace(m, x, patch_torch_size=size)
        g.generate_code(lib.scratch('t02.py'), lib.scratch('t02.pth'), 'T02')
        return g
    finally:
        after = snap_model(m)
        if after != before:
            ks = [k for k in before.keys() | after.keys() if before.get(k) != after.get(k)]
            problems.append(f'the model was changed: {sorted(ks)[:4]}')
        if not torch.equal(x, xb) or x.requires_grad or x.grad is not None:
            problems.append('the dummy input was changed')


def probe():
    """Code generated for fixed models, with caught and with recovered constructors."""
    from tinynn.graph.tracer import model_tracer, trace

    texts = []
    for n in ('P0', 'P1', 'P2'):
        for c in (False, True):
            if c:
                with model_tracer():
                    m = make(n)
                    g = trace(m, torch.full(SHAPE, 0.5))
                    g.generate_code(lib.scratch('p.py'), lib.scratch('p.pth'), 'P')
            else:
                m = make(n)
                g = trace(m, torch.full(SHAPE, 0.5))
                g.generate_code(lib.scratch('p.py'), lib.scratch('p.pth'), 'P')
            texts.append(open(lib.scratch('p.py')).read())
    return texts


ACTIONS = {
    'ok0': ('P0', {}), 'ok1': ('P1', {}), 'ok2c': ('P2', {'ctx': 'tracer'}), 'size1': ('P1', {'ctx': 'size'}), 'train0c': ('P0', {'train': True, 'ctx': 'tracer'}),
    'fail0@1': ('P0', {'raise_at': 1}), 'fail0@4': ('P0', {'raise_at': 4}), 'failctor': ('P0', {'ctx': 'tracer', 'raise_at': 2}),
    'failfwdc': ('P1', {'ctx': 'tracer', 'raise_at': 4}), 'kbd1@3': ('P1', {'raise_at': 3, 'exc': 'kbd'}), 'leaf': ('Bad', {}),
    'leafc': ('Bad', {'ctx': 'tracer'}), 'after': ('P0', {'ctx': 'tracer', 'after': True}), 'custom': ('P1', {'raise_at': 4}),
    'inplace': ('P3', {}), 'inplace_fail': ('P4', {'raise_at': 2}),
    'size_fail': ('P1', {'ctx': 'size', 'raise_at': 5}),
}
NEST = {'nest_ok': ('P0', None), 'nest_fail': ('P0', 2)}


def ticks(name):
    TICK[:] = [0, None, None]
    m = PROGS[name]()
    a = TICK[0]
    try:
        m(dummy(name))
    except RuntimeError:
        pass
    b = TICK[0]
    TICK[:] = [0, None, None]
    return a, b - a


def cases(tier):
    for name in PROGS:
        nc, nf = ticks(name)
        for train in (False, True):
            for ctx in CTX:
                n = nf + (nc if ctx == 'tracer' else 0)
                yield f'sweep:{name}:{ctx}:{"train" if train else "eval"}:none', {'seq': [[name, {'train': train, 'ctx': ctx}]]}
                for k in range(1, n + 1):
                    for exc in EXCS:
                        yield f'sweep:{name}:{ctx}:{"train" if train else "eval"}:{exc}@{k}', {
                            'seq': [[name, {'train': train, 'ctx': ctx, 'raise_at': k, 'exc': exc}]], 'fault': True}
    names = list(ACTIONS) + list(NEST)
    for d in (2,) if tier == 'quick' else (2, 3):
        for combo in itertools.product(names, repeat=d):
            yield f'hist:{">".join(combo)}', {'seq': [list(ACTIONS[c]) if c in ACTIONS else ['nest', c] for c in combo]}


_BASE = {}


def setup(tier):
    lib.quiet_tinynn()
    import tinynn.graph.tracer as T

    T.load_overridable_modules(), T.load_overridable_funcs(), T.load_creation_funcs()
    for f in ('load_tracking_modules',):
        try:
            getattr(T, f)()
        except Exception:
            pass


def run_case(p):
    from tinynn.graph import tracer as T

    lib.quiet_tinynn()
    if 'surface' not in _BASE:
        setup('')
        _BASE['surface'] = patched_surface()
    surface = _BASE['surface']
    base = snap_env(surface)
    want_probe = probe()
    e = diff_env(base, snap_env(surface))
    if e:
        return {'status': 'fail', 'detail': f'a successful trace left PyTorch patched: {e[:5]}'}
    reached = False
    steps = 0
    for act in p['seq']:
        if act[0] == 'nest':
            prob = []
            with T.model_tracer():
                m = make('P1')
                pr, raised, n = action('P0', raise_at=NEST[act[1]][1])
                prob += pr
                try:
                    _trace_and_check(m, torch.full(SHAPE, 0.5), snap_model(m), torch.full(SHAPE, 0.5), prob)
                except SystemExit:
                    prob.append('tracing fails after a failed trace in the same session')
        else:
            prob, raised, n = action(act[0], **act[1])
        reached |= raised
        steps += max(n, 1)
        if prob:
            return {'status': 'fail', 'detail': f'{act}: {prob[0]}'}
        e = diff_env(base, snap_env(surface))
        if e:
            return {'status': 'fail', 'detail': f'after {act}: PyTorch left changed: {e[:5]} ({len(e)} entries)'}
    if p.get('fault') and not reached:
        return {'status': 'reject', 'detail': 'fault not reached'}
    try:
        got = probe()
    except SystemExit:
        return {'status': 'fail', 'detail': 'a model can no longer be traced'}
    if got != want_probe:
        import difflib

        d = [l for a, b in zip(want_probe, got) for l in difflib.unified_diff(a.splitlines(), b.splitlines(), lineterm='', n=1)]
        return {'status': 'fail', 'detail': 'the probe models now produce different code:\n' + '\n'.join(d[:40])}
    e = diff_env(base, snap_env(surface))
    if e:
        return {'status': 'fail', 'detail': f'PyTorch left changed after the probe: {e[:5]}'}
    return {'status': 'ok', 'sig': lib.sha(str(p))[:12], 'steps': steps, 'nontrivial': True}
