"""Programs for the converter checks: statements over tensors of any rank, with modules created to fit."""
import torch
import torch.nn as nn
import torch.nn.functional as F

from . import lib


class Lz(nn.Module):
    """Creates its module on the first call, from the shape it sees."""

    def __init__(self, fn):
        super().__init__()
        self.fn = fn

    def forward(self, x):
        if 'm' not in self._modules:
            self.m = self.fn(tuple(x.shape))
        return self.m(x)


def _need(n):
    def chk(s):
        if len(s) != n:
            raise RuntimeError('rank')
        return s

    return chk


r4, r3 = _need(4), _need(3)

# name -> (code, [module factories as source])
OPS = {
    # activations / unary
    'relu': 'F.relu({x})', 'relu6': 'F.relu6({x})', 'neg': '-{x}', 'tanh': 'torch.tanh({x})', 'sigm': 'torch.sigmoid({x})',
    'lrelu': 'F.leaky_relu({x}, 0.2)', 'hsw': 'F.hardswish({x})', 'elu': 'F.elu({x})', 'abs': 'torch.abs({x})', 'exp': 'torch.exp({x} * 0.3)',
    'sqrt': 'torch.sqrt(torch.abs({x}) + 0.5)', 'rsq': '1.0 / torch.sqrt(torch.abs({x}) + 0.5)', 'silu': 'F.silu({x})', 'gelu': 'F.gelu({x})',
    'clamp': 'torch.clamp({x}, -0.3, 0.6)', 'softm': 'torch.softmax({x}, -1)', 'softm1': 'torch.softmax({x}, 1)', 'lsoft': 'torch.log_softmax({x}, 1)',
    'prelu': ('self.m{i}({x})', 'nn.PReLU({c})'), 'hsig': 'F.hardsigmoid({x})',
    # layout
    'p0231': '{x}.permute(0, 2, 3, 1)', 'p0312': '{x}.permute(0, 3, 1, 2)', 't12': '{x}.transpose(1, 2)', 't23': '{x}.transpose(-1, -2)',
    't01': '{x}.transpose(0, 1)', 'p3210': '{x}.permute(3, 2, 1, 0)', 'flat1': 'torch.flatten({x}, 1)', 'flat2': 'torch.flatten({x}, 2)',
    'flat12': 'torch.flatten({x}, 1, 2)', 'view2': '{x}.reshape({n} // 4, 4)', 'rs4': '{x}.reshape(1, 2, 2, {n} // 4)', 'rs3': '{x}.reshape(2, {n} // 4, 2)',
    'rs5': '{x}.reshape(2, 2, 1, {n} // 4, 1)', 'flat': '{x}.reshape({n})',
    'rsb4': '{x}.reshape({b}, {n} // {b} // 4, 2, 2)', 'sq0': '{x}.squeeze(0)', 'sq': '{x}.squeeze()', 'us0': '{x}.unsqueeze(0)', 'us1': '{x}.unsqueeze(1)', 'usl': '{x}.unsqueeze(-1)',
    # layers
    'conv1': ('self.m{i}({x})', 'nn.Conv2d({c}, 4, 1)'), 'conv3': ('self.m{i}({x})', 'nn.Conv2d({c}, 4, 3, padding=1)'),
    'convs': ('self.m{i}({x})', 'nn.Conv2d({c}, 4, 2, stride=2, bias=False)'), 'dw': ('self.m{i}({x})', 'nn.Conv2d({c}, {c}, 3, padding=1, groups={c})'),
    'gconv': ('self.m{i}({x})', 'nn.Conv2d({c}, 4, 1, groups=2)'), 'deconv': ('self.m{i}({x})', 'nn.ConvTranspose2d({c}, 4, 2, stride=2)'),
    'conv1d': ('self.m{i}({x})', 'nn.Conv1d({c}, 4, 3, padding=1)'), 'bn': ('self.m{i}({x})', '(nn.BatchNorm2d if {d} == 4 else nn.BatchNorm1d)({c})'),
    'lin': ('self.m{i}({x})', 'nn.Linear({l}, 4)'), 'linnb': ('self.m{i}({x})', 'nn.Linear({l}, 6, bias=False)'),
    'avgp': 'F.avg_pool2d({x}, 2)', 'maxp': 'F.max_pool2d({x}, 2)', 'gap': 'F.adaptive_avg_pool2d({x}, 1)', 'ln': ('self.m{i}({x})', 'nn.LayerNorm({l})'),
    'gn': ('self.m{i}({x})', 'nn.GroupNorm(2, {c})'),
    # pieces
    'pad': 'F.pad({x}, (1, 1, 1, 1))', 'pad1': 'F.pad({x}, (0, 2))', 'padc': 'F.pad({x}, (1, 0), value=0.5)', 'sl1': '{x}[:, 1:3]', 'sll': '{x}[..., 1:3]', 'sl2': '{x}[:, ::2]',
    'sel1': '{x}[:, 1]', 'sel0': '{x}[0]', 'sell': '{x}[..., 0]', 'split0': 'torch.split({x}, 2, 1)[0]', 'split1': 'torch.split({x}, 2, 1)[1]', 'chunkl': 'torch.chunk({x}, 2, -1)[1]',
    'unb': 'torch.unbind({x}, 1)[1]', 'gath': 'torch.index_select({x}, 1, torch.tensor([2, 0, 1, 0]))', 'gathc': 'torch.index_select({x}, 1, torch.arange({c} - 1, -1, -1))', 'roll': 'torch.roll({x}, 1, 1)',
    'flip': 'torch.flip({x}, [1])', 'tile': '{x}.repeat({ones}2)', 'exp2': '{x}.unsqueeze(0).expand(2, {e})', 'interp': 'F.interpolate({x}, scale_factor=2)',
    # reductions
    'mean1k': '{x}.mean(1, keepdim=True)', 'mean1': '{x}.mean(1)', 'meanhw': '{x}.mean([-1, -2])', 'meanhwk': '{x}.mean([2, 3], keepdim=True)', 'suml': '{x}.sum(-1)', 'sumlk': '{x}.sum(-1, keepdim=True)',
    'max1': 'torch.max({x}, 1)[0]', 'max1k': 'torch.max({x}, 1, keepdim=True)[0]', 'min2': 'torch.min({x}, -1)[0]', 'amx': 'torch.argmax({x}, 1).float()',
    # with constants and with itself
    'addk': '{x} + 1.5', 'mulk': '{x} * 0.3', 'rdiv': '2.0 / ({x} * {x} + 1.0)', 'addc': ('{x} + self.p{i}', 'P(({c},) + (1,) * max({d} - 2, 0))'), 'addl': ('{x} * self.p{i}', 'P(({l},))'), 'addf': ('self.p{i} - {x}', 'P(({e},))'),
    'cat1': 'torch.cat([{x}, {x}], 1)', 'catl': 'torch.cat([{x}, -{x}], -1)', 'catc': ('torch.cat([{x}, self.p{i}], 1)', 'P(({e},))'), 'stack': 'torch.stack([{x}, {x} * 2], 1)', 'mulself': '{x} * torch.sigmoid({x})',
    'mm': ('torch.matmul({x}, self.p{i})', 'P(({l}, 4))'), 'bmm': 'torch.matmul({x}, {x}.transpose(-1, -2))', 'res': '{x} + torch.tanh({x})', 'rest': '{x}.transpose(-1, -2) + torch.tanh({x}.transpose(-1, -2))',
    # binary (dags)
    'add': '{x} + {z}', 'sub': '{x} - {z}', 'mul': '{x} * {z}', 'maxi': 'torch.maximum({x}, {z})', 'catz': 'torch.cat([{x}, {z}], 1)', 'catzl': 'torch.cat([{x}, {z}], -1)', 'matz': 'torch.matmul({x}, {z})', 'stackz': 'torch.stack([{x}, {z}], 1)',
}


def P(shape):
    return nn.Parameter(torch.empty(shape))


class _Prog(nn.Module):
    def __init__(self, stmts, outs, inputs, ops=None, env=None):
        super().__init__()
        self.stmts, self.outs, self.inputs, self.ops = stmts, outs, inputs, ops or OPS
        self.facenv = {'nn': nn, 'P': P, **(env or {})}

    def dry(self, xs):
        """Fixes literal shapes and creates modules by running once; returns python source of forward."""
        env = dict(zip(self.inputs, xs))
        lines = []
        for i, (o, args) in enumerate(self.stmts):
            spec = self.ops[o] if o in self.ops else o  # a grid point gives its code itself
            code, fac = (spec.split('|') + [None])[:2] if isinstance(spec, str) else spec
            x = env[args[0]]
            d = x.dim()
            fm = {
                'x': args[0], 'z': args[-1], 'i': i, 'n': x.numel(), 'b': x.shape[0] if d else 1, 'c': x.shape[1] if d > 1 else x.numel(),
                'l': x.shape[-1] if d else 1, 'd': d, 'e': ', '.join(map(str, x.shape)) or '1', 'ones': '1, ' * max(d - 1, 0),
            }
            if fac:
                m = eval(fac.format(**fm), self.facenv)
                setattr(self, f'p{i}' if isinstance(m, nn.Parameter) else f'm{i}', m)
            line = f'v{i} = ' + code.format(**fm)
            ns = dict(env)
            ns.update({'torch': torch, 'F': F, 'self': self})
            exec(line, ns)
            env[f'v{i}'] = ns[f'v{i}']
            if env[f'v{i}'].numel() > 20000 or env[f'v{i}'].numel() == 0:
                raise RuntimeError('size')
            lines.append(line)
        self.lines = lines
        src = f'def forward(self, {", ".join(self.inputs)}):\n' + ''.join(f'    {l}\n' for l in lines)
        src += '    return ' + (self.outs[0] if len(self.outs) == 1 else ', '.join(self.outs)) + '\n'
        return src


def make(stmts, outs, inputs, xs, text, ops=None, env=None):
    """Module for a program, or None when PyTorch itself does not accept it. -> (module, source)"""
    lib.seed_for(text)
    m = _Prog(stmts, outs, inputs, ops, env)
    m.eval()
    try:
        with torch.no_grad():
            src = m.dry(xs)
    except Exception:
        return None, None
    ns = {'torch': torch, 'F': F}
    exec(compile(src, '<mcprog>', 'exec'), ns)
    cls = type('M', (_Prog,), {'forward': ns['forward']})
    m.__class__ = cls
    del m.facenv, m.ops
    lib.randomize(m, text)
    m.eval()
    return m, src
