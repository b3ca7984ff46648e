"""V01: operator x argument grid; TFLite outputs against PyTorch."""
import itertools

import torch

from .. import lib, tfl

PROPERTY = 'V01'
LEVEL = 'model_checking'
RULE = (
    'every operator of the converter crossed with a complete grid of its arguments (shapes, dims, negative indices, strides, padding, '
    'dilation, groups, keepdim, broadcasting, scalars on either side, dtypes); each point is converted, run in the TFLite interpreter '
    'on inputs other than the ones used for conversion and compared with PyTorch. Non-trivial: converted and run.'
)
ASSUMPTIONS = [
    'TFLite reference interpreter is taken as the meaning of a TFLite file',
    'points in refusals/V01.txt are refused (loudly) by the converter or the interpreter: unsupported arguments',
]
RECYCLE = 250
P = itertools.product


def sh(s):
    return 'x'.join(map(str, s)) or 'scalar'


def grid(tier):
    """yields (id, dict(init, expr, inp))"""
    quick = tier == 'quick'

    def c(cid, expr, inp, init=(), **kw):
        return cid, {'init': list(init), 'expr': expr, 'inp': [list(i) if isinstance(i, tuple) else i for i in inp], **kw}

    R = {1: [6], 2: [3, 4], 3: [2, 3, 4], 4: [2, 3, 4, 5], 5: [1, 2, 3, 2, 4]}
    # ---------------------------------------------------------------- unary
    un = ['torch.abs(x0)', 'torch.cos(x0)', 'torch.exp(x0)', 'torch.floor(x0)', '-x0', 'torch.round(x0)', 'torch.sigmoid(x0)', 'torch.sign(x0)',
          'F.silu(x0)', 'torch.sin(x0)', 'torch.tanh(x0)', 'F.relu(x0)', 'F.relu6(x0)', 'F.gelu(x0)', "F.gelu(x0, approximate='tanh')", 'F.hardswish(x0)', 'F.hardsigmoid(x0)',
          'F.hardtanh(x0)', 'F.hardtanh(x0, 0.0, 6.0)', 'F.hardtanh(x0, -0.5, 0.7)', 'F.hardtanh(x0, 0.0, 1.0)', 'F.elu(x0)', 'F.elu(x0, 0.5)', 'F.leaky_relu(x0)', 'F.leaky_relu(x0, 0.3)', 'F.leaky_relu(x0, 1.5)',
          'F.softplus(x0)', 'F.softplus(x0, 2.0)', 'F.mish(x0)', 'torch.clamp(x0, -0.5, 0.7)', 'torch.clamp(x0, min=-0.5)', 'torch.clamp(x0, max=0.7)', 'torch.clamp(x0, 0.0, 6.0)', 'torch.clamp(x0, -1, 1)', 'torch.clamp(x0, 0, 1)', 'torch.clamp(x0, min=0)',
          'torch.clamp_min(x0, 0.2)', 'torch.clamp_max(x0, 0.2)', 'torch.clamp_min(x0, 0.0)', 'x0.contiguous() * 2', 'x0.clone() + 1', 'x0.detach() * 2', 'F.dropout(x0, 0.5, False) + 1', 'torch.square(x0)', 'torch.rsqrt(torch.abs(x0) + 0.1)',
          'torch.sqrt(torch.abs(x0))', 'torch.log(torch.abs(x0) + 0.1)', 'torch.reciprocal(torch.abs(x0) + 0.1)', 'x0.relu_()+0', 'torch.tanh_(x0 * 1)', 'F.logsigmoid(x0)', 'F.softsign(x0)', 'F.selu(x0)', 'F.celu(x0)', 'torch.log1p(torch.abs(x0))', 'torch.erf(x0)', 'torch.ceil(x0)', 'F.tanhshrink(x0)', 'F.threshold(x0, 0.1, 0.3)', 'F.hardshrink(x0)', 'F.rrelu(x0)', 'torch.expm1(x0)', 'torch.trunc(x0)', 'torch.frac(x0)']
    for e, r in P(un, R):
        if quick and r in (2, 5) and e not in un[:4]:
            continue
        yield c(f'un:{e}:{r}', e, [R[r]])
    for r in (2, 3, 4):
        for n in (1, R[r][1]):
            yield c(f'prelu:{n}:{r}', 'self.m(x0)', [R[r]], [f'self.m = nn.PReLU({n})'])
    for r in (2, 3, 4):
        for d in range(-r, r):
            s = [2 * v for v in R[r]]
            yield c(f'glu:{r}:{d}', f'F.glu(x0, {d})', [s])
            yield c(f'softmax:{r}:{d}', f'F.softmax(x0, {d})', [R[r]])
            yield c(f'logsoftmax:{r}:{d}', f'F.log_softmax(x0, {d})', [R[r]])
            yield c(f'softmin:{r}:{d}', f'F.softmin(x0, {d})', [R[r]])
            for fn in ('cumsum',):
                yield c(f'{fn}:{r}:{d}', f'torch.{fn}(x0, {d})', [R[r]])
            for k, lg in P((1, 2), (True, False)):
                yield c(f'topk:{r}:{d}:{k}:{lg}', f'torch.topk(x0, {k}, {d}, {lg})', [R[r]], maxn=2)
    # ---------------------------------------------------------------- binary
    pairs = [([2, 3, 4, 5], [2, 3, 4, 5]), ([2, 3, 4, 5], [5]), ([2, 3, 4, 5], [1]), ([2, 3, 4, 5], [3, 1, 1]), ([2, 3, 4, 5], [4, 5]), ([2, 3, 4, 5], [2, 1, 4, 1]), ([2, 3, 4, 5], [1, 3, 1, 1]), ([2, 3, 4, 5], [3, 4, 5]),
             ([2, 3, 4, 5], []), ([2, 1, 4, 1], [1, 3, 1, 5]), ([3, 4], [4]), ([3, 4], [3, 1]), ([2, 3, 4], [3, 1]), ([2, 3, 4], [2, 3, 4]), ([2, 3, 4], [4]), ([3], [3]), ([1, 2, 3, 2, 4], [2, 4]), ([3, 1], [1, 4])]
    bins = ['torch.add({a}, {b})', 'torch.sub({a}, {b})', 'torch.mul({a}, {b})', 'torch.div({a}, {b})', 'torch.maximum({a}, {b})', 'torch.minimum({a}, {b})', 'torch.add({a}, {b}, alpha=2)', 'torch.sub({a}, {b}, alpha=0.5)', 'torch.rsub({a}, {b}, alpha=2)', 'torch.atan2({a}, {b})',
            'torch.eq({a}, {b})', 'torch.ne({a}, {b})', 'torch.lt({a}, {b})', 'torch.le({a}, {b})', 'torch.gt({a}, {b})', 'torch.ge({a}, {b})', 'torch.pow(torch.abs({a}) + 0.1, {b})', 'torch.where({a} > {b}, {a}, {b})', 'torch.where({a} > 0, {a}, {b})', 'torch.remainder({a}, {b})', 'torch.floor_divide({a}, {b})', "torch.div({a}, {b}, rounding_mode='floor')", "torch.div({a}, {b}, rounding_mode='trunc')"]
    for e, (k, (s1, s2)) in P(bins, enumerate(pairs)):
        if k == 16 and e not in bins[:4]:
            continue  # the other TFLite kernels abort on 5-D broadcasting
        if quick and k in (3, 6, 7, 9, 11, 14) and e not in bins[:4]:
            continue
        for sw in (0, 1):
            a, b = ('x0', 'x1') if not sw else ('x1', 'x0')
            if sw and s1 == s2:
                continue
            yield c(f'bin:{e}:{sh(s1)}:{sh(s2)}:{sw}', e.format(a=a, b=b), [s1, s2])
        # second operand a constant of the model
        if s2:
            for sw in (0, 1):
                a, b = ('x0', 'self.p') if not sw else ('self.p', 'x0')
                if quick and k not in (0, 1, 3, 5, 8, 10):
                    continue
                yield c(f'binc:{e}:{sh(s1)}:{sh(s2)}:{sw}', e.format(a=a, b=b), [s1], [f'self.p = nn.Parameter(torch.empty({s2}))'])
    scal = ['x0 + 1.5', '1.5 + x0', 'x0 - 1.5', '1.5 - x0', 'x0 * -2', '-2 * x0', 'x0 / 3', '3 / x0', 'x0 + 1', '1 - x0', 'torch.add(x0, 2, alpha=3)', 'torch.sub(x0, 2, alpha=3)', 'torch.rsub(x0, 2)', 'torch.rsub(x0, 1.5, alpha=2)', 'x0 ** 2', 'x0 ** 3', 'torch.abs(x0) ** 0.5', 'torch.abs(x0) ** 1.7', '2 ** x0', 'torch.abs(x0) ** -0.5', '(torch.abs(x0) + 0.5) ** -1', 'x0 ** 1', 'x0 ** 0',
            'x0 > 0.1', 'x0 == 0', 'x0 <= 0.3', '0.2 < x0', 'x0 != 0.5', 'x0 % 3', 'torch.remainder(x0, -1.5)', 'x0 // 0.5', 'torch.floor_divide(x0, 0.5)', "torch.div(x0, 0.5, rounding_mode='floor')", "torch.div(x0, 0.5, rounding_mode='trunc')", 'torch.fmod(x0, 0.7)', 'torch.true_divide(x0, 3)', 'x0.add_(1)+0', 'x0.clone().mul_(2)', 'x0.clone().div_(3)', 'x0.clone().sub_(3)', 'x0.masked_fill(x0 > 0, 3.0)', 'x0.masked_fill(x0 > 0, -1e4)', 'torch.where(x0 > 0, x0, torch.zeros_like(x0))', 'torch.where(x0 > 0, 1.0, 0.5)', 'torch.where(x0 > 0, x0, 0.5)', 'x0 * torch.tensor(2.5)', 'torch.tensor(2) * x0', 'torch.max(x0, torch.tensor(0.3))', 'torch.ones_like(x0) * x0', 'torch.full_like(x0, 0.3) + x0', 'x0.new_ones(x0.shape) + x0', 'x0.new_zeros(x0.shape) + x0', 'torch.zeros(x0.shape[0], 1) + x0[:, :1].flatten(1)[:, :1]']
    for e, r in P(scal, (2, 3, 4)):
        yield c(f'sc:{e}:{r}', e, [R[r]])
    for e, k in P(['x0 + 1', 'x0 * 2', 'x0 - 1', '3 - x0', 'x0 / 2', 'x0 + 1.5', 'x0 // 2', 'x0 % 2', 'x0 == 1', 'x0 > 1', 'x0.float() * 0.5', 'x0 + x0', 'x0 * x0', '-x0', 'torch.abs(x0)', 'x0.to(torch.float32)', 'x0.bool()', 'x0.int()', 'x0.long()', 'torch.cat([x0, x0], 1)', 'x0.sum(1)', 'x0.max(1)[0]', 'torch.argmax(x0, 1)', 'x0[:, 1]', 'x0.permute(1, 0)', 'x0 ** 2', 'torch.clamp(x0, 1, 2)', 'torch.max(x0, torch.tensor(1))', 'x0 & 1', 'x0 | 1', '~x0', 'F.relu(x0)', 'torch.cumsum(x0, 1)', 'torch.where(x0 > 1, x0, 0)', 'torch.maximum(x0, x0.flip(0))', 'x0.prod(1)', 'x0.min(1)[0]', 'torch.floor_divide(x0, 2)', "torch.div(x0, 2, rounding_mode='floor')"], ('i', 'i32')):
        yield c(f'int:{e}:{k}', e, [([3, 4], k)])
    for e in ('x0 & x1', 'x0 | x1', '~x0', 'torch.logical_and(x0, x1)', 'torch.logical_or(x0, x1)', 'torch.logical_not(x0)', 'x0.float()', 'x0.int() + x1.int()', 'torch.where(x0, 1.0, 2.0)', 'x0 == x1', 'x0.all(1)', 'x0.any(1)', 'x0 ^ x1', 'torch.cat([x0, x1], 0)', 'x0.long()'):
        yield c(f'bool:{e}', e, [([3, 4], 'b'), ([3, 4], 'b')])
    # ---------------------------------------------------------------- reductions
    red = ['sum', 'mean', 'prod', 'amax', 'amin', 'std', 'var']
    for r in (2, 3, 4):
        dims = list(range(-r, r)) + [list(d) for n in range(2, r + 1) for d in itertools.combinations(range(r), n)] + [[-1], [-1, -2], [1, -1], [2, 1] if r > 2 else [1, 0]]
        for f, d, k in P(red, dims, (False, True)):
            if isinstance(d, list) and f == 'prod':
                continue
            if len(set(q % r for q in d) if isinstance(d, list) else [1]) != (len(d) if isinstance(d, list) else 1):
                continue
            yield c(f'red:{f}:{r}:{d}:{k}', f'x0.{f}({d}, keepdim={k})', [R[r]])
        for f in ('sum', 'mean', 'prod', 'max', 'min', 'std', 'var', 'argmax', 'argmin', 'amax', 'norm'):
            yield c(f'red:{f}:{r}:all', f'x0.{f}()', [R[r]])
        for f, d, k in P(('max', 'min', 'argmax', 'argmin'), range(-r, r), (False, True)):
            e = f'x0.{f}({d}, keepdim={k})' + ('' if f.startswith('arg') else '[0]')
            yield c(f'red:{f}:{r}:{d}:{k}', e, [R[r]])
            if not f.startswith('arg'):
                yield c(f'red:{f}i:{r}:{d}:{k}', f'x0.{f}({d}, keepdim={k})[1]', [R[r]])
        for p, d, k in P((1, 2, "'fro'"), list(range(-r, r)) + [[0, 1], [-1, -2]], (False, True)):
            yield c(f'norm:{p}:{r}:{d}:{k}', f'torch.norm(x0, {p}, dim={d}, keepdim={k})', [R[r]])
            if p != "'fro'":
                yield c(f'vnorm:{p}:{r}:{d}:{k}', f'torch.linalg.vector_norm(x0, {p}, dim={d}, keepdim={k})', [R[r]])
        for p, d in P((1, 2), range(-r, r)):
            yield c(f'normalize:{p}:{r}:{d}', f'F.normalize(x0, {p}, {d})', [R[r]])
        for f, d, u in P(('var', 'std'), ([1], [0, 1], -1, list(range(r))), ('unbiased=False', 'unbiased=True', 'correction=2')):
            yield c(f'{f}:{r}:{d}:{u}', f'torch.{f}(x0, {d}, {u})', [R[r]])
    # ---------------------------------------------------------------- layout
    for r in (2, 3, 4):
        for p in itertools.permutations(range(r)):
            yield c(f'permute:{p}', f'x0.permute({p})', [R[r]])
            if r == 3 or not quick:
                yield c(f'permute1:{p}', f'x0.permute({p})', [[1, 2, 1, 3][:r]])
                yield c(f'permuteneg:{p}', f'x0.permute({tuple(q - r for q in p)})', [R[r]])
        for a, b in P(range(-r, r), repeat=2):
            if a % r < b % r:
                yield c(f'transpose:{r}:{a}:{b}', f'x0.transpose({a}, {b})', [R[r]])
        for a, b in P(range(-r, r), repeat=2):
            if a % r <= b % r:
                yield c(f'flatten:{r}:{a}:{b}', f'torch.flatten(x0, {a}, {b})', [R[r]])
        for d in range(-r, r):
            s = list(R[r])
            s[d] = 1
            yield c(f'squeeze:{r}:{d}', f'x0.squeeze({d})', [s])
            yield c(f'squeezeno:{r}:{d}', f'x0.squeeze({d})+0', [R[r]])
        for d in range(-r - 1, r + 1):
            yield c(f'unsqueeze:{r}:{d}', f'x0.unsqueeze({d})', [R[r]])
            yield c(f'stack:{r}:{d}', f'torch.stack([x0, x1], {d})', [R[r], R[r]])
        for d in range(-r, r):
            s2 = list(R[r])
            s2[d] += 2
            yield c(f'cat:{r}:{d}', f'torch.cat([x0, x1, x0], {d})', [R[r], s2])
            for n in (1, 2, 3):
                yield c(f'split:{r}:{d}:{n}', f'torch.split(x0, {n}, {d})', [s2], maxn=6)
                yield c(f'chunk:{r}:{d}:{n}', f'torch.chunk(x0, {n}, {d})', [s2], maxn=6)
                yield c(f'tsplit:{r}:{d}:{n}', f'torch.tensor_split(x0, {n}, {d})', [s2], maxn=6)
            q = s2[d]
            for sec in ([1, q - 1], [q - 2, 1, 1], [q]):
                yield c(f'splits:{r}:{d}:{sec}', f'torch.split(x0, {sec}, {d})', [s2], maxn=6)
            yield c(f'unbind:{r}:{d}', f'torch.unbind(x0, {d})', [R[r]], maxn=6)
            for i in (0, 1, -1, -2):
                if not -R[r][d] <= i < R[r][d]:
                    continue
                yield c(f'select:{r}:{d}:{i}', f'torch.select(x0, {d}, {i})', [R[r]])
            for st, en, sp in ((0, 2, 1), (1, None, 1), (-2, None, 1), (0, -1, 1), (0, None, 2), (1, None, 2), (-3, -1, 1), (0, 100, 1), (None, None, 3)):
                if -R[r][d] > (st or 0):
                    continue
                pre = ':, ' * (d % r)
                body = f'{"" if st is None else st}:{"" if en is None else en}' + (f':{sp}' if sp != 1 else '')
                yield c(f'slice:{r}:{d}:{body}', f'x0[{pre}{body}]', [R[r]])
            if r == 3:  # every start, stop and step
                n = R[r][d]
                for st, en, sp in P((None, *range(-n - 1, n + 1)), (None, *range(-n - 1, n + 2)), (1, 2, 3)):
                    if quick and (sp == 3 or d < 0):
                        continue
                    if len(range(n)[st:en:sp]):
                        body = f'{"" if st is None else st}:{"" if en is None else en}:{sp}'
                        yield c(f'slicefull:{r}:{d}:{body}', f'x0[{":, " * (d % r)}{body}]', [R[r]])
            yield c(f'narrow:{r}:{d}', f'torch.narrow(x0, {d}, 1, {R[r][d]-1})', [R[r]])
            yield c(f'flip:{r}:{d}', f'torch.flip(x0, [{d}])', [R[r]])
            for n in (1, -1, 2, R[r][d], R[r][d] + 1, 2 * R[r][d] + 1, -R[r][d] - 1, -3 * R[r][d] + 1):
                yield c(f'roll:{r}:{d}:{n}', f'torch.roll(x0, {n}, {d})', [R[r]])
            for idx in ([0, 1], [1, 0, 1], [-1] if False else [1]):
                yield c(f'isel:{r}:{d}:{idx}', f'torch.index_select(x0, {d}, torch.tensor({idx}))', [R[r]])
            gs = [min(v, 2) for v in R[r]]
            yield c(f'gather:{r}:{d}', f'torch.gather(x0, {d}, self.i)', [R[r]], [f"self.register_buffer('i', torch.arange({_n(gs)}).reshape({gs}) % 2)"])
            yield c(f'gatherfull:{r}:{d}', f'torch.gather(x0, {d}, self.i)', [R[r]], [f"self.register_buffer('i', torch.arange({_n(R[r])}).reshape({R[r]}) % 2)"])
            yield c(f'gatherin:{r}:{d}', f'torch.gather(x0, {d}, x1 % 2)', [R[r], (gs, 'i')])
            for n in (1, 2, 3):
                yield c(f'rinter:{r}:{d}:{n}', f'torch.repeat_interleave(x0, {n}, {d})', [R[r]])
            yield c(f'scatter:{r}:{d}', f'torch.zeros(x0.shape).scatter_({d}, self.i, x0)', [gs], [f"self.register_buffer('i', (torch.arange({_n(gs)}).reshape({gs}) * 0 + torch.arange(2).reshape({[2 if q == d % r else 1 for q in range(r)]}) + 1) % 2)"])
        for reps in ([2] + [1] * (r - 1), [1] * (r - 1) + [3], [2] * r, [2] + [1] * r, [1] * r):
            yield c(f'repeat:{r}:{reps}', f'x0.repeat({reps})', [R[r]])
        yield c(f'rinterall:{r}', 'torch.repeat_interleave(x0, 2)', [R[r]])
        yield c(f'rollall:{r}', 'torch.roll(x0, 3)', [R[r]])
        yield c(f'rollmulti:{r}', 'torch.roll(x0, (1, -1), (0, 1))', [R[r]])
        yield c(f'flipmulti:{r}', 'torch.flip(x0, [0, 1])', [R[r]])
        yield c(f'squeezeall:{r}', 'x0.squeeze()', [[1] + R[r][1:-1] + [1]])
        for n in (1, 2):
            s = list(R[r])
            s[0] = 1
            yield c(f'expand:{r}:{n}', f'x0.expand({[3] + s[1:] if n == 1 else [2, 3] + s[1:]})', [s])
        yield c(f'expandm1:{r}', f'x0.expand(2, {", ".join(["-1"] * r)})', [R[r]])
        yield c(f'expandas:{r}', 'x0.expand_as(x1) + 0', [[1] * r, R[r]])
        yield c(f'bcast:{r}', 'torch.broadcast_tensors(x0, x1)', [[1] * r, R[r]], maxn=2)
        n = _n(R[r])
        for tgt in ([n], [-1], [2, n // 2], [n // 2, -1], [1, n], [2, -1, 2], [1, 2, 1, n // 2], [-1, 1, 2], [2, 1, -1, 1, 2], R[r][:-2] + [R[r][-2] * R[r][-1]]):
            yield c(f'view:{r}:{tgt}', f'x0.reshape({tgt})', [R[r]])
            yield c(f'viewperm:{r}:{tgt}', f'x0.transpose(0, 1).reshape({tgt})', [R[r]])
        yield c(f'viewdyn:{r}', 'x0.view(x0.size(0), -1)', [R[r]])
        yield c(f'viewdyn2:{r}', 'x0.reshape(x0.shape[0] * x0.shape[1], -1)', [R[r]])
        yield c(f'viewas:{r}', 'x0.view_as(x1)', [R[r], [n]])
    yield c('t', 'x0.t()', [[3, 4]])
    yield c('t1', 'x0.t()', [[4]])
    for e in ('x0[0]', 'x0[-1]', 'x0[:, 0]', 'x0[..., 0]', 'x0[..., -1]', 'x0[:, None]', 'x0[None]', 'x0[:, 1:, :2]', 'x0[:, [0, 2]]', 'x0[[1, 0]]', 'x0[:, torch.tensor([2, 0])]', 'x0[..., [1, 0]]', 'x0[0, 1]', 'x0[:, 1, 2]', 'x0[1:, 0]', 'x0[::2]', 'x0[:, ::2, 1:3]', 'x0[self.i]', 'x0[:, self.i]', 'x0[self.i, self.i]', 'x0[self.i, :, self.i]', 'x0[:, self.i, self.i]', 'x0[x0[:, 0, 0] > -100]', 'x0[self.k]', 'x0[:, self.k]', 'x0[self.i, 1]', 'x0[..., self.i]', 'x0[self.j]', 'x0[:, self.j]', 'x0[:, :, self.j]', 'x0[self.j, self.i]'):
        for s in ([3, 4, 5], [3, 4, 5, 3]):
            yield c(f'index:{e}:{len(s)}', e, [s], ["self.register_buffer('i', torch.tensor([1, 0]))", "self.register_buffer('k', torch.tensor([-1, 1, -2]))", "self.register_buffer('j', torch.tensor([[1, 0], [2, 1], [0, 0]]))"])
    for e in ('x0[x1]', 'x0[:, x1]', 'torch.index_select(x0, 0, x1)', 'torch.index_select(x0, 1, x1)', 'F.embedding(x1, x0.flatten(1))', 'x0[..., x1]'):
        for s in ([4, 5], [4, 5, 6]):
            yield c(f'indexin:{e}:{len(s)}', e, [s, ([2], 'i')])
    for e in ('y[:, 1] = 0', 'y[0] = x0[1]', 'y[:, 1:3] = 2.5', 'y[..., 0] = x0[..., 1]', 'y[:, ::2] = 0', 'y[:, 1] = x0[:, 0] * 2', 'y[0, 1] = 3', 'y[:, :, 0] += 1', 'y[:] = 1.5', 'y[1:] = x0[:-1]', 'y[:, -1] = 0', 'y[self.i] = 0', 'y[:, self.i] = 0', 'y[self.i, self.i] = 1.0', 'y[y > 0] = 0', 'y[:2].copy_(x0[1:3])', 'y.fill_(0.5)', 'y[0].fill_(0.5)', 'y[self.i] = x0[:2]'):
        for s in ([3, 4, 5], [3, 4, 5, 3]):
            yield c(f'setitem:{e}:{len(s)}', 'y + 0', [s], ["self.register_buffer('i', torch.tensor([1, 0]))"], pre=['y = x0.clone()', e])
    for s, ind in (([3, 4], 1), ([3, 4, 5], 1), ([3, 4, 5], 2)):
        for acc in (False, True):
            idx = ', '.join(['torch.tensor([0, 2])'] * ind)
            yield c(f'indexput:{len(s)}:{ind}:{acc}', f'x0.index_put(({idx},), x1, accumulate={acc})', [s, [2] + s[ind:]])
    for s1, s2 in (([3], [4]), ([2], [2])):
        for ij in ('ij', 'xy'):
            yield c(f'meshgrid:{s1}:{s2}:{ij}', f"torch.meshgrid(x0, x1, indexing='{ij}')", [s1, s2], maxn=2)
    yield c('meshgrid1', "torch.meshgrid(x0, x1)", [[3], [4]], maxn=2)
    for e in ('torch.arange(4) + x0', 'torch.arange(1, 5) * x0', 'torch.arange(0, 8, 2).float() + x0', 'torch.ones(4) + x0', 'torch.zeros(3, 4) + x0', 'torch.ones(x0.shape) + x0', 'torch.eye(4) @ x0.t()', 'torch.full((3, 4), 2.0) * x0', 'torch.linspace(0, 1, 4) + x0', 'x0.shape[0] * x0', 'x0 * x0.size(1)', 'torch.arange(x0.shape[1]) + x0', 'x0.type_as(x0) + 1', 'x0.to(torch.float64).float() + 1', 'x0.double().float()', 'x0.long().float()', 'x0.int().float() * 0.5', '(x0 > 0).float()', 'x0.bool().float()', 'torch.empty_like(x0).fill_(2.0) + x0', 'torch.zeros_like(x0).copy_(x0)', 'torch.triu(x0)', 'torch.tril(x0)', 'torch.einsum("ij,kj->ik", x0, x0)', 'x0.half().float()'):
        yield c(f'misc:{e}', e, [[3, 4]])
    # ---------------------------------------------------------------- padding
    for pad in ([1, 2], [0, 1], [1, 1, 2, 0], [0, 0, 1, 2], [1, 0, 0, 1, 2, 1], [0, 0, 0, 0, 1, 1], [-1, 0], [0, -1, 1, 0], [-1, -1, -1, -1]):
        for r in (2, 3, 4):
            if len(pad) // 2 > r:
                continue
            for v in ('', ', value=0.5', ", mode='reflect'", ", mode='replicate'", ", mode='circular'"):
                yield c(f'pad:{r}:{pad}{v}', f'F.pad(x0, {pad}{v})', [R[r]])
    for m in ('nn.ReflectionPad2d((1, 2, 0, 1))', 'nn.ReflectionPad2d(1)', 'nn.ZeroPad2d((1, 0, 2, 1))', 'nn.ConstantPad2d((1, 2, 0, 1), 0.3)', 'nn.ReplicationPad2d(1)'):
        yield c(f'padm:{m}', 'self.m(x0)', [[2, 3, 4, 5]], [f'self.m = {m}'])
    for m in ('nn.ReflectionPad1d((1, 2))', 'nn.ReflectionPad1d(2)', 'nn.ConstantPad1d((1, 2), 0.3)'):
        for s in ([2, 3, 5], [3, 5]):
            yield c(f'padm:{m}:{len(s)}', 'self.m(x0)', [s], [f'self.m = {m}'])
    # ---------------------------------------------------------------- convolutions
    for k, s, p, d, g, b in P((1, 2, 3, (3, 1), (2, 3)), (1, 2, (2, 1)), (0, 1, (1, 0), (0, 1), 2, "'same'"), (1, 2, (1, 2)), (1, 2, 4), (True, False)):
        if p == "'same'" and s != 1:
            continue
        if quick and ((s == (2, 1)) + (d == (1, 2)) + (k in ((3, 1), (2, 3))) + (b is False) + (p in ((1, 0), (0, 1), 2)) + (g == 2) > 1):
            continue
        yield c(f'conv2d:k{k}s{s}p{p}d{d}g{g}b{b}', 'self.m(x0)', [[1, 4, 9, 10]], [f'self.m = nn.Conv2d(4, 8, {k}, {s}, {p}, {d}, {g}, {b})'])
    for k, s, p, d, g, b in P((1, 2, 3), (1, 2), (0, 1, "'same'"), (1, 2), (1, 2, 4), (True, False)):
        if p == "'same'" and s != 1:
            continue
        if quick and not b and (g, d) not in ((1, 1), (4, 2)):
            continue
        yield c(f'conv1d:k{k}s{s}p{p}d{d}g{g}b{b}', 'self.m(x0)', [[2, 4, 9]], [f'self.m = nn.Conv1d(4, 4, {k}, {s}, {p}, {d}, {g}, {b})'])
    for k, s, p, d, g in P((1, 2, 3), (1, 2), (0, 1), (1, 2), (1, 2)):
        if quick and d == 2 and p:
            continue
        yield c(f'conv3d:k{k}s{s}p{p}d{d}g{g}', 'self.m(x0)', [[1, 2, 5, 6, 7]], [f'self.m = nn.Conv3d(2, 4, {k}, {s}, {p}, {d}, {g})'])
    for k, s, p, op, g, d, b in P((1, 2, 3, (3, 2)), (1, 2, (2, 1)), (0, 1, (1, 0)), (0, 1, (1, 0)), (1, 2, 4), (1, 2), (True, False)):
        if quick and ((s == (2, 1)) + (k == (3, 2)) + (p == (1, 0)) + (op == (1, 0)) + (not b) + (g == 2) + (d == 2) > 1):
            continue
        yield c(f'deconv2d:k{k}s{s}p{p}op{op}g{g}d{d}b{b}', 'self.m(x0)', [[2, 4, 5, 6]], [f'self.m = nn.ConvTranspose2d(4, 8, {k}, {s}, {p}, {op}, {g}, {b}, {d})'])
    for k, s, p, op, g, b in P((1, 2, 3), (1, 2), (0, 1), (0, 1), (1, 2), (True, False)):
        yield c(f'deconv1d:k{k}s{s}p{p}op{op}g{g}b{b}', 'self.m(x0)', [[2, 4, 6]], [f'self.m = nn.ConvTranspose1d(4, 4, {k}, {s}, {p}, {op}, {g}, {b})'])
    for k, s, p in P((1, 2, 3), (1, 2), (0, 1)):
        yield c(f'deconv3d:k{k}s{s}p{p}', 'self.m(x0)', [[1, 2, 4, 4, 5]], [f'self.m = nn.ConvTranspose3d(2, 4, {k}, {s}, {p})'])
    for s, e in P(([3, 5, 6], [1, 3, 5, 6]), ('F.conv2d(x0, self.w)', 'F.conv2d(x0, self.w, stride=2, padding=1)', 'F.conv2d(x0, torch.abs(self.w))', 'F.conv2d(x0, self.w, torch.ones(2))', 'F.conv2d(x0, self.w * x0.mean())')):
        yield c(f'fconv:{e}:{len(s)}', e, [s], ['self.w = nn.Parameter(torch.empty(2, 3, 2, 2))'])
    yield c('fconvdyn', 'F.conv2d(x0, x1)', [[1, 3, 5, 5], [2, 3, 2, 2]])
    yield c('convmult', 'self.m(x0)', [[1, 3, 5, 5]], ['self.m = nn.Conv2d(3, 6, 3, groups=3)'])
    yield c('conv1in', 'self.m(x0)', [[1, 1, 5, 5]], ['self.m = nn.Conv2d(1, 4, 3)'])
    yield c('convb4', 'self.m(x0)', [[4, 3, 5, 5]], ['self.m = nn.Conv2d(3, 4, 3, padding=1)'])
    for m, g in P(("'reflect'", "'replicate'", "'circular'"), (1, 3)):
        yield c(f'convpm:{m}:{g}', 'self.m(x0)', [[1, 3, 5, 6]], [f'self.m = nn.Conv2d(3, 3, 3, padding=(1, 2), padding_mode={m}, groups={g})'])
    # ---------------------------------------------------------------- pooling
    for f, k, s, p, cm in P(('avg', 'max'), (1, 2, 3, (3, 2)), (None, 1, 2, (2, 1)), (0, 1, (1, 0)), (False, True)):
        for x in (({'count_include_pad': False}, {'count_include_pad': True}, {'divisor_override': 3}) if f == 'avg' else ({'dilation': 1}, {'dilation': 2}, {'return_indices': True})):
            if quick and k == (3, 2) and s == (2, 1):
                continue
            a = ', '.join(f'{q}={v}' for q, v in x.items())
            e = f'F.{f}_pool2d(x0, {k}, {s}, {p}, ceil_mode={cm}, {a})'
            if 'return_indices' in x:
                if cm or p or s is not None:
                    continue
                e += '[0]'
            yield c(f'pool:{f}:k{k}s{s}p{p}c{cm}:{a}', e, [[1, 3, 7, 8]])
    for f, k, s, p, cm in P(('avg', 'max'), (1, 2, 3), (None, 1, 2), (0, 1), (False, True)):
        for n in ([2, 3, 7], [3, 8]):
            yield c(f'pool1:{f}:k{k}s{s}p{p}c{cm}:{len(n)}', f'F.{f}_pool1d(x0, {k}, {s}, {p}, ceil_mode={cm})', [n])
            if f == 'avg' and p:
                yield c(f'pool1:{f}:k{k}s{s}p{p}c{cm}:ex:{len(n)}', f'F.{f}_pool1d(x0, {k}, {s}, {p}, ceil_mode={cm}, count_include_pad=False)', [n])
    for f, o in P(('avg', 'max'), (1, 2, 3, (2, 3), (1, 4), (4, 6), (None, 2), (5, 5))):
        yield c(f'apool:{f}:{o}', f'F.adaptive_{f}_pool2d(x0, {o})', [[2, 3, 4, 6]])
        if isinstance(o, int):
            yield c(f'apool1:{f}:{o}', f'F.adaptive_{f}_pool1d(x0, {o})', [[2, 3, 6]])
    # ---------------------------------------------------------------- norms
    for r, aff, tr in P((2, 3, 4), (True, False), (True, False)):
        m = 'nn.BatchNorm2d' if r == 4 else 'nn.BatchNorm1d'
        for eps in (1e-5, 0.1):
            if not tr:
                continue
            yield c(f'bn:{r}:{aff}:{eps}', 'self.m(x0)', [R[r]], [f'self.m = {m}({R[r][1]}, eps={eps}, affine={aff})'])
    for r, aff, eps, b in P((3, 4), (True, False), (1e-5, 0.1), (1, 2)):
        m = 'nn.InstanceNorm2d' if r == 4 else 'nn.InstanceNorm1d'
        s = [b] + R[r][1:]
        yield c(f'in:{r}:{aff}:{eps}:{b}', 'self.m(x0)', [s], [f'self.m = {m}({s[1]}, eps={eps}, affine={aff})'])
        yield c(f'intr:{r}:{aff}:{eps}:{b}', 'self.m(x0)', [s], [f'self.m = {m}({s[1]}, eps={eps}, affine={aff}, track_running_stats=True)'])
    for r, g, aff, eps in P((2, 3, 4), (1, 2, 4), (True, False), (1e-5, 0.1)):
        s = [2, 4, 3, 5][:r]
        yield c(f'gn:{r}:{g}:{aff}:{eps}', 'self.m(x0)', [s], [f'self.m = nn.GroupNorm({g}, 4, eps={eps}, affine={aff})'])
    for r, n, aff, eps in P((2, 3, 4), (1, 2, 3), (True, False), (1e-5, 0.1)):
        if n > r:
            continue
        yield c(f'ln:{r}:{n}:{aff}:{eps}', 'self.m(x0)', [R[r]], [f'self.m = nn.LayerNorm({R[r][-n:]}, eps={eps}, elementwise_affine={aff})'])
    yield c('rmsn', 'self.m(x0)', [[2, 3, 4]], ['self.m = nn.RMSNorm(4)'])
    # ---------------------------------------------------------------- matmul family
    for r, b in P((1, 2, 3, 4), (True, False)):
        yield c(f'linear:{r}:{b}', 'self.m(x0)', [R[r]], [f'self.m = nn.Linear({R[r][-1]}, 5, bias={b})'])
    for s1, s2 in (([3, 4], [4, 5]), ([4], [4, 5]), ([3, 4], [4]), ([4], [4]), ([2, 3, 4], [4, 5]), ([2, 3, 4], [2, 4, 5]), ([2, 3, 4], [1, 4, 5]), ([1, 3, 4], [2, 4, 5]), ([3, 4], [2, 4, 5]), ([2, 3, 4], [4]), ([4], [2, 4, 5]), ([2, 2, 3, 4], [2, 2, 4, 5]), ([2, 2, 3, 4], [4, 5]), ([2, 2, 3, 4], [2, 4, 5]), ([2, 1, 3, 4], [1, 2, 4, 5]), ([2, 2, 3, 4], [4]), ([2, 4, 5], [2, 5, 4])):
        for tr in ('x0, x1', 'x0, x1.transpose(-1, -2)', 'x0.transpose(-1, -2), x1'):
            a, b = list(s1), list(s2)
            if 'x1.t' in tr:
                if len(b) < 2:
                    continue
                b[-1], b[-2] = b[-2], b[-1]
            if 'x0.t' in tr:
                if len(a) < 2:
                    continue
                a[-1], a[-2] = a[-2], a[-1]
            yield c(f'matmul:{sh(s1)}:{sh(s2)}:{tr}', f'torch.matmul({tr})', [a, b])
        yield c(f'matmulc:{sh(s1)}:{sh(s2)}', 'torch.matmul(x0, self.p)', [s1], [f'self.p = nn.Parameter(torch.empty({s2}))'])
        yield c(f'matmulcl:{sh(s1)}:{sh(s2)}', 'torch.matmul(self.p, x0)', [s2], [f'self.p = nn.Parameter(torch.empty({s1}))'])
        yield c(f'matmulcadd:{sh(s1)}:{sh(s2)}', 'torch.matmul(x0, self.p) + self.b', [s1], [f'self.p = nn.Parameter(torch.empty({s2}))', f'self.b = nn.Parameter(torch.empty({s2[-1]}))'])
    yield c('bmm', 'torch.bmm(x0, x1)', [[2, 3, 4], [2, 4, 5]])
    yield c('mm', 'torch.mm(x0, x1)', [[3, 4], [4, 5]])
    for be, al in P((1, 0.5, 0), (1, 2, 0.5)):
        for bs in ([3, 5], [5], [1, 5], [3, 1], [1]):
            yield c(f'addmm:{be}:{al}:{bs}', f'torch.addmm(x0, x1, x2, beta={be}, alpha={al})', [bs, [3, 4], [4, 5]])
        for bs in ([2, 3, 5], [5], [3, 5], [1, 3, 5]):
            yield c(f'baddbmm:{be}:{al}:{bs}', f'torch.baddbmm(x0, x1, x2, beta={be}, alpha={al})', [bs, [2, 3, 4], [2, 4, 5]])
        for bs in ([3, 5], [5]):
            yield c(f'addbmm:{be}:{al}:{bs}', f'torch.addbmm(x0, x1, x2, beta={be}, alpha={al})', [bs, [2, 3, 4], [2, 4, 5]])
    for pi in (None, 1):
        for s in ([3], [2, 3]):
            yield c(f'embedding:{pi}:{len(s)}', 'self.m(x0)', [(s, 'i')], [f'self.m = nn.Embedding(5, 4, padding_idx={pi})'])
    for r in (2, 4, 3):
        yield c(f'pixsh:{r}', f'F.pixel_shuffle(x0, {r})', [[1, r * r * 2, 3, 2]])
        yield c(f'pixun:{r}', f'F.pixel_unshuffle(x0, {r})', [[1, 2, 3 * r, 2 * r]])
    for k, d, p, s in P((1, 2, (3, 2)), (1, 2), (0, 1), (1, 2)):
        yield c(f'unfold:{k}:{d}:{p}:{s}', f'F.unfold(x0, {k}, {d}, {p}, {s})', [[1, 2, 6, 7]])
    for k, d, p, s in P((1, 2, 3), (1,), (0, 1), (1, 2, 3)):
        n = ((6 + 2 * p - k) // s + 1) ** 2
        yield c(f'fold:{k}:{d}:{p}:{s}', f'F.fold(x0, (6, 6), {k}, {d}, {p}, {s})', [[1, 2 * k * k, n]])
    for mode, a in P(('nearest', 'bilinear'), ('scale_factor=2', 'scale_factor=(2, 3)', 'scale_factor=0.5', 'scale_factor=1.5', 'size=(8, 9)', 'size=(2, 3)', 'size=7')):
        for ac in (('',) if mode == 'nearest' else ('', ', align_corners=True', ', align_corners=False')):
            yield c(f'interp:{mode}:{a}{ac}', f"F.interpolate(x0, {a}, mode='{mode}'{ac})", [[1, 2, 4, 6]])
    # ---------------------------------------------------------------- recurrent
    for kind, L, bi, bf, bias, T, B in P(('LSTM', 'GRU'), (1, 2), (False, True), (False, True), (True, False), (1, 3), (1, 2)):
        if quick and T == 1 and (L == 2 or B == 2):
            continue
        if kind == 'LSTM' and bi and bf and B > 1:
            continue  # TFLite's BIDIRECTIONAL_SEQUENCE_LSTM kernel reads past its state here (batch-major, several batches): no oracle
        s = [B, T, 4] if bf else [T, B, 4]
        yield c(f'rnn:{kind}:L{L}bi{int(bi)}bf{int(bf)}b{int(bias)}T{T}B{B}', 'self.m(x0)[0]', [s], [f'self.m = nn.{kind}(4, 3, num_layers={L}, bidirectional={bi}, batch_first={bf}, bias={bias})'])
    for kind, L, bi, bf, T in P(('LSTM', 'GRU'), (1, 2), (False, True), (False, True), (1, 3)):
        n = L * (2 if bi else 1)
        s = [2, T, 4] if bf else [T, 2, 4]
        call = 'self.m(x0, (self.h, self.c))' if kind == 'LSTM' else 'self.m(x0, self.h)'
        yield c(f'rnnh:{kind}:L{L}bi{int(bi)}bf{int(bf)}T{T}', call + '[0]', [s], [f'self.m = nn.{kind}(4, 3, num_layers={L}, bidirectional={bi}, batch_first={bf})', f"self.register_buffer('h', torch.linspace(-1, 1, {n * 6}).reshape({n}, 2, 3))", f"self.register_buffer('c', torch.linspace(1, -1, {n * 6}).reshape({n}, 2, 3))"])
        for un, sep in ((True, False), (True, True), (False, False)):
            call = 'self.m(x0, (x1, x2))' if kind == 'LSTM' else 'self.m(x0, x1)'
            inp = [s, [n, 2, 3]] + ([[n, 2, 3]] if kind == 'LSTM' else [])
            yield c(f'rnnst:{kind}:L{L}bi{int(bi)}bf{int(bf)}T{T}u{int(un)}{int(sep)}', call, inp, [f'self.m = nn.{kind}(4, 3, num_layers={L}, bidirectional={bi}, batch_first={bf})'], maxn=3, opts={'unroll_rnn': un, 'separated_rnn_gate_calc': sep})
    for kind in ('LSTMCell', 'GRUCell', 'RNNCell'):
        yield c(f'cell:{kind}', 'self.m(x0)' + ('[0]' if kind == 'LSTMCell' else ''), [[2, 4]], [f'self.m = nn.{kind}(4, 3)'])
    # ---------------------------------------------------------------- attention
    for e in ('F.scaled_dot_product_attention(x0, x0, x0)', 'torch.softmax(torch.bmm(x0, x0.transpose(1, 2)) / 2.0, -1) @ x0', 'self.m(x0, x0, x0)[0]', 'self.m(x0, x0, x0, need_weights=False)[0]'):
        yield c(f'attn:{e}', e, [[2, 3, 4]], ['self.m = nn.MultiheadAttention(4, 2, batch_first=True)'])


def _n(s):
    n = 1
    for v in s:
        n *= v
    return n


def cases(tier):
    seen = set()
    for cid, p in grid(tier):
        if cid in seen:
            continue
        seen.add(cid)
        yield cid, p
        if tier != 'quick' and 'opts' not in p:
            for lv in (0, 2, 3):
                yield f'{cid}@L{lv}', {**p, 'opts': {'optimize': lv}}


def source(p):
    s = 'class M(nn.Module):\n    def __init__(self):\n        super().__init__()\n'
    for l in p['init']:
        s += f'        {l}\n'
    s += f'    def forward(self, {", ".join(f"x{i}" for i in range(len(p["inp"])))}):\n'
    for l in p.get('pre', []):
        s += f'        {l}\n'
    return s + f'        return {p["expr"]}\n'


LOOSE = ('gelu', 'mish')


def run_case(p):
    lib.quiet_tinynn()
    src = source(p)
    m = lib.build(src).eval()
    shapes = [tuple(i) if len(i) == 2 and isinstance(i[1], str) else i for i in p['inp']]
    shapes = [(list(i[0]), i[1]) if isinstance(i, tuple) else i for i in shapes]
    x = lib.gen_inputs(shapes, 0)
    x2 = lib.gen_inputs(shapes, 1)
    try:
        with torch.no_grad():
            m(*[t.clone() for t in x])
            want = lib.flatten(m(*[t.clone() for t in x2]))
    except Exception as e:
        return {'status': 'reject', 'detail': 'PyTorch: ' + str(e)[:80]}
    if any(w.numel() == 0 or w.dtype in (torch.float16,) for w in want) or any(w.is_floating_point() and not torch.isfinite(w).all() for w in want):
        return {'status': 'reject', 'detail': 'outside of the domain'}
    path = None
    try:
        try:
            path, c = tfl.convert(m, [t.clone() for t in x], **p.get('opts', {}))
        except Exception as e:
            return {'status': 'refuse', 'detail': 'convert: ' + tb(e)}
        try:
            it = tfl.interpreter(path)
        except Exception as e:
            return {'status': 'refuse', 'detail': 'interpreter: ' + tfl.err(e)}
        got = tfl.run(it, [tfl.to_nhwc(t) for t in x2])
        d = tfl.agree(got, want, rtol=4e-3 if any(k in p['expr'] for k in LOOSE) else 2e-4)
        ops = tfl.ops_of(it)
    except lib.Fail as e:
        d, ops = str(e), []
    except (ValueError, RuntimeError) as e:
        return {'status': 'refuse', 'detail': 'run: ' + tfl.err(e)}
    finally:
        if path:
            tfl.cleanup(path)
    return {'status': 'fail' if d else 'ok', 'detail': d, 'sig': ','.join(ops), 'steps': len(ops)}


def tb(e):
    import traceback

    t = traceback.extract_tb(e.__traceback__)[-1]
    return f'{type(e).__name__}: {str(e)[:120]} @{t.name}'
