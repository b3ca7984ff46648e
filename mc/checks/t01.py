"""T01: generated code + weights reproduce the traced model."""
import copy
import itertools

import torch

from .. import lib
from ..progs import op, source, chains, dags

PROPERTY = 'T01'
LEVEL = 'model_checking'
RULE = (
    'every program of the stated depth over the statement alphabet (unary chains, binary DAGs with all operand '
    'choices, name-collision / module-tree layouts, signatures, outputs); run: trace -> generate_code -> import -> '
    'load weights, compare with the original on fresh inputs. Non-trivial: the program runs in eager PyTorch.'
)
ASSUMPTIONS = [
    'PyTorch eager execution of the original model is the oracle',
    'programs whose shape does not compose in eager PyTorch are rejected by PyTorch itself and do not count',
]

A = {
    # --- modules
    'conv': op('{y} = self.c{i}({x})', 'self.c{i} = nn.Conv2d(4, 4, 3, padding=1)'),
    'convg': op(
        '{y} = self.c{i}({x})',
        "self.c{i} = nn.Conv2d(4, 4, (3, 1), padding=(1, 0), groups=2, bias=False, padding_mode='reflect')",
    ),
    'convsame': op('{y} = self.c{i}({x})', "self.c{i} = nn.Conv2d(4, 4, 3, padding='same', dilation=2)"),
    'convt': op('{y} = self.c{i}({x})', 'self.c{i} = nn.ConvTranspose2d(4, 4, 3, padding=1, groups=2)'),
    'bn': op('{y} = self.b{i}({x})', 'self.b{i} = nn.BatchNorm2d(4, eps=1e-2)'),
    'bnna': op('{y} = self.b{i}({x})', 'self.b{i} = nn.BatchNorm2d(4, affine=False)'),
    'gn': op('{y} = self.b{i}({x})', 'self.b{i} = nn.GroupNorm(2, 4, eps=0.1)'),
    'ln': op('{y} = self.b{i}({x})', 'self.b{i} = nn.LayerNorm([6, 6], elementwise_affine=False)'),
    'inorm': op('{y} = self.b{i}({x})', 'self.b{i} = nn.InstanceNorm2d(4, affine=True)'),
    'lin': op('{y} = self.l{i}({x})', 'self.l{i} = nn.Linear(6, 6, bias=False)'),
    'prelu': op('{y} = self.p{i}({x})', 'self.p{i} = nn.PReLU(4, init=0.1)'),
    'lrelu': op('{y} = self.p{i}({x})', 'self.p{i} = nn.LeakyReLU(negative_slope=0.3)'),
    'drop': op('{y} = self.p{i}({x})', 'self.p{i} = nn.Dropout(0.5)'),
    'ident': op('{y} = self.p{i}({x})', 'self.p{i} = nn.Identity()'),
    'pad': op('{y} = self.p{i}({x})[:, :, 1:, :-1]', 'self.p{i} = nn.ConstantPad2d((0, 1, 1, 0), 3.5)'),
    'seq': op('{y} = self.s{i}({x})', 'self.s{i} = nn.Sequential(nn.Conv2d(4, 4, 1), nn.ReLU(), nn.BatchNorm2d(4))'),
    'mlist': op(
        '{y} = {x}\nfor l in self.s{i}: {y} = l({y})',
        'self.s{i} = nn.ModuleList([nn.Conv2d(4, 4, 1), nn.Tanh(), nn.Conv2d(4, 4, 1, bias=False)])',
    ),
    'mdict': op(
        "{y} = self.s{i}['b'](self.s{i}['a']({x}))",
        "self.s{i} = nn.ModuleDict({{'a': nn.Conv2d(4, 4, 1), 'b': nn.Hardtanh(-0.4, 0.6)}})",
    ),
    'shared': op('{y} = self.c{i}(self.c{i}({x}))', 'self.c{i} = nn.Conv2d(4, 4, 3, padding=1)'),
    'sub': op('{y} = self.sub{i}({x})', 'self.sub{i} = Sub()'),
    'sub2': op('{y} = self.sub{i}({x}) + self.sub{i}({x} * 0.5)', 'self.sub{i} = Sub()'),
    'up': op(
        '{y} = self.u{i}({x})[:, :, 1::2, 0::2]',
        "self.u{i} = nn.Upsample(scale_factor=2, mode='bilinear', align_corners=True)",
    ),
    'maxpool': op('{y} = self.u{i}({x})', 'self.u{i} = nn.MaxPool2d(3, 1, 1)'),
    'avgpool': op('{y} = self.u{i}({x})', 'self.u{i} = nn.AvgPool2d(3, 1, 1, count_include_pad=False)'),
    'lstm': op(
        '{y}, _ = self.r{i}({x}.reshape({x}.size(0), {x}.size(1) * {x}.size(2), -1))\n{y} = {y}.reshape(2, 4, 6, 6)',
        'self.r{i} = nn.LSTM(6, 3, batch_first=True, bidirectional=True)',
    ),
    'lstmst': op(
        '{y}, (h{i}, c{i}) = self.r{i}({x}.reshape(2, 24, 6), (self.h{i}, self.k{i}))\n'
        '{y} = ({y} + c{i}.permute(1, 0, 2) * h{i}.permute(1, 0, 2)).view(2, 4, 6, 6)',
        'self.r{i} = nn.LSTM(6, 6, batch_first=True)',
        "self.register_buffer('h{i}', torch.ones(1, 2, 6))",
        "self.register_buffer('k{i}', torch.ones(1, 2, 6) * 0.3)",
    ),
    'gru': op(
        '{y}, h{i} = self.r{i}({x}.reshape(2, 24, 6))\n{y} = ({y} * h{i}.mean()).reshape_as({x})',
        'self.r{i} = nn.GRU(6, 6, batch_first=True)',
    ),
    # --- functions, methods, operators, in-place
    'relu': op('{y} = F.relu({x})'),
    'trelu': op('{y} = torch.relu({x})'),
    'mrelu': op('{y} = {x}.relu()'),
    'irelu': op('{y} = {x} * 1\n{y}.relu_()'),
    'fsig_': op('{y} = {x} * 1\ntorch.sigmoid_({y})'),
    'fclamp_': op('{y} = torch.clamp_({x} * 1.5, -0.3, 0.4)'),
    'felu_': op('{y} = {x} - 0.2\n{y}_r = F.elu_({y}, 0.5)\n{y} = {y} + {y}_r'),
    'fzero_': op('{y} = {x} * 1\ntorch.fill_({y}[:, 0], 0.25)'),
    'frelu_': op('{y} = F.relu({x} + 0, inplace=True)'),
    'iadd': op('{y} = {x} * 1\n{y} += 0.5'),
    'imul_': op('{y} = {x} * 1\n{y}.mul_(2).add_({x}, alpha=0.5)'),
    'addk': op('{y} = {x} + 1.5'),
    'radd': op('{y} = 2 + {x}'),
    'rsub': op('{y} = 1 - {x}'),
    'rdiv': op('{y} = 1.0 / ({x} * {x} + 1)'),
    'neg': op('{y} = -{x}'),
    'pow': op('{y} = {x} ** 2'),
    'rpow': op('{y} = 1.1 ** {x}'),
    'floordiv': op('{y} = ({x} // 0.5) * 0.5'),
    'mod': op('{y} = {x} % 0.7'),
    'matmul': op('{y} = {x} @ {x}.transpose(-1, -2)'),
    'abs': op('{y} = abs({x})'),
    'clamp': op('{y} = torch.clamp({x}, min=-0.5, max=1.0)'),
    'clampmin': op('{y} = {x}.clamp(min=0.1)'),
    'softmax': op('{y} = F.softmax({x}, dim=1)'),
    'gelu': op("{y} = F.gelu({x}, approximate='tanh')"),
    'param': op('{y} = {x} * self.w{i} + self.bb{i}', 'self.w{i} = nn.Parameter(torch.ones(4, 1, 1))',
                "self.register_buffer('bb{i}', torch.ones(1, 4, 1, 1) * 0.25)"),
    'paramfn': op('{y} = F.conv2d({x}, self.w{i}, stride=1, padding=1)', 'self.w{i} = nn.Parameter(torch.ones(4, 4, 3, 3))'),
    'wuse': op('{y} = F.linear({x}, self.l{i}.weight, self.l{i}.bias) + self.l{i}({x})', 'self.l{i} = nn.Linear(6, 6)'),
    'slice': op('{y} = torch.cat([{x}[:, 2:], {x}[:, :2]], 1)'),
    'slice2': op('{y} = {x}[..., ::2].repeat(1, 1, 1, 2)'),
    'idx': op('{y} = {x}[0] + {x}[-1].unsqueeze(0)'),
    'idxnone': op('{y} = {x}[:, None, :, 0, :].transpose(1, 2) + {x}'),
    'idxlist': op('{y} = {x}[:, [3, 0, 2, 1]]'),
    'chunk': op('a{i}, b{i} = {x}.chunk(2, 1)\n{y} = torch.cat((b{i}, a{i} * 2), dim=1)'),
    'chunk1': op('{y} = torch.cat([{x}.chunk(2, dim=1)[1]] * 2, 1)'),
    'split': op('a{i}, b{i}, c{i} = torch.split({x}, [1, 2, 1], 1)\n{y} = torch.cat([c{i}, b{i}, a{i}], 1)'),
    'splitloop': op('{y} = torch.cat([t * (k + 1) for k, t in enumerate(torch.split({x}, 1, 1))], 1)'),
    'unbind': op('{y} = torch.stack(torch.unbind({x}, 1)[::-1], dim=1)'),
    'stack': op('{y} = torch.stack([{x}, {x} * 2], 0)[1]'),
    'view': op('{y} = {x}.view({x}.size(0), -1).view(-1, 4, 6, 6)'),
    'shape': op('b{i}, c{i}, h{i}, w{i} = {x}.shape\n{y} = {x}.reshape(b{i}, c{i} // 2, 2, h{i}, w{i}).transpose(1, 2).reshape(b{i}, -1, h{i}, w{i})'),
    'shape2': op('{y} = {x}.view({x}.shape[0] * {x}.shape[1], *{x}.shape[2:]).view({x}.size())'),
    'shape3': op('{y} = {x}.flatten(2).reshape({x}.size(0), int({x}.size(1)), {x}.shape[-1], -1)'),
    'permute': op('{y} = {x}.permute(0, 1, 3, 2).contiguous()'),
    'permute2': op('{y} = torch.permute({x}, [0, 1, 3, 2])'),
    'squeeze': op('{y} = {x}.mean([2, 3], keepdim=True).squeeze(-1).unsqueeze(3) + {x}'),
    'mean': op('{y} = {x} - {x}.mean(dim=(2, 3), keepdim=True)'),
    'max': op('a{i}, b{i} = {x}.max(dim=1, keepdim=True)\n{y} = {x} * 0.5 + a{i} + b{i}'),
    'maxattr': op('{y} = {x} + torch.max({x}, 1, keepdim=True).values'),
    'topk': op('a{i}, b{i} = torch.topk({x}, 4, 1)\n{y} = a{i} + b{i}.float()'),
    'sort': op('{y} = torch.sort({x}, dim=-1, descending=True)[0]'),
    'where': op('{y} = torch.where({x} > 0.1, {x}, -{x} * 0.3)'),
    'masked': op('{y} = {x}.masked_fill({x} < 0, 0.7)'),
    'cmp': op('{y} = ({x} >= 0).float() * {x} + ({x} != 0).type_as({x})'),
    'ones': op('{y} = {x} + torch.ones({x}.shape[1], 1, 1) * 2'),
    'oneslike': op('{y} = {x} + torch.ones_like({x})'),
    'newzeros': op('{y} = torch.cat([{x}[:, :3], {x}.new_zeros(2, 1, 6, 6)], 1)'),
    'arange': op('{y} = {x} + torch.arange(6, dtype=torch.float32)'),
    'tensor': op('{y} = {x} * torch.tensor([1.0, 2.0, 3.0, 4.0]).view(1, 4, 1, 1)'),
    'full': op('{y} = torch.maximum({x}, torch.full((1, 4, 1, 1), 0.25))'),
    'expand': op('{y} = {x}[:, :1].expand(-1, 4, -1, -1) + {x}'),
    'expandas': op('{y} = {x}.mean(1, keepdim=True).expand_as({x}) * {x}'),
    'interp': op("{y} = F.interpolate({x}, size=(3, 3), mode='nearest')\n{y} = F.interpolate({y}, size={x}.shape[2:], mode='bilinear', align_corners=False)"),
    'interp2': op('{y} = F.interpolate({x}[:, :, ::2, ::2], scale_factor=2.0)'),
    'fpad': op("{y} = F.pad({x}, (1, 0, 0, 1), mode='constant', value=0.3)[:, :, 1:, :-1]"),
    'einsum': op("{y} = torch.einsum('bchw,bcwk->bchk', {x}, {x})"),
    'bmm': op('{y} = torch.bmm({x}.reshape(8, 6, 6), {x}.reshape(8, 6, 6)).view(2, 4, 6, 6)'),
    'roll': op('{y} = torch.roll({x}, shifts=(1, -1), dims=(2, 3))'),
    'shuffle': op('{y} = F.pixel_unshuffle(F.pixel_shuffle({x}, 2), 2)'),
    'unfold': op('{y} = F.fold(F.unfold({x}, 3, padding=1), (6, 6), 3, padding=1)'),
    'cumsum': op('{y} = torch.cumsum({x}, dim=2) * 0.2'),
    'double': op('{y} = {x}.double().sum(1, keepdim=True).float() + {x}'),
    'to': op('{y} = {x}.to(torch.float64).mul(2).to({x}.dtype)'),
    'intcast': op('{y} = {x}.int().to(torch.float32) + {x}.long()'),
    'norm': op('{y} = F.normalize({x}, p=2.0, dim=1)'),
    'detach': op('{y} = {x}.detach() + {x}.clone()'),
    'numeltup': op('{y} = {x} / {x}.numel() + {x}.dim()'),
    'gather': op('{y} = torch.gather({x}, 1, {x}.argmax(1, keepdim=True)) + {x}'),
    'nested': op('{y} = torch.cat([torch.cat([{x}[:, 0:1], {x}[:, 1:2]], dim=1), {x}[:, 2:]], dim=1)'),
    'std': op('{y} = {x} / (torch.std({x}, 1, keepdim=True) + 1)'),
    'sdpa': op('{y} = F.scaled_dot_product_attention({x}, {x}, {x} * 2)'),
    # --- literals
    'ninf': op("{y} = {x}.masked_fill({x} > 0.4, -float('inf')).clamp(min=-2.5)"),
    'pinf': op("{y} = torch.clamp({x}, min=-float('inf'), max=float('inf')) + torch.clamp({x}.masked_fill({x} > 0.4, float('inf')), max=3.0)"),
    'nan': op("{y} = torch.nan_to_num({x}.masked_fill({x} > 0.4, float('nan')), nan=-0.25, posinf=float('inf'), neginf=-float('inf'))"),
    'tiny': op('{y} = {x} * 1e-3 + 123456789.0 * 1e-9 + {x} * -1.0000001e3 * 1e-3'),
    'bigint': op('{y} = {x} + (2 ** 40 + 1) * 1e-13 + ({x} > 0).long().mul(-3).float()'),
    'kwlist': op("{y} = torch.sum({x}, dim=[-1, 2], keepdim=True, dtype=torch.float32) * 0.1 + torch.std({x}, dim=(1,), correction=0, keepdim=True)"),
    'kwnone': op('{y} = {x} + torch.argmax({x}, dim=None, keepdim=False).float() * 0.01'),
    'brace': op("{y} = torch.einsum('abcd, abcd -> abcd', {x}, {x}) + torch.einsum('...ij->...ji', {x})"),
    'slstep': op('{y} = torch.cat([{x}[:, 1::2], {x}[:, :3:2]], 1) + {x}[:, -1:, -6:-1:5] + {x}[..., :-5, 2:3]'),
    'slshape': op('{y} = {x}[:, :{x}.shape[1] // 2].repeat(1, 2, 1, 1) + {x}[:, {x}.size(1) - 1:]'),
    'boolkw': op('{y} = F.softmax(torch.cumsum({x}, -1), -1, dtype=None) + F.layer_norm({x}, [6], None, None, 1e-3)'),
    'rollneg': op('{y} = torch.roll({x}, [-7, 3], [-1, 1]) - {x}.roll(5)'),
    'flipl': op('{y} = torch.flip({x}, dims=[-1, 1]) + torch.rot90({x}, -1, [2, 3])'),
    'add': op('{y} = {x} + {z}', ar=2),
    'sub_': op('{y} = torch.sub({x}, {z}, alpha=2)', ar=2),
    'mul': op('{y} = {x} * {z}', ar=2),
    'cat': op('{y} = torch.cat([{x}, {z}], 1)[:, 1:5]', ar=2),
    'mm2': op('{y} = torch.matmul({x}, {z})', ar=2),
    'bconv': op('{y} = self.c{i}(torch.cat((({x}), {z}), dim=1))', 'self.c{i} = nn.Conv2d(8, 4, 1)', ar=2),
    'minmax': op('{y} = torch.min({x}, {z}) + torch.maximum({x}, {z})', ar=2),
    'whr2': op('{y} = torch.where({x} > {z}, {x}, {z})', ar=2),
    'iadd2': op('{y} = {x} * 1\n{y} += {z}', ar=2),
}

SUB = '''class Leaf(nn.Module):
    def __init__(self, k=0.5):
        super().__init__()
        self.conv = nn.Conv2d(4, 4, 1)
        self.scale = nn.Parameter(torch.ones(4, 1, 1))
        self.k = k
    def forward(self, x, flag=True):
        return self.conv(x) * self.scale + self.k
class Sub(nn.Module):
    def __init__(self):
        super().__init__()
        self.a = Leaf(0.25)
        self.b = nn.Sequential(Leaf(), nn.ReLU())
    def forward(self, x):
        y = self.a(x, flag=False)
        return y + self.b(y)
'''

UNARY = [n for n, o in A.items() if o['ar'] == 1]
BINARY = [n for n, o in A.items() if o['ar'] == 2]
# one representative per code-generation feature class, for deeper sequences
REP = ['conv', 'shared', 'sub', 'lstm', 'irelu', 'iadd', 'rsub', 'param', 'chunk', 'splitloop', 'shape', 'max', 'ones', 'interp', 'cmp']
DAGU = ['conv', 'mrelu', 'iadd', 'chunk']
DAGB = ['add', 'cat', 'iadd2']

# Module-tree layouts: names that must stay distinct / valid after flattening.
LAYOUTS = {}


def layout(name, init, body, ret='y', helpers='', inputs=('x0',)):
    s = helpers + 'class M(nn.Module):\n    def __init__(self):\n        super().__init__()\n'
    s += ''.join(f'        {l}\n' for l in init)
    s += f'    def forward(self, {", ".join(inputs)}):\n' + ''.join(f'        {l}\n' for l in body) + f'        return {ret}\n'
    LAYOUTS[name] = s


def _mk_layouts():
    C = 'nn.Conv2d(4, 4, 1)'
    pairs = [
        ('a.0', 'a_0'), ('a_0', 'a.0'), ('a.b', 'a_b'), ('a.b.c', 'a_b.c'), ('a.b.c', 'a.b_c'), ('a_1', 'a'), ('a', 'a_1'),
        ('a.0', 'a.1'), ('conv2d', 'conv2d_1'), ('relu_0_f', 'b'), ('x0', 'input_1'), ('add_1_f', 'fc'), ('w', 'w_1'),
        ('a__b', 'a_b'), ('class_', 'def_'), ('features.0.conv', 'features_0_conv'), ('a.0.0', 'a.0.1'),
    ]
    def path_init(p, tag):
        parts = p.split('.')
        lines, cur = [], 'self'
        for q in parts[:-1]:
            lines.append((cur, q))
            cur = f'getattr({cur}, "{q}")'
        return lines, cur, parts[-1]
    for p, q in pairs:
        init, made = [], set()
        calls = []
        for k, path in enumerate((p, q)):
            parts = path.split('.')
            cur, name = 'self', ''
            for part in parts[:-1]:
                key = (cur, part)
                if key not in made:
                    box = 'nn.Sequential' if any(c.isnumeric() for pp in (p, q) for c in pp.split('.')[1:]) else 'nn.Module'
                    init.append(f'{cur}.add_module("{part}", {box}())')
                    made.add(key)
                cur = f'{cur}._modules["{part}"]'
            init.append(f'{cur}.add_module("{parts[-1]}", {C})')
            calls.append(f'{cur}._modules["{parts[-1]}"]')
        for order in ((0, 1), (1, 0)):
            body = ['y = x0']
            for k in order:
                body.append(f'y = {calls[k]}(y)')
                body.append('y = F.relu(y)')
                body.append('y = y + 1')
            layout(f'names:{p}|{q}:{order[0]}{order[1]}', init, body)
    # same module under two names, parameter sharing, parameters and buffers with colliding flattened names
    layout('alias', [f'self.a = {C}', 'self.b = self.a'], ['y = self.b(F.relu(self.a(x0)))'])
    layout('tied', [f'self.a = {C}', f'self.b = {C}', 'self.b.weight = self.a.weight'], ['y = self.b(F.relu(self.a(x0)))'])
    layout('pnames', ['self.a = nn.Module()', 'self.a.w = nn.Parameter(torch.ones(4, 1, 1))', 'self.a_w = nn.Parameter(torch.ones(4, 1, 1))'], ['y = x0 * self.a.w + self.a_w'])
    layout('pnames2', ['self.a = nn.Module()', 'self.a.w = nn.Parameter(torch.ones(4, 1, 1))', 'self.a_w = nn.Parameter(torch.ones(4, 1, 1))'], ['y = (x0 + self.a_w) * self.a.w'])
    layout('bnames', ['self.a = nn.Module()', 'self.a.register_buffer("w", torch.ones(4, 1, 1) * 3)', 'self.register_buffer("a_w", torch.ones(4, 1, 1) * 2)'], ['y = x0 * self.a.w + self.a_w'])
    layout('plist', ['self.ps = nn.ParameterList([nn.Parameter(torch.ones(4, 1, 1)) for _ in range(3)])'], ['y = x0', 'for p in self.ps: y = y * p + 0.1'])
    layout('plainattr', ['self.t = torch.full((4, 1, 1), 0.5)', 'self.k = 3'], ['y = x0 * self.t + self.k'])
    layout('reuse3', [f'self.a = {C}'], ['y = self.a(x0)', 'z = self.a(y)', 'y = self.a(y + z)'])
    layout('reuseblock', ['self.a = Sub()'], ['y = self.a(x0)', 'z = self.a(y)', 'y = y + z'], helpers=SUB)
    layout('varclash', [f'self.y = {C}', f'self.x0 = {C}'], ['y = self.y(x0)', 'x0 = self.x0(y)', 'y = y + x0'])
    layout('loop', [f'self.cs = nn.ModuleList([{C} for _ in range(12)])'], ['y = x0', 'for c in self.cs: y = c(y).tanh()'])
    layout('manyrelu', [], ['y = x0', 'for k in range(13): y = F.relu(y + 0.1 * k) - 0.05'])
    layout('overwrite', [], ['y = x0 + 1', 'z = y', 'y = y * 2', 'y = y + z'])
    layout('inplacealias', [], ['y = x0 * 2', 'z = y', 'y += 1', 'y = y * z'])
    layout('deadcode', [f'self.a = {C}', f'self.b = {C}'], ['d = self.b(x0)', 'y = self.a(x0)'])
    layout('constonly', ['self.w = nn.Parameter(torch.ones(4, 4, 1, 1))'], ['w = self.w * 2 + 1', 'y = F.conv2d(x0, w)'])
    layout('kwmod', ['self.a = Leaf(2.0)'], ['y = self.a(x=x0)'], helpers=SUB)
    # constants of modules that are changed after they have been constructed
    for expr, attrs in (
        ('nn.Conv2d(4, 4, 3, padding=1)', [('stride', '(2, 2)'), ('padding', '(0, 2)'), ('dilation', '(2, 1)')]),
        ('nn.MaxPool2d(4)', [('stride', '1'), ('padding', '1'), ('kernel_size', '3'), ('dilation', '2'), ('ceil_mode', 'True'), ('return_indices', 'False')]),
        ('nn.AvgPool2d(3, 2, 1)', [('stride', '1'), ('padding', '0'), ('kernel_size', '2'), ('ceil_mode', 'True'), ('count_include_pad', 'False')]),
        ('nn.LeakyReLU(0.5)', [('negative_slope', '0.25')]), ('nn.ELU(0.5)', [('alpha', '0.25')]), ('nn.CELU(0.5)', [('alpha', '0.25')]),
        ('nn.Hardtanh(-0.5, 0.5)', [('min_val', '-0.25'), ('max_val', '0.25')]), ('nn.Softplus(2)', [('beta', '3'), ('threshold', '1')]),
        ('nn.Softmax(1)', [('dim', '2')]), ('nn.GLU(1)', [('dim', '2')]), ('nn.Flatten()', [('start_dim', '2'), ('end_dim', '2')]),
        ('nn.LayerNorm(6)', [('eps', '0.5')]), ('nn.GroupNorm(2, 4)', [('eps', '0.5'), ('num_groups', '4')]), ('nn.BatchNorm2d(4)', [('eps', '0.5')]),
        ('nn.PixelShuffle(2)', [('upscale_factor', '1')]), ('nn.Hardshrink(0.5)', [('lambd', '0.2')]), ('nn.Softshrink(0.5)', [('lambd', '0.2')]),
        ('nn.LocalResponseNorm(2)', [('size', '3'), ('alpha', '0.5'), ('beta', '0.5'), ('k', '2.0')]), ('nn.Upsample(scale_factor=2)', [('mode', '"bilinear"'), ('scale_factor', '3.0')]),
        ('nn.ZeroPad2d(1)', [('padding', '(1, 0, 2, 0)')]), ('nn.ConstantPad2d(1, 0.5)', [('value', '0.25')]), ('nn.Threshold(0.5, 0.1)', [('threshold', '0.2'), ('value', '0.7')]),
        ('nn.CosineSimilarity(1)', [('dim', '2'), ('eps', '3.0')]), ('nn.AdaptiveAvgPool2d(3)', [('output_size', '2')]),
    ):
        for k, v in attrs:
            layout(f'setattr:{expr}.{k}', [f'self.a = {expr}', f'self.a.{k} = {v}'], ['y = self.a(x0, x0 * x0 + 1)' if 'Cosine' in expr else 'y = self.a(x0)'])
    layout('nograd', [f'self.a = {C}'], ['with torch.no_grad():', '    y = self.a(x0)', 'y = y * 2'])
    layout('functional_module', ['self.act = F.relu', f'self.a = {C}'], ['y = self.act(self.a(x0))'])
    layout('sizeint', [], ['n = x0.size(1) // 2', 'y = torch.cat([x0[:, n:], x0[:, :n]], 1)'])
    layout('sizeloop', [], ['y = x0[:, :1]', 'for k in range(1, x0.shape[1]): y = y + x0[:, k:k+1] * k'])
    layout('pyfloat', [], ['s = float(x0.shape[-1]) ** -0.5', 'y = x0 * s'])
    layout('mha', ['self.m = nn.MultiheadAttention(4, 2, batch_first=True)'], ['t = x0.flatten(2).transpose(1, 2)', 'y, _ = self.m(t, t, t)'])
    layout('floatfunctional', ['self.f = torch.ao.nn.quantized.FloatFunctional()', 'self.g = torch.ao.nn.quantized.FloatFunctional()'], ['y = self.f.add(x0, x0)', 'y = self.g.mul_scalar(y, 0.5)', 'y = self.g.cat([y, x0], 1)' if False else 'y = y'])


_mk_layouts()

# Signatures: several inputs / structured outputs.
SIGS = {}


def sig(name, inputs, body, ret, shapes, init=(), helpers=''):
    s = helpers + 'class M(nn.Module):\n    def __init__(self):\n        super().__init__()\n'
    s += ''.join(f'        {l}\n' for l in init)
    s += f'    def forward(self, {", ".join(inputs)}):\n' + ''.join(f'        {l}\n' for l in body) + f'        return {ret}\n'
    SIGS[name] = (s, shapes)


def _mk_sigs():
    S = [2, 4, 6, 6]
    rets = {
        'single': 'p', 'tuple2': 'p, q', 'tuple2r': 'q, p', 'list2': '[p, q]', 'nest': 'p, (q, r)',
        'dup': 'p, p', 'passin': 'x0, p', 'passin2': 'p, x1', 'one': '(p,)', 'chunkret': 'tuple(p.chunk(2, 1)) + (q,)', 'chunkret2': 'p.chunk(2, 1), q',
        'split_all': 'torch.split(p, 1, 1)', 'maxret': 'torch.max(p, 1)', 'mid': 'p, r, q',
        'nest1': 'p, [q]', 'nest1f': '[p], q', 'nest1l': '(p,), (q,)', 'nest1c': 'p, p[:1].chunk(1, 1)', 'nest1x': '(x0,), q', 'nest1m': '[r], p, [q]', 'nest3': '[p, q, r], r, (q,)',
    }
    for n, r in rets.items():
        for nin, ins in enumerate((['x0', 'x1'], ['x1', 'x0'])):
            sig(f'ret:{n}:{nin}', ins, ['p = x0 * 2 + 1', 'q = F.relu(p - x1)', 'r = torch.cat([q, x0], 1)'], r, [S, S])
    # all 3-input orders, unused inputs, integer/bool inputs, default args
    import itertools as it
    for perm in it.permutations(['x0', 'x1', 'x2']):
        sig('in3:' + ''.join(perm), list(perm), ['p = x0 - x1 * 2', 'q = p / (x2 * x2 + 1)'], 'q, p', [S, S, S])
    sig('unused_in', ['x0', 'x1'], ['p = x0 * 2'], 'p', [S, S])
    sig('unused_in0', ['x0', 'x1'], ['p = x1 * 2'], 'p', [S, S])
    sig('int_in', ['x0', 'x1'], ['p = x0 * x1.float()', 'q = self.e(x1)'], 'p, q', [S, (S, 'i')], init=['self.e = nn.Embedding(5, 3)'])
    sig('bool_in', ['x0', 'x1'], ['p = x0.masked_fill(x1, 0.5)', 'q = torch.where(~x1, x0, p * 2)'], 'p, q', [S, (S, 'b')])
    sig('default_arg', ['x0', 'k=2'], ['p = x0 * k'], 'p', [S])
    sig('lstm_states', ['x0', 'h', 'c'], ['y, (h1, c1) = self.r(x0, (h, c))'], 'y, h1, c1', [[2, 5, 6], [1, 2, 6], [1, 2, 6]], init=['self.r = nn.LSTM(6, 6, batch_first=True)'])
    sig('lstm2', ['x0'], ['y, s = self.r(x0)', 'z, s2 = self.r2(y, s)'], 'z, s2[0], s[1]', [[2, 5, 6]], init=['self.r = nn.LSTM(6, 6, num_layers=2, batch_first=True)', 'self.r2 = nn.LSTM(6, 6, num_layers=2, batch_first=True)'])
    sig('lstmcell', ['x0', 'h', 'c'], ['h1, c1 = self.r(x0, (h, c))', 'h2, c2 = self.r(h1, (h1, c1))'], 'h2, c1, c2', [[2, 6], [2, 6], [2, 6]], init=['self.r = nn.LSTMCell(6, 6)'])
    sig('lstm_nested', ['x0'], ['y = self.s(x0)'], 'y', [[2, 5, 6]], init=['self.s = S()'], helpers='''class S(nn.Module):
    def __init__(self):
        super().__init__()
        self.r = nn.LSTM(6, 6, batch_first=True)
        self.register_buffer('h', torch.ones(1, 2, 6))
        self.k = nn.Parameter(torch.ones(1, 2, 6))
    def forward(self, x):
        y, s = self.r(x, (self.h, self.k))
        return y + s[1].permute(1, 0, 2) + self.k.permute(1, 0, 2)
''')
    sig('grucell', ['x0', 'h'], ['for k in range(3): h = self.r(x0, h)'], 'h', [[2, 6], [2, 6]], init=['self.r = nn.GRUCell(6, 6)'])
    sig('rnn', ['x0'], ['y, h = self.r(x0)'], 'y * 2, h', [[2, 5, 6]], init=["self.r = nn.RNN(6, 4, num_layers=2, nonlinearity='relu', bidirectional=True, batch_first=True)"])
    sig('bidx', ['x0'], ['y = self.e(x0)', 'y = y.sum(1)'], 'y', [([2, 6], 'i')], init=['self.e = nn.Embedding(5, 3, padding_idx=0)'])
    sig('1d', ['x0'], ['y = self.b(self.c(x0))', 'y = self.p(y)'], 'y', [[2, 4, 9]], init=['self.c = nn.Conv1d(4, 6, 3, stride=2, padding=1)', 'self.b = nn.BatchNorm1d(6)', 'self.p = nn.MaxPool1d(2, ceil_mode=True)'])
    sig('3d', ['x0'], ['y = self.b(self.c(x0))', 'y = self.p(y)'], 'y', [[2, 2, 5, 6, 6]], init=['self.c = nn.Conv3d(2, 3, 3, padding=1)', 'self.b = nn.BatchNorm3d(3)', 'self.p = nn.AdaptiveAvgPool3d((2, 1, 3))'])
    sig('bilinear', ['x0', 'x1'], ['y = self.c(x0, x1)'], 'y', [[2, 4], [2, 3]], init=['self.c = nn.Bilinear(4, 3, 5)'])


_mk_sigs()

# Features the tracer drops silently (kept apart: one case each, see known_findings.jsonl).
LIM = {
    'setitem': (['y = x0 * 1', 'y[:, 0] = 0.5'], 'y'),
    'setitem_slice': (['y = x0 * 1', 'y[:, 1:3, 0] = x0[:, 0:2, 1]'], 'y'),
    'inplace_view': (['y = x0 * 2', 'z = y[:, :2]', 'z += 1', 'y = y * 3'], 'y'),
    'nested_output': (['p = x0 * 2', 'q = x0 + 1', 'r = x0 - 1'], '(p, [q, r]), q * 1'),
}

# Every constructor argument of every common torch.nn class away from its default, alone and together.
CTORS = []


def ctor(cls, req, opts, shapes, call='y = self.m(x0)', ret='y'):
    combos = [()] + [(o,) for o in opts]
    combos += list(itertools.combinations(opts, 2))
    if len(opts) > 2:
        combos.append(tuple(opts))
    for c in combos:
        keys = [o.split('=')[0] for o in c]
        if len(set(keys)) != len(keys):
            continue
        expr = f'nn.{cls}({", ".join([req] * bool(req) + list(c))})'
        CTORS.append((expr, shapes, call, ret))


def _mk_ctors():
    V = {1: [2, 4, 9], 2: [2, 4, 9, 9], 3: [2, 4, 6, 6, 6]}
    for d in (1, 2, 3):
        ctor(f'Conv{d}d', '4, 6, 3', ['stride=2', 'padding=1', 'dilation=2', 'groups=2', 'bias=False', "padding_mode='replicate'", "padding='same'"], [V[d]])
        ctor(f'ConvTranspose{d}d', '4, 6, 3', ['stride=2', 'padding=1', 'output_padding=1', 'groups=2', 'bias=False', 'dilation=2'], [V[d]])
        ctor(f'MaxPool{d}d', '3', ['stride=2', 'padding=1', 'dilation=2', 'ceil_mode=True'], [V[d]])
        ctor(f'MaxPool{d}d', '3, return_indices=True', ['stride=2'], [V[d]], call='y, i = self.m(x0)', ret='y, i')
        ctor(f'AvgPool{d}d', '3', ['stride=2', 'padding=1', 'ceil_mode=True', 'count_include_pad=False'] + (['divisor_override=2'] if d > 1 else []), [V[d]])
        ctor(f'BatchNorm{d}d', '4', ['eps=0.1', 'momentum=0.3', 'affine=False', 'track_running_stats=False'], [V[d]])
        ctor(f'InstanceNorm{d}d', '4', ['eps=0.1', 'momentum=0.3', 'affine=True', 'track_running_stats=True'], [V[d]])
        ctor(f'AdaptiveAvgPool{d}d', '2' if d < 3 else '(2, 1, None)', [], [V[d]])
        ctor(f'AdaptiveMaxPool{d}d', '2', [], [V[d]])
        ctor(f'ConstantPad{d}d', '1, 0.5', [], [V[d]])
        ctor(f'ReplicationPad{d}d', '1', [], [V[d]])
        ctor(f'ReflectionPad{d}d', '1', [], [V[d]])
        ctor(f'Dropout{d}d', '0.3', ['inplace=True'], [V[d]])
        if d < 3:
            ctor(f'LPPool{d}d', '2, 3', ['stride=2', 'ceil_mode=True'], [V[d]])
    ctor('Linear', '9, 5', ['bias=False'], [V[2]])
    ctor('Bilinear', '9, 9, 5', ['bias=False'], [V[2]], call='y = self.m(x0, x0 * 2)')
    ctor('ZeroPad2d', '(1, 0, 2, 1)', [], [V[2]])
    ctor('LayerNorm', '9', ['eps=0.1', 'elementwise_affine=False', 'bias=False'], [V[2]])
    ctor('LayerNorm', '(9, 9)', ['eps=0.1'], [V[2]])
    ctor('GroupNorm', '2, 4', ['eps=0.1', 'affine=False'], [V[2]])
    ctor('LocalResponseNorm', '3', ['alpha=0.1', 'beta=0.5', 'k=2.0'], [V[2]])
    ctor('Embedding', '5, 3', ['padding_idx=1', 'max_norm=0.5', 'norm_type=1.0', 'scale_grad_by_freq=True'], [([2, 6], 'i')])
    ctor('EmbeddingBag', '5, 3', ["mode='sum'", 'padding_idx=1', 'include_last_offset=False'], [([2, 6], 'i')])
    for r in ('LSTM', 'GRU', 'RNN'):
        o = ['num_layers=2', 'bias=False', 'batch_first=True', 'bidirectional=True', 'dropout=0.3']
        o += ['proj_size=2'] if r == 'LSTM' else ["nonlinearity='relu'"] if r == 'RNN' else []
        ctor(r, '9, 4', o, [V[1]], call='y, h = self.m(x0)')
    ctor('LSTMCell', '9, 4', ['bias=False'], [[2, 9]], call='y, h = self.m(x0)', ret='y, h')
    ctor('GRUCell', '9, 4', ['bias=False'], [[2, 9]])
    ctor('RNNCell', '9, 4', ['bias=False', "nonlinearity='relu'"], [[2, 9]])
    for c, o in {
        'ReLU': [], 'ReLU6': [], 'ELU': ['alpha=0.4'], 'CELU': ['alpha=0.4'], 'SELU': [], 'GELU': ["approximate='tanh'"], 'SiLU': [], 'Mish': [],
        'Hardtanh': ['min_val=-0.3', 'max_val=0.4'], 'Hardswish': [], 'Hardsigmoid': [], 'Sigmoid': [], 'Tanh': [], 'LogSigmoid': [], 'Softsign': [],
        'Tanhshrink': [], 'LeakyReLU': ['negative_slope=0.3'], 'PReLU': ['num_parameters=4', 'init=0.1'], 'RReLU': ['lower=0.2', 'upper=0.5'],
        'Softplus': ['beta=2', 'threshold=1'], 'Softshrink': ['lambd=0.2'], 'Hardshrink': ['lambd=0.2'], 'Softmax': ['dim=1'],
        'LogSoftmax': ['dim=1'], 'Softmin': ['dim=1'], 'Softmax2d': [], 'GLU': ['dim=2'], 'Identity': [], 'Flatten': ['start_dim=2', 'end_dim=2'],
        'Dropout': ['p=0.3', 'inplace=True'], 'AlphaDropout': ['p=0.3'], 'Unfold': ['dilation=2', 'padding=1', 'stride=2'],
    }.items():
        req = {'Unfold': '2'}.get(c, '')
        ctor(c, req, o, [[2, 4, 8, 8]])
    ctor('Threshold', '0.1, 20', [], [V[2]])
    ctor('Fold', '(8, 8), 2', ['stride=2', 'padding=1'], [[2, 4, 49]])
    ctor('Unflatten', '1, (2, 2)', [], [V[2]])
    ctor('PixelShuffle', '2', [], [V[2]])
    ctor('PixelUnshuffle', '2', [], [[2, 4, 8, 8]])
    ctor('ChannelShuffle', '2', [], [V[2]])
    for a in ('size=(5, 7)', 'scale_factor=2', 'scale_factor=(2.0, 1.5)'):
        ctor('Upsample', a, ["mode='nearest'", "mode='bilinear'", "mode='bicubic'", 'align_corners=True', 'recompute_scale_factor=True'], [V[2]])
    ctor('UpsamplingNearest2d', 'scale_factor=2', [], [V[2]])
    ctor('UpsamplingBilinear2d', 'size=(5, 7)', [], [V[2]])
    ctor('CosineSimilarity', '', ['dim=2', 'eps=0.1'], [V[2]], call='y = self.m(x0, x0 * x0)')
    ctor('PairwiseDistance', '', ['p=1.0', 'eps=0.1', 'keepdim=True'], [V[2]], call='y = self.m(x0, x0 * x0)')
    ctor('MultiheadAttention', '8, 2', ['bias=False', 'batch_first=True', 'add_zero_attn=True', 'kdim=8'], [[2, 5, 8]], call='y, w = self.m(x0, x0, x0)', ret='y, w')


_mk_ctors()


def cases(tier):
    S = [[2, 4, 6, 6]]
    quick = tier == 'quick'
    # depth 1 and 2: complete over the unary alphabet (quick: one of the two from the representatives)
    for d in (1, 2):
        for combo, st in chains(A, UNARY, d):
            rep = sum(c in REP for c in combo)
            if d == 2 and quick and not rep:
                continue
            src = source(st, helpers=SUB)
            yield f'u{d}:' + '>'.join(combo), {'src': src, 'shapes': S}
            # constructors caught while the model is built (the documented usage)
            if d == 1 or not quick or rep == 2:
                yield f'u{d}c:' + '>'.join(combo), {'src': src, 'shapes': S, 'caught': True}
    # depth 3 over one representative per feature class
    for combo, st in chains(A, REP if not quick else REP[:9], 3):
        yield 'u3:' + '>'.join(combo), {'src': source(st, helpers=SUB), 'shapes': S}
    # binary alphabet, depth 1 with every unary producer, all operand choices
    for b in BINARY:
        for u in UNARY:
            for a0, a1 in (('x0', 'v0'), ('v0', 'x0'), ('v0', 'v0')):
                st = [(A[u], ['x0']), (A[b], [a0, a1])]
                yield f'b:{u}>{b}({a0},{a1})', {'src': source(st, helpers=SUB), 'shapes': S}
    # all DAGs
    for d in (2, 3) if quick else (2, 3, 4):
        du, db = (DAGU, DAGB) if d < 3 else (DAGU[1:3], DAGB[:2]) if d == 3 else (DAGU[2:3], DAGB[:2])
        for names, st, outs in dags(A, du, db, d):
            src = source(st, helpers=SUB, ret=', '.join(outs))
            yield f'd{d}:' + ';'.join(names), {'src': src, 'shapes': S}
    for d in (2,):
        for names, st, outs in dags(A, ['mrelu', 'iadd'], ['add', 'cat', 'iadd2', 'sub_'], d, inputs=('x0', 'x1')):
            src = source(st, helpers=SUB, ret=', '.join(outs), inputs=('x0', 'x1'))
            yield f'd2i{d}:' + ';'.join(names), {'src': src, 'shapes': S * 2}
    for n, s in LAYOUTS.items():
        for mode in ('gen', 'check', 'commit', 'twice'):
            if n != 'mha':  # the constructor of nn.MultiheadAttention can only be caught, not recovered
                yield f'lay:{mode}:{n}', {'src': s, 'shapes': S, 'mode': mode}
            yield f'layc:{mode}:{n}', {'src': s, 'shapes': S, 'mode': mode, 'caught': True}
    for n, (s, sh) in SIGS.items():
        for mode in ('gen', 'check', 'commit', 'twice'):
            yield f'sig:{mode}:{n}', {'src': s, 'shapes': sh, 'mode': mode}
            yield f'sigc:{mode}:{n}', {'src': s, 'shapes': sh, 'mode': mode, 'caught': True}
    for n, (body, ret) in LIM.items():
        yield f'lim:{n}', {'src': source([(op('\n'.join(body)), [])], ret=ret), 'shapes': S}
    for expr, sh, call, ret in CTORS:
        src = source([(op(call.replace('{', '{{'), f'self.m = {expr}'.replace('{', '{{')), [])], ret=ret)
        for c in (False, True):
            if not c and 'MultiheadAttention' in expr:
                continue
            yield f'ctor{"c" * c}:{expr}', {'src': src, 'shapes': sh, 'caught': c}
    # training-mode models and a sample of structures under every generation mode
    for u in UNARY:
        for mode in ('train', 'check', 'commit', 'twice'):
            yield f'm:{mode}:{u}', {'src': source([(A[u], ['x0']), (A['conv'], ['v0'])], helpers=SUB), 'shapes': S, 'mode': mode}


def run_case(p):
    lib.quiet_tinynn()
    from tinynn.graph.tracer import model_tracer

    mode = p.get('mode', 'gen')
    try:
        m = lib.build(p['src'])
    except Exception as e:
        return {'status': 'reject', 'detail': f'not a valid PyTorch module: {str(e)[:100]}'}
    if p.get('caught'):
        with model_tracer():
            return _roundtrip(lib.build(p['src']), p, mode)
    return _roundtrip(m, p, mode)


def _tree(o):
    """Nesting of the outputs; lists are tuples and a single output is not wrapped."""
    if isinstance(o, (tuple, list)) and len(o) == 1:
        return _tree(o[0])
    return _nest(o)


def _nest(o):
    return [_nest(x) for x in o] if isinstance(o, (tuple, list)) else type(o).__name__.replace('Parameter', 'Tensor')


def _roundtrip(m, p, mode):
    from tinynn.graph.tracer import model_tracer, trace
    from tinynn.util.util import import_from_path

    m.train(mode == 'train')
    if mode != 'train':
        m.eval()
    ins = [lib.gen_inputs(p['shapes'], k) for k in range(3)]
    clone = lambda ts: [t.clone() for t in ts]
    ref = copy.deepcopy(m).eval()
    with torch.no_grad():
        try:
            want = [ref(*clone(x)) for x in ins]
        except Exception as e:
            return {'status': 'reject', 'detail': f'not a valid PyTorch program: {str(e)[:100]}'}
    with model_tracer():
        try:
            g = trace(m, clone(ins[0]) if len(ins[0]) > 1 else ins[0][0].clone())
        except SystemExit:
            return {'status': 'fail', 'detail': 'tracing a supported program failed'}
        if mode == 'commit':
            g.inplace_commit()
            new = m
        elif mode == 'check':
            name = lib.uniq('Gen')
            import os
            try:
                valid = g.generate_code(lib.scratch(name + '.py'), lib.scratch(name + '.pth'), name, check=True)
                new = import_from_path('mcgen.' + name, lib.scratch(name + '.py'), name)()
                new.load_state_dict(torch.load(lib.scratch(name + '.pth')))
            finally:
                for e in ('.py', '.pth'):
                    if os.path.exists(lib.scratch(name + e)):
                        os.unlink(lib.scratch(name + e))
        else:
            new = lib.reload_generated(g)
            if mode == 'twice':
                new.eval()
                g2 = trace(new, clone(ins[0]) if len(ins[0]) > 1 else ins[0][0].clone())
                new = lib.reload_generated(g2)
        kinds = [str(n.kind() if isinstance(n.kind(), str) else n.kind().__name__) for n in g.forward_nodes]
        if mode == 'check' and valid is not True:
            return {'status': 'fail', 'detail': 'generate_code(check=True) reports a mismatch'}
        sigtxt = '|'.join(kinds) + f'#{len(g.input_nodes)},{len(g.output_nodes)},{len(g.constant_nodes)},{len(g.other_init_nodes)}'
    new.eval()
    with torch.no_grad():
        for k in range(3):
            got = new(*clone(ins[k]))
            d = lib.compare(got, want[k], rtol=1e-4, atol=1e-5)
            if not d and _tree(got) != _tree(want[k]):
                d = f'structure of the outputs: {_tree(got)} instead of {_tree(want[k])}'
            if d:
                return {'status': 'fail', 'detail': f'input set {k}: {d}', 'sig': lib.sha(sigtxt)[:12]}
    return {'status': 'ok', 'sig': lib.sha(sigtxt)[:12], 'steps': len(kinds), 'nontrivial': len(kinds) > 0}
