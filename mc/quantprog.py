"""Programs for the quantization checks, and running the real quantizers on them."""
import copy
import os

import torch
import torch.nn as nn

from . import convprog, lib

BN = '(nn.BatchNorm2d if {d} == 4 else nn.BatchNorm1d)({c})'
FM = 'self.m{i}({x})'
NEW = {
    # several values of one operator
    'vmadd': 'torch.add(*torch.var_mean({x}, 1, unbiased=False, keepdim=True))', 'vmcat': 'torch.cat(torch.var_mean({x}, 1, unbiased=False, keepdim=True), 1)', 'vmstack': 'torch.stack(torch.var_mean({x}, 1, unbiased=False, keepdim=True), 1)', 'vmmul': 'torch.mul(*torch.std_mean({x}, -1, unbiased=False, keepdim=True))', 'spstack': 'torch.stack(torch.split({x}, 1, 1), 2)', 'ubstack': 'torch.stack({x}.unbind(1), -1)',
    'spcat': 'torch.cat(torch.chunk({x}, 2, 1)[::-1], 1)', 'spsub': '(lambda a, b: a - F.relu(b))(*torch.chunk({x}, 2, 1))', 'amcat': 'torch.cat(torch.aminmax({x}, dim=1, keepdim=True), 1)', 'maxcat': 'torch.cat([torch.max({x}, 1, keepdim=True)[0], torch.topk({x}, 2, 1)[0]], 1)',
    # layers
    'conv': (FM, 'r4(nn.Conv2d({c}, 4, 3, padding=1))'), 'convnb': (FM, 'nn.Conv2d({c}, 6, 1, bias=False)'), 'convst': (FM, 'nn.Conv2d({c}, 4, 3, stride=2, padding=1)'),
    'dw': (FM, 'nn.Conv2d({c}, {c}, 3, padding=1, groups={c})'), 'gconv': (FM, 'nn.Conv2d({c}, 4, 1, groups=2)'), 'convrep': (FM, 'nn.Conv2d({c}, 4, 3, padding=1, padding_mode="replicate")'),
    'convup': (FM, 'nn.Conv2d({c}, 4, 3)'), 'dwup': (FM, 'nn.Conv2d({c}, {c}, 2, groups={c}, bias=False)'), 'convdil': (FM, 'nn.Conv2d({c}, 4, 3, padding=2, dilation=2)'), 'deconv': (FM, 'nn.ConvTranspose2d({c}, 4, 2, stride=2)'), 'deconvnb': (FM, 'nn.ConvTranspose2d({c}, 6, 3, padding=1, bias=False)'),
    'deconvg': (FM, 'nn.ConvTranspose2d({c}, 4, 2, stride=2, groups=2)'), 'deconvop': (FM, 'nn.ConvTranspose2d({c}, 4, 3, stride=2, padding=1, output_padding=1)'),
    'conv1': (FM, 'nn.Conv1d({c}, 4, 3, padding=1)'), 'conv1nb': (FM, 'nn.Conv1d({c}, 6, 1, bias=False)'), 'deconv1': (FM, 'nn.ConvTranspose1d({c}, 4, 2, stride=2)'), 'deconv1nb': (FM, 'nn.ConvTranspose1d({c}, 4, 2, stride=2, bias=False)'),
    'lin': (FM, 'nn.Linear({l}, 4)'), 'linnb': (FM, 'nn.Linear({l}, 6, bias=False)'), 'bn': (FM, BN), 'bnna': (FM, BN[:-1] + ', affine=False)'), 'bneps': (FM, BN[:-1] + ', eps=0.1, momentum=0.3)'),
    'ln': (FM, 'nn.LayerNorm({l})'), 'lnnb': (FM, 'nn.LayerNorm({l}, bias=False)'), 'lnna': (FM, 'nn.LayerNorm({l}, elementwise_affine=False)'), 'ln2': (FM, 'nn.LayerNorm([{c}, {l}] if {d} == 3 else [{l}])'), 'rms': (FM, 'nn.RMSNorm({l})'),
    'gn': (FM, 'nn.GroupNorm(2, {c})'), 'insn': (FM, 'nn.InstanceNorm2d({c}, affine=True)'), 'conv3d': (FM, 'nn.Conv3d({c}, 4, 1)'),
    # activations
    'relum': (FM, 'nn.ReLU()'), 'reluin': (FM, 'nn.ReLU(inplace=True)'), 'relu6m': (FM, 'nn.ReLU6()'), 'relu': 'F.relu({x})', 'relufi': 'F.relu({x} * 1.0, inplace=True)', 'trelu': '{x}.relu()', 'torelu_': '({x} + 0.0).relu_()',
    'relu6': 'F.relu6({x})', 'lrelud': 'F.leaky_relu({x})', 'lrelu': 'F.leaky_relu({x}, 0.2)', 'lreluk': 'F.leaky_relu({x}, negative_slope=0.3)', 'lrelum': (FM, 'nn.LeakyReLU(0.4)'), 'elud': 'F.elu({x})', 'elu': 'F.elu({x}, 0.5)', 'eluk': 'F.elu({x}, alpha=1.7)',
    'elum': (FM, 'nn.ELU(0.7)'), 'prelum': (FM, 'nn.PReLU({c})'), 'prelu1': (FM, 'nn.PReLU()'), 'preluf': ('F.prelu({x}, self.p{i})', 'P(({c},))'), 'prelufk': ('F.prelu({x}, weight=self.p{i})', 'P(({c},))'), 'preluf1': ('F.prelu({x}, self.p{i})', 'P((1,))'), 'preluzz': ('F.prelu(F.prelu({x}, self.p{i}) - 0.2, self.p{i})', 'P((1,))'),
    'silu': 'F.silu({x})', 'silum': (FM, 'nn.SiLU()'), 'siluin': 'F.silu({x} * 1.0, inplace=True)', 'hsw': 'F.hardswish({x})', 'hswm': (FM, 'nn.Hardswish()'), 'hsig': 'F.hardsigmoid({x})', 'hsigm': (FM, 'nn.Hardsigmoid()'), 'sig': 'torch.sigmoid({x})', 'sigm': (FM, 'nn.Sigmoid()'), 'tsig': '{x}.sigmoid()',
    'tanh': 'torch.tanh({x})', 'tanhm': (FM, 'nn.Tanh()'), 'gelu': 'F.gelu({x})', 'glu': 'F.glu({x})', 'glu1': 'F.glu({x}, 1)', 'gluk': 'F.glu({x}, dim=1)', 'glum': (FM, 'nn.GLU(1)'), 'softp': 'F.softplus({x})',
    'clamp06': 'torch.clamp({x}, 0, 6)', 'clamp06k': '{x}.clamp(min=0., max=6.)', 'clamp0': 'torch.clamp({x}, 0)', 'clamp0k': '{x}.clamp(min=0.0)', 'clampx': 'torch.clamp({x}, max=0.4)', 'clampn': 'torch.clamp({x}, min=-0.3)', 'clampnx': 'torch.clamp({x}, -0.4, 0.6)',
    'clampxk': '{x}.clamp(max=0.6, min=-0.4)', 'clamp_': '({x} * 1.0).clamp_(-0.2, 0.5)', 'clamp0_': '({x} * 1.0).clamp_(min=0)', 'clamp06_': '({x} * 1.0).clamp_(0, 6)', 'clmin': 'torch.clamp_min({x}, 0.)', 'clmin1': '{x}.clamp_min(-0.1)', 'clmax': '{x}.clamp_max(0.5)', 'hardt': 'F.hardtanh({x}, -0.5, 0.5)',
    # arithmetic with scalars
    'addk': '{x} + 1.5', 'addi': '{x} + 2', 'radd': '3 + {x}', 'raddf': '0.25 + {x}', 'addm': '{x}.add(0.5)', 'addal': 'torch.add({x}, 2, alpha=3)', 'iaddk': 'torch.Tensor.__iadd__({x} * 1.0, 0.5)', 'adde': '{x} + 1e-5', 'radde': '1e-5 + {x}',
    'subk': '{x} - 1.5', 'subi': '{x} - 2', 'subneg': '{x} - (-0.5)', 'rsub': '1.0 - {x}', 'rsubi': '3 - {x}', 'rsubn': '-2.5 - {x}', 'sube': '{x} - 1e-5', 'rsube': '1e-5 - {x}', 'subal': 'torch.sub({x}, 2, alpha=3)', 'submm': '{x}.sub(0.75)', 'isub': '({x} * 1.0).sub_(0.5)', 'rsubf': 'torch.rsub({x}, 2.5)', 'rsubal': 'torch.rsub({x}, 2.5, alpha=2)',
    'mulk': '{x} * 0.3', 'muli': '{x} * 3', 'rmul': '0.7 * {x}', 'rmuli': '-2 * {x}', 'mulm': '{x}.mul(0.5)', 'imul': '({x} + 0.0).mul_(0.5)', 'mule': '{x} * 1e-2', 'rmule': '1e-2 * {x}',
    'divk': '{x} / 2.5', 'divi': '{x} / 3', 'divn': '{x} / -4', 'dive': '{x} / 1e-2', 'divse': '{x} / 1e-5', 'divm': '{x}.div(1.5)', 'divf': 'torch.div({x}, 7)', 'div_': '({x} * 1.0).div_(3.0)', 'divr': 'torch.div({x}, 2, rounding_mode="floor")', 'rdiv': '2.0 / ({x} * {x} + 1.0)', 'fdiv': '{x} // 0.5',
    'neg': '-{x}', 'negf': 'torch.neg({x})', 'negm': '{x}.neg()', 'neg_': '({x} * 1.0).neg_()', 'pow2': '{x} ** 2', 'powf': 'torch.pow({x}, 2)', 'square': 'torch.square({x})', 'sqrt': 'torch.sqrt({x} * {x} + 1.0)', 'rsqrt': 'torch.rsqrt({x} * {x} + 1.0)', 'sqrec': '1.0 / torch.sqrt({x} * {x} + 1.0)', 'exp': 'torch.exp({x} * 0.3)', 'log': 'torch.log({x} * {x} + 1.0)', 'abs': 'torch.abs({x})', 'sin': 'torch.sin({x})', 'rec': 'torch.reciprocal({x} * {x} + 1.0)',
    # with constants
    'addc': ('{x} + self.p{i}', 'P(({c},) + (1,) * max({d} - 2, 0))'), 'mull': ('{x} * self.p{i}', 'P(({l},))'), 'subp': ('{x} - self.p{i}', 'P(({e},))'), 'prsub': ('self.p{i} - {x}', 'P(({e},))'), 'mulp0': ('{x} * self.p{i}', 'P((1,))'), 'catc': ('torch.cat([{x}, self.p{i}], 1)', 'P(({e},))'), 'mmc': ('torch.matmul({x}, self.p{i})', 'P(({l}, 4))'), 'addt': '{x} + torch.ones(1)', 'mult': '{x} * torch.tensor([0.5])', 'addsz': '{x} + {x}.size(0)', 'mulsz': '{x} * {x}.shape[1]', 'divsz': '{x} / {x}.shape[1]',
    # self joins
    'res': '{x} + torch.tanh({x})', 'resr': 'F.relu({x} + torch.sigmoid({x}))', 'addself': '{x} + {x}', 'swish': '{x} * torch.sigmoid({x})', 'cat1': 'torch.cat([{x}, {x}], 1)', 'catr': 'torch.cat([{x}, F.relu({x})], dim=1)', 'catl': 'torch.cat([{x}, -{x}], -1)', 'cat3': 'torch.cat((F.relu({x}), {x}, {x} * 0.5), axis=1)', 'stack': 'torch.stack([{x}, {x} * 2])', 'stack1': 'torch.stack([{x}, F.relu({x})], dim=1)', 'stackl': 'torch.stack([{x}, {x}], -1)', 'stackax': 'torch.stack([{x}, F.relu({x})], axis=-2)',
    'mulex': '{x} * {x}.mean([-1, -2], keepdim=True)', 'rsubex': '{x}.mean(1, keepdim=True) - {x}', 'addex': '{x}[:, :1] + {x}', 'bmm': 'torch.matmul({x}, {x}.transpose(-1, -2))', 'isum': '({x} * 1.0).add_({x})', 'iand': 'torch.Tensor.__iadd__(F.relu({x}), {x})', 'addalx': 'torch.add({x}, F.relu({x}), alpha=2)', 'subalx': 'torch.sub({x}, F.relu({x}), alpha=2)',
    'rconv': ('{x} + self.m{i}({x})', 'nn.Conv2d({c}, {c}, 3, padding=1)'), 'rlin': ('F.relu(self.m{i}({x}) + {x})', 'nn.Linear({l}, {l})'), 'se': ('{x} * torch.sigmoid(self.m{i}(F.adaptive_avg_pool2d({x}, 1)))', 'nn.Conv2d({c}, {c}, 1)'), 'twice': ('self.m{i}(F.relu(self.m{i}({x})))', 'nn.Conv2d({c}, {c}, 3, padding=1)'), 'twicebr': ('self.m{i}(self.m{i}({x}))', 'nn.Sequential(nn.Conv2d({c}, {c}, 1), nn.BatchNorm2d({c}), nn.ReLU())'),
    # fusion with a second user of the intermediate
    'cb2': ('(lambda a: self.m{i}[1](a) + a)(self.m{i}[0]({x}))', 'nn.Sequential(nn.Conv2d({c}, 4, 1), nn.BatchNorm2d(4))'), 'cr2': ('(lambda a: F.relu(a) * 2 + a)(self.m{i}({x}))', 'nn.Conv2d({c}, 4, 1)'), 'cbr2': ('(lambda a: torch.cat([F.relu(a), a], 1))(self.m{i}({x}))', 'nn.Sequential(nn.Conv2d({c}, 4, 1), nn.BatchNorm2d(4))'), 'lr2': ('(lambda a: torch.cat([F.relu(a), a], -1))(self.m{i}({x}))', 'nn.Linear({l}, 4)'), 'ar2': '(lambda a: torch.cat([F.relu(a), a], 1))({x} + torch.tanh({x}))',
    'db2': ('(lambda a: self.m{i}[1](a) + a)(self.m{i}[0]({x}))', 'nn.Sequential(nn.ConvTranspose2d({c}, 4, 2, stride=2), nn.BatchNorm2d(4))'), 'lb2': ('(lambda a: self.m{i}[1](a) + a)(self.m{i}[0]({x}))', 'nn.Sequential(nn.Linear({l}, 4), nn.BatchNorm1d(4))'), 'bc2': ('(lambda a: self.m{i}[1](a) + a)(self.m{i}[0]({x}))', 'nn.Sequential(nn.BatchNorm2d({c}), nn.Conv2d({c}, {c}, 1))'),
    'ci': (FM, 'nn.Sequential(nn.Conv2d({c}, 4, 1), nn.Identity(), nn.BatchNorm2d(4), nn.Dropout(0.5), nn.ReLU())'), 'cdr': (FM, 'nn.Sequential(nn.Conv2d({c}, 4, 1), nn.Dropout2d(0.5), nn.ReLU6())'),
    # pooling and layout
    'avgp': 'F.avg_pool2d({x}, 2)', 'avgpm': (FM, 'nn.AvgPool2d(3, 2, 1)'), 'avgpnc': 'F.avg_pool2d({x}, 3, 1, 1, count_include_pad=False)', 'maxp': 'F.max_pool2d({x}, 2)', 'maxpm': (FM, 'nn.MaxPool2d(3, 2, 1)'), 'gap': 'F.adaptive_avg_pool2d({x}, 1)', 'gapm': (FM, 'nn.AdaptiveAvgPool2d(2)'), 'mp1': 'F.max_pool2d({x}, 1)', 'mp12': 'F.max_pool2d({x}, 1, 2)', 'mp1m': (FM, 'nn.MaxPool2d((1, 1), (2, 1))'), 'ap12k': 'F.avg_pool2d({x}, kernel_size=1, stride=2)', 'ap1m': (FM, 'nn.AvgPool2d(1, 2)'), 'mp1d': (FM, 'nn.MaxPool1d(1, 2)'), 'mp1c': (FM, 'nn.MaxPool2d(1, 2, ceil_mode=True)'), 'maxp1': (FM, 'nn.MaxPool1d(2)'), 'avgp1': (FM, 'nn.AvgPool1d(2)'),
    'flat': 'torch.flatten({x}, 1)', 'flatm': (FM, 'nn.Flatten()'), 'vw': '{x}.view({x}.size(0), -1)', 'rs': '{x}.reshape({x}.shape[0], -1)', 'perm': '{x}.permute({rot})', 'tr': '{x}.transpose(1, -1)', 'sq': '{x}.unsqueeze(1).squeeze(1)', 'sl': '{x}[:, 1:3]', 'sel': '{x}[:, 0]', 'selk': '{x}[..., :1]', 'chs': 'torch.add(*torch.chunk({x}, 2, 1))', 'chc': 'torch.cat([y * 0.5 for y in torch.chunk({x}, 2, dim=1)], 1)', 'spl': 'torch.cat([F.relu(y) for y in torch.split({x}, 2, 1)], 1)', 'unb': 'torch.unbind({x}, 1)[1]',
    'pad': 'F.pad({x}, (1, 1, 1, 1))', 'padc': 'F.pad({x}, (1, 0), value=0.5)', 'padm': (FM, 'nn.ZeroPad2d(1)'), 'padcm': (FM, 'nn.ConstantPad2d(1, 0.3)'), 'padr': 'F.pad({x}, (1, 1, 1, 1), mode="reflect")', 'padt': 'F.pad({x}.transpose(1, 2), (1, 1))', 'interp': 'F.interpolate({x}, scale_factor=2)', 'interpb': 'F.interpolate({x}, size=(5, 5), mode="bilinear")', 'ups': (FM, 'nn.Upsample(scale_factor=2, mode="bilinear", align_corners=True)'), 'ps': (FM, 'nn.PixelShuffle(2)'),
    'drop': 'F.dropout({x}, 0.5, training=self.training)', 'dropf': 'F.dropout({x}, training=False)', 'dropm': (FM, 'nn.Dropout(0.3)'), 'idm': (FM, 'nn.Identity()'), 'clone': '{x}.clone()', 'contig': '{x}.contiguous()', 'det': '{x}.detach()', 'data': '{x}.data', 'shapes': '{x}.view({x}.shape)', 'expd': '{x}.unsqueeze(0).expand(2, {e})', 'rep': '{x}.repeat({ones}2)',
    'mean1': '{x}.mean(1)', 'meanhw': '{x}.mean([-1, -2])', 'meank': '{x}.mean(-1, keepdim=True)', 'sum': '{x}.sum(-1)', 'suml': 'torch.sum({x}, dim=1, keepdim=True)', 'max': 'torch.max({x}, 1)[0]', 'amax': '{x}.amax(1)', 'softm': 'torch.softmax({x}, -1)', 'softmm': (FM, 'nn.Softmax(1)'), 'lsoft': 'F.log_softmax({x}, dim=1)', 'std': 'torch.std({x}, -1)', 'norm': 'torch.norm({x}, dim=-1)', 'cumsum': 'torch.cumsum({x}, 1)', 'argm': 'torch.argmax({x}, 1).float()', 'where': 'torch.where({x} > 0, {x}, {x} * 0.1)', 'toint': '{x}.int().float()', 'masked': '{x} * ({x} > 0).float()',
    'lstm': ('self.m{i}({x})[0]', 'r3(nn.LSTM({l}, 4))'), 'lstmbf': ('self.m{i}({x})[0]', 'r3(nn.LSTM({l}, 4, batch_first=True))'), 'bilstm': ('self.m{i}({x})[0]', 'r3(nn.LSTM({l}, 3, bidirectional=True))'), 'lstm2': ('self.m{i}({x})[0]', 'r3(nn.LSTM({l}, 3, num_layers=2))'), 'lstmh': ('self.m{i}({x})[1][0]', 'r3(nn.LSTM({l}, 4))'), 'gru': ('self.m{i}({x})[0]', 'r3(nn.GRU({l}, 4))'), 'grubf': ('self.m{i}({x})[0]', 'r3(nn.GRU({l}, 4, batch_first=True))'), 'bigru2': ('self.m{i}({x})[0]', 'r3(nn.GRU({l}, 3, num_layers=2, bidirectional=True))'), 'gruh': ('self.m{i}({x})[1]', 'r3(nn.GRU({l}, 4))'), 'rnn': ('self.m{i}({x})[0]', 'r3(nn.RNN({l}, 4))'), 'grunb': ('self.m{i}({x})[0]', 'r3(nn.GRU({l}, 4, bias=False))'),
    # parameters of layers
    'wshare': ('F.linear(self.m{i}({x}), self.m{i}.weight.t())', 'nn.Linear({l}, 4, bias=False)'), 'flin': ('F.linear({x}, self.p{i})', 'P((4, {l}))'), 'fconv': ('F.conv2d({x}, self.p{i}, padding=1)', 'P((4, {c}, 3, 3))'), 'fbn': ('F.batch_norm({x}, self.m{i}.running_mean, self.m{i}.running_var, self.m{i}.weight, self.m{i}.bias)', 'nn.BatchNorm2d({c})'), 'emb': ('self.m{i}(({x}.abs() * 3).long().clamp(max=7))', 'nn.Embedding(8, 4)'),
    # binary
    'add': '{x} + {z}', 'addf': 'torch.add({x}, {z})', 'addr': 'F.relu({x} + {z})', 'iadd': 'torch.Tensor.__iadd__({x} * 1.0, {z})', 'sub': '{x} - {z}', 'subf': 'torch.sub({x}, {z})', 'mul': '{x} * {z}', 'div': '{x} / ({z} * {z} + 1.0)', 'catz': 'torch.cat([{x}, {z}], 1)', 'catzr': 'torch.cat([{z}, {x}, {z}], dim=-1)', 'stackz': 'torch.stack([{x}, {z}], 1)', 'maxi': 'torch.maximum({x}, {z})', 'mm': 'torch.matmul({x}, {z}.transpose(-1, -2))', 'addrm': ('self.m{i}({x} + {z})', 'nn.ReLU()'), 'addr6': 'F.relu6({x} + {z})', 'addcl': 'torch.clamp({x} + {z}, -0.5, 0.5)', 'mulr': 'F.relu({x} * {z})', 'addal2': 'torch.add({x}, {z}, alpha=0.5)', 'addcm': 'torch.addcmul({x}, {z}, {z}, value=0.5)',
}
OPS = dict(convprog.OPS, **NEW)
BIN = ('add', 'addf', 'addr', 'iadd', 'sub', 'subf', 'mul', 'div', 'catz', 'catzr', 'stackz', 'maxi', 'mm', 'addrm', 'addr6', 'addcl', 'mulr', 'addal2', 'addcm')
SHAPES = {'i': [2, 4, 6, 6], 's': [2, 4, 6], 'v': [3, 6], 'q': [3, 2, 4]}


class _Fmt(dict):
    pass


def make(st, outs, xs, text, inputs=None):
    """-> (model, source); statements use code strings of OPS"""
    ops = {o: OPS[o] for o, _ in st}
    for o, v in ops.items():
        code = v if isinstance(v, str) else v[0]
        if '{rot}' in code:
            ops[o] = '{x}.permute(0, *range(2, {x}.dim()), 1)' if isinstance(v, str) else v
    inputs = inputs or [f'x{k}' for k in range(len(xs))]
    model, src = convprog.make(st, outs, inputs, xs, text, ops=ops, env={'r3': _rank(3), 'r4': _rank(4)})
    return model, src


def _rank(n):
    def f(m):
        return m

    return f


def chain(names):
    st, cur = [], 'x0'
    for k, n in enumerate(names):
        st.append([n, [cur]])
        cur = f'v{k}'
    return st


def quantizer(kind, model, dummy, cfg, d=None):
    from tinynn.graph.quantization.quantizer import PostQuantizer, QATQuantizer

    d = d or lib.scratch(lib.uniq('q'))
    os.makedirs(d, exist_ok=True)
    return (PostQuantizer if kind == 'ptq' else QATQuantizer)(model, dummy, work_dir=d, config=cfg)


def fq_off(m):
    m.apply(torch.quantization.disable_fake_quant)


def sqnr_close(got, want, rtol, atol):
    g, w = lib.flatten(got), lib.flatten(want)
    if len(g) != len(w):
        return f'{len(g)} outputs instead of {len(w)}'
    for i, (a, b) in enumerate(zip(g, w)):
        if a.shape != b.shape:
            return f'output {i} has shape {tuple(a.shape)} instead of {tuple(b.shape)}'
        d = (a.double() - b.double()).abs()
        if not bool((d <= atol + rtol * b.double().abs().max()).all()):
            return f'output {i} is {a.flatten()[d.flatten().argmax()].item():.6g} where {b.flatten()[d.flatten().argmax()].item():.6g} is expected (max {b.abs().max().item():.4g})'
    return None


def err(e):
    from .checks.p01 import lib_err

    return lib_err(e)


def restate(model):
    return {k: v.clone() for k, v in model.state_dict().items()}


def clone(m):
    return copy.deepcopy(m)
