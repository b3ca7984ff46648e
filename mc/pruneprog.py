"""Networks for the pruning checks, and the inference of what pruning removed."""
import copy

import torch
import torch.nn as nn

from . import convprog, lib

OPS = {
    # centres
    'conv': ('self.m{i}({x})', 'r4(nn.Conv2d({c}, 8, 3, padding=1), {d})'), 'convb': ('self.m{i}({x})', 'r4(nn.Conv2d({c}, 12, 1, bias=False), {d})'),
    'gconv': ('self.m{i}({x})', 'r4(nn.Conv2d({c}, 8, 3, padding=1, groups=2), {d})'), 'gconv4': ('self.m{i}({x})', 'r4(nn.Conv2d({c}, 16, 1, groups=4), {d})'),
    'dconv': ('self.m{i}({x})', 'r4(nn.ConvTranspose2d({c}, 8, 2, stride=2), {d})'), 'dconvg': ('self.m{i}({x})', 'r4(nn.ConvTranspose2d({c}, 8, 2, stride=2, groups=2), {d})'),
    'dw': ('self.m{i}({x})', 'r4(nn.Conv2d({c}, {c}, 3, padding=1, groups={c}), {d})'), 'dwm': ('self.m{i}({x})', 'r4(nn.Conv2d({c}, 2 * {c}, 3, padding=1, groups={c}), {d})'),
    'ddw': ('self.m{i}({x})', 'r4(nn.ConvTranspose2d({c}, {c}, 2, stride=2, groups={c}), {d})'),
    'conv1': ('self.m{i}({x})', 'r3(nn.Conv1d({c}, 8, 3, padding=1), {d})'), 'dconv1': ('self.m{i}({x})', 'r3(nn.ConvTranspose1d({c}, 8, 2, stride=2), {d})'),
    'dw1': ('self.m{i}({x})', 'r3(nn.Conv1d({c}, {c}, 3, padding=1, groups={c}), {d})'), 'gconv1': ('self.m{i}({x})', 'r3(nn.Conv1d({c}, 8, 1, groups=2), {d})'),
    'lin': ('self.m{i}({x})', 'nn.Linear({l}, 8)'), 'linb': ('self.m{i}({x})', 'nn.Linear({l}, 12, bias=False)'),
    'rnn': ('self.m{i}({x})[0]', 'r3(nn.RNN({l}, 8, batch_first=True), {d})'), 'gru': ('self.m{i}({x})[0]', 'r3(nn.GRU({l}, 8), {d})'),
    'lstm': ('self.m{i}({x})[0]', 'r3(nn.LSTM({l}, 8, batch_first=True), {d})'), 'bilstm': ('self.m{i}({x})[0]', 'r3(nn.LSTM({l}, 6, bidirectional=True), {d})'),
    'gru2': ('self.m{i}({x})[0]', 'r3(nn.GRU({l}, 6, num_layers=2, batch_first=True), {d})'), 'bigru2': ('self.m{i}({x})[0]', 'r3(nn.GRU({l}, 4, num_layers=2, bidirectional=True), {d})'),
    'birnn': ('self.m{i}({x})[0]', 'r3(nn.RNN({l}, 6, bidirectional=True, bias=False), {d})'), 'rnn2': ('self.m{i}({x})[0]', 'r3(nn.RNN({l}, 6, num_layers=2), {d})'),
    'bilstm2': ('self.m{i}({x})[0]', 'r3(nn.LSTM({l}, 4, num_layers=2, bidirectional=True, batch_first=True), {d})'),
    'lstmp': ('self.m{i}({x})[0]', 'r3(nn.LSTM({l}, 8, proj_size=4), {d})'), 'lstmp2': ('self.m{i}({x})[0]', 'r3(nn.LSTM({l}, 8, proj_size=4, num_layers=2), {d})'),
    'bilstmp': ('self.m{i}({x})[0]', 'r3(nn.LSTM({l}, 8, proj_size=4, bidirectional=True), {d})'),
    # element-wise and normalisation
    'relu': 'F.relu({x})', 'sigm': 'torch.sigmoid({x})', 'hsw': ('self.m{i}({x})', 'nn.Hardswish()'), 'gelu': 'F.gelu({x})', 'addk': '{x} + 0.7',
    'bn': ('self.m{i}({x})', '(nn.BatchNorm2d if {d} == 4 else nn.BatchNorm1d)({c})'), 'bnna': ('self.m{i}({x})', 'r4(nn.BatchNorm2d({c}, affine=False), {d})'),
    'prelu': ('self.m{i}({x})', 'nn.PReLU({c})'), 'prelu1': ('self.m{i}({x})', 'nn.PReLU()'), 'drop': ('self.m{i}({x})', 'nn.Dropout(0.5)'),
    'insn': ('self.m{i}({x})', 'r4(nn.InstanceNorm2d({c}), {d})'),
    'brelu': ('F.relu(self.m{i}({x}))', '(nn.BatchNorm2d if {d} == 4 else nn.BatchNorm1d)({c})'),
    # spatial
    'avgp': ('F.avg_pool2d(self.m{i}({x}), 2)', 'r4(nn.Identity(), {d})'), 'avgpm': ('self.m{i}({x})', 'r4(nn.AvgPool2d(2), {d})'), 'maxp': ('self.m{i}({x})', 'r4(nn.MaxPool2d(2), {d})'), 'maxpf': ('F.max_pool2d(self.m{i}({x}), 3, 2, 1)', 'r4(nn.Identity(), {d})'),
    'gap': ('F.adaptive_avg_pool2d(self.m{i}({x}), 1)', 'r4(nn.Identity(), {d})'), 'gapm': ('self.m{i}({x})', 'r4(nn.AdaptiveAvgPool2d(2), {d})'), 'pad': 'F.pad({x}, (1, 1, 1, 1))', 'padr': 'F.pad({x}, (1, 1, 1, 1), mode="reflect")',
    'interp': ('F.interpolate(self.m{i}({x}), scale_factor=2)', 'r4(nn.Identity(), {d})'), 'ups': ('self.m{i}({x})', 'r4(nn.Upsample(scale_factor=2, mode="bilinear"), {d})'), 'avgp1': ('self.m{i}({x})', 'r3(nn.AvgPool1d(2), {d})'),
    'maxp1': ('self.m{i}({x})', 'r3(nn.MaxPool1d(2), {d})'),
    # layout
    'flat': 'torch.flatten({x}, 1)', 'flatm': ('self.m{i}({x})', 'nn.Flatten()'), 'flat2': 'torch.flatten({x}, 2)', 'vw': '{x}.view({x}.size(0), -1)', 'vwl': '{x}.view({b}, {n} // {b})', 'rs': '{x}.reshape({x}.shape[0], {x}.shape[1], -1)',
    'rsl': '{x}.reshape({b}, {c}, {n} // {b} // {c})', 'vwl3': '{x}.view({b}, {c}, {n} // {b} // {c})', 'vwg': '{x}.view({b}, 2, {c} // 2, -1)', 'rsg': '{x}.reshape({b}, {c} // 2, 2, -1)', 'vwm': '{x}.view({b}, -1, {l})',
    'shuf': '{x}.view({x}.size(0), 2, {x}.size(1) // 2, {x}.size(2), {x}.size(3)).transpose(1, 2).reshape({x}.size(0), {x}.size(1), {x}.size(2), {x}.size(3))',
    'p0231': '{x}.permute(0, 2, 3, 1)', 'p0312': '{x}.permute(0, 3, 1, 2)', 't12': '{x}.transpose(1, 2)', 'p021': '{x}.permute(0, 2, 1)', 'p102': '{x}.permute(1, 0, 2)',
    'sq': '{x}.squeeze(-1).squeeze(-1)', 'us': '{x}.unsqueeze(-1)', 'us1': '{x}.unsqueeze(1)', 'ps': ('self.m{i}({x})', 'r4(nn.PixelShuffle(2), {d})'),
    # reductions
    'meanhw': ('self.m{i}({x}).mean([2, 3])', 'r4(nn.Identity(), {d})'), 'meanhwk': 'torch.mean({x}, dim=[2, 3], keepdim=True)', 'suml': '{x}.sum(-1)', 'meanl': '{x}.mean(-1)',
    # pieces
    'ch0': 'torch.chunk({x}, 2, 1)[0]', 'ch1': 'torch.chunk({x}, 2, 1)[1]', 'chs': 'torch.add(*torch.chunk({x}, 2, dim=1))', 'chc': 'torch.cat(torch.chunk({x}, 2, dim=1), dim=1)', 'chl': 'torch.cat([y * 0.5 for y in torch.chunk({x}, 2, dim=-1)], dim=-1)',
    'sp': 'torch.cat([torch.relu(y) for y in torch.split({x}, {c} // 2, dim=1)], dim=1)', 'sp1': 'torch.split({x}, {c} // 2, 1)[1]', 'spl': 'torch.split({x}, [2, {c} - 2], dim=1)[1]', 'splc': 'torch.cat(torch.split({x}, [2, {c} - 2], dim=1)[::-1], dim=1)',
    'sl': '{x}[:, 1:3]', 'sl0': '{x}[:, :{c} // 2]', 'slst': '{x}[:, ::2]', 'sel': '{x}[:, 0]', 'last': '{x}[:, -1]', 'slsp': '{x}[..., 1:]',
    # self joins
    'catx': 'torch.cat([{x}, {x}], 1)', 'catr': 'torch.cat([{x}, torch.relu({x})], dim=1)', 'catl': 'torch.cat([{x}, {x}], -1)', 'cat0': 'torch.cat([{x}, {x}], 0)', 'res': '{x} + torch.tanh({x})', 'swish': '{x} * torch.sigmoid({x})', 'xx': '{x} * {x}', 'addc': ('{x} + self.p{i}', 'P((1, {c}) + (1,) * ({d} - 2))'),
    'gram': 'torch.matmul({x}, {x}.transpose(-1, -2))', 'rest': ('self.m{i}(torch.relu({x})) + {x}', 'r4(nn.Conv2d({c}, {c}, 3, padding=1), {d})'), 'resl': ('torch.tanh(self.m{i}({x})) + {x}', 'nn.Linear({l}, {l})'),
    'se': ('{x} * torch.sigmoid(self.m{i}(F.adaptive_avg_pool2d({x}, 1)))', 'r4(nn.Conv2d({c}, {c}, 1), {d})'), 'twice': ('self.m{i}(torch.relu(self.m{i}({x})))', 'r4(nn.Conv2d({c}, {c}, 3, padding=1), {d})'),
    'twicel': ('self.m{i}(torch.relu(self.m{i}({x})))', 'nn.Linear({l}, {l})'),
    # binary
    'add': '{x} + {z}', 'mul': '{x} * {z}', 'sub': '{x} - {z}', 'catz': 'torch.cat([{x}, {z}], 1)', 'catz1': 'torch.cat([{z}, torch.relu({x})], dim=1)', 'catzl': 'torch.cat([{x}, {z}], -1)', 'mm': 'torch.matmul({x}, {z})', 'mmt': 'torch.matmul({x}, {z}.transpose(-1, -2))', 'bmm': 'torch.bmm({x}, {z})', 'maxi': 'torch.max({x}, {z})',
}
BIN = ('add', 'mul', 'sub', 'catz', 'catz1', 'catzl', 'mm', 'mmt', 'bmm', 'maxi')
CENTRES = tuple(list(OPS)[: list(OPS).index('relu')])


def r4(m, d):
    if d != 4:
        raise RuntimeError('rank')
    return m


def r3(m, d):
    if d != 3:
        raise RuntimeError('rank')
    return m



def make(stmts, outs, inputs, xs, text):
    m, src = convprog.make(stmts, outs, inputs, xs, text, ops=OPS, env={'r4': r4, 'r3': r3})
    if m is None:
        return None, None
    g = torch.Generator().manual_seed(int(lib.sha(text)[:8], 16))
    with torch.no_grad():
        for n, t in list(m.named_parameters()) + list(m.named_buffers()):
            if t.is_floating_point():
                v = (torch.randperm(t.numel(), generator=g) + 1.0) / t.numel()  # distinct values
                t.copy_((0.5 + v if n.endswith('running_var') else 1.6 * v - 0.8).reshape(t.shape))
    return m, src


def origin(orig, pruned):
    """For every tensor of the pruned model, the boolean mask of entries of the original that survived; Fail when a value is new."""
    po, pp = dict(orig.named_parameters()), dict(pruned.named_parameters())
    bo, bp = dict(orig.named_buffers()), dict(pruned.named_buffers())
    if set(po) != set(pp) or set(bo) != {k for k in bp if not k.endswith('_mask')}:
        raise lib.Fail(f'parameters {sorted(set(po) ^ set(pp))} buffers {sorted(set(bo) ^ set(bp))} differ after pruning')
    keep = {}
    for src, dst in ((po, pp), (bo, bp)):
        for n in src:
            a, b = src[n].detach(), dst[n].detach()
            if not a.is_floating_point():
                continue
            if a.dim() != b.dim():
                raise lib.Fail(f'{n}: rank changed')
            flat = a.reshape(-1)
            srt, idx = flat.sort()
            v = b.reshape(-1)
            pos = torch.searchsorted(srt, v).clamp(max=len(srt) - 1)
            if not torch.equal(srt[pos], v):
                raise lib.Fail(f'{n}: {int((srt[pos] != v).sum())} of {v.numel()} surviving values are not values of the original')
            o = idx[pos]
            if o.unique().numel() != o.numel():
                raise lib.Fail(f'{n}: a value was duplicated')
            mask = torch.zeros(a.numel(), dtype=torch.bool)
            mask[o] = True
            keep[n] = mask.reshape(a.shape)
    return keep


def masked(orig, keep):
    """The original with everything that was removed set to zero."""
    m = copy.deepcopy(orig)
    with torch.no_grad():
        for n, t in list(m.named_parameters()) + list(m.named_buffers()):
            if n in keep:
                t[~keep[n]] = 1.0 if n.endswith('running_var') else 0.0
    return m


def aligned(got, want):
    """Want with the removed slices of an output dimension taken out; None when impossible. -> (tensor, dim or None)"""
    if got.shape == want.shape:
        return want, None
    if got.dim() != want.dim():
        return None, None
    dims = [d for d in range(got.dim()) if got.shape[d] != want.shape[d]]
    if len(dims) != 1 or got.shape[dims[0]] > want.shape[dims[0]]:
        return None, None
    d = dims[0]
    sel, j = [], 0
    for i in range(got.shape[d]):
        while j < want.shape[d] and not torch.allclose(got.select(d, i), want.select(d, j), rtol=1e-4, atol=1e-5):
            j += 1
        if j == want.shape[d]:
            return None, d
        sel.append(j)
        j += 1
    return want.index_select(d, torch.tensor(sel, dtype=torch.long)), d


def same(got, want):
    got, want = lib.flatten(got), lib.flatten(want)
    if len(got) != len(want):
        return f'{len(got)} outputs instead of {len(want)}'
    for i, (a, b) in enumerate(zip(got, want)):
        w, d = aligned(a, b)
        if w is None:
            return f'output {i}: {tuple(a.shape)} is no sub-sequence of slices of the masked output {tuple(b.shape)}'
        e = lib.compare([a], [w])
        if e:
            return f'output {i}: {e}'
    return None


def attributes(model):
    """Declared sizes of every module agree with its tensors."""
    for n, m in model.named_modules():
        t = type(m)
        if t in (nn.Conv1d, nn.Conv2d):
            want = (m.out_channels, m.in_channels // m.groups)
            ok = tuple(m.weight.shape[:2]) == want and m.in_channels % m.groups == 0 and m.out_channels % m.groups == 0
        elif t in (nn.ConvTranspose1d, nn.ConvTranspose2d):
            want = (m.in_channels, m.out_channels // m.groups)
            ok = tuple(m.weight.shape[:2]) == want
        elif t is nn.Linear:
            want = (m.out_features, m.in_features)
            ok = tuple(m.weight.shape) == want
        elif t in (nn.BatchNorm1d, nn.BatchNorm2d):
            want = (m.num_features,)
            ok = tuple(m.running_mean.shape) == want == tuple(m.running_var.shape) and (m.weight is None or tuple(m.weight.shape) == want)
        elif t is nn.PReLU:
            want = (m.num_parameters,)
            ok = tuple(m.weight.shape) == want
        elif t in (nn.RNN, nn.GRU, nn.LSTM):
            g = {nn.RNN: 1, nn.GRU: 3, nn.LSTM: 4}[t]
            want = (g * m.hidden_size, m.input_size)
            ok = tuple(m.weight_ih_l0.shape) == want
        else:
            continue
        if getattr(m, 'bias', None) is not None and isinstance(m.bias, torch.Tensor) and t in (nn.Conv2d, nn.Conv1d, nn.ConvTranspose1d, nn.ConvTranspose2d, nn.Linear):
            o = m.out_features if t is nn.Linear else m.out_channels
            ok = ok and m.bias.shape[0] == o
        if not ok:
            return f'{n} ({t.__name__}) declares {want}, weight is {[tuple(p.shape) for p in m.parameters()][:2]}'
    return None
