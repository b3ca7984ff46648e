"""V04: converter options choose the form of the model, not its function."""
import itertools

import torch

from .. import convprog, lib, tfl

PROPERTY = 'V04'
LEVEL = 'model_checking'
RULE = (
    'all single options and all pairs of options times all programs up to the stated length over the operators the option is about '
    '(grouped, transposed convolutions, recurrent layers, transpositions of any rank, large concatenations, shared constants, gelu, '
    'chains the optimiser rewrites); outputs of the TFLite interpreter compared with PyTorch, twice on the same interpreter. '
    'Non-trivial: converted and run.'
)
ASSUMPTIONS = ['TFLite reference interpreter is taken as the meaning of a TFLite file', '4-d inputs and outputs are NHWC, the documented default']
RECYCLE = 250

OPT = {
    'gcr': {'group_conv_rewrite': True}, 'micro': {'tflite_micro_rewrite': True}, 'bi': {'map_bilstm_to_lstm': True}, 'nb': {'conv_transpose_with_bias': False},
    'un': {'unroll_rnn': True}, 'unsep': {'unroll_rnn': True, 'separated_rnn_gate_calc': True}, 'byp': {'bypass_elementwise_passthrough_constraint': True},
    'grp': {'group_tensors': True}, 'lg': {'legacy_gelu': True}, 'keep': {'preserve_tensors': True}, 'gc': {'gc_when_reload': True}, 'moc': {'missing_outputs_as_constants': True},
    'rq': {'rewrite_quantizable': True}, 'i8': {'quantize_target_type': 'int8'}, 'fqd': {'fuse_quant_dequant': True}, 'i16': {'quantize_target_type': 'int16', 'strict_symmetric_check': True},
    'L0': {'optimize': 0}, 'L1': {'optimize': 1}, 'L2': {'optimize': 2}, 'L3': {'optimize': 3}, 'L4': {'optimize': 4}, 'nhwc0': {'nchw_transpose': False},
    'mt1': {'max_transpose_dims': 1}, 'mt2': {'max_transpose_dims': 2}, 'mt3': {'max_transpose_dims': 3}, 'mt4': {'max_transpose_dims': 4}, 'mt5': {'max_transpose_dims': 5},
}


def M(code, fac):
    return (code, fac)


G = {  # grouped convolutions
    'gc2': M('self.m{i}({x})', 'nn.Conv2d({c}, 4, 3, padding=1, groups=2)'), 'gcs': M('self.m{i}({x})', 'nn.Conv2d({c}, 2, 2, stride=2, groups=2, bias=False)'),
    'gcd': M('self.m{i}({x})', 'nn.Conv2d({c}, 6, (3, 1), padding=(2, 0), dilation=(2, 1), groups=2)'), 
    'gc1d': M('self.m{i}({x})', 'nn.Conv1d({c}, 4, 3, padding=1, groups=2)'), 'gc1s': M('self.m{i}({x})', 'nn.Conv1d({c}, 4, 2, stride=2, groups=2, bias=False)'),
    'dwm': M('self.m{i}({x})', 'nn.Conv2d({c}, {c} * 2, 3, padding=1, groups={c})'), 'gca': M('self.m{i}({x})', 'nn.Conv2d({c}, 4, (1, 3), padding=(0, 1), stride=(1, 2), groups=2)'),
    'gcr2': M('F.relu(self.m{i}({x}))', 'nn.Conv2d({c}, 4, 3, padding=1, groups=2)'), 'gcr6': M('F.relu6(self.m{i}({x}))', 'nn.Conv2d({c}, 4, 1, groups=2)'),
    'gcbn': M('self.m{i}({x})', 'nn.Sequential(nn.Conv2d({c}, 4, 3, padding=1, groups=2, bias=False), nn.BatchNorm2d(4), nn.ReLU())'),
}
D = {  # transposed convolutions
    'dc': M('self.m{i}({x})', 'nn.ConvTranspose2d({c}, 4, 2, stride=2)'), 'dcn': M('self.m{i}({x})', 'nn.ConvTranspose2d({c}, 3, 3, bias=False)'), 'dcp': M('self.m{i}({x})', 'nn.ConvTranspose2d({c}, 4, 3, stride=2, padding=1, output_padding=1)'),
    'dc1': M('self.m{i}({x})', 'nn.ConvTranspose1d({c}, 4, 2, stride=2)'), 'dcr': M('F.relu(self.m{i}({x}))', 'nn.ConvTranspose2d({c}, 4, 2, stride=2)'), 'dcr6': M('F.relu6(self.m{i}({x}))', 'nn.ConvTranspose2d({c}, 4, 3, padding=1)'),
    'dcbn': M('self.m{i}({x})', 'nn.Sequential(nn.ConvTranspose2d({c}, 4, 2, stride=2, bias=False), nn.BatchNorm2d(4), nn.ReLU())'), 'dcbnb': M('self.m{i}({x})', 'nn.Sequential(nn.ConvTranspose2d({c}, 4, 2, stride=2), nn.BatchNorm2d(4))'),
    'dcx': M('self.m{i}({x})', 'nn.ConvTranspose2d({c}, 2, (2, 3), stride=(2, 1), padding=(0, 1))'),
}
GD = {  # grouped transposed convolutions
    'gd2': M('self.m{i}({x})', 'nn.ConvTranspose2d({c}, 4, 2, stride=2, groups=2)'), 'gdn': M('self.m{i}({x})', 'nn.ConvTranspose2d({c}, 4, 3, padding=1, groups=2, bias=False)'), 'gdp': M('self.m{i}({x})', 'nn.ConvTranspose2d({c}, 4, 3, stride=2, padding=1, output_padding=1, groups=2)'),
    'gd1': M('self.m{i}({x})', 'nn.ConvTranspose1d({c}, 4, 2, stride=2, groups=2)'), 'gdr': M('F.relu(self.m{i}({x}))', 'nn.ConvTranspose2d({c}, 6, 2, stride=2, groups=2)'), 'gdr6': M('F.relu6(self.m{i}({x}))', 'nn.ConvTranspose2d({c}, 4, 1, groups=2)'),
    'gdbn': M('self.m{i}({x})', 'nn.Sequential(nn.ConvTranspose2d({c}, 4, 2, stride=2, groups=2, bias=False), nn.BatchNorm2d(4), nn.ReLU())'), 'ddw': M('self.m{i}({x})', 'nn.ConvTranspose2d({c}, {c}, 2, stride=2, groups={c})'),
}


def rnn(kind, **kw):
    a = ', '.join(f'{k}={v}' for k, v in kw.items())
    return M('self.m{i}({x})[0]', f'nn.{kind}({{l}}, 3{", " + a if a else ""})')


R, BI = {}, {}
for _k in ('LSTM', 'GRU'):
    s = _k.lower()
    R[s] = rnn(_k)
    R[s + 'f'] = rnn(_k, batch_first=True)
    R[s + 'n'] = rnn(_k, bias=False)
    R[s + '2'] = rnn(_k, num_layers=2)
    BI[s + 'b'] = rnn(_k, bidirectional=True)
    BI[s + 'b2'] = rnn(_k, bidirectional=True, num_layers=2)
    BI[s + 'bn'] = rnn(_k, bidirectional=True, bias=False)
    BI[s + 'b2n'] = rnn(_k, bidirectional=True, num_layers=2, bias=False)
    BI[s + 'bf'] = rnn(_k, bidirectional=True, batch_first=True)
R['lstmh'] = M('self.m{i}({x})[1][0]', 'nn.LSTM({l}, 3)')
R['lstmc'] = M('self.m{i}({x})[1][1]', 'nn.LSTM({l}, 3, num_layers=2)')
R['gruh'] = M('self.m{i}({x})[1]', 'nn.GRU({l}, 3)')
R['lstm0'] = M('self.m{i}({x}, (torch.zeros(1, {x}.shape[1], 3), torch.zeros(1, {x}.shape[1], 3)))[0]', 'nn.LSTM({l}, 3)')
R['lstmk'] = M('self.m{i}({x}, (torch.ones(1, {x}.shape[1], 3) * 0.3, torch.ones(1, {x}.shape[1], 3) * -0.5))[0]', 'nn.LSTM({l}, 3)')
R['gruk'] = M('self.m{i}({x}, torch.ones(1, {x}.shape[1], 3) * 0.3)[0]', 'nn.GRU({l}, 3)')
R['lstmx'] = M('(lambda o: o[0].sum(0) + o[1][0][0] * 2 + o[1][1][0])(self.m{i}({x}))', 'nn.LSTM({l}, 3)')
R['grux'] = M('(lambda o: o[0].sum(0) + o[1][0] * 2)(self.m{i}({x}))', 'nn.GRU({l}, 3)')
BI['lstmbh'] = M('self.m{i}({x})[1][0]', 'nn.LSTM({l}, 3, bidirectional=True)')
BI['lstmbk'] = M('self.m{i}({x}, (torch.ones(2, {x}.shape[1], 3) * 0.3, torch.ones(2, {x}.shape[1], 3) * -0.5))[0]', 'nn.LSTM({l}, 3, bidirectional=True)')
STATE = ('lstmh', 'lstmc', 'lstmk', 'lstmx', 'lstmbh', 'lstmbk', 'gruk')
GE = {'gelu': 'F.gelu({x})', 'gelut': "F.gelu({x}, approximate='tanh')", 'gelum': M('self.m{i}({x})', 'nn.GELU()')}
SH = {  # constants that are equal
    'k2': '({x} + 0.5) * 0.5', 'pp': '({x} + torch.ones({e})) * torch.ones({e})', 'll': M('self.m{i}(self.m{i}({x}))', 'nn.Linear({l}, {l})'), 'rsrs': '({x}.reshape(-1, {l}) * 2).reshape({e})',
    'cc': M('self.m{i}(self.m{i}({x}))', 'nn.Conv2d({c}, {c}, 3, padding=1)'), 'z2': '{x} + torch.zeros({l}) + torch.zeros({l}, dtype=torch.int32)', 'pd': 'F.pad(F.pad({x}, (1, 0)), (1, 0), value=0.5)',
    'two': M('self.m{i}[0]({x}) + self.m{i}[1]({x})', 'nn.ModuleList([nn.Linear({l}, 4, bias=False), nn.Linear({l}, 4, bias=False)])'), 'ones': '{x} * torch.ones(1) + torch.ones(1, 1)', 'sc': '{x} * 2.0 + 2',
}
CA = {  # large concatenations
    f'cat{n}{d}': 'torch.cat([' + ', '.join(f'{{x}} * {i + 1}.0' for i in range(n)) + f'], {d if d != "l" else -1})' for n in (2, 3, 4, 5, 9, 10, 11, 12, 16, 17, 21, 33) for d in ('0', '1', 'l')
}
FAM = {'gcr': {**G, **GD}, 'nb': D, 'un': {**R, **BI}, 'unsep': {**R, **BI}, 'bi': BI, 'lg': GE, 'grp': SH, 'micro': CA}
ALL = {}
for _f in FAM.values():
    ALL.update(_f)
LINK = ['relu', 'p0231', 't12', 'conv1', 'addc', 'res', 'split1', 'mean1k', 'lin', 'flat1', 'catc']
SHAPES = {'a': [1, 4, 6, 8], 'b': [2, 4, 4, 6], 'd': [1, 6, 8], 'e': [3, 2, 4], 'f': [2, 4, 5]}
S6 = {4: [1, 2, 3, 4], 5: [2, 1, 3, 2, 3], 6: [2, 3, 1, 2, 2, 3], 3: [2, 3, 4], 2: [3, 4]}




def cases(tier):
    quick = tier == 'quick'
    seen = set()

    def emit(st, shape, opts, outs=None):
        cid = ';'.join(f'{o}({",".join(a)})' for o, a in st) + f':{shape}:{"+".join(opts)}' + (':all' if outs else '')
        if cid in seen or (any(o in GD for o, _ in st) and 'gcr' not in opts):
            return  # grouped transposed convolutions exist only by rewriting
        if any(o in STATE for o, _ in st) and not {'un', 'unsep'} & set(opts):
            return  # states of LSTMs are refused otherwise
        if any(o in ('lstmbf', 'lstmb2f') for o, _ in st) and shape != 'd' and not {'un', 'unsep', 'bi'} & set(opts):
            return  # TFLite's BIDIRECTIONAL_SEQUENCE_LSTM kernel is wrong for batch-major inputs with more than one batch
        seen.add(cid)
        sh = SHAPES[shape] if shape in SHAPES else [int(v) for v in shape.split('x')]
        yield cid, {'st': st, 'shape': sh, 'opts': list(opts), 'outs': [f'v{i}' for i in range(len(st))] if outs else [f'v{len(st) - 1}']}

    def chain(*names):
        cur, st = 'x0', []
        for k, n in enumerate(names):
            st.append([n, [cur]])
            cur = f'v{k}'
        return st

    def shapes(o):
        return 'def' if o in R or o in BI else 'abdef' if o in SH or o in GE or o in CA else 'dfe' if '1' in o and 'ConvTranspose1d' in str(ALL[o]) + str(o) or 'Conv1d' in str(ALL.get(o)) else 'ab'

    # each family under every option, and pairs of options about the family with any other option
    for name, fam in FAM.items():
        for i, o in enumerate(fam):
            for sh in shapes(o)[: 1 if quick and o in CA else 2 if quick else 9]:
                for k in OPT:
                    yield from emit(chain(o), sh, [k])
                    if k != name and not {k, name} <= {'un', 'unsep'} and not (quick and (o in CA or sh != shapes(o)[0] or (i >= 6 and i % 3))):
                        yield from emit(chain(o), sh, [name, k])
            rnn_ = o in R or o in BI
            for sh in shapes(o)[: 1 if rnn_ else 2] if quick else shapes(o):
                for l in (LINK[:3] if o in CA else ['relu', 't12', 'res', 'flat1', 'catc'] if rnn_ else LINK) if quick else LINK:
                    for opts in [[name]] if quick else [[name], [name, 'L0'], [name, 'grp'], [name, 'mt3']]:
                        yield from emit(chain(o, l), sh, opts, True)
                        if not quick or l in LINK[:3]:
                            yield from emit(chain(l, o), sh, opts)
                        yield from emit(chain(l, o, l), sh, opts)
        # two of the family in a row or in parallel
        mem = list(fam) if name != 'micro' else ['cat111', 'cat12l', 'cat100']
        for a, b in itertools.product(mem, repeat=2):
            for sh in ('d',) if a in R or a in BI else ('a',) if quick else ('a', 'd'):
                for opts in ([name], [name, 'grp']):
                    if quick and a != b and ('grp' in opts or (name == 'unsep' and sh == 'd')):
                        continue
                    yield from emit(chain(a, b), sh, opts)
                    if a == b or not quick:
                        yield from emit([[a, ['x0']], [b, ['x0']], ['catz', ['v0', 'v1']]], sh, opts)
    # transpositions of all ranks
    for n in (2, 3, 4, 5, 6):
        perms = list(itertools.permutations(range(n)))
        for i, p in enumerate(perms):
            if n == 6 and quick and p[0] > 1:
                continue
            code = '{x}.permute(' + ', '.join(map(str, p)) + ')'
            for k in ('mt1', 'mt2', 'mt3', 'mt4', 'mt5') if not quick or n < 6 else ('mt3', 'mt4'):
                if int(k[2]) >= n and (quick or i % 2):
                    continue
                yield from emit([[code, ['x0']]], 'x'.join(map(str, S6[n])), [k])
                if n == 4 or not quick:
                    yield from emit([[code, ['x0']], ['mulself', ['v0']]], 'x'.join(map(str, S6[n])), [k], True)
                    yield from emit([[code, ['x0']]], 'x'.join(map(str, S6[n])), [k, 'L0'])
        for sh in ('1x2x1x3', '2x2x2x2', '1x1x4x2', '3x1x2x1') if n == 4 else ('1x2x1x3x2', '2x2x2x2x2') if n == 5 else ():
            for p in perms:
                for k in ('mt2', 'mt3') if quick else ('mt1', 'mt2', 'mt3', 'mt4'):
                    yield from emit([['{x}.permute(' + ', '.join(map(str, p)) + ')', ['x0']]], sh, [k])
    # chains the optimiser rewrites, under options that change passes
    core = ['relu', 'p0231', 't12', 't23', 'rs4', 'conv1', 'bn', 'addc', 'cat1', 'split1', 'mean1k', 'rsb4', 'sl1', 'softm1', 'us1', 'lin', 'catc', 'pad1', 'addl', 'meanhw', 'gconv', 'tile']
    for k in ('byp', 'mt3', 'micro', 'grp', 'rq', 'keep', 'nhwc0', 'i8', 'fqd', 'i16', 'gc', 'moc'):
        wide = k in ('byp', 'mt3', 'grp', 'rq')
        for a, b in itertools.product(core if wide or not quick else core[:6] if k == 'gc' else core[:11], repeat=2):
            for sh in ('a', 'd') if wide and (not quick or k in ('byp', 'mt3')) else ('a',):
                yield from emit(chain(a, b), sh, [k])
        if k == 'byp' or not quick:
            for t in itertools.product(core[:8] if quick else core, repeat=3):
                yield from emit(chain(*t), 'a', [k], True)
    for a, b in itertools.combinations(OPT, 2):
        if a[:2] == b[:2] or (a[0] == 'L' and b[0] == 'L') or {a, b} <= {'i8', 'i16'}:
            continue
        for st in (chain('gcr2', 'dcr', 'gelu'), chain('p0231', 'cat111', 'res'), chain('conv3', 'bn', 'relu', 'flat2', 'lin')):
            yield from emit(st, 'a', [a, b], True)
        for o in ('lstmb2', 'gru2', 'll'):
            yield from emit(chain(o, 't12'), 'd', [a, b], True)


def run_case(p):
    lib.quiet_tinynn()
    x = lib.gen_inputs([p['shape']], 1)[0]
    m, src = convprog.make(p['st'], p['outs'], ['x0'], [x], str(p['st']), ops={**convprog.OPS, **ALL})
    if m is None:
        return {'status': 'reject', 'steps': 0}
    opts = {}
    for k in p['opts']:
        opts.update(OPT[k])
    path = lib.scratch(lib.uniq('m') + '.tflite')
    if 'gc' in p['opts']:
        opts['dump_jit_model_path'] = path[:-7] + '.pt'
    sig = '+'.join(p['opts'])
    try:
        xs = [lib.gen_inputs([p['shape']], s)[0] for s in (2, 3)]
        with torch.no_grad():
            want = [lib.flatten(m(x)) for x in xs]
        if any(t.dtype not in (torch.float32,) for w in want for t in w):
            return {'status': 'reject', 'steps': 0}
        try:
            path, c = tfl.convert(m, [x], path, **opts)
        except Exception as e:
            return {'status': 'refuse', 'detail': tfl.err(e), 'sig': sig, 'steps': 1}
        try:
            it = tfl.interpreter(path)
        except Exception as e:
            return {'status': 'refuse', 'detail': 'interpreter: ' + tfl.err(e), 'sig': sig, 'steps': 1}
        off = False if 'nhwc0' in p['opts'] else None
        for x, w in zip(xs, want):
            it.reset_all_variables()
            got = tfl.run(it, [tfl.to_nhwc(x, off)])
            e = tfl.agree(got, w, rtol=2e-4 if not any(o in GE for o, _ in p['st']) else 3e-2 if 'lg' in p['opts'] else 5e-4, nhwc=[off] * len(w) if off is False else None)
            if e:
                return {'status': 'fail', 'detail': e + '\n' + src, 'sig': sig, 'steps': 2}
        if 'micro' in p['opts'] and any(d['op_name'] == 'CONCATENATION' and len(d['inputs']) > 10 for d in it._get_ops_details()):
            return {'status': 'fail', 'detail': 'concatenation of more than 10 tensors left', 'sig': sig, 'steps': 2}
        mt = [int(k[2]) for k in p['opts'] if k.startswith('mt')]
        td = {d['index']: d for d in it.get_tensor_details()}
        if mt and any(d['op_name'] == 'TRANSPOSE' and len(td[d['inputs'][0]]['shape']) > mt[0] for d in it._get_ops_details()):
            return {'status': 'fail', 'detail': f'transposition of more than {mt[0]} dimensions left', 'sig': sig, 'steps': 2}
        return {'status': 'ok', 'steps': 2, 'nontrivial': True}
    finally:
        tfl.cleanup(path, opts.get('dump_jit_model_path', path))
