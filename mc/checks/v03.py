"""V03: the converted model has the inputs and outputs of the PyTorch model, for all small input and output structures."""
import itertools

import numpy as np
import torch
import torch.nn as nn

from .. import lib, tfl

PROPERTY = 'V03'
LEVEL = 'model_checking'
RULE = (
    'all tuples (and nestings) up to the stated length of outputs drawn from an alphabet of inputs, results, views, repeated results, '
    'pieces of one operator, scalars and constants, all input lists up to the stated length over ranks, dtypes, nesting and unused '
    'inputs, times the layouts that can be asked for; number, order, shape, dtype and values of inputs and outputs of the interpreter '
    'and the accessors of the converter compared with PyTorch. Non-trivial: converted and run.'
)
ASSUMPTIONS = ['TFLite reference interpreter is taken as the meaning of a TFLite file', '4-d inputs and outputs are NHWC unless asked otherwise']
RECYCLE = 300

# inputs: kind -> (shape, dtype)
KINDS = {
    'a': ([1, 3, 4, 5], 'float32'), 'b': ([2, 3, 4], 'float32'), 'c': ([2, 4], 'float32'), 'd': ([4], 'float32'), 'e': ([], 'float32'),
    'f': ([1, 2, 3, 2, 2], 'float32'), 'B': ([2, 3, 4, 5], 'float32'), 'i': ([2, 3], 'int64'), 'j': ([1, 3, 4, 2], 'int32'), 'q': ([2, 2], 'bool'),
    'h': ([1, 2, 3, 2, 2, 1], 'float32'), 'u': ([1, 3, 2, 2], 'uint8'), 'k': ([3], 'int64'), 'z': ([2, 3], 'float64'),
}

# outputs over x (first input), y (second): name -> code
ATOMS = {
    'x': 'x', 'y': 'y', 'r': 'r', 'n': 'n', 'rr': 'torch.relu(r)', 'v': 'r.reshape(-1)', 'vx': 'x.reshape(-1)', 'id': 'x.view(x.shape)', 't': 'r.transpose(0, -1)', 'tx': 'x.transpose(-1, -2)',
    's': 'r.sum()', 'c0': 'ch[0]', 'c1': 'ch[1]', 'p': 'self.p', 'p4': 'self.p4', 'pk': 'self.p * 2', 'sl': 'r[:, 1:]', 'us': 'r.unsqueeze(0)', 'xy': 'x + y.sum()',
    'am': 'r.argmax(1)', 'gt': 'r > 0.1', 'pr': 'torch.relu(self.p4)', 'dt': 'x.detach()', 'cl': 'r.clone()', 'drop': 'self.drop(x)', 'ip': 'g', 'cv': 'cv', 'mx': 'mx[0]', 'fl': 'n.float()',
    'dr': 'self.drop(r)', 'cl2': 'x.clone()', 'xx': 'x.to(torch.float32)', 'cg': 'x.contiguous()', 'k': 'torch.ones(2, 3)', 'full': 'torch.zeros_like(r)', 'dx': 'x + x.detach() * 2', 'zl': 'x * 2 + torch.zeros_like(n)', 'sh': 'x.reshape(1, cv.shape[1] // 2, -1)',
}
PRE = {
    'r': 'r = torch.relu(x)', 'n': 'n = -x', 'ch': 'ch = torch.split(torch.tanh(x), [1, x.shape[1] - 1], 1)', 'g': 'g = x * 2; g.add_(1)', 'cv': 'cv = self.conv(x)', 'mx': 'mx = torch.max(x, 1)',
}
NEEDS = {'r': 'r', 'n': 'n', 'ch': 'ch', 'g': 'g', 'cv': 'cv', 'mx': 'mx'}
CONSTS = {'p', 'p4', 'pk', 'pr', 'k', 'full'}
NESTS = {'t1': '({0},)', 'l1': '[{0}]', 'l2': '[{0}, {1}]', 'n2': '(({0}, {1}),)', 'n3': '({0}, ({1}, {2}))', 'nl3': '([{0}, {1}], {2})', 'nn3': '(({0}, ({1},)), [{2}])'}
BOOLS = (None, False, True)


def cases(tier):
    quick = tier == 'quick'
    seen = set()

    def emit(inp, outs, nest='', **opts):
        cid = f'{inp}|{",".join(outs)}{":" + nest if nest else ""}|' + ','.join(f'{k}={"".join("N" if b is None else str(int(b)) for b in v) if isinstance(v, tuple) else v}' for k, v in opts.items())
        if cid in seen:
            return
        seen.add(cid)
        if outs != ['in'] and all(o in CONSTS for o in outs):
            return  # no computation at all
        if 'gt' in outs and inp[0] in 'fh':
            return  # aborts in the kernel of TFLite for more than 4 dimensions
        if {'p4', 'x'} & set(outs) and nest[:1] in ('l', 'n') and nest not in ('n2', 'n3'):
            return  # inputs and constants inside of python lists are refused loudly
        yield cid, {'inp': inp, 'outs': list(outs), 'nest': nest, 'opts': opts}

    base = list(ATOMS)
    one = ['y', 'xy']
    for sh in 'abcdefBh':
        for a in base:
            inp = sh if a not in one else f'{sh}{"c" if sh != "c" else "a"}'
            for L in (None, 0) if quick else (None, 0, 1, 2, 3):
                o = {} if L is None else {'optimize': L}
                yield from emit(inp, [a], **o)
                if a in CONSTS:
                    yield from emit(inp, [a, 'r'], missing_outputs_as_constants=True, **o)
                    yield from emit(inp, [a], missing_outputs_as_constants=True, **o)
    # pairs of outputs, with repetition; two inputs
    pair_ops = base if not quick else [a for a in base if a not in ('cl2', 'xx', 'cg', 'fl', 'dr', 'drop')]
    for inp in ('aa', 'ac', 'bb') if quick else ('aa', 'ac', 'ba', 'bb', 'cb', 'BB', 'fa'):
        for a, b in itertools.product(pair_ops, repeat=2):
            mo = {'missing_outputs_as_constants': True} if {a, b} & CONSTS else {}
            yield from emit(inp, [a, b], **mo)
            if not quick:
                yield from emit(inp, [a, b], optimize=0, **mo)
    # triples
    tri = ['x', 'y', 'r', 'v', 't', 'c1', 'p4', 'rr', 'sl'] if quick else ['x', 'y', 'r', 'n', 'v', 't', 's', 'c0', 'c1', 'p4', 'pk', 'us', 'rr', 'sl', 'id', 'cv', 'mx']
    for inp in ('aa',) if quick else ('aa', 'ab'):
        for t in itertools.product(tri, repeat=3):
            yield from emit(inp, t, missing_outputs_as_constants=True)
    # nested outputs
    for n, f in NESTS.items():
        k = 1 + ('{1}' in f) + ('{2}' in f)
        for t in itertools.product(['x', 'r', 'v', 'p4', 'c1'], repeat=k):
            yield from emit('aa', t, n, missing_outputs_as_constants=True)
    # layouts of outputs and inputs
    for t in itertools.product(['x', 'y', 'r', 'tx', 'v', 'cv', 'sl', 'p4', 'rr', 'c0', 'id', 'us'], repeat=2):
        for o in [(a, b) for a in BOOLS for b in BOOLS]:
            for i in ((True, True), (False, True), None) if quick else list(itertools.product(BOOLS, repeat=2)) + [None]:
                yield from emit('aa', t, missing_outputs_as_constants=True, output_transpose=o, **({} if i is None else {'input_transpose': i}))
    for a in ['x', 'r', 'n', 't', 'tx', 'v', 'vx', 'id', 'cv', 'sl', 'p4', 'pr', 'rr', 'c0', 'c1', 'us', 's', 'am', 'mx', 'ip', 'dr']:
        for o in BOOLS:
            for i in BOOLS:
                for L in (None, 0):
                    for sh in 'aB':
                        x = {} if L is None else {'optimize': L}
                        yield from emit(sh, [a], missing_outputs_as_constants=True, output_transpose=o, input_transpose=i, **x)
        for sh in 'aBbc':
            yield from emit(sh, [a], missing_outputs_as_constants=True, nchw_transpose=False)
            yield from emit(sh, [a], missing_outputs_as_constants=True, nchw_transpose=False, output_transpose=True, input_transpose=True)
    # lists of inputs: kinds, nesting, unused (capital letter after '-')
    for n in (1, 2, 3):
        for ks in itertools.product('abcdijqe' if n < 3 else 'abdj', repeat=n):
            for use in itertools.product('01', repeat=n):
                if '1' not in use:
                    continue  # no computation at all
                if n == 3 and quick and use.count('1') == 3 and ks[0] == ks[1]:
                    continue
                yield from emit('+' + ''.join(ks) + '/' + ''.join(use), ['in'])
    for k in 'khf':
        yield from emit('+' + k + '/1', ['in'])
        yield from emit('+' + k + 'a/01', ['in'])
    for st in ('(xx)', '(xx)x', 'x(xx)', '(xx)(xx)', '(x)x', '((xx)x)', 'x(x)', '(x)', '(xxx)'):
        n = st.count('x')
        for ks in itertools.product('abi', repeat=n) if n < 4 or not quick else [('a', 'b', 'i', 'a'), ('b', 'a', 'a', 'a')]:
            for use in ['1' * n] + ['1' * i + '0' + '1' * (n - i - 1) for i in range(n) if n > 1]:
                yield from emit('+' + ''.join(ks) + '/' + use + '/' + st, ['in'])
    for br in ('[xx]', '[xx]x', 'x[xx]'):
        n = br.count('x')
        for ks in itertools.product('ab', repeat=n):
            yield from emit('+' + ''.join(ks) + '/' + '1' * n + '/' + br, ['in'])
    for ks in itertools.product('ab', repeat=2):
        for o in itertools.product(BOOLS, repeat=2):
            yield from emit('+' + ''.join(ks) + '/11', ['in'], input_transpose=o)
            yield from emit('+' + ''.join(ks) + '/11/(xx)', ['in'], input_transpose=o)
    # the same tensor passed twice, and accessors
    for t in itertools.product(['x', 'y', 'r', 'xy', 'ip'], repeat=2):
        yield from emit('=a', t)
    for a in base:
        yield from emit('aa', [a, 'ip', 'cv'], preserve_tensors=True, missing_outputs_as_constants=True)


def tensor(kind, seed):
    sh, dt = KINDS[kind]
    g = torch.Generator().manual_seed(seed)
    t = torch.randn(sh, generator=g)
    if dt.startswith('float'):
        return t.to(getattr(torch, dt))
    if dt == 'bool':
        return t > 0
    return torch.randint(0, 5, sh, generator=g).to(getattr(torch, dt))


def nest_of(st, items):
    """'x(xx)' -> nested tuples of items."""
    it = iter(items)

    def go(i):
        out = []
        while i < len(st):
            if st[i] == 'x':
                out.append(next(it))
            elif st[i] in '([':
                sub, i = go(i + 1)
                out.append(tuple(sub) if st[i] == ')' else list(sub))
            else:
                return out, i
            i += 1
        return out, i

    return go(0)[0]


def build(p):
    """-> (module, function giving nested inputs and flat inputs for a seed)"""
    inp, outs = p['inp'], p['outs']
    if inp.startswith('+'):
        parts = inp[1:].split('/')
        ks, use = parts[0], parts[1]
        st = parts[2] if len(parts) > 2 else 'x' * len(ks)
        body = []
        names = iter(f'a{i}' for i in range(len(ks)))
        nst = st.replace('x', '?, ')
        sig = nest_of(st, list(names))
        args, lines = [], []

        def show(o):
            return o if isinstance(o, str) else '(' + ''.join(show(i) + ', ' for i in o) + ')'

        for j, s in enumerate(sig):
            args.append(f'i{j}')
            lines.append(f'{show(s)} = i{j}')
        terms = []
        for i, (k, u) in enumerate(zip(ks, use)):
            if u == '1':
                dt = KINDS[k][1]
                t = {'bool': f'a{i}.float() + 1.0', 'float32': f'a{i} * {i + 2}.0', 'float64': f'a{i} * 2.0', 'uint8': f'a{i}.float() * 2.0'}.get(dt, f'a{i} + {i + 1}')
                terms.append(t)
        if not terms:
            terms = ['self.p4 * 1.0']
        code = f'def forward(self, {", ".join(args)}):\n' + ''.join(f'    {l}\n' for l in lines) + f'    return {", ".join(terms)}\n'

        def gen(seed):
            xs = [tensor(k, seed * 31 + i) for i, k in enumerate(ks)]
            return nest_of(st, xs), xs
    else:
        same = inp.startswith('=')
        ks = inp.lstrip('=')
        use = None
        two = len(ks) == 2 or same
        exprs = [ATOMS[a] for a in outs]
        need = [v for v in PRE if any(v in _names(e) for e in exprs)]
        nest = p['nest']
        ret = NESTS[nest].format(*exprs) if nest else ', '.join(exprs)
        code = f'def forward(self, x{", y" if two else ""}):\n' + ''.join(f'    {PRE[v]}\n' for v in need) + f'    return {ret}\n'

        def gen(seed):
            if same:
                x = tensor(ks[0], seed)
                return [x, x], [x, x]
            xs = [tensor(k, seed * 31 + i) for i, k in enumerate(ks)]
            return xs, xs

    class M(nn.Module):
        def __init__(self):
            super().__init__()
            c = KINDS[ks[0]][0][1] if len(KINDS[ks[0]][0]) > 1 else 1
            self.p = nn.Parameter(torch.randn(2, 3))
            self.p4 = nn.Parameter(torch.randn(1, 2, 3, 4))
            self.conv = nn.Conv2d(c, 2, 1)
            self.drop = nn.Dropout(0.5)

    torch.manual_seed(3)
    m = M()
    m.eval()
    ns = {'torch': torch}
    exec(code, ns)
    cls = type('M3', (M,), {'forward': ns['forward']})
    m.__class__ = cls
    return m, gen, code


def _names(code):
    import ast

    return {n.id for n in ast.walk(ast.parse(code.strip(), mode='eval')) if isinstance(n, ast.Name)}


def run_case(p):
    lib.quiet_tinynn()
    m, gen, code = build(p)
    dummy, flat = gen(1)
    try:
        with torch.no_grad():
            want = lib.flatten(m(*dummy))
    except Exception as e:
        return {'status': 'reject', 'detail': 'PyTorch: ' + tfl.err(e), 'steps': 0}
    keep = [t.clone() for t in flat]
    opts = dict(p['opts'])
    for k in ('input_transpose', 'output_transpose'):
        if isinstance(opts.get(k), (tuple, list)):
            opts[k] = list(opts[k])
    before = {k: list(v) if isinstance(v, list) else v for k, v in opts.items()}
    path = lib.scratch(lib.uniq('m') + '.tflite')
    sub = ','.join(sorted(set(p['outs'])))
    try:
        try:
            path, c = tfl.convert(m, dummy, path, **opts)
        except Exception as e:
            if any(want_layout(opts.get('output_transpose'), True, want, i) and t.dim() != 4 for i, t in enumerate(want)) or any(
                want_layout(opts.get('input_transpose'), True, flat, i) and t.dim() != 4 for i, t in enumerate(flat)
            ):
                return {'status': 'reject', 'detail': 'transposition of a tensor that is not 4-d: ' + tfl.err(e), 'steps': 1}
            if any(a == b and want_layout(opts.get('output_transpose'), True, want, i) != want_layout(opts.get('output_transpose'), True, want, j) for i, a in enumerate(p['outs']) for j, b in enumerate(p['outs'])):
                return {'status': 'reject', 'detail': 'one tensor with two layouts: ' + tfl.err(e), 'steps': 1}
            if set(p['outs']) & CONSTS and not opts.get('missing_outputs_as_constants'):
                return {'status': 'reject', 'detail': 'constant outputs need missing_outputs_as_constants: ' + tfl.err(e), 'steps': 1}
            return {'status': 'refuse', 'detail': tfl.err(e), 'sig': 'convert', 'steps': 1}
        try:
            it = tfl.interpreter(path)
        except Exception as e:
            return {'status': 'refuse', 'detail': 'interpreter: ' + tfl.err(e), 'sig': 'interpreter', 'steps': 1}
        d = judge(p, m, gen, c, it, want, flat, keep, opts, before)
        if d:
            return {'status': 'fail', 'detail': d + '\n' + code, 'sig': 'v03:' + d[:60], 'steps': 3}
        return {'status': 'ok', 'steps': 3, 'nontrivial': True}
    finally:
        tfl.cleanup(path)


def want_layout(spec, nchw, tensors, i):
    if not nchw:
        return False
    if isinstance(spec, (list, tuple)):
        spec = spec[i]
    return tensors[i].dim() == 4 if spec is None else spec


def judge(p, m, gen, c, it, want, flat, keep, opts, before):
    nchw = opts.get('nchw_transpose', True)
    if opts != before:
        return f'option lists changed: {before} -> {opts}'
    if any(not torch.equal(a, b) for a, b in zip(flat, keep)):
        return 'dummy input changed'
    il = [want_layout(opts.get('input_transpose'), nchw, flat, i) for i in range(len(flat))]
    ol = [want_layout(opts.get('output_transpose'), nchw, want, i) for i in range(len(want))]
    if list(c.input_transpose) != il:
        return f'converter.input_transpose {c.input_transpose} != {il}'
    if len(c.get_outputs()) != len(want):
        return 'get_outputs: number'
    for i, (g, w) in enumerate(zip(c.get_outputs(), want)):
        if not isinstance(g, torch.Tensor) or (g.shape != w.shape and g.numel() * (w.dim() == 0) != 1) or not torch.allclose(g.double().reshape(w.shape), w.double(), 1e-4, 1e-5):
            return f'get_outputs()[{i}] is not the output of the model'
    ins = c.inputs_for_tflite()
    exp = [tfl.to_nhwc(t, l) for t, l in zip(flat, il)]
    if len(ins) != len(exp) or any(a.shape != b.shape or not np.array_equal(a, b) for a, b in zip(ins, exp)):
        return 'inputs_for_tflite() differs from the dummy input'
    names = [d['name'] for d in it.get_input_details()]
    if len(names) != len(set(names)):
        return f'input names repeated: {names}'
    for seed in (1, 2, 3):
        nested, xs = gen(seed)
        arrays = [tfl.to_nhwc(t, l) for t, l in zip(xs, il)]
        # every input of the file, also the unused ones, has the shape and type of the input of the model
        arrays = [a.astype(d['dtype']) if str(a.dtype) == 'float64' and d['dtype'] == np.float32 else a for a, d in zip(arrays, it.get_input_details())]
        try:
            got = tfl.run(it, arrays)
        except lib.Fail as e:
            return str(e)
        with torch.no_grad():
            w = lib.flatten(m(*nested))
        w = [t.float() if t.dtype == torch.float64 else t for t in w]
        e = tfl.agree(got, w, nhwc=ol)
        if e:
            return e
    if opts.get('preserve_tensors'):
        for n in c.tensor_names():
            v = c.get_value(n)
            if not isinstance(v, torch.Tensor) and not (hasattr(v, '__len__') or v is None):
                return f'get_value({n}): {type(v)}'
        if any(n not in c.tensor_names() and isinstance(c.tensor_map[n], torch.Tensor) and n not in c.common_graph.inputs for n in c.common_graph.outputs):
            return 'tensor_names lacks an output'
    return None
