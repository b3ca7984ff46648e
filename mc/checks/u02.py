"""U02: exported converter configuration."""
import itertools
import json
import os
import shutil

import numpy as np
import torch

from .. import lib, tfl

PROPERTY = 'U02'
LEVEL = 'model_checking'
RULE = (
    'all layouts of one to three inputs and outputs over ranks, types, nestings and transposition requests within the stated bounds are exported with the real exporter (and through the dump options of the converter), parsed back and converted; '
    'the parsed values must be those exported and the model must be the one the direct conversion gives (same file, or same interface and outputs). Non-trivial: both conversions were made and compared.'
)
ASSUMPTIONS = ['inputs and outputs are tensors, lists or tuples of tensors']
RECYCLE = 300
RANKS = {1: [4], 2: [2, 4], 3: [2, 3, 4], 4: [1, 2, 3, 4], 5: [1, 2, 1, 3, 2]}


def cases(tier):
    seen = set()
    for i, p in _cases(tier):
        if i not in seen:
            seen.add(i)
            yield i, p


def _cases(tier):
    quick = tier == 'quick'
    ranks = (2, 4, 3) if quick else (1, 2, 3, 4, 5)
    its = ('none', 'true', 'false', 'list', 'tuple', 'alt')
    for n in (1, 2, 3):
        for rs in itertools.product(ranks, repeat=n):
            for m in range(1, 5):
                for it, ot in itertools.product(its, its) if n == 1 and m == 1 else [(i, 'none') for i in its] + [('none', o) for o in its[1:]]:
                    if quick and n == 3 and (m > 2 or it != 'none' and ot != 'none' or it in ('true', 'tuple')):
                        continue
                    for nest in ('flat',) if m < 2 or it != 'none' else ('flat', 'list', 'in', 'in2'):
                        for ex in ('files', 'dump') if ot == 'none' and m < 3 else ('files',):
                            p = dict(rs=rs, m=m, it=it, ot=ot, nest=nest, ex=ex, dt='f', name='net', d='e')
                            yield cid(p), p
    for rs, dt, it in itertools.product(((2,), (4,), (4, 2)), ('f', 'i', 'l', 'b', 'd', 'h'), ('none', 'false')):
        for ex in ('files', 'dump'):
            p = dict(rs=rs, m=1, it=it, ot='none', nest='flat', ex=ex, dt=dt, name='net', d='e')
            yield cid(p), p
    for name, d, ex in itertools.product(('net', 'net.pt', 'a.b', 'x.pth', None), ('e', 'e.pt', 'e.pts/x', 'e f', '.'), ('files', 'dump')):
        p = dict(rs=(4, 2), m=2, it='none', ot='none', nest='flat', ex=ex, dt='f', name=name, d=d)
        yield cid(p), p


def cid(p):
    return ','.join(f'{k}={v}' for k, v in p.items()).replace(' ', '')


def req(kind, ranks):
    if kind in ('none', 'true', 'false'):
        return {'none': None, 'true': True, 'false': False}[kind]
    v = [r == 4 if kind != 'alt' else r == 4 and k % 2 == 0 for k, r in enumerate(ranks)]
    return tuple(v) if kind == 'tuple' else v


def model(p):
    n = len(p['rs'])
    cast = {'f': '{}', 'd': '{}.float()', 'h': '{}.float()', 'i': '{}.float()', 'l': '{}.float()', 'b': '{}.float()', 'u': '{}.float()'}[p['dt']]
    f = [cast.format(f'x{k}') for k in range(n)]
    outs = [f'{f[k % n]} * {k + 2}.0 + {k}.5' for k in range(p['m'])]
    if p['nest'] == 'list':
        ret = '[' + ', '.join(outs) + ']'
    elif p['nest'] == 'in':
        ret = f'({outs[0]}, ({", ".join(outs[1:])},))'
    elif p['nest'] == 'in2':
        ret = f'(({", ".join(outs[:-1])},), {outs[-1]})'
    else:
        ret = ', '.join(outs)
    return lib.build(f'class M(nn.Module):\n    def forward(self, {", ".join(f"x{k}" for k in range(n))}):\n        return {ret}\n', 'M', 'u02')


def run_case(p):
    from tinynn.converter import TFLiteConverter
    from tinynn.util.converter_util import export_converter_files, parse_config

    lib.quiet_tinynn()
    dt = {'f': torch.float32, 'i': torch.int32, 'l': torch.int64, 'b': torch.bool, 'd': torch.float64, 'u': torch.uint8, 'h': torch.float16}[p['dt']]
    m = model(p).eval()
    xs = [(torch.arange(int(np.prod(RANKS[r]))).reshape(RANKS[r]) % 7 - (0 if p['dt'] in 'bu' else 3)).to(dt) for r in p['rs']]
    onk = [p['rs'][k % len(p['rs'])] for k in range(p['m'])]
    it, ot = req(p['it'], p['rs']), req(p['ot'], onk)
    if it is True and any(r != 4 for r in p['rs']) or ot is True and any(r != 4 for r in onk):
        return {'status': 'reject', 'detail': 'transposition of tensors that are not four dimensional', 'steps': 0}
    keep = [list(v) if isinstance(v, list) else v for v in (it, ot)]
    base = lib.scratch(lib.uniq('u2'))
    d = os.path.join(base, p['d'])
    os.makedirs(d, exist_ok=True)
    dummy = tuple(xs)
    try:
        try:
            if p['ex'] == 'files':
                export_converter_files(m, dummy if len(xs) > 1 or p['it'] != 'none' else xs[0], d, p['name'], it, ot)
                name = p['name'] or 'jit_model'
                js, pt, tf = (os.path.join(d, name + e) for e in ('.json', '.pt', '.tflite'))
            else:
                name = p['name'] or 'x'
                js, pt, tf = (os.path.join(d, name + e) for e in ('.json', '.pt', '.tflite'))
                c = TFLiteConverter(m, dummy, tf, it, ot, dump_jit_model_path=pt, dump_config_path=js, dump_dummy_input_path=os.path.join(d, 'in.npz'))
                c.convert()
                npz = np.load(os.path.join(d, 'in.npz'))
                if [npz[k].tolist() for k in npz.files] != [x.numpy().tolist() for x in xs] or [npz[k].dtype for k in npz.files] != [x.numpy().dtype for x in xs]:
                    raise lib.Fail('dumped inputs differ')
        except lib.Fail:
            raise
        except Exception as e:
            return {'status': 'refuse', 'detail': 'refused: ' + tfl.err(e), 'steps': 1}
        if [it, ot] != keep:
            raise lib.Fail(f'the requested transpositions were changed: {[it, ot]} instead of {keep}')
        if not os.path.exists(js) or not os.path.exists(pt):
            raise lib.Fail(f'files {sorted(os.listdir(d))} and {sorted(os.listdir(base))}: {os.path.basename(js)} or {os.path.basename(pt)} missing')
        src, dst, pit, pin, pot = parse_config(js)
        want_it = [r == 4 if it is None else it if isinstance(it, bool) else it[k] for k, r in enumerate(p['rs'])]
        want_ot = [r == 4 if ot is None else ot if isinstance(ot, bool) else ot[k] for k, r in enumerate(onk)]
        if p['ex'] == 'dump':
            want_ot = []
        if (os.path.abspath(src), os.path.abspath(dst)) != (os.path.abspath(pt), os.path.abspath(tf)):
            raise lib.Fail(f'paths {src}, {dst} instead of {pt}, {tf}')
        if list(pit) != want_it or list(pot) != want_ot:
            raise lib.Fail(f'transpositions {pit}, {pot} instead of {want_it}, {want_ot}')
        if [(list(t.shape), t.dtype) for t in pin] != [(list(t.shape), t.dtype) for t in xs]:
            raise lib.Fail(f'inputs {[(list(t.shape), t.dtype) for t in pin]} instead of {[(list(t.shape), t.dtype) for t in xs]}')
        js0 = json.load(open(js))
        p2 = parse_config(js, prepare_inputs=False)
        if (p2[0], p2[1], list(p2[2]), p2[3], list(p2[4])) != (src, dst, list(pit), None, list(pot)):
            raise lib.Fail(f'prepare_inputs=False gives {p2}')
        steps = 2
        if p['dt'] in 'dh':
            return {'status': 'ok', 'steps': steps, 'nontrivial': True, 'sig': 'config'}
        lost = torch.jit.load(src).eval()
        try:
            with torch.no_grad():
                a = os.path.join(base, 'a.tflite')
                TFLiteConverter(model(p).eval(), dummy, a, req(p['it'], p['rs']), req(p['ot'], onk)).convert()
        except Exception as e:
            return {'status': 'refuse', 'detail': 'direct conversion: ' + tfl.err(e), 'steps': steps}
        with torch.no_grad():
            TFLiteConverter(lost, pin, dst, pit, pot if p['ex'] == 'files' else req(p['ot'], onk)).convert()
        A, B = open(a, 'rb').read(), open(dst, 'rb').read()
        sig = 'same' if A == B else 'equiv'
        ia, ib = tfl.interpreter(A), tfl.interpreter(B)
        for f in ('get_input_details', 'get_output_details'):
            da, db = [[(tuple(t['shape']), t['dtype']) for t in getattr(i, f)()] for i in (ia, ib)]
            if da != db:
                raise lib.Fail(f'{f}: {db} instead of {da}')
        feeds = [x.numpy().transpose(0, 2, 3, 1) if t else x.numpy() for x, t in zip(xs, want_it)]
        ra, rb = tfl.run(ia, feeds), tfl.run(ib, feeds)
        if len(ra) != p['m']:
            raise lib.Fail(f'{len(ra)} outputs')
        for u, v in zip(ra, rb):
            if not np.array_equal(u, v):
                raise lib.Fail('outputs differ')
        flat = lib.flatten(m(*xs))
        e = tfl.agree(rb, flat, nhwc=want_ot or [r == 4 for r in onk])
        if e:
            raise lib.Fail(e)
        return {'status': 'ok', 'steps': steps + 3, 'nontrivial': True, 'sig': sig}
    finally:
        shutil.rmtree(base, ignore_errors=True)
