"""Q07: DeQuantizer restores the floating point computation."""
import itertools
import os
import shutil

import torch
import torch.nn as nn

from .. import lib, quantprog
from ..quantprog import SHAPES, chain
from . import q01

PROPERTY = 'Q07'
LEVEL = 'model_checking'
RULE = (
    'the models generated by the real quantizers for all programs of the alphabet within the stated bounds, and all hand written quantized programs made of at most the stated number of FloatFunctional calls (own and shared instances, every order of operands), '
    'are passed to the real DeQuantizer for each target; the result must hold no quantization module, be in the mode of its target and compute what the quantized model computes without rounding. Non-trivial: a quantized model was rewritten and outputs were compared.'
)
ASSUMPTIONS = ['generic finite inputs, float32, CPU']
RECYCLE = 250

FF = {'add': '{f}.add({a}, {b})', 'mul': '{f}.mul({a}, {b})', 'cat': '{f}.cat([{a}, {b}], 1)', 'catk': '{f}.cat(({a}, {b}, {a}), dim=-1)', 'cat0': '{f}.cat([{a}, {b}])', 'addr': '{f}.add_relu({a}, {b})', 'adds': '{f}.add_scalar({a}, 1.5)', 'muls': '{f}.mul_scalar({a}, -0.7)', 'matmul': '{f}.matmul({a}, {b})', 'adds2': '{f}.add_scalar({a}, 3)'}
PLAIN = {'relu': 'F.relu({a})', 'conv': 'self.c({a})', 'rs': '{a}.reshape({a}.shape[0], -1).view({a}.shape)', 'neg': 'torch.neg({a})', 'dqq': 'self.q1(self.d1({a}))'}


def cases(tier):
    quick = tier == 'quick'
    for sh in ('i', 's', 'v', 'q'):
        l = q01.LAYERS[sh][0]
        for o in q01.UN:
            if q01.ONLY[sh] and o not in q01.ONLY[sh] or not q01.ONLY[sh] and o in q01.ONLY['q'] or sh in 'sv' and o in q01.LAYERS['i'] and o != 'bn':
                continue
            for st in ([l, o], [l, o, 'res']) if sh in 'iq' or not quick else ([l, o],):
                for k in ('qat', 'ptq') if not quick or sh == 'i' and len(st) == 2 else ('qat',):
                    yield f'{"-".join(st)}:{sh}:{k}', dict(g='gen', st=chain(st), sh=sh, outs=[f'v{len(st) - 1}'], k=k, t='qat' if k == 'qat' else 'ptq')
    for sh in ('i', 's', 'v'):
        l = q01.LAYERS[sh][0]
        for j, m in itertools.product([b for b in quantprog.BIN if b not in q01.OUT], ['relum', 'bn', 'neg', l]):
            for s in ([[l, ['x0']], [m, ['v0']], [j, ['v0', 'v1']]], [[l, ['x0']], [m, ['v0']], [j, ['v1', 'v0']], ['relu', ['v2']]]):
                yield f'{j}-{m}-{len(s)}:{sh}', dict(g='gen', st=s, sh=sh, outs=[f'v{len(s) - 1}'], k='qat', t='qat')
    for keep in itertools.product(('v0', 'v1', 'v2', 'x0'), repeat=2):
        for m in ('relum', 'res', 'addk'):
            yield f'outs:{m}:{",".join(keep)}', dict(g='gen', st=chain(['conv', m, 'mulk']), sh='i', outs=list(keep), k='qat', t='qat')
    pool = list(FF) + list(PLAIN)
    for n in (1, 2) if quick else (1, 2, 3):
        for ops in itertools.product(pool, repeat=n):
            if not any(o in FF for o in ops):
                continue
            for ar in itertools.product(('p', 'r', 's'), repeat=n):  # second operand: the input, reversed, the same value
                if any(a != 'p' and o in PLAIN or a == 's' and 'adds' in o for a, o in zip(ar, ops)):
                    continue
                for share in (0, 1) if n > 1 else (0,):
                    for t in ('qat', 'ptq') if n == 1 else ('qat',):
                        yield f'ff:{"-".join(ops)}:{"".join(ar)}:{share}:{t}', dict(g='ff', ops=ops, ar=ar, share=share, t=t)
    for two in itertools.product((0, 1), repeat=3):
        yield f'stubs:{two}', dict(g='ff', ops=('add', 'relu', 'muls'), ar='ppp', share=0, t='qat', two=two)


def ff_source(p):
    n = len(p['ops'])
    two = p.get('two', (0, 0, 0))
    init = ['self.q = torch.quantization.QuantStub()', 'self.d = torch.quantization.DeQuantStub()', 'self.c = nn.Conv2d(3, 3, 3, padding=1)', 'self.q1 = torch.quantization.QuantStub()', 'self.d1 = torch.quantization.DeQuantStub()']
    init += [f'self.f{k} = torch.nn.quantized.FloatFunctional()' for k in range(n)]
    body = ['x = self.q(x0)' if not two[0] else 'x = self.q1(x0)', 'v = x']
    for k, (o, a) in enumerate(zip(p['ops'], p['ar'])):
        e = dict(FF, **PLAIN)[o]
        A, B = ('v', 'x') if a == 'p' else ('x', 'v') if a == 'r' else ('v', 'v')
        body.append('v = ' + e.format(f=f'self.f{0 if p["share"] else k}', a=A, b=B))
    ret = 'self.d(v)' if not two[1] else 'self.d(v), v' if not two[2] else 'self.d(v), self.d(x)'
    return 'class QF(nn.Module):\n    def __init__(self):\n        super().__init__()\n' + ''.join(f'        {l}\n' for l in init) + '    def forward(self, x0):\n' + ''.join(f'        {l}\n' for l in body) + f'        return {ret}\n'


def run_case(p):
    from tinynn.graph.quantization.quantizer import DeQuantizer
    from tinynn.util.util import import_from_path

    lib.quiet_tinynn()
    d = lib.scratch(lib.uniq('dq'))
    os.makedirs(d, exist_ok=True)
    try:
        if p['g'] == 'gen':
            shape = SHAPES[p['sh']]
            x = lib.gen_inputs([shape], 0)[0]
            ref, src = quantprog.make(p['st'], p['outs'], [x], repr(p['st']))
            if ref is None:
                return {'status': 'reject', 'detail': 'not a PyTorch program', 'steps': 0}
            try:
                quantprog.quantizer(p['k'], ref, x, {}, d).quantize()
                qm = import_from_path(f'mcq.{lib.uniq("q")}', os.path.join(d, 'm_q.py'), 'QM')()
                qm.load_state_dict(torch.load(os.path.join(d, 'm_q.pth')))
            except BaseException as e:
                if isinstance(e, (KeyboardInterrupt, MemoryError)) or type(e).__name__ == 'CaseTimeout':
                    raise
                return {'status': 'reject', 'detail': 'not quantized: ' + quantprog.err(e), 'steps': 0}
            qsrc = src
        else:
            shape = [1, 3, 4, 4]
            x = lib.gen_inputs([shape], 0)[0]
            qsrc = ff_source(p)
            qm = lib.build(qsrc, 'QF', 'ff')
            ref = quantprog.clone(qm)
            try:
                ref(x)
            except Exception:
                return {'status': 'reject', 'detail': 'not a PyTorch program', 'steps': 0}
        qm.train(p['t'] == 'qat')
        hadq = any(isinstance(m, (torch.quantization.QuantStub, torch.quantization.DeQuantStub, torch.ao.nn.quantized.FloatFunctional)) for m in qm.modules())
        try:
            fm = DeQuantizer(qm, x, d, {'target': p['t']}).dequantize()
        except BaseException as e:
            if isinstance(e, (KeyboardInterrupt, MemoryError)) or type(e).__name__ == 'CaseTimeout':
                raise
            return {'status': 'refuse', 'detail': 'refused: ' + quantprog.err(e) + '\n' + qsrc, 'steps': 1}
        for n, m in fm.named_modules():
            if isinstance(m, (torch.quantization.QuantStub, torch.quantization.DeQuantStub, torch.ao.nn.quantized.FloatFunctional)):
                raise lib.Fail(f'{type(m).__name__} {n} is left in the model\n{qsrc}')
            if m.training != (p['t'] == 'qat') and not isinstance(m, nn.Identity):
                raise lib.Fail(f'{n or "the model"} is{" not" if p["t"] == "qat" else ""} in training mode\n{qsrc}')
        steps = 0
        names = [o for o, _ in p['st']] if p['g'] == 'gen' else []
        rnd = any(o in q01.RAND for o in names)
        for train in (False,) if rnd else (False, True):
            fm.train(train)
            ref.train(train)
            for k in (1, 2):
                y = lib.gen_inputs([shape], k)[0]
                with torch.no_grad():
                    want = ref(y.clone())
                    try:
                        got = fm(y.clone())
                    except Exception as e:
                        return {'status': 'refuse', 'detail': f'restored model does not run: {quantprog.err(e)}\n{qsrc}', 'steps': steps}
                e = quantprog.sqnr_close(got, want, 2e-4, 1e-5)
                if e:
                    raise lib.Fail(f'{"training" if train else "evaluation"} mode: {e}\n{qsrc}')
                steps += 1
        return {'status': 'ok', 'detail': '', 'steps': steps, 'nontrivial': hadq, 'sig': str(hadq) + p['g']}
    finally:
        shutil.rmtree(d, ignore_errors=True)
