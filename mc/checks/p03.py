"""P03: histories of pruner operations, configurations as dict or file, masks, ADMM."""
import collections
import copy
import itertools
import os
import shutil
import tempfile

import torch
import torch.nn as nn

from .. import lib, pruneprog
from .p01 import S, lib_err
from .p02 import T

PROPERTY = 'P03'
LEVEL = 'model_checking'
RULE = (
    'every legal history of pruner operations up to the stated length (register_mask, apply_mask, prune, reset, calc_flops, generate_config + new pruner '
    'from the file, new pruner from the same object, inference, masked inference) on every topology and configuration; after every operation weights, outputs, configuration object, '
    'dummy input, flags and leftovers are compared with a reference that only ever uses fresh pruners. ADMM: every number of iterations, epochs and every '
    'sparsity, with a training function that observes and moves the weights. Non-trivial: something was removed.'
)
ASSUMPTIONS = ['weights are distinct generic values', 'register after apply needs a reset or a new pruner, as documented by reset()']
RECYCLE = 300

TOPO = ['conv3', 'convlin', 'lin3', 'add', 'res', 'cat', 'dw', 'into_group', 'conv1', 'gru', 'lstm', 'rnn2', 'chadd', 'dconv', 'wadd', 'gruadd']
EXTRA = {
    # a constant parameter in the graph: such subgraphs are left alone
    'wadd': ([['conv', ['x0']], ['addc', ['v0']], ['conv', ['v1']], ['relu', ['v2']], ['conv', ['v3']]], 'i', []),
}
# chains of layers that are run with masks
MASKED = {}
for _sh, _ls, _ms in (
    ('i', ['conv', 'convb', 'dconv'], ['', 'relu', 'bn', 'brelu', 'prelu', 'bnna', 'maxp', 'chs', 'sp', 'catx', 'res', 'rest', 'se', 'ups', 'dw', 'dw+brelu']),
    ('s', ['conv1', 'dconv1'], ['', 'relu', 'bn', 'prelu', 'dw1']),
    ('q', ['lin', 'linb', 'rnn', 'gru', 'lstm', 'rnn2', 'gru2', 'bilstm', 'birnn', 'bigru2', 'bilstm2', 'lstmp', 'lstmp2', 'bilstmp'], ['', 'relu', 'resl', 'swish']),
):
    for _a in _ls:
        for _m in _ms:
            for _b in [_ls[0], _a] + (['flat+lin'] + ['gconv'] * (_m not in ('chs', 'catx')) if _sh == 'i' else []):
                if (_a, _m, _b) == ('dconv', 'ups', 'dconv'):
                    continue  # too large
                _st = [_a] + _m.split('+') * bool(_m) + _b.split('+')
                MASKED['-'.join(_st) + ':' + _sh] = ([[o, [f'v{i - 1}' if i else 'x0']] for i, o in enumerate(_st)], _sh)
CFG = {
    'half': {'sparsity': 0.5, 'metrics': 'l2_norm'},
    'dict': {'sparsity': {'default': 0.25, 'm0': 0.5}, 'metrics': 'l1_norm', 'skip_last_fc': False},
    'excl': {'sparsity': {'default': 0.5}, 'metrics': 'l2_norm', 'exclude_ops': ['relu', nn.GRU, 'cat', 'add']},
    'comp': {'sparsity': 0.5, 'metrics': 'l2_norm', 'bn_compensation': True},
    'od': collections.OrderedDict([('metrics', 'l1_norm'), ('sparsity', collections.OrderedDict([('default', 0.75)]))]),
    'zero': {'sparsity': {'default': 0.5, 'm0': 0.0}, 'metrics': 'l2_norm'},
    'one': {'sparsity': {'default': 0.0, 'm0': 0.5, 'm2': 0.25}, 'metrics': 'l1_norm', 'skip_last_fc': False},
    'many': {'sparsity': {'m0': 0.25, 'default': 0.5, 'm1': 0.5, 'm3': 0.75, 'm4': 0.0}, 'metrics': 'l2_norm', 'skip_last_fc': False},
    'mult': {'sparsity': 0.6, 'metrics': 'l2_norm', 'multiple': 2},
    'fpgm': {'sparsity': 0.25, 'metrics': 'fpgm'},
    'skip': {'sparsity': {'default': 0.5, 'm3': 0.25}, 'metrics': 'l2_norm', 'exclude_ops': ['relu', 'cat']},
    'comp2': {'sparsity': {'default': 0.5, 'm0': 0.25}, 'metrics': 'l1_norm', 'bn_compensation': True, 'skip_last_fc': False},
    'ident': {'sparsity': 0.5, 'metrics': 'l2_norm'},
    'identmin': {},
    'identnone': None,
}
# state -> operation -> next state
AUTO = {
    'fresh': {'R': 'reg', 'P': 'done', 'S': 'fresh', 'N': 'fresh', 'F': 'fresh', 'C': 'fresh', 'I': 'fresh'},
    'reg': {'A': 'done', 'S': 'fresh', 'N': 'fresh', 'F': 'fresh', 'C': 'reg', 'I': 'reg', 'E': 'reg'},
    'done': {'S': 'fresh', 'N': 'fresh', 'F': 'fresh', 'C': 'done', 'I': 'done'},
}


def histories(depth):
    def rec(state, h):
        if len(h) == depth:
            if any(o in 'PA' for o in h):
                yield h
            return
        for o, n in AUTO[state].items():
            if h and o == h[-1] and o in 'CIE':
                continue
            yield from rec(n, h + o)

    yield from rec('fresh', '')


def cases(tier):
    quick = tier == 'quick'
    for t in TOPO:
        for c in ('half', 'dict', 'excl', 'comp', 'od', 'ident', 'identmin', 'identnone'):
            if c.startswith('ident') and t not in ('conv3', 'dw', 'res', 'into_group'):
                continue
            deep = (t, c) in (('convlin', 'half'),) if quick else (t, c) in (('convlin', 'half'), ('wadd', 'half'), ('gru', 'dict'))
            few = quick and not deep and t not in (('conv3', 'into_group') if c.startswith('ident') else ('convlin', 'gru', 'cat') if c != 'excl' else ('convlin', 'gru', 'cat', 'lin3', 'res', 'wadd'))
            for h in histories((4 if deep else 2 if few else 3) if quick else (5 if deep else 4)):
                yield f'{t}:{c}:{h}', {'t': t, 'c': c, 'h': h}
    # written configurations
    for t in T:
        for c in ('zero', 'one', 'many', 'mult', 'fpgm', 'skip', 'comp2'):
            if c == 'fpgm' and t not in ('conv3', 'convlin', 'lin3', 'add', 'res', 'cat', 'into_group') or (t, c) == ('into_group', 'mult'):
                continue
            for h in ('FP', 'FRA', 'FFP'):
                yield f'{t}:{c}:{h}', {'t': t, 'c': c, 'h': h}
    # masks in effect, of every kind of layer
    for t in T:
        for c in ('half', 'dict', 'od'):
            yield f'{t}:{c}:REA:m', {'t': t, 'c': c, 'h': 'REA'}
    for t in MASKED:
        for c in ('half', 'dict')[: 1 if 'bi' in t else 2]:  # (the directions of a layer are pruned evenly)
            yield f'{t}:{c}:REA:m', {'t': t, 'c': c, 'h': 'REA'}
    for t in ('conv3', 'convlin', 'lin3') if quick else TOPO:
        for c in ('half', 'dict', 'excl', 'od'):
            for h in ('P', 'SP', 'RA', 'PSP', 'FP'):
                for form in ('yml', 'json'):
                    yield f'{t}:{c}:{h}:{form}', {'t': t, 'c': c, 'h': h, 'form': form}
    for t in ('conv3', 'convlin', 'add', 'res', 'cat', 'into_group', 'lin3', 'wadd') if quick else TOPO:
        for it, ep in itertools.product((1, 2, 3), (1, 2, 4)):
            for c in ('half', 'dict', 'excl'):
                yield f'admm:{t}:{c}:{it}:{ep}', {'admm': True, 't': t, 'c': c, 'it': it, 'ep': ep}
    yield 'netadapt:construct', {'netadapt': True}


def build(t):
    st, sh = (EXTRA.get(t) or MASKED.get(t) or T[t])[:2]
    x = lib.gen_inputs([S[sh]], 0)[0]
    used = {a for _, args in st for a in args}
    outs = [f'v{i}' for i in range(len(st)) if f'v{i}' not in used]
    model, src = pruneprog.make(st, outs, ['x0'], [x], t)
    with torch.no_grad():
        for m in model.modules() if t not in MASKED else ():  # some dead channels for identity pruning
            if isinstance(m, nn.BatchNorm2d):
                m.running_var[: m.num_features // 4] = 1e-12 * (1 + torch.arange(m.num_features // 4))
    return model, src, x


def pruner(c, model, x, cfg):
    from tinynn.prune import OneShotChannelPruner
    from tinynn.prune.identity_pruner import IdentityChannelPruner

    return (IdentityChannelPruner if c.startswith('ident') else OneShotChannelPruner)(model, x, cfg)


def same_state(a, b, what):
    sa, sb = a.state_dict(), b.state_dict()
    if list(sa) != list(sb):
        raise lib.Fail(f'{what}: entries {sorted(set(sa) ^ set(sb))} of the state differ')
    for k in sa:
        if sa[k].shape != sb[k].shape or not torch.equal(sa[k], sb[k]):
            raise lib.Fail(f'{what}: {k} is {tuple(sa[k].shape)} and differs from that of a fresh pruner {tuple(sb[k].shape)}')


def strip(sd):
    return {k: v for k, v in sd.items() if not k.endswith('_mask')}


def run_case(p):
    lib.quiet_tinynn()
    if p.get('netadapt'):
        return netadapt()
    d = lib.scratch(lib.uniq('p03'))
    os.makedirs(d, exist_ok=True)
    try:
        if p.get('admm'):
            return admm(p, d)
        return history(p, d)
    except lib.Fail as e:
        return {'status': 'fail', 'detail': f'{e}\n{p}', 'steps': 1}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def dump(cfg, path, form):
    import json

    import ruamel.yaml

    def plain(v):
        return {k: plain(w) for k, w in v.items()} if isinstance(v, dict) else v

    with open(path, 'w') as f:
        if form == 'json':
            json.dump(plain(cfg), f)
        else:
            ruamel.yaml.YAML().dump(plain(cfg), f)


def history(p, d):
    model, src, x = build(p['t'])
    c = p['c']
    base = CFG[c]
    if p.get('form'):
        base = copy.deepcopy(base)
        base.pop('exclude_ops', None)
        arg = os.path.join(d, 'cfg.' + p['form'])
        dump(base, arg, p['form'])
        text = open(arg).read()
    else:
        if c == 'excl' and 'F' in p['h']:
            base = dict(base, exclude_ops=['relu', 'cat', 'add'])  # classes cannot be written to a file
        arg = copy.deepcopy(base)
    ref = copy.deepcopy(model)
    xs = x.clone()
    y = lib.gen_inputs([list(x.shape)], 1)[0]
    removed = False

    def reference():
        """one round of pruning by a fresh pruner with a fresh configuration"""
        try:
            pruner(c, ref, x.clone(), copy.deepcopy(base)).prune()
        except Exception as e:
            raise Refused(lib_err(e))

    model.eval()
    ref.eval()
    mode = {k: m.training for k, m in model.named_modules()}
    try:
        pr = pruner(c, model, x, arg)
    except Exception as e:
        return {'status': 'refuse', 'detail': 'construction: ' + lib_err(e), 'steps': 1}
    state = 'fresh'
    flops = {}
    n = 0
    for i, op in enumerate(p['h']):
        before = {k: v.clone() for k, v in strip(model.state_dict()).items()}
        try:
            if op in 'PA':
                reference()
        except Refused as e:
            return {'status': 'refuse', 'detail': 'reference: ' + str(e), 'steps': n}
        what = f'operation {i} ({op}) of {p["h"]}'
        try:
            if op == 'R':
                pr.register_mask()
            elif op == 'A':
                pr.apply_mask()
            elif op == 'P':
                pr.prune()
            elif op == 'S':
                pr.reset()
            elif op == 'N':
                pr = pruner(c, model, x, arg)
            elif op == 'F':
                f = os.path.join(d, f'{i}.yml')
                pr.generate_config(f)
                pr = pruner(c, model, x, f)
            elif op == 'C':
                v = pr.calc_flops()
            elif op == 'I':
                with torch.no_grad():
                    model(y)
            elif op == 'E':
                masked_run(pr, model, ref, c, x, y, base, what)
        except lib.Fail:
            raise
        except Exception as e:
            raise lib.Fail(f'{what} failed: {lib_err(e)}')
        state = AUTO[state][op]
        n += 1
        if op == 'E':
            with torch.no_grad():  # the masks were written into the weights: undo
                for k, t in strip(model.state_dict()).items():
                    t.copy_(before[k])
        if op in 'PA':
            same_state(model, ref, what)
            removed = removed or any(tuple(before[k].shape) != tuple(t.shape) for k, t in strip(model.state_dict()).items())
            for k, m in model.named_modules():
                if hasattr(m, 'masker') or len(m._forward_pre_hooks) or len(m._forward_hooks):
                    raise lib.Fail(f'{what}: {k} still has a masker or hooks')
        else:
            now = strip(model.state_dict())
            if list(now) != list(before) or any(not torch.equal(now[k], before[k]) for k in now):
                raise lib.Fail(f'{what} changes weights')
        if op in 'PA' and any(t.numel() == 0 for t in ref.parameters()):
            return {'status': 'reject', 'detail': 'nothing is left of a layer', 'steps': n}
        with torch.no_grad():
            a, b = lib.flatten(model(y)), lib.flatten(ref(y))
        if any(u.shape != v.shape or not torch.allclose(u, v, rtol=1e-5, atol=1e-6) for u, v in zip(a, b)):
            raise lib.Fail(f'{what}: outputs differ from those after pruning with fresh pruners')
        if op == 'C':
            key = (sum(t.numel() for t in model.parameters()), state)
            if flops.setdefault(key, v) != v:
                raise lib.Fail(f'{what}: {v} flops, {flops[key]} before')
        if {k: m.training for k, m in model.named_modules()} != mode:
            raise lib.Fail(f'{what} changes training flags')
        if not torch.equal(x, xs):
            raise lib.Fail(f'{what} changes the dummy input')
        if p.get('form'):
            if open(arg).read() != text:
                raise lib.Fail(f'{what} changes the configuration file')
        elif arg != base or type(arg) is not type(base):
            raise lib.Fail(f'{what}: the configuration given by the user {base} has become {arg}')
    return {'status': 'ok', 'detail': '', 'steps': n, 'nontrivial': removed, 'sig': p['h']}


class Refused(Exception):
    pass


def masked_run(pr, model, ref, c, x, y, base, what):
    """A model whose masks are in effect computes what the pruned one does, the removed outputs being zero"""
    twin = copy.deepcopy(ref)
    try:
        pruner(c, twin, x.clone(), copy.deepcopy(base)).prune()
    except Exception as e:
        raise lib.Fail(f'{what}: pruning the reference fails: {lib_err(e)}')
    if c == 'comp' or c.startswith('ident'):
        return  # the biases are changed by the compensation
    for m in pr.graph_modifier.modifiers.values():
        m.enable_mask()
    try:
        with torch.no_grad():
            a, b = lib.flatten(model(y)), lib.flatten(twin(y))
    finally:
        for m in pr.graph_modifier.modifiers.values():
            m.disable_mask()
    for u, v in zip(a, b):
        al, dim = pruneprog.aligned(v, u)
        if al is None or not torch.allclose(al, v, rtol=1e-4, atol=1e-5):
            raise lib.Fail(f'{what}: the model with masks computes something else than the pruned one')


def admm(p, d):
    from tinynn.prune import ADMMPruner
    from tinynn.util.train_util import DLContext

    model, src, x = build(p['t'])
    cfg = {**copy.deepcopy(CFG[p['c']]), 'admm_iterations': p['it'], 'admm_epoch': p['ep'], 'rho': 0.3, 'admm_lr': 0.05, 'admm_dir': os.path.join(d, 'admm')}
    user = copy.deepcopy(cfg)
    plain = copy.deepcopy(CFG[p['c']])
    ctx = DLContext()
    ctx.device = torch.device('cpu')
    ctx.train_loader = ctx.val_loader = [1]
    crit = lambda o, t: o.sum() * 0.0 + 1.0  # noqa: E731
    ctx.criterion = crit
    ctx.optimizer = torch.optim.SGD(model.parameters(), lr=0.5)
    seen = []
    vals = []
    names = {id(m): k for k, m in model.named_modules()}
    drift = {k: (torch.arange(t.numel()).reshape(t.shape) % 7 - 3) * 0.01 for k, t in model.named_parameters()}

    def train(m, context):
        lr = context.optimizer.param_groups[0]['lr']
        loss = float(context.criterion(torch.zeros(2), None))
        seen.append((context.epoch, lr, loss, {k: t.detach().clone() for k, t in m.named_parameters() if not k.endswith('_mask')}))
        with torch.no_grad():
            for k, t in m.named_parameters():
                if k in drift:
                    t.add_(drift[k] * context.epoch)

    ctx.train_func = train
    ctx.validate_func = lambda m, context: vals.append(context.epoch)
    try:
        pr = ADMMPruner(model, x, cfg, ctx)
    except Exception as e:
        return {'status': 'refuse', 'detail': 'construction: ' + lib_err(e), 'steps': 1}
    start = copy.deepcopy(model)
    centers = {n.unique_name: names[id(n.module)] for n in pr.center_nodes}
    try:
        pr.prune()
    except Exception as e:
        raise lib.Fail(f'prune failed: {lib_err(e)}')
    # reference
    ref = start
    for m in ref.modules():
        if hasattr(m, 'masker'):
            m.masker.unregister_all()
            delattr(m, 'masker')
    total = p['it'] * p['ep']
    if [s[0] for s in seen] != list(range(1, total + 1)) or vals != [s[0] for s in seen]:
        raise lib.Fail(f'epochs trained {[s[0] for s in seen]}, validated {vals}')
    Z, U = {}, {}

    def project(z):
        """what pruning the current importance would zero"""
        twin = copy.deepcopy(ref)
        sd = dict(twin.named_parameters())
        with torch.no_grad():
            for k in z:
                sd[k + '.weight'].copy_(z[k])
        # what pruning the model that has these weights would remove; its choice is the subject of P01 and P02
        pr = pruner('', twin, x.clone(), copy.deepcopy(plain))
        pr.register_mask()
        return {k: z[k] * twin.get_submodule(k).masker.get_mask('weight') for k in z}

    def out_pruned():
        twin = copy.deepcopy(ref)
        orig = copy.deepcopy(twin)
        pruner('', twin, x.clone(), copy.deepcopy(plain)).prune()
        keep = pruneprog.origin(orig, twin)
        res = {}
        for k in centers.values():
            m = orig.get_submodule(k)
            w = keep[k + '.weight']
            dim = 1 if isinstance(m, (nn.ConvTranspose1d, nn.ConvTranspose2d)) else 0
            alive = [bool(w.select(dim, o).any()) for o in range(w.shape[dim])]
            res[k] = not all(alive)
        return res

    first = out_pruned()
    act = [k for k in centers.values() if first[k]]
    if p['t'] in ('gru', 'lstm', 'rnn2', 'gruadd'):
        act = []
    W = {k: ref.get_submodule(k).weight.detach() for k in act}
    Z = project({k: W[k].clone() for k in act})
    U = {k: torch.zeros_like(W[k]) for k in act}
    it = iter(seen)
    for i in range(p['it']):
        for e in range(1, p['ep'] + 1):
            epoch, lr, loss, ws = next(it)
            want_lr = 0.05 if e == 1 else 0.05 * 0.1 ** ((e - 1) // (p['ep'] / 3))
            if abs(lr - want_lr) > 1e-9:
                raise lib.Fail(f'epoch {epoch}: learning rate {lr}, expected {want_lr}')
            for k, t in ref.named_parameters():
                if not torch.allclose(ws[k], t, rtol=1e-6, atol=1e-7):
                    raise lib.Fail(f'epoch {epoch}: {k} is not what training made of it')
            want = 1.0 + sum(0.15 * float(((ref.get_submodule(k).weight - Z[k] + U[k]) ** 2).sum()) for k in act)
            if abs(loss - want) > 1e-3 * max(1.0, abs(want)):
                raise lib.Fail(f'epoch {epoch}: loss with penalty {loss}, expected {want}')
            with torch.no_grad():
                for k, t in ref.named_parameters():
                    t.add_(drift[k] * epoch)
        W = {k: ref.get_submodule(k).weight.detach() for k in act}
        Z = project({k: W[k] + U[k] for k in act})
        U = {k: W[k] - Z[k] + U[k] for k in act}
    pruner('', ref, x.clone(), copy.deepcopy(plain)).prune()
    same_state(model, ref, 'ADMM pruning')
    if ctx.criterion is not crit:
        raise lib.Fail('the criterion of the context is not restored')
    files = sorted(os.listdir(os.path.join(d, 'admm')))
    if files != sorted(f'epoch_{e}.pth' for e in range(1, total + 1)):
        raise lib.Fail(f'checkpoints {files}')
    if cfg != user:
        raise lib.Fail(f'the configuration given by the user {user} has become {cfg}')
    return {'status': 'ok', 'detail': '', 'steps': total, 'nontrivial': bool(act), 'sig': f'{p["t"]}:{p["it"]}:{p["ep"]}'}


def netadapt():
    from tinynn.prune import NetAdaptPruner
    from tinynn.util.train_util import DLContext

    model, src, x = build('conv3')
    ctx = DLContext()
    ctx.train_loader = ctx.val_loader = [1]
    ctx.train_func = ctx.validate_func = lambda m, c: 1.0
    ctx.criterion = nn.L1Loss()
    ctx.optimizer = torch.optim.SGD(model.parameters(), lr=0.5)
    cfg = {'budget_type': 'flops', 'budget_ratio': 0.5, 'metrics': 'l2_norm', 'netadapt_max_iter': 1, 'budget_reduce_rate_init': 0.1, 'budget_reduce_rate_decay': 0.9, 'netadapt_lr': 0.1}
    try:
        pr = NetAdaptPruner(model, x, cfg, ctx)
        pr.find_prune_plan(list(pr.graph_modifier.sub_graphs)[0], pr.calc_flops(), pr.calc_flops() * 0.9)
    except Exception as e:
        return {'status': 'fail', 'detail': f'NetAdaptPruner: {lib_err(e)}', 'steps': 1}
    return {'status': 'ok', 'detail': '', 'steps': 1}
