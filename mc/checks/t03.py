"""T03: edits of a traced graph do exactly what they say (insert, remove, replace, subgraph, RNN states)."""
import copy
import itertools

import torch
import torch.nn as nn
import torch.nn.functional as F

from .. import lib

PROPERTY = 'T03'
LEVEL = 'model_checking'
RULE = (
    'every DAG of the stated size over a small alphabet x every sequence of graph edits up to the stated length; the '
    'edited graph is turned into code and run, and compared with the same edits applied to a reference graph '
    '(a list of operations and operand references) run by a direct interpreter. Non-trivial: an edit was applied.'
)
ASSUMPTIONS = ['edits are only made where the API accepts them (the same call patterns the quantizer uses)']

NEWMODS = [lambda: nn.Softsign(), lambda: nn.Sigmoid(), lambda: nn.GELU(), lambda: nn.Hardtanh(-0.31, 0.47)]
UN = {'conv', 'relu', 'neg', 'sp0', 'sp1'}
CODE = {
    'conv': '{y} = self.c{i}({x})', 'relu': '{y} = F.relu({x})', 'neg': '{y} = -{x}', 'sp0': '{y} = torch.split({x}, 1, 0)[0]',
    'sp1': '{y} = torch.split({x}, 1, 0)[1]', 'add': '{y} = {x} + {z}', 'cat': '{y} = torch.cat([{x}, {z}], 0)', 'sub': '{y} = torch.sub({x}, {z})',
    'mulk': '{y} = torch.mul(0.5, {x})',
}
PY = {
    'relu': F.relu, 'neg': lambda x: -x, 'sp0': lambda x: x[0:1], 'sp1': lambda x: x[1:2], 'add': lambda x, z: x + z,
    'cat': lambda x, z: torch.cat([x, z], 0), 'sub': lambda x, z: x - z, 'mulk': lambda x: 0.5 * x,
}


def progs(depth, unary, binary):
    def rec(k, st):
        if k == depth:
            yield list(st)
            return
        avail = ['x0'] + [f'v{j}' for j in range(k)]
        for u in unary:
            for a in avail:
                yield from rec(k + 1, st + [[u, [a]]])
        for b in binary:
            for a, c in itertools.product(avail, repeat=2):
                yield from rec(k + 1, st + [[b, [a, c]]])

    yield from rec(0, [])


def outs_of(st):
    used = {a for _, args in st for a in args}
    return [f'v{i}' for i in range(len(st)) if f'v{i}' not in used]


def edits_for(st):
    """Edits available on the initial program (later edits keep referring to these nodes)."""
    e = [['after', 'x0']]
    for i, (o, args) in enumerate(st):
        if o not in ('sp0', 'sp1'):
            e.append(['after', f'v{i}'])
        for a in sorted(set(args)):
            if a != 'x0':
                e.append(['between', a, f'v{i}'])
            else:
                e.append(['between', 'x0', f'v{i}'])
        if o in UN or o == 'mulk':
            e.append(['before', f'v{i}'])
        if o in ('relu', 'neg', 'conv'):
            e.append(['remove', f'v{i}'])
        if o == 'conv':
            e.append(['replace', f'v{i}'])
    for k in range(len(outs_of(st))):
        e.append(['before_out', k])
    return e


def src_of(st, ret):
    s = 'class M(nn.Module):\n    def __init__(self):\n        super().__init__()\n'
    for i, (o, _) in enumerate(st):
        if o == 'conv':
            s += f'        self.c{i} = nn.Conv2d(3, 3, 1)\n'
    s += '    def forward(self, x0):\n'
    for i, (o, args) in enumerate(st):
        s += '        ' + CODE[o].format(y=f'v{i}', i=i, x=args[0], z=args[-1]) + '\n'
    return s + f'        return {ret}\n'


def cases(tier):
    quick = tier == 'quick'
    specs = [(1, ['conv', 'relu', 'neg', 'mulk'], ['add', 'cat', 'sub'], 2), (2, ['conv', 'relu', 'sp1', 'mulk'], ['sub', 'cat'], 2),
             (3, ['conv', 'sp0'], ['sub'], 1)]
    if not quick:
        specs += [(2, ['conv', 'relu', 'neg', 'sp0', 'mulk'], ['add', 'sub', 'cat'], 3), (3, ['conv', 'neg', 'sp1'], ['sub', 'cat'], 2)]
    seen = set()
    for depth, un, bi, elen in specs:
        for st in progs(depth, un, bi):
            name = ';'.join(f'{o}({",".join(a)})' for o, a in st)
            outs = outs_of(st)
            for retk in ('tuple', 'list', 'nest'):
                if retk != 'tuple' and (len(outs) == 1 or depth > 2):
                    continue
                ret = ', '.join(outs) if retk == 'tuple' else '[' + ', '.join(outs) + ']' if retk == 'list' else '(' + ', '.join(outs) + '),'
                es = edits_for(st)
                for n in range(0, (1 if quick and depth > 1 and retk != 'tuple' else elen) + 1):
                    for seq in itertools.product(es, repeat=n):
                        # a node can be removed / replaced only once, and a removed node takes no more edits
                        ok, gone = True, set()
                        for ed in seq:
                            names = [x for x in ed[1:] if isinstance(x, str)]
                            if any(x in gone for x in names):
                                ok = False
                            if ed[0] == 'remove':
                                gone.add(ed[1])
                        if not ok:
                            continue
                        cid = f'ed:{name}:{retk}:' + '>'.join('/'.join(map(str, ed)) for ed in seq)
                        if cid in seen:
                            continue
                        seen.add(cid)
                        yield cid, {'st': st, 'ret': ret, 'outs': outs, 'retk': retk, 'edits': [list(x) for x in seq]}
    # subgraph extraction: every (input node, output node) pair of every DAG
    for depth, un, bi in ((2, ['conv', 'relu', 'sp1'], ['sub', 'add']), (3, ['conv', 'relu'], ['sub'])):
        for st in progs(depth, un, bi):
            name = ';'.join(f'{o}({",".join(a)})' for o, a in st)
            for i in range(depth):
                for j in range(i + 1, depth):
                    # closed: everything j needs comes through i
                    need, stack = set(), [f'v{j}']
                    while stack:
                        v = stack.pop()
                        if v in need or v == f'v{i}':
                            continue
                        need.add(v)
                        if v != 'x0':
                            stack += st[int(v[1:])][1]
                    reach = f'v{i}' in [a for v in need if v != 'x0' for a in st[int(v[1:])][1]]
                    if 'x0' in need or not reach or st[j][0] == 'sp1':
                        continue
                    yield f'sub:{name}:{i}->{j}', {'st': st, 'sub': [i, j], 'outs': outs_of(st), 'ret': ', '.join(outs_of(st))}
    # one edge of several between the same two nodes (tensor_ptrs), every order of edits
    for n, opds in itertools.product((2, 3), ('sub', 'cat')):
        sel = [c for c in itertools.product(range(3), repeat=n)] if opds == 'cat' else [c for c in itertools.product(range(3), repeat=2)] if n == 2 else []
        for c in sel:
            for order in itertools.chain(*[itertools.permutations(range(len(c)), q) for q in range(1, len(c) + 1)]):
                if len({c[q] for q in order}) != len(order):
                    continue
                for then in ('none', 'after', 'more'):
                    yield f'ptr:{opds}{c}:{order}:{then}', {'ptr': opds, 'idx': list(c), 'order': list(order), 'then': then}
    for r, st in (('LSTM', 2), ('GRU', 1), ('RNN', 1)):
        for layers, bidir, bf, proj, usest, pos in itertools.product((1, 2), (False, True), (False, True), (0, 2), (False, True), (0, 1)):
            if proj and r != 'LSTM':
                continue
            yield f'state:{r}:l{layers}b{int(bidir)}bf{int(bf)}p{proj}u{int(usest)}pos{pos}', {
                'rnn': r, 'args': f'num_layers={layers}, bidirectional={bidir}, batch_first={bf}' + (f', proj_size={proj}' if proj else ''),
                'layers': layers, 'bidir': bidir, 'bf': bf, 'proj': proj, 'use': usest, 'pos': pos}


class IR:
    """Reference graph: ordered nodes (id, fn, operands); outputs."""

    def __init__(self, st, outs, m):
        self.nodes = []
        for i, (o, args) in enumerate(st):
            fn = getattr(m, f'c{i}') if o == 'conv' else PY[o]
            self.nodes.append([f'v{i}', fn, list(args)])
        self.outs = list(outs)
        self.k = 0

    def pos(self, name):
        return next(i for i, n in enumerate(self.nodes) if n[0] == name)

    def _new(self, at, fn, src):
        name = f'n{self.k}'
        self.k += 1
        self.nodes.insert(at, [name, fn, [src]])
        return name

    def after(self, name, fn):
        at = 0 if name == 'x0' else self.pos(name) + 1
        new = self._new(at, fn, name)
        for n in self.nodes:
            if n[0] != new:
                n[2] = [new if a == name else a for a in n[2]]
        self.outs = [new if o == name else o for o in self.outs]
        return new

    def between(self, a, b, fn):
        p = self.pos(b)
        assert a in self.nodes[p][2]
        new = self._new(p, fn, a)
        n = self.nodes[p + 1]
        n[2] = [new if x == a else x for x in n[2]]
        return new

    def before(self, b, fn):
        p = self.pos(b)
        new = self._new(p, fn, self.nodes[p][2][0])
        self.nodes[p + 1][2][0] = new

    def before_out(self, k, fn):
        new = self._new(len(self.nodes), fn, self.outs[k])
        self.outs[k] = new

    def remove(self, name):
        p = self.pos(name)
        src = self.nodes[p][2][0]
        del self.nodes[p]
        for n in self.nodes:
            n[2] = [src if a == name else a for a in n[2]]
        self.outs = [src if o == name else o for o in self.outs]

    def run(self, x):
        env = {'x0': x}
        for name, fn, args in self.nodes:
            env[name] = fn(*[env[a] for a in args])
        return [env[o] for o in self.outs]


def _register(g, mod, name):
    g.module_unique_name_dict[id(mod)] = name
    g.module_original_name_dict[id(mod)] = name
    return mod


def run_case(p):
    lib.quiet_tinynn()
    from tinynn.graph.tracer import model_tracer, trace

    if 'rnn' in p:
        return run_state(p)
    if 'ptr' in p:
        return run_ptr(p)
    st = [(o, list(a)) for o, a in p['st']]
    m = lib.build(src_of(st, p['ret'])).eval()
    x = lib.gen_inputs([[4, 3, 2, 2]], 0)[0]
    try:
        with torch.no_grad():
            m(x)
    except Exception as e:
        return {'status': 'reject', 'detail': str(e)[:80]}
    ir = IR(st, p['outs'], copy.deepcopy(m))
    with model_tracer():
        g = trace(m, x)
        if len(g.forward_nodes) != len(st):
            return {'status': 'fail', 'detail': f'{len(g.forward_nodes)} nodes were traced for {len(st)} operations'}
        node = {f'v{i}': n for i, n in enumerate(g.forward_nodes)}
        node['x0'] = g.input_nodes[0]
        if 'sub' in p:
            i, j = p['sub']
            g.reset_input_output_for_graph([node[f'v{i}'].unique_name], [node[f'v{j}'].unique_name])
            new = lib.reload_generated(g).eval()
            x = lib.gen_inputs([[4, 3, 2, 2]], 1)[0]
            env = ir_env(ir, x)
            ops = ir.nodes[i][2]
            with torch.no_grad():
                got = new(*[env[a] for a in ops])
            d = lib.compare(got, [env[f'v{j}']])
            return {'status': 'fail' if d else 'ok', 'detail': d, 'sig': lib.sha(str(p))[:12], 'steps': 1}
        keep = []
        for k, ed in enumerate(p['edits']):
            mod = NEWMODS[k]()
            keep.append(mod)
            _register(g, mod, f'extra_{k}')
            kind = ed[0]
            try:
                if kind == 'between' and ed[1] not in ir.nodes[ir.pos(ed[2])][2]:
                    # the edge was split by an earlier edit
                    return {'status': 'reject', 'detail': 'edge no longer exists'}
                if kind == 'after':
                    g.insert_after(node[ed[1]], mod)
                    ir.after(ed[1], mod)
                elif kind == 'between':
                    g.insert_between(node[ed[1]], node[ed[2]], mod, move_idx=True)
                    ir.between(ed[1], ed[2], mod)
                elif kind == 'before':
                    prev = node[ed[1]]
                    if prev.prev_nodes[0] is None:
                        return {'status': 'reject', 'detail': ''}
                    g.insert_between(prev.prev_nodes[0], prev, mod, move_idx=True)
                    ir.before(ed[1], mod)
                elif kind == 'before_out':
                    if p['retk'] == 'nest':
                        mods = [mod] + [NEWMODS[k]() for _ in p['outs'][1:]]
                        for q, mm in enumerate(mods[1:]):
                            _register(g, mm, f'extra_{k}_{q}')
                        keep.append(mods)
                        if ed[1] != 0:
                            return {'status': 'reject', 'detail': 'one nested output: same edit'}
                        g.insert_before(g.output_nodes[0], mods, move_idx=True)
                        for q in range(len(p['outs'])):
                            ir.before_out(q, mods[q])
                    else:
                        on = g.output_nodes[ed[1]]
                        g.insert_before(on, [mod] if on.rev_index else mod, move_idx=True)
                        ir.before_out(ed[1], mod)
                elif kind == 'remove':
                    if node[ed[1]].prev_tensors[0].shape != node[ed[1]].next_tensors[0].shape:
                        return {'status': 'reject', 'detail': 'not shape preserving'}
                    g.remove_node(node[ed[1]])
                    ir.remove(ed[1])
                elif kind == 'replace':
                    g.replace_node_module(node[ed[1]], mod)
                    ir.nodes[ir.pos(ed[1])][1] = mod
            finally:
                pass
            g.recompute_forward_order()
            bad = invariants(g)
            if bad:
                return {'status': 'fail', 'detail': f'after {ed}: {bad}'}
        new = lib.reload_generated(g).eval()
    with torch.no_grad():
        for k in range(2):
            x = lib.gen_inputs([[4, 3, 2, 2]], k)[0]
            d = lib.compare(new(x), ir.run(x))
            if d:
                return {'status': 'fail', 'detail': d}
    kinds = '|'.join(str(n.kind()) + ','.join(q.unique_name for q in n.prev_nodes) for n in g.forward_nodes + g.output_nodes)
    return {'status': 'ok', 'sig': lib.sha(kinds)[:12], 'steps': max(1, len(p['edits'])), 'nontrivial': bool(p['edits'])}


def ir_env(ir, x):
    env = {'x0': x}
    with torch.no_grad():
        for name, fn, args in ir.nodes:
            env[name] = fn(*[env[a] for a in args])
    return env


def invariants(g):
    """The node lists stay a well-formed graph: unique names, producers known and earlier."""
    seen = set()
    for n in g.input_nodes + g.constant_nodes:
        seen.add(id(n))
    names = [n.unique_name for n in g.all_nodes()]
    if len(set(names)) != len(names):
        return 'duplicate node names'
    for n in g.forward_nodes + g.output_nodes:
        for q in n.prev_nodes:
            if id(q) not in seen:
                return f'{n.unique_name} uses {q.unique_name} before it is computed'
        seen.add(id(n))
    return None


def run_state(p):
    from tinynn.graph.tracer import model_tracer, trace

    hid = p['proj'] or 5
    D = 2 if p['bidir'] else 1
    src = 'class M(nn.Module):\n    def __init__(self):\n        super().__init__()\n'
    src += f'        self.r = nn.{p["rnn"]}(6, 5, {p["args"]})\n        self.l = nn.Linear({hid * D}, 4)\n'
    src += '    def forward(self, x0):\n'
    if p['pos']:
        src += '        x0 = F.relu(x0 + 1)\n'
    src += '        y, s = self.r(x0)\n'
    src += '        y = self.l(y)\n'
    if p['use'] and p['rnn'] != 'LSTM':
        src += '        return y, s\n'
    elif p['use']:
        src += '        return y, s[0], s[1]\n'
    else:
        src += '        return y\n'
    m = lib.build(src).eval()
    x = lib.gen_inputs([[3, 2, 6]], 0)[0]
    with model_tracer():
        g = trace(m, x)
        g.add_state_input_outputs()
        new = lib.reload_generated(g).eval()
    B = 3 if p['bf'] else 2
    nst = 2 if p['rnn'] == 'LSTM' else 1
    shapes = [[p['layers'] * D, B, hid]] + ([[p['layers'] * D, B, 5]] if nst == 2 else [])
    with torch.no_grad():
        for k in range(2):
            x = lib.gen_inputs([[3, 2, 6]], k)[0]
            h = lib.gen_inputs(shapes, 5 + k)
            z = F.relu(x + 1) if p['pos'] else x
            y, s = m.r(z, tuple(h) if nst == 2 else h[0])
            want = [m.l(y)] + lib.flatten(s)
            got = lib.flatten(new(x, *h))
            d = lib.compare(got, want)
            if d:
                return {'status': 'fail', 'detail': d}
    return {'status': 'ok', 'sig': lib.sha(str(p))[:12], 'steps': 1}


def run_ptr(p):
    from tinynn.graph.tracer import model_tracer, trace

    names = [f's[{i}]' for i in p['idx']]
    call = f'torch.sub({names[0]}, {names[1]})' if p['ptr'] == 'sub' else f'torch.cat([{", ".join(names)}], 0)'
    src = (
        'class M(nn.Module):\n    def forward(self, x0):\n        s = torch.split(x0, 1, 0)\n'
        f'        y = {call}\n        z = F.relu(s[0])\n        return y, z\n'
    )
    m = lib.build(src).eval()
    x = lib.gen_inputs([[3, 3, 2, 2]], 0)[0]
    fn = {}
    with model_tracer():
        g = trace(m, x)
        sp, tgt = g.forward_nodes[0], g.forward_nodes[1]
        ptrs = [id(t) for t in tgt.prev_tensors]
        for k, q in enumerate(p['order']):
            mod = _register(g, NEWMODS[k](), f'extra_{k}')
            g.insert_between(sp, tgt, mod, move_idx=True, tensor_ptrs=set([ptrs[q]]))
            fn[p['idx'][q]] = mod
            g.recompute_forward_order()
            bad = invariants(g)
            if bad:
                return {'status': 'fail', 'detail': bad}
        last = None
        if p['then'] == 'after':
            last = _register(g, NEWMODS[3](), 'extra_last')
            g.insert_after(tgt, last)
        elif p['then'] == 'more':
            last = _register(g, NEWMODS[3](), 'extra_last')
            rl = g.forward_nodes[-1]
            g.insert_between(sp, rl, last, move_idx=True)
        if any(not isinstance(t, (torch.Tensor, list, tuple)) for n in g.forward_nodes for t in n.next_tensors):
            return {'status': 'fail', 'detail': 'something that is not a tensor among the tensors of a node'}
        g.recompute_forward_order()
        new = lib.reload_generated(g).eval()
    with torch.no_grad():
        x = lib.gen_inputs([[3, 3, 2, 2]], 1)[0]
        s = torch.split(x, 1, 0)
        o = [fn[i](s[i]) if i in fn else s[i] for i in p['idx']]
        y = o[0] - o[1] if p['ptr'] == 'sub' else torch.cat(o, 0)
        z = s[0]
        if p['then'] == 'after':
            y = last(y)
        elif p['then'] == 'more':
            z = last(z)
        d = lib.compare(new(x), [y, F.relu(z)])
    return {'status': 'fail' if d else 'ok', 'detail': d, 'sig': lib.sha(str(p))[:12], 'steps': len(p['order'])}
