"""Program grammar: a program is a sequence of statements over a small alphabet; every statement
is a snippet of Python (constructor lines + forward line), so a case replays as readable source.

Snippet placeholders: {x} first operand, {z} second operand, {y} result, {i} statement number.
"""
import itertools


def op(code, *init, ar=1):
    return {'code': code, 'init': list(init), 'ar': ar}


def source(stmts, inputs=('x0',), ret='{last}', cls='M', extra_init=(), helpers='', base='nn.Module'):
    """stmts: list of (opdef, [operand names]). Returns class source; results are named v0, v1..."""
    init, body = list(extra_init), []
    for i, (o, args) in enumerate(stmts):
        env = {'i': i, 'y': f'v{i}', 'x': args[0] if args else '', 'z': args[1] if len(args) > 1 else ''}
        for l in o['init']:
            init.append(l.format(**env))
        for l in o['code'].split('\n'):
            body.append(l.format(**env))
    last = f'v{len(stmts)-1}' if stmts else inputs[0]
    ret = ret.format(last=last)
    s = helpers
    s += f'class {cls}({base}):\n    def __init__(self):\n        super().__init__()\n'
    for l in init:
        s += f'        {l}\n'
    s += f'    def forward(self, {", ".join(inputs)}):\n'
    for l in body:
        s += f'        {l}\n'
    s += f'        return {ret}\n'
    return s


def chains(alphabet, names, depth, inputs=('x0',)):
    """All unary chains of exactly `depth` statements; yields (tuple of names, stmts)."""
    for combo in itertools.product(names, repeat=depth):
        stmts, cur = [], inputs[0]
        for k, n in enumerate(combo):
            stmts.append((alphabet[n], [cur]))
            cur = f'v{k}'
        yield combo, stmts


def dags(alphabet, unary, binary, depth, inputs=('x0',)):
    """All statement sequences of exactly `depth`, operands drawn from inputs and earlier results.
    Every intermediate result that is not consumed is returned (in order), so nothing is dead."""

    def rec(k, stmts, names, avail):
        if k == depth:
            used = set(a for _, args in stmts for a in args)
            outs = [f'v{j}' for j in range(depth) if f'v{j}' not in used]
            yield tuple(names), list(stmts), outs
            return
        for n in unary:
            for a in avail:
                yield from rec(k + 1, stmts + [(alphabet[n], [a])], names + [f'{n}({a})'], avail + [f'v{k}'])
        for n in binary:
            for a, b in itertools.product(avail, repeat=2):
                yield from rec(
                    k + 1, stmts + [(alphabet[n], [a, b])], names + [f'{n}({a},{b})'], avail + [f'v{k}']
                )

    yield from rec(0, [], [], list(inputs))
