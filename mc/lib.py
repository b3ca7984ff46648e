"""Helpers shared by the checks: building small programs, running them, comparing results."""
import hashlib
import logging
import os
import sys
import warnings

warnings.filterwarnings('ignore')

import numpy as np
import torch
import torch.nn as nn
import torch.nn.functional as F  # noqa: F401

torch.set_num_threads(1)

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def sha(s):
    return hashlib.sha1(s.encode()).hexdigest()


def seed_for(text):
    s = (int(sha(text)[:8], 16) ^ (SEED * 2654435761)) & 0x7FFFFFFF
    torch.manual_seed(s)
    np.random.seed(s & 0xFFFFFFF)
    import random

    random.seed(s)
    return s


def randomize(model, text):
    """Deterministic generic parameters: no ties, no degenerate normalisation statistics."""
    g = torch.Generator().manual_seed((int(sha(text)[:8], 16) ^ (SEED * 40503)) & 0x7FFFFFFF)
    with torch.no_grad():
        for n, p in sorted(model.named_parameters()):
            p.copy_(torch.empty_like(p).uniform_(-1, 1, generator=g) * 0.7 + 0.05)
        for n, b in sorted(model.named_buffers()):
            if n.endswith('running_var'):
                b.copy_(torch.empty_like(b).uniform_(0.5, 1.5, generator=g))
            elif n.endswith('running_mean'):
                b.copy_(torch.empty_like(b).uniform_(-0.5, 0.5, generator=g))
    return model


def build(source, cls='M', text=None):
    """exec a class definition and instantiate it with generic weights."""
    ns = {'torch': torch, 'nn': nn, 'F': F, '__name__': 'mcprog'}
    exec(compile(source, '<mcprog>', 'exec'), ns)
    seed_for(text or source)
    m = ns[cls]()
    randomize(m, text or source)
    return m


def flatten(o):
    if isinstance(o, torch.Tensor):
        return [o]
    if isinstance(o, dict):
        r = []
        for k in o:
            r += flatten(o[k])
        return r
    if isinstance(o, (list, tuple)):
        r = []
        for x in o:
            r += flatten(x)
        return r
    if isinstance(o, (int, float, bool)):
        return [torch.tensor(o)]
    return []


def compare(got, want, rtol=1e-4, atol=1e-5, dtype=True):
    """None when equal, else a description."""
    got, want = flatten(got), flatten(want)
    if len(got) != len(want):
        return f'number of outputs {len(got)} != {len(want)}'
    for i, (a, b) in enumerate(zip(got, want)):
        if a.is_quantized:
            a = a.dequantize()
        if b.is_quantized:
            b = b.dequantize()
        if tuple(a.shape) != tuple(b.shape):
            return f'output {i}: shape {tuple(a.shape)} != {tuple(b.shape)}'
        if dtype and a.dtype != b.dtype:
            return f'output {i}: dtype {a.dtype} != {b.dtype}'
        a, b = a.detach().double(), b.detach().double()
        if not torch.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True):
            d = (a - b).abs()
            d = d[~torch.isnan(d)]
            return f'output {i}: max abs diff {float(d.max()) if d.numel() else "nan"} (max |want| {float(b.abs().max()):.4g})'
    return None


def gen_inputs(shapes, k):
    """k-th deterministic input set for the given (shape, kind) list."""
    g = torch.Generator().manual_seed(1000003 * SEED + 7919 * k + 17)
    out = []
    for s in shapes:
        kind = 'f'
        if isinstance(s, (list, tuple)) and len(s) == 2 and isinstance(s[1], str):
            s, kind = s
        if kind == 'f':
            out.append(torch.empty(tuple(s)).uniform_(-2, 2, generator=g))
        elif kind == 'p':
            out.append(torch.empty(tuple(s)).uniform_(0.1, 2, generator=g))
        elif kind == 'i':
            out.append(torch.randint(0, 4, tuple(s), generator=g))
        elif kind == 'i32':
            out.append(torch.randint(0, 4, tuple(s), generator=g, dtype=torch.int32))
        elif kind == 'b':
            out.append(torch.randint(0, 2, tuple(s), generator=g).bool())
    return out


def quiet_tinynn():
    for n in list(logging.root.manager.loggerDict):
        if n.startswith('tinynn'):
            logging.getLogger(n).setLevel(logging.CRITICAL)


class Fail(Exception):
    pass


def scratch(name=''):
    d = os.environ.get('MC_SCRATCH', os.getcwd())
    return os.path.join(d, name)


_counter = [0]


def uniq(prefix):
    _counter[0] += 1
    return f'{prefix}_{os.getpid()}_{_counter[0]}'


def reload_generated(graph, name=None, check=False):
    """TraceGraph -> generated script + weights -> fresh module (the documented round trip)."""
    from tinynn.util.util import import_from_path

    name = name or uniq('Gen')
    py, pth = scratch(name.lower() + '.py'), scratch(name.lower() + '.pth')
    try:
        graph.generate_code(py, pth, name)
        m = import_from_path(f'mcgen.{name}', py, name)()
        m.load_state_dict(torch.load(pth))
    finally:
        for p in (py, pth):
            if os.path.exists(p):
                os.unlink(p)
        sys.modules.pop(f'mcgen.{name}', None)
    return m


def tflite_run(path, inputs, fixed_optimizations=True):
    """Run a .tflite file (reference interpreter) on a list of numpy arrays in input order."""
    import tensorflow as tf

    it = tf.lite.Interpreter(
        model_path=path,
        experimental_op_resolver_type=tf.lite.experimental.OpResolverType.BUILTIN_WITHOUT_DEFAULT_DELEGATES,
        num_threads=1,
    )
    it.allocate_tensors()
    ind = sorted_inputs(it)
    if len(ind) != len(inputs):
        raise Fail(f'number of inputs {len(ind)} != {len(inputs)}')
    for d, a in zip(ind, inputs):
        a = np.ascontiguousarray(a)
        if tuple(d['shape']) != tuple(a.shape):
            raise Fail(f'input shape {tuple(d["shape"])} != {tuple(a.shape)}')
        it.set_tensor(d['index'], a)
    it.invoke()
    return it, [it.get_tensor(d['index']).copy() for d in it.get_output_details()]


def sorted_inputs(it):
    return it.get_input_details()
