"""Converter helpers: PyTorch module -> TFLite file -> outputs of the TFLite interpreter, in PyTorch layout."""
import os

import numpy as np
import torch

from . import lib


class Refused(Exception):
    """The tool (converter or TFLite interpreter) refused loudly."""


def convert(model, inputs, path=None, **opts):
    from tinynn.converter import TFLiteConverter

    path = path or lib.scratch(lib.uniq('m') + '.tflite')
    with torch.no_grad():
        c = TFLiteConverter(model, inputs if isinstance(inputs, (list, tuple)) else [inputs], path, **opts)
        c.convert()
    return path, c


def interpreter(path_or_bytes):
    import tensorflow as tf

    kw = {'model_path': path_or_bytes} if isinstance(path_or_bytes, str) else {'model_content': path_or_bytes}
    it = tf.lite.Interpreter(
        experimental_op_resolver_type=tf.lite.experimental.OpResolverType.BUILTIN_WITHOUT_DEFAULT_DELEGATES, num_threads=1, **kw
    )
    it.allocate_tensors()
    return it


def run(it, arrays):
    ind = it.get_input_details()
    if len(ind) != len(arrays):
        raise lib.Fail(f'number of inputs {len(ind)} != {len(arrays)}')
    for d, a in zip(ind, arrays):
        a = np.ascontiguousarray(a)
        if a.shape == (1,) and tuple(d['shape']) == ():
            a = a.reshape(())  # ascontiguousarray makes 0-d arrays 1-d
        if tuple(d['shape']) != tuple(a.shape):
            raise lib.Fail(f'input shape {tuple(d["shape"])} != {tuple(a.shape)}')
        if d['dtype'] != a.dtype:
            raise lib.Fail(f'input dtype {d["dtype"]} != {a.dtype}')
        it.set_tensor(d['index'], a)
    it.invoke()
    return [it.get_tensor(d['index']).copy() for d in it.get_output_details()]


def to_nhwc(t, on=None):
    a = t.detach().numpy() if isinstance(t, torch.Tensor) else t
    if a.ndim == 4 if on is None else on:
        a = np.transpose(a, (0, 2, 3, 1))
    return a


def agree(got, want, rtol=2e-4, dtypes=True, nhwc=None):
    """Compare interpreter arrays with PyTorch outputs (list of tensors)."""
    if len(got) != len(want):
        return f'number of outputs {len(got)} != {len(want)}'
    for i, (g, w) in enumerate(zip(got, want)):
        w = to_nhwc(w, None if nhwc is None else nhwc[i])
        if w.ndim == 0 and g.shape == (1,):
            g = g.reshape(())
        if tuple(g.shape) != tuple(w.shape):
            return f'output {i}: shape {tuple(g.shape)} != {tuple(w.shape)}'
        if dtypes and g.dtype != w.dtype and {str(g.dtype), str(w.dtype)} != {'int32', 'int64'}:
            return f'output {i}: dtype {g.dtype} != {w.dtype}'
        g, w = g.astype('float64'), w.astype('float64')
        fin = np.isfinite(w)
        scale = float(np.abs(w[fin]).max()) if fin.any() else 1.0
        if not np.allclose(g, w, rtol=rtol, atol=max(rtol * scale, 2e-5), equal_nan=True):
            with np.errstate(invalid='ignore'):
                d = np.abs(g - w)
            d = d[np.isfinite(d)]
            return f'output {i}: max abs diff {d.max() if d.size else "nan":.4g} (max |want| {scale:.4g})'
    return None


def ops_of(it):
    return [d['op_name'] for d in it._get_ops_details() if d['op_name'] != 'DELEGATE']


def err(e):
    return f'{type(e).__name__}: {str(e)[:200]}'


def cleanup(*paths):
    for p in paths:
        if os.path.exists(p):
            os.unlink(p)
