"""Worker of V07: converts the models listed in a file, in this fresh process, and writes the digests of the results.

usage: python -m mc.detwork JOBS OUT ORDER   (ORDER: fwd | rev | twice; PYTHONHASHSEED is set by the caller)
"""
import hashlib
import json
import os
import sys

import torch

from . import convprog, lib, quantprog, tfl

_keep = []


def ops():
    from .checks import v04, v05

    return {**quantprog.OPS, **convprog.OPS, **v04.ALL, **v05.L, 'ident': '{x}'}


def model(job):
    """-> (module, inputs) or None"""
    xs = lib.gen_inputs(job['shapes'], 1)
    ins = [f'x{i}' for i in range(len(xs))]
    if job.get('q'):
        m, _ = quantprog.make(job['st'], job['outs'], xs, str(job['st']))
    else:
        m, _ = convprog.make(job['st'], job['outs'], ins, xs, str(job['st']), ops=ops())
    if m is None:
        return None
    if job.get('q'):
        q = quantprog.quantizer(job['q'][0], m, xs[0], dict(job['q'][1]))
        qm = q.quantize()
        qm.eval()
        with torch.no_grad():
            for k in (3, 2):
                qm(lib.gen_inputs(job['shapes'][:1], k)[0])
            m = q.convert(qm)
    return m.eval(), xs


def digest(m, xs, opts, path=None):
    path, c = tfl.convert(m, xs, path or lib.scratch(lib.uniq('det') + '.tflite'), **opts)
    d = open(path, 'rb').read()
    tfl.cleanup(path)
    return hashlib.sha256(d).hexdigest()


def main():
    jobs = json.load(open(sys.argv[1]))
    order = sys.argv[3]
    torch.set_num_threads(1)
    lib.quiet_tinynn()
    res = {}
    idx = list(range(len(jobs)))
    for i in reversed(idx) if order == 'rev' else idx:
        j = jobs[i]
        if order != 'fwd':  # another layout of memory
            _keep.append([object() for _ in range(37 * (i % 11) + 1)])
            _keep.append(bytearray(1000 * (i % 7) + 13))
        try:
            got = model(j)
            if got is None:
                res[i] = ['reject']
                continue
            res[i] = [digest(*got, j['opts'])]
            if order == 'twice':
                res[i].append(digest(*got, j['opts']))
                res[i].append(digest(*model(j), j['opts']))
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            res[i] = ['refused ' + type(e).__name__]
    json.dump(res, open(sys.argv[2], 'w'))


if __name__ == '__main__':
    main()
    sys.stdout.flush()
    os._exit(0)
