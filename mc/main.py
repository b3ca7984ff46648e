import argparse
import json
import os
import sys


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--limit', type=int)
    ap.add_argument('--nproc', type=int)
    ap.add_argument('--verbose', action='store_true')
    ap.add_argument('--dump')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    modname = f'mc.checks.{a.prop.lower()}'
    from mc import core

    if a.list:
        import importlib

        mod = importlib.import_module(modname)
        n = 0
        for c in mod.cases(a.tier):
            n += 1
            if not a.only or a.only in c[0]:
                print(c[0])
        print(n, file=sys.stderr)
        return 0
    if a.replay:
        import importlib
        import shutil
        import tempfile

        rec = json.load(open(a.replay))
        d = tempfile.mkdtemp(prefix='mc_replay_')
        cwd = os.getcwd()
        os.chdir(d)
        os.environ['MC_SCRATCH'] = d
        mod = importlib.import_module(modname)
        try:
            if hasattr(mod, 'setup'):
                mod.setup(a.tier)
            res = core.run_one(mod, rec['payload'])
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
        print(json.dumps(res, indent=1))
        if res['status'] == 'fail' or (res['status'] == 'refuse' and rec.get('refused')):
            print(f'VIOLATION property={mod.PROPERTY} replay={a.replay}')
            return 1
        return 0
    return core.run_check(modname, a.tier, seed, a.nproc, a.only, a.limit, a.verbose, a.dump)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit as e:
        rc = e.code if isinstance(e.code, int) else 2
    sys.stdout.flush()
    os._exit(rc)
