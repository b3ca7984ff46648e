"""Explorer core: deterministic enumeration of a finite space of cases, run on the
real code by a pool of forked workers, compared with a per-property oracle.

A check module (mc/checks/<name>.py) provides

    PROPERTY   id
    LEVEL      evidence level
    RULE       how cases are made / what makes one non-trivial (text)
    ASSUMPTIONS list of texts
    cases(tier)        -> iterable of (case_id:str, payload:JSON-able)   [complete bounded space]
    run_case(payload)  -> dict(status='ok'|'fail'|'reject', detail=str, sig=str,
                               steps=int, nontrivial=bool)

The runner decides: every 'fail' (and every crash / hang of a case) that is not listed in
/verif/known_findings.jsonl is a VIOLATION.
"""
import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TNN_REPO', '/repo')

CASE_TIMEOUT = float(os.environ.get('MC_CASE_TIMEOUT', '120'))


def sha(obj):
    if not isinstance(obj, str):
        obj = json.dumps(obj, sort_keys=True, default=str)
    return hashlib.sha1(obj.encode()).hexdigest()[:12]


class CaseTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise CaseTimeout()


def _quiet():
    """Redirect fd 1/2 of a worker to /dev/null (tinynn and TFLite print a lot)."""
    fd = os.open(os.devnull, os.O_WRONLY)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)


def short_tb(limit=6):
    et, ev, tb = sys.exc_info()
    frames = traceback.extract_tb(tb)[-limit:]
    loc = ' <- '.join(f'{os.path.basename(f.filename)}:{f.lineno}:{f.name}' for f in reversed(frames))
    return f'{et.__name__}: {str(ev)[:300]} @ {loc}'


def run_one(mod, payload):
    """Run one case in this process; never raises."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_TIMEOUT)
    try:
        res = mod.run_case(payload)
    except CaseTimeout:
        res = {'status': 'fail', 'detail': f'case did not finish within {CASE_TIMEOUT}s'}
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException:
        res = {'status': 'fail', 'detail': 'exception: ' + short_tb()}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return res


def _worker(modname, conn, scratch, verbose):
    os.environ['MC_SCRATCH'] = scratch
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    if not verbose:
        _quiet()
    mod = importlib.import_module(modname)
    try:
        while True:
            msg = conn.recv()
            if msg is None:
                break
            idx, payload = msg
            conn.send((idx, run_one(mod, payload)))
    except (EOFError, KeyboardInterrupt):
        pass
    os._exit(0)


class Pool:
    """Forked workers, recycled every `recycle` cases; a dying worker is attributed to its case."""

    def __init__(self, modname, nproc, scratch, recycle=150, verbose=False):
        self.modname, self.nproc, self.scratch = modname, nproc, scratch
        self.recycle, self.verbose = recycle, verbose
        self.ctx = multiprocessing.get_context('fork')
        self.serial = 0

    def _spawn(self):
        parent, child = self.ctx.Pipe()
        d = os.path.join(self.scratch, f'w{self.serial}')
        self.serial += 1
        p = self.ctx.Process(target=_worker, args=(self.modname, child, d, self.verbose), daemon=True)
        p.start()
        child.close()
        return {'p': p, 'c': parent, 'cur': None, 'n': 0, 't0': 0.0, 'd': d}

    def _retire(self, w, kill=False):
        try:
            if kill:
                w['p'].kill()
            else:
                w['c'].send(None)
        except Exception:
            pass
        w['p'].join(10)
        if w['p'].is_alive():
            w['p'].kill()
            w['p'].join()
        w['c'].close()
        shutil.rmtree(w['d'], ignore_errors=True)

    def run(self, items, on_result, deadline=None):
        """items: list of (idx, payload). Returns number of items not run (deadline)."""
        it = iter(items)
        pending = collections.deque()
        workers = []
        done_feeding = False
        skipped = 0

        def next_item():
            nonlocal done_feeding, skipped
            if pending:
                return pending.popleft()
            if done_feeding:
                return None
            if deadline is not None and time.time() > deadline:
                done_feeding = True
                skipped += sum(1 for _ in it)
                return None
            try:
                return next(it)
            except StopIteration:
                done_feeding = True
                return None

        def feed(w):
            if w['n'] >= self.recycle:
                self._retire(w)
                nw = self._spawn()
                workers[workers.index(w)] = nw
                w = nw
            item = next_item()
            if item is None:
                self._retire(w)
                workers.remove(w)
                return
            w['cur'], w['t0'] = item, time.time()
            w['n'] += 1
            try:
                w['c'].send(item)
            except (BrokenPipeError, OSError):
                pending.appendleft(item)
                w['cur'] = None
                self._retire(w, kill=True)
                workers[workers.index(w)] = self._spawn()
                feed(workers[-1])

        for _ in range(self.nproc):
            workers.append(self._spawn())
        for w in list(workers):
            feed(w)
        while workers:
            ready = multiprocessing.connection.wait([w['c'] for w in workers], timeout=5)
            for c in ready:
                w = next((x for x in workers if x['c'] is c), None)
                if w is None:
                    continue
                try:
                    idx, res = c.recv()
                except (EOFError, OSError, ConnectionResetError):
                    idx = w['cur'][0]
                    w['p'].join(5)
                    res = {'status': 'fail', 'detail': f'process died (exit code {w["p"].exitcode}) while running the case'}
                    on_result(idx, res)
                    self._retire(w, kill=True)
                    nw = self._spawn()
                    workers[workers.index(w)] = nw
                    feed(nw)
                    continue
                on_result(idx, res)
                feed(w)
            now = time.time()
            for w in list(workers):
                if w['cur'] is not None and now - w['t0'] > CASE_TIMEOUT + 30 and not w['c'].poll():
                    on_result(w['cur'][0], {'status': 'fail', 'detail': 'case hung (killed)'})
                    self._retire(w, kill=True)
                    nw = self._spawn()
                    workers[workers.index(w)] = nw
                    feed(nw)
        return skipped


def load_known(prop):
    """case id -> (finding, exact detail or None), from the committed known-findings file."""
    path = os.path.join(VERIF, 'known_findings.jsonl')
    known = {}
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or not line.startswith('{'):
                    continue
                e = json.loads(line)
                if e.get('property') != prop or e.get('kind') != 'known':
                    continue
                for c in e['cases']:
                    known[c] = (e['id'], e.get('details', {}).get(c))
    return known


def load_refusals(prop):
    """case ids the tool is known to refuse (unsupported operators, limits of the TFLite kernels)."""
    path = os.path.join(VERIF, 'refusals', f'{prop}.txt')
    if not os.path.exists(path):
        return set()
    with open(path) as f:
        return {line.rstrip('\n') for line in f if line.strip()}


def known_descr(prop):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('{'):
                e = json.loads(line)
                if e.get('property') == prop and e.get('kind') == 'known':
                    out[e['id']] = e['what']
    return out


def run_check(modname, tier, seed, nproc=None, only=None, limit=None, verbose=False, out_all=None):
    t0 = time.time()
    mod = importlib.import_module(modname)
    prop = mod.PROPERTY
    nproc = nproc or int(os.environ.get('MC_NPROC', str(min(8, os.cpu_count() or 1))))
    budget = {'quick': 800.0, 'thorough': 6 * 3600.0}[tier]
    budget = float(os.environ.get('MC_BUDGET', budget))
    if hasattr(mod, 'setup'):
        mod.setup(tier)
    cases = list(mod.cases(tier))
    ids = [c[0] for c in cases]
    if len(set(ids)) != len(ids):
        dup = [i for i, n in collections.Counter(ids).items() if n > 1][:5]
        raise RuntimeError(f'duplicate case ids {dup}')
    if only:
        cases = [c for c in cases if only in c[0]]
    if limit and len(cases) > limit:
        step = len(cases) / limit
        cases = [cases[int(i * step)] for i in range(limit)]
    scratch = tempfile.mkdtemp(prefix=f'mc_{prop}_')
    results = {}
    sigs = set()
    counts = collections.Counter()
    steps = 0
    nontrivial = set()

    def on_result(idx, res):
        nonlocal steps
        cid = cases[idx][0]
        results[cid] = (idx, res)
        counts[res.get('status', 'fail')] += 1
        steps += int(res.get('steps', 1))
        for s in res.get('sigs', ()):
            sigs.add(s)
        if res.get('sig') is not None:
            sigs.add(res['sig'])
        if res.get('nontrivial', True) and res.get('status') not in ('reject', 'refuse'):
            nontrivial.add(cid)

    try:
        pool = Pool(modname, nproc, scratch, recycle=getattr(mod, 'RECYCLE', 150), verbose=verbose)
        skipped = pool.run([(i, c[1]) for i, c in enumerate(cases)], on_result, deadline=t0 + budget)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    refusals = load_refusals(prop)
    for cid, (idx, res) in results.items():
        if res.get('status') == 'refuse' and cid not in refusals:
            res['status'] = 'fail'
            res['refused'] = True
            res['detail'] = 'refused, though it is within what the tool supports: ' + str(res.get('detail'))
            counts['refuse'] -= 1
            counts['fail'] += 1
    known = load_known(prop)
    descr = known_descr(prop)
    viol, hit_known = [], collections.OrderedDict()
    for cid in ids:
        if cid not in results:
            continue
        idx, res = results[cid]
        if res.get('status') == 'fail':
            kid, want = known.get(cid, (None, None))
            if kid and want in (None, res.get('detail')):
                hit_known.setdefault(kid, []).append(cid)
            else:
                viol.append((cid, idx, res))
    # A listed finding is always announced on a full run (also when it no longer fails, say so).
    for kid, what in descr.items():
        n = len(hit_known.get(kid, []))
        print(f'KNOWN-FINDING: property={prop} {kid}: {what} [{n} listed case(s) failed in this run]')
    if out_all:
        with open(out_all, 'w') as f:
            for cid in ids:
                if cid in results:
                    f.write(json.dumps({'id': cid, **results[cid][1]}) + '\n')
    rdir = os.path.join(VERIF, 'replay', prop)
    if viol:
        os.makedirs(rdir, exist_ok=True)
        for cid, idx, res in viol[:25]:
            path = os.path.join(rdir, sha(cid) + '.json')
            with open(path, 'w') as f:
                json.dump(
                    {
                        'property': prop,
                        'case': cid,
                        'payload': cases[idx][1],
                        'detail': res.get('detail'),
                        'refused': bool(res.get('refused')),
                        'replay_cmd': f'cd /verif && ./check.sh {prop} --replay {path}',
                    },
                    f,
                    indent=1,
                )
            print(f'VIOLATION property={prop} replay={path}')
            print(f'  case {cid}: {str(res.get("detail"))[:400]}')
        if len(viol) > 25:
            print(f'  ... and {len(viol) - 25} more violating cases')
    wall = time.time() - t0
    samples = []
    okc = [c for c in cases if c[0] in results and results[c[0]][1].get('status') == 'ok']
    for c in (okc[:1] + okc[len(okc) // 2 : len(okc) // 2 + 1] + okc[-1:]) if okc else []:
        r = results[c[0]][1]
        samples.append({'case': c[0], 'payload': c[1], 'observed': r.get('sig') or r.get('detail')})
    n_run = len(results)
    cov = {
        'evaluations': n_run,
        'distinct_nontrivial': len(nontrivial),
        'rule': mod.RULE,
        'samples': samples or [{'case': 'none'}],
        'outcomes': dict(counts),
        'exhaustive': bool(skipped == 0 and not only and not limit),
        'cases_in_bound': len(ids),
        'cases_skipped_by_deadline': skipped,
    }
    if mod.LEVEL == 'model_checking':
        cov['states'] = len(sigs)
        cov['transitions'] = steps
        cov['traces_validated_against_impl'] = n_run - counts.get('reject', 0) - counts.get('refuse', 0)
    ev = {
        'property': prop,
        'tier': tier,
        'seed': seed,
        'level': mod.LEVEL,
        'coverage': cov,
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2),
        'violations': len(viol),
    }
    if not only and not limit:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print(
        f'{prop} [{tier}] cases={n_run}/{len(ids)} {dict(counts)} states={len(sigs)} steps={steps} '
        f'violations={len(viol)} known={sum(map(len, hit_known.values()))} wall={wall:.1f}s'
    )
    return 1 if viol else 0
