"""Seeded search over simulated runs, one property at a time.

  python -B -m dst.runner P01                 search (VERIF_SEED, VERIF_TIER)
  python -B -m dst.runner replay FILE         re-execute a replay file
  python -B -m dst.runner one P01 IDX         one run, with its event log
"""
import hashlib
import importlib
import json
import os
import select
import signal
import struct
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAYS = os.path.join(ROOT, 'replays')
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))
HANG_S = 120


def reexec():
    """Pin what CPython itself would otherwise randomise, and keep /repo clean."""
    want = {'PYTHONHASHSEED': '0', 'PYTHONDONTWRITEBYTECODE': '1',
            'PYTHONPYCACHEPREFIX': '/nonexistent-pycache'}
    if any(os.environ.get(k) != v for k, v in want.items()) and not os.environ.get('VERIF_NOREEXEC'):
        os.environ.update(want)
        os.execv(sys.executable, [sys.executable, '-B', '-m', 'dst.runner'] + sys.argv[1:])


def prop(pid):
    return importlib.import_module('dst.props.%s' % pid.lower())


def known_findings(pid):
    out = []
    p = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.strip():
                    d = json.loads(line)
                    if d.get('property') == pid and d.get('status') == 'known':
                        out.append(d)
    return out


# ------------------------------------------------------------ one run, isolated

def execute(P, plan, known, log=0):
    """Run in this very process. Returns a plain result."""
    from dst.core import Rec, Violation, NoProgress
    rec = Rec(known)
    rec.keep = log
    res = {'viol': None, 'error': None}
    try:
        P.execute(plan, rec)
    except Violation as e:
        res['viol'] = [e.key, e.msg[:2000]]
        rec.ev('VIOLATION', e.key)
    except NoProgress as e:
        res['viol'] = ['no-progress', 'step budget exhausted: %s' % e]
        rec.ev('VIOLATION', 'no-progress')
    except MemoryError:
        res['error'] = 'MemoryError'
    except BaseException as e:
        site = blame(e)
        if site:
            res['viol'] = ['exception:' + site, 'code under test raised %s: %s' % (
                type(e).__name__, str(e)[-500:])]
            rec.ev('VIOLATION', site)
        else:
            res['error'] = traceback.format_exc()[-3000:]
    res.update(known=rec.known, faults=rec.faults, counts=rec.counts, simtime=rec.simtime,
               events=rec.n, trace=rec.digest(), cover=sorted(rec.cover))
    if log:
        res['log'] = rec.log
    return res


def blame(e):
    """Where in the repository's code an exception no harness expected came from: an
    operation the harness relies on to succeed did not.  None if not from there."""
    from dst import world
    site = None
    tb = e.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(world.REPO + '/') or '/site-packages/pyasn1/' in fn:
            site = '%s:%s' % (os.path.basename(fn), tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return site and '%s:%s' % (type(e).__name__, site)


def isolated(P, plan, known, log=0, timeout=HANG_S):
    """The same in a forked child of this (pristine) process."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 0)
            os.dup2(dn, 1)
            if not log:
                os.dup2(dn, 2)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            res = execute(P, plan, known, log)
            data = json.dumps(res).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
        except BaseException:
            code = 9
        os._exit(code)
    os.close(w)
    chunks = []
    end = time.time() + timeout
    hung = False
    while True:
        left = end - time.time()
        if left <= 0:
            hung = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            hung = True
            break
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if hung:
        os.kill(pid, signal.SIGKILL)
    os.waitpid(pid, 0)
    if hung:
        return {'viol': ['hang', 'run made no end within %d s' % timeout], 'error': None, 'known': {},
                'faults': {}, 'counts': {}, 'simtime': 0, 'events': 0, 'trace': 'hang', 'cover': []}
    data = b''.join(chunks)
    if not data:
        return {'viol': None, 'error': 'run process died', 'known': {}, 'faults': {}, 'counts': {},
                'simtime': 0, 'events': 0, 'trace': '', 'cover': []}
    return json.loads(data)


def make_plan(P, seed, tier, idx, total):
    from dst import core
    plan = P.plan(core.rng(P.ID, seed, idx), tier, idx, total)
    return json.loads(json.dumps(plan))


# ------------------------------------------------------------ search

def search(P, seed, tier, total, known):
    """All runs, spread over the workers; results in run order."""
    results = [None] * total
    pipes = []
    for k in range(WORKERS):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(w, 'wb') as f:
                    for idx in range(k, total, WORKERS):
                        try:
                            plan = make_plan(P, seed, tier, idx, total)
                        except Exception:
                            res = {'viol': None, 'error': 'plan: ' + traceback.format_exc()[-2000:],
                                   'known': {}, 'faults': {}, 'counts': {}, 'simtime': 0,
                                   'events': 0, 'trace': '', 'cover': []}
                        else:
                            res = isolated(P, plan, known)
                        b = json.dumps([idx, res]).encode()
                        f.write(struct.pack('>I', len(b)) + b)
                        f.flush()
            except BaseException:
                traceback.print_exc()
            os._exit(0)
        os.close(w)
        pipes.append([r, b'', pid])
    live = {p[0]: p for p in pipes}
    while live:
        ready, _, _ = select.select(list(live), [], [])
        for fd in ready:
            b = os.read(fd, 1 << 16)
            p = live[fd]
            if not b:
                os.close(fd)
                os.waitpid(p[2], 0)
                del live[fd]
                continue
            p[1] += b
            while len(p[1]) >= 4:
                n = struct.unpack('>I', p[1][:4])[0]
                if len(p[1]) < 4 + n:
                    break
                idx, res = json.loads(p[1][4:4 + n])
                p[1] = p[1][4 + n:]
                results[idx] = res
    return results


# ------------------------------------------------------------ minimisation

def size(plan):
    return len(json.dumps(plan))


def minimise(P, plan, key, known, budget=160, wall=75.0):
    """ddmin over plan['ops'] (and P.shrink variants) keeping the same violation key."""
    spent = [0]
    end = time.time() + wall

    def fails(p):
        if spent[0] >= budget or time.time() > end:
            return False
        spent[0] += 1
        r = isolated(P, p, known, timeout=40)
        return bool(r['viol']) and r['viol'][0] == key

    for field in getattr(P, 'LISTS', ('ops',)):
        items = plan.get(field)
        if not isinstance(items, list):
            continue
        n = 2
        while len(items) >= 1 and spent[0] < budget and time.time() < end:
            step = max(1, (len(items) + n - 1) // n)
            for i in range(0, len(items), step):
                cand = items[:i] + items[i + step:]
                if fails(dict(plan, **{field: cand})):
                    items = cand
                    plan = dict(plan, **{field: items})
                    n = max(2, n - 1)
                    break
            else:
                if step == 1:
                    break
                n = min(len(items), n * 2)
    again = True
    while again and hasattr(P, 'shrink') and spent[0] < budget and time.time() < end:
        again = False
        for cand in P.shrink(plan):
            if size(cand) < size(plan) and fails(cand):
                plan = cand
                again = True
                break
    return plan, spent[0]


# ------------------------------------------------------------ commands

def repeated(P, seed, tier, total, results, known, n=6):
    """A few runs once more: how many of them came out event for event the same."""
    pick = sorted(set(i * (total - 1) // (n - 1) for i in range(n)))
    pick = [i for i in pick if results[i] and not results[i]['error'] and not results[i]['viol']]
    same = 0
    for i in pick:
        r = isolated(P, make_plan(P, seed, tier, i, total), known)
        same += r['trace'] == results[i]['trace']
    return '%d of %d' % (same, len(pick))


def run_cmd(pid):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    P = prop(pid)
    kf = known_findings(pid)
    known = [d['key'] for d in kf]
    from dst.core import Violation
    try:
        P.preload()
    except Violation as e:
        return preload_failed(pid, P, seed, tier, e, t0)
    total = P.RUNS['thorough' if tier == 'thorough' else 'quick']
    if os.environ.get('VERIF_RUNS'):
        total = int(os.environ['VERIF_RUNS'])
    results = search(P, seed, tier, total, known)
    wall = time.time() - t0
    errors = [(i, r['error'] if r else 'no result') for i, r in enumerate(results)
              if r is None or r['error']]
    viols = [(i, r['viol']) for i, r in enumerate(results) if r and r['viol']]
    done = [r for r in results if r]
    faults, counts, hits, cover = {}, {}, {}, set()
    for r in done:
        for src, dst in ((r['faults'], faults), (r['counts'], counts), (r['known'], hits)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        cover.update(r['cover'])
    traces = {}
    for i, r in enumerate(results):
        if r and not r['error'] and r['events'] > getattr(P, 'TRIVIAL_EVENTS', 2):
            traces.setdefault(r['trace'], i)
    simtime = sum(r['simtime'] for r in done)
    samples = []
    for i in sorted(traces.values())[:3]:
        plan = make_plan(P, seed, tier, i, total)
        s = json.dumps(plan)
        samples.append({'run': i, 'trace': results[i]['trace'], 'events': results[i]['events'],
                        'faults': results[i]['faults'], 'plan': plan if len(s) < 1500 else s[:1500] + '...'})
    cov = {
        'evaluations': len(done),
        'distinct_nontrivial': len(traces),
        'rule': P.RULE,
        'samples': samples,
        'runs_per_hour': int(len(done) / max(wall, 0.001) * 3600),
        'seeds_per_hour': int(len(done) / max(wall, 0.001) * 3600),
        'simulated_time_s': round(simtime, 3),
        'faults_injected': dict(sorted(faults.items())),
        'checks_made': dict(sorted(counts.items())),
        'distinct_states_or_sites_reached': len(cover),
        'distinct_measure': getattr(P, 'MEASURE', 'distinct event traces (hash of every event of a run)'),
        'events_total': sum(r['events'] for r in done),
        'traces_digest': hashlib.sha256(' '.join(
            r['trace'] if r and r['trace'] else '-' for r in results).encode()).hexdigest()[:16],
        'executed_again_with_the_same_trace': repeated(P, seed, tier, total, results, known),
        'components': P.COMPONENTS,
        'known_findings_reproduced': hits,
        'workers': WORKERS,
    }
    rc = 0
    lines = []
    for d in kf:
        if d['key'] in hits:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, d['what']))
        else:
            lines.append('note: known finding not reproduced in this run: property=%s %s' % (pid, d['key']))
    if viols:
        rc = 1
        os.makedirs(REPLAYS, exist_ok=True)
        seen = set()
        for i, (key, msg) in viols:
            if key in seen or len(seen) >= 3:
                continue
            seen.add(key)
            plan = make_plan(P, seed, tier, i, total)
            small, spent = minimise(P, plan, key, known)
            r1 = isolated(P, small, known, timeout=HANG_S)
            if not (r1['viol'] and r1['viol'][0] == key):
                small, r1 = plan, isolated(P, plan, known)
            same = bool(r1['viol']) and r1['viol'][0] == key
            path = os.path.join(REPLAYS, '%s-s%d-r%d-%d.json' % (pid, seed, i, len(seen)))
            with open(path, 'w') as f:
                json.dump({'property': pid, 'seed': seed, 'tier': tier, 'run': i, 'plan': small,
                           'violation': r1['viol'] or [key, msg], 'trace': r1['trace'],
                           'minimised_in_runs': spent, 'reproduced': same,
                           'ops_before': len(plan.get('ops', [])), 'ops_after': len(small.get('ops', []))},
                          f, indent=1)
                f.write('\n')
            lines.append('VIOLATION property=%s replay=%s' % (pid, path))
            lines.append('  run %d of seed %d: %s: %s' % (i, seed, key, msg.splitlines()[0][:600] if msg else ''))
            lines.append('  minimised: %d -> %d ops; replay reproduces: %s (trace %s)' % (
                len(plan.get('ops', [])), len(small.get('ops', [])), same, r1['trace']))
    elif errors:
        rc = 2
    for i, e in errors[:3]:
        lines.append('HARNESS ERROR in run %d: %s' % (i, e))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P.LEVEL, 'coverage': cov,
          'assumptions': P.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for line in lines:
        print(line)
    print('%s: %d runs, %d distinct traces, %d events, %.0f s simulated, faults %s, %d violating runs, '
          '%d harness errors, %.1f s' % (pid, len(done), len(traces), cov['events_total'], simtime,
                                         sum(faults.values()), len(viols), len(errors), time.time() - t0))
    return rc


def preload_failed(pid, P, seed, tier, e, t0):
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    path = os.path.join(REPLAYS, '%s-preload.json' % pid)
    with open(path, 'w') as f:
        json.dump({'property': pid, 'seed': seed, 'stage': 'preload', 'plan': None,
                   'violation': [e.key, e.msg], 'trace': ''}, f, indent=1)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P.LEVEL, 'assumptions': P.ASSUMPTIONS,
          'coverage': {'evaluations': 1, 'distinct_nontrivial': 1, 'rule': 'start-up import failed: no run was made',
                       'samples': [[e.key, e.msg]]},
          'wall_s': round(time.time() - t0, 2), 'violations': 1}
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('VIOLATION property=%s replay=%s' % (pid, path))
    print('  %s: %s' % (e.key, e.msg))
    return 1


def setup_cmd():
    """Nothing to compile: see that what the checks need is there."""
    from dst import wire, world
    world.setup_path()
    world.check_origin()
    m = wire.Model()
    print('model: %d types, %d modules; interpreter %s' % (len(m.types), len(m.modules), sys.version.split()[0]))
    return 0


def replay_cmd(path):
    with open(path) as f:
        d = json.load(f)
    P = prop(d['property'])
    from dst.core import Violation
    try:
        P.preload()
    except Violation as e:
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        print('  %s: %s' % (e.key, e.msg))
        return 1
    if d.get('stage') == 'preload':
        print('no violation on replay')
        return 0
    known = [k['key'] for k in known_findings(d['property'])]
    r = isolated(P, d['plan'], known, log=400)
    for s in r.get('log', []):
        print('  ', s)
    if r['error']:
        print('HARNESS ERROR', r['error'])
        return 2
    if r['viol']:
        print('VIOLATION property=%s replay=%s' % (d['property'], path))
        print('  %s: %s' % tuple(r['viol']))
        print('  trace %s, recorded %s: %s' % (r['trace'], d['trace'],
                                               'identical' if r['trace'] == d['trace'] else 'DIFFERENT'))
        return 1
    print('no violation on replay')
    return 0


def one_cmd(pid, idx):
    P = prop(pid)
    P.preload()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    plan = make_plan(P, seed, tier, idx, P.RUNS['quick'])
    print(json.dumps(plan)[:3000])
    r = isolated(P, plan, [k['key'] for k in known_findings(pid)], log=400)
    for s in r.pop('log', []):
        print('  ', s)
    print(json.dumps(r, indent=1)[:4000])
    return 0


def main(argv):
    os.chdir(ROOT)
    if argv[0] == 'setup':
        return setup_cmd()
    if argv[0] == 'replay':
        return replay_cmd(argv[1])
    if argv[0] == 'one':
        return one_cmd(argv[1], int(argv[2]))
    return run_cmd(argv[0])


if __name__ == '__main__':
    reexec()
    sys.exit(main(sys.argv[1:]))
