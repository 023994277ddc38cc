"""Drives many simulated runs of one property's profile over worker processes."""
import argparse
import collections
import hashlib
import json
import os
import pickle
import signal
import struct
import sys
import traceback
from . import lib       # noqa: F401  (installs the seams before the library is imported)
from . import gen, run
from .sim import _real, HarnessError
from .minimise import minimise

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = 8
CPU_LIMIT = 90.0         # seconds of CPU time one simulated run may take
CHECKED = ('C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21').split()
RUNS = collections.defaultdict(lambda: 4800, C05=3600, C18=3000)        # runs of the quick tier
THOROUGH = 8             # times as many in the thorough tier
CAP = {'quick': 420.0, 'thorough': 1500.0}

REAL = ['tfchain.client', 'tfchain.wallet', 'tfchain.explorer (incl. its use of urllib and http.client)', 'tfchain.balance',
        'tfchain.types (transactions, conditions, fulfillments, currency, 3Bot, ERC20)', 'tfchain.encoders', 'tfchain.crypto (incl. the installed ed25519 '
        'and blake2b)', 'tfchain.internal', 'CPython urllib.request and http.client']
STUB = ['sockets and name lookup (in-process connections)', 'TLS (pass-through)', 'explorer nodes (reference chain with independent encoders and '
        'consensus rules)', 'clock, sleep, entropy and thread scheduling (simulator)']


class Stuck(BaseException):
    pass


def alarm(*a):
    raise Stuck()


def execute(spec):
    """one run; a run that never ends is a violation of the property looked at"""
    signal.signal(signal.SIGVTALRM, alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        return run.execute(spec)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def make(prop, seed):
    sp = gen.gen(prop, seed)
    sp['focus'] = prop
    sp['known'] = [list(k) for k in sorted(known())]
    return sp


def one(prop, seed, diff=True):
    sp = make(prop, seed)
    try:
        r = execute(sp)
    except Stuck:
        return sp, {'violations': [{'props': [prop], 'sig': 'stuck', 'msg': 'the run uses the processor without end', 'op': None}], 'other': [],
                    'digest': 'stuck', 'faults': {}, 'events': {}, 'requests': 0, 'simtime': 0, 'touched': set(), 'results': [], 'ops': [],
                    'accepted': 0, 'refused': 0, 'progress': 0}
    return sp, r


def worker(prop, base, n, w, wfd, stopfd, deadline, step):
    out = {'runs': 0, 'digests': set(), 'nontrivial': 0, 'faults': collections.Counter(), 'events': collections.Counter(), 'kinds': collections.Counter(),
           'requests': 0, 'simtime': 0.0, 'touched': set(), 'accepted': 0, 'refused': 0, 'progress': 0, 'fails': [], 'errors': [], 'dig': {}, 'opsn': 0,
           'other': 0, 'known': set(), 'pairs': 0, 'left_out': 0}
    stop = [None]
    for i in range(w, n, step):
        if _real['monotonic']() > deadline:
            out['late'] = True
            break
        if stop[0] is None:
            try:
                b = os.pread(stopfd, 8, 0)
                if len(b) == 8:
                    stop[0] = struct.unpack('<q', b)[0]
            except OSError:
                pass
        if stop[0] is not None and i > stop[0]:
            break
        try:
            sp, r = one(prop, base + i)
        except HarnessError as e:
            out['errors'].append((i, str(e)[-1500:]))
            if len(out['errors']) > 5:
                break
            continue
        except Exception:
            out['errors'].append((i, traceback.format_exc()[-1500:]))
            if len(out['errors']) > 5:
                break
            continue
        out['runs'] += 1
        out['pairs'] += bool(r.get('compared'))
        out['left_out'] += r.get('compared', 0)
        out['faults'].update(r['faults'])
        out['events'].update(r['events'])
        out['requests'] += r['requests']
        out['simtime'] += r['simtime']
        out['touched'] |= r['touched']
        out['accepted'] += r['accepted']
        out['refused'] += r['refused']
        out['progress'] += r['progress']
        out['opsn'] += len(r['results'])
        out['other'] += len(r['other'])
        out['known'] |= set(r.get('known', ()))
        for k, o in r['ops']:
            out['kinds'][k] += 1
        d = r['digest'][:16]
        if d not in out['digests'] and r['requests'] >= 3 and len(r['results']) >= 2:
            out['nontrivial'] += 1
        out['digests'].add(d)
        if i < 24:
            out['dig'][i] = r['digest']
        if r['violations']:
            out['fails'].append((i, [v for v in r['violations']], r['digest']))
            os.pwrite(stopfd, struct.pack('<q', i), 0)
            break
    with os.fdopen(wfd, 'wb') as f:
        pickle.dump(out, f)


def sweep(prop, base, n, deadline, workers):
    """runs base..base+n-1 on worker processes"""
    import tempfile
    tmp = tempfile.TemporaryFile()
    pids, outs = [], []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(workers):
        r, wf = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                worker(prop, base, n, w, wf, tmp.fileno(), deadline, workers)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stderr.flush()
                os._exit(code)
        os.close(wf)
        pids.append((pid, r))
    for pid, r in pids:
        with os.fdopen(r, 'rb') as f:
            b = f.read()
        os.waitpid(pid, 0)
        if b:
            outs.append(pickle.loads(b))
        else:
            outs.append({'errors': [(-1, 'a worker died')], 'runs': 0})
    return outs


def merge(outs):
    m = {'runs': 0, 'digests': set(), 'nontrivial': 0, 'faults': collections.Counter(), 'events': collections.Counter(), 'kinds': collections.Counter(),
         'requests': 0, 'simtime': 0.0, 'touched': set(), 'accepted': 0, 'refused': 0, 'progress': 0, 'fails': [], 'errors': [], 'dig': {}, 'opsn': 0,
         'other': 0, 'known': set(), 'late': False, 'pairs': 0, 'left_out': 0}
    for o in outs:
        for k, v in o.items():
            if isinstance(v, set):
                m[k] |= v
            elif isinstance(v, (collections.Counter,)):
                m[k].update(v)
            elif isinstance(v, dict):
                m[k].update(v)
            elif isinstance(v, list):
                m[k] += v
            elif isinstance(v, bool):
                m[k] = m[k] or v
            else:
                m[k] += v
    m['fails'].sort(key=lambda x: x[0])
    return m


KNOWN = {}


def known():
    """signatures of recorded, unrepaired findings: {(property, signature): text}"""
    if not KNOWN:
        KNOWN.update(read_known())
    return KNOWN


def read_known():
    out = {}
    try:
        for l in open(os.path.join(ROOT, 'KNOWN_FINDINGS')):
            if l.startswith('finding: '):
                p, s, t = l[len('finding: '):].rstrip('\n').split(' ', 2)
                out[(p.split('=')[1], s.split('=', 1)[1])] = t
    except OSError:
        pass
    return out


def write_replay(prop, sp, v, digest):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    name = '%s-%d-%s.json' % (prop, sp['seed'], hashlib.sha256(v['sig'].encode()).hexdigest()[:8])
    path = os.path.join(d, name)
    with open(path, 'w') as f:
        json.dump({'property': prop, 'violation': v, 'digest': digest, 'seed': sp['seed'], 'spec': sp}, f, indent=1, sort_keys=True)
    return os.path.relpath(path, ROOT)


def first(r, prop):
    return next((v for v in r['violations'] if prop in v['props']), None)


def report(prop, sp, r, out):
    """minimise a failing run, write the replay file, confirm it"""
    v = first(r, prop)
    small, tries = sp, 0
    if v['sig'] != 'stuck':
        small, tries = minimise(sp, prop, v['sig'], execute)
        r2 = execute(small)
        v2 = first(r2, prop)
        if v2 is None or v2['sig'] != v['sig']:
            small, r2, v2 = sp, r, v
        r, v = r2, v2
    path = write_replay(prop, small, v, r['digest'])
    print('violation of %s (%s) by seed %d: %s' % (prop, v['sig'], sp['seed'], v['msg']))
    print('  minimised from %d to %d operations, %d to %d faults, %d to %d events in %d executions' % (
        len(sp['ops']), len(small['ops']), len(sp.get('faults', [])), len(small.get('faults', [])), len(sp.get('events', [])),
        len(small.get('events', [])), tries))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return path


def replay(path):
    d = json.load(open(path))
    prop = d['property']
    r = None
    try:
        r = execute(d['spec'])
        v = first(r, prop)
    except Stuck:
        v = {'sig': 'stuck', 'msg': 'the run uses the processor without end'}
    if v is None:
        print('no violation: the recorded one (%s) does not occur on this tree' % d['violation']['sig'])
        return 0
    same = r is not None and r['digest'] == d['digest'] and v['sig'] == d['violation']['sig']
    print('reproduced %s: %s' % ('exactly' if same else '(history differs from the recorded one)', v['sig']))
    print(v['msg'])
    if r is not None:
        for l in r['log']:
            print('  ', json.dumps(l, default=str))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    return 1


def sample(sp):
    return {'seed': sp['seed'], 'nodes': sp['setup']['nodes'], 'net': sp['setup']['net'], 'actors': sp['actors'],
            'setup_transactions': sum(len(b.get('txs', ())) for b in sp['setup']['blocks']), 'ops': sp['ops'][:8], 'faults': sp['faults'][:8],
            'events': sp['events'][:8]}


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--workers', type=int, default=WORKERS)
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    if a.replay:
        return replay(a.replay)
    prop, tier = a.property, a.tier
    t0 = _real['monotonic']()
    n = a.runs or RUNS[prop] * (THOROUGH if tier == 'thorough' else 1)
    base = a.seed * 10 ** 7
    m = merge(sweep(prop, base, n, t0 + CAP[tier], a.workers))
    took = _real['monotonic']() - t0
    code = 0
    nviol = 0
    paths = []
    if m['fails']:
        i, vs, dig = m['fails'][0]
        sp, r = one(prop, base + i)
        v = first(r, prop) if r['violations'] else None
        if v is None:
            # cannot happen when runs are repeatable; keep the evidence of the first execution
            v = next(q for q in vs if prop in q['props'])
            print('violation of %s by seed %d (not repeated when run again): %s' % (prop, base + i, v['msg']))
            paths.append(write_replay(prop, sp, v, dig))
            print('VIOLATION property=%s replay=%s' % (prop, paths[-1]))
            nviol, code = 1, 1
        else:
            if r['digest'] != dig:
                print('note: the second execution of seed %d took another course' % (base + i))
            paths.append(report(prop, sp, r, m))
            nviol, code = 1, 1
    for (p, sig), text in sorted(known().items()):
        if p == prop and sig in m['known']:
            print('KNOWN-FINDING: property=%s %s' % (p, text))
    # repeatability: the first runs again, in this process
    again = same = 0
    if code == 0 and not m['errors']:
        for i in sorted(m['dig'])[:12]:
            again += 1
            try:
                same += one(prop, base + i)[1]['digest'] == m['dig'][i]
            except HarnessError:
                pass
    for i, e in m['errors'][:3]:
        print('harness error in run %d: %s' % (base + i, e), file=sys.stderr)
    wall = _real['monotonic']() - t0
    ev = {'property': prop, 'tier': tier, 'seed': a.seed, 'level': 'exploration',
          'coverage': {
              'evaluations': m['runs'], 'distinct_nontrivial': m['nontrivial'],
              'rule': 'one evaluation is one simulated run generated from its seed by the profile %s (world, actors, operations, faults, events) and '
                      'judged against the reference chain; counted once per distinct history digest (every request, answer, time, event and result) '
                      'if at least two operations ran and at least three requests were made' % prop,
              'samples': [sample(make(prop, base + i)) for i in range(2)],
              'seeds': [base, base + n - 1], 'runs_per_hour': int(m['runs'] / max(took, 0.001) * 3600), 'sweep_seconds': round(took, 2),
              'cut_short_by_time': bool(m['late']), 'simulated_seconds': round(m['simtime'], 1), 'requests': m['requests'],
              'operations': m['opsn'], 'operations_by_kind': dict(sorted(m['kinds'].items())),
              'faults_injected': dict(sorted(m['faults'].items())), 'events': dict(sorted(m['events'].items())),
              'distinct_histories': len(m['digests']),
              'distinct_request_states': len(m['touched']),
              'state_measure': 'distinct (method, path kind, status, operation, chain height, memory pool size, late request) seen by explorers',
              'transactions_accepted': m['accepted'], 'transactions_refused': m['refused'], 'protocol_steps_completed': m['progress'],
              'runs_compared_with_a_variant': m['pairs'], 'operations_left_out_in_variants': m['left_out'],
              'violations_of_other_properties_seen': m['other'],
              'repeated_runs': again, 'repeated_runs_identical': same, 'harness_errors': len(m['errors']),
              'real_components': REAL, 'stubbed_components': STUB, 'replays': paths},
          'assumptions': ['the reference chain (dst/enc.py, dst/chain.py) states the consensus rules rightly; it shares no code with the library',
                          'ed25519 and blake2b of the installed packages are right',
                          'explorer answers have the shape of the Rivine explorer API as in the repository\'s own test data'],
          'wall_s': round(wall, 2), 'violations': nviol}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    print('%s %s: %d runs (%d distinct), %d operations, %d requests, %d faults, %.0f simulated hours, %.1f s: %s' % (
        prop, tier, m['runs'], m['nontrivial'], m['opsn'], m['requests'], sum(m['faults'].values()), m['simtime'] / 3600, wall,
        'violated' if code else 'held'))
    if code == 0 and (m['errors'] or m['runs'] == 0):
        return 2
    return code
