"""Executes one run (a spec) and reports what happened."""
import hashlib
import json
import os
import time
from . import setup
from .sim import Sim, HarnessError
from .ops import Ops
from . import parties


class R(parties.Parties, Ops):
    pass


def execute(spec):
    """run a spec, and where it asks for it the same spec without what must not matter"""
    r = simulate(spec)
    if not spec.get('diff') or r['violations']:
        return r
    drop = without_effect(spec, r)
    r['compared'] = 0
    if not drop:
        return r
    b = dict(spec, ops=[dict(o, op='nop', was=o['op']) if o.get('id') in drop else o for o in spec['ops']])
    q = simulate(b)
    r['compared'] = len(drop)
    r['digest'] = hashlib.sha256((r['digest'] + q['digest']).encode()).hexdigest()
    r['requests'] += q['requests']
    r['simtime'] += q['simtime']
    if q['violations']:
        r['violations'] = q['violations']
        return r
    if q['other']:
        return r        # something is wrong even without them
    want = {i: (k, norm(o)) for i, k, o in q['results']}
    for i, k, o in r['results']:
        if i in drop or want.get(i) == (k, norm(o)):
            continue
        v = {'props': ['C19'], 'sig': 'residue:%s' % k, 'op': [None, i, k],
             'msg': '%s (operation %s) ended with %s, but with %s when the operations %s, which failed without effect or belong to another user, '
                    'are left out' % (k, i, str(norm(o))[:600], str(want.get(i))[:600], sorted(drop)[:12])}
        r['log'].append(['violation', v['props'], v['sig']])
        (r['violations'] if spec.get('focus') in (None, 'C19') else r['other']).append(v)
        break
    return r


def norm(o):
    return json.loads(json.dumps(o, sort_keys=True, default=str))


def without_effect(spec, r):
    """ids of the operations that must not matter to the others of the main actor"""
    busy = {e['op'] for e in spec.get('events', ()) if 'op' in e}
    done = {i: q for i, q in r['effects'].items()}
    out = set()
    for o in spec['ops']:
        i = o.get('id')
        e = done.get(i)
        if e is None or i in busy or o['op'] in ('events', 'forget', 'wait', 'nop') or e['accepted'] or o.get('builder') or o.get('crash') is not None:
            continue
        if o.get('a', 0) != 0:
            out.add(i)
        elif e['failed'] and not e['keys'] and o['op'] not in ('open', 'sign'):
            out.add(i)
    return out


def simulate(spec):
    """run a spec deterministically -> result dict (only JSON values)"""
    spec = json.loads(json.dumps(spec))
    os.environ['TZ'] = spec['setup'].get('tz', 'UTC')
    time.tzset()
    world = setup.build(spec)
    sim = Sim(spec, world)
    r = R(sim)
    sim.run(r.body)
    r.final()
    return {'violations': sim.violations, 'other': sim.other, 'known': sorted(sim.known), 'digest': sim.digest(), 'faults': sim.fault_counts, 'events': sim.event_counts,
            'requests': sim.requests, 'simtime': sim.now - sim.t0, 'touched': sim.touched,
            'results': r.results, 'effects': r.effects, 'ops': [[x.kind, str(o)[:60]] for x, o in zip(sim.ops, [q[2] for q in r.results])],
            'accepted': len(world.accepted), 'log': sim.log, 'refused': len(world.refused), 'progress': r.progress}
