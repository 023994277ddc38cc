"""Greedy minimisation of a failing run: fewer operations, faults, events, blocks."""
import copy
import json
import time


def size(s):
    return len(json.dumps(s))


def minimise(spec, prop, sig, execute, budget=60.0, runs=400):
    """smallest spec found on which `prop` is still violated in the same way"""
    t0 = time.monotonic()
    from .sim import _real
    clock = _real.get('monotonic', time.monotonic)
    t0 = clock()
    n = [0]

    def fails(s):
        if n[0] >= runs or clock() - t0 > budget:
            return False
        n[0] += 1
        try:
            r = execute(s)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            return False
        return any(prop in v['props'] and v['sig'] == sig for v in r['violations'])

    cur = copy.deepcopy(spec)

    def shrink(get, least=0):
        """drop chunks, then single elements, of the list get(spec)"""
        nonlocal cur
        l = get(cur)
        if l is None:
            return
        k = max(1, len(l) // 2)
        while k >= 1:
            i = max(0, len(get(cur)) - k)
            while True:
                l = get(cur)
                if len(l) <= least:
                    break
                cand = copy.deepcopy(cur)
                del get(cand)[i:i + k]
                if len(get(cand)) >= least and len(get(cand)) < len(l) and fails(cand):
                    cur = cand
                if i == 0:
                    break
                i = max(0, min(i - k, len(get(cur)) - 1))
            k //= 2

    def tryset(fn):
        nonlocal cur
        cand = copy.deepcopy(cur)
        try:
            if fn(cand) is False:
                return
        except (KeyError, IndexError, TypeError):
            return
        if cand != cur and fails(cand):
            cur = cand
    for rnd in range(3):
        before = size(cur)
        shrink(lambda s: s['ops'], 1)
        shrink(lambda s: s.get('faults'))
        shrink(lambda s: s.get('events'))
        tryset(lambda s: s['setup'].__setitem__('mempool', []))
        for b in range(len(cur['setup']['blocks'])):
            shrink(lambda s, b=b: s['setup']['blocks'][b].get('txs'))
        used = {o.get('a', 0) for o in cur['ops']}
        for a in range(len(cur['actors']) - 1, -1, -1):
            if a == len(cur['actors']) - 1 and a not in used and a > 0:
                tryset(lambda s: s['actors'].pop())
            tryset(lambda s, a=a: s['actors'][a].pop('skew'))
        tryset(lambda s: s.__setitem__('lat', 0.0))
        for k in range(1, cur['setup'].get('nodes', 1)):
            tryset(lambda s, k=k: s['setup'].__setitem__('nodes', k))
        for i, o in enumerate(list(cur['ops'])):
            for key in sorted(o):
                if key not in ('a', 'op', 'id', 'to', 'amount', 'doc', 'out', 'secret', 'hash', 'seed', 'label', 'outs', 'bot', 'target',
                               'sender', 'receiver', 'names', 'address', 'value', 'height', 'x', 'until', 'w', 'save', 'bad'):
                    tryset(lambda s, i=i, key=key: s['ops'][i].pop(key))
        if size(cur) >= before or clock() - t0 > budget:
            break
    return cur, n[0]
