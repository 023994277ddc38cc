import sys, time, json, traceback, collections
from . import lib, gen, run
from .runner import known
KN = [list(k) for k in sorted(known())]
prof = sys.argv[1]; a = int(sys.argv[2]); b = int(sys.argv[3])
t = time.time(); vs = collections.OrderedDict(); n = 0
kinds = collections.Counter()
for s in range(a, max(b, a + 1)):
    sp = gen.gen(prof, s)
    sp['known'] = KN
    try:
        r = run.execute(sp)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt): raise
        k = 'HARNESS ' + str(e)[-300:]
        vs.setdefault(k, []).append((s, k, ''))
        continue
    n += 1
    for i, k, o in r['results']:
        kinds[(k, str(o[:2] if isinstance(o, list) else o)[:46])] += 1
    for v in r['violations']:
        vs.setdefault(','.join(v['props']) + ' ' + v['sig'], []).append((s, v['msg'], v['op']))
print(n, 'runs', time.time() - t)
if '-k' in sys.argv:
    for k, c in sorted(kinds.items()): print(c, k)
for k, l in sorted(vs.items(), key=lambda x: -len(x[1])):
    print('==', len(l), k, l[0][0], l[0][2]); print('    ', l[0][1][:int(sys.argv[4]) if len(sys.argv) > 4 and sys.argv[4].isdigit() else 500])
