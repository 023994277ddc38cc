"""Seeded generation of runs: the simulated chain, the users, what they do, and the
faults and events they meet.  gen(profile, seed) is a pure function."""
import hashlib
import random
from .sim import h64
from .setup import GENESIS_TIME
from . import sim as S, when

TFT = 10 ** 9
NET_FAULTS = list(S.CONNECT_FAULTS + S.REQUEST_FAULTS)
ACK_FAULTS = list(S.LOST_ACK)
LIVE_NET = list(S.CONNECT_FAULTS) + ['reset_send', 'reset_before', 'eof_before', 'stall_before', 'slow']
STATUS = ['http500', 'http502', 'http503', 'http404', 'http403', 'http429', 'http201', 'http202']
BODY = [b for b in S.BODY_FAULTS if b != 'forget']
NAMES = ['alpha', 'betas.alone', 'gamma', 'delta.twice.three', 'epsil', 'zetabot', 'eta01', 'theta.robot', 'iota9', 'kappa',
         'a-b-c', 'lambda.x-001', 'abcde', 'b0123456789012345678901234567890123456789012345678901234567890a'[:63]]
ADDRS = ['example.org', '0.0.0.1', '127.0.0.1', '93.184.216.34', 'bot.threefold.me', '2001:db8::1', '::1',
         '3bot.zaibon.be', 'network.address.com', '83.200.201.201', '2001:db8:85a3::8a2e:370:7334']
ERC = '0x828de486adc50aa52dab52a2ec284bcac75be211'


class Gen:
    def __init__(self, profile, seed):
        self.p, self.seed = profile, seed
        self.r = random.Random(h64('gen', profile, seed))
        self.ops, self.faults, self.events = [], [], []
        self.actors = [{'name': 'user'}]
        self.oid = 0
        self.label_n = 0
        self.secrets = {}

    # ------------------------------------------------------------ values
    def chance(self, p):
        return self.r.random() < p

    def pick(self, l):
        return l[self.r.randrange(len(l))]

    def label(self, p='x'):
        self.label_n += 1
        return '%s%d' % (p, self.label_n)

    def amount(self):
        r = self.r
        f = self.fee
        k = r.randrange(12)
        if k == 0:
            return r.randint(1, 20)
        if k == 1:
            return f + r.choice((-1, 0, 1, 2))
        if k == 2:
            return r.randint(1, f)
        if k in (3, 4):
            return r.randint(1, 30) * TFT
        if k == 5:
            return r.randint(1, 30) * TFT + r.choice((1, TFT - 1, 10, 500000000, 123456789))
        if k == 6:
            return r.randint(10 ** 5, 10 ** 7) * TFT + r.randint(0, TFT - 1)
        return r.randint(f, 60 * TFT)

    def amount_arg(self, n):
        form = self.r.randrange(10)
        if form == 8 and n % TFT == 0 and n > 0:
            form = 'int'
        elif form >= 8:
            form = 'currency'
        return {'$amount': n, 'form': form}

    # ------------------------------------------------------------ the chain
    def world(self, wallets=1, nodes=None, keys=(1, 3), outs=(0, 4), foreign=3, mempool=2, multisigs=2, net=None,
              rich=0, spends=2, many=0, gaps=0, bots=0, erc=0, mints=0, mint=None, swaps=0, lock_p=0.25, bs=1):
        r = self.r
        self.net = net or r.choice(['devnet', 'devnet', 'testnet', 'standard'])
        self.fee = TFT if self.net == 'devnet' else TFT // 10
        self.nodes = nodes or r.choice([1, 2, 2, 3, 3, 4])
        nb = r.randint(2, 6)
        sched = [(r.choice([1, 1, 2, 3]), r.choice([1, 60, 600, 3600])) for _ in range(nb)]
        if bots:
            sched = [(n, r.choice([60, 3600, 86400, 10 * 86400, 31 * 86400])) for n, _ in sched]
        self.H = sum(n for n, _ in sched)
        self.T = GENESIS_TIME + sum(n * dt for n, dt in sched)
        blocks = [{'n': n, 'dt': dt, 'txs': []} for n, dt in sched]
        for b in blocks:
            if r.random() < 0.3:
                b['payout'] = False
        self.blocks = blocks
        self.outlabels = []         # (label:0, block index, value, symbol)
        self.wkeys = []
        self.nwallets = wallets
        for w in range(wallets):
            n = r.randint(*keys)
            idx = list(range(n))
            if gaps and self.chance(0.6):
                idx = [0] if self.chance(0.8) else []
                last = 0
                for _ in range(n):
                    last += r.choice([1, 1, 2, 3, 4, 5, 6, 7])
                    idx.append(last)
            self.wkeys.append(idx)
        allk = ['w%d.%d' % (w, i) for w in range(wallets) for i in self.wkeys[w]]
        self.keysyms = allk
        self.ms = []
        for _ in range(r.randint(0, multisigs) if multisigs > 0 else 0):
            n = r.randint(1, 4)
            own = r.sample(allk + ['f%d' % i for i in range(4)], min(n, len(allk) + 4))
            if not any(o[0] == 'w' for o in own) and self.chance(0.9):
                own[0] = self.pick(allk)
            m = r.randint(1, len(own))
            s = 'ms:%d:%s' % (m, ','.join(own))
            if s not in self.ms:
                self.ms.append(s)

        def put(sym, v, bi=None, lab=None):
            bi = r.randrange(nb) if bi is None else bi
            lab = lab or self.label('L')
            self.blocks[bi]['txs'].append({'t': 'pay', 'label': lab, 'outs': [[v, sym]]})
            self.outlabels.append((lab + ':0', bi, v, sym))
            return lab + ':0'
        self.put = put
        for w in range(wallets):
            for i in self.wkeys[w]:
                k = 'w%d.%d' % (w, i)
                c = r.randint(*outs)
                if i and not c:
                    c = 1       # the key has to be visible
                for _ in range(c):
                    put(self.maybe_lock(k, lock_p), self.amount())
            if rich:
                for _ in range(rich):
                    put('w%d.%d' % (w, self.wkeys[w][0] if self.wkeys[w] else 0), r.randint(100, 2000) * TFT + r.randint(0, TFT))
            if many:
                bi = r.randrange(nb)
                lab = self.label('M')
                n = r.randint(60, many)
                ol = [[r.choice([r.randint(1, 5), r.randint(1, TFT), r.randint(1, 3) * TFT]), 'w%d.%d' % (w, self.pick(self.wkeys[w]))]
                      for _ in range(n)]
                self.blocks[bi]['txs'].append({'t': 'pay', 'label': lab, 'outs': ol})
                self.outlabels += [('%s:%d' % (lab, i), bi, v, s) for i, (v, s) in enumerate(ol)]
        for m in self.ms:
            for _ in range(r.randint(1, 3)):
                put(self.maybe_lock(m, lock_p), self.amount() + (100 * TFT if self.chance(0.5) else 0))
        for i in range(foreign):
            put(self.maybe_lock('f%d' % i, 0.1), r.randint(5, 500) * TFT)
        self.stakes = []
        if bs and self.chance(0.4):
            self.add_stakes(nb, allk or ['f0'])
        # spends of earlier outputs
        self.gone = set()
        for _ in range(r.randint(0, spends)):
            self.add_spend(nb)
        pool = []
        self.pool = pool
        for _ in range(r.randint(0, mempool)):
            d = self.add_spend(None)
            if d:
                pool.append(d)
        self.mint = mint or self.pick(['f999', 'f999', self.pick(allk or ['f0'])])
        self.bots, self.reg, self.swaps, self.shared = [], [], [], {}
        if bots:
            self.add_bots(nb, bots)
        if erc:
            self.add_erc(nb, erc)
        if mints:
            self.add_mints(nb, mints)
        if swaps:
            self.add_swaps(nb, swaps)
        s = {'net': self.net, 'nodes': self.nodes, 'mint': self.mint, 'keys': sorted(set(allk + ['f%d' % i for i in range(6)] + [
            x for m in self.ms for x in m.split(':')[2].split(',')])), 'blocks': blocks, 'mempool': pool,
            'dup_refuse': self.chance(0.2), 'gossip': self.chance(0.85)}
        for m in [self.mint] + [t['to'] for b in blocks for t in b['txs'] if t['t'] == 'mintdef']:
            for x in str(m).split(':')[-1].split(','):
                if x not in s['keys']:
                    s['keys'].append(x)
        for sw in self.swaps:
            for x in (sw['sender'], sw['receiver']):
                if x not in s['keys']:
                    s['keys'].append(x)
        if self.chance(0.6):
            s['order'] = self.pick(['id', 'id', 'reverse'])
        if self.chance(0.3):
            s['dress'] = self.pick(['list', 'bare', 'extra'])
        if self.chance(0.35):
            self.fund_records(nb)
        if self.chance(0.3):
            self.make_legacy()
        if self.chance(0.12):
            s['official'] = True
        if self.chance(0.4):
            s['tz'] = self.pick(sorted(when.ZONES))
        if self.chance(0.2):
            s['genesis'] = True         # the payments of the first block are in the first block of the chain
        self.setup = s
        return s

    def add_stakes(self, nb, allk):
        """block stakes, and transactions that move them (without a fee, like those that create blocks, or with one)"""
        r = self.r
        have = []
        for bi in sorted(r.randrange(nb) for _ in range(r.randint(1, 3))):
            lab = self.label('K')
            l = [[r.choice([r.randint(1, 9), r.randint(1, 3000), (1 << r.randint(1, 70)) - r.randint(0, 1)]), self.pick(allk + ['f0'])]
                 for _ in range(r.randint(1, 3))]
            self.blocks[bi]['txs'].append({'t': 'pay', 'label': lab, 'outs': [], 'bs': l})
            have += [('%s:b%d' % (lab, i), bi, v, k) for i, (v, k) in enumerate(l)]
        self.stakes = have
        for _ in range(r.randint(0, 2)):
            take = r.sample(have, min(len(have), r.randint(1, 3)))
            if not take:
                return
            self.stakes = have = [x for x in have if x not in take]
            bi = r.randint(max(t[1] for t in take), nb - 1)
            total = sum(t[2] for t in take)
            l = []
            while total:
                v = r.randint(1, total) if len(l) < 4 else total
                total -= v
                l.append([v, self.pick(allk + ['f1'])])
            lab = self.label('K')
            self.blocks[bi]['txs'].append({'t': 'spend', 'from': [], 'outs': [], 'fee': None, 'label': lab,
                                           'bsfrom': [t[0] for t in take], 'bs': l})
            have += [('%s:b%d' % (lab, i), bi, v, k) for i, (v, k) in enumerate(l)]

    def fund_records(self, nb):
        """others pay for their records, or send coins to Ethereum, from outputs of all kinds and with change of all kinds"""
        r = self.r
        l = [(bi, t) for bi, b in enumerate(self.blocks) for t in b['txs'] if t['t'] in ('bot', 'reg') and t['key'][0] == 'f']
        for _ in range(r.randint(0, 2)):
            bi = r.randrange(nb)
            t = {'t': 'convert', 'address': '0x%040x' % r.getrandbits(160), 'label': self.label('E')}
            self.blocks[bi]['txs'].append(t)
            l.append((bi, t))
        for bi, t in l:
            t['from'] = []
            for i in range(r.choice([1, 1, 2, 3])):
                sym = self.cond_sym()
                while sym.startswith('lock:') and r.random() < 0.7:
                    sym = self.cond_sym()
                if sym.startswith('lock:'):
                    sym = 'lock:1:' + sym.split(':', 2)[2]
                elif sym.startswith('swap:'):
                    a, b, _, at = sym[5:].split(',')
                    sec = t.setdefault('secret', '%064x' % r.getrandbits(256))
                    t['as_sender'] = r.random() < 0.4
                    sym = 'swap:%s,%s,%s,%d' % (a, b, hashlib.sha256(bytes.fromhex(sec)).hexdigest(), 1 if t['as_sender'] else self.T + 10 ** 6)
                lab = self.label('F')
                self.blocks[r.randint(0, bi)]['txs'].insert(0, {'t': 'pay', 'label': lab, 'outs': [
                    [r.randint(1, 100) * TFT + r.randint(0, TFT) + (900 * TFT if t['t'] == 'bot' and not i else 20 * TFT), sym]]})
                t['from'].append(lab + ':0')
            t['change'] = self.cond_sym() if t['t'] != 'convert' or self.chance(0.6) else None

    def make_legacy(self):
        """turns some of the plain transactions of the chain into version 0 ones"""
        sym = {l: s for l, _, _, s in self.outlabels}
        for b in self.blocks:
            for t in b['txs']:
                if t['t'] == 'spend':
                    ins = [sym.get(x, '') for x in t['from']]
                elif t['t'] == 'pay':
                    ins = []
                else:
                    continue
                if all(s and s[0] in 'wf' for s in ins + [o[1] for o in t['outs']]) and 'secret' not in t and 'as_sender' not in t and self.chance(0.5):
                    t['legacy'] = True


    def maybe_lock(self, sym, p):
        if not self.chance(p):
            return sym
        r = self.r
        if r.random() < 0.5:
            v = max(1, self.H + r.choice([-1, 0, 1, 1, 2, 3, 10]))
        else:
            v = self.T + r.choice([-3600, -1, 0, 1, 1, 30, 60, 61, 600, 3600, 10 ** 6])
        return 'lock:%d:%s' % (v, sym)

    def block_time(self, bi):
        return GENESIS_TIME + sum(b['n'] * b['dt'] for b in self.blocks[:bi]) + self.blocks[bi]['dt']

    def add_bots(self, nb, n):
        r = self.r
        names = list(NAMES)
        r.shuffle(names)
        used = set()
        for bi in sorted(r.randrange(nb) for _ in range(r.randint(1, n))):
            c = [k for k in self.keysyms + ['f%d' % i for i in range(4)] if k not in used]
            if not c:
                break
            k = self.pick([x for x in c if x[0] == 'w'] or c) if r.random() < 0.75 else self.pick(c)
            used.add(k)
            nm = [names.pop() for _ in range(r.choice([0, 1, 1, 2, 3])) if names]
            ad = r.sample(ADDRS, r.choice([0, 1, 1, 2]))
            if not nm and not ad:
                ad = [ADDRS[0]]
            m = r.choice([1, 1, 2, 12, 24])
            self.blocks[bi]['txs'].append({'t': 'bot', 'key': k, 'months': m, 'names': nm, 'addrs': ad, 'label': self.label('B')})
            self.bots.append({'id': len(self.bots) + 1, 'key': k, 'names': nm, 'addrs': ad, 'exp': self.block_time(bi) + m * 30 * 86400})
        self.freenames = names

    def add_erc(self, nb, n):
        r = self.r
        c = self.keysyms + ['f%d' % i for i in range(4)]
        for k in r.sample(c, min(len(c), r.randint(0, n))):
            self.blocks[r.randrange(nb)]['txs'].append({'t': 'reg', 'key': k, 'label': self.label('R')})
            self.reg.append(k)
        for _ in range(r.randint(0, 2)):
            lab = self.label('W')
            k, v = self.pick(c), r.randint(1, 50) * TFT + r.randint(0, 999)
            bi = r.randrange(nb)
            self.blocks[bi]['txs'].append({'t': 'erc', 'to': k, 'value': v, 'label': lab})
            self.outlabels.append((lab + ':0', bi, v, k))

    def add_mints(self, nb, n):
        r = self.r
        cur = self.mint
        c = self.keysyms + ['f7', 'f8']
        for bi in range(nb):
            if n and r.random() < 0.5:
                n -= 1
                k = r.randrange(3)
                if k == 0:
                    o = r.sample(c, min(len(c), r.randint(1, 3)))
                    to = 'ms:%d:%s' % (r.randint(1, len(o)), ','.join(o))
                else:
                    to = self.pick(c)
                self.blocks[bi]['txs'].append({'t': 'mintdef', 'to': to, 'label': self.label('D')})
                cur = to
            elif r.random() < 0.3:
                lab = self.label('C')
                sym, v = self.pick(self.keysyms), r.randint(1, 1000) * TFT
                self.blocks[bi]['txs'].append({'t': 'mint', 'outs': [[v, sym]], 'label': lab})
                self.outlabels.append((lab + ':0', bi, v, sym))
        self.mint_now = cur

    def add_swaps(self, nb, n):
        r = self.r
        for _ in range(r.randint(1, n)):
            sec = bytes(r.randrange(256) for _ in range(32)).hex()
            h = hashlib.sha256(bytes.fromhex(sec)).hexdigest()
            a = self.pick(self.keysyms + ['f1'])
            b = self.pick(self.keysyms + ['f2'])
            if r.random() < 0.7 and a[0] == 'f' and b[0] == 'f':
                a = self.keysyms[0]
            bi = r.randrange(nb)
            lab = self.label('W')
            v = r.choice([self.fee + 1, self.fee + r.randint(1, 10 ** 6), r.randint(2, 80) * TFT, r.randint(2, 80) * TFT + 77, self.fee, max(1, self.fee - 1)])
            t = r.choice([self.T + r.choice([-1, 0, 1, 60, 61, 600, 3600, 172800]), self.T + 86400, self.block_time(bi) - 1, 1])
            self.blocks[bi]['txs'].append({'t': 'pay', 'label': lab, 'outs': [[v, 'swap:%s,%s,%s,%d' % (a, b, h, t)]]})
            w = {'label': lab, 'sender': a, 'receiver': b, 'secret': sec, 'hash': h, 'time': t, 'value': v, 'spent': None}
            self.swaps.append(w)
            self.shared['secret:' + lab] = sec
            self.shared['hash:' + lab] = h
            if v > self.fee and r.random() < 0.35:
                fb = r.randint(bi, nb - 1)
                refund = r.random() < 0.5 and self.block_time(fb) >= t
                w['spent'] = 'refund' if refund else 'redeem'
                d = {'t': 'spend', 'from': [lab + ':0'], 'outs': [[None, a if refund else b]], 'label': self.label('S')}
                if refund:
                    d['as_sender'] = True
                else:
                    d['secret'] = sec
                self.blocks[fb]['txs'].append(d)

    def target_sym(self):
        c = ['f%d' % self.r.randrange(6)] * 3 + self.keysyms
        c += self.ms
        return self.pick(c)

    def add_spend(self, nb):
        """spend earlier plain outputs, in a block or in the memory pool"""
        r = self.r
        c = [(l, bi, v, s) for l, bi, v, s in self.outlabels if l not in self.gone and s[0] in 'wf' and
             (nb is None or bi < nb - 1) and v > self.fee + 2]
        if not c:
            return None
        x = self.pick(c)
        take = [x]
        if r.random() < 0.3:
            y = self.pick(c)
            if y[0] != x[0]:
                take.append(y)
        for t in take:
            self.gone.add(t[0])
        total = sum(t[2] for t in take) - self.fee
        bi = None
        if nb is not None:
            bi = r.randint(max(t[1] for t in take), nb - 1)
        outs = []
        n = r.choice([1, 1, 2, 3])
        for _ in range(n - 1):
            if total < 3:
                break
            v = r.randint(1, total - 1)
            outs.append([v, self.maybe_lock(self.target_sym(), 0.2 if nb is not None else 0.35)])
            total -= v
        outs.append([total, self.target_sym() if nb is not None else self.maybe_lock(self.target_sym(), 0.2)])
        lab = self.label('S')
        d = {'t': 'spend', 'from': [t[0] for t in take], 'outs': outs, 'label': lab}
        if nb is not None:
            # same block: after its parent
            self.blocks[bi]['txs'].append(d)
        for i, (v, s) in enumerate(outs):
            self.outlabels.append(('%s:%d' % (lab, i), bi if bi is not None else 99, v, s))
            if bi is None:
                self.gone.add('%s:%d' % (lab, i))
        return d

    # ------------------------------------------------------------ operations
    def op(self, _op, a=0, **kw):
        o = {'a': a, 'op': _op, 'id': self.oid}
        self.oid += 1
        o.update({k: v for k, v in kw.items() if v is not None})
        self.ops.append(o)
        return o

    def recipient(self):
        r = self.r
        k = r.randrange(15)
        f = ['@f%d' % i for i in range(5)]
        if k == 14:
            return {'$cond': self.cond_sym()}
        if k < 5:
            return self.pick(f)
        if k < 8:
            return '@' + self.pick(self.keysyms or ['f0'])
        if k == 8:
            return None
        if k == 9:
            return r.sample(f + ['@' + x for x in self.keysyms], 2)
        if k == 10:
            l = r.sample(f + ['@' + x for x in self.keysyms], r.choice([2, 3, 4]))
            m = r.randint(1, len(l))
            return {'$tuple': [m, l] if r.random() < 0.6 else [l, m]}
        if k == 11:
            return {'$uh': self.pick(f)}
        if k == 12:
            return {'$rawuh': self.pick(f), 'mutable': self.chance(0.3)}
        return self.pick(f)

    def cond_sym(self, w=0):
        """a condition of any type, as setup.py and Ring.cond_json write it"""
        r = self.r
        ks = ['f%d' % i for i in range(5)] + list(self.keysyms)
        base = r.choice(['nil', self.pick(ks), self.pick(ks), 'ms'])
        if base == 'ms':
            l = r.sample(ks, r.choice([2, 3, 3]))
            base = 'ms:%d:%s' % (r.randint(1, len(l)), ','.join(l))
        k = r.randrange(4)
        if k == 0:
            return 'swap:%s,%s,%s,%d' % (r.choice(ks), r.choice(ks), '%064x' % r.getrandbits(256), self.T + r.choice([-100, 100, 86400]))
        if k == 1:
            return base
        return 'lock:%d:%s' % (r.choice([1, self.H, self.H + 2, self.T - 10, self.T + 1000, 499999999, 500000000]), base)

    def lock_arg(self):
        r = self.r
        k = r.randrange(8)
        if k == 0:
            return self.H + r.choice([1, 2, 5, 100, 0])
        if k == 1:
            return self.T + r.choice([-5, 1, 100, 86400])
        if k == 2:
            return self.duration_arg()
        if k == 3:
            return r.choice([1, 499999999, 500000000, 500000001])
        if k == 4:
            return self.calendar_arg()
        if k == 5:
            if r.random() < 0.5:
                return {'$td': r.choice([30, 3600, 86400, 90061, 1.5, 7 * 86400])}
            d = {'$dt': [2020, r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)][:r.choice([3, 5, 6])]}
            if r.random() < 0.4:
                d['off'] = r.choice([0, 60, 330, -480])
            return d
        return None

    def duration_arg(self):
        return self.r.choice(['+1d', '+1h30m', '+7d', '+15m', '+30s', '+2d3h4m5s', '+ 2h', '+1.5h', '+0.5d', '+5400', '+90s', '+36h', '+1d1s', '+100m'])

    def calendar_arg(self, lo=-3):
        """an instant as text: a calendar date and time of the local time zone, or one that lies back"""
        r = self.r
        if lo < 0 and r.random() < 0.2:
            return r.choice(['-1h', '-30m', '-2d', '-1w', '-1M', '-45s'])
        t = self.T + r.randint(lo * 86400, 40 * 86400) + r.choice([0, 0, 300 * 86400])
        return when.show(t, r.randrange(25), when.east(self.setup.get('tz')))

    def data_arg(self):
        r = self.r
        k = r.randrange(6)
        if k == 0:
            return 'hello %d' % r.randrange(99)
        if k == 1:
            if r.random() < 0.3:
                # letters of two and three bytes
                return r.choice(['é' * 41 + 'x', '€' * 27, 'é', '5 € – ok'])
            return 'x' * r.choice([1, 82, 83])
        if k == 2:
            return {'$bytes': bytes(r.randrange(256) for _ in range(r.choice([1, 40, 83]))).hex()}
        return None

    def spend_guess(self, w=0):
        """amounts near what wallet w can pay"""
        vals = [v for l, bi, v, s in self.outlabels if s.startswith('w%d.' % w) and l not in self.gone]
        r = self.r
        late = [v for l, bi, v, s in self.outlabels if bi == 99 and ('w%d.' % w) in s]
        if late and r.random() < 0.3:
            # what needs the outputs that are not confirmed yet
            x = r.sample(late, r.randint(1, len(late)))
            return max(1, sum(vals) + sum(x) - self.fee - r.choice([0, 0, 1, x[0] // 2]))
        if not vals:
            return self.amount()
        k = r.randrange(5)
        if k == 0:
            return max(1, sum(vals) - self.fee + r.choice([-1, 0, 0, 1]))
        if k == 1:
            return max(1, self.pick(vals) - self.fee + r.choice([-1, 0, 0, 1]))
        if k == 2:
            x = r.sample(vals, r.randint(1, len(vals)))
            return max(1, sum(x) - self.fee + r.choice([-1, 0, 0, 1]))
        return r.randint(1, max(2, sum(vals)))

    def exact_amount(self, w=0):
        """an amount that one output of the wallet pays without change, if it has one"""
        vals = [v for l, bi, v, s in self.outlabels if s.startswith('w%d.' % w) and s.count(':') == 0 and l not in self.gone and v > self.fee]
        return self.pick(vals) - self.fee if vals else None

    def exact_from(self, o, w=0):
        """let the payment be what one output of one address pays without change"""
        c = [(v, s) for l, bi, v, s in self.outlabels if s.startswith('w%d.' % w) and s.count(':') == 0 and l not in self.gone and v > self.fee]
        if c:
            v, s = self.pick(c)
            o['source'], o['amount'] = '@' + s, self.amount_arg(v - self.fee)
        return o

    def shared_from(self, o, w=0):
        """let a wallet of several owners pay, of what it holds"""
        c = [(v, s) for l, bi, v, s in self.outlabels if s in self.ms and ('w%d.' % w) in s and l not in self.gone and v > self.fee + 1]
        if c:
            v, s = self.pick(c)
            o['source'], o['amount'] = '@' + s, self.amount_arg(self.pick([v - self.fee, max(1, v // 3), self.r.randint(1, v - self.fee)]))
            o.pop('refund', None)
        return o

    def pay_amount(self, w=0):
        return self.spend_guess(w) if self.chance(0.5) else self.amount()

    def source_arg(self, w=0, p=0.3):
        if not self.chance(p):
            return None
        r = self.r
        ks = ['@w%d.%d' % (w, i) for i in self.wkeys[w]] or ['@w%d.0' % w]
        mine = ['@' + m for m in self.ms if any(k[1:] in m.split(':')[2].split(',') for k in ks)]
        k = r.randrange(6)
        if k < 2:
            return self.pick(ks)
        if k == 2:
            return r.sample(ks, r.randint(1, len(ks)))
        if k == 3 and mine:
            return [self.pick(mine)] + ks[:1]
        if mine:
            return self.pick(mine)
        return self.pick(ks)

    def refund_arg(self, w=0, p=0.25):
        if not self.chance(p):
            return None
        r = self.r
        k = r.random()
        if k < 0.6:
            return '@' + self.pick(self.keysyms + ['f4'])
        if k < 0.8:
            return {'$cond': self.cond_sym(w)}
        return {'$tuple': [1, ['@f1', '@w%d.0' % w]]}

    def o_send(self, a=0, w=0, **kw):
        n = self.pay_amount(w)
        o = self.op('coins_send', a, to=self.recipient(), amount=self.amount_arg(n), source=self.source_arg(w),
                    refund=self.refund_arg(w), data=self.data_arg(), label=self.label('t'), **kw)
        l = self.lock_arg() if self.chance(0.4) else None
        if l is not None:
            o['lock'] = l
        o.setdefault('to', None)
        if self.chance(0.04):
            self.exact_from(o, w)
        elif self.chance(0.03):
            self.shared_from(o, w)
        return o

    def o_builder(self, a=0, w=0):
        n = self.r.choice([1, 2, 3, 5])
        outs = []
        left = self.pay_amount(w)
        for i in range(n):
            v = left if i == n - 1 else self.r.randint(1, max(1, left))
            outs.append([max(1, v), self.recipient(), self.lock_arg() if self.chance(0.3) else None])
            left = max(1, left - v)
        keep = self.chance(0.4)
        o = self.op('builder', a, outs=outs, source=self.source_arg(w), refund=self.refund_arg(w), data=self.data_arg(),
                    label=self.label('t'), keep=keep or None)
        if keep:
            o['builder'] = 'K%d' % o['id']
            for _ in range(self.r.randint(1, 2)):
                self.op('builder', a, outs=outs, builder=o['builder'], keep=True)
        return o

    def o_bad_send(self, a=0, w=0):
        r = self.r
        k = r.choice(['negative', 'zero', 'precise', 'damaged', 'damaged', 'damaged', 'biglock', 'bigdata', 'badsource', 'garbage', 'nonstandard'])
        to = self.pick(['@f1', '@w%d.0' % w, '@f2'])
        n = r.randint(1, 20) * TFT
        am = {'$amount': n, 'form': 0}
        if k == 'negative':
            am = {'$amount': -n, 'form': 0}
        elif k == 'zero':
            am = {'$amount': 0, 'form': 0}
        elif k == 'precise':
            am = r.choice(['1.0000000001', '0.00000000001', '3.1234567891 TFT'])
        elif k == 'garbage':
            am = r.choice(['', 'TFT', '1,5', '1 2', 'one', '1..2', '--1', '0x10', '1e3x'])
        elif k == 'damaged':
            return self.op('coins_send', a, to={'$damage': to, 'how': self.pick(['flip', 'flip', 'flip', 'drop', 'dup', 'swap', 'cut', 'junk']),
                                                'x': r.randrange(10 ** 6)}, amount=self.amount_arg(n), bad='damaged-address')
        elif k == 'bigdata':
            return self.op('coins_send', a, to=to, amount=am, data=r.choice(['y' * 84, 'y' * 100, 'y' * 300, 'é' * 42, '€' * 28]), bad='data')
        elif k == 'nonstandard':
            return self.op('coins_send', a, to={'$tuple': [r.choice([1, 2]), [to, to]]}, amount=am, bad='nonstandard')
        elif k == 'badsource':
            return self.op('coins_send', a, to=to, amount=am, source={'$damage': '@w%d.0' % w, 'how': 'flip', 'x': r.randrange(9999)},
                           bad='damaged-source')
        elif k == 'biglock':
            return self.op('coins_send', a, to=to, amount=am, lock=r.choice([-1, '+zz', 'soon', '5x']), bad='lock')
        return self.op('coins_send', a, to=to, amount=am if isinstance(am, dict) else am, bad=k)

    def o_drain(self, a=0, w=0):
        mine = ['@' + m for m in self.ms if any(s.startswith('w%d.' % w) for s in m.split(':')[2].split(','))]
        to = self.recipient()
        o = self.op('drain', a, unconfirmed=self.chance(0.4) or None, data=self.data_plain(), label=self.label('d'))
        o['to'] = to if to is not None else '@f2'
        if mine and self.chance(0.35):
            o['ms'] = self.pick(mine)
        if self.chance(0.15):
            o['submit'] = False
        if self.chance(0.2):
            o['lock'] = self.r.choice([self.H + 5, self.T + 1000, '+1d'])
        return o

    def data_plain(self):
        return self.pick([None, None, None, None, None, 'drained', 'z' * 83, 'é' * 41 + 'x', '€ 5'])

    # ------------------------------------------------------------ faults and events
    def ordinal(self):
        r = self.r
        k = r.randrange(10)
        if k < 4:
            return r.randrange(0, 5)
        if k < 8:
            return r.randrange(0, 16)
        return r.randrange(0, 45)

    def fault(self, o, kinds, at=None, node=None, **kw):
        f = {'a': o['a'], 'op': o['id'], 'at': self.ordinal() if at is None else at, 'kind': self.pick(kinds) if not isinstance(kinds, str) else kinds,
             'x': self.r.randrange(10 ** 6)}
        if node is not None:
            f['node'] = node
        if f['kind'] == 'slow':
            f['dt'] = self.r.choice([1.0, 5.0, 20.0])
        f.update(kw)
        self.faults.append(f)
        return f

    def net_trouble(self, o, live=None):
        """unreachable explorers in one operation; live: a node kept healthy"""
        r = self.r
        k = r.randrange(8)
        if k < 3:
            for _ in range(r.randint(1, 3)):
                self.fault(o, LIVE_NET)
        elif k < 6:
            dead = [n for n in range(self.nodes) if n != live and r.random() < 0.7]
            for n in dead:
                self.fault(o, LIVE_NET, 'all' if r.random() < 0.5 else 'from', n, n=self.ordinal())
        elif live is None and r.random() < 0.5:
            # one request that no explorer answers, before and after which all is well
            n, kind = self.ordinal(), self.pick(LIVE_NET[:-1])
            for j in range(self.nodes):
                self.fault(o, kind, n + j)
        elif live is None:
            kind = self.pick(LIVE_NET[:-1])
            self.fault(o, kind, r.choice(['all', 'from', 'from']), None, n=self.ordinal())
        else:
            self.fault(o, LIVE_NET)

    def post_trouble(self, o):
        r = self.r
        k = self.pick(ACK_FAULTS * 2 + ['reset_before', 'stall_before', 'eof_before', 'http500', 'http503', 'http400', 'http201', 'http202',
                                        'garbage', 'empty', 'truncate', 'midreset', 'emptyobj', 'null', 'drop', 'nullify', 'retype', 'short_eof'])
        f = self.fault(o, [k], 'post')
        if r.random() < 0.6:
            f['times'] = 1
        return f

    def event(self, o, kinds=None, at=None):
        r = self.r
        k = self.pick(kinds or ['block', 'block', 'block', 'reorg', 'drop_mempool', 'partition', 'heal', 'spend', 'skew'])
        e = {'a': o['a'], 'op': o['id'], 'at': at if at is not None else self.pick([self.ordinal(), self.ordinal(), 'start', 'post', 'posted', 'answered']),
             'ev': k, 'node': r.randrange(self.nodes)}
        if k == 'block':
            e['dt'] = r.choice([1, 30, 60, 600, 3600, 86400])
            self.edge(e, 0.3)
            if r.random() < 0.2:
                e['limit'] = r.randint(0, 2)
            if r.random() < 0.15:
                e['deliver'] = False
        elif k == 'reorg':
            e['depth'] = r.choice([1, 1, 2, 3])
            e['dts'] = [r.choice([1, 60, 600, 4000]) for _ in range(r.randint(1, 4))]
        elif k == 'skew':
            e['to'] = r.choice([-10 ** 8, -86400, -3600, 0, 3600, 86400, 10 ** 8])
            e['who'] = o['a']
        elif k == 'spend' and r.random() < 0.25:
            self.other_device(o)
            self.events[-1]['at'] = e['at']
            return e
        elif k == 'spend':
            c = [(l, v, s) for l, bi, v, s in self.outlabels if l not in self.gone and s[0] in 'wf' and v > self.fee + 2]
            if not c:
                e['ev'], e['dt'] = 'block', 60
            else:
                l, v, s = self.pick(c)
                e['tx'] = {'t': 'spend', 'from': [l], 'outs': [[None, self.target_sym()]], 'label': self.label('E')}
        self.events.append(e)
        return e

    def edge(self, e, p):
        """let the block fall on an instant that matters to some output, contract or 3Bot"""
        r = self.r
        if r.random() < p:
            e['edge'] = r.choice([0, 0, 0, 1, 2, 3])
            e['delta'] = r.choice([-1, 0, 0, 0, 1])
            if r.random() < 0.25:
                e['high'] = True

    def other_device(self, o, w=0, swap=None):
        """another copy of the wallet made a new key, and the world uses it: a payment or a contract to it"""
        r = self.r
        k = 'w%d.%d' % (w, max(self.wkeys[w] or [0]) + r.choice([1, 1, 1, 2, 3]))
        v = r.randint(3, 60) * TFT + r.randint(0, 99)
        src = self.put('f6', v)
        lab = self.label('E')
        self.gone.add(src)
        outs = [[None, k]]
        if r.random() < 0.5 if swap is None else swap:
            sec = bytes(r.randrange(256) for _ in range(32)).hex()
            h = hashlib.sha256(bytes.fromhex(sec)).hexdigest()
            a, b = ('f2', k) if r.random() < 0.6 else (k, 'f2')
            t = self.T + r.choice([-3600, 1, 600, 86400])
            outs = [[None, 'swap:%s,%s,%s,%d' % (a, b, h, t)]]
            self.swaps.append({'label': lab, 'sender': a, 'receiver': b, 'secret': sec, 'hash': h, 'time': t, 'value': v - self.fee, 'spent': None})
            self.shared['secret:' + lab] = sec
            self.shared['hash:' + lab] = h
            if r.random() < 0.75:
                # only payments, not contracts, show a key in use
                o2 = self.put('f6', TFT * 3)
                self.gone.add(o2)
                self.events.append({'a': o['a'], 'op': o['id'], 'at': 'start', 'ev': 'spend', 'node': 0,
                                    'tx': {'t': 'spend', 'from': [o2], 'outs': [[None, k]], 'label': self.label('E')}})
        elif r.random() < 0.3:
            outs = [[None, 'ms:1:%s,f3' % k]]
        self.events.append({'a': o['a'], 'op': o['id'], 'at': 'start', 'ev': 'spend', 'node': 0, 'tx': {'t': 'spend', 'from': [src], 'outs': outs, 'label': lab}})
        if r.random() < 0.8:
            self.mine(o)
        return lab

    def mine(self, o, node=0, dt=60, at='start', edge=0.15):
        e = {'a': o['a'], 'op': o['id'], 'at': at, 'ev': 'block', 'node': node, 'dt': dt}
        self.edge(e, edge)
        self.events.append(e)

    def settle(self, a=0, n=None):
        """an idle moment in which blocks are mined and partitions heal"""
        o = self.op('events', a)
        self.events.append({'a': a, 'op': o['id'], 'at': 'start', 'ev': 'heal'})
        for _ in range(self.r.choice([1, 1, 2]) if n is None else n):
            self.mine(o, self.r.randrange(self.nodes), self.r.choice([1, 60, 600]))
        return o

    def o_open(self, a=0, w=0, name=None, **opts):
        o = self.op('open', a, seed=w, mnemonic=self.chance(0.2) or None, w=name)
        if self.chance(0.1):
            o['net'] = 'auto'
        if self.chance(0.1):
            o['bad_addresses'] = [self.r.randrange(3)]
        if opts:
            o['opts'] = opts
        return o

    def spec(self, **kw):
        for o in self.ops:
            # no lock around a condition that cannot be locked
            t = o.get('to')
            if o.get('lock') is not None and isinstance(t, dict) and t.get('$cond', '')[:4] in ('lock', 'swap'):
                o.pop('lock')
            t = o.get('refund')
            if o['op'].startswith('swap_') and isinstance(t, dict) and t.get('$cond', '')[:4] == 'swap':
                o['refund'] = '@f3'     # one contract per transaction
            for x in o.get('outs') or ():
                if isinstance(x, list) and len(x) == 3 and isinstance(x[1], dict) and x[1].get('$cond', '')[:4] in ('lock', 'swap'):
                    x[2] = None
        for a in self.actors:
            if self.chance(0.3) and 'skew' not in a:
                a['skew'] = self.r.choice([-10 ** 8, -86400, -300, 300, 86400, 10 ** 8])
        s = {'seed': self.seed, 'profile': self.p, 'setup': self.setup, 'actors': self.actors, 'ops': self.ops, 'faults': self.faults,
             'events': self.events, 'lat': self.r.choice([0.0, 0.2, 2.0])}
        if self.shared:
            s['shared'] = self.shared
        s.update(kw)
        return s


def gen(profile, seed):
    from .profiles import PROFILES
    g = Gen(profile, seed)
    return PROFILES[profile](g)
