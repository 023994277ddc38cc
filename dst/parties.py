"""Multi-step protocols followed by simulated users, and end-of-run checks."""
import hashlib
import json
from . import enc
from .chain import TFT
from .lib import E, T, units
from .work import Call

DAY = 86400


class Parties:
    progress = 0

    # ------------------------------------------------------------ the chain goes on
    def op_mine_loop(self, sim, actor, rec, op):
        w = sim.world
        for i in range(op['n']):
            if getattr(sim, 'stopped', False):
                return 'stopped'
            sim.wait(op['every'])
            for e in op.get('script', {}).get(str(i), ()):
                sim.do_event(e)
            up = [n.idx for n in w.nodes if n.up]
            if up:
                w.mine(up[i % len(up)], op['every'])
        sim.shared['mined'] = 1
        return 'mined'

    # ------------------------------------------------------------ swap protocol
    def op_swap_party(self, sim, actor, rec, op):
        disk = actor.disk
        end = sim.t0 + op['hours'] * 3600
        while sim.now < end and not getattr(sim, 'stopped', False) and not sim.shared.get('mined'):
            n = len(rec.attempts)
            if self.swap_step(sim, actor, rec, op, disk):
                disk['done'] = True
                return 'done %s' % disk.get('state')
            sim.wait(op['poll'])
        return 'time is over %s' % disk.get('state')

    def publish(self, sim, op, disk):
        sim.shared['msg:' + op['role']] = disk['out']

    def swap_step(self, sim, actor, rec, op, disk):
        role = op['role']
        if disk.get('done'):
            return True
        if actor.mem.get('W') is None:
            self.op_open(sim, actor, rec, {'seed': 0 if role == 'alice' else 1, 'w': 'W'})
            if actor.mem.get('W') is None:
                return False
        w = actor.mem['W']
        alice, bob = self.ring.uh('w0.0'), self.ring.uh('w1.0')
        me, other = (alice, bob) if role == 'alice' else (bob, alice)
        # --- own contract
        if not disk.get('out'):
            if disk.get('doc'):
                pass
            elif role == 'alice':
                if not self.make_own(sim, actor, rec, op, disk, other, op['av'], None):
                    return False
            else:
                if op.get('quit'):
                    return True
                theirs = sim.shared.get('msg:alice')
                if theirs is None:
                    return False
                c = Call(sim, rec, lambda: w.atomicswap.verify(theirs, amount=units_text(op['av']), min_refund_time='+36h', receiver=True))
                self.judge(c, rec, 'C10', [E.AtomicSwapContractNotFound, E.AtomicSwapContractSpent, E.AtomicSwapContractInvalid], submits=False)
                if isinstance(c.exc, (E.AtomicSwapContractSpent, E.AtomicSwapContractInvalid)):
                    return True         # nothing was put at stake
                if not c.ok:
                    return False
                disk['theirs'] = theirs
                if not self.make_own(sim, actor, rec, op, disk, other, op['bv'], str(c.value.secret_hash)):
                    return False
        if disk.get('doc') and not disk.get('sent'):
            # send what was written down; sending it again is harmless
            c = Call(sim, rec, lambda: w.client.transaction_put(T.from_json(disk['doc'])))
            self.judge(c, rec, 'C10', illegal=('spent', 'duplicate', 'missing'))
            if c.ok or self.on_chain(sim, rec, w, disk):
                disk['sent'] = True
            else:
                return False
        if not sim.shared.get('msg:' + role):
            self.publish(sim, op, disk)
        # --- is my own contract settled
        mine, when = self.look(sim, rec, w, disk['out'])
        if mine == 'unknown' or mine == 'error':
            return False
        if mine == 'refunded':
            disk['state'] = 'refunded'
            return True
        theirs = disk.get('theirs') or sim.shared.get('msg:bob' if role == 'alice' else 'msg:alice')
        if role == 'alice':
            if not op.get('quit') and theirs is not None:
                st, _ = self.look(sim, rec, w, theirs)
                if st == 'redeemed':
                    disk['state'] = 'redeemed'
                    self.progress += 1
                    return True
                if st == 'error':
                    return False
                if mine == 'unspent' and (st == 'unspent' or disk.get('redeeming')) and disk.get('secret'):
                    if not disk.get('redeeming'):
                        c = Call(sim, rec, lambda: w.atomicswap.verify(theirs, amount=units_text(op['bv']), secret_hash=disk['hash'],
                                                                      min_refund_time='+8h', receiver=True))
                        self.judge(c, rec, 'C10', [E.AtomicSwapContractNotFound, E.AtomicSwapContractSpent, E.AtomicSwapContractInvalid], submits=False)
                        if c.ok:
                            disk['redeeming'] = True
                    if disk.get('redeeming'):
                        self.claim(sim, actor, rec, {'out': theirs, 'secret': disk['secret'], 'data': None}, False)
                        return False
        else:
            if isinstance(mine, tuple):
                # alice took my coins: the secret is public now
                self.claim(sim, actor, rec, {'out': theirs, 'secret': mine[1], 'data': None}, False)
                st, _ = self.look(sim, rec, w, theirs)
                if st == 'redeemed' or isinstance(st, tuple):
                    disk['state'] = 'redeemed'
                    self.progress += 1
                    return True
                return False
        if mine == 'unspent' and not disk.get('redeeming') and when is not None and self.chain_time(sim, rec, w) >= when:
            self.claim(sim, actor, rec, {'out': disk['out'], 'data': None}, True)
        return False

    def chain_time(self, sim, rec, w):
        c = Call(sim, rec, lambda: w.client.blockchain_info_get())
        self.judge(c, rec, 'C10', submits=False)
        return c.value.timestamp if c.ok else -1

    def make_own(self, sim, actor, rec, op, disk, other, amount, hsh):
        w = actor.mem['W']
        safe = op['mode'] == 'safe'
        me = op['role']
        if not safe and disk.get('tried'):
            # the process died or the call failed: is there a contract of mine on the chain?
            c = Call(sim, rec, lambda: w.transactions)
            self.judge(c, rec, 'C10', submits=False)
            if not c.ok:
                return False
            for t in c.value:
                for i, o in enumerate(t.coin_outputs):
                    j = json.loads(json.dumps(o.condition.json()))
                    if j.get('type') == 2 and j['data']['sender'] == w.address and str(o.id) != '':
                        disk['out'] = str(o.id)
                        disk['hash'] = j['data']['hashedsecret']
                        if hsh is None:
                            disk['lost'] = True     # the secret died with the process: only a refund is possible
                        return True
            # nothing is shown: it may still be on its way, so the safe form is used from now on
            if sim.now < disk['tried'] + 2 * 3600:
                return False
            safe = True
        if not safe:
            disk['tried'] = sim.now
        label = '%s%d' % (me, len(rec.attempts))
        o = {'to': other, 'amount': {'$amount': amount, 'form': 0}, 'label': label, 'submit': not safe, 'refund_time': None}
        r = self.make_contract(sim, actor, rec, o, hsh)
        doc = sim.shared.get('doc:' + label)
        out = sim.shared.get('contract:' + label)
        if r[0] != 'ok' or out is None:
            return False
        new = {'out': out, 'hash': sim.shared['hash:' + label], 'secret': sim.shared.get('secret:' + label)}
        if safe:
            new['doc'] = doc
            if doc is None:
                return False
        else:
            new['sent'] = True
        disk.update(new)        # one atomic write
        return True

    def on_chain(self, sim, rec, w, disk):
        c = Call(sim, rec, lambda: w.client.coin_output_get(disk['out']))
        self.judge(c, rec, 'C10', submits=False)
        return c.ok

    def look(self, sim, rec, w, oid):
        """state of a contract as the library shows it -> (state, refund time)"""
        c = Call(sim, rec, lambda: w.client.coin_output_get(oid))
        self.judge(c, rec, ['C10', 'C17'], submits=False)
        if isinstance(c.exc, E.ExplorerNoContent):
            return 'unknown', None
        if not c.ok:
            return 'error', None
        out, cre, spe = c.value
        j = json.loads(json.dumps(out.condition.json()))
        when = j['data']['timelock']
        if spe is None:
            return 'unspent', when
        for x in spe.coin_inputs:
            if str(x.parentid) == oid:
                f = json.loads(json.dumps(x.fulfillment.json()))
                sec = f['data'].get('secret')
                if sec:
                    if hashlib.sha256(bytes.fromhex(sec)).hexdigest() != j['data']['hashedsecret']:
                        self.viol('C10', 'wrong-secret', 'the redemption shows a secret that does not match', rec)
                    return (('redeemed', sec) if out.condition.sender and str(out.condition.sender) == w.address else 'redeemed'), when
                return 'refunded', when
        return 'error', when

    # ------------------------------------------------------------ end of the run
    def final(self):
        sim = self.sim
        if not sim.spec.get('swap') or sim.violations or getattr(sim, 'stopped', False):
            return
        sim.world.heal()
        st = max((n for n in sim.world.nodes if n.up), key=lambda n: n.tip.height).tip.state
        alice, bob = self.ring.uh('w0.0'), self.ring.uh('w1.0')
        res = {}
        before = {oid for oid, _ in sim.world.out_labels.values()}      # contracts of others, or of earlier days
        for oid, (o, txid) in st.outs.items():
            c = o.cond
            if c.type == 2 and oid not in before:
                who = 'alice' if c.d['sender'] == alice else 'bob'
                sp = st.spent.get(oid)
                s = 'unspent'
                if sp is not None:
                    t = sim.world.nodes[0].view().find_tx(sp) or max(sim.world.nodes, key=lambda n: n.tip.height).view().find_tx(sp)
                    x = [x for x in t[0].inputs if x.pid == oid][0]
                    s = 'redeemed' if x.f.d.get('secret') else 'refunded'
                res.setdefault(who, []).append(s)
        a, b = res.get('alice', []), res.get('bob', [])
        sim.log.append(['swap', sorted(a), sorted(b)])
        if not sim.shared.get('mined'):
            return
        if ('redeemed' in a) != ('redeemed' in b):
            self.viol('C10', 'not-atomic', 'the swap ended with the contracts %s and %s' % (a, b), None)
        elif 'unspent' in a or 'unspent' in b:
            self.viol('C10', 'stuck-contract', 'a contract was neither redeemed nor refunded: %s %s' % (a, b), None)


def units_text(n):
    return '%d.%09d' % (n // TFT, n % TFT)
