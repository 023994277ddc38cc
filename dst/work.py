"""Operations of simulated users against the real library, and the oracles that
judge them against the reference ledger."""
import copy
import hashlib
import datetime
from decimal import Decimal
import json
import random
import re
import traceback
from . import enc, keys, when
from .enc import Tx, BadTx, Cond
from .chain import TFT, View, bot_fee, MONTH
from .sim import (SimKill, SimHang, SimLimit, HarnessError, h64, CONNECT_FAULTS, UNREACHABLE, LOST_ACK,
                  STATUS_FAULTS, BODY_FAULTS)
from .lib import WalletBalance, WalletsBalance, E, T, CT, Currency, Hash, UnlockHash, TFChainClient, NetworkType, TFChainWallet, ExplorerClient, units

FORMS = 8


def amount_form(n, form):
    """n units as one of the documented text forms (all mean the same amount)"""
    if n <= 0:
        whole, frac = divmod(abs(n), TFT)
        return '-%d.%09d' % (whole, frac) if n < 0 else '0.0'
    whole, frac = divmod(n, TFT)
    s = '%d.%09d' % (whole, frac)
    t = s.rstrip('0')
    if t.endswith('.'):
        t += '0'
    return [s, t, t + ' TFT', t + ' tft', s + 'TFT', '  %s  ' % t, t + '  Tft ', s][form % FORMS]


PROP_OF = {'open': 'C08', 'address_new': 'C08', 'addresses': 'C08', 'coins_send': 'C02', 'builder': 'C02', 'balance': 'C04',
           'transactions': 'C17', 'sign': 'C09', 'mint_def': 'C12', 'mint_coins': 'C12', 'mint_get': 'C12', 'new_wallet': 'C20',
           'swap_initiate': 'C10', 'swap_participate': 'C10', 'swap_verify': 'C11', 'swap_redeem': 'C10', 'swap_refund': 'C10',
           'bot_new': 'C13', 'bot_get': 'C13', 'bot_update': 'C13', 'bot_transfer': 'C13', 'erc20_send': 'C14', 'erc20_register': 'C14',
           'erc20_get': 'C14', 'erc20_list': 'C14', 'drain': 'C18', 'chain_info': 'C17', 'block_get': 'C17', 'tx_get': 'C17',
           'output_get': 'C17', 'uh_get': 'C17', 'compose': 'C17', 'put': 'C03'}

# what a transaction of a version has beside its inputs and outputs
KINDS = {128: ('data', 'mint_condition', 'mint_fulfillment'), 129: ('data', 'mint_fulfillment'),
         144: ('addresses', 'names', 'number_of_months', 'public_key', 'signature', 'transaction_fee'),
         145: ('addresses_to_add', 'addresses_to_remove', 'botid', 'names_to_add', 'names_to_remove', 'number_of_months', 'signature',
               'transaction_fee'),
         146: ('names', 'receiver_botid', 'receiver_signature', 'sender_botid', 'sender_signature', 'transaction_fee'),
         208: ('address', 'value', 'transaction_fee'), 210: ('public_key', 'signature', 'transaction_fee')}


class Call:
    """one call of the library and everything it did on the wire"""

    def __init__(self, sim, rec, fn, pre=None):
        self.sim, self.rec = sim, rec
        self.pre = pre          # the keys the wallet held before
        p0, v0, f0, a0, e0 = len(rec.posts), len(rec.views), len(rec.faults), len(rec.attempts), rec.entropy
        self.value = self.exc = None
        self.tb = ''
        try:
            self.value = fn()
            self.status = 'ok'
        except SimHang:
            self.status = 'hang'
        except SimLimit:
            self.status = 'limit'
        except Exception as e:
            self.status, self.exc = 'err', e
            self.tb = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-3:])
            e.__traceback__ = None
        self.posts = rec.posts[p0:]
        self.views = [v for _, v in rec.views[v0:]]
        self.v0 = v0
        self.faults = rec.faults[f0:]
        self.attempts = rec.attempts[a0:]
        self.entropy = rec.entropy - e0
        self.acked = [p for p in self.posts if p['acked']]
        self.accepted = [p for p in self.posts if p['accepted']]
        kinds = {k for k, _ in self.faults}
        self.body_faults = kinds & set(BODY_FAULTS)
        self.status_faults = kinds & set(STATUS_FAULTS)
        self.net_faults = kinds & set(UNREACHABLE + LOST_ACK)
        if any(a.get('fault') == 'down' for a in self.attempts):
            self.net_faults = self.net_faults | {'down'}
        self.faulty = bool(self.body_faults or self.status_faults or self.net_faults)
        ids = {id(v) for v in self.views}
        self.stable = len(ids) <= 1

    @property
    def ok(self):
        return self.status == 'ok'

    @property
    def view(self):
        return self.views[-1] if self.views else None

    def name(self):
        return type(self.exc).__name__ if self.exc is not None else self.status

    def all_down(self):
        """no configured explorer could be reached by any attempt"""
        return bool(self.attempts) and all(a.get('end') in CONNECT_FAULTS + ('refused', 'lost', 'dns') or 'end' not in a
                                           for a in self.attempts)


def sim_diff(sim):
    return bool(sim.spec.get('diff'))


class Runner:
    """executes the operations of one actor"""

    def __init__(self, sim):
        self.sim = sim
        self.ring = keys.Ring(sim.spec['seed'])
        self.effects = {}
        self.results = []       # canonical outcome per op, for differential checks
        sim.shared = {}
        for k, (oid, _) in sim.world.out_labels.items():
            sim.shared['out:' + k] = oid
        for k, tid in sim.world.labels.items():
            sim.shared['tx:' + k] = tid
        sim.shared.update(sim.spec.get('shared', {}))
        sim.ring = self.ring
        sim.runner = self

    # ------------------------------------------------------------ main loop
    def body(self, sim, actor):
        from .sim import OpRec
        for i, op in enumerate(sim.spec['ops']):
            if op.get('a', 0) != actor.idx:
                continue
            if op['op'] == 'nop':
                continue
            actor.killed = False
            if op.get('wait'):
                sim.wait(op['wait'])
            if op.get('until'):
                self.await_label(sim, op['until'], op.get('patience', 400))
            rec = OpRec(actor, op.get('id', i), op)
            actor.op = rec
            rec.start = sim.now
            random.seed(h64(sim.spec['seed'], 'rng', actor.spec.get('rng', actor.idx), 0 if actor.spec.get('clone') else rec.i))
            rec.crashed = rec.hung = False
            had = self.key_counts(actor)
            try:
                sim.fire_events(rec, 'start')
                r = getattr(self, 'op_' + op['op'])(sim, actor, rec, op)
            except SimKill:
                if not rec.crashed:
                    raise
                r = 'crashed'
                actor.mem = {}
            except HarnessError:
                raise
            except Exception as e:
                if sim.focus is None:
                    raise HarnessError('oracle failed in %s: %s' % (op, traceback.format_exc()))
                # the result of the call is not what any caller can work with
                self.viol(PROP_OF.get(rec.kind, sim.focus) if not sim.other else ['-'], 'unusable:%s:%s' % (rec.kind, type(e).__name__),
                          'the result of %s cannot be used: %s' % (rec.kind, traceback.format_exc()[-1500:]), rec)
                r = 'unusable'
            finally:
                actor.op = None
                rec.end = sim.now
            sim.ops.append(rec)
            if rec.hung:
                self.viol('C06', 'hang', 'the call waits for ever for an explorer that accepted the connection and never answers', rec)
            out = r if r is None or isinstance(r, (str, int, list, dict, tuple)) else str(r)
            sim.log.append(['op', actor.idx, rec.i, rec.kind, out, round(sim.now, 3), len(rec.attempts)])
            self.results.append((rec.i, rec.kind, out))
            self.effects[rec.i] = {'accepted': any(p['accepted'] for p in rec.posts), 'keys': self.key_counts(actor) != had,
                                   'failed': isinstance(out, (list, tuple)) and len(out) > 1 and out[0] == 'err' and isinstance(out[1], str)}
            if self.effects[rec.i]['failed'] and rec.faults:
                actor.mem['#failed'] = True
            if sim.violations and sim.spec.get('stop_first', True):
                sim.stopped = True
                # let the other actors finish too: they see the flag
            if getattr(sim, 'stopped', False):
                return

    def key_counts(self, actor):
        return {k: self.key_set(w, actor.mem['#' + k]) for k, w in actor.mem.items() if '#' + k in actor.mem} if sim_diff(self.sim) else None

    def await_label(self, sim, label, patience):
        n = 0
        while label not in sim.shared and n < patience and not getattr(sim, 'stopped', False):
            sim.wait(1.0)
            n += 1

    def viol(self, props, sig, msg, rec):
        props = {props} if isinstance(props, str) else set(props)
        if rec is not None and '-' not in props:
            kinds = {k for k, _ in rec.faults}
            if kinds and kinds <= set(UNREACHABLE):
                props.add('C06')            # not the result it has when all explorers are healthy
            if kinds & set(BODY_FAULTS):
                props.add('C07')            # a result made from a bad answer
            if not kinds and rec.actor.mem.get('#failed'):
                props.add('C19')            # an earlier call on these objects failed
        self.sim.violate(sorted(props), sig, msg, rec)

    # ------------------------------------------------------------ helpers
    def client(self, sim, actor, op):
        net = op.get('net')
        addrs = sim.addresses(op.get('https', False))
        for bad in op.get('bad_addresses', ()):
            addrs.insert(bad % (len(addrs) + 1), 'http://gone%d.sim' % bad)
        actor.mem['addrs'] = list(addrs)
        if sim.ports and not op.get('bad_addresses'):
            # without explorers given, those of the network are asked
            if net == 'auto' and sim.world.net == 'standard':
                return TFChainClient()
            return TFChainClient(network_type=NetworkType.from_str(sim.world.net) if op.get('id', 0) % 2 else sim.world.net)
        ec = ExplorerClient(addresses=addrs)
        if net == 'auto':
            return TFChainClient(explorer_client=ec)
        return TFChainClient(explorer_client=ec, network_type=net or sim.world.net)

    def wallet(self, actor, op):
        return actor.mem.get(op.get('w', 'W'))

    def owned(self, w, seedno, extra=8, c=None):
        """addresses of the seed whose key the wallet object holds (no request); with c, a call that has to look
        for used keys, also those it should have found"""
        out = []
        more = self.reach(w, seedno, c.view, *c.pre)[0] if c is not None and c.pre is not None and self.scan_clear(c) else ()
        s = keys.seed_of(self.sim.spec['seed'], seedno)
        for i in range(w.key_count + extra):
            k = keys.wkey(s, i)
            try:
                w.key_pair_get(k.uh)
            except KeyError:
                if i not in more:
                    continue
            out.append(k.uh)
        return out

    def seedno(self, actor, op):
        return actor.mem['#' + op.get('w', 'W')]

    def resolve(self, x):
        """symbolic values in operation arguments"""
        if isinstance(x, str) and x.startswith('@'):
            return self.ring.uh(x[1:])
        if isinstance(x, str) and x.startswith('~'):
            return self.sim.shared.get(x[1:])
        if isinstance(x, dict):
            if '$tuple' in x:
                return tuple(self.resolve(v) for v in x['$tuple'])
            if '$bytes' in x:
                return bytes.fromhex(x['$bytes'])
            if '$amount' in x:
                f = x.get('form', 0)
                if f == 'int':
                    return x['$amount'] // TFT
                if f == 'currency':
                    return Currency(value=amount_form(x['$amount'], 0))
                return amount_form(x['$amount'], f)
            if '$damage' in x:
                return damage_text(self.resolve(x['$damage']), x['how'], x.get('x', 0))
            if '$td' in x:
                return datetime.timedelta(seconds=x['$td'])
            if '$dt' in x:
                z = None if 'off' not in x else datetime.timezone(datetime.timedelta(minutes=x['off']))
                return datetime.datetime(*x['$dt'], tzinfo=z)
            if '$rawuh' in x:
                b = bytes.fromhex(self.resolve(x['$rawuh']))
                return bytearray(b) if x.get('mutable') else b
            if '$uh' in x:
                return UnlockHash.from_json(self.resolve(x['$uh']))
            if '$cond' in x:
                return CT.from_json(self.ring.cond_json(x['$cond']))
            return {k: self.resolve(v) for k, v in x.items()}
        if isinstance(x, list):
            return [self.resolve(v) for v in x]
        return x

    def cond_of_recipient(self, r, lock=None, now=None):
        """reference meaning of a recipient argument"""
        if isinstance(r, dict) and '$cond' in r:
            j = self.ring.cond_json(r['$cond'])
        else:
            j = None
            r = self.resolve(r)
        if j is not None:
            pass
        elif r is None:
            j = {}
        elif isinstance(r, str):
            j = {'type': 1, 'data': {'unlockhash': r}}
        elif isinstance(r, (bytes, bytearray)):
            j = {'type': 1, 'data': {'unlockhash': r.hex()}}
        elif isinstance(r, list):
            j = {'type': 4, 'data': {'minimumsignaturecount': len(r), 'unlockhashes': list(r)}}
        elif isinstance(r, tuple):
            m, o = (r if isinstance(r[0], int) else (r[1], r[0]))
            j = {'type': 4, 'data': {'minimumsignaturecount': m, 'unlockhashes': list(o)}}
        else:
            j = {'type': 1, 'data': {'unlockhash': str(r)}}
        if lock is not None:
            j = {'type': 3, 'data': {'locktime': lock, 'condition': j}}
        return Cond(j)

    # ------------------------------------------------------------ generic oracle
    def error_facts(self, c, rec, props, kind, **want):
        """what a documented error tells its catcher: {attribute: possible values}"""
        if not isinstance(c.exc, kind):
            return
        for k, ok in want.items():
            try:
                got = getattr(c.exc, k)
                if k == 'contract':
                    got = contract_facts(got)
                elif k == 'transaction':
                    got = str(got.id)
                elif k in ('amount', 'minimum_miner_fee'):
                    got = units(got)
                elif k in ('outputid', 'address', 'identifier'):
                    got = str(got)
            except Exception as e:
                got = e
            if got not in ok:
                self.viol(props, 'error-says:%s:%s.%s' % (rec.kind, c.name(), k), 'the error %r says %s is %s instead of %s' % (c.exc, k, got, ok[:3]), rec)

    def judge(self, c, rec, main, allowed=(), submits=True, illegal=(), multi=1):
        """checks that hold for every call; main: the property the call belongs to"""
        sim = self.sim
        main = [main] if isinstance(main, str) else list(main)
        if c.status == 'hang':
            rec.hung = True
            return False
        if c.status == 'limit':
            self.viol(main + ['C06'], 'endless', '%s keeps sending requests (%d)' % (rec.kind, len(c.attempts)), rec)
            return False
        # --- failures are documented errors
        if c.exc is not None and not isinstance(c.exc, (E.ExplorerError,) + tuple(allowed)):
            tag = ['C07'] if c.body_faults else ['C06'] if c.faulty else main
            self.viol(tag, 'raw-error:%s:%s' % (rec.kind, type(c.exc).__name__),
                      '%s raised the undocumented %r after faults %s\n%s' % (rec.kind, c.exc, c.faults, c.tb), rec)
        if isinstance(c.exc, E.ExplorerError) and c.attempts:
            p = c.attempts[-1].get('p')
            if p and c.exc.endpoint != p:
                self.viol(main + ['C06'], 'error-says:%s:%s.endpoint' % (rec.kind, c.name()), 'the error names the endpoint %s instead of %s' % (c.exc.endpoint, p), rec)
            if isinstance(c.exc, E.ExplorerNotAvailable):
                named = {str(x).partition('://')[2].partition(':')[0] for x in c.exc.addresses}
                if not set(sim.hosts) <= named:
                    self.viol(main + ['C06'], 'error-says:%s:addresses' % rec.kind, 'the error names the explorers %s' % (c.exc.addresses,), rec)
        self.judge_failover(c, rec, main, allowed)
        self.judge_damaged(c, rec)
        self.judge_posts(c, rec, main, illegal, submits, multi)
        return not sim.violations

    def judge_failover(self, c, rec, main, allowed):
        n = len(self.sim.world.nodes)
        # at most one attempt per explorer between two answers
        seen = set()
        for a in c.attempts:
            k = a['host']
            if k in seen:
                self.viol('C06', 'retry:%s' % rec.kind, 'explorer %s was tried twice for one request' % k, rec)
                break
            if isinstance(a.get('end'), int):
                seen = set()
            else:
                seen.add(k)
        if isinstance(c.exc, E.ExplorerNotAvailable):
            # the last request must have failed on every explorer
            tail = set()
            for a in c.attempts:
                if isinstance(a.get('end'), int):
                    tail = set()
                else:
                    tail.add(a['host'])
            missing = [h for h in self.sim.hosts if h not in tail]
            if missing and not c.body_faults:
                self.viol('C06', 'gave-up:%s' % rec.kind, 'not-available was reported but %s was not tried' % missing, rec)
        elif c.exc is not None and not c.body_faults and not c.status_faults and isinstance(c.exc, E.ExplorerError):
            last = c.attempts[-1].get('end') if c.attempts else None
            if not isinstance(last, int):
                self.viol('C06', 'wrong-error:%s' % rec.kind, '%r raised after attempts %s' % (c.exc, c.attempts[-n:]), rec)
            elif isinstance(c.exc, E.ExplorerInvalidResponse) and E.ExplorerInvalidResponse not in allowed:
                self.viol(main, 'rejected-good:%s' % rec.kind, 'a correct answer was refused: %r\n%s' % (c.exc, c.tb), rec)
        if isinstance(c.exc, E.ExplorerNoContent):
            if not any(a.get('nothing') for a in c.attempts):
                info_gap = rec.kind in ('erc20_get', 'erc20_list')
                if not info_gap:
                    self.viol('C07', 'no-content:%s' % rec.kind, 'no-content reported although no explorer said so: %r' % (c.exc,), rec)

    def judge_damaged(self, c, rec):
        for a in c.attempts:
            if rec.kind in ('erc20_get', 'erc20_list') and not str(a.get('where', 'erc20info')).startswith('erc20info'):
                continue            # the rest of that answer is of no use to this operation
            if a.get('damaged') and c.ok:
                later = [b for b in c.attempts if b['n'] > a['n'] and b.get('p') == a.get('p') and not b.get('damaged')
                         and b.get('end') == 200]
                if not later:
                    self.viol('C07', 'accepted:%s:%s' % (rec.kind, a['damaged']),
                              '%s returned a result although the answer to %s was damaged (%s %s)' % (rec.kind, a.get('p'), a['damaged'], a.get('where', '')), rec)
            elif a.get('damaged') and a.get('m') == 'GET' and any(p['conn'] > a['n'] for p in c.posts):
                later = [b for b in c.attempts if b['n'] > a['n'] and b.get('p') == a.get('p') and not b.get('damaged')
                         and b.get('end') == 200]
                if not later:
                    self.viol('C07', 'submitted:%s:%s' % (rec.kind, a['damaged']),
                              '%s submitted a transaction based on a damaged answer to %s' % (rec.kind, a.get('p')), rec)

    def judge_posts(self, c, rec, main, illegal, submits, multi):
        sim = self.sim
        ids = []
        broken = ['C01'] + ([main] if isinstance(main, str) else list(main)) + (['C09'] if rec.kind == 'sign' else [])
        for p in c.posts:
            tx = p['tx']
            if tx is None and p['processed']:
                self.viol(broken, 'malformed:%s' % rec.kind, 'submitted a malformed transaction: %s\n%s' % (p['errors'], p['body'][:600]), rec)
                return
            if tx is None:
                try:
                    tx = Tx(json.loads(p['body']))
                except (BadTx, ValueError) as e:
                    self.viol(broken, 'malformed:%s' % rec.kind, 'submitted a malformed transaction: %s' % e, rec)
                    return
            if tx.id not in ids:
                ids.append(tx.id)
            self.judge_tx(c, rec, p, tx, illegal)
        if len(ids) > multi:
            self.viol('C03', 'several:%s' % rec.kind, 'one call put %d different transactions on the wire' % len(ids), rec)
        if ids and not submits:
            self.viol('C03', 'unwanted:%s' % rec.kind, 'the call submitted although it was told not to', rec)
        if c.acked and multi == 1:
            if c.exc is not None:
                self.viol('C03', 'acked-then-error:%s:%s' % (rec.kind, type(c.exc).__name__),
                          'transaction %s was acknowledged but the call raised %r\n%s' % (c.acked[0]['tx'].id, c.exc, c.tb), rec)
            elif c.ok:
                sub, txid = self.reported(rec, c.value)
                if sub is not True or txid != c.acked[-1]['tx'].id:
                    self.viol('C03', 'acked-not-reported:%s' % rec.kind, 'acknowledged as %s, reported %r %r' % (
                        c.acked[-1]['tx'].id, sub, txid), rec)
        if c.ok and not c.acked and multi == 1:
            sub, _ = self.reported(rec, c.value)
            if sub is True:
                self.viol(['C03'] + ([main] if isinstance(main, str) else list(main)), 'false-success:%s' % rec.kind, 'success reported, but no explorer acknowledged anything', rec)
            if c.posts and sub is False:
                self.viol('C03', 'not-submitted-lie:%s' % rec.kind, "'not submitted' reported after sending a transaction", rec)

    def reported(self, rec, v):
        """(submitted, transaction id) as told to the caller"""
        from tfchain.types.transactions.Base import TransactionBaseClass
        if v is None or rec.kind in ('tx_get', 'block_get', 'output_get', 'uh_get'):
            return None, None
        if isinstance(v, TransactionBaseClass):
            return (True, str(v.id))
        if isinstance(v, str) and rec.kind in ('swap_party', 'put'):
            return True, v
        if hasattr(v, 'submitted'):
            t = v.transaction
            return bool(v.submitted), (str(t.id) if v.submitted and t.id is not None else None)
        return None, None

    def concerned(self, c, rec, tx):
        """the other properties that promise an accepted transaction"""
        r = {128: ['C12'], 129: ['C12'], 144: ['C13'], 145: ['C13'], 146: ['C13'], 208: ['C14'], 210: ['C14']}.get(tx.version, [])
        if rec.kind == 'sign':
            r = r + ['C09']
            if rec.spec.get('drained'):
                r = r + ['C18']
        if rec.kind == 'drain':
            r = r + ['C18']
        if rec.kind.startswith('swap_'):
            r = r + ['C10']
        return r

    def judge_tx(self, c, rec, p, tx, illegal):
        """C01: validity in the light of what the call was shown"""
        sim = self.sim
        views = [v for _, v in rec.views[c.v0:p['nviews']]]
        if p['view'] is not None:
            views.append(p['view'])
        if not views:
            return
        common = None
        for v in {id(v): v for v in views}.values():
            errs = {e for e in v.validate(tx, sim.world.minfee)}
            common = errs if common is None else {e for e in common if e in errs}
        common = {e for e in common if e[1] not in illegal}
        if common:
            codes = sorted({e[1] for e in common})
            props = ['C01'] + self.concerned(c, rec, tx)
            self.viol(props, 'invalid:%s:%s' % (rec.kind, ','.join(codes)),
                      'submitted transaction breaks consensus rules: %s\n%s' % (sorted(common)[:6], json.dumps(tx.j)[:1500]), rec)

    # ------------------------------------------------------------ C16 identity
    def judge_identity(self, txn, rec, ref=None):
        """library transaction object versus the independent encoders"""
        try:
            j = txn.json()
        except Exception as e:
            self.viol('C16', 'json:%s' % rec.kind, 'the transaction cannot be serialised: %r' % (e,), rec)
            return
        j = json.loads(json.dumps(j))
        try:
            ref = Tx(j, complete=False)
        except BadTx as e:
            self.viol('C16', 'json-bad:%s' % rec.kind, 'serialised transaction is malformed: %s %s' % (e, json.dumps(j)[:800]), rec)
            return
        self.same_ids(txn, ref, rec, 'original')
        try:
            again = T.from_json(json.dumps(j) if rec.i % 2 else j)
            j2 = json.loads(json.dumps(again.json()))
        except Exception as e:
            self.viol('C16', 'reload:v%d:%s' % (ref.version, type(e).__name__), 'reloading raised %r for %s' % (e, json.dumps(j)[:1200]), rec)
            return
        try:
            r2 = Tx(j2, complete=False)
        except BadTx as e:
            self.viol('C16', 'reload-bad:v%d' % ref.version, 'reloaded transaction serialises badly: %s' % e, rec)
            return
        if canon_tx(r2) != canon_tx(ref):
            self.viol('C16', 'reload-differs:v%d' % ref.version, 'reloading changed the transaction\n%s\n%s' % (
                json.dumps(j)[:900], json.dumps(j2)[:900]), rec)
            return
        self.same_ids(again, ref, rec, 'reloaded')
        if self.sim.focus in (None, 'C16'):
            self.judge_changed(T.from_json(j), ref, rec)
        return again

    def judge_changed(self, t, ref, rec):
        """the identity of a transaction follows its content, also when it changes after it was asked for"""
        self.same_ids(t, ref, rec, 'loaded')
        if ref.version == 209:
            return      # its outputs are all derived
        if (rec.i + len(ref.outputs)) % 3 == 0:
            self.judge_assigned(t, ref, rec)
            return
        k = (rec.i + len(ref.inputs)) % 5
        try:
            if k == 0 and ref.version not in (0, 1):
                n = [x for x in ('value', 'address', 'botid', 'receiver_botid', 'number_of_months', 'mint_condition', 'names', 'names_to_add')
                     if getattr(t, x, None) is not None and x in KINDS.get(ref.version, ())]
                if not n:
                    return
                n = n[rec.i % len(n)]
                x = getattr(t, n)
                if n == 'value':
                    x = x + Currency(value='1.5')
                elif n == 'address':
                    x = '0x' + '5a' * 20
                elif n == 'mint_condition':
                    x = CT.from_recipient(keys.fkey(self.sim.spec['seed'], 78).uh)
                elif n == 'number_of_months':
                    x = x % 24 + 1
                elif n in ('botid', 'receiver_botid'):
                    x = x + 1
                else:
                    x = list(x)[1:] + ['added.name%d' % (rec.i % 100)]
                setattr(t, n, x)
            elif k == 0 and ref.version in (0, 1):
                t.data = bytes(x ^ 5 for x in bytes(t.data.value or b'')) or b'later'
            elif k == 1 and ref.outputs:
                t.coin_outputs[-1].value = t.coin_outputs[-1].value + Currency(value='3 TFT')
            elif k == 2 and ref.outputs and ref.outputs[0].cond.type <= 1:
                t.coin_outputs[0].condition = CT.from_recipient(keys.fkey(self.sim.spec['seed'], 77).uh)
            elif k == 3 and ref.inputs:
                t.coin_inputs[0].parentid = Hash(value=hashlib.sha256(b'other parent %d' % rec.i).digest())
            elif ref.outputs and ref.version in (0, 1):
                t.coin_output_add(value=Currency(value='2'), condition=CT.from_recipient(None if ref.version else keys.fkey(self.sim.spec['seed'], 77).uh))
            else:
                return
            j = json.loads(json.dumps(t.json()))
            now = Tx(j, complete=False)
        except Exception as e:
            self.viol('C16', 'change:v%d:%s' % (ref.version, type(e).__name__), 'changing the loaded transaction %s raised %r' % (ref.id, e), rec)
            return
        if canon_tx(now) == canon_tx(ref):
            self.viol('C16', 'unchanged:v%d' % ref.version, 'the transaction %s is changed (%d), its JSON is not' % (ref.id, k), rec)
            return
        self.same_ids(t, now, rec, 'changed')

    def judge_assigned(self, t, ref, rec):
        """what a transaction holds can be taken from it and given back"""
        n = None
        try:
            a = json.dumps(t.json())
            ids = [str(getattr(o, 'id', None)) for o in t.coin_outputs]
            for n in ('coin_inputs', 'coin_outputs') + (('blockstake_inputs', 'blockstake_outputs', 'data') if ref.version in (0, 1) else ()) + KINDS.get(ref.version, ()):
                if ref.version in (128, 129) and n == 'coin_inputs' or ref.version == 128 and n == 'coin_outputs':
                    continue
                setattr(t, n, getattr(t, n))
            b = json.dumps(t.json())
        except Exception as e:
            self.viol('C16', 'assign:v%d:%s' % (ref.version, n), 'giving the transaction %s its own %s raised %r' % (ref.id, n, e), rec)
            return
        if a != b or ids != [str(getattr(o, 'id', None)) for o in t.coin_outputs]:
            self.viol('C16', 'assigned:v%d' % ref.version, 'given what it holds, the transaction %s becomes\n%s\nit was\n%s' % (ref.id, b[:900], a[:900]), rec)
            return
        self.same_ids(t, ref, rec, 'assigned')

    def same_ids(self, txn, ref, rec, what):
        try:
            for i in range(max(len(ref.inputs), len(ref.bsin))):
                h = txn.signature_hash_get(i)
                if bytes(getattr(h, 'value', h)) != ref.sighash(enc.i8(i)):
                    self.viol('C16', 'sighash:v%d' % ref.version, '%s: wrong signature hash for input %d' % (what, i), rec)
                    return
            if ref.nil_keys():
                # its final form, and so its identity, is not known yet
                return
            coin = [str(txn.coin_outputid_new(i)) for i, _ in enumerate(ref.outputs)]
            bs = [str(txn.blockstake_outputid_new(i)) for i, _ in enumerate(ref.bsout)]
            raw = bytes(txn.binary_encode())
        except Exception as e:
            self.viol('C16', 'id-error:v%d:%s' % (ref.version, type(e).__name__), '%s: computing identifiers raised %r' % (what, e), rec)
            return

        def forms():
            return [ref.coin_id(i) for i, _ in enumerate(ref.outputs)], [ref.bs_id(i) for i, _ in enumerate(ref.bsout)], ref.binary()
        want = forms()
        if ref.nil_secrets() and (coin, bs, raw) != want:
            try:
                enc.Fulf.NIL_SECRET = b''
                alt = forms()
            finally:
                enc.Fulf.NIL_SECRET = bytes(32)
            if (coin, bs, raw) == alt:
                self.viol('C16', 'nil-secret', '%s: ids and binary form leave out the nil secret of the refund: output 0 is predicted as %s, '
                          'the chain assigns %s' % (what, coin[:1], want[0][:1]), rec)
                return
        if coin != want[0]:
            self.viol('C16', 'coin-id:v%d' % ref.version, '%s: predicted coin output ids %s, the chain assigns %s' % (what, coin, want[0]), rec)
        elif bs != want[1]:
            self.viol('C16', 'bs-id:v%d' % ref.version, '%s: wrong block stake output id' % what, rec)
        elif raw != want[2]:
            self.viol('C16', 'binary:v%d' % ref.version, '%s: wrong binary encoding' % what, rec)

    # ------------------------------------------------------------ C02 exactness
    def judge_payment(self, c, rec, tx, want, change, data=None, minfee=None, extra_out=0, props=('C02',)):
        """want: [(value, Cond)]; change: Cond"""
        sim = self.sim
        props = list(props)
        left = [(v, k.key()) for v, k in want]
        rest = []
        for o in tx.outputs:
            k = (o.value, o.cond.key())
            if k in left:
                left.remove(k)
            else:
                rest.append(o)
        if left:
            self.viol(props, 'outputs:%s' % rec.kind, 'requested outputs %s are missing, created %s' % (
                left, [(o.value, o.cond.key()) for o in tx.outputs]), rec)
            return
        view = c.view or sim.world.nodes[0].view()
        total = 0
        for x in tx.inputs:
            o = find_output(sim, c, x.pid)
            if o is None:
                return
            total += o.value
        fee = sum(tx.fees)
        if fee != sim.world.minfee:
            self.viol(props, 'fee:%s' % rec.kind, 'miner fee %d instead of %d' % (fee, sim.world.minfee), rec)
        remainder = total - sum(v for v, _ in want) - sim.world.minfee - extra_out
        got = sum(o.value for o in rest)
        if got != remainder:
            self.viol(props, 'change:%s' % rec.kind, 'change is %d instead of %d' % (got, remainder), rec)
        for o in rest:
            if o.cond.key() != change.key():
                self.viol(props, 'change-address:%s' % rec.kind, 'change goes to %s instead of %s' % (o.cond.json(), change.json()), rec)
        if data is not None or tx.arb:
            if (data or b'') != tx.arb:
                self.viol(props, 'data:%s' % rec.kind, 'attached data is %r instead of %r' % (tx.arb, data), rec)

    def change_cond(self, sim, c, w, source, refund):
        """documented change address"""
        if refund is not None:
            return self.cond_of_recipient(refund)
        s = self.resolve(source)
        if isinstance(s, list) and len(s) == 1:
            s = s[0]
        if s is not None and not isinstance(s, list):
            s = str(s)
            if s.startswith('03'):
                cond = find_cond(sim, s)
                if cond is not None:
                    return cond
            else:
                return Cond({'type': 1, 'data': {'unlockhash': s}})
        return Cond({'type': 1, 'data': {'unlockhash': w.address}})

    # ------------------------------------------------------------ C05 funding
    def spendable(self, view, owned, source, clock=None):
        """{outid: value} the view lets this wallet spend, and those of multisigs;
        clock: the height and time to go by, if an answer of another explorer gave them"""
        res = {}
        if source is None:
            targets = list(owned)
        else:
            s = self.resolve(source)
            targets = [str(x) for x in (s if isinstance(s, list) else [s])]
        for t in targets:
            if t[:2] == '01' and t not in owned:
                continue
            if t[:2] == '03':
                cond = find_cond(self.sim, t)
                if cond is None or not set(cond.d['unlockhashes']) & set(owned):
                    continue
            for oid, (v, cnd, st) in view.fold(t).items():
                if st in ('locked', 'unconfirmed_locked') and clock is not None and not cnd.locked(*clock):
                    st = 'available'
                if st in ('available', 'unconfirmed'):
                    res[oid] = v
        return res

    def judge_funding(self, c, rec, owned, source, need, tx=None):
        views = {id(v): v for v in c.views}
        if not views:
            return
        clock = (max(v.height for v in views.values()), max(v.time for v in views.values()))
        if tx is not None:
            allowed = set()
            for v in views.values():
                allowed |= set(self.spendable(v, owned, source, clock))
            ids = [x.pid for x in tx.inputs]
            bad = [i for i in ids if i not in allowed]
            if bad:
                self.viol(['C05', 'C15'] if any(self.is_locked(views.values(), i) for i in bad) else 'C05', 'input:%s' % rec.kind, 'inputs %s are not spendable outputs of the requested sources' % bad[:3], rec)
            if len(set(ids)) != len(ids):
                self.viol('C05', 'twice:%s' % rec.kind, 'an output is consumed twice', rec)
            if len(ids) > 99:
                self.viol('C05', 'limit:%s' % rec.kind, '%d inputs' % len(ids), rec)
        elif isinstance(c.exc, E.InsufficientFunds):
            # spendable in every view the call may have used, whichever address it asked when
            sets = [self.spendable(v, owned, source) for v in views.values()]
            sure = [x for o, x in sets[0].items() if all(o in q for q in sets)]
            if sum(sorted(sure)[-99:]) >= need:
                self.viol(['C05', 'C15'] if any(self.is_locked(views.values(), o) for o in sets[0]) else 'C05', 'insufficient:%s' % rec.kind, 'insufficient funds reported, but %s of %d are spendable' % (sum(sorted(sure)[-99:]), need), rec)
        if c.ok and c.posts or tx is not None:
            vals = {}
            for v in views.values():
                vals.update(self.spendable(v, owned, source, clock))
            if sum(sorted(vals.values())[-99:]) < need:
                self.viol('C05', 'overspend:%s' % rec.kind, 'funded %d although at most %s is spendable' % (need, sum(vals.values())), rec)

    # ------------------------------------------------------------ wallet ops
    def op_open(self, sim, actor, rec, op):
        name = op.get('w', 'W')
        seed = keys.seed_of(sim.spec['seed'], op['seed'])
        o = op.get('opts', {})

        def fn():
            cl = self.client(sim, actor, op)
            s, kw = seed, dict(o)
            if not (sim.ports and sim.world.net == 'standard' and not op.get('bad_addresses') and op.get('id', 0) % 2 == 0):
                kw['client'] = cl       # else the wallet makes its own, for the standard network
            if op.get('mnemonic'):
                import mnemonic
                s = mnemonic.Mnemonic('english').to_mnemonic(seed)
            elif op.get('id', 0) % 3 == 0:
                s = bytearray(seed)
            return TFChainWallet(seed=s, **kw)
        c = Call(sim, rec, fn)
        self.judge(c, rec, 'C08')
        if c.ok:
            actor.mem[name] = c.value
            actor.mem['#' + name] = op['seed']
            if c.value.client.explorer_addresses != actor.mem['addrs'] or int(c.value.network_type) != ('standard', 'testnet', 'devnet').index(sim.world.net):
                self.viol('C06', 'explorers', 'the wallet asks %s on network %r' % (c.value.client.explorer_addresses, c.value.network_type), rec)
            if bytes(c.value.seed) != seed:
                self.viol('C08', 'seed', 'the wallet does not hold the seed it was created from', rec)
            if c.value.address != keys.wkey(seed, 0).uh:
                self.viol('C08', 'primary', 'primary address is not derived from the seed', rec)
            import mnemonic
            if bytes(mnemonic.Mnemonic('english').to_entropy(c.value.mnemonic)) != seed:
                self.viol('C08', 'mnemonic', 'the mnemonic of the wallet gives another seed', rec)
            n = max(1, o.get('key_count', 1))
            self.judge_scan(c, rec, c.value, op['seed'], set(range(n)), n)
            if self.key_set(c.value, op['seed']) != set(range(c.value.key_count)):
                sim.shared['gapped'] = True
            sim.shared.setdefault('opened', {}).setdefault(str(op['seed']), 1)
        return [c.status, c.name()]

    def key_set(self, w, seedno):
        return {i for i in range(w.key_count + 8) if self.holds(w, seedno, i)}

    def holds(self, w, seedno, i):
        try:
            w.key_pair_get(keys.wkey(keys.seed_of(self.sim.spec['seed'], seedno), i).uh)
            return True
        except KeyError:
            return False

    def scan_clear(self, c):
        return c.stable and c.view is not None and not c.body_faults and not c.status_faults

    def keys_before(self, w, seedno):
        return self.key_set(w, seedno), w.key_count

    def reach(self, w, seedno, v, had, count):
        """(keys held, key count) after a look for used keys"""
        win = w.key_scan_count
        want, last = set(had), count
        if win and len(had) == count:
            i, miss = count, 0
            while miss < win:
                u = keys.wkey(keys.seed_of(self.sim.spec['seed'], seedno), i).uh
                if v.txs_of(u) or v.multisigs_of(u) or u in v.base.erc20:
                    want.add(i)
                    last, miss = i + 1, 0
                else:
                    miss += 1
                i += 1
        return want, last

    def judge_scan(self, c, rec, w, seedno, had, count):
        """the keys a wallet holds after a scan; had: key indices held before, count: its key count"""
        if not c.ok or not self.scan_clear(c):
            return
        win = w.key_scan_count
        want, last = self.reach(w, seedno, c.view, had, count)
        got = self.key_set(w, seedno)
        if got != want:
            self.viol('C08', 'lost-keys' if want - got else 'extra-keys', 'after scanning with window %d the wallet holds the keys %s instead of %s' % (
                win, sorted(got), sorted(want)), rec)
        elif w.key_count != last:
            self.viol('C08', 'key-count', 'key count is %d instead of %d' % (w.key_count, last), rec)

    def op_forget(self, sim, actor, rec, op):
        """the process of this user is restarted: only durable things survive"""
        actor.mem = {}
        sim.fault_counts['restart_client'] = sim.fault_counts.get('restart_client', 0) + 1
        return 'restarted'

    def op_wait(self, sim, actor, rec, op):
        sim.wait(op.get('dt', 1))
        return 'waited'

    def op_events(self, sim, actor, rec, op):
        return 'events'

    def op_address_new(self, sim, actor, rec, op):
        w = self.wallet(actor, op)
        if w is None:
            return 'no wallet'
        had, n = self.key_set(w, self.seedno(actor, op)), w.key_count
        pub = op.get('pub')
        c = Call(sim, rec, lambda: pk_text_uh(w.public_key_new()) if pub else w.address_new())
        self.judge(c, rec, 'C08')
        if c.ok:
            s = keys.seed_of(sim.spec['seed'], self.seedno(actor, op))
            i = min(set(range(n + 1)) - had)
            if c.value != keys.wkey(s, i).uh:
                self.viol('C08', 'address-new', 'address_new returned %s instead of the first unused key %d (%s)' % (c.value, i, keys.wkey(s, i).uh), rec)
            elif self.key_set(w, self.seedno(actor, op)) != had | {i} or w.key_count != max(n, i + 1):
                self.viol('C08', 'address-new-keys', 'after address_new the wallet holds %d keys, those before and key %d are expected' % (w.key_count, i), rec)
            sim.shared.setdefault('handed', {}).setdefault(str(self.seedno(actor, op)), []).append(c.value)
        return [c.status, c.value if c.ok else c.name()]

    def op_coins_send(self, sim, actor, rec, op):
        w = self.wallet(actor, op)
        if w is None:
            return 'no wallet'
        a = op
        n = a['amount']['$amount'] if isinstance(a['amount'], dict) else None
        kw = {k: self.resolve(a[k]) for k in ('source', 'refund', 'data') if a.get(k) is not None}
        data = kw.get('data')
        if isinstance(data, str):
            data = data.encode()
        if a.get('lock') is not None:
            kw['lock'] = self.resolve(a['lock'])
        seedno = self.seedno(actor, op)
        t0 = sim.local_time()
        c = Call(sim, rec, lambda: w.coins_send(self.resolve(a['to']), self.resolve(a['amount']), **kw), pre=self.keys_before(w, self.seedno(actor, op)))
        bad_arg = a.get('bad')
        allowed = [E.InsufficientFunds] + ([ValueError, TypeError, ArithmeticError, E.CurrencyPrecisionOverflow, E.CurrencyNegativeValue] if bad_arg else [])
        ill = ('nonstandard',) if bad_arg == 'nonstandard' else ()
        if not self.judge(c, rec, 'C02', allowed, illegal=ill):
            return [c.status, c.name()]
        self.precision_facts(c, rec, a['amount'])
        if bad_arg and bad_arg != 'nonstandard':
            if c.posts or c.ok:
                self.viol('C21' if bad_arg.startswith('damaged') else 'C02', 'accepted-bad:%s' % bad_arg,
                          'a call with an illegal argument (%s) was not refused' % bad_arg, rec)
            return ['refused', bad_arg]
        return self.after_send(sim, actor, rec, op, c, w, seedno, [(n, a['to'], a.get('lock'))], data, t0)

    def precision_facts(self, c, rec, amount):
        if isinstance(c.exc, E.CurrencyPrecisionOverflow):
            n = str(amount).upper().replace('TFT', '').strip()
            self.error_facts(c, rec, 'C02', E.CurrencyPrecisionOverflow, value=[Decimal(n)], precision=[len(n.partition('.')[2])])

    def lib_tx(self, txn, rec):
        """transaction object of the library -> independent decoding"""
        try:
            return Tx(json.loads(json.dumps(txn.json())), complete=False)
        except BadTx as e:
            self.viol('C16', 'result-json:%s' % rec.kind, 'the transaction serialises badly: %s' % e, rec)
        except Exception as e:
            self.viol('C16', 'result-json:%s:%s' % (rec.kind, type(e).__name__), 'the transaction cannot be serialised: %r' % (e,), rec)
        return None

    def lock_ranges(self, rec, lock, t0, base=None):
        """what a lock given at local time t0 may mean; the local clock may jump meanwhile"""
        t1 = self.sim.local_time()
        went = self.sim.now - rec.start
        return when.ranges(lock, int(min(t0, t1 - went)), int(max(t1, t0 + went)), when.east(self.sim.spec['setup'].get('tz')), base)

    def locked_want(self, sim, rec, tx, n, to, lock, t0):
        """(value, condition) requested, durations count from the local clock; None after a violation"""
        lv = lock
        if isinstance(lock, (str, dict)):
            ok = self.lock_ranges(rec, lock, t0)
            got = [o.cond.lock for o in tx.outputs if o.cond.type == 3 and any(lo <= o.cond.lock <= hi for lo, hi in ok) and o.value == n]
            if not got:
                self.viol(['C02', 'C15'], 'lock-clock', 'the lock %r given at local time %d became %s instead of %s' % (
                    lock, t0, [o.cond.lock for o in tx.outputs], ok), rec)
                return None
            lv = got[0]
        return (n, self.cond_of_recipient(to, lv))

    def after_send(self, sim, actor, rec, op, c, w, seedno, outs, data, t0, extra=0, main='C02'):
        def want(tx):
            r = []
            for n, to, lock in outs:
                x = self.locked_want(sim, rec, tx, n, to, lock, t0)
                if x is None:
                    return None
                r.append(x)
            return r
        return self.finish(sim, actor, rec, op, c, w, seedno, sum(n for n, _, _ in outs), want, data, extra, main)

    def finish(self, sim, actor, rec, op, c, w, seedno, amount, want, data, extra=0, main='C02', check=None, gate=None):
        """oracles of every call that funds, signs and sends one transaction.
        want(tx) -> requested outputs; check(tx): further conditions;
        gate: False if other signatures than those of the inputs are missing"""
        owned = self.owned(w, seedno, c=c)
        tx = txn = None
        if c.ok:
            txn = c.value.transaction
            tx = self.lib_tx(txn, rec)
            if tx is None:
                return ['ok']
        elif c.posts:
            tx = next((p['tx'] for p in c.posts if p['tx']), None)
        ex = extra(tx) if callable(extra) and tx is not None else (0 if callable(extra) else extra)
        props = sorted({'C02', main})
        if tx is not None:
            wl = want(tx)
            if wl is None:
                return ['ok']
            change = self.change_cond(sim, c, w, op.get('source'), op.get('refund'))
            self.judge_payment(c, rec, tx, wl, change, data, extra_out=ex, props=props)
            if check is not None:
                check(tx)
        if tx is not None or not callable(extra):
            self.judge_funding(c, rec, owned, op.get('source'), amount + sim.world.minfee + ex, tx)
        if c.ok:
            self.judge_identity(txn, rec)
            if tx is not None:
                ins = [find_output(sim, c, x.pid) for x in tx.inputs]
                if all(o is not None for o in ins):
                    able = can_fulfil([o.cond for o in ins], owned) and gate is not False
                    multi = any(o.cond.base().type == 4 for o in ins)
                    if able and not c.value.submitted and op.get('submit', True):
                        self.viol([main, 'C09'] if multi else main, 'not-submitted:%s' % rec.kind,
                                  'a transaction this wallet can sign completely was not submitted', rec)
                    if not able and c.value.submitted:
                        self.viol([main, 'C09'] if multi else main, 'too-early:%s' % rec.kind,
                                  'a transaction with missing signatures was reported as submitted', rec)
            if not c.value.submitted:
                sim.shared['doc:%s' % op.get('label', rec.i)] = json.dumps(txn.json())
            self.note_outputs(sim, op, rec, tx)
        return [c.status, c.name(), canon_tx_money(tx) if tx is not None else None]

    def note_outputs(self, sim, op, rec, tx):
        if op.get('label') and tx is not None:
            sim.shared['tx:' + op['label']] = tx.id
            for i in range(len(tx.outputs)):
                sim.shared['out:%s:%d' % (op['label'], i)] = tx.coin_id(i)

    def op_builder(self, sim, actor, rec, op):
        w = self.wallet(actor, op)
        if w is None:
            return 'no wallet'
        seedno = self.seedno(actor, op)
        t0 = sim.local_time()
        kw = {k: self.resolve(op[k]) for k in ('source', 'refund', 'data') if op.get(k) is not None}
        data = kw.get('data')
        if isinstance(data, str):
            data = data.encode()
        name = 'B' + op.get('builder', '')
        b = actor.mem.get(name)
        outs = op['outs']
        if b is None:
            def fn():
                x = w.coin_transaction_builder_new()
                for n, to, lock in outs:
                    r = x.output_add(self.resolve(to), self.resolve({'$amount': n, 'form': (n + len(outs)) % FORMS}), lock=self.resolve(lock))
                    x = r
                return x
            c = Call(sim, rec, fn)
            if not self.judge(c, rec, 'C02', (), submits=False):
                return [c.status, c.name()]
            b = c.value
            actor.mem.pop('paid' + name, None)
            actor.mem.pop('sent' + name, None)
            if op.get('keep'):
                actor.mem[name] = b
        hist = actor.mem.setdefault('paid' + name, [])
        prior = actor.mem.get('sent' + name, 0)
        c = Call(sim, rec, lambda: b.send(**kw), pre=self.keys_before(w, self.seedno(actor, op)))
        actor.mem['sent' + name] = prior + 1
        allowed = [E.InsufficientFunds]
        if prior:
            allowed += [Exception]
        if not self.judge(c, rec, 'C02', allowed):
            return [c.status, c.name()]
        if prior:
            for p in c.posts:
                if p['tx'] and hist and p['tx'].id not in hist:
                    self.viol('C19', 'builder-twice', 'a builder paid a second time', rec)
            if c.ok and not c.acked and c.value is not None and getattr(c.value, 'submitted', False):
                self.viol('C19', 'builder-lie', 'builder reports a payment it did not make', rec)
        hist += [p['tx'].id for p in c.posts if p['tx']]
        if prior:
            return [c.status, c.name()]
        return self.after_send(sim, actor, rec, op, c, w, seedno, outs, data, t0)

    # ------------------------------------------------------------ balance
    def op_balance(self, sim, actor, rec, op):
        w = self.wallet(actor, op)
        if w is None:
            return 'no wallet'
        had, n = self.key_set(w, self.seedno(actor, op)), w.key_count
        c = Call(sim, rec, lambda: w.balance)
        if not self.judge(c, rec, 'C04', submits=False):
            return [c.status, c.name()]
        if not c.ok:
            if not had <= self.key_set(w, self.seedno(actor, op)):
                self.viol(['C08', 'C19'], 'scan-loss', 'an interrupted scan lost keys', rec)
            return [c.status, c.name()]
        owned = self.owned(w, self.seedno(actor, op))
        self.judge_scan(c, rec, w, self.seedno(actor, op), had, n)
        self.judge_balance(sim, rec, c, c.value, owned)
        actor.mem['last_balance:' + op.get('w', 'W')] = c.value
        actor.mem.setdefault('balances:' + op.get('w', 'W'), []).append(c.value)
        try:
            text = repr(c.value)
        except Exception as e:
            self.viol('C04', 'repr', 'the balance cannot be shown: %r' % (e,), rec)
            text = ''
        for x in [c.value] + list(c.value.wallets.values()):
            if x.active != in_use(x):
                self.viol('C04', 'active', 'a balance with %d available outputs, %s locked, %d unconfirmed outputs is shown as %s' % (
                    len(x.outputs_available), x.locked, len(x.outputs_unconfirmed), 'active' if x.active else 'not active'), rec)
        want = balance_text(c.value)
        parts = ['\n'.join(x.split('\n')[1:] if i == 0 else x.split('\n')) for i, x in enumerate(text.split('\n\n'))] if text else want
        if parts[0] != want[0] or sorted(parts[1:]) != sorted(want[1:]):
            self.viol('C04', 'shown', 'the balance shows\n%s\ninstead of\n%s' % (text[:900], '\n\n'.join(want)[:900]), rec)
        return ['ok', summary(c.value)]

    def judge_balance(self, sim, rec, c, b, owned, prop='C04'):
        views = list({id(v): v for v in c.views}.values())
        ctx = (b.chain_height, b.chain_time, str(b.chain_blockid))
        tips = {(v.height, v.time, v.tip.id) for v in views}
        if ctx not in tips:
            self.viol(prop, 'context', 'balance context %s is no last block shown: %s' % (ctx, sorted(tips)), rec)
            return
        h, t = b.chain_height, b.chain_time
        # personal
        self.match_outputs(rec, prop, 'personal', b, owned, views, h, t, ctx)
        # multisig
        want_ms = {}
        for v in views:
            for u in owned:
                for mu, cond in v.multisigs_of(u).items():
                    want_ms[mu] = cond
        always = None
        for v in views:
            s = set()
            for u in owned:
                s |= set(v.multisigs_of(u))
            always = s if always is None else always & s
        got = dict(b.wallets)
        for mu in got:
            if mu not in want_ms and len(got[mu].outputs_available) + len(got[mu].outputs_unconfirmed) > 0:
                self.viol(prop, 'multisig-foreign', 'multisig wallet %s is not co-owned' % mu, rec)
                return
        for mu in sorted(always or ()):
            if mu not in got:
                self.viol(prop, 'multisig-missing', 'co-owned multisig wallet %s is not reported' % mu, rec)
                return
            m = got[mu]
            cond = want_ms[mu]
            if sorted(m.owners) != sorted(cond.d['unlockhashes']) or m.signature_count != cond.d['minimumsignaturecount'] or m.address != mu:
                self.viol(prop, 'multisig-owners', 'multisig %s reported with owners %s (%d)' % (mu, m.owners, m.signature_count), rec)
                return
            self.match_outputs(rec, prop, 'multisig', m, [mu], views, h, t, ctx)
        if sorted(b.addresses_multisig) != sorted(got):
            self.viol(prop, 'addresses_multisig', 'multisig addresses %s, wallets %s' % (b.addresses_multisig, sorted(got)), rec)
        return not sim.violations

    def multisig_list(self, sim, actor, rec, op, w):
        c = Call(sim, rec, lambda: w.addresses_multisig, pre=self.keys_before(w, self.seedno(actor, op)))
        if not self.judge(c, rec, 'C04', submits=False) or not c.ok:
            return [c.status, c.name()]
        owned = self.owned(w, self.seedno(actor, op))
        seen = [{m for u in owned for m in v.multisigs_of(u)} for v in c.views]
        got = [str(x) for x in c.value]
        if seen and not c.body_faults and (len(set(got)) != len(got) or not set.intersection(*seen) <= set(got) <= set.union(*seen)):
            self.viol('C04', 'multisig-list', 'co-owned addresses %s are listed as %s' % (sorted(set.union(*seen)), sorted(got)), rec)
        return ['ok', sorted(got)]

    def op_balance_merge(self, sim, actor, rec, op):
        """balances taken before are added up into one"""
        parts = []
        for a, w, ms, ago in op['parts']:
            b = (sim.actors[a].mem.get('balances:' + w) or [None])[-1 - ago:][0]
            if b is not None and ms is not None:
                l = sorted(b.wallets)
                b = b.wallets[l[ms % len(l)]] if l else None
            if b is not None:
                parts.append(copy.deepcopy(b))
        if not parts:
            return 'nothing to merge'
        flat = [flat_balance(b) for b in parts]
        same = len({(b.chain_height, b.chain_time) for b in parts}) == 1
        overlap, locked = hidden_overlap(parts), [all_locked(b) for b in parts]
        before = [json.dumps(balance_state(b), sort_keys=True) for b in parts]
        start = {'plain': WalletBalance, 'wallets': WalletsBalance}.get(op.get('start'))
        take = 0 if start else 1
        tot = start() if start else parts[0]
        h, t, bid = tot.chain_height, tot.chain_time, str(tot.chain_blockid)
        clash = False
        for b in parts[take:]:
            bh, bt = b.chain_height, b.chain_time
            if h >= bh:
                clash |= t < bt
            else:
                clash |= t >= bt
                h, t, bid = bh, bt, str(b.chain_blockid)
        single = any(hasattr(b, 'owners') for b in parts)     # of one multi signature wallet
        clash |= single
        try:
            for b in parts[take:]:
                tot = tot.balance_add(b)
            tot = tot.balance_add(None)
        except Exception as e:
            if not (clash and isinstance(e, ValueError)):
                self.viol('C04', 'merge-error:%s' % type(e).__name__, 'balances cannot be added: %r' % (e,), rec)
            return ['err', type(e).__name__]
        if any(json.dumps(balance_state(b), sort_keys=True) != x for b, x in list(zip(parts, before))[take:]):
            self.viol('C04', 'merge-changed', 'adding a balance to another one changed the added one', rec)
            return ['ok']
        got, want = flat_balance(tot), {}
        for f in flat:
            for oid, x in f.items():
                if RANK[x[2]] > RANK[want.get(oid, x)[2]] or oid not in want:
                    want[oid] = x
        if not single and (tot.chain_height, tot.chain_time, str(tot.chain_blockid)) != (h, t, bid):
            self.viol('C04', 'merge-context', 'the sum of balances is of height %s, time %s, block %s instead of %s' % (
                tot.chain_height, tot.chain_time, tot.chain_blockid, (h, t, bid)), rec)
        elif got != want and (same and not overlap or any(not merged(got.get(o), x) for o, x in want.items())):
            d = [(o, got.get(o), want.get(o)) for o in sorted(set(got) | set(want)) if got.get(o) != want.get(o)]
            self.viol('C04', 'merge-outputs', 'adding balances up: (output, sum, parts) %s' % d[:3], rec)
        elif same and not overlap and all_locked(tot) != sum(locked):
            self.viol('C04', 'merge-locked', '%d locked in the sum, %s in the parts' % (all_locked(tot), locked), rec)
        else:
            for b in [tot] + list(getattr(tot, 'wallets', {}).values()):
                if units(b.available) != sum(units(o.value) for o in b.outputs_available) or units(b.unconfirmed) != sum(
                        units(o.value) for o in b.outputs_unconfirmed_available):
                    self.viol('C04', 'merge-total', 'the sum of balances reports %s available and %s unconfirmed' % (b.available, b.unconfirmed), rec)
        return ['ok', summary(tot)]

    def match_outputs(self, rec, prop, what, b, addrs, views, h, t, ctx):
        got = {}

        def put(cos, st):
            for co in cos:
                oid = str(co.id)
                if oid in got and got[oid][2] != st:
                    self.viol(prop, 'double:%s' % what, 'output %s is reported as %s and %s' % (oid, got[oid][2], st), rec)
                got[oid] = (units(co.value), str(co.condition.unlockhash), st, co)
        av = list(b.outputs_available)
        put(av, 'available')
        unav = list(b.outputs_unconfirmed_available)
        put(unav, 'unconfirmed')
        for oid, co in b.outputs_unconfirmed.items():
            if str(oid) not in got:
                put([co], 'unconfirmed_locked')
        put(b.outputs_spent.values(), 'spent')
        put(b.outputs_unconfirmed_spent.values(), 'unconfirmed_spent')
        by = {}
        for oid, (v, uh, st, co) in got.items():
            by.setdefault(uh, {})[oid] = (v, st)
        for uh in by:
            if uh not in addrs:
                self.viol(prop, 'foreign:%s' % what, 'outputs of the foreign address %s are reported' % uh, rec)
                return
        if not set(by) <= set(b.addresses) <= set(addrs) or len(b.addresses) != len(set(b.addresses)):
            self.viol(prop, 'addresses:%s' % what, 'the balance lists the addresses %s, outputs are of %s' % (b.addresses, sorted(by)), rec)
            return
        for a in addrs:
            mine = by.get(a, {})
            ok = None
            best = None
            for v in views:
                f = fold_at(v, a, h, t)
                lk = sum(x for x, s in f.values() if s == 'locked')
                cmp = {o: x for o, x in f.items() if x[1] != 'locked'}
                if cmp == mine:
                    ok = lk if ok is None else ok
                    # several views may differ in locked outputs only
                    best = (best or set()) | {lk}
            if ok is None:
                f = fold_at(views[-1], a, h, t)
                cmp = {o: x for o, x in f.items() if x[1] != 'locked'}
                diff = [(o, mine.get(o), cmp.get(o)) for o in sorted(set(mine) | set(cmp)) if mine.get(o) != cmp.get(o)]
                # the chain's idea of what is locked is the whole difference
                ol = any(x is not None and y is not None and x[1] != y[1] and 'locked' in x[1] + y[1] or self.is_locked(views, o)
                         for o, x, y in diff)
                self.viol([prop, 'C15'] if ol else prop, 'outputs:%s' % what, 'address %s: (output, reported, chain) %s' % (a, diff[:4]), rec)
                return
        # totals
        tot = {}
        for oid, (v, uh, st, co) in got.items():
            tot[st] = tot.get(st, 0) + v
        lockopts = {0}
        for a in addrs:
            opts = set()
            mine = by.get(a, {})
            for v in views:
                f = fold_at(v, a, h, t)
                if {o: x for o, x in f.items() if x[1] != 'locked'} == mine:
                    opts.add(sum(x for x, s in f.values() if s == 'locked'))
            lockopts = {x + y for x in lockopts for y in opts}
        for attr, want in (('available', {tot.get('available', 0)}), ('unconfirmed', {tot.get('unconfirmed', 0)}),
                           ('unconfirmed_locked', {tot.get('unconfirmed_locked', 0)}), ('locked', lockopts)):
            g = units(getattr(b, attr))
            if g not in want:
                self.viol([prop, 'C15'] if 'locked' in attr else prop, 'total:%s:%s' % (attr, what), '%s is reported as %s instead of %s' % (attr, g, sorted(want)), rec)
                return

    def is_locked(self, views, oid):
        """does the output carry a time lock"""
        for v in views:
            o = v.state.outs.get(oid)
            if o is not None:
                return o[0].cond.type == 3
        return False

    def op_transactions(self, sim, actor, rec, op):
        w = self.wallet(actor, op)
        if w is None:
            return 'no wallet'
        c = Call(sim, rec, lambda: w.transactions, pre=self.keys_before(w, self.seedno(actor, op)))
        if not self.judge(c, rec, 'C17', submits=False):
            return [c.status, c.name()]
        if not c.ok:
            return [c.status, c.name()]
        owned = self.owned(w, self.seedno(actor, op), c=c)
        ids = [str(t.id) for t in c.value]
        if c.stable and c.view is not None:
            want = {}
            for a in owned:
                for t, b in c.view.txs_of(a):
                    want[t.id] = (b.height if b else None)
            if sorted(ids) != sorted(want):
                self.viol('C17', 'wallet-transactions', 'transactions reported %s, chain has %s' % (sorted(ids)[:5], sorted(want)[:5]), rec)
            hs = [10 ** 9 if want.get(i) is None else want[i] for i in ids if i in want]
            if hs != sorted(hs, reverse=True):
                self.viol('C17', 'wallet-transactions-order', 'transactions are not newest first: %s' % hs, rec)
        return ['ok', sorted(ids)]

    def op_addresses(self, sim, actor, rec, op):
        w = self.wallet(actor, op)
        if w is None:
            return 'no wallet'
        had, n = self.key_set(w, self.seedno(actor, op)), w.key_count
        if op.get('multi'):
            return self.multisig_list(sim, actor, rec, op, w)
        c = Call(sim, rec, lambda: w.addresses)
        self.judge(c, rec, 'C08', submits=False)
        if c.ok:
            self.judge_scan(c, rec, w, self.seedno(actor, op), had, n)
            if sorted(c.value) != sorted(self.owned(w, self.seedno(actor, op), 12)):
                self.viol('C08', 'addresses', 'addresses differ from the keys held', rec)
        return [c.status, sorted(c.value) if c.ok else c.name()]


# ---------------------------------------------------------------- module helpers
def pk_text_uh(pk):
    return enc.pk_uh(enc.pk_bytes(str(pk)))


duration_s = when.seconds


def damage_text(t, how, x):
    if t is None:
        return None
    n = len(t)
    i = x % n
    if how == 'flip':
        alt = [c for c in '0123456789abcdef' if c != t[i].lower()]
        return t[:i] + alt[(x // n) % len(alt)] + t[i + 1:]
    if how == 'drop':
        return t[:i] + t[i + 1:]
    if how == 'dup':
        return t[:i] + t[i] + t[i:]
    if how == 'swap':
        for k in range(n - 1):
            j = (i + k) % (n - 1)
            if t[j] != t[j + 1]:
                return t[:j] + t[j + 1] + t[j] + t[j + 2:]
        return t[:-1]
    if how == 'cut':
        # 40 digits are a complete Ethereum address
        return t[:i - 1 if i in (40, 42) else i]
    if how == 'junk':
        junk = 'gxz-_ '[x % 6]
        return t[:i] + (junk if junk != t[i] else 'g') + t[i + 1:]
    raise HarnessError(how)


def contract_facts(k):
    return (str(k.outputid), units(k.amount), str(k.sender), str(k.receiver), str(k.secret_hash), k.refund_timestamp)


def fold_at(view, addr, h, t):
    """fold of one address with locks judged at (h, t) -> {id: (value, status)}"""
    out = {}
    for oid, (v, cond, st) in view.fold(addr).items():
        if st in ('available', 'locked'):
            st = 'locked' if cond.locked(h, t) else 'available'
        elif st in ('unconfirmed', 'unconfirmed_locked'):
            st = 'unconfirmed_locked' if cond.locked(h, t) else 'unconfirmed'
        out[oid] = (v, st)
    return out


def find_output(sim, c, oid):
    for v in c.views + [n.view() for n in sim.world.nodes]:
        o = v.state.outs.get(oid)
        if o:
            return o[0]
    return None


def can_fulfil(conds, owned):
    for c in conds:
        c = c.base()
        if c.type == 1 and c.uh not in owned:
            return False
        if c.type == 4 and len([u for u in c.d['unlockhashes'] if u in owned]) < c.d['minimumsignaturecount']:
            return False
        if c.type not in (0, 1, 4):
            return False
    return True


def find_cond(sim, uh):
    for n in sim.world.nodes:
        for oid, (o, _) in n.view().state.outs.items():
            if o.cond.uh == uh:
                return o.cond.base()
    # no longer on any chain: it may have been when the call looked
    for o in [o for _, o in sim.world.out_labels.values()] + [o for a in sim.world.accepted for o in a[1].outputs]:
        if o.cond.uh == uh:
            return o.cond.base()
    return None


def canon_tx(tx):
    """identity-relevant content (pairs order kept)"""
    d = {'v': tx.version, 'b': tx.binary().hex()}
    return d


def canon_tx_money(tx):
    return [tx.version, sorted([o.value, repr(o.cond.key())] for o in tx.outputs), sorted(x.pid for x in tx.inputs), sum(tx.fees)]


def tft_units(text):
    a, _, b = text.partition('.')
    return int(a) * TFT + int((b + '0' * 9)[:9])


def tft_text(n):
    return ('%d.%09d' % (n // TFT, n % TFT)).rstrip('0').rstrip('.') + ' TFT'


def balance_text(b):
    """how the totals of a balance and of its multi signature wallets are shown"""
    def one(x):
        r = '%s available and %s locked' % (tft_text(units(x.available)), tft_text(units(x.locked)))
        if units(x.unconfirmed) or units(x.unconfirmed_locked):
            r += '\nUnconfirmed: %s available %s locked' % (tft_text(units(x.unconfirmed)), tft_text(units(x.unconfirmed_locked)))
        gone = sum(units(o.value) for o in x.outputs_unconfirmed_spent.values())
        if gone:
            r += '\nUnconfirmed Balance Deduction: -' + tft_text(gone)
        return r
    return [one(b)] + ['MultiSignature (%d-of-%d) Wallet %s:\nOwners: %s\n%s' % (m.signature_count, len(m.owners), a, ', '.join(m.owners), one(m))
                       for a, m in b.wallets.items() if in_use(m)]


RANK = {'spent': 4, 'unconfirmed_spent': 3, 'available': 2, 'unconfirmed': 1, 'unconfirmed_locked': 1}


def merged(got, x):
    """an output is in the sum once, in the furthest of the states the parts have it in"""
    if RANK[x[2]] > 1:
        return got == x
    # another part may know it as confirmed and locked
    return got is None or len(got) == 3 and got[:2] == x[:2] and RANK[got[2]] < 3


def in_use(b):
    return bool(b.outputs_available or units(b.locked) or b.outputs_unconfirmed)


def flat_balance(b):
    r = {}
    for x in [b] + list(getattr(b, 'wallets', {}).values()):
        l = [(o, 'available') for o in x.outputs_available] + [(o, 'unconfirmed') for o in x.outputs_unconfirmed_available]
        free = {str(o.id) for o in x.outputs_unconfirmed_available}
        l += [(o, 'unconfirmed_locked') for k, o in x.outputs_unconfirmed.items() if str(k) not in free]
        l += [(o, 'spent') for o in x.outputs_spent.values()] + [(o, 'unconfirmed_spent') for o in x.outputs_unconfirmed_spent.values()]
        for o, s in l:
            r[str(o.id)] = [units(o.value), str(o.condition.unlockhash), s] + ([] if str(o.id) not in r else ['twice'])
    return r


def all_locked(b):
    return units(b.locked) + sum(units(x.locked) for x in getattr(b, 'wallets', {}).values())


def hidden_overlap(parts):
    l = []
    for b in parts:
        l += ([b.address] if hasattr(b, 'owners') else list(b.addresses)) + list(getattr(b, 'wallets', {}))
    return len(set(l)) != len(l)


def balance_state(b):
    return [sorted(flat_balance(b).items()), all_locked(b), b.chain_height, b.chain_time, str(b.chain_blockid), sorted(b.addresses),
            sorted((k, balance_state(x)) for k, x in getattr(b, 'wallets', {}).items())]


def summary(b):
    r = {'a': units(b.available), 'l': units(b.locked), 'u': units(b.unconfirmed), 'ul': units(b.unconfirmed_locked),
         'o': sorted(str(o.id) for o in b.outputs_available), 's': sorted(str(x) for x in b.outputs_spent),
         'h': b.chain_height}
    if hasattr(b, 'wallets'):
        r['m'] = {k: summary(v) for k, v in sorted(b.wallets.items())}
    return r
