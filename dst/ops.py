"""Co-signing, minting, atomic swaps, 3Bots, ERC20, draining and explorer queries."""
import copy
import hashlib
import json
import time
from . import access, enc, keys, when
from .enc import Tx, BadTx, Cond, i8, pk_uh, hx, erc20_of
from .chain import TFT, MONTH, bot_fee, sig_ok
from .sim import HarnessError
from .lib import E, T, CT, Currency, Hash, UnlockHash, units, WalletBalance
from .work import Runner, Call, amount_form, contract_facts, canon_tx_money, find_output, can_fulfil, damage_text, summary
from tfchain.types.ThreeBot import BotName, NetworkAddress
from tfchain.types.CryptoTypes import PublicKey
from tfchain.types.ERC20 import ERC20Address
from tfchain.types.IO import CoinInput, BlockstakeInput

BOT_ERRORS = ('bot-name', 'bot-key', 'bot-overflow', 'bot-address', 'bot-limits', 'duplicates', 'names', 'addresses')
MAIN = {1: 'C09', 128: 'C12', 129: 'C12', 144: 'C13', 145: 'C13', 146: 'C13', 208: 'C14', 210: 'C14'}


def bare(c, bad):
    """illegal arguments may be refused with a plain Exception"""
    return [Exception] if bad and type(c.exc) is Exception else []


def slots_of(tx, view):
    """{slot: {pk: sig}}, and a validity test per slot"""
    out = {}

    def put(slot, pk, sig):
        d = out.setdefault(slot, {})
        if pk and sig:
            d[pk] = sig
    for i, x in enumerate(tx.inputs):
        put_f(out, ('in', i), x.f)
    for i, x in enumerate(tx.bsin):
        put_f(out, ('bs', i), x.f)
    if tx.version in (128, 129) and tx.mintf is not None:
        put_f(out, ('mint',), tx.mintf)
    if tx.version == 144:
        put(('id',), tx.pk, tx.sig)
    elif tx.version == 145:
        put(('id',), bot_pk(view, tx.botid), tx.sig)
    elif tx.version == 146:
        put(('sender',), bot_pk(view, tx.sender), tx.ssig)
        put(('receiver',), bot_pk(view, tx.receiver), tx.rsig)
    elif tx.version == 210:
        put(('reg',), tx.pk, tx.sig)
    return out


def bot_pk(view, bid):
    b = view.base.bots.get(bid) if view is not None else None
    return b.pk if b else None


def put_f(out, slot, f):
    d = out.setdefault(slot, {})
    if f.type == 3:
        for p in f.d.get('pairs') or []:
            if p.get('signature'):
                d[enc.pk_bytes(p['publickey'], False)] = hx(p['signature'])
    elif f.d.get('signature'):
        d[enc.pk_bytes(f.d.get('publickey'), False)] = hx(f.d['signature'])


def sig_valid(tx, slot, pk, sig):
    if slot[0] in ('in', 'bs'):
        f = (tx.inputs if slot[0] == 'in' else tx.bsin)[slot[1]].f
        ex = i8(slot[1])
        if f.type == 3:
            ex += tx.pk_extra(pk)
        elif f.type == 2:
            ex += tx.pk_extra(pk) + hx(f.d.get('secret') or '')
        return sig_ok(pk, sig, tx.sighash(ex))
    if slot[0] == 'mint':
        return sig_ok(pk, sig, tx.sighash(tx.pk_extra(pk) if tx.mintf.type == 3 else b''))
    spec = {'id': b'sender', 'sender': b'sender', 'receiver': b'receiver', 'reg': b'registration'}[slot[0]]
    return sig_ok(pk, sig, tx.sighash(spec))


def demands_of(tx, view, source=None):
    """{slot: (owner addresses, count)} as far as known; None if something is unknown"""
    out = {}
    for i, x in enumerate(tx.inputs):
        o = (source or (lambda oid: (view.state.outs.get(oid) or (None,))[0]))(x.pid)
        if o is None:
            out[('in', i)] = None
            continue
        c = o.cond.base()
        out[('in', i)] = demand(c)
    for i, x in enumerate(tx.bsin):
        o = (view.state.bsouts.get(x.pid) or (None,))[0] if view is not None else None
        out[('bs', i)] = demand(o.cond.base()) if o is not None else None
    if tx.version in (128, 129):
        out[('mint',)] = demand(view.base.mint_at())
    if tx.version in (144, 145, 146, 210):
        for s, pk in ({144: (('id', tx.pk if tx.version == 144 else None),), 210: (('reg', getattr(tx, 'pk', None)),),
                       145: (('id', bot_pk(view, getattr(tx, 'botid', None))),),
                       146: (('sender', bot_pk(view, getattr(tx, 'sender', None))),
                             ('receiver', bot_pk(view, getattr(tx, 'receiver', None))))}[tx.version]):
            out[(s,)] = ([pk_uh(pk)], 1) if pk else None
    return out


def demand(c):
    if c.type == 4:
        return (list(c.d['unlockhashes']), c.d['minimumsignaturecount'])
    if c.type == 1:
        return ([c.uh], 1)
    if c.type == 0:
        return (None, 1)
    return None


def complete(tx, view):
    d = demands_of(tx, view)
    s = slots_of(tx, view)
    for k, v in d.items():
        if v is None:
            return None
        if len(s.get(k, ())) < v[1]:
            return False
        if is_multi(tx, k) and not {pk_uh(pk) for pk in s[k]} <= set(v[0] or ()):
            return False        # the chain refuses signatures of strangers
    return True


def is_multi(tx, slot):
    if slot[0] in ('in', 'bs'):
        return (tx.inputs if slot[0] == 'in' else tx.bsin)[slot[1]].f.type == 3
    return slot[0] == 'mint' and tx.mintf is not None and tx.mintf.type == 3


def fulfilments_of(j):
    d = j.get('data') or {}
    return [x.get('fulfillment') for k in ('coininputs', 'blockstakeinputs') for x in d.get(k) or []] + [d.get('mintfulfillment')]


def odd_pairs(j):
    """a document somebody put together so that a co-owner appears twice"""
    for f in fulfilments_of(j):
        if f and f.get('type') == 3:
            l = [p['publickey'] for p in f['data'].get('pairs') or []]
            if len(set(l)) != len(l):
                return True
    return False


def merge_docs(a, b, twice=False):
    """the signatures of two copies of one transaction in one document; twice: without leaving out the common ones"""
    try:
        x, y = Tx(copy.deepcopy(a), complete=False), Tx(copy.deepcopy(b), complete=False)
    except BadTx:
        return None
    if x.version != y.version or x.sighash(b'') != y.sighash(b''):
        return None
    a = copy.deepcopy(a)
    for f, g in zip(fulfilments_of(a), fulfilments_of(b)):
        if not f or not g or f.get('type') != g.get('type'):
            continue
        if f['type'] == 3:
            have = f['data'].setdefault('pairs', []) or []
            f['data']['pairs'] = have + [p for p in g['data'].get('pairs') or [] if twice or p['publickey'] not in [q['publickey'] for q in have]]
        elif not f['data'].get('signature') and g['data'].get('signature'):
            f['data'] = copy.deepcopy(g['data'])
    d, e = a.get('data') or {}, b.get('data') or {}
    if not d.get('signature') and e.get('signature'):
        d['signature'] = e['signature']
    for k in ('identification', 'sender', 'receiver', 'registration'):
        if isinstance(d.get(k), dict) and isinstance(e.get(k), dict) and not d[k].get('signature') and e[k].get('signature'):
            d[k] = copy.deepcopy(e[k])
    return a


class Ops(Runner):

    # ------------------------------------------------------------ co-signing
    def op_sign(self, sim, actor, rec, op):
        w = self.wallet(actor, op)
        live = actor.mem.get('live:' + op['doc']) if op.get('form') == 'live' else None
        text = sim.shared.get('doc:' + op['doc']) if live is None else json.dumps(live.json())
        if w is None or text is None:
            return 'nothing to sign'
        j0 = json.loads(text)
        if op.get('with'):
            other = sim.shared.get('doc:' + op['with'])
            if other is None:
                return 'nothing to merge'
            j0 = merge_docs(j0, json.loads(other), op.get('twice'))
            if j0 is None:
                return 'documents of different transactions'
        odd = odd_pairs(j0)
        if op.get('stranger') is not None:
            for f in fulfilments_of(j0):
                if f and f.get('type') == 3:
                    k = self.ring.key('f9%d' % (op['stranger'] % 7))
                    f['data'].setdefault('pairs', []).insert(0, {'publickey': k.pktext, 'signature': '%02x' % (op['stranger'] % 256) * 64})
                    odd = True
        try:
            tx0 = Tx(copy.deepcopy(j0), complete=False)
        except BadTx:
            return 'broken document'
        main = MAIN[tx0.version]
        if tx0.version == 1 and not any(x.f.type == 3 for x in tx0.inputs):
            main = 'C18' if op.get('drained') else 'C01'
        damaged = None
        if op.get('damage'):
            damaged = damage_doc(j0, op['damage']['how'], op['damage'].get('x', 0))
            if damaged is None:
                return 'nothing to damage'
            try:
                tx0 = Tx(copy.deepcopy(j0), complete=False)
            except Exception as e:
                if op['damage']['how'] in ('drop', 'dup', 'cut', 'junk', 'flip') and not isinstance(e, BadTx):
                    raise
                tx0 = None
            if op['damage']['how'] not in ('drop', 'dup', 'cut', 'junk', 'flip'):
                tx0 = None
        form = op.get('form', 'str')
        submit = op.get('submit', True)

        def fn():
            arg = j0 if form == 'dict' else json.dumps(j0)
            if form == 'obj':
                arg = T.from_json(arg)
            elif live is not None:
                arg = live
            if submit is True and op.get('id', 0) % 2:
                return w.transaction_sign(arg)
            return w.transaction_sign(arg, submit=submit)
        seedno = self.seedno(actor, op)
        c = Call(sim, rec, fn, pre=self.keys_before(w, self.seedno(actor, op)))
        allowed = ()
        if damaged or odd:
            allowed = (Exception,)
        elif tx0 is not None and tx0.version in (128, 129):
            # drawn up for a mint condition of another kind than the one of now
            now = {v.base.mint_at().base().type for v in c.views}
            if now and tx0.mintf.type in (1, 3) and now & {4 if tx0.mintf.type == 1 else 1}:
                allowed = (TypeError,)
        elif tx0 is not None and tx0.version in (145, 146):
            ids = (tx0.botid,) if tx0.version == 145 else (tx0.sender, tx0.receiver)
            if any(b not in v.base.bots for b in ids for v in c.views):
                allowed = (E.ThreeBotNotFound,)         # undone by a reorganisation, or not yet known there
        illegal = BOT_ERRORS + ('bot-unknown', 'bot-inactive', 'registered', 'mint', 'duplicate')
        if tx0 is not None and damaged:
            # a flipped signature cannot be noticed without checking it; the chain refuses it
            illegal += ('sig', 'owner')
        if tx0 is not None:
            known0 = self.known_inputs(c, self.owned(w, seedno, c=c))
            if any(x.pid not in known0 for x in tx0.inputs + tx0.bsin):
                # stale documents: the chain refuses them, nothing is lost
                illegal += ('missing', 'spent', 'locked')
            illegal += self.doc_faults(c, tx0)
        if not self.judge(c, rec, main, allowed, submits=submit, illegal=illegal):
            return [c.status, c.name()]
        if not c.ok or tx0 is None:
            if c.ok and tx0 is None:
                self.viol('C21', 'doc-accepted', 'a document with %s was accepted' % damaged, rec)
            return [c.status, c.name()]
        owned = self.owned(w, seedno, c=c)
        txn = c.value.transaction
        tx1 = self.lib_tx(txn, rec)
        if tx1 is None:
            return ['ok']
        p = [main] if main == 'C09' else [main, 'C09']
        if tx1.version != tx0.version or tx1.sighash(b'') != tx0.sighash(b''):
            self.viol(p + ['C16'], 'doc-changed:v%d' % tx0.version, 'signing changed the transaction\n%s\n%s' % (
                json.dumps(j0)[:900], json.dumps(tx1.j)[:900]), rec)
            return ['ok']
        view = c.view or sim.world.nodes[0].view()
        s0, s1 = slots_of(tx0, view), slots_of(tx1, view)
        new = []
        for k, v in s0.items():
            for pk, sig in v.items():
                if s1.get(k, {}).get(pk) != sig:
                    self.viol(p, 'signature-lost:v%d' % tx0.version, 'signing dropped or replaced the signature of %s in %s' % (
                        pk_uh(pk), k), rec)
                    return ['ok']
        for k, v in s1.items():
            for pk, sig in v.items():
                if pk in s0.get(k, {}):
                    continue
                new.append((k, pk))
                if pk_uh(pk) not in owned:
                    self.viol(p, 'foreign-signature', 'a signature of the foreign key %s appeared' % pk_uh(pk), rec)
                    return ['ok']
                if not sig_valid(tx1, k, pk, sig):
                    self.viol(p + ['C01', 'C16'], 'bad-signature:v%d:%s' % (tx0.version, k[0]), 'the new signature in %s is not valid' % (k,), rec)
                    return ['ok']
        for i, x in enumerate(tx1.inputs):
            if x.f.type == 3:
                l = [q['publickey'] for q in x.f.d.get('pairs') or []]
                if len(set(l)) != len(l) and not odd:
                    self.viol(p, 'signed-twice', 'a co-owner appears twice in input %d' % i, rec)
        dem = demands_of(tx1, view)
        for k, pk in new:
            d = dem.get(k)
            if d and d[0] is not None and pk_uh(pk) not in d[0]:
                self.viol(p, 'stranger:v%d' % tx0.version, 'a key that is no owner signed %s\n%s\n%s' % (k, json.dumps(tx1.j.get('data', {}).get('blockstakeinputs'))[:500], json.dumps(j0)[:900]), rec)
        if bool(c.value.signed) != bool(new) and not damaged:
            self.viol(p, 'signed-flag', 'signed=%r but %d new signatures' % (c.value.signed, len(new)), rec)
        done0, done1 = complete(tx0, view), complete(tx1, view)
        if c.value.submitted and done1 is False and all(complete(tx1, v) is False for v in c.views):
            self.viol(p, 'too-early:v%d' % tx0.version, 'submitted although signatures are missing', rec)
        if odd and c.posts:
            self.viol(p, 'odd-pairs:v%d' % tx0.version, 'submitted with signatures of strangers or twice of one owner', rec)
        known = self.known_inputs(c, owned)
        if live is not None:
            known = known | {x.pid for x in tx0.inputs + tx0.bsin}       # told by whoever made it up
        informed = all(x.pid in known for x in tx0.inputs + tx0.bsin)
        if informed and c.stable and c.view is not None and not c.faulty and not damaged:
            for k, d in dem.items():
                if d is None:
                    continue
                have0, have1 = len(s0.get(k, ())), len(s1.get(k, ()))
                if d[0] is None:
                    mine = 1
                else:
                    mine = len([u for u in d[0] if u in owned and u not in [pk_uh(q) for q in s0.get(k, {})]])
                if have0 < d[1] and have1 < min(d[1], have0 + mine):
                    self.viol(p, 'not-signed:v%d:%s' % (tx0.version, k[0]), '%s of %s could be signed by this wallet but was not (%d of %d signatures)' % (
                        k, tx0.version, have1, d[1]), rec)
                    return ['ok']
            if submit and done0 is False and done1 and not c.value.submitted and not odd:
                self.viol(p, 'not-completed:v%d' % tx0.version, 'the completing signer did not submit the transaction', rec)
        if not damaged:
            self.judge_identity(txn, rec)
            if op.get('save'):
                sim.shared['doc:' + op['save']] = json.dumps(txn.json())
                sim.shared['signed:' + op['save']] = 1
                if live is not None:
                    actor.mem['live:' + op['save']] = txn
        return [c.status, bool(c.value.signed), bool(c.value.submitted)]

    def op_compose(self, sim, actor, rec, op):
        """a transaction put together by hand, of outputs of one or more parties"""
        cl = self.client_of(sim, actor, op)
        if cl is None:
            return 'no client'
        got = []
        for ref in op['ins']:
            oid = self.resolve(ref)
            if oid is None:
                return 'no output'
            c = Call(sim, rec, lambda: cl.coin_output_get(oid))
            if not self.judge(c, rec, 'C17', submits=False):
                return [c.status, c.name()]
            if not c.ok:
                self.unknown(c, rec, op, all(v.base.outs.get(oid) is None for v in c.views))
                return [c.status, c.name()]
            got.append(c.value[0])
            v = c.views[-1]
            o = v.base.outs.get(oid)
            if o is None or str(got[-1].id) != oid or units(got[-1].value) != o[0].value:
                self.viol('C17', 'output', 'output %s is reported as %s of %s' % (oid, got[-1].id, got[-1].value), rec)
                return ['err']
        stakes = []
        for ref in op.get('stakes', ()):
            oid = self.resolve(ref)
            if oid is None:
                return 'no stake'
            c = Call(sim, rec, lambda: cl.blockstake_output_get(oid))
            if not self.judge(c, rec, 'C17', submits=False):
                return [c.status, c.name()]
            if not c.ok:
                self.unknown(c, rec, op, all(v.base.bsouts.get(oid) is None for v in c.views))
                return [c.status, c.name()]
            stakes.append(c.value[0])
            o = c.views[-1].base.bsouts.get(oid)
            if o is None or str(stakes[-1].id) != oid or int(stakes[-1].value.value) != o[0].value:
                self.viol('C17', 'output', 'block stake output %s is reported as %s of %s' % (oid, stakes[-1].id, stakes[-1].value), rec)
                return ['err']
        moved = [(self.resolve(to), n) for to, n in op.get('stake_outs', ())] if stakes else []
        total = sum(units(co.value) for co in got)
        wants = [(self.resolve(to), n) for to, n in op['outs']]
        rest = total - sum(n for _, n in wants) - sim.world.minfee
        if rest > 0:
            wants.append((self.resolve(op['change']), rest))
        if rest < 0:
            return 'not enough'
        data = op.get('data')

        def fn():
            t = T.new()
            for co in got:
                ci = CoinInput.from_coin_output(co)
                t.coin_input_add(ci.parentid, ci.fulfillment, parent_output=co)
            for to, n in wants:
                t.coin_output_add(value=Currency(value=amount_form(n, 0)), condition=CT.from_recipient(to))
            for bso in stakes:
                bi = BlockstakeInput.from_blockstake_output(bso)
                t.blockstake_input_add(bi.parentid, bi.fulfillment, parent_output=bso)
            for to, n in moved:
                t.blockstake_output_add(value=n, condition=CT.from_recipient(to))
            t.miner_fee_add(Currency(value=amount_form(sim.world.minfee, 0)))
            if data is not None:
                t.data = data
            return t
        c = Call(sim, rec, fn)
        if not c.ok:
            self.viol('C02', 'compose:%s' % c.name(), 'putting a transaction together raised %r\n%s' % (c.exc, c.tb), rec)
            return [c.status, c.name()]
        tx = self.lib_tx(c.value, rec)
        if tx is None:
            return ['err']
        if [x.pid for x in tx.inputs] != [self.resolve(x) for x in op['ins']] or [o.value for o in tx.outputs] != [n for _, n in wants] or \
                [x.pid for x in tx.bsin] != [str(b.id) for b in stakes] or [o.value for o in tx.bsout] != [n for _, n in moved] or \
                tx.fees != [sim.world.minfee] or tx.arb != (data or '').encode():
            self.viol(['C02', 'C16'], 'composed', 'the transaction put together is %s' % json.dumps(tx.j)[:900], rec)
            return ['err']
        self.judge_identity(c.value, rec)
        actor.mem['live:' + op['label']] = c.value
        sim.shared['doc:' + op['label']] = json.dumps(c.value.json())
        return ['ok', tx.sighash(b'').hex()]

    def op_put(self, sim, actor, rec, op):
        """a complete document is sent as it is, by whoever holds it"""
        cl = self.client_of(sim, actor, op)
        text = sim.shared.get('doc:' + op['doc'])
        if cl is None or text is None:
            return 'nothing to send'
        try:
            tx0 = Tx(json.loads(text), complete=True)
        except BadTx:
            return 'not complete'
        if complete(tx0, sim.world.nodes[0].view()) is not True:
            return 'not complete'
        main = [MAIN[tx0.version], 'C03']
        c = Call(sim, rec, lambda: cl.transaction_put(T.from_json(text) if op.get('form') == 'obj' else json.loads(text)))
        illegal = BOT_ERRORS + ('bot-unknown', 'bot-inactive', 'registered', 'mint', 'duplicate', 'missing', 'spent', 'locked')
        if not self.judge(c, rec, main, illegal=illegal):
            return [c.status, c.name()]
        if any(p['tx'] is not None and p['tx'].id != tx0.id for p in c.posts):
            self.viol(main + ['C16'], 'put-other', 'another transaction was sent', rec)
        return [c.status, c.value if c.ok else c.name()]

    def doc_faults(self, c, tx0):
        """what is already wrong with a document before this call"""
        r = set()
        if tx0.version == 208 or tx0.version == 1:
            return ()
        return tuple(r)

    def known_inputs(self, c, owned):
        ids = None
        for v in {id(v): v for v in c.views}.values():
            s = set()
            for u in owned:
                for t in [u] + list(v.multisigs_of(u)):
                    s |= {oid for oid, (_, _, st) in v.fold(t).items() if st in ('available', 'unconfirmed')}
            ids = s if ids is None else ids & s
        return ids or set()

    # ------------------------------------------------------------ minting
    def minting(self, sim, actor, rec, op, call, version, check):
        w = self.wallet(actor, op)
        if w is None:
            return 'no wallet'
        data = op.get('data')
        kw = {'data': data} if data is not None else {}
        want_arb = (data.encode() if isinstance(data, str) else data) or b''
        c = Call(sim, rec, lambda: call(w, kw))
        bad = op.get('bad')
        allowed = [ValueError, TypeError, E.CurrencyNegativeValue] if bad else []
        if not self.judge(c, rec, 'C12', allowed, illegal=('nonstandard',) if bad == 'nonstandard' else ()):
            return [c.status, c.name()]
        if bad and bad != 'nonstandard':
            if c.ok or c.posts:
                self.viol('C12', 'accepted-bad:%s' % bad, 'an illegal argument (%s) was not refused' % bad, rec)
            return ['refused']
        owned = self.owned(w, self.seedno(actor, op))
        tx = None
        if c.ok:
            tx = self.lib_tx(c.value.transaction, rec)
            if tx is None:
                return ['ok']
        elif c.posts:
            tx = next((p['tx'] for p in c.posts if p['tx']), None)
        if tx is None:
            return [c.status, c.name()]
        if tx.version != version or sum(tx.fees) != sim.world.minfee or tx.arb != want_arb:
            self.viol('C12', 'content:v%d' % version, 'minting transaction has version %d, fees %s, data %r' % (tx.version, tx.fees, tx.arb), rec)
        check(tx)
        self.fresh(sim, rec, 'nonce', tx.nonce.hex(), c)
        if c.ok:
            conds = [v.base.mint_at() for v in c.views]
            able = {can_fulfil([x], owned) for x in conds}
            if len(able) == 1:
                able = able.pop()
                if able and not c.value.submitted:
                    self.viol('C12', 'not-submitted:v%d' % version, 'this wallet satisfies the mint condition but nothing was submitted', rec)
                if not able and c.value.submitted:
                    self.viol('C12', 'too-early:v%d' % version, 'submitted without satisfying the mint condition', rec)
            self.judge_identity(c.value.transaction, rec)
            if not c.value.submitted:
                sim.shared['doc:%s' % op.get('label', rec.i)] = json.dumps(c.value.transaction.json())
            self.note_outputs(sim, op, rec, tx)
        return [c.status, c.name(), bool(c.ok and c.value.submitted)]

    def op_mint_def(self, sim, actor, rec, op):
        to = self.resolve(op['to'])

        def check(tx):
            want = self.cond_of_recipient(op['to'])
            if tx.mintc.key() != want.key():
                self.viol('C12', 'condition', 'new mint condition is %s instead of %s' % (tx.mintc.json(), want.json()), rec)
        return self.minting(sim, actor, rec, op, lambda w, kw: w.minter.definition_set(to, **kw), 128, check)

    def op_mint_coins(self, sim, actor, rec, op):
        n = op['amount']['$amount']
        t0 = sim.local_time()

        def call(w, kw):
            if op.get('lock') is not None:
                kw['lock'] = self.resolve(op['lock'])
            return w.minter.coins_new(self.resolve(op['to']), self.resolve(op['amount']), **kw)

        def check(tx):
            want = self.locked_want(sim, rec, tx, n, op['to'], op.get('lock'), t0)
            if want is None:
                return
            got = [(o.value, o.cond.key()) for o in tx.outputs]
            if got != [(want[0], want[1].key())]:
                self.viol('C12', 'coins', 'minted %s instead of %s' % (got, (want[0], want[1].key())), rec)
        return self.minting(sim, actor, rec, op, call, 129, check)

    def op_mint_get(self, sim, actor, rec, op):
        cl = self.client_of(sim, actor, op)
        if cl is None:
            return 'no client'
        h = op.get('height')
        if h is not None and h < 0:
            h = max(0, sim.world.nodes[0].tip.height + h)
        c = Call(sim, rec, (lambda: cl.minter.condition_get()) if h is None else (lambda: cl.minter.condition_get(str(h) if op.get('str') else h)))
        if not self.judge(c, rec, 'C12', submits=False):
            return [c.status, c.name()]
        if c.ok:
            got = Cond(json.loads(json.dumps(c.value.json())))
            want = [v.base.mint_at(h) for v in c.views if h is None or h <= v.height]
            if got.key() not in [x.key() for x in want if x]:
                self.viol('C12', 'reported', 'mint condition at %s is reported as %s instead of %s' % (h, got.json(), [x.json() for x in want][:2]), rec)
            return ['ok', repr(got.key())]
        return [c.status, c.name()]

    def fresh(self, sim, rec, what, value, c):
        """C20: values that must come from the operating system and never repeat"""
        d = sim.shared.setdefault('fresh:' + what, {})
        need = 8 if what == 'nonce' else 32
        if c.entropy < need:
            self.viol('C20', 'entropy:%s' % what, 'a %s was made with %d bytes of operating system entropy' % (what, c.entropy), rec)
        if value in d:
            self.viol(['C20', 'C12'] if what == 'nonce' else 'C20', 'repeat:%s' % what, 'the %s %s was produced twice (operations %s and %s)' % (what, value, d[value], [rec.actor.idx, rec.i]), rec)
        d[value] = [rec.actor.idx, rec.i]

    def op_new_wallet(self, sim, actor, rec, op):
        """a wallet with a generated seed"""
        from .lib import TFChainWallet

        def fn():
            return TFChainWallet(client=self.client(sim, actor, op))
        c = Call(sim, rec, fn)
        self.judge(c, rec, 'C20', submits=False)
        if not c.ok:
            return [c.status, c.name()]
        s = bytes(c.value.seed)
        self.fresh(sim, rec, 'seed', s.hex(), c)
        if len(s) != 32:
            self.viol('C20', 'seed-size', 'generated seed has %d bytes' % len(s), rec)
        if c.value.address != keys.wkey(s, 0).uh:
            self.viol('C08', 'primary', 'primary address is not derived from the seed', rec)
        return ['ok']

    # ------------------------------------------------------------ atomic swaps
    def op_swap_initiate(self, sim, actor, rec, op):
        return self.make_contract(sim, actor, rec, op, None)

    def op_swap_participate(self, sim, actor, rec, op):
        h = self.resolve(op['hash'])
        if h is None:
            return 'no hash'
        if op.get('bad') and op['bad'].startswith('damaged'):
            return self.make_contract(sim, actor, rec, op, h)
        return self.make_contract(sim, actor, rec, op, h)

    def make_contract(self, sim, actor, rec, op, hsh):
        w = self.wallet(actor, op)
        if w is None:
            return 'no wallet'
        n = op['amount']['$amount']
        kw = {k: self.resolve(op[k]) for k in ('source', 'refund', 'data') if op.get(k) is not None}
        if op.get('refund_time') is not None:
            kw['refund_time'] = op['refund_time']
        if op.get('submit') is False:
            kw['submit'] = False
        data = kw.get('data')
        data = data.encode() if isinstance(data, str) else data
        to = self.resolve(op['to'])
        amount = self.resolve(op['amount'])
        seedno = self.seedno(actor, op)
        t0 = sim.local_time()
        if hsh is None:
            c = Call(sim, rec, lambda: w.atomicswap.initiate(to, amount, **kw), pre=self.keys_before(w, self.seedno(actor, op)))
        else:
            c = Call(sim, rec, lambda: w.atomicswap.participate(to, amount, hsh, **kw), pre=self.keys_before(w, self.seedno(actor, op)))
        bad = op.get('bad')
        small = n <= sim.world.minfee
        allowed = [E.InsufficientFunds, E.AtomicSwapInsufficientAmountError] + ([ValueError, TypeError, E.CurrencyNegativeValue] if bad else [])
        if not self.judge(c, rec, 'C10', allowed, submits=op.get('submit', True)):
            return [c.status, c.name()]
        if bad:
            if c.ok or c.posts:
                self.viol('C21' if bad.startswith('damaged') else 'C10', 'accepted-bad:%s' % bad, 'an illegal argument (%s) was not refused' % bad, rec)
            return ['refused']
        if small and (c.ok or c.posts):
            self.viol('C10', 'unclaimable', 'a contract of %d was made, the fee to claim it is %d' % (n, sim.world.minfee), rec)
        self.error_facts(c, rec, 'C10', E.AtomicSwapInsufficientAmountError, amount=[n], minimum_miner_fee=[sim.world.minfee])
        if isinstance(c.exc, E.AtomicSwapInsufficientAmountError) and not small:
            self.viol('C10', 'refused-amount', 'the amount %d was refused as too small' % n, rec)
        if small:
            return [c.status, c.name()]
        change = self.change_cond(sim, c, w, op.get('source'), op.get('refund'))
        sender = change.uh if change.type == 1 else w.address
        rt = op.get('refund_time') or ('+48h' if hsh is None else '+24h')
        times = self.lock_ranges(rec, rt, t0, [v.time for v in c.views])
        res = c.value if c.ok else None

        def want(tx):
            cs = [o for o in tx.outputs if o.cond.type == 2]
            if len(cs) != 1:
                self.viol('C10', 'contract-outputs', '%d contracts in the transaction' % len(cs), rec)
                return None
            d = cs[0].cond.d
            if not any(a <= d['timelock'] <= b for a, b in times):
                self.viol(['C15', 'C10'], 'refund-time', 'refund time %d, asked for is %s' % (d['timelock'], sorted(set(times))), rec)
                return None
            hh = d['hashedsecret']
            if hsh is not None:
                hh = str(hsh)
            elif res is not None:
                sec = str(res.secret)
                if hashlib.sha256(bytes.fromhex(sec)).hexdigest() != hh:
                    self.viol('C20', 'secret-hash', 'the contract does not hold the hash of the secret handed out', rec)
                    return None
            return [(n, Cond({'type': 2, 'data': {'sender': sender, 'receiver': str(to), 'hashedsecret': hh, 'timelock': d['timelock']}}))]

        def check(tx):
            if res is None:
                return
            k = res.contract
            i = [i for i, o in enumerate(tx.outputs) if o.cond.type == 2][0]
            o = tx.outputs[i]
            got = (str(k.outputid), units(k.amount), str(k.sender), str(k.receiver), str(k.secret_hash), k.refund_timestamp)
            exp = (tx.coin_id(i), o.value, o.cond.d['sender'], o.cond.d['receiver'], o.cond.d['hashedsecret'], o.cond.d['timelock'])
            if got != exp:
                self.viol(['C10'] + (['C16'] if got[0] != exp[0] else []), 'contract-info', 'contract is reported as %s, is %s' % (got, exp), rec)
            self.shown_contract(c, rec, k, True)
            lab = op.get('label')
            if lab:
                sim.shared['contract:' + lab] = exp[0]
                sim.shared['hash:' + lab] = exp[4]
                if hsh is None:
                    sim.shared['secret:' + lab] = str(res.secret)
        r = self.finish(sim, actor, rec, op, c, w, seedno, n, want, data, 0, 'C10', check)
        if c.ok and hsh is None:
            self.fresh(sim, rec, 'secret', str(res.secret), c)
        return r

    def contract_state(self, v, oid):
        o = v.base.outs.get(oid)
        if o is None:
            return None, None, None
        return o[0], v.base.spent.get(oid), oid in v.state.spent

    def swap_error_facts(self, c, rec, props, oid, views, given=False):
        if c.exc is None or not views or c.body_faults:
            return
        kind = (E.AtomicSwapContractInvalid, E.AtomicSwapContractSpent, E.AtomicSwapForbidden, E.AtomicSwapInvalidSecret)
        self.error_facts(c, rec, props, E.AtomicSwapContractNotFound, outputid=[oid])
        known = [self.contract_state(v, oid)[0] for v in views]
        facts = [
            (oid, o.value, o.cond.d['sender'], o.cond.d['receiver'], o.cond.d['hashedsecret'], o.cond.d['timelock']) for o in known if o is not None and o.cond.type == 2]
        if facts:
            self.error_facts(c, rec, props, kind, contract=facts)
        self.error_facts(c, rec, props, E.AtomicSwapContractSpent, transaction=[v.base.spent[oid] for v in views if oid in v.base.spent])
        k = getattr(c.exc, 'contract', None)
        if facts and k is not None and not given:
            self.shown_contract(c, rec, k, {'AtomicSwapContractSpent': False, 'AtomicSwapContractInvalid': True}.get(c.name(), k.unspent))

    def shown_contract(self, c, rec, k, unspent):
        """the text of a contract: its facts, and whether it can be refunded by the time of the chain"""
        if not c.views or c.body_faults:
            return
        ts, off = k.refund_timestamp, when.east(self.sim.spec['setup'].get('tz'))
        at = time.strftime('%Y/%m/%d %H:%M:%S', time.gmtime(ts + off))
        times = sorted({v.time for v in c.views})
        if not unspent:
            st = ['Spent and no longer available.']
        else:
            st = ['Refund is available since %s.' % at if x >= ts else 'Refund available at %s (in: %s).' % (at, lasting(ts - x)) for x in times]
        n = units(k.amount)
        val = ('%d.%09d' % (n // TFT, n % TFT)).rstrip('0').rstrip('.')
        want = [['Atomic Swap Contract %s:' % k.outputid, x, 'Value: %s TFT' % val, 'Sender: %s' % k.sender, 'Receiver: %s' % k.receiver,
                 'Secret Hash: %s' % k.secret_hash] for x in st]
        try:
            got = [x.strip() for x in repr(k).strip().split('\n')]
            o = k.coin_output
            same = k == copy.deepcopy(k) and not k != copy.deepcopy(k) and k.unspent == unspent and (
                str(o.id), units(o.value), o.condition.json()) == (str(k.outputid), n, k.condition.json())
        except Exception as e:
            got, same = [repr(e)], True
        if got not in want:
            self.viol(['C11', 'C10', 'C15'], 'contract-text', 'at the chain times %s a contract shows\n%s\ninstead of\n%s' % (times, '\n'.join(got), '\n'.join(want[0])), rec)
        elif not same:
            self.viol(['C11', 'C10'], 'contract-object', 'contract %s: unspent %s, output %s' % (k.outputid, k.unspent, o.json()), rec)

    def op_swap_verify(self, sim, actor, rec, op):
        w = self.wallet(actor, op)
        oid = self.resolve(op['out'])
        if w is None or oid is None:
            return 'nothing to verify'
        kw = {}
        for k in ('amount', 'secret_hash', 'min_refund_time', 'sender', 'receiver'):
            if op.get(k) is not None:
                kw[k] = self.resolve(op[k])
                if kw[k] is None:
                    return 'nothing to verify'
        mrt = kw.get('min_refund_time')
        if op.get('mrt_rel') is not None:
            # absolute time near the contract's refund time
            o = sim.world.nodes[0].view().base.outs.get(oid)
            if o is None or o[0].cond.type != 2:
                return 'nothing to verify'
            mrt = kw['min_refund_time'] = o[0].cond.d['timelock'] + op['mrt_rel']
        if op.get('contract'):
            k = actor.mem.get('contract:' + op['contract'])
            if k is None:
                return 'nothing to verify'
            kw['contract'] = k
            if not op.get('other'):
                oid = str(k.outputid)
        arg = Hash(value=oid) if op.get('form') == 'hash' else oid
        c = Call(sim, rec, lambda: w.atomicswap.verify(arg, **kw), pre=self.keys_before(w, self.seedno(actor, op)))
        allowed = [E.AtomicSwapContractNotFound, E.AtomicSwapContractSpent, E.AtomicSwapContractInvalid]
        bad = op.get('bad')
        tys = set()
        for v in c.views:
            o, _, _ = self.contract_state(v, oid)
            if o is not None and o.cond.type != 2:
                tys.add('other')
        if tys or bad:
            allowed += [Exception]
        if not self.judge(c, rec, 'C11', allowed, submits=False):
            return [c.status, c.name()]
        if bad:
            if c.ok:
                self.viol(['C21', 'C11'], 'accepted-bad:%s' % bad, 'verification accepted a damaged %s' % bad, rec)
            return [c.status, c.name()]
        owned = self.owned(w, self.seedno(actor, op), c=c)
        if isinstance(c.exc, E.ExplorerError) and not isinstance(c.exc, tuple(allowed[:3])):
            return [c.status, c.name()]
        outs = set()
        views = [v for v in {id(v): v for v in c.views}.values()]
        self.swap_error_facts(c, rec, 'C11', str(kw['contract'].outputid) if 'contract' in kw else oid, views, 'contract' in kw)
        if 'contract' in kw and oid != str(kw['contract'].outputid):
            outs = {'invalid'}          # not the contract that is asked about
        else:
            for v in views:
                outs |= self.verify_expect(v, oid, kw, mrt, owned, 'contract' in kw)
        name = {'AtomicSwapContractNotFound': 'notfound', 'AtomicSwapContractSpent': 'spent', 'AtomicSwapContractInvalid': 'invalid'}.get(c.name(), c.status)
        if c.stable and views and name not in outs and not (('other' in outs) and not c.ok):
            self.viol(['C11', 'C15'] if mrt is not None else 'C11', 'verify:%s-as-%s' % ('/'.join(sorted(outs)), name), 'verification of %s with %s gave %s, the chain says %s' % (
                oid, {k: str(x) for k, x in kw.items()}, name, sorted(outs)), rec)
        if c.ok and views:
            k = c.value
            o = next((self.contract_state(v, oid)[0] for v in views if self.contract_state(v, oid)[0] is not None), None)
            if o is None or o.cond.type != 2:
                if 'contract' not in kw:
                    self.viol('C11', 'phantom', 'verified a contract that does not exist', rec)
                return ['ok']
            got = (str(k.outputid), units(k.amount), str(k.sender), str(k.receiver), str(k.secret_hash), k.refund_timestamp, k.unspent)
            exp = (oid, o.value, o.cond.d['sender'], o.cond.d['receiver'], o.cond.d['hashedsecret'], o.cond.d['timelock'], True)
            if got != exp:
                self.viol('C11', 'contract-info', 'verified contract is reported as %s, the chain has %s' % (got, exp), rec)
            actor.mem['contract:' + op.get('label', 'C')] = k
            if 'contract' not in kw:
                self.shown_contract(c, rec, k, True)
        return [c.status, c.name()]

    def verify_expect(self, v, oid, kw, mrt, owned, given):
        o, sp, _ = self.contract_state(v, oid)
        if not given:
            if o is None:
                return {'notfound'}
            if o.cond.type != 2:
                return {'other'}
            if sp:
                return {'spent'}
        elif o is None:
            return {'ok', 'invalid', 'notfound', 'spent'}
        d = o.cond.d
        inv = False
        if kw.get('amount') is not None:
            inv |= units_of_arg(kw['amount']) != o.value
        if kw.get('secret_hash') is not None:
            inv |= str(kw['secret_hash']).lower() != d['hashedsecret']
        if mrt is not None:
            t = when.ranges(mrt, 0, 0, when.east(self.sim.spec['setup'].get('tz')), [v.time])[0][0]
            md = max(0, t - v.time)
            cd = max(0, d['timelock'] - v.time)
            if md <= 0:
                if mrt != 0:
                    return {'ok', 'invalid'}        # a past time that is not 0: undocumented
                inv |= cd != 0
            else:
                inv |= cd < md
        if kw.get('sender'):
            inv |= d['sender'] not in owned
        if kw.get('receiver'):
            inv |= d['receiver'] not in owned
        return {'invalid'} if inv else {'ok'}

    def op_swap_redeem(self, sim, actor, rec, op):
        return self.claim(sim, actor, rec, op, False)

    def op_swap_refund(self, sim, actor, rec, op):
        return self.claim(sim, actor, rec, op, True)

    def claim(self, sim, actor, rec, op, refund):
        w = self.wallet(actor, op)
        oid = self.resolve(op['out'])
        secret = None if refund else self.resolve(op['secret'])
        if w is None or oid is None or (secret is None and not refund):
            return 'nothing to claim'
        kw = {}
        data = self.resolve(op.get('data'))
        if data is not None:
            kw['data'] = data
        data = data.encode() if isinstance(data, str) else data
        raw = secret
        if op.get('form') == 'bytes' and secret is not None and not op.get('bad'):
            raw = bytes.fromhex(secret)
        arg = Hash(value=oid) if op.get('idform') == 'hash' and not op.get('bad') else oid
        if refund:
            c = Call(sim, rec, lambda: w.atomicswap.refund(arg, **kw), pre=self.keys_before(w, self.seedno(actor, op)))
        else:
            c = Call(sim, rec, lambda: w.atomicswap.redeem(arg, raw, **kw), pre=self.keys_before(w, self.seedno(actor, op)))
        return self.judge_claim(sim, actor, rec, op, c, w, oid, secret, refund, data)

    def judge_claim(self, sim, actor, rec, op, c, w, oid, secret, refund, data=None):
        bad = op.get('bad')
        views = list({id(v): v for v in c.views}.values())
        allowed = [E.AtomicSwapContractNotFound, E.AtomicSwapContractSpent, E.AtomicSwapForbidden, E.AtomicSwapInvalidSecret]
        other = dust = False
        pend = False
        for v in views:
            o, sp, msp = self.contract_state(v, oid)
            if o is not None:
                other |= o.cond.type != 2
                dust |= o.value <= sim.world.minfee
                pend |= bool(msp and not sp)
        if other or dust or bad:
            allowed += [Exception]
        ill = ('spent',) if pend else ()
        if not self.judge(c, rec, 'C10', allowed, illegal=ill):
            return [c.status, c.name()]
        if bad:
            if c.ok or c.posts:
                self.viol(['C21', 'C10'], 'accepted-bad:%s' % bad, 'a claim with a damaged %s was not refused' % bad, rec)
            return [c.status, c.name()]
        owned = self.owned(w, self.seedno(actor, op), c=c)
        allow = set()
        can = None
        self.swap_error_facts(c, rec, 'C10', oid, views)
        for v in views:
            r = self.claim_expect(v, oid, secret, refund, owned, sim.world.minfee)
            allow |= r
        tx = None
        if c.ok:
            tx = self.lib_tx(c.value, rec)
        elif c.posts:
            tx = next((p['tx'] for p in c.posts if p['tx']), None)
        if tx is not None and views:
            src = next((self.contract_state(v, oid)[0] for v in views if self.contract_state(v, oid)[0] is not None), None)
            if src is None or src.cond.type != 2 or len(tx.inputs) != 1 or tx.inputs[0].pid != oid:
                self.viol('C10', 'claim-inputs', 'the claim spends %s' % [x.pid for x in tx.inputs], rec)
                return ['ok']
            to = src.cond.d['sender' if refund else 'receiver']
            got = [(o.value, o.cond.key()) for o in tx.outputs]
            exp = [(src.value - sim.world.minfee, Cond({'type': 1, 'data': {'unlockhash': to}}).key())]
            if got != exp or sum(tx.fees) != sim.world.minfee:
                self.viol(['C10', 'C02'], 'claim-outputs', 'the claim pays %s (fees %s) instead of %s' % (got, tx.fees, exp), rec)
            if tx.arb != (data or b''):
                self.viol(['C02', 'C10'], 'claim-data', 'data is %r' % (tx.arb,), rec)
            if not refund and (tx.inputs[0].f.d.get('secret') or '') != str(secret).lower():
                self.viol('C10', 'claim-secret', 'the redemption does not publish the secret', rec)
            if not any('ok' in self.claim_expect(v, oid, secret, refund, owned, sim.world.minfee) for v in views):
                self.viol(['C10'] + (['C15'] if refund else []), 'claim-illegal', 'a claim was sent although the chain shows %s' % sorted(allow), rec)
            if c.ok:
                self.judge_identity(c.value, rec)
                self.note_outputs(sim, op, rec, tx)
        if c.exc is not None and isinstance(c.exc, tuple(allowed[:4])) and views and c.stable:
            if c.name() not in allow and not other and not dust:
                self.viol(['C10'] + (['C15'] if 'Forbidden' in c.name() and refund else []), 'claim-refused:%s' % c.name(),
                          'the claim was refused with %s, possible: %s' % (c.name(), sorted(allow)), rec)
        if c.exc is not None and not isinstance(c.exc, (E.ExplorerError,)) and dust is False and other is False and allow == {'ok'} and not c.faulty and c.stable:
            self.viol('C10', 'claim-error:%s' % c.name(), 'the claim failed with %r' % (c.exc,), rec)
        return [c.status, c.name(), canon_tx_money(tx) if tx is not None else None]

    def claim_expect(self, v, oid, secret, refund, owned, fee):
        o, sp, _ = self.contract_state(v, oid)
        if o is None:
            return {'AtomicSwapContractNotFound'}
        if o.cond.type != 2:
            return {'other'}
        if sp:
            return {'AtomicSwapContractSpent'}
        r = set()
        d = o.cond.d
        if refund:
            if v.time < d['timelock'] or d['sender'] not in owned:
                r.add('AtomicSwapForbidden')
        else:
            if hashlib.sha256(bytes.fromhex(secret)).hexdigest() != d['hashedsecret']:
                r.add('AtomicSwapInvalidSecret')
            if d['receiver'] not in owned:
                r.add('AtomicSwapForbidden')
        return r or {'ok'}

    # ------------------------------------------------------------ 3Bots
    def names_arg(self, l, form):
        if l is None:
            return None
        if form:
            return [BotName(value=x) for x in l]
        return list(l)

    def addrs_arg(self, l, form):
        if l is None:
            return None
        if form:
            return [NetworkAddress(address=x) for x in l]
        return list(l)

    def op_bot_new(self, sim, actor, rec, op):
        w = self.wallet(actor, op)
        if w is None:
            return 'no wallet'
        kw = {k: self.resolve(op[k]) for k in ('source', 'refund') if op.get(k) is not None}
        f = op.get('form', 0)
        if op.get('names') is not None:
            kw['names'] = self.names_arg(op['names'], f)
        if op.get('addrs') is not None:
            kw['addresses'] = self.addrs_arg(op['addrs'], f)
        if op.get('months') is not None:
            kw['months'] = op['months']
        if op.get('key_index') is not None:
            kw['key_index'] = op['key_index']
        seedno = self.seedno(actor, op)
        before = self.owned(w, seedno)
        c = Call(sim, rec, lambda: w.threebot.record_new(**kw), pre=self.keys_before(w, self.seedno(actor, op)))
        bad = op.get('bad')
        oob = op.get('key_index') is not None and op['key_index'] >= len(before)
        allowed = [E.InsufficientFunds] + ([ValueError, TypeError] if bad else [ValueError] if oob else []) + bare(c, bad)
        if not self.judge(c, rec, 'C13', allowed, illegal=BOT_ERRORS):
            return [c.status, c.name()]
        if bad:
            if c.ok or c.posts:
                self.viol('C13', 'accepted-bad:%s' % bad, 'a registration with %s was not refused' % bad, rec)
            return ['refused']

        def check(tx):
            got = (tx.version, tx.months, sorted(n for n, _ in tx.names), sorted(a for a, _ in tx.addrs))
            exp = (144, op.get('months') or 1, sorted(op.get('names') or []), sorted(op.get('addrs') or []))
            if got != exp:
                self.viol('C13', 'registration', 'registered %s instead of %s' % (got, exp), rec)
            owned = self.owned(w, seedno)
            if pk_uh(tx.pk) not in owned:
                self.viol('C13', 'bot-key', 'the 3Bot is registered with a foreign key', rec)
            elif op.get('key_index') is None and pk_uh(tx.pk) in before:
                self.viol('C13', 'bot-key-new', 'no new key was generated for the 3Bot', rec)
            elif op.get('key_index') is not None and not self.gaps(w, seedno):
                if pk_uh(tx.pk) != keys.wkey(keys.seed_of(sim.spec['seed'], seedno), op['key_index']).uh:
                    self.viol('C13', 'bot-key-index', 'the 3Bot uses another key than number %d' % op['key_index'], rec)
        return self.finish(sim, actor, rec, op, c, w, seedno, 0, lambda tx: [], None, lambda tx: bot_fee(tx), 'C13', check)

    def gaps(self, w, seedno):
        """keys that were skipped are handed out later than those found behind them"""
        s = keys.seed_of(self.sim.spec['seed'], seedno)
        if any(e['ev'] == 'spend' for e in self.sim.spec.get('events', ())) or self.sim.shared.get('gapped'):
            return True     # there may have been a gap before
        return [keys.wkey(s, i).uh for i in range(w.key_count)] != self.owned(w, seedno)[:w.key_count]

    def bot_ident(self, sim, op, key='bot'):
        """identifier argument and the records it means, per view"""
        x = op[key]
        form = op.get(key + '_form', 'id')
        if form == 'id':
            return x, lambda v: v.base.bots.get(x)
        if form == 'name':
            return x, lambda v: v.base.bots.get(v.base.name_owner(x))
        if form == 'namet':
            return BotName(value=x), lambda v: v.base.bots.get(v.base.name_owner(x))
        k = self.ring.key(x)
        if form == 'pk':
            return k.pktext, lambda v: v.base.bots.get(v.base.pks.get(k.pk))
        return PublicKey.from_json(k.pktext), lambda v: v.base.bots.get(v.base.pks.get(k.pk))

    def op_bot_get(self, sim, actor, rec, op):
        cl = self.client_of(sim, actor, op)
        if cl is None:
            return 'no client'
        ident, want = self.bot_ident(sim, op)
        c = Call(sim, rec, lambda: cl.threebot.record_get(ident))
        bad = op.get('bad')
        if not self.judge(c, rec, ['C13', 'C17'], [E.ThreeBotNotFound] + ([ValueError] if bad else []), submits=False):
            return [c.status, c.name()]
        if not c.views:
            return [c.status, c.name()]
        recs = [want(v) for v in c.views]
        self.error_facts(c, rec, 'C13', E.ThreeBotNotFound, identifier=[str(ident)])
        if isinstance(c.exc, E.ThreeBotNotFound):
            if all(recs):
                self.viol(['C13', 'C17'], 'not-found', 'the registered 3Bot %s was not found' % op['bot'], rec)
        elif c.ok:
            r = c.value
            got = (r.identifier, sorted(str(n) for n in r.names), sorted(str(a) for a in r.addresses), str(r.public_key), r.expiration)
            exp = [(b.id, sorted(b.names), sorted(b.addrs), 'ed25519:' + b.pk.hex(), b.exp) for b in recs if b]
            if got not in exp:
                self.viol(['C13', 'C17'], 'record', '3Bot record %s instead of %s' % (got, exp[:2]), rec)
            return ['ok', list(got)]
        return [c.status, c.name()]

    def op_bot_update(self, sim, actor, rec, op):
        w = self.wallet(actor, op)
        if w is None:
            return 'no wallet'
        f = op.get('form', 0)
        kw = {k: self.resolve(op[k]) for k in ('source', 'refund') if op.get(k) is not None}
        if op.get('months') is not None:
            kw['months'] = op['months']
        for k in ('names_to_add', 'names_to_remove'):
            if op.get(k) is not None:
                kw[k] = self.names_arg(op[k], f)
        for k in ('addresses_to_add', 'addresses_to_remove'):
            if op.get(k) is not None:
                kw[k] = self.addrs_arg(op[k], f)
        seedno = self.seedno(actor, op)
        bid = op['bot']
        c = Call(sim, rec, lambda: w.threebot.record_update(bid, **kw), pre=self.keys_before(w, self.seedno(actor, op)))
        bad = op.get('bad')
        allowed = [E.InsufficientFunds, E.ThreeBotNotFound, E.ThreeBotInactive] + ([ValueError, TypeError] if bad else []) + bare(c, bad)
        if not self.judge(c, rec, 'C13', allowed, illegal=BOT_ERRORS):
            return [c.status, c.name()]
        if bad:
            if c.ok or c.posts:
                self.viol('C13', 'accepted-bad:%s' % bad, 'an update with %s was not refused' % bad, rec)
            return ['refused']
        if self.bot_state_error(c, rec, [(bid, op.get('months') or 0)]):
            return [c.status, c.name()]

        def check(tx):
            got = (tx.version, tx.botid, tx.months) + tuple(sorted(n for n, _ in l) for l in (tx.n_add, tx.n_rem, tx.a_add, tx.a_rem))
            exp = (145, bid, op.get('months') or 0) + tuple(sorted(op.get(k) or []) for k in (
                'names_to_add', 'names_to_remove', 'addresses_to_add', 'addresses_to_remove'))
            if got != exp:
                self.viol('C13', 'update', 'updated %s instead of %s' % (got, exp), rec)
        gate = self.owns_bots(c, w, seedno, [bid])
        r = self.finish(sim, actor, rec, op, c, w, seedno, 0, lambda tx: [], None, lambda tx: bot_fee(tx), 'C13', check, gate)
        return r

    def owns_bots(self, c, w, seedno, ids):
        owned = self.owned(w, seedno)
        for v in c.views:
            for b in ids:
                r = v.base.bots.get(b)
                if r is not None and pk_uh(r.pk) not in owned:
                    return False
        return True

    def bot_state_error(self, c, rec, bots):
        """unknown and inactive 3Bots are reported as such; True if nothing more is to be judged"""
        views = list({id(v): v for v in c.views}.values())
        if isinstance(c.exc, (E.ThreeBotNotFound, E.ThreeBotInactive)) and views:
            unknown = any(any(v.base.bots.get(b) is None for b, _ in bots) for v in views)
            idle = any(any(v.base.bots.get(b) is not None and not v.base.bot_active(v.base.bots[b]) and m == 0 for b, m in bots) for v in views)
            self.error_facts(c, rec, 'C13', E.ThreeBotNotFound, identifier=[str(b) for b, _ in bots if any(v.base.bots.get(b) is None for v in views)])
            self.error_facts(c, rec, 'C13', E.ThreeBotInactive, identifier=[str(b) for b, _ in bots], expiration=[
                v.base.bots[b].exp for b, _ in bots for v in views if b in v.base.bots])
            if isinstance(c.exc, E.ThreeBotNotFound) and not unknown:
                self.viol('C13', 'not-found', 'a registered 3Bot was not found: %s' % (bots,), rec)
            if isinstance(c.exc, E.ThreeBotInactive) and not idle and len(views) == 1:
                self.viol('C13', 'inactive', 'an active 3Bot was reported inactive: %s' % (bots,), rec)
            return True
        if (c.ok or c.posts) and len(views) == 1:
            v = views[0]
            for b, m in bots:
                r = v.base.bots.get(b)
                if r is None:
                    self.viol('C13', 'unknown-used', 'the unknown 3Bot %d was used' % b, rec)
                elif not v.base.bot_active(r) and m == 0:
                    self.viol('C13', 'inactive-used', 'the inactive 3Bot %d was used' % b, rec)
        return False

    def op_bot_transfer(self, sim, actor, rec, op):
        w = self.wallet(actor, op)
        if w is None:
            return 'no wallet'
        kw = {k: self.resolve(op[k]) for k in ('source', 'refund') if op.get(k) is not None}
        seedno = self.seedno(actor, op)
        s, r = op['sender'], op['receiver']
        c = Call(sim, rec, lambda: w.threebot.name_transfer(s, r, self.names_arg(op['names'], op.get('form', 0)), **kw), pre=self.keys_before(w, self.seedno(actor, op)))
        bad = op.get('bad')
        allowed = [E.InsufficientFunds, E.ThreeBotNotFound, E.ThreeBotInactive] + ([ValueError, TypeError] if bad else []) + bare(c, bad)
        if not self.judge(c, rec, 'C13', allowed, illegal=BOT_ERRORS + ('same',)):
            return [c.status, c.name()]
        if bad:
            if c.ok or c.posts:
                self.viol('C13', 'accepted-bad:%s' % bad, 'a transfer with %s was not refused' % bad, rec)
            return ['refused']
        if self.bot_state_error(c, rec, [(s, 0), (r, 0)]):
            return [c.status, c.name()]

        if s == r:
            # nothing to transfer: refused, left unsubmitted or refused by the chain
            return [c.status, c.name()]

        def check(tx):
            got = (tx.version, tx.sender, tx.receiver, sorted(n for n, _ in tx.names))
            exp = (146, s, r, sorted(op['names']))
            if got != exp:
                self.viol('C13', 'transfer', 'transfer %s instead of %s' % (got, exp), rec)
        gate = self.owns_bots(c, w, seedno, [s, r])
        return self.finish(sim, actor, rec, op, c, w, seedno, 0, lambda tx: [], None, lambda tx: bot_fee(tx), 'C13', check, gate)

    # ------------------------------------------------------------ ERC20
    def op_erc20_send(self, sim, actor, rec, op):
        w = self.wallet(actor, op)
        if w is None:
            return 'no wallet'
        n = op['amount']['$amount']
        kw = {k: self.resolve(op[k]) for k in ('source', 'refund') if op.get(k) is not None}
        seedno = self.seedno(actor, op)
        addr = self.resolve(op['address'])
        amount = self.resolve(op['amount'])
        if op.get('via') == 'coins_send':
            c = Call(sim, rec, lambda: w.coins_send(addr, amount, **kw), pre=self.keys_before(w, self.seedno(actor, op)))
        else:
            c = Call(sim, rec, lambda: w.erc20.coins_send(addr, amount, **kw), pre=self.keys_before(w, self.seedno(actor, op)))
        bad = op.get('bad')
        allowed = [E.InsufficientFunds] + ([ValueError, TypeError, E.CurrencyNegativeValue] if bad else [])
        if not self.judge(c, rec, 'C14', allowed):
            return [c.status, c.name()]
        if bad:
            if c.ok or c.posts:
                self.viol(['C14', 'C21'], 'accepted-bad:%s' % bad, 'a conversion with %s was not refused' % bad, rec)
            return ['refused']

        def check(tx):
            if tx.version != 208 or tx.value != n or tx.erc != bytes.fromhex(addr[2:] if addr[:2].lower() == '0x' else addr):
                self.viol('C14', 'conversion', 'burns %s towards %s (version %d)' % (getattr(tx, 'value', None), tx.j['data'].get('address'), tx.version), rec)
        return self.finish(sim, actor, rec, op, c, w, seedno, 0, lambda tx: [], None, n, 'C14', check)

    def op_erc20_register(self, sim, actor, rec, op):
        w = self.wallet(actor, op)
        if w is None:
            return 'no wallet'
        kw = {k: self.resolve(op[k]) for k in ('source', 'refund') if op.get(k) is not None}
        seedno = self.seedno(actor, op)
        val = self.resolve(op.get('value'))
        before = self.owned(w, seedno)
        c = Call(sim, rec, lambda: w.erc20.address_register(value=val, **kw) if val is not None else w.erc20.address_register(**kw), pre=self.keys_before(w, self.seedno(actor, op)))
        bad = op.get('bad')
        foreign = isinstance(val, (str, UnlockHash)) and str(val) not in before
        allowed = [E.InsufficientFunds] + ([E.ERC20RegistrationForbidden] if foreign else []) + (
            [ValueError] if isinstance(val, int) and val >= len(before) else []) + ([ValueError, TypeError, E.ERC20RegistrationForbidden] if bad else [])
        if not self.judge(c, rec, 'C14', allowed, illegal=('registered',)):
            return [c.status, c.name()]
        if bad:
            if c.ok or c.posts:
                self.viol(['C14', 'C21'], 'accepted-bad:%s' % bad, 'a registration with %s was not refused' % bad, rec)
            return ['refused']
        self.error_facts(c, rec, 'C14', E.ERC20RegistrationForbidden, address=[str(val)])
        if foreign and str(val) not in self.owned(w, seedno, c=c) and (c.ok or c.posts):
            self.viol('C14', 'foreign', 'an address of somebody else was registered', rec)

        def check(tx):
            uh = pk_uh(tx.pk) if tx.version == 210 else None
            if tx.version != 210 or tx.regfee != 10 * TFT:
                self.viol('C14', 'registration-fee', 'version %d with fee %s' % (tx.version, getattr(tx, 'regfee', None)), rec)
                return
            owned = self.owned(w, seedno)
            if uh not in owned:
                self.viol('C14', 'registration-key', 'the registered key is not owned', rec)
            if isinstance(val, (str, UnlockHash)) and uh != str(val):
                self.viol('C14', 'registration-address', 'registered %s instead of %s' % (uh, val), rec)
            if val is None and uh in before:
                self.viol('C14', 'registration-new', 'no new key was generated', rec)
            if isinstance(val, int) and not self.gaps(w, seedno) and uh != keys.wkey(keys.seed_of(sim.spec['seed'], seedno), val).uh:
                self.viol('C14', 'registration-index', 'registered another address than number %d' % val, rec)
            got = str(ERC20Address.from_unlockhash(UnlockHash.from_json(uh)))
            if got.lower() != erc20_of(uh).lower():
                self.viol('C14', 'predicted', 'predicted ERC20 address %s, the chain derives %s' % (got, erc20_of(uh)), rec)
        return self.finish(sim, actor, rec, op, c, w, seedno, 0, lambda tx: [], None, 10 * TFT, 'C14', check)

    def info_tuple(self, i):
        return (str(i.address_tft), str(i.address_erc20).lower(), i.confirmations)

    def op_erc20_get(self, sim, actor, rec, op):
        val = self.resolve(op.get('value'))
        if op.get('via') == 'client':
            cl = self.client_of(sim, actor, op)
            if cl is None:
                return 'no client'
            uh = str(val)
            c = Call(sim, rec, lambda: cl.erc20.address_get(val))
            own = True
        else:
            w = self.wallet(actor, op)
            if w is None:
                return 'no wallet'
            seedno = self.seedno(actor, op)
            c = Call(sim, rec, lambda: w.erc20.address_get(val) if val is not None else w.erc20.address_get())
            owned = self.owned(w, seedno)
            uh = w.address if val is None else str(val)
            if isinstance(val, int):
                if self.gaps(w, seedno):
                    return [c.status, c.name()]
                uh = keys.wkey(keys.seed_of(sim.spec['seed'], seedno), val).uh
            own = uh in owned
        if not self.judge(c, rec, 'C14', [] if own else [ValueError] if isinstance(val, int) else [E.AddressNotInWallet], submits=False):
            return [c.status, c.name()]
        self.error_facts(c, rec, 'C14', E.AddressNotInWallet, address=[uh])
        if c.ok:
            exp = [(uh, erc20_of(uh).lower(), v.height - v.base.erc20[uh]) for v in c.views if uh in v.base.erc20]
            if not own or self.info_tuple(c.value) not in exp:
                self.viol(['C14', 'C17'], 'info', 'registration %s instead of %s' % (self.info_tuple(c.value), exp[:2]), rec)
            return ['ok', list(self.info_tuple(c.value))]
        if isinstance(c.exc, E.ExplorerNoContent) and c.views and all(uh in v.base.erc20 for v in c.views):
            self.viol(['C14', 'C17'], 'info-missing', 'the registered address %s was not found' % uh, rec)
        return [c.status, c.name()]

    def op_erc20_list(self, sim, actor, rec, op):
        w = self.wallet(actor, op)
        if w is None:
            return 'no wallet'
        c = Call(sim, rec, lambda: w.erc20.addresses_get(), pre=self.keys_before(w, self.seedno(actor, op)))
        if not self.judge(c, rec, 'C14', submits=False):
            return [c.status, c.name()]
        if c.ok:
            got = sorted(self.info_tuple(x) for x in c.value)
            if c.stable and c.view is not None:
                v = c.view
                exp = sorted((u, erc20_of(u).lower(), v.height - v.base.erc20[u]) for u in self.owned(w, self.seedno(actor, op), c=c) if u in v.base.erc20)
                if got != exp:
                    self.viol('C14', 'list', 'registered addresses listed %s, the chain has %s' % (got, exp), rec)
            return ['ok', got]
        return [c.status, c.name()]

    # ------------------------------------------------------------ draining
    def op_drain(self, sim, actor, rec, op):
        w = self.wallet(actor, op)
        if w is None:
            return 'no wallet'
        seedno = self.seedno(actor, op)
        c = Call(sim, rec, lambda: w.balance)
        if not self.judge(c, rec, 'C04', submits=False) or not c.ok:
            return [c.status, c.name()]
        bal = c.value
        owned = self.owned(w, seedno)
        target = bal
        addrs = list(owned)
        if op.get('ms'):
            mu = self.resolve(op['ms'])
            target = bal.wallets.get(mu)
            addrs = [mu]
            if target is None:
                return ['no such wallet']
        if not c.stable or c.view is None:
            return ['moving']
        v = c.view
        fee = sim.world.minfee
        data = op.get('data')
        kw = {}
        if data is not None:
            kw['data'] = data
        if op.get('lock') is not None:
            kw['lock'] = self.resolve(op['lock'])
        unc = bool(op.get('unconfirmed'))
        if unc:
            kw['unconfirmed'] = True
        want_arb = data.encode() if isinstance(data, str) else (data or b'')
        t0 = sim.local_time()
        to = self.resolve(op['to'])
        d = Call(sim, rec, lambda: target.drain(to, w.client.minimum_miner_fee, **kw))
        if d.exc is not None:
            self.viol('C18', 'drain-error:%s' % d.name(), 'draining raised %r\n%s' % (d.exc, d.tb), rec)
            return ['err']
        if d.attempts:
            pass
        exp = {}
        for a in addrs:
            for oid, (val, cond, st) in v.fold(a).items():
                if st == 'available' or unc and st == 'unconfirmed':
                    exp[oid] = val
        seen = []
        txs = []
        for t in d.value:
            tx = self.lib_tx(t, rec)
            if tx is None:
                return ['err']
            txs.append(tx)
            ids = [x.pid for x in tx.inputs]
            seen += ids
            if not 1 <= len(ids) <= 99:
                self.viol('C18', 'inputs', '%d inputs in a drain transaction' % len(ids), rec)
            bad = [i for i in ids if i not in exp]
            if bad:
                self.viol('C18', 'not-drainable', 'draining spends %s, which is not available' % bad[:3], rec)
                return ['err']
            total = sum(exp[i] for i in ids)
            w0 = self.locked_want(sim, rec, tx, total - fee, op['to'], op.get('lock'), t0)
            if w0 is None:
                self.viol('C18', 'lock', 'wrong lock', rec)
                return ['err']
            got = [(o.value, o.cond.key()) for o in tx.outputs]
            if got != [(w0[0], w0[1].key())] or tx.fees != [fee] or tx.arb != want_arb:
                self.viol('C18', 'payment', 'a drain transaction pays %s, fees %s, data %r instead of %s' % (got, tx.fees, tx.arb, w0[0]), rec)
                return ['err']
        if len(set(seen)) != len(seen):
            self.viol('C18', 'twice', 'an output is drained twice', rec)
        left = [i for i in exp if i not in seen]
        # what can be left: batches of at most 99 outputs, none of them worth its miner fee
        if left and sum(exp[i] for i in left) > fee * -(-len(left) // 99):
            self.viol('C18', 'left', '%d outputs worth %d are not drained' % (len(left), sum(exp[i] for i in left)), rec)
        if sim.violations:
            return ['err']
        can = all(can_fulfil([find_output(sim, c, x.pid).cond for x in tx.inputs], owned) for tx in txs)
        done = 0
        for t, tx in zip(d.value, txs):
            doc = json.dumps(t.json())
            submit = op.get('submit', True)
            kw = {} if submit else {'submit': False}
            s = Call(sim, rec, lambda: w.transaction_sign(t if op.get('id', 0) % 2 else doc, **kw))
            s.v0 = c.v0     # what an earlier view offered may be gone by now: the explorer refuses it then
            if not self.judge(s, rec, 'C18', illegal=('nonstandard',) if op.get('bad') else (), submits=submit):
                return ['err']
            there = s.view is not None and all(x.pid in s.view.state.outs for x in tx.inputs)     # not undone by a reorganisation
            if submit and s.ok and can and there and not s.value.submitted and s.stable and not s.faulty:
                self.viol('C18', 'not-submitted', 'a signed drain transaction was not submitted', rec)
            if s.ok and not s.value.submitted:
                sim.shared['doc:%s.%d' % (op.get('label', rec.i), done)] = json.dumps(s.value.transaction.json())
            done += 1
        return ['ok', len(txs), len(seen)]

    # ------------------------------------------------------------ explorer queries
    def client_of(self, sim, actor, op):
        cl = actor.mem.get('CL')
        if cl is None:
            w = self.wallet(actor, op)
            cl = actor.mem['CL'] = w.client if w is not None and op.get('id', 0) % 2 else self.client(sim, actor, op)
        return cl

    def block_ref(self, v, b):
        return (b.id, b.parent.id if b.parent else '00' * 32, b.height, b.time, [t.id for t in b.txs],
                list(zip(b.payout_ids(), [x for x, _ in b.payouts], [u for _, u in b.payouts])))

    def same_txn(self, rec, t, v, ref, block, what):
        """explorer transaction object versus the chain"""
        try:
            tx = Tx(json.loads(json.dumps(t.json())), complete=False)
        except Exception as e:
            self.viol(['C17', 'C16'], 'txn-json:v%d' % ref.version, '%s: transaction %s does not serialise: %r' % (what, ref.id, e), rec)
            return False
        if str(t.id) != ref.id or tx.binary() != ref.binary():
            self.viol(['C17', 'C16'], 'txn:v%d' % ref.version, '%s: transaction %s is reported as %s\n%s' % (what, ref.id, t.id, json.dumps(tx.j)[:1200]), rec)
            return False
        bad = access.differ(t, ref)
        if bad:
            self.viol(['C17', 'C16'], 'txn-prop:v%d' % ref.version, '%s: transaction %s: %s' % (what, ref.id, '; '.join(bad)[:600]), rec)
            return False
        exp_h = block.height if block is not None else None
        if bool(t.unconfirmed) != (block is None) or (block is not None and t.height != exp_h) or (block is None and t.height >= 0):
            self.viol('C17', 'txn-height', '%s: transaction %s at %s is reported at %s (unconfirmed %s)' % (what, ref.id, exp_h, t.height, t.unconfirmed), rec)
            return False
        for i, x in enumerate(ref.inputs):
            o = v.state.outs.get(x.pid)
            po = t.coin_inputs[i].parent_output
            if o is not None and (po is None or units(po.value) != o[0].value or str(po.id) != x.pid or
                                  Cond(json.loads(json.dumps(po.condition.json()))).key() != o[0].cond.key()):
                self.viol('C17', 'txn-parent', '%s: wrong parent output of input %d of %s' % (what, i, ref.id), rec)
                return False
        for i in range(len(ref.outputs)):
            if str(t.coin_outputs[i].id) != ref.coin_id(i):
                self.viol('C17', 'txn-output-id', '%s: wrong id of output %d of %s' % (what, i, ref.id), rec)
                return False
        for i, x in enumerate(ref.bsin):
            o = v.state.bsouts.get(x.pid)
            po = t.blockstake_inputs[i].parent_output
            if o is not None and (po is None or int(po.value) != o[0].value or str(po.id) != x.pid or
                                  Cond(json.loads(json.dumps(po.condition.json()))).key() != o[0].cond.key()):
                self.viol('C17', 'txn-bs-parent', '%s: wrong parent output of block stake input %d of %s' % (what, i, ref.id), rec)
                return False
        for i in range(len(ref.bsout)):
            if str(t.blockstake_outputs[i].id) != ref.bs_id(i):
                self.viol('C17', 'txn-bs-id', '%s: wrong id of block stake output %d of %s' % (what, i, ref.id), rec)
                return False
        return True

    def op_chain_info(self, sim, actor, rec, op):
        cl = self.client_of(sim, actor, op)
        if cl is None:
            return 'no client'
        c = Call(sim, rec, lambda: cl.blockchain_info_get())
        if not self.judge(c, rec, 'C17', submits=False) or not c.ok:
            return [c.status, c.name()]
        i = c.value
        got = (str(i.blockid), i.height, i.timestamp)
        if got not in [(v.tip.id, v.height, v.time) for v in c.views]:
            self.viol('C17', 'info', 'chain info %s is no tip shown' % (got,), rec)
        return ['ok', list(got)]

    def op_block_get(self, sim, actor, rec, op):
        cl = self.client_of(sim, actor, op)
        if cl is None:
            return 'no client'
        v0 = sim.world.nodes[0].view()
        h = op['height'] % (v0.height + 1)
        by = op.get('by', 'height')
        arg = h if by == 'height' else v0.tip.chain[h].id
        if op.get('unknown'):
            arg = v0.height + 1000 + op['height'] if by == 'height' else enc.b2(b'x%d' % op['height']).hex()
        bad = op.get('bad')
        if bad:
            arg = damage_text(v0.tip.chain[h].id, bad, op.get('x', 0))
        elif by == 'hash':
            arg = Hash(value=arg)
        c = Call(sim, rec, lambda: cl.block_get(arg))
        if not self.judge(c, rec, 'C17', [ValueError, TypeError] if bad else [], submits=False):
            return [c.status, c.name()]
        if bad:
            return [c.status, c.name()]
        if not c.ok:
            known = [arg <= v.height if by == 'height' else any(x.id == str(arg) for x in v.tip.chain) for v in c.views]
            if all(known) or not any(known):
                self.unknown(c, rec, op, not any(known))
            return [c.status, c.name()]
        b = c.value
        if op.get('unknown'):
            self.viol(['C17', 'C07'], 'phantom', 'an unknown block was returned', rec)
            return ['err']
        v = c.view
        cand = [v.tip.chain[h]] if by == 'height' else [x for x in v.tip.chain if x.id == str(arg)]
        if not cand or by == 'height' and h > v.height:
            return ['ok']
        r = cand[0]
        got = (str(b.id), str(b.parentid), b.height, b.timestamp, [str(t.id) for t in b.transactions],
               [(str(p.id), units(p.value), str(p.unlockhash)) for p in b.miner_payouts])
        if got != self.block_ref(v, r):
            self.viol('C17', 'block', 'block %s is reported as %s' % (self.block_ref(v, r), got), rec)
            return ['err']
        for t, ref in zip(b.transactions, r.txs):
            if not self.same_txn(rec, t, v, ref, r, 'block_get'):
                return ['err']
        return ['ok', str(b.id)]

    def unknown(self, c, rec, op, absent):
        if absent and not c.faulty and c.views:
            if not isinstance(c.exc, E.ExplorerNoContent):
                if rec.kind == 'block_get' and op.get('by', 'height') == 'height' and isinstance(c.exc, E.ExplorerError):
                    return      # a height beyond the chain is answered with a server error
                self.viol('C17', 'unknown:%s:%s' % (rec.kind, c.name()), 'asking for something unknown gave %r' % (c.exc,), rec)
        elif isinstance(c.exc, E.ExplorerNoContent) and not absent and not c.faulty:
            self.viol('C17', 'denied:%s' % rec.kind, 'no content was reported for something the explorer knows', rec)

    def op_tx_get(self, sim, actor, rec, op):
        cl = self.client_of(sim, actor, op)
        if cl is None:
            return 'no client'
        node = sim.world.nodes[op.get('x', 0) % len(sim.world.nodes)]
        txs = list(node.view().all_txs())
        if op.get('v') is not None:     # one of a kind, if there is one
            kind = op['v']
            txs = [x for x in txs if (x[0].bsin or x[0].bsout if kind == 'bs' else x[0].version == kind)] or txs
        ref, _ = txs[op.get('x', 0) % len(txs)] if not op.get('label') else (None, None)
        tid = ref.id if ref is not None else self.resolve('~tx:' + op['label'])
        if op.get('last'):
            tid = txs[-1 - op.get('x', 0) % min(len(txs), 4)][0].id
        if op.get('unknown'):
            tid = enc.b2(b'y%d' % op.get('x', 0)).hex()
        if tid is None:
            return 'nothing'
        bad = op.get('bad')
        arg = damage_text(tid, bad, op.get('x', 0)) if bad else (Hash(value=tid) if op.get('x', 0) % 3 == 1 else bytes.fromhex(tid) if op.get('x', 0) % 3 == 2 else tid)
        c = Call(sim, rec, lambda: cl.transaction_get(arg))
        if not self.judge(c, rec, 'C17', [ValueError, TypeError] if bad else [], submits=False):
            return [c.status, c.name()]
        if bad:
            if c.ok and str(c.value.id) != arg:
                self.viol('C21', 'wrong-txn', 'transaction %s returned for %s' % (c.value.id, arg), rec)
            return [c.status, c.name()]
        if not c.ok:
            self.unknown(c, rec, op, all(v.find_tx(tid) is None for v in c.views))
            return [c.status, c.name()]
        f = c.view.find_tx(tid)
        if f is None:
            self.viol(['C17', 'C07'], 'phantom', 'an unknown transaction was returned', rec)
            return ['err']
        self.same_txn(rec, c.value, c.view, f[0], f[1], 'transaction_get')
        self.judge_identity(c.value, rec)
        return ['ok', tid]

    def op_output_get(self, sim, actor, rec, op):
        cl = self.client_of(sim, actor, op)
        if cl is None:
            return 'no client'
        bs = op.get('kind') == 'bs'
        v0 = sim.world.nodes[0].view()
        pool = sorted(v0.base.bsouts if bs else v0.base.outs)
        if not pool:
            return 'nothing'
        x = op.get('x', 0)
        sp = [o for o in pool if o in v0.base.spent]
        if op.get('same_block') and not bs:
            sp = [o for o in sp if (lambda a, b: a and b and a[1] is b[1])(v0.find_tx(v0.base.outs[o][1]), v0.find_tx(v0.base.spent[o]))]
        oid = sp[x % len(sp)] if op.get('spent') and sp else pool[x % len(pool)]
        if op.get('wrong'):
            other = sorted(v0.base.outs if bs else v0.base.bsouts)
            oid = other[x % len(other)] if other else enc.b2(b'q').hex()
        if op.get('unknown'):
            oid = enc.b2(b'z%d' % x).hex()
        bad = op.get('bad')
        arg = damage_text(oid, bad, x) if bad else Hash(value=oid) if x % 2 else oid
        c = Call(sim, rec, lambda: cl.blockstake_output_get(arg) if bs else cl.coin_output_get(arg))
        if not self.judge(c, rec, 'C17', ([ValueError, TypeError] if bad else []) + ([E.ExplorerInvalidResponse] if op.get('wrong') else []), submits=False) and not op.get('wrong'):
            return [c.status, c.name()]
        if bad:
            if c.ok:
                self.viol('C21', 'wrong-output', 'an output was returned for the damaged id %s' % arg, rec)
            return [c.status, c.name()]
        outs = [(v, (v.base.bsouts if bs else v.base.outs).get(oid)) for v in c.views]
        if not c.ok:
            if not op.get('wrong'):
                self.unknown(c, rec, op, all(o is None for _, o in outs))
            return [c.status, c.name()]
        v, o = outs[-1]
        if o is None:
            self.viol(['C17', 'C07'], 'phantom', 'an unknown output was returned', rec)
            return ['err']
        out, cre, spe = c.value
        if str(out.id) != oid or units_out(out.value, bs) != o[0].value or Cond(json.loads(json.dumps(out.condition.json()))).key() != o[0].cond.key():
            self.viol('C17', 'output', 'output %s is reported as %s of %s' % (oid, out.id, out.value), rec)
            return ['err']
        f = v.find_tx(o[1])
        if not self.same_txn(rec, cre, v, f[0], f[1], 'output_get creation'):
            return ['err']
        s = v.base.spent.get(oid)
        if (spe is None) != (s is None):
            self.viol('C17', 'output-spent', 'output %s: spending transaction %s is reported as %s' % (oid, s, spe), rec)
            return ['err']
        if s is not None:
            f = v.find_tx(s)
            self.same_txn(rec, spe, v, f[0], f[1], 'output_get spend')
        return ['ok', oid]

    def op_uh_get(self, sim, actor, rec, op):
        cl = self.client_of(sim, actor, op)
        if cl is None:
            return 'no client'
        uh = self.resolve(op['target'])
        u = self.cond_of_recipient(op['target']).uh if not isinstance(uh, str) else uh
        bad = op.get('bad')
        if bad:
            uh = damage_text(uh, bad, op.get('x', 0))
        c = Call(sim, rec, lambda: cl.unlockhash_get(uh))
        if not self.judge(c, rec, 'C17', [ValueError, TypeError] if bad else [], submits=False):
            return [c.status, c.name()]
        if bad:
            if c.ok:
                self.viol('C21', 'uh-accepted', 'the damaged address %s was accepted' % uh, rec)
            return [c.status, c.name()]

        def known(v):
            return bool(v.txs_of(u) or v.multisigs_of(u) or u in v.base.erc20)
        if not c.ok:
            self.unknown(c, rec, op, all(not known(v) for v in c.views))
            return [c.status, c.name()]
        v, r = c.view, c.value
        want = v.txs_of(u)
        ids = [str(t.id) for t in r.transactions]
        if sorted(ids) != sorted(t.id for t, _ in want):
            self.viol('C17', 'uh-transactions', 'transactions of %s: %s instead of %s' % (u, ids[:4], [t.id for t, _ in want][:4]), rec)
            return ['err']
        hs = [10 ** 9 if t.unconfirmed else t.height for t in r.transactions]
        if hs != sorted(hs, reverse=True):
            self.viol('C17', 'uh-order', 'transactions are not newest first: %s' % hs, rec)
        m = {t.id: (t, b) for t, b in want}
        for t in r.transactions:
            ref, b = m[str(t.id)]
            if not self.same_txn(rec, t, v, ref, b, 'unlockhash_get'):
                return ['err']
        if str(r.unlockhash) != u or sorted(str(x) for x in r.multisig_addresses) != sorted(v.multisigs_of(u)):
            self.viol('C17', 'uh-info', 'address %s with multisigs %s instead of %s' % (r.unlockhash, r.multisig_addresses, sorted(v.multisigs_of(u))), rec)
        e = v.base.erc20.get(u)
        if (r.erc20_info is None) != (e is None) or e is not None and self.info_tuple(r.erc20_info) != (u, erc20_of(u).lower(), v.height - e):
            self.viol(['C17', 'C14'], 'uh-erc20', 'ERC20 information of %s is %s' % (u, r.erc20_info and self.info_tuple(r.erc20_info)), rec)
        if op.get('balance'):
            b = Call(sim, rec, lambda: r.balance())
            if self.judge(b, rec, 'C04', submits=False) and b.ok and b.stable and b.views and b.view is v:
                self.match_outputs(rec, 'C04', 'address', b.value, [u], [v], b.value.chain_height, b.value.chain_time, None)
        return ['ok', sorted(ids)]


# ---------------------------------------------------------------- helpers
def units_of_arg(a):
    if isinstance(a, int):
        return a * TFT
    if isinstance(a, str):
        from decimal import Decimal
        return int(Decimal(a.lower().replace('tft', '').strip()) * TFT)
    return units(a)


def lasting(n):
    out = ''
    for k, x in (('d', 86400), ('h', 3600), ('m', 60), ('s', 1)):
        out += '%d%s' % (n // x, k) if n >= x else ''
        n %= x
    return out


def units_out(v, bs):
    if bs:
        return int(v.json()) if hasattr(v, 'json') else int(v)
    return units(v)


def damage_doc(j, how, x):
    """damage one signature or public key text, or a part that cannot be missed, in a document; returns what was damaged"""
    if how in ('lack', 'null', 'blank', 'retype'):
        from .answers import raw_paths
        kind = {'lack': 'drop', 'null': 'nullify'}.get(how, how)
        doc = {'transactions': [{'rawtransaction': j}]}
        spots = raw_paths('', doc, kind)
        if not spots:
            return None
        p = spots[x % len(spots)]
        o = doc
        for q in p[:-1]:
            o = o[q]
        if how == 'lack':
            del o[p[-1]]
        else:
            o[p[-1]] = {'null': None, 'blank': ''}.get(how, {'a': 1} if isinstance(o[p[-1]], str) else 'zz?')
        return '%s %s' % (how, '.'.join(str(q) for q in p[3:]))
    spots = []

    def walk(o, path):
        if isinstance(o, dict):
            for k in sorted(o):
                if k in ('signature', 'publickey', 'pubkey') and isinstance(o[k], str) and len(o[k]) > 20 and o[k][0] != ':':
                    spots.append((o, k))
                else:
                    walk(o[k], path + [k])
        elif isinstance(o, list):
            for i, e in enumerate(o):
                walk(e, path + [i])
    walk(j, [])
    if not spots:
        return None
    o, k = spots[x % len(spots)]
    # no text at all is how a part that is not signed yet looks
    o[k] = damage_text(o[k], how, x >> 3) or o[k][:1]
    return '%s %s' % (how, k)
