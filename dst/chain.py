"""Reference ledger: the consensus rules of a TFChain network (standard, multisig,
atomic swap, minting, 3Bot and ERC20 transactions) over an explicit block tree.

Independent of the library under test.
"""
import ed25519
from . import enc
from .enc import Tx, Cond, BadTx, pk_uh, i8

TFT = 10 ** 9
MONTH = 30 * 24 * 3600
MAX_INPUTS = 99
MAX_ARB = 83

_SIGCACHE = {}


def sig_ok(pk, sig, h):
    k = (pk, sig, h)
    r = _SIGCACHE.get(k)
    if r is None:
        try:
            ed25519.VerifyingKey(pk).verify(sig, h)
            r = True
        except Exception:
            r = False
        if len(_SIGCACHE) > 20000:
            _SIGCACHE.clear()
        _SIGCACHE[k] = r
    return r


def months_fee(m):
    f = 10 * TFT * m
    if m < 12:
        return f
    if m < 24:
        return f * 7 // 10
    return f // 2


def bot_fee(tx):
    if tx.version == 144:
        n = len(tx.names)
        return months_fee(tx.months) + 90 * TFT + (50 * TFT * (n - 1) if n > 1 else 0)
    if tx.version == 145:
        return (months_fee(tx.months) + (20 * TFT if tx.a_add or tx.a_rem else 0) + 50 * TFT * len(tx.n_add))
    if tx.version == 146:
        return 50 * TFT * len(tx.names)
    return 0


class Bot:
    __slots__ = ('id', 'names', 'addrs', 'pk', 'exp')

    def __init__(self, id, names, addrs, pk, exp):
        self.id, self.names, self.addrs, self.pk, self.exp = id, tuple(names), tuple(addrs), pk, exp

    def with_(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return Bot(**d)


class State:
    __slots__ = ('height', 'time', 'utxo', 'bsu', 'outs', 'bsouts', 'spent', 'bots', 'names', 'pks',
                 'mint', 'erc20', 'burned', 'fees', 'issued', 'nonces')

    def __init__(self):
        self.height, self.time = -1, 0
        self.utxo, self.bsu, self.outs, self.bsouts, self.spent = {}, {}, {}, {}, {}
        self.bots, self.names, self.pks = {}, {}, {}
        self.mint, self.erc20 = [], {}
        self.burned = self.fees = self.issued = 0
        self.nonces = frozenset()

    def copy(self):
        s = State.__new__(State)
        for k in State.__slots__:
            v = getattr(self, k)
            if isinstance(v, dict):
                v = dict(v)
            elif isinstance(v, list):
                v = list(v)
            setattr(s, k, v)
        return s

    def mint_at(self, height=None):
        r = None
        for h, c in self.mint:
            if height is None or h <= height:
                r = c
        return r

    def bot_active(self, b):
        return b.exp > self.time

    # ------------------------------------------------------------ validation
    def validate(self, tx, minfee):
        """-> list of (kind, code, item); kind 'static' does not depend on the
        chain's history, 'state' does."""
        E = []

        def st(code, item=''):
            E.append(('static', code, str(item)))

        def sv(code, item=''):
            E.append(('state', code, str(item)))

        v = tx.version
        if v == 209:
            st('forbidden', 'only the bridge creates version 209')
            return E
        # limits
        if len(tx.inputs) > MAX_INPUTS or len(tx.bsin) > MAX_INPUTS:
            st('inputs', len(tx.inputs))
        if len(tx.arb) > MAX_ARB:
            st('arb', len(tx.arb))
        if not tx.fees or sum(tx.fees) < minfee or any(f <= 0 for f in tx.fees):
            st('fee', tx.fees)
        for i, o in enumerate(tx.outputs):
            if o.value <= 0:
                st('zero-output', i)
            for c in nonstandard(o.cond):
                st('nonstandard', '%d %s' % (i, c))
        for i, o in enumerate(tx.bsout):
            if o.value <= 0:
                st('zero-output', 'bs%d' % i)
        seen = set()
        for x in tx.inputs + tx.bsin:
            if x.pid in seen:
                st('double', x.pid)
            seen.add(x.pid)
        # inputs
        total = 0
        known = True
        for i, x in enumerate(tx.inputs):
            o = self.outs.get(x.pid)
            if o is None:
                sv('missing', x.pid)
                known = False
                continue
            o = o[0]
            total += o.value
            if x.pid not in self.utxo:
                sv('spent', x.pid)
            self._fulfil(o.cond, x.f, tx, i8(i), st, sv, 'input %d' % i)
        for i, x in enumerate(tx.bsin):
            o = self.bsouts.get(x.pid)
            if o is None:
                sv('missing', x.pid)
                continue
            if x.pid not in self.bsu:
                sv('spent', x.pid)
            self._fulfil(o[0].cond, x.f, tx, i8(i), st, sv, 'bsinput %d' % i)
        if tx.bsin or tx.bsout:
            if all(x.pid in self.bsouts for x in tx.bsin):
                if sum(self.bsouts[x.pid][0].value for x in tx.bsin) != sum(o.value for o in tx.bsout):
                    st('bs-sum')
        # sums
        if v not in (128, 129):
            if not tx.inputs and not tx.bsin:
                st('no-inputs')
            out = sum(o.value for o in tx.outputs) + sum(tx.fees) + bot_fee(tx)
            if v == 208:
                out += tx.value
                if tx.value <= 0:
                    st('zero-output', 'erc20 value')
            if v == 210:
                out += tx.regfee
                if tx.regfee != 10 * TFT:
                    st('regfee', tx.regfee)
            if known and out != total:
                st('sum', '%d in, %d out' % (total, out))
        if v == 1:
            pass
        elif v in (128, 129):
            cond = self.mint_at()
            sub = []
            self._fulfil(cond, tx.mintf, tx, None, lambda *a: sub.append(a), lambda *a: sub.append(a), 'mint')
            for s in sub:
                sv('mint', '%s %s' % s)
            if v == 128:
                for c in nonstandard(tx.mintc) or ([] if tx.mintc.type in (1, 4) else ['type %d' % tx.mintc.type]):
                    st('nonstandard', 'mint condition ' + c)
            elif not tx.outputs:
                st('no-outputs')
            if (v, tx.nonce) in self.nonces and tx.id in self.spent:
                sv('duplicate', tx.id)
        elif v == 144:
            self._v144(tx, st, sv)
        elif v == 145:
            self._v145(tx, st, sv)
        elif v == 146:
            self._v146(tx, st, sv)
        elif v == 210:
            if not sig_ok(tx.pk, tx.sig, tx.sighash(b'registration')):
                st('sig', 'registration')
            if pk_uh(tx.pk) in self.erc20:
                sv('registered', pk_uh(tx.pk))
        return E

    def _fulfil(self, cond, f, tx, extra, st, sv, what):
        ex = extra if extra is not None else b''
        if cond.type == 3:
            if cond.locked(self.height, self.time):
                sv('locked', what + ' ' + str(cond.lock))
            cond = cond.inner
        if cond.type in (0, 1):
            if f.type != 1:
                return st('fulfillment', '%s type %d' % (what, f.type))
            pk = enc.hx(f.d['publickey'].split(':')[1])
            if cond.type == 1 and pk_uh(pk) != cond.uh:
                return st('owner', what)
            if not sig_ok(pk, enc.hx(f.d['signature']), tx.sighash(ex)):
                st('sig', what)
        elif cond.type == 2:
            if f.type != 2:
                return st('fulfillment', '%s type %d' % (what, f.type))
            pkt = f.d['publickey']
            pk = enc.hx(pkt.split(':')[1])
            sec = enc.hx(f.d.get('secret') or '')
            if sec == bytes(32):
                sec = b''
            import hashlib
            uh = pk_uh(pk)
            if sec:
                if uh != cond.d['receiver']:
                    return st('owner', what)
                if hashlib.sha256(sec).hexdigest() != cond.d['hashedsecret']:
                    return st('secret', what)
            else:
                if uh != cond.d['sender']:
                    return st('owner', what)
                if self.time < cond.d['timelock']:
                    sv('refund-locked', what)
            if not sig_ok(pk, enc.hx(f.d['signature']), tx.sighash(ex + tx.pk_extra(pk) + sec)):
                st('sig', what)
        elif cond.type == 4:
            if f.type != 3:
                return st('fulfillment', '%s type %d' % (what, f.type))
            owners = list(cond.d['unlockhashes'])
            pairs = f.d.get('pairs') or []
            if len(pairs) < cond.d['minimumsignaturecount']:
                st('signatures', '%s %d of %d' % (what, len(pairs), cond.d['minimumsignaturecount']))
            for p in pairs:
                pk = enc.hx(p['publickey'].split(':')[1])
                u = pk_uh(pk)
                if u not in owners:
                    st('owner', what)
                    continue
                owners.remove(u)
                if not sig_ok(pk, enc.hx(p['signature']), tx.sighash(ex + tx.pk_extra(pk))):
                    st('sig', what)
        else:
            st('fulfillment', what)

    def _limits(self, names, addrs, st, what):
        if len(names) > 5:
            st('names', what)
        if len(addrs) > 10:
            st('addresses', what)
        if len(set(names)) != len(names) or len(set(addrs)) != len(addrs):
            st('duplicates', what)

    def name_owner(self, name):
        b = self.names.get(name)
        if b is None:
            return None
        b = self.bots[b]
        return b.id if self.bot_active(b) else None

    def _v144(self, tx, st, sv):
        self._limits([n for n, _ in tx.names], [a for a, _ in tx.addrs], st, 'registration')
        if not tx.names and not tx.addrs:
            st('empty', 'registration')
        if tx.months < 1:
            st('months', tx.months)
        if not sig_ok(tx.pk, tx.sig, tx.sighash(b'sender')):
            st('sig', 'identification')
        if tx.pk in self.pks:
            sv('bot-key', tx.pk.hex())
        for n, _ in tx.names:
            if self.name_owner(n) is not None:
                sv('bot-name', n)

    def _v145(self, tx, st, sv):
        b = self.bots.get(tx.botid)
        if not (tx.months or tx.a_add or tx.a_rem or tx.n_add or tx.n_rem):
            st('empty', 'update')
        if b is None:
            return sv('bot-unknown', tx.botid)
        if not sig_ok(b.pk, tx.sig, tx.sighash(b'sender')):
            st('sig', 'update')
        names, addrs = list(b.names), list(b.addrs)
        if not self.bot_active(b):
            names = []
            if tx.months == 0:
                sv('bot-inactive', b.id)
        else:
            if b.exp + tx.months * MONTH > self.time + 24 * MONTH + MONTH and tx.months:
                sv('bot-overflow', b.id)
        for a, _ in tx.a_rem:
            if a in addrs:
                addrs.remove(a)
            else:
                sv('bot-address', a)
        for a, _ in tx.a_add:
            if a in addrs:
                sv('bot-address', a)
            addrs.append(a)
        for n, _ in tx.n_rem:
            if n in names:
                names.remove(n)
            else:
                sv('bot-name', n)
        for n, _ in tx.n_add:
            if self.name_owner(n) is not None:
                sv('bot-name', n)
            names.append(n)
        if len(names) > 5 or len(addrs) > 10:
            sv('bot-limits', b.id)

    def _v146(self, tx, st, sv):
        if not tx.names:
            st('empty', 'transfer')
        if len(set(n for n, _ in tx.names)) != len(tx.names):
            st('duplicates', 'transfer')
        if tx.sender == tx.receiver:
            st('same', 'transfer')
        for bid, sig, spec in ((tx.sender, tx.ssig, b'sender'), (tx.receiver, tx.rsig, b'receiver')):
            b = self.bots.get(bid)
            if b is None:
                sv('bot-unknown', bid)
                continue
            if not self.bot_active(b):
                sv('bot-inactive', bid)
            if not sig_ok(b.pk, sig, tx.sighash(spec)):
                st('sig', spec.decode())
        s, r = self.bots.get(tx.sender), self.bots.get(tx.receiver)
        if s:
            for n, _ in tx.names:
                if n not in s.names:
                    sv('bot-name', n)
        if r and len(r.names) + len(tx.names) > 5:
            sv('bot-limits', r.id)

    # ------------------------------------------------------------ transition
    def apply(self, tx, height):
        """apply without validation (setup) or after it"""
        txid = tx.id
        for x in tx.inputs:
            o = self.utxo.pop(x.pid, None)
            self.spent[x.pid] = txid
        for x in tx.bsin:
            self.bsu.pop(x.pid, None)
            self.spent[x.pid] = txid
        if tx.version != 209:
            ids = [tx.coin_id(i) for i in range(len(tx.outputs))]
        else:
            ids = [tx.coin_id(0)]
        for oid, o in zip(ids, tx.outputs):
            self.utxo[oid] = o
            self.outs[oid] = (o, txid)
        for i, o in enumerate(tx.bsout):
            oid = tx.bs_id(i)
            self.bsu[oid] = o
            self.bsouts[oid] = (o, txid)
        self.fees += sum(tx.fees)
        v = tx.version
        if v == 128:
            self.mint.append((height, tx.mintc))
        if v in (128, 129):
            self.nonces |= {(v, tx.nonce)}
            self.spent[txid] = txid
        if v == 129:
            self.issued += sum(o.value for o in tx.outputs) + sum(tx.fees)
        elif v == 144:
            bid = len(self.bots) + 1
            b = Bot(bid, [n for n, _ in tx.names], [a for a, _ in tx.addrs], tx.pk, self.time + tx.months * MONTH)
            self._setbot(b)
        elif v == 145:
            b = self.bots.get(tx.botid)
            if b:
                act = self.bot_active(b)
                names = [n for n in b.names if act and n not in [x for x, _ in tx.n_rem]]
                if not act:
                    for n in b.names:
                        if self.names.get(n) == b.id:
                            del self.names[n]
                else:
                    for n, _ in tx.n_rem:
                        if self.names.get(n) == b.id:
                            del self.names[n]
                names += [n for n, _ in tx.n_add]
                addrs = [a for a in b.addrs if a not in [x for x, _ in tx.a_rem]] + [a for a, _ in tx.a_add]
                exp = b.exp if tx.months == 0 else (max(b.exp, self.time) + tx.months * MONTH)
                self._setbot(b.with_(names=tuple(names), addrs=tuple(addrs), exp=exp))
        elif v == 146:
            s, r = self.bots.get(tx.sender), self.bots.get(tx.receiver)
            if s and r:
                nm = [n for n, _ in tx.names]
                self._setbot(s.with_(names=tuple(n for n in s.names if n not in nm)))
                self._setbot(r.with_(names=r.names + tuple(nm)))
        elif v == 208:
            self.burned += tx.value
        elif v == 209:
            self.issued += tx.value
        elif v == 210:
            self.erc20[pk_uh(tx.pk)] = height

    def _setbot(self, b):
        self.bots[b.id] = b
        self.pks[b.pk] = b.id
        for n in b.names:
            self.names[n] = b.id


def nonstandard(c):
    """reasons why a node would not relay an output with this condition"""
    if c.type == 1:
        t = c.d['unlockhash'][:2]
        if t not in ('01', '02'):
            return ['unlock hash condition of type ' + t]
    elif c.type == 2:
        r = []
        for k in ('sender', 'receiver'):
            if c.d[k][:2] != '01':
                r.append('swap %s of type %s' % (k, c.d[k][:2]))
        if c.d['hashedsecret'] == '00' * 32:
            r.append('empty hashed secret')
        return r
    elif c.type == 3:
        if c.lock == 0:
            return ['lock time 0']
        return nonstandard(c.inner)
    elif c.type == 4:
        n, m = len(c.d['unlockhashes']), c.d['minimumsignaturecount']
        if n < 1 or m < 1 or m > n:
            return ['multisig %d of %d' % (m, n)]
        if len(set(c.d['unlockhashes'])) != n:
            return ['duplicate owners']
        return ['owner of type ' + u[:2] for u in c.d['unlockhashes'] if u[:2] != '01']
    return []


class Block:
    __slots__ = ('id', 'parent', 'height', 'time', 'txs', 'payouts', 'state', 'touch', 'chain', '_anc', 'salt')

    def __init__(self, parent, time, txs, payouts=(), salt=0):
        self.parent = parent
        self.height = parent.height + 1 if parent else 0
        self.time = time
        self.txs = list(txs)
        self.payouts = list(payouts)  # (value, uh)
        self.salt = salt
        h = (bytes.fromhex(parent.id) if parent else bytes(32)) + i8(self.height) + i8(time) + i8(salt)
        for t in self.txs:
            h += bytes.fromhex(t.id)
        self.id = enc.b2(b'block' + h).hex()
        self.chain = (parent.chain if parent else ()) + (self,)
        s = parent.state.copy() if parent else State()
        s.height, s.time = self.height, time
        for t in self.txs:
            s.apply(t, self.height)
        self.state = s
        self.touch = {}
        for i, t in enumerate(self.txs):
            for u in touched(t, s):
                self.touch.setdefault(u, []).append(i)

    def payout_ids(self):
        return [enc.b2(b'payout' + bytes.fromhex(self.id) + i8(i)).hex() for i in range(len(self.payouts))]

    def tx_pos(self, txid):
        for i, t in enumerate(self.txs):
            if t.id == txid:
                return i
        return None

    def has(self, block):
        return len(self.chain) > block.height and self.chain[block.height] is block


def touched(t, state):
    s = set()
    for o in t.outputs + t.bsout:
        s.add(o.cond.uh)
    for x in t.inputs:
        o = state.outs.get(x.pid)
        if o:
            s.add(o[0].cond.uh)
    for x in t.bsin:
        o = state.bsouts.get(x.pid)
        if o:
            s.add(o[0].cond.uh)
    if t.version == 128:
        s.add(t.mintc.uh)
    if t.version == 210:
        s.add(pk_uh(t.pk))
    return s


class View:
    """What one explorer knows at one moment: a tip and a mempool."""
    _cache = {}

    def __init__(self, tip, mempool=()):
        self.tip, self.mempool = tip, tuple(mempool)
        s = tip.state.copy() if self.mempool else tip.state
        for t in self.mempool:
            s.apply(t, tip.height + 1)
        self.state = s          # including the mempool
        self.base = tip.state   # confirmed only
        if self.mempool:
            # what an explorer shows: outputs include the mempool, the mint
            # condition and the 3Bot and ERC20 registries are confirmed ones
            self.shown = s.copy()
            for k in ('mint', 'bots', 'names', 'pks', 'erc20'):
                setattr(self.shown, k, getattr(tip.state, k))
        else:
            self.shown = s
        self._touch = {}

    @classmethod
    def of(cls, tip, mempool):
        k = (tip.id, tuple(t.id for t in mempool))
        v = cls._cache.get(k)
        if v is None or v.tip is not tip:
            if len(cls._cache) > 4000:
                cls._cache.clear()
            v = cls._cache[k] = cls(tip, mempool)
        return v

    @property
    def height(self):
        return self.tip.height

    @property
    def time(self):
        return self.tip.time

    def find_tx(self, txid):
        for b in self.tip.chain:
            i = b.tx_pos(txid)
            if i is not None:
                return b.txs[i], b
        for t in self.mempool:
            if t.id == txid:
                return t, None
        return None

    def txs_of(self, uh):
        """[(tx, block or None)] oldest first"""
        r = self._touch.get(uh)
        if r is None:
            r = []
            for b in self.tip.chain:
                for i in b.touch.get(uh, ()):
                    r.append((b.txs[i], b))
            for t in self.mempool:
                if uh in touched(t, self.state):
                    r.append((t, None))
            self._touch[uh] = r
        return r

    def all_txs(self):
        for b in self.tip.chain:
            for t in b.txs:
                yield t, b
        for t in self.mempool:
            yield t, None

    def multisigs_of(self, uh):
        r = {}
        for oid, (o, _) in self.state.outs.items():
            c = o.cond.base()
            if c.type == 4 and uh in c.d['unlockhashes']:
                r[c.uh] = c
        return r

    def validate(self, tx, minfee):
        return self.shown.validate(tx, minfee)

    # ----- reference balance fold
    def fold(self, uh):
        """-> dict outid -> (value, cond, status) for all outputs ever paid to uh
        with status in available, locked, spent, unconfirmed, unconfirmed_locked, unconfirmed_spent"""
        res = {}
        for t, b in self.txs_of(uh):
            if True:
                for i, o in enumerate(t.outputs):
                    if o.cond.uh == uh:
                        res[t.coin_id(i)] = [o.value, o.cond, b is not None, False, False]
        for t, b in self.txs_of(uh):
            for x in t.inputs:
                if x.pid in res:
                    res[x.pid][3 if b is not None else 4] = True
        out = {}
        for oid, (v, c, conf, sp, usp) in res.items():
            locked = c.locked(self.height, self.time)
            if sp:
                s = 'spent'
            elif usp:
                s = 'unconfirmed_spent'
            elif conf:
                s = 'locked' if locked else 'available'
            else:
                s = 'unconfirmed_locked' if locked else 'unconfirmed'
            out[oid] = (v, c, s)
        return out
