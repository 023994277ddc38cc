"""Independent encoders for TFChain transactions, working on the JSON wire form.

Nothing in here imports the library under test.  Everything is written from the
Rivine/TFChain consensus encoding rules and checked against vectors of the real
network (see selftest.py).  Malformed input raises BadTx.
"""
import base64
import hashlib
import ipaddress
import re
from functools import lru_cache


class BadTx(Exception):
    pass


def need(cond, msg):
    if not cond:
        raise BadTx(msg)


def b2(data):
    return hashlib.blake2b(bytes(data), digest_size=32).digest()


# ---------------------------------------------------------------- primitives
def i8(n):
    return int(n).to_bytes(8, 'little')


def s_slice(b):
    return i8(len(b)) + bytes(b)


def be(n):
    n = int(n)
    return n.to_bytes((n.bit_length() + 7) // 8, 'big')


def s_cur(n):
    return s_slice(be(n))


def r_len(n):
    if n < 1 << 7:
        return bytes([n << 1])
    if n < 1 << 14:
        return (1 | n << 2).to_bytes(2, 'little')
    if n < 1 << 21:
        return (3 | n << 3).to_bytes(3, 'little')
    return (7 | n << 3).to_bytes(4, 'little')


def r_slice(b):
    return r_len(len(b)) + bytes(b)


def r_cur(n):
    return r_slice(be(n))


def hx(s, size=None, what='hex'):
    need(isinstance(s, str), '%s is not a string' % what)
    try:
        b = bytes.fromhex(s)
    except ValueError:
        raise BadTx('%s is not hexadecimal' % what)
    need(len(b) * 2 == len(s), '%s is not canonical hexadecimal' % what)
    if size is not None:
        need(len(b) == size, '%s has %d bytes instead of %d' % (what, len(b), size))
    return b


def cur(v):
    need(isinstance(v, str) and v.isdigit() and (v == '0' or v[0] != '0'),
         'currency %r is not a decimal string' % (v,))
    return int(v)


def u64(v, what):
    need(isinstance(v, int) and not isinstance(v, bool) and 0 <= v < 1 << 64, '%s: not an uint64: %r' % (what, v))
    return v


# ---------------------------------------------------------------- unlock hashes
NIL_UH = '00' * 39


def uh_checksum(raw33):
    return b2(raw33)[:6]


def uh_text(t, h):
    raw = bytes([t]) + bytes(h)
    if t == 0:
        return NIL_UH
    return (raw + uh_checksum(raw)).hex()


@lru_cache(maxsize=65536)
def uh_raw(text):
    """text form -> 33 raw bytes"""
    b = hx(text, 39, 'unlock hash')
    if b[0] == 0:
        need(b == bytes(39), 'nil unlock hash has content')
        return b[:33]
    need(uh_checksum(b[:33]) == b[33:], 'unlock hash checksum mismatch')
    return b[:33]


NIL_PK = ':' + '0' * 64


def pk_bytes(text, complete=True):
    if not complete and (not text or text == NIL_PK):
        return None
    need(isinstance(text, str), 'public key is not a string')
    parts = text.split(':')
    need(len(parts) == 2 and parts[0] == 'ed25519', 'public key has no known algorithm: %r' % (text,))
    return hx(parts[1], 32, 'public key')


def pk_sia(b):
    if b is None:
        return bytes(16) + s_slice(bytes(32))
    return b'ed25519' + bytes(9) + s_slice(b)


def pk_riv(b):
    if b is None:
        return bytes(33)
    return b'\x01' + b


@lru_cache(maxsize=65536)
def pk_uh(b):
    return uh_text(1, b2(s_slice(pk_sia(b))))


def erc20_of(uh):
    """ERC20 address derived by the chain from a (type 01) unlock hash"""
    return '0x' + b2(uh_raw(uh))[-20:].hex()


# ---------------------------------------------------------------- merkle root
def merkle(leaves):
    """Root of a tree where every left subtree holds the biggest power of two
    smaller than the number of leaves (recursive formulation)."""
    n = len(leaves)
    if n == 1:
        return b2(b'\x00' + leaves[0])
    k = 1
    while k * 2 < n:
        k *= 2
    return b2(b'\x01' + merkle(leaves[:k]) + merkle(leaves[k:]))


# ---------------------------------------------------------------- conditions
class Cond:
    __slots__ = ('type', 'd', '_uh', 'inner')

    def __init__(self, j):
        need(isinstance(j, dict), 'condition is not an object')
        extra = set(j) - {'type', 'data'}
        need(not extra, 'condition has unknown members %s' % sorted(extra))
        t = j.get('type', 0)
        d = j.get('data') or {}
        need(isinstance(d, dict), 'condition data is not an object')
        self.type, self.d, self._uh, self.inner = t, d, None, None
        if t == 0:
            need(not d, 'nil condition with data')
        elif t == 1:
            uh_raw(d.get('unlockhash'))
            need(len(d) == 1, 'unlockhash condition has unknown members')
        elif t == 2:
            uh_raw(d.get('sender'))
            uh_raw(d.get('receiver'))
            hx(d.get('hashedsecret'), 32, 'hashed secret')
            u64(d.get('timelock'), 'time lock')
            need(len(d) == 4, 'atomic swap condition has unknown members')
        elif t == 3:
            u64(d.get('locktime'), 'lock time')
            self.inner = Cond(d.get('condition'))
            need(self.inner.type in (0, 1, 4), 'lock time wraps condition type %r' % (self.inner.type,))
            need(len(d) == 2, 'lock time condition has unknown members')
        elif t == 4:
            u64(d.get('minimumsignaturecount'), 'signature count')
            need(isinstance(d.get('unlockhashes'), list), 'multisig without owners')
            for u in d['unlockhashes']:
                uh_raw(u)
            need(len(d) == 2, 'multisig condition has unknown members')
        else:
            raise BadTx('unknown condition type %r' % (t,))

    def base(self):
        return self.inner if self.type == 3 else self

    @property
    def lock(self):
        return self.d['locktime'] if self.type == 3 else 0

    def locked(self, height, time):
        v = self.lock
        if v == 0:
            return False
        if v < 500000000:
            return height < v
        return time < v

    def json(self):
        j = {}
        if self.type:
            j['type'] = self.type
            d = dict(self.d)
            if self.type == 3:
                d['condition'] = self.inner.json()
            j['data'] = d
        return j

    def key(self):
        """hashable canonical identity"""
        d = self.d
        if self.type == 0:
            return (0,)
        if self.type == 1:
            return (1, d['unlockhash'])
        if self.type == 2:
            return (2, d['sender'], d['receiver'], d['hashedsecret'], d['timelock'])
        if self.type == 3:
            return (3, d['locktime'], self.inner.key())
        return (4, d['minimumsignaturecount'], tuple(sorted(d['unlockhashes'])))

    @property
    def uh(self):
        if self._uh is None:
            self._uh = self._uh_compute()
        return self._uh

    def _uh_compute(self):
        d = self.d
        if self.type == 0:
            return NIL_UH
        if self.type == 1:
            return d['unlockhash']
        if self.type == 2:
            # both encodings coincide for these fields
            return uh_text(2, b2(s_slice(self._body(False))))
        if self.type == 3:
            return self.inner.uh
        leaves = [i8(len(d['unlockhashes']))]
        leaves += [uh_raw(u) for u in sorted(d['unlockhashes'])]
        leaves.append(i8(d['minimumsignaturecount']))
        return uh_text(3, merkle(leaves))

    def _body(self, riv):
        d = self.d
        if self.type == 0:
            return b''
        if self.type == 1:
            return uh_raw(d['unlockhash'])
        if self.type == 2:
            return uh_raw(d['sender']) + uh_raw(d['receiver']) + hx(d['hashedsecret']) + i8(d['timelock'])
        if self.type == 3:
            return i8(d['locktime']) + bytes([self.inner.type]) + self.inner._body(riv)
        uhs = b''.join(uh_raw(u) for u in d['unlockhashes'])
        n = len(d['unlockhashes'])
        return i8(d['minimumsignaturecount']) + (r_len(n) if riv else i8(n)) + uhs

    def sia(self):
        return bytes([self.type]) + s_slice(self._body(False))

    def riv(self):
        return bytes([self.type]) + r_slice(self._body(True))


class Fulf:
    __slots__ = ('type', 'd')
    NIL_SECRET = bytes(32)

    def __init__(self, j, complete=True):
        need(isinstance(j, dict), 'fulfillment is not an object')
        t = j.get('type', 0)
        d = j.get('data') or {}
        self.type, self.d = t, d
        if t == 1:
            pk_bytes(d.get('publickey'), complete)
            sig_bytes(d.get('signature'), complete)
            need(set(d) <= {'publickey', 'signature'}, 'fulfillment has unknown members')
        elif t == 2:
            pk_bytes(d.get('publickey'), complete)
            sig_bytes(d.get('signature'), complete)
            if d.get('secret'):
                hx(d['secret'], 32, 'secret')
            need(set(d) <= {'publickey', 'signature', 'secret'}, 'fulfillment has unknown members')
        elif t == 3:
            need(isinstance(d.get('pairs') or [], list), 'pairs is not a list')
            for p in d.get('pairs') or []:
                pk_bytes(p.get('publickey'), complete)
                sig_bytes(p.get('signature'), complete)
        else:
            raise BadTx('unknown fulfillment type %r' % (t,))

    def _body(self, riv):
        d = self.d
        sl, pk = (r_slice, pk_riv) if riv else (s_slice, pk_sia)
        if self.type == 1:
            return pk(pk_bytes(d.get('publickey'), False)) + sl(hx(d.get('signature') or ''))
        if self.type == 2:
            sec = hx(d.get('secret') or '', None)
            if not sec:
                sec = self.NIL_SECRET
            return pk(pk_bytes(d.get('publickey'), False)) + sl(hx(d.get('signature') or '')) + sec
        pairs = d.get('pairs') or []
        out = r_len(len(pairs)) if riv else i8(len(pairs))
        for p in pairs:
            out += pk(pk_bytes(p.get('publickey'), False)) + sl(hx(p.get('signature') or ''))
        return out

    def sia(self):
        return bytes([self.type]) + s_slice(self._body(False))

    def riv(self):
        return bytes([self.type]) + r_slice(self._body(True))


def sig_bytes(s, complete):
    b = hx(s or '', None, 'signature')
    if complete:
        need(len(b) == 64, 'signature of %d bytes' % len(b))
    else:
        need(len(b) in (0, 64), 'signature of %d bytes' % len(b))
    return b


# ---------------------------------------------------------------- names / addresses
BOTNAME = re.compile(r'^[A-Za-z][A-Za-z\-0-9]{3,61}[A-Za-z0-9](\.[A-Za-z][A-Za-z\-0-9]{3,55}[A-Za-z0-9])*$')


def botname(s):
    need(isinstance(s, str) and len(s) <= 63 and BOTNAME.match(s), 'bot name %r invalid' % (s,))
    return s.encode()


def netaddr(s):
    need(isinstance(s, str) and s, 'network address %r invalid' % (s,))
    try:
        ip = ipaddress.ip_address(s)
    except ValueError:
        b = s.encode()
        need(len(b) <= 63, 'hostname too long')
        return bytes([len(b) << 2]) + b
    p = ip.packed
    if len(p) == 16 and p[:12] == bytes(10) + b'\xff\xff':
        p = p[12:]
    return bytes([(1 if len(p) == 4 else 2) | len(p) << 2]) + p


def lst(v, what):
    if v is None:
        return []
    need(isinstance(v, list), '%s is not a list' % what)
    return v


# ---------------------------------------------------------------- transactions
SPEC_COIN, SPEC_BS = b'coin output' + bytes(5), b'blstake output' + bytes(2)
SPECS = {
    128: b'minter defin tx\0', 129: b'coin mint tx\0\0\0\0', 144: b'bot register tx\0',
    145: b'bot recupdate tx', 146: b'bot nametrans tx', 208: b'erc20 convert tx',
    209: b'erc20 coingen tx', 210: b'erc20 addrreg tx',
}


class Output:
    __slots__ = ('value', 'cond')

    def __init__(self, j):
        need(isinstance(j, dict), 'output is not an object')
        need(set(j) <= {'value', 'condition'}, 'output has unknown members')
        self.value = cur(j.get('value'))
        self.cond = Cond(j.get('condition') or {})

    def sia(self):
        return s_cur(self.value) + self.cond.sia()

    def riv(self):
        return r_cur(self.value) + self.cond.riv()

    def json(self):
        return {'value': str(self.value), 'condition': self.cond.json()}


class Input:
    __slots__ = ('pid', 'f')

    def __init__(self, j, complete):
        need(isinstance(j, dict), 'input is not an object')
        hx(j.get('parentid'), 32, 'parent id')
        self.pid = j['parentid']
        self.f = Fulf(j.get('fulfillment'), complete)

    def sia(self):
        return hx(self.pid) + self.f.sia()

    def riv(self):
        return hx(self.pid) + self.f.riv()


TOP = {
    0: {'coininputs', 'coinoutputs', 'blockstakeinputs', 'blockstakeoutputs', 'minerfees', 'arbitrarydata'},
    1: {'coininputs', 'coinoutputs', 'blockstakeinputs', 'blockstakeoutputs', 'minerfees', 'arbitrarydata'},
    128: {'nonce', 'mintfulfillment', 'mintcondition', 'minerfees', 'arbitrarydata'},
    129: {'nonce', 'mintfulfillment', 'coinoutputs', 'minerfees', 'arbitrarydata'},
    144: {'addresses', 'names', 'nrofmonths', 'txfee', 'coininputs', 'refundcoinoutput', 'identification'},
    145: {'id', 'addresses', 'names', 'nrofmonths', 'txfee', 'coininputs', 'refundcoinoutput', 'signature'},
    146: {'sender', 'receiver', 'names', 'txfee', 'coininputs', 'refundcoinoutput'},
    208: {'address', 'value', 'txfee', 'coininputs', 'refundcoinoutput'},
    209: {'address', 'value', 'txfee', 'blockid', 'txid'},
    210: {'pubkey', 'tftaddress', 'erc20address', 'signature', 'regfee', 'txfee', 'coininputs', 'refundcoinoutput'},
}


class Tx:
    """A decoded transaction.  complete=False admits missing signatures."""

    def __init__(self, j, complete=True):
        need(isinstance(j, dict), 'transaction is not an object')
        v = j.get('version')
        need(v in TOP, 'unknown transaction version %r' % (v,))
        need(set(j) <= {'version', 'data'}, 'transaction has unknown members')
        d = j.get('data') or {}
        need(isinstance(d, dict), 'transaction data is not an object')
        extra = set(d) - TOP[v]
        need(not extra, 'transaction data has unknown members %s' % sorted(extra))
        self.version, self.j, self.d = v, j, d
        self.inputs, self.outputs, self.bsin, self.bsout, self.fees = [], [], [], [], []
        self.arb = b''
        self._id = None
        try:
            getattr(self, '_p%d' % v)(d, complete)
        except (AttributeError, TypeError, KeyError) as e:
            raise BadTx('malformed transaction: %r' % (e,))
        self.complete = complete

    # -- parsing
    def _arb(self, d):
        a = d.get('arbitrarydata')
        if a:
            need(isinstance(a, str), 'arbitrary data is not a string')
            try:
                self.arb = base64.b64decode(a, validate=True)
            except ValueError:
                raise BadTx('arbitrary data is not base64')

    def _ins(self, d, c):
        self.inputs = [Input(x, c) for x in lst(d.get('coininputs'), 'coin inputs')]

    def _refund(self, d):
        if d.get('refundcoinoutput') is not None:
            self.outputs = [Output(d['refundcoinoutput'])]

    def _p1(self, d, c):
        self._ins(d, c)
        self.outputs = [Output(x) for x in lst(d.get('coinoutputs'), 'coin outputs')]
        self.bsin = [Input(x, c) for x in lst(d.get('blockstakeinputs'), 'blockstake inputs')]
        self.bsout = [Output(x) for x in lst(d.get('blockstakeoutputs'), 'blockstake outputs')]
        self.fees = [cur(x) for x in lst(d.get('minerfees'), 'miner fees')]
        self._arb(d)

    # version 0, the first transactions of the network: single signatures and plain addresses only
    def _in0(self, l, c):
        r = []
        for x in l:
            need(isinstance(x, dict) and set(x) <= {'parentid', 'unlocker'}, 'malformed version 0 input')
            u = x.get('unlocker')
            need(isinstance(u, dict) and u.get('type') == 1 and set(u) == {'type', 'condition', 'fulfillment'}, 'malformed unlocker')
            need(set(u['condition']) == {'publickey'} and set(u['fulfillment']) == {'signature'}, 'malformed unlocker')
            r.append(Input({'parentid': x.get('parentid'), 'fulfillment': {'type': 1, 'data': {
                'publickey': u['condition']['publickey'], 'signature': u['fulfillment']['signature']}}}, c))
        return r

    def _out0(self, l):
        for x in l:
            need(isinstance(x, dict) and set(x) == {'value', 'unlockhash'}, 'malformed version 0 output')
        return [Output({'value': x['value'], 'condition': {'type': 1, 'data': {'unlockhash': x['unlockhash']}}}) for x in l]

    def _p0(self, d, c):
        self.inputs = self._in0(lst(d.get('coininputs'), 'coin inputs'), c)
        self.outputs = self._out0(lst(d.get('coinoutputs'), 'coin outputs'))
        self.bsin = self._in0(lst(d.get('blockstakeinputs'), 'blockstake inputs'), c)
        self.bsout = self._out0(lst(d.get('blockstakeoutputs'), 'blockstake outputs'))
        self.fees = [cur(x) for x in lst(d.get('minerfees'), 'miner fees')]
        self._arb(d)

    def _nonce(self, d):
        try:
            self.nonce = base64.b64decode(d.get('nonce') or '', validate=True)
        except ValueError:
            raise BadTx('nonce is not base64')
        need(len(self.nonce) == 8, 'nonce of %d bytes' % len(self.nonce))

    def _p128(self, d, c):
        self._nonce(d)
        self.mintf = Fulf(d.get('mintfulfillment'), c)
        self.mintc = Cond(d.get('mintcondition'))
        self.fees = [cur(x) for x in lst(d.get('minerfees'), 'miner fees')]
        self._arb(d)

    def _p129(self, d, c):
        self._nonce(d)
        self.mintf = Fulf(d.get('mintfulfillment'), c)
        self.outputs = [Output(x) for x in lst(d.get('coinoutputs'), 'coin outputs')]
        self.fees = [cur(x) for x in lst(d.get('minerfees'), 'miner fees')]
        self._arb(d)

    def _p144(self, d, c):
        self.addrs = [(x, netaddr(x)) for x in lst(d.get('addresses'), 'addresses')]
        self.names = [(x, botname(x)) for x in lst(d.get('names'), 'names')]
        self.months = u64(d.get('nrofmonths', 0), 'months')
        need(self.months <= 24, 'too many months')
        self.fees = [cur(d.get('txfee'))]
        self._ins(d, c)
        self._refund(d)
        ident = d.get('identification')
        self.pk = pk_bytes(ident.get('publickey'))
        self.sig = sig_bytes(ident.get('signature'), c)

    def _p145(self, d, c):
        self.botid = u64(d.get('id'), 'bot id')
        a, n = d.get('addresses') or {}, d.get('names') or {}
        self.a_add = [(x, netaddr(x)) for x in lst(a.get('add'), 'addresses')]
        self.a_rem = [(x, netaddr(x)) for x in lst(a.get('remove'), 'addresses')]
        self.n_add = [(x, botname(x)) for x in lst(n.get('add'), 'names')]
        self.n_rem = [(x, botname(x)) for x in lst(n.get('remove'), 'names')]
        self.months = u64(d.get('nrofmonths', 0), 'months')
        need(self.months <= 24, 'too many months')
        self.fees = [cur(d.get('txfee'))]
        self._ins(d, c)
        self._refund(d)
        self.sig = sig_bytes(d.get('signature'), c)

    def _p146(self, d, c):
        self.sender, self.receiver = u64(d['sender'].get('id'), 'bot id'), u64(d['receiver'].get('id'), 'bot id')
        self.ssig = sig_bytes(d['sender'].get('signature'), c)
        self.rsig = sig_bytes(d['receiver'].get('signature'), c)
        self.names = [(x, botname(x)) for x in lst(d.get('names'), 'names')]
        self.fees = [cur(d.get('txfee'))]
        self._ins(d, c)
        self._refund(d)

    def _erc(self, s):
        need(isinstance(s, str) and s[:2] == '0x', 'ERC20 address %r' % (s,))
        return hx(s[2:], 20, 'ERC20 address')

    def _p208(self, d, c):
        self.erc = self._erc(d.get('address'))
        self.value = cur(d.get('value'))
        self.fees = [cur(d.get('txfee'))]
        self._ins(d, c)
        self._refund(d)

    def _p209(self, d, c):
        self.addr = d.get('address')
        uh_raw(self.addr)
        self.value = cur(d.get('value'))
        self.fees = [cur(d.get('txfee'))]
        self.blockid = hx(d['blockid'][2:] if d['blockid'][:2] == '0x' else d['blockid'], 32)
        self.txid = hx(d['txid'][2:] if d['txid'][:2] == '0x' else d['txid'], 32)
        self.outputs = [Output({'value': str(self.value), 'condition': {'type': 1, 'data': {'unlockhash': self.addr}}})]

    def _p210(self, d, c):
        self.pk = pk_bytes(d.get('pubkey'))
        self.sig = sig_bytes(d.get('signature'), c)
        self.regfee = cur(d.get('regfee'))
        self.fees = [cur(d.get('txfee'))]
        self._ins(d, c)
        self._refund(d)
        if d.get('tftaddress') is not None:
            need(d['tftaddress'] == pk_uh(self.pk), 'TFT address does not belong to the public key')
        if d.get('erc20address') is not None:
            need(d['erc20address'].lower() == erc20_of(pk_uh(self.pk)), 'ERC20 address does not belong to the public key')

    # -- data encoding (identity)
    def data(self):
        return getattr(self, '_d%d' % self.version)()

    def _s_ins(self):
        return i8(len(self.inputs)) + b''.join(x.sia() for x in self.inputs)

    def _s_outs(self, o):
        return i8(len(o)) + b''.join(x.sia() for x in o)

    def _s_fees(self):
        return i8(len(self.fees)) + b''.join(s_cur(x) for x in self.fees)

    def _r_ins(self):
        return r_len(len(self.inputs)) + b''.join(x.riv() for x in self.inputs)

    def _r_names(self, l):
        return b''.join(r_slice(b) for _, b in l)

    def _r_addrs(self, l):
        return b''.join(b for _, b in l)

    def _opt_refund(self):
        return b'\x01' + self.outputs[0].riv() if self.outputs else b'\x00'

    def _d1(self):
        return (self._s_ins() + self._s_outs(self.outputs) + i8(len(self.bsin)) +
                b''.join(x.sia() for x in self.bsin) + self._s_outs(self.bsout) +
                self._s_fees() + s_slice(self.arb))

    def _d0(self):
        def ins(l):
            return i8(len(l)) + b''.join(hx(x.pid) + b'\x01' + s_slice(pk_sia(pk_bytes(x.f.d['publickey']))) +
                                         s_slice(hx(x.f.d['signature'])) for x in l)

        def outs(l):
            return i8(len(l)) + b''.join(s_cur(o.value) + uh_raw(o.cond.uh) for o in l)
        return (ins(self.inputs) + outs(self.outputs) + ins(self.bsin) + outs(self.bsout) +
                self._s_fees() + s_slice(self.arb))

    def _d128(self):
        return self.nonce + self.mintf.sia() + self.mintc.sia() + self._s_fees() + s_slice(self.arb)

    def _d129(self):
        return self.nonce + self.mintf.sia() + self._s_outs(self.outputs) + self._s_fees() + s_slice(self.arb)

    def _d144(self):
        maf = self.months | (32 if self.addrs else 0) | (64 if self.names else 0) | (128 if self.outputs else 0)
        return (bytes([maf, len(self.addrs) | len(self.names) << 4]) + self._r_addrs(self.addrs) +
                self._r_names(self.names) + r_cur(self.fees[0]) + self._r_ins() +
                (self.outputs[0].riv() if self.outputs else b'') + pk_riv(self.pk) + self.sig)

    def _d145(self):
        hasa, hasn = bool(self.a_add or self.a_rem), bool(self.n_add or self.n_rem)
        maf = self.months | (32 if hasa else 0) | (64 if hasn else 0) | (128 if self.outputs else 0)
        o = int(self.botid).to_bytes(4, 'little') + bytes([maf])
        if hasa:
            o += bytes([len(self.a_add) | len(self.a_rem) << 4]) + self._r_addrs(self.a_add) + self._r_addrs(self.a_rem)
        if hasn:
            o += bytes([len(self.n_add) | len(self.n_rem) << 4]) + self._r_names(self.n_add) + self._r_names(self.n_rem)
        return (o + r_cur(self.fees[0]) + self._r_ins() + (self.outputs[0].riv() if self.outputs else b'') +
                r_slice(self.sig))

    def _d146(self):
        return (int(self.sender).to_bytes(4, 'little') + r_slice(self.ssig) +
                int(self.receiver).to_bytes(4, 'little') + r_slice(self.rsig) +
                bytes([len(self.names) | (16 if self.outputs else 0)]) + self._r_names(self.names) +
                r_cur(self.fees[0]) + self._r_ins() + (self.outputs[0].riv() if self.outputs else b''))

    def _d208(self):
        return self.erc + r_cur(self.value) + r_cur(self.fees[0]) + self._r_ins() + self._opt_refund()

    def _d209(self):
        return uh_raw(self.addr) + r_cur(self.value) + r_cur(self.fees[0]) + self.blockid + self.txid

    def _d210(self):
        return (pk_riv(self.pk) + r_slice(self.sig) + r_cur(self.regfee) + r_cur(self.fees[0]) +
                self._r_ins() + self._opt_refund())

    def binary(self):
        if self.version == 1:
            return b'\x01' + s_slice(self.data())
        return bytes([self.version]) + self.data()

    def _idin(self):
        if self.version == 1:
            return self.binary()
        if self.version == 0:
            return self.data()
        return SPECS[self.version] + self.data()

    @property
    def id(self):
        if self._id is None:
            self._id = b2(b'tx' + self.binary()).hex()
        return self._id

    def fulfillments(self):
        return [x.f for x in self.inputs] + [x.f for x in self.bsin] + ([self.mintf] if self.version in (128, 129) else [])

    def nil_keys(self):
        """some place for a public key is still empty"""
        return any(not any(pk_bytes(k, False) or b'') for f in self.fulfillments() if f.type in (1, 2) for k in [f.d.get('publickey')])

    def nil_secrets(self):
        return any(f.type == 2 and not f.d.get('secret') for f in self.fulfillments())

    def coin_id(self, i):
        return b2(SPEC_COIN + self._idin() + i8(i)).hex()

    def bs_id(self, i):
        return b2(SPEC_BS + self._idin() + i8(i)).hex()

    # -- signature hashes; extra is raw bytes already encoded
    def sighash(self, extra=b''):
        return b2(getattr(self, '_h%d' % self.version)(extra))

    def _pids(self):
        return i8(len(self.inputs)) + b''.join(hx(x.pid) for x in self.inputs)

    def _h1(self, x):
        return (b'\x01' + x + self._pids() + self._s_outs(self.outputs) + i8(len(self.bsin)) +
                b''.join(hx(b.pid) for b in self.bsin) + self._s_outs(self.bsout) + self._s_fees() + s_slice(self.arb))

    def _h0(self, x):
        def ins(l):
            return b''.join(hx(i.pid) + uh_raw(pk_uh(pk_bytes(i.f.d['publickey']))) for i in l)

        def outs(l):
            return i8(len(l)) + b''.join(s_cur(o.value) + uh_raw(o.cond.uh) for o in l)
        return (x + ins(self.inputs) + outs(self.outputs) + ins(self.bsin) + outs(self.bsout) + self._s_fees() + s_slice(self.arb))

    def _h128(self, x):
        return (b'\x80' + SPECS[128] + self.nonce + x + self.mintc.sia() + self._s_fees() + s_slice(self.arb))

    def _h129(self, x):
        return (b'\x81' + SPECS[129] + self.nonce + x + self._s_outs(self.outputs) + self._s_fees() + s_slice(self.arb))

    def _rs(self, l, names):
        return r_len(len(l)) + (self._r_names(l) if names else self._r_addrs(l))

    def _h144(self, x):
        return (b'\x90' + SPECS[144] + x + self._rs(self.addrs, False) + self._rs(self.names, True) +
                bytes([self.months]) + self._pids() + r_cur(self.fees[0]) + self._opt_refund() + pk_riv(self.pk))

    def _h145(self, x):
        return (b'\x91' + SPECS[145] + int(self.botid).to_bytes(4, 'little') + x +
                self._rs(self.a_add, False) + self._rs(self.a_rem, False) +
                self._rs(self.n_add, True) + self._rs(self.n_rem, True) +
                bytes([self.months]) + self._pids() + r_cur(self.fees[0]) + self._opt_refund())

    def _h146(self, x):
        return (b'\x92' + SPECS[146] + int(self.sender).to_bytes(4, 'little') +
                int(self.receiver).to_bytes(4, 'little') + x + self._rs(self.names, True) +
                self._pids() + r_cur(self.fees[0]) + self._opt_refund())

    def _h208(self, x):
        return (b'\xd0' + SPECS[208] + self.erc + r_cur(self.value) + x + self._pids() +
                r_cur(self.fees[0]) + self._opt_refund())

    def _h210(self, x):
        return (b'\xd2' + SPECS[210] + pk_riv(self.pk) + x + self._pids() +
                r_cur(self.regfee) + r_cur(self.fees[0]) + self._opt_refund())

    # -- signature extras
    def pk_extra(self, pkb):
        return pk_sia(pkb) if self.version in (1, 128, 129) else pk_riv(pkb)
