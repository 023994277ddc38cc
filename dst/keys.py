"""Reference key derivation and symbolic addresses."""
from functools import lru_cache
import ed25519
from . import enc
from .enc import b2, i8, pk_uh, Cond


class Key:
    __slots__ = ('sk', 'pk', 'uh')

    def __init__(self, seed32):
        self.sk = ed25519.SigningKey(seed32)
        self.pk = self.sk.get_verifying_key().to_bytes()
        self.uh = pk_uh(self.pk)

    @property
    def pktext(self):
        return 'ed25519:' + self.pk.hex()

    def sign(self, h):
        return self.sk.sign(h).hex()


def seed_of(run_seed, n):
    """the wallet seed number n of a run, mostly 32 bytes but any entropy a mnemonic can stand for will do"""
    s = b2(b'wallet seed %d %d' % (run_seed, n))
    k = s[31]
    if k < 32:
        return s[:(16, 20, 24, 28)[k % 4]]
    if k < 48:
        return bytes(1 + k % 3) + s[:31 - k % 3]    # leading zero bytes
    return s


@lru_cache(maxsize=20000)
def wkey(seed, i):
    return Key(b2(seed + i8(i)))


@lru_cache(maxsize=4000)
def fkey(run_seed, n):
    return Key(b2(b'foreign %d %d' % (run_seed, n)))


class Ring:
    """all private keys of a run; resolves symbols:
       w<seed>.<index>   key of a wallet seed,   f<n>  foreign key"""

    def __init__(self, run_seed):
        self.run = run_seed
        self._by_uh = {}

    def key(self, sym):
        if sym[0] == 'w':
            s, i = sym[1:].split('.')
            k = wkey(seed_of(self.run, int(s)), int(i))
        elif sym[0] == 'f':
            k = fkey(self.run, int(sym[1:]))
        else:
            raise ValueError(sym)
        self._by_uh[k.uh] = k
        return k

    def find(self, uh):
        return self._by_uh.get(uh)

    def uh(self, sym):
        if sym == 'nil':
            return enc.NIL_UH
        if sym.startswith('ms:'):
            return self.cond(sym).uh
        return self.key(sym).uh

    def cond_json(self, sym):
        """sym: key symbol, 'nil', 'ms:2:w0.0,f1', 'lock:<v>:<sym>',
        'swap:<sender>,<receiver>,<hash hex>,<time>'"""
        if sym == 'nil':
            return {}
        if sym.startswith('ms:'):
            _, m, o = sym.split(':')
            return {'type': 4, 'data': {'minimumsignaturecount': int(m), 'unlockhashes': [self.uh(x) for x in o.split(',')]}}
        if sym.startswith('lock:'):
            _, v, rest = sym.split(':', 2)
            return {'type': 3, 'data': {'locktime': int(v), 'condition': self.cond_json(rest)}}
        if sym.startswith('swap:'):
            s, r, h, t = sym[5:].split(',')
            return {'type': 2, 'data': {'sender': self.uh(s), 'receiver': self.uh(r), 'hashedsecret': h, 'timelock': int(t)}}
        return {'type': 1, 'data': {'unlockhash': self.uh(sym)}}

    def cond(self, sym):
        return Cond(self.cond_json(sym))


def blank_fulfilment(ring, c, secret=None, as_sender=False):
    """an unsigned fulfilment of condition c (without its lock)"""
    blank = '00' * 64
    if c.type in (0, 1):
        k = ring.find(c.uh) if c.type == 1 else ring.key('f0')
        return {'type': 1, 'data': {'publickey': k.pktext, 'signature': blank}}
    if c.type == 2:
        k = ring.find(c.d['sender'] if as_sender else c.d['receiver'])
        f = {'type': 2, 'data': {'publickey': k.pktext, 'signature': blank}}
        if not as_sender:
            f['data']['secret'] = secret
        return f
    ks = [ring.find(u) for u in c.d['unlockhashes']]
    ks = [k for k in ks if k][:c.d['minimumsignaturecount']]
    return {'type': 3, 'data': {'pairs': [{'publickey': k.pktext, 'signature': blank} for k in ks]}}


def sign_fulfilment(ring, tx, i, f):
    if f['type'] == 3:
        for p in f['data']['pairs']:
            pk = enc.hx(p['publickey'].split(':')[1])
            p['signature'] = ring.find(pk_uh(pk)).sign(tx.sighash(i8(i) + tx.pk_extra(pk)))
        return
    pk = enc.hx(f['data']['publickey'].split(':')[1])
    ex = i8(i)
    if f['type'] == 2:
        ex += tx.pk_extra(pk) + enc.hx(f['data'].get('secret') or '')
    f['data']['signature'] = ring.find(pk_uh(pk)).sign(tx.sighash(ex))


def sign_v1(ring, inputs, outputs, fee, bsouts=(), arb=None, secret=None, as_sender=False, bsins=(), legacy=False):
    """build and sign a foreign version 1 (or version 0) transaction; inputs: [(outid, Output)]"""
    import base64
    data = {'minerfees': [str(fee)] if fee else None}
    if arb:
        data['arbitrarydata'] = base64.b64encode(arb).decode()
    blank = '00' * 64
    if legacy:
        outputs, bsouts = [[{'value': str(v), 'unlockhash': c['data']['unlockhash']} for v, c in l] for l in (outputs, bsouts)]
    else:
        outputs, bsouts = [[{'value': str(v), 'condition': c} for v, c in l] for l in (outputs, bsouts)]
    data['coininputs'] = []
    data['coinoutputs'] = outputs
    if bsouts:
        data['blockstakeoutputs'] = bsouts
    sign = []
    for kind, l in (('coininputs', inputs), ('blockstakeinputs', bsins)):
        for i, (oid, o) in enumerate(l):
            c = o.cond.base()
            if legacy:
                k = ring.find(c.uh)
                f = {'type': 1, 'condition': {'publickey': k.pktext}, 'fulfillment': {'signature': blank}}
                data.setdefault(kind, []).append({'parentid': oid, 'unlocker': f})
                sign.append((i, f, c))
                continue
            f = blank_fulfilment(ring, c, secret, as_sender)
            data.setdefault(kind, []).append({'parentid': oid, 'fulfillment': f})
            sign.append((i, f, c))
    j = {'version': 0 if legacy else 1, 'data': data}
    tx = enc.Tx(j)
    for i, f, c in sign:
        if legacy:
            f['fulfillment']['signature'] = ring.find(c.uh).sign(tx.sighash(i8(i)))
        else:
            sign_fulfilment(ring, tx, i, f)
    return enc.Tx(nulls(ring, j))


def nulls(ring, j):
    """some explorers write null for an empty list, some leave it out"""
    d = j['data']
    for k in ('coininputs', 'coinoutputs', 'blockstakeinputs', 'blockstakeoutputs', 'minerfees'):
        if not d.get(k) and ring.run % 3:
            d.pop(k, None)
            if ring.run % 3 == 1:
                d[k] = None
    return j
