"""Builds the simulated chain a run starts from, from the spec's 'setup'."""
from . import enc
from .chain import Block, TFT, bot_fee
from .enc import Tx, Cond
from .explorer import World
from .keys import Ring, sign_v1, blank_fulfilment, sign_fulfilment, nulls

GENESIS_TIME = 1577880000


def build(spec):
    s = spec['setup']
    ring = Ring(spec['seed'])
    net = s.get('net', 'devnet')
    minfee = TFT if net == 'devnet' else TFT // 10
    outs = {}       # label:i -> (output id, Output)
    for k in s.get('keys', ()):
        ring.key(k)
    salt = [0]
    labels = {}
    first = []
    for d in s['blocks'][0].get('txs', ()) if s.get('genesis') and s['blocks'] else ():
        if d['t'] == 'pay':
            tx = make(ring, d, outs, None, minfee, salt)
            note(outs, labels, d, tx)
            first.append(tx)
    tip = Block(None, GENESIS_TIME, first, (), spec['seed'] % 10 ** 6)
    tip.state.mint = [(0, ring.cond(s.get('mint', 'f999')))]
    for b in s['blocks']:
        for k in range(b.get('n', 1)):
            txs = []
            for d in b.get('txs', ()) if k == 0 else ():
                if s.get('genesis') and d['t'] == 'pay' and b is s['blocks'][0]:
                    continue        # it is in the first block of the chain
                tx = make(ring, d, outs, tip, minfee, salt)
                note(outs, labels, d, tx)
                txs.append(tx)
            salt[0] += 1
            pays = [(10 * TFT, ring.uh('f990'))] if b.get('payout', True) else []
            tip = Block(tip, tip.time + b.get('dt', 600), txs, pays, salt[0])
    w = World(net, s.get('nodes', 2), tip)
    w.salt = 1000000
    w.payout_uh = ring.uh('f990')
    w.dup_refuse = bool(s.get('dup_refuse'))
    w.gossip = s.get('gossip', True)
    w.dress = s.get('dress')
    w.order = s.get('order', 'chain')
    for d in s.get('mempool', ()):
        tx = make(ring, d, outs, tip, minfee, salt, w.nodes[0].mempool)
        note(outs, labels, d, tx)
        for n in w.nodes:
            e = n.offer(tx)
            if e:
                from .sim import HarnessError
                raise HarnessError('setup transaction refused: %s' % (e,))
    w.labels, w.out_labels, w.setup_ring = labels, outs, ring
    return w


def note(outs, labels, d, tx):
    lab = d.get('label')
    if lab:
        labels[lab] = tx.id
        for i, o in enumerate(tx.outputs):
            outs['%s:%d' % (lab, i)] = (tx.coin_id(i), o)
        for i, o in enumerate(tx.bsout):
            outs['%s:b%d' % (lab, i)] = (tx.bs_id(i), o)


def make(ring, d, outs, tip, minfee, salt, mempool=()):
    import base64
    t = d['t']
    salt[0] += 1
    # other wallets may pay more than one miner fee
    fees = [str(minfee)] + [str(2 * minfee + salt[0])] * ((ring.run + salt[0]) % 6 == 0)
    if t == 'pay' and d.get('legacy'):
        return sign_v1(ring, (), [(v, ring.cond_json(c)) for v, c in d.get('outs', ())], minfee,
                       [(v, ring.cond_json(c)) for v, c in d.get('bs', ())], b'setup %d' % salt[0] + b'\xff\x00' * (salt[0] % 3 == 0), legacy=True)
    if t == 'pay':
        data = {'coininputs': [], 'coinoutputs': [{'value': str(v), 'condition': ring.cond_json(c)} for v, c in d.get('outs', ())],
                'minerfees': fees, 'arbitrarydata': base64.b64encode(b'setup %d' % salt[0] + b'\xff\x00' * (salt[0] % 3 == 0)).decode()}
        if d.get('bs'):
            data['blockstakeoutputs'] = [{'value': str(v), 'condition': ring.cond_json(c)} for v, c in d['bs']]
        return Tx(nulls(ring, {'version': 1, 'data': data}))
    if t == 'spend':
        ins = [outs[x] for x in d['from']]
        total = sum(o.value for _, o in ins)
        fee = d.get('fee', minfee)
        fixed = sum(v for v, _ in d['outs'] if v is not None)
        o = [(v if v is not None else total - fee - fixed, ring.cond_json(c)) for v, c in d['outs']]
        return sign_v1(ring, ins, o, fee, secret=d.get('secret'), as_sender=d.get('as_sender', False),
                       arb=d['arb'].encode() if d.get('arb') else None, bsouts=[(v, ring.cond_json(c)) for v, c in d.get('bs', ())],
                       bsins=[outs[x] for x in d.get('bsfrom', ())], legacy=d.get('legacy', False))
    if t in ('mintdef', 'mint'):
        cond = tip.state.mint_at()
        data = {'nonce': base64.b64encode(salt[0].to_bytes(8, 'big')).decode(), 'minerfees': fees}
        if t == 'mintdef':
            data['mintcondition'] = ring.cond_json(d['to'])
        else:
            data['coinoutputs'] = [{'value': str(v), 'condition': ring.cond_json(c)} for v, c in d['outs']]
        ks = [cond.uh] if cond.type == 1 else cond.d['unlockhashes'][:cond.d['minimumsignaturecount']]
        ks = [ring.find(u) for u in ks]
        blank = '00' * 64
        if cond.type == 1:
            f = {'type': 1, 'data': {'publickey': ks[0].pktext, 'signature': blank}}
        else:
            f = {'type': 3, 'data': {'pairs': [{'publickey': k.pktext, 'signature': blank} for k in ks]}}
        data['mintfulfillment'] = f
        j = {'version': 128 if t == 'mintdef' else 129, 'data': data}
        tx = Tx(j)
        if cond.type == 1:
            f['data']['signature'] = ks[0].sign(tx.sighash())
        else:
            for p, k in zip(f['data']['pairs'], ks):
                p['signature'] = k.sign(tx.sighash(tx.pk_extra(k.pk)))
        return Tx(j)
    if t == 'erc':
        return Tx({'version': 209, 'data': {'address': ring.uh(d['to']), 'value': str(d['value']), 'txfee': str(minfee),
                                            'blockid': '0x' + enc.b2(b'eb%d' % salt[0]).hex(),
                                            'txid': '0x' + enc.b2(b'et%d' % salt[0]).hex()}})
    if t in ('bot', 'reg', 'convert'):
        data = {'txfee': str(minfee), 'coininputs': []}
        j = {'version': {'bot': 144, 'reg': 210, 'convert': 208}[t], 'data': data}
        k = ring.key(d['key']) if 'key' in d else None
        if t == 'bot':
            data['nrofmonths'] = d.get('months', 1)
            data['identification'] = own = {'publickey': k.pktext, 'signature': '00' * 64}
            if d.get('names'):
                data['names'] = d['names']
            if d.get('addrs'):
                data['addresses'] = d['addrs']
        elif t == 'reg':
            own = data
            data.update(pubkey=k.pktext, signature='00' * 64, regfee=str(10 * TFT))
        else:
            data.update(address=d['address'], value='1')
        sign = []
        ins = [outs[x] for x in d.get('from', ())]
        for i, (oid, o) in enumerate(ins):
            f = blank_fulfilment(ring, o.cond.base(), d.get('secret'), d.get('as_sender', False))
            data['coininputs'].append({'parentid': oid, 'fulfillment': f})
            sign.append((i, f))
        rest = sum(o.value for _, o in ins) - minfee
        if t == 'convert':
            data['value'] = str(rest if d.get('change') is None else rest // 2)
            rest -= int(data['value'])
        elif t == 'reg':
            rest -= 10 * TFT
        else:
            rest -= bot_fee(Tx(j))
        if ins and rest > 0:
            data['refundcoinoutput'] = {'value': str(rest), 'condition': ring.cond_json(d['change'])}
        tx = Tx(j)
        if k is not None:
            own['signature'] = k.sign(tx.sighash(b'sender' if t == 'bot' else b'registration'))
        for i, f in sign:
            sign_fulfilment(ring, tx, i, f)
        return Tx(j)
    raise ValueError(t)
