"""Which parts of an explorer answer the library must not do without."""
from urllib.parse import unquote
from .enc import erc20_of


def _cond_paths(c, pre):
    """what a condition cannot be without"""
    t, d = c.get('type', 0), c.get('data') or {}
    names = {1: ('unlockhash',), 2: ('sender', 'receiver', 'hashedsecret', 'timelock'), 3: ('locktime', 'condition'),
             4: ('unlockhashes', 'minimumsignaturecount')}.get(t, ())
    if names:
        yield pre + ('data',)
    for k in names:
        if k in d:
            yield pre + ('data', k)
    if t == 3 and d.get('condition'):
        for p in _cond_paths(d['condition'], pre + ('data', 'condition')):
            yield p
    if t == 4:
        for i, _ in enumerate(d.get('unlockhashes') or []):
            yield pre + ('data', 'unlockhashes', i)


def _raw_paths(j, pre):
    """the parts inside one explorer transaction that decide what it moves"""
    raw = j.get('rawtransaction') or {}
    v, d = raw.get('version'), raw.get('data') or {}
    for k in ('coininputoutputs', 'blockstakeinputoutputs'):
        for i, o in enumerate(j.get(k) or []):
            yield pre + (k, i, 'value')
            if 'condition' in o:
                yield pre + (k, i, 'condition')
                for p in _cond_paths(o['condition'], pre + (k, i, 'condition')):
                    yield p
    pre += ('rawtransaction', 'data')
    yield pre
    for k in ('coininputs', 'blockstakeinputs'):
        for i, o in enumerate(d.get(k) or []):
            yield pre + (k, i, 'parentid')
    outs = [(k, i) for k in ('coinoutputs', 'blockstakeoutputs') for i, _ in enumerate(d.get(k) or [])]
    if d.get('refundcoinoutput'):
        outs.append(('refundcoinoutput',))
    for p in outs:
        o = d
        for q in p:
            o = o[q]
        yield pre + p + ('value',)
        if 'condition' in o:
            for q in _cond_paths(o['condition'], pre + p + ('condition',)):
                yield q
    if v == 128:
        for q in _cond_paths(d['mintcondition'], pre + ('mintcondition',)):
            yield q
    if v in (208, 209):
        yield pre + ('address',)
        yield pre + ('value',)


def raw_paths(path, j, kind):
    """required parts inside the transactions of an answer"""
    if kind not in ('drop', 'nullify', 'blank', 'retype'):
        return []
    txs = []
    if path.startswith('/explorer/mintcondition'):
        out = list(_cond_paths(j['mintcondition'], ('mintcondition',)))
    else:
        out = []
    ht = j.get('hashtype')
    if path.startswith('/explorer/blocks/') or ht == 'blockid':
        txs += [(('block', 'transactions', i), t) for i, t in enumerate(j['block'].get('transactions') or [])]
    elif ht == 'transactionid':
        txs.append((('transaction',), j['transaction']))
    else:
        txs += [(('transactions', i), t) for i, t in enumerate(j.get('transactions') or [])]
    for pre, t in txs:
        out += _raw_paths(t, pre)
    res = []
    for p in out:
        o = j
        for q in p[:-1]:
            o = o[q]
        if kind == 'drop' and isinstance(p[-1], int):
            continue        # a shorter list
        if kind == 'blank' and not isinstance(o[p[-1]], str):
            continue
        res.append(p)
    return res


def _tx_paths(j, pre, kind):
    """paths inside one explorer transaction"""
    if kind in ('drop', 'nullify'):
        yield pre + ('rawtransaction',)
        yield pre + ('id',)
        if j.get('coininputoutputs'):
            yield pre + ('coininputoutputs',)
        if j.get('coinoutputids'):
            yield pre + ('coinoutputids',)
        if j.get('blockstakeoutputids'):
            yield pre + ('blockstakeoutputids',)
        raw = j.get('rawtransaction') or {}
        if 'version' in raw and kind == 'drop':
            pass
        for k in ('coinoutputids', 'coininputoutputs'):
            if j.get(k):
                yield pre + (k, 0)
    if kind == 'drop' and not j.get('unconfirmed'):
        yield pre + ('height',)
    if kind == 'nullify' and not j.get('unconfirmed'):
        yield pre + ('height',)
    if kind == 'retype':
        yield pre + ('id',)
        yield pre + ('rawtransaction',)
        if not j.get('unconfirmed'):
            yield pre + ('height',)
        if j.get('coinoutputids'):
            yield pre + ('coinoutputids', 0)
        if j.get('coininputoutputs'):
            yield pre + ('coininputoutputs', 0, 'value')
    if kind in ('dropelem', 'addelem'):
        for k in ('coinoutputids', 'coininputoutputs', 'blockstakeoutputids', 'blockstakeinputoutputs'):
            if j.get(k):
                yield pre + (k,)


def _block_paths(j, pre, kind):
    if kind in ('drop', 'nullify', 'retype'):
        yield pre + ('rawblock',)
        yield pre + ('height',)
        yield pre + ('blockid',)
        yield pre + ('rawblock', 'timestamp')
        yield pre + ('rawblock', 'parentid')
        if kind != 'nullify':
            yield pre + ('transactions',)
        if j['rawblock'].get('minerpayouts'):
            yield pre + ('rawblock', 'minerpayouts', 0)
    if kind in ('dropelem', 'addelem', 'drop', 'nullify') and j.get('minerpayoutids'):
        yield pre + ('minerpayoutids',)
    if kind == 'alter':
        yield pre + ('blockid',)
    for i, t in enumerate(j.get('transactions') or []):
        for p in _tx_paths(t, pre + ('transactions', i), kind):
            yield p


def required_paths(path, j, kind):
    p = path.split('/')
    out = []
    if path.startswith('/transactionpool'):
        if kind in ('drop', 'nullify', 'retype'):
            out.append(('transactionid',))
        return out
    if path == '/explorer':
        if kind in ('drop', 'nullify', 'retype'):
            out.append(('blockid',))
        return out
    if path.startswith('/explorer/blocks/'):
        if kind in ('drop', 'nullify', 'retype'):
            out.append(('block',))
        if kind == 'alter':
            return out
        return out + list(_block_paths(j['block'], ('block',), kind))
    if path.startswith('/explorer/hashes/'):
        t = j['hashtype']
        if kind in ('drop', 'nullify', 'retype'):
            out.append(('hashtype',))
        if t == 'blockid':
            if kind in ('drop', 'nullify'):
                out.append(('block',))
            return out + list(_block_paths(j['block'], ('block',), kind))
        if t == 'transactionid':
            if kind in ('drop', 'nullify'):
                out.append(('transaction',))
            if kind == 'alter':
                out.append(('transaction', 'id'))
            return out + list(_tx_paths(j['transaction'], ('transaction',), kind))
        if kind == 'drop' or kind == 'nullify' and t != 'unlockhash':
            out.append(('transactions',))
        for i, x in enumerate(j.get('transactions') or []):
            out += list(_tx_paths(x, ('transactions', i), kind))
        if t == 'unlockhash' and kind == 'retype' and j.get('multisigaddresses'):
            out.append(('multisigaddresses', 0))
        if t == 'unlockhash' and kind == 'alter' and j.get('multisigaddresses'):
            out.append(('multisigaddresses', 0))
        if t == 'unlockhash' and j.get('erc20info') and kind in ('drop', 'retype', 'nullify'):
            out += [('erc20info', 'tftaddress'), ('erc20info', 'erc20address'), ('erc20info', 'confirmations')]
        if kind == 'addelem' and t in ('coinoutputid', 'blockstakeoutputid'):
            # an output has one transaction that makes it and at most one that spends it
            out += [('transactions',)] * 3
        if kind == 'dropelem' and t in ('coinoutputid', 'blockstakeoutputid'):
            # without its creating transaction the answer cannot be used
            ids = {'coinoutputid': 'coinoutputids', 'blockstakeoutputid': 'blockstakeoutputids'}[t]
            if p[3] in ((j['transactions'][0].get(ids)) or []):
                out.append(('transactions',))
        return out
    if path.startswith('/explorer/mintcondition'):
        if kind in ('drop', 'nullify', 'retype'):
            out.append(('mintcondition',))
        return out
    if '3bot' in path:
        if kind in ('drop', 'nullify', 'retype'):
            out += [('record',), ('record', 'id'), ('record', 'publickey'), ('record', 'expiration')]
        if kind == 'alter' and '/whois/' not in path and not p[3].isdigit():
            out.append(('record', 'publickey'))
        return out
    if path == '/explorer/constants':
        return out
    return out


def other_answer(sim, path, x, j):
    """a well formed answer to a different question, recognisable as such"""
    w = sim.world
    v = w.nodes[0].view()
    if path.startswith('/explorer/blocks/'):
        h = int(path.split('/')[3])
        others = [b for b in v.tip.chain if b.height != h]
        if not others:
            return None
        return {'block': w.j_block(v, others[x % len(others)])}
    if path.startswith('/explorer/hashes/'):
        h = path.split('/')[3]
        t = j['hashtype']
        if t == 'blockid':
            o = [b for b in v.tip.chain if b.id != h]
            if not o:
                return None
            return dict(j, block=w.j_block(v, o[x % len(o)]))
        if t == 'transactionid':
            o = [(a, b) for a, b in v.all_txs() if a.id != h]
            if not o:
                return None
            a, b = o[x % len(o)]
            return dict(j, transaction=w.j_tx(v, a, b))
        if t == 'unlockhash':
            # the answer about a block or a transaction
            if j.get('erc20info') and x % 3:
                # an address registered by another one
                u = v.base.erc20
                u = sorted(k for k in u if k != h) or [w.payout_uh]
                u = u[x % len(u)]
                return dict(j, erc20info=dict(j['erc20info'], tftaddress=u, erc20address=erc20_of(u)))
            o = list(v.all_txs())
            a, b = o[x % len(o)]
            if x % 2:
                return {'hashtype': 'transactionid', 'transaction': w.j_tx(v, a, b)}
            return {'hashtype': 'blockid', 'block': w.j_block(v, v.tip)}
        outs = [(oid, txid) for oid, (o, txid) in (v.base.outs if t == 'coinoutputid' else v.base.bsouts).items()
                if txid not in [e['id'] for e in j['transactions']]]
        if not outs:
            return None
        f = v.find_tx(outs[x % len(outs)][1])
        if f is None:
            return None
        return dict(j, transactions=[w.j_tx(v, f[0], f[1])])
    if '/3bot/' in path:
        asked = unquote(path.split('/')[-1])
        o = [b for b in v.base.bots.values() if asked not in (str(b.id), 'ed25519:' + b.pk.hex()) and asked not in b.names]
        if not o:
            # the same one with another name, number or key
            r = dict(j['record'])
            if '/whois/' in path:
                r['names'] = [n for n in r.get('names') or [] if n != asked] + ['other.example.tb'] * (x % 2)
            elif asked.isdigit():
                r['id'] = int(asked) + 1 + x % 3
            else:
                r['publickey'] = 'ed25519:' + '%064x' % (x + 1)
            return {'record': r}
        return w._bot(o[x % len(o)])[1]
    return None
