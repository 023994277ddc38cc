"""One workload profile per property: which worlds, operations, faults and events its runs are made of."""
from .gen import TFT, NAMES, ADDRS, ERC, LIVE_NET, NET_FAULTS, BODY, STATUS, ACK_FAULTS
from . import sim as S

DAMAGE = ['flip', 'flip', 'flip', 'drop', 'dup', 'swap', 'cut', 'junk']


# ---------------------------------------------------------------- operations
def o_balance(g, a=0, **kw):
    if not kw and g.chance(0.05):
        return g.op('addresses', a, multi=True)
    return g.op('balance', a, **kw)


def o_merge(g, a=0):
    names = [[x.get('a', 0), x.get('w') or 'W'] for x in g.ops if x['op'] == 'open'] or [[0, 'W']]
    return g.op('balance_merge', a, parts=[g.pick(names) + [g.pick([None, None, None, 0, 1]), g.pick([0, 0, 0, 1, 2])] for _ in range(g.r.choice([1, 2, 2, 3]))],
                start=g.pick([None, None, 'plain', 'wallets']))


def damaged_erc(g, ad):
    """an Ethereum address of another length or with characters that are no digits"""
    how = g.pick(['drop', 'dup', 'junk', 'cut'])
    return {'$damage': ad, 'how': how, 'x': g.pick([0, 1, 2]) if how == 'cut' and g.chance(0.3) else g.r.randrange(len(ad))}


def damaged_hash(g):
    """the text of a secret hash that lost or gained digits"""
    how = g.pick(['drop', 'dup', 'junk', 'cut'])
    return {'$damage': any_hash(g), 'how': how, 'x': 0 if how == 'cut' and g.chance(0.2) else g.r.randrange(64)}


def o_swap_make(g, a=0, w=0, to=None, hsh=None, **kw):
    r = g.r
    n = g.pick([g.fee + 1, g.fee + r.randint(1, 10 ** 9), r.randint(2, 40) * TFT, g.pay_amount(w), g.pay_amount(w), g.fee, max(1, g.fee - 1)])
    rt = g.pick([None, None, g.duration_arg(), g.duration_arg(), g.calendar_arg(1), g.T + r.choice([60, 3600, 10 ** 6])])
    lab = g.label('X')
    ref = g.refund_arg(w, 0.25)
    if ref is not None and g.chance(0.3):
        n = g.exact_amount(w) or n
    o = g.op('swap_participate' if hsh else 'swap_initiate', a, to=to or g.pick(['@f2', '@f3'] + ['@' + k for k in g.keysyms]), amount=g.amount_arg(n),
             refund_time=rt, source=g.source_arg(w, 0.2), refund=ref, data=g.data_plain() if g.chance(0.3) else None,
             label=lab, hash=hsh)
    if g.chance(0.15):
        o['submit'] = False
    if g.chance(0.12):
        g.exact_from(o, w)
    elif g.chance(0.12):
        g.shared_from(o, w)
    o.update(kw)
    return o


def any_hash(g):
    if g.swaps and g.chance(0.4):
        return '~hash:' + g.pick(g.swaps)['label']
    return g.pick(['ab', '01', 'f7']) * 31 + '%02x' % g.r.randrange(256)


def contract_refs(g):
    """labels of contracts that exist or may come to exist"""
    l = [w['label'] for w in g.swaps]
    l += [o['label'] for o in g.ops if o['op'] in ('swap_initiate', 'swap_participate')]
    return l


def o_verify(g, a=0, **kw):
    r = g.r
    if g.swaps and g.chance(0.75):
        w = g.pick(g.swaps)
        o = g.op('swap_verify', a, out='~out:%s:0' % w['label'], label='C')
        if g.chance(0.5):
            o['amount'] = {'$amount': w['value'] + (0 if g.chance(0.7) else r.choice([-1, 1, TFT])), 'form': r.randrange(8)}
            if o['amount']['$amount'] <= 0:
                o['amount']['$amount'] = w['value']
        if g.chance(0.5):
            o['secret_hash'] = w['hash'] if g.chance(0.7) else g.pick(g.swaps)['hash'] if g.chance(0.5) else '00' * 31 + 'ff'
        if g.chance(0.3):
            o['sender'] = True
        if g.chance(0.3):
            o['receiver'] = True
    else:
        c = [x['label'] for x in g.ops if x['op'] in ('swap_initiate', 'swap_participate')]
        if c and g.chance(0.8):
            o = g.op('swap_verify', a, out='~contract:' + g.pick(c), label='C')
            if g.chance(0.4):
                o['sender'] = True
        else:
            o = g.op('swap_verify', a, out=g.pick(['~out:%s' % g.pick(g.outlabels)[0], ('%02x' % r.randrange(256)) * 32]), label='C')
    k = r.randrange(6)
    if k == 0:
        o['min_refund_time'] = g.duration_arg() if g.chance(0.8) else g.calendar_arg(1)
    elif k == 1:
        o['mrt_rel'] = r.choice([-1, 0, 1, 60, -60])
    elif k == 2:
        o['min_refund_time'] = g.T + r.choice([-1, 1, 600, 86400])
    if g.chance(0.3):
        o['form'] = 'hash'
    if g.chance(0.12) and any(x['op'] == 'swap_verify' for x in g.ops[:-1]):
        o['contract'] = 'C'
        o['other'] = g.chance(0.4) or None
    o.update(kw)
    return o


def o_claim(g, a=0, refund=None, **kw):
    r = g.r
    refund = g.chance(0.45) if refund is None else refund
    kind = 'swap_refund' if refund else 'swap_redeem'
    made = [x['label'] for x in g.ops if x['op'] in ('swap_initiate', 'swap_participate')]
    if g.swaps and (not made or g.chance(0.7)):
        w = g.pick(g.swaps)
        o = g.op(kind, a, out='~out:%s:0' % w['label'], label=g.label('t'))
        if not refund:
            o['secret'] = w['secret'] if g.chance(0.8) else g.pick(['00' * 32, g.pick(g.swaps)['secret'], 'ab' * 32])
    elif made:
        l = g.pick(made)
        o = g.op(kind, a, out='~contract:' + l, label=g.label('t'))
        if not refund:
            o['secret'] = '~secret:' + l
    else:
        o = g.op(kind, a, out=('%02x' % r.randrange(256)) * 32, label=g.label('t'))
        if not refund:
            o['secret'] = 'cd' * 32
    if g.chance(0.2):
        o['data'] = g.data_plain()
    if g.chance(0.3):
        o['form'] = 'bytes'
    if g.chance(0.3):
        o['idform'] = 'hash'
    o.update(kw)
    return o


def o_bot(g, a=0, w=0):
    r = g.r
    kind = g.pick(['new', 'new', 'update', 'update', 'update', 'transfer', 'transfer', 'get', 'get'])
    f = r.randrange(2)
    src = g.source_arg(w, 0.15)
    ref = g.refund_arg(w, 0.1)
    free = g.freenames
    if kind == 'new':
        nm = [free.pop() for _ in range(r.choice([0, 1, 1, 2, 4])) if free]
        if g.chance(0.1) and g.bots and g.pick(g.bots)['names']:
            nm = nm + [x for x in g.pick(g.bots)['names'][:1] if x not in nm]
        ad = r.sample(ADDRS, r.choice([0, 1, 2, 3]))
        o = g.op('bot_new', a, months=g.pick([None, 1, 1, 2, 11, 12, 23, 24]), names=nm or None, addrs=ad or None,
                 key_index=g.pick([None, None, None, 0, 1]), form=f, source=src, refund=ref, label=g.label('t'))
        if not nm and not ad:
            if g.chance(0.5):
                o['bad'] = 'nothing'
            else:
                o['addrs'] = [ADDRS[1]]
        if g.chance(0.06):
            o['months'] = g.pick([0, 25, 300])
            o['bad'] = 'months'
        elif g.chance(0.06):
            o['names'] = [g.pick(['ab', 'UP!', 'has space', 'x' * 64, '', '-abcd', 'abc..def', '.abcde'])]
            o['bad'] = 'name'
            o['form'] = 0
        elif g.chance(0.05):
            o['names'] = ['n%04dx' % i for i in range(6)]
            o['bad'] = 'names'
            o['form'] = 0
        return o
    b = g.pick(g.bots) if g.bots and g.chance(0.93) else {'id': 77, 'names': [], 'addrs': [], 'key': 'f5'}
    if kind == 'get':
        form = g.pick(['id', 'id', 'name', 'namet', 'pk', 'pkobj'])
        x = b['id']
        if form in ('name', 'namet'):
            if not b['names']:
                form = 'id'
            else:
                x = g.pick(b['names'])
        elif form in ('pk', 'pkobj'):
            x = b['key']
        return g.op('bot_get', a, bot=x, bot_form=form)
    if kind == 'update':
        o = g.op('bot_update', a, bot=b['id'], months=g.pick([None, None, 1, 2, 12, 24]), form=f, source=src, refund=ref, label=g.label('t'))
        if g.chance(0.5) and free:
            o['names_to_add'] = [free.pop() for _ in range(r.choice([1, 1, 2])) if free]
        if g.chance(0.35) and b['names']:
            o['names_to_remove'] = r.sample(b['names'], r.randint(1, len(b['names'])))
        if g.chance(0.35):
            o['addresses_to_add'] = r.sample([x for x in ADDRS if x not in b['addrs']], r.choice([1, 1, 2]))
        if g.chance(0.3) and b['addrs']:
            o['addresses_to_remove'] = r.sample(b['addrs'], 1)
        if not any(k in o for k in ('months', 'names_to_add', 'names_to_remove', 'addresses_to_add', 'addresses_to_remove')):
            if g.chance(0.4):
                o['bad'] = 'nothing'
            else:
                o['months'] = 1
        if g.chance(0.04):
            o['months'], o['bad'] = 25, 'months'
        return o
    x = g.pick(g.bots) if g.bots else b
    o = g.op('bot_transfer', a, sender=b['id'], receiver=x['id'], names=(r.sample(b['names'], r.randint(1, len(b['names']))) if b['names'] else ['alpha']),
             form=f, source=src, refund=ref, label=g.label('t'))
    if g.chance(0.05):
        o['names'], o['bad'] = [], 'nothing'
    return o


def o_erc(g, a=0, w=0):
    r = g.r
    k = r.randrange(10)
    if k < 3:
        n = g.pay_amount(w)
        ad = '0x' + bytes(r.randrange(256) for _ in range(20)).hex()
        if g.chance(0.3):
            ad = ad[2:]
        o = g.op('erc20_send', a, address=ad, amount=g.amount_arg(n), source=g.source_arg(w, 0.2), refund=g.refund_arg(w, 0.15), label=g.label('t'))
        if g.chance(0.35) and ad[:2] == '0x':
            o['via'] = 'coins_send'
        if g.chance(0.1):
            o['amount'], o['bad'] = {'$amount': r.choice([0, -TFT]), 'form': 0}, 'amount'
        elif g.chance(0.1):
            o['address'], o['bad'] = damaged_erc(g, ad), 'damaged-address'
        return o
    if k < 6:
        v = g.pick([None, None, '@' + g.pick(g.keysyms), '@' + g.pick(g.keysyms), '@f1', 0, 1, {'$uh': '@' + g.pick(g.keysyms)}])
        o = g.op('erc20_register', a, source=g.source_arg(w, 0.2), refund=g.refund_arg(w, 0.15), label=g.label('t'))
        if v is not None:
            o['value'] = v
        if g.chance(0.08):
            o['value'], o['bad'] = {'$damage': '@' + g.pick(g.keysyms), 'how': g.pick(DAMAGE), 'x': r.randrange(999)}, 'damaged-address'
        return o
    if k < 8:
        c = ['@' + x for x in (g.reg * 3 + g.keysyms)] + ['@f1', None]
        if g.chance(0.2):
            c = [0, 1, 2, {'$uh': g.pick(c[:-1])}]
        v = g.pick(c)
        o = g.op('erc20_get', a)
        if v is not None:
            o['value'] = v
        if v is not None and not isinstance(v, int) and g.chance(0.3):
            o['via'] = 'client'
        return o
    return g.op('erc20_list', a)


def o_mint(g, a=0):
    r = g.r
    k = r.randrange(10)
    c = ['@f7', '@f8'] + ['@' + x for x in g.keysyms]
    if k < 3:
        to = g.pick(c)
        if g.chance(0.35):
            l = r.sample(c, r.randint(2, 3))
            to = g.pick([l, {'$tuple': [r.randint(1, len(l)), l]}])
        o = g.op('mint_def', a, to=to, data=g.data_plain(), label=g.label('t'))
        if g.chance(0.1):
            o['to'], o['bad'] = {'$damage': '@f7', 'how': g.pick(DAMAGE), 'x': r.randrange(999)}, 'damaged-address'
        return o
    if k < 7:
        o = g.op('mint_coins', a, to=g.recipient() or '@f1', amount=g.amount_arg(g.amount()), lock=g.lock_arg(),
                 data=g.data_plain(), label=g.label('t'))
        if g.chance(0.08):
            o['amount'], o['bad'] = {'$amount': g.pick([0, -5 * TFT]), 'form': 0}, 'amount'
        elif g.chance(0.06):
            o['to'], o['bad'] = {'$damage': '@f7', 'how': g.pick(DAMAGE), 'x': r.randrange(999)}, 'damaged-address'
        return o
    h = g.pick([None, 0, 1, 2, g.H, -1, -2, -3, r.randint(0, g.H)])
    o = g.op('mint_get', a)
    if h is not None:
        o['height'] = h
        if g.chance(0.3):
            o['str'] = True
    return o


def o_query(g, a=0):
    r = g.r
    k = r.randrange(12)
    bad = g.pick(DAMAGE) if g.chance(0.06) else None
    if k == 0:
        return g.op('chain_info', a)
    if k < 4:
        return g.op('block_get', a, height=r.randrange(40), by=g.pick(['height', 'hash']), unknown=(True if g.chance(0.1) else None), bad=bad, x=r.randrange(9999))
    if k < 6:
        return g.op('tx_get', a, x=r.randrange(999), last=(True if g.chance(0.5) else None), unknown=(True if g.chance(0.1) else None), bad=bad,
                    v=g.pick([None, None, 'bs', 0, 128, 129, 144, 145, 146, 208, 209, 210]))
    if k < 9:
        return g.op('output_get', a, x=r.randrange(999), kind='bs' if g.chance(0.15) else None, spent=(True if g.chance(0.6) else None),
                    same_block=(True if g.chance(0.25) else None), unknown=(True if g.chance(0.08) else None), bad=bad,
                    wrong=(True if g.chance(0.08) else None))
    if k < 11:
        t = '@' + g.pick(g.keysyms + g.ms * 2 + ['f0', 'f1', 'f2', 'f990', 'f777'])
        if g.chance(0.15):
            # named by a condition, or the way a recipient is given
            t, bad = ({'$cond': g.cond_sym()} if g.chance(0.6) else g.recipient() or '@f1'), None
        return g.op('uh_get', a, target=t, balance=(True if g.chance(0.5) else None), bad=bad, x=r.randrange(9999))
    return g.op('transactions', a)


READS = ('chain_info', 'block_get', 'tx_get', 'output_get', 'uh_get', 'transactions', 'balance', 'mint_get', 'bot_get', 'erc20_get',
         'erc20_list', 'swap_verify', 'addresses')


def again(g, o, depth=None):
    """the same question once more, after the chain took something back or went on"""
    s = g.op('events', o['a'])
    for k in g.pick([['reorg'], ['reorg', 'drop_mempool'], ['reorg', 'drop_mempool'], ['block'], ['drop_mempool'], ['reorg', 'block']]):
        e = g.event(s, [k], at='start')
        if depth and k == 'reorg':
            e['depth'] = depth
    kw = {k: v for k, v in o.items() if k not in ('a', 'op', 'id', 'wait', 'until', 'patience', 'crash', 'crash_at')}
    if kw.get('label') not in (None, 'C'):
        kw['label'] = g.label('A')
    return g.op(o['op'], o['a'], **kw)


def o_any(g, a=0, w=0):
    """any operation on any part of the library"""
    k = g.r.random()
    if k < 0.22:
        return g.o_send(a, w)
    if k < 0.30:
        return g.o_builder(a, w)
    if k < 0.36:
        return o_balance(g, a)
    if k < 0.44:
        return o_swap_make(g, a, w, hsh=any_hash(g) if g.chance(0.5) else None)
    if k < 0.50:
        return o_verify(g, a)
    if k < 0.60:
        return o_claim(g, a)
    if k < 0.70:
        return o_bot(g, a, w)
    if k < 0.79:
        return o_erc(g, a, w)
    if k < 0.86:
        return o_mint(g, a)
    if k < 0.90:
        return g.o_drain(a, w)
    if k < 0.93:
        return g.op('address_new', a)
    return o_query(g, a)


def full_world(g, **kw):
    a = dict(wallets=1, rich=g.r.choice([0, 1, 2]), bots=3, erc=2, mints=2, swaps=3, mint=None)
    a.update(kw)
    if a['mint'] is None:
        a['mint'] = g.pick(['w0.0', 'w0.0', 'f999', 'ms:1:w0.0,f7', 'ms:2:w0.0,f7'])
    g.world(**a)
    if g.chance(0.5):
        g.setup['mint'] = g.mint
    return g.setup


def cosign_tail(g, label, a=0, **kw):
    """the same wallet tries to complete what is left to sign"""
    return g.op('sign', a, doc=label, form=g.pick(['str', 'dict', 'obj']), save=label, **kw)


def o_compose(g, a=0, parties=('w0.', 'w1.'), label=None):
    """a transaction made by hand of outputs of several parties, of shared wallets and of nobody"""
    r = g.r
    late = g.chance(0.15)
    have = [(l, v, s) for l, bi, v, s in g.outlabels if (l not in g.gone or late and bi == 99) and v > g.fee // 8 and not s.startswith('swap:')]
    own = [x for x in have if any(p in x[2] for p in parties)]
    simple = g.chance(0.6)
    if simple:
        own = [x for x in own if x[2] in g.keysyms] or own
    take = r.sample(own, min(len(own), r.choice([1, 1, 2, 2, 3])))
    if g.chance(0.35) or not take:
        # free for all
        n = r.randint(2, 50) * TFT
        take.append((g.put(g.pick(['nil', 'nil', 'nil', 'lock:1:nil', 'lock:%d:nil' % (g.H + 1)]), n), n, 'nil'))
    if not simple and g.chance(0.3) and len(have) > len(own):
        take.append(g.pick([x for x in have if x not in own]))
    r.shuffle(take)
    total = sum(v for _, v, _ in take)
    n = max(1, min(total - g.fee, r.choice([total - g.fee, total // 2, r.randint(1, max(1, total))])))
    o = g.op('compose', a, ins=['~out:' + l for l, _, _ in take], outs=[[g.recipient(), n]], change=g.pick(['@f1', '@' + g.pick(g.keysyms)]),
             label=label or g.label('J'), data=g.pick([None, None, 'joint']))
    if g.stakes and g.chance(0.4):
        # block stakes move along with the coins
        own = [x for x in g.stakes if any(x[3].startswith(p) for p in parties)] if g.chance(0.8) else g.stakes
        if own:
            take = r.sample(own, min(len(own), r.choice([1, 1, 2])))
            total = sum(x[2] for x in take)
            o['stakes'] = ['~out:' + x[0] for x in take]
            o['stake_outs'] = [['@' + g.pick(g.keysyms + ['f1']), total]]
            if total > 1 and g.chance(0.5):
                n = r.randint(1, total - 1)
                o['stake_outs'] = [['@f2', n], ['@' + g.pick(g.keysyms), total - n]]
    return o


def joint_world(g):
    """two wallets of one user, and a third of somebody else, pay together"""
    r = g.r
    g.world(wallets=3, keys=(1, 2), outs=(1, 3), foreign=2, multisigs=2, mempool=1, spends=1, lock_p=0.1, bs=g.pick([0, 0, 1]))
    g.actors = [{'name': 'main'}, {'name': 'other'}]
    g.o_open(0, 0)
    g.o_open(0, 1, 'X')
    g.o_open(1, 2)
    for _ in range(r.choice([1, 2, 2, 3])):
        o = o_compose(g, 0, g.pick([('w0.',), ('w0.', 'w1.'), ('w0.', 'w1.'), ('w0.', 'w1.', 'w2.')]))
        if g.chance(0.1):
            g.net_trouble(o)
        doc = o['label']
        signers = [(0, None), (0, 'X'), (1, None)]
        r.shuffle(signers)
        signers = signers[:r.choice([1, 2, 2, 3, 3, 3])]
        if g.chance(0.3):
            signers.append(g.pick(signers))
        alive = g.chance(0.7)
        hold = g.chance(0.4)
        for a, w in signers:
            new = g.label('D')
            alive = alive and a == 0
            s = g.op('sign', a, doc=doc, form='live' if alive else g.pick(['str', 'obj', 'dict']), save=new, w=w, until='doc:' + doc, patience=40)
            if hold or g.chance(0.1):
                s['submit'] = False
            if g.chance(0.1):
                g.event(s, ['block', 'block', 'partition', 'heal', 'reorg'])
            if g.chance(0.06):
                g.net_trouble(s)
            elif g.chance(0.08):
                g.post_trouble(s)
            doc = new
        if hold or g.chance(0.3):
            p = g.op('put', r.choice([0, 1]), doc=new, form=g.pick(['obj', 'dict']), until='doc:' + new, patience=60)
            if g.chance(0.2):
                g.post_trouble(p)
    return g.spec()


# ---------------------------------------------------------------- profiles
def p_C01(g):
    full_world(g, wallets=g.r.choice([1, 1, 2]), lock_p=0.3, mempool=3)
    g.o_open()
    for _ in range(g.r.randint(4, 9)):
        if g.chance(0.04):
            o = o_compose(g)
            g.op('sign', 0, doc=o['label'], form='live', save=o['label'])
            continue
        o = o_any(g) if g.chance(0.85) else g.settle()
        if g.chance(0.15):
            g.net_trouble(o)
        if g.chance(0.25):
            g.event(o)
        if o.get('label') and o['op'] not in ('swap_verify',) and g.chance(0.2):
            cosign_tail(g, o['label'])
    return g.spec()


def p_C02(g):
    g.world(wallets=g.r.choice([1, 1, 2]), rich=g.r.choice([0, 1, 2]))
    g.o_open()
    for _ in range(g.r.randint(3, 9)):
        k = g.r.random()
        if k < 0.55:
            o = g.o_send()
        elif k < 0.75:
            o = g.o_builder()
        elif k < 0.9:
            o = g.o_bad_send()
        else:
            o = g.settle()
        if g.chance(0.12):
            g.net_trouble(o)
        if g.chance(0.12):
            g.event(o)
    return g.spec()


def p_C03(g):
    """submission under faults"""
    full_world(g, nodes=g.r.choice([1, 2, 3, 3]), rich=2, lock_p=0.1)
    g.o_open()
    for _ in range(g.r.randint(3, 6)):
        k = g.r.random()
        if k < 0.4:
            o = g.o_send()
        elif k < 0.5:
            o = g.o_builder()
        elif k < 0.62:
            o = o_swap_make(g, hsh=any_hash(g) if g.chance(0.5) else None)
            if g.chance(0.15):
                g.shared_from(o)
        elif k < 0.72:
            o = o_claim(g)
        elif k < 0.8:
            o = o_bot(g)
        elif k < 0.88:
            o = o_erc(g)
        elif k < 0.93:
            o = o_mint(g)
        elif k < 0.97:
            o = g.o_drain()
            if g.chance(0.7):
                o['submit'] = False
            for i in range(2):
                s = None
                if g.chance(0.7):
                    # complete, but not to be submitted yet
                    s = cosign_tail(g, '%s.%d' % (o['label'], i), submit=False, drained=True)
                if g.chance(0.7):
                    t = cosign_tail(g, '%s.%d' % (o['label'], i), drained=True)
                    if g.chance(0.5):
                        g.post_trouble(t)
                    if g.chance(0.2):
                        cosign_tail(g, '%s.%d' % (o['label'], i), submit=g.chance(0.5), drained=True)
        else:
            o = g.settle()
        if o['op'] in ('coins_send', 'builder', 'swap_initiate', 'swap_participate', 'bot_new', 'bot_update', 'mint_coins') and g.chance(0.25):
            s = cosign_tail(g, o.get('label', 'none'))
            if g.chance(0.3):
                s['submit'] = False
            if g.chance(0.5):
                g.post_trouble(s)
        if g.chance(0.7):
            g.post_trouble(o)
            if g.chance(0.3):
                g.post_trouble(o)
        if g.chance(0.15):
            g.net_trouble(o)
        if g.chance(0.2):
            g.event(o, at=g.pick(['post', 'posted', 'answered']))
        if g.chance(0.25):
            # explorers fail right after the submission was answered
            for _ in range(2):
                g.fault(o, LIVE_NET[:-1], 'from', n=g.r.randint(3, 25))
    return g.spec()


def p_C04(g):
    g.world(wallets=g.r.choice([1, 1, 2]), keys=(1, 4), outs=(0, 5), mempool=5, spends=5, multisigs=3, lock_p=0.35, mints=g.r.choice([0, 0, 2]),
            erc=g.r.choice([0, 2]), rich=0, many=g.r.choice([0] * 9 + [70]))
    g.o_open()
    two = len(g.wkeys) > 1 and g.chance(0.6)
    if two:
        g.o_open(0, 1, 'V')
    for _ in range(g.r.randint(3, 8)):
        k = g.r.random()
        if two and k < 0.2:
            o = o_balance(g, w='V')
        elif k < 0.45:
            o = o_balance(g)
        elif k < 0.55:
            o = o_merge(g)
        elif k < 0.65:
            o = g.op('uh_get', 0, target='@' + g.pick(g.keysyms + g.ms + ['f1']), balance=True)
        elif k < 0.75:
            o = g.o_send()
        elif k < 0.8:
            o = g.op('address_new')
        elif k < 0.85:
            o = g.op('transactions')
        else:
            o = g.settle()
        if g.chance(0.45):
            g.event(o, ['block', 'block', 'spend', 'spend', 'reorg', 'drop_mempool', 'partition', 'heal'])
            if g.chance(0.4):
                g.event(o, ['block', 'spend', 'reorg', 'heal'])
        if g.chance(0.15):
            g.net_trouble(o)
        if o['op'] in READS and g.chance(0.15):
            again(g, o)
    return g.spec()


def limit_world(g):
    """a wallet that needs as many inputs as a transaction may have, some of them unconfirmed or of a multi signature wallet"""
    r = g.r
    g.world(wallets=1, keys=(1, 3), outs=(0, 0), multisigs=r.choice([0, 1, 2]), mempool=0, spends=0, lock_p=0, foreign=1, bs=0)
    keys = ['w0.%d' % i for i in g.wkeys[0]]
    mine = [m for m in g.ms if any(k in m.split(':')[2].split(',') for k in keys)]
    n = r.choice([98, 99, 99, 99, 100, 101, 105])
    u = r.choice([0, 1, 2, 5, r.randint(0, n), n])
    m = r.choice([0, 1, r.randint(0, n), n - r.choice([0, 0, 1, 3])]) if mine else 0
    mixed = bool(mine) and g.chance(0.5)
    if mixed:
        # more than fit in one transaction, over several wallets, and only the very best of them will do
        n = r.choice([99, 100, 100, 101, 103, 110])
        m = r.randint(1, n - 1)
        u = r.choice([0, 0, 1, 5])
    big = r.choice([10 ** 3, TFT, 5 * TFT])
    syms = [g.pick(keys) for _ in range(n - m)] + [g.pick(mine) for _ in range(m)]
    r.shuffle(syms)
    outs = [[r.randint(1, big) + g.fee // 90, s] for s in syms]
    conf, unconf = outs[u:], outs[:u]
    extra = [[v, s] for l, _, v, s in g.outlabels if s in mine and l not in g.gone]
    if conf:
        lab = g.label('M')
        g.blocks[r.randrange(len(g.blocks))]['txs'].append({'t': 'pay', 'label': lab, 'outs': conf})
    if unconf:
        at = g.put('f0', sum(v for v, _ in unconf) + g.fee, 0)
        g.pool.append({'t': 'spend', 'from': [at], 'outs': unconf, 'label': g.label('S')})
    g.o_open()
    for _ in range(r.choice([1, 1, 2])):
        k = r.choice([99, 99, 99, 98, 100])
        o = g.op('coins_send', 0, to='@f%d' % r.randint(1, 3), label=g.label('p'))
        vals = outs + extra
        if mixed and k == 99:
            o['source'] = ['@' + x for x in mine] + ['@' + x for x in keys]
            r.shuffle(o['source'])
        elif m and g.chance(0.7):
            # only one of the wallets, or all of them
            only = g.pick(mine)
            o['source'] = '@' + only if g.chance(0.4) else ['@' + x for x in mine] + ['@' + x for x in keys]
            vals = [x for x in vals if x[1] == only] if o['source'] == '@' + only else vals
        else:
            vals = [x for x in outs if x[1][0] == 'w']
        vals = sorted([v for v, _ in vals], reverse=True)
        o['amount'] = g.amount_arg(max(1, sum(vals[:k]) - g.fee + r.choice([-1, 0, 0, 0, 1])))
        if g.chance(0.1):
            g.event(o)
    return g.spec()


def p_C05(g):
    if g.chance(0.14):
        return limit_world(g)
    many = g.chance(0.18)
    g.world(wallets=g.r.choice([1, 1, 2]), keys=(1, 3), outs=(0, 4), multisigs=2, mempool=4, many=130 if many else 0, lock_p=0.3, foreign=2)
    g.o_open()
    for _ in range(g.r.randint(2, 4) if many else g.r.randint(3, 8)):
        k = g.r.random()
        if k < 0.75:
            o = g.o_send()
            o['amount'] = g.amount_arg(max(1, g.spend_guess() if g.chance(0.85) else g.amount()))
            if many and g.chance(0.6):
                vals = sorted((v for l, b, v, s in g.outlabels if s.startswith('w0.') and l not in g.gone), reverse=True)
                n = g.r.choice([98, 99, 99, 99, 100, 101, 60])
                o['amount'] = g.amount_arg(max(1, sum(vals[:n]) - g.fee + g.r.choice([-1, 0, 0, 1])))
                o.pop('source', None)
        elif k < 0.85:
            o = g.o_builder()
        elif k < 0.9:
            o = o_erc(g)
        else:
            o = g.settle()
        if g.chance(0.15):
            g.event(o)
        if g.chance(0.05):
            g.other_device(o)
        if g.chance(0.08):
            g.net_trouble(o)
    return g.spec()


def p_C06(g):
    full_world(g, nodes=g.r.choice([1, 2, 3, 4]), lock_p=0.1, many=0)
    o = g.o_open()
    live = g.r.randrange(g.nodes) if g.chance(0.7) else None
    if g.chance(0.3):
        g.net_trouble(o, live)
        if g.chance(0.5):
            g.o_open()
    else:
        pass
    for _ in range(g.r.randint(3, 7)):
        o = o_any(g)
        if g.chance(0.85):
            g.net_trouble(o, live)
            if g.chance(0.3):
                g.net_trouble(o, live)
        if g.chance(0.1):
            for n in range(g.nodes):
                if n != live and g.chance(0.5):
                    g.events.append({'a': 0, 'op': o['id'], 'at': g.ordinal(), 'ev': 'crash', 'node': n})
            s = g.settle()
            for n in range(g.nodes):
                g.events.insert(0, {'a': 0, 'op': s['id'], 'at': 'start', 'ev': 'restart', 'node': n})
        if g.chance(0.06):
            g.fault(o, STATUS, node=None)
    return g.spec()


def p_C07(g):
    full_world(g, lock_p=0.1, nodes=g.r.choice([1, 1, 2, 3]))
    o = g.o_open()
    if g.chance(0.2):
        g.fault(o, BODY)
        g.o_open()
    for _ in range(g.r.randint(4, 9)):
        o = o_any(g) if g.chance(0.52) else o_query(g) if g.chance(0.9) else g.op('mint_get', height=g.pick([None, None, 0, g.H, 1]))
        if g.chance(0.85):
            f = g.fault(o, ['drop', 'drop', 'nullify', 'blank', 'retype', 'dropelem', 'emptyobj'] if g.chance(0.2) else BODY)
            if o['op'] == 'mint_get' or g.chance(0.3):
                f['at'] = 0
            elif o['op'] in ('block_get', 'tx_get', 'output_get', 'uh_get', 'chain_info', 'bot_get', 'mint_get', 'swap_verify', 'swap_redeem', 'swap_refund'):
                f['at'] = g.r.choice([0, 0, 0, 1, 2, 3])
            elif g.chance(0.3):
                f['at'] = 'all' if g.chance(0.3) else g.r.randrange(3)
        elif g.chance(0.5):
            g.fault(o, STATUS)
        if g.chance(0.1):
            g.net_trouble(o)
    return g.spec()


def p_C08(g):
    g.world(wallets=1, keys=(1, 5), outs=(0, 2), multisigs=2, mempool=2, gaps=1, erc=g.r.choice([0, 2]), lock_p=0.1, spends=3)
    opts = {}
    if g.chance(0.4):
        opts['key_scan_count'] = g.r.choice([0, 1, 2, 3, 4, 5, 6, 8, 10])
    if g.chance(0.3):
        opts['key_count'] = g.r.choice([1, 2, 3, 5])
    for rnd in range(g.r.randint(1, 4)):
        o = g.o_open(**opts)
        if g.chance(0.3):
            g.net_trouble(o)
        if g.chance(0.15):
            o['crash'] = g.r.randrange(8)
        if g.chance(0.1):
            g.event(o, ['block', 'spend', 'partition', 'heal'])
        for _ in range(g.r.randint(1, 5)):
            k = g.r.random()
            if k < 0.3:
                o = g.op('address_new', pub=(True if g.chance(0.3) else None))
            elif k < 0.6:
                o = o_balance(g)
            elif k < 0.75:
                o = g.op('addresses')
            elif k < 0.85:
                o = g.o_send()
            elif k < 0.93:
                # somebody pays to a key this wallet (or an earlier copy of it) may hold
                o = g.op('events')
                c = [(l, v) for l, bi, v, s in g.outlabels if l not in g.gone and s[0] == 'f' and v > g.fee + 2]
                if c:
                    l, v = g.pick(c)
                    lab = g.label('E')
                    g.gone.add(l)
                    g.events.append({'a': 0, 'op': o['id'], 'at': 'start', 'ev': 'spend', 'node': 0, 'tx': {
                        't': 'spend', 'from': [l], 'outs': [[None, 'w0.%d' % g.r.randrange(14)]], 'label': lab}})
                    g.mine(o)
            else:
                o = g.settle()
            if g.chance(0.2) and o['op'] != 'events':
                g.net_trouble(o)
            if g.chance(0.1) and o['op'] != 'events':
                o['crash'] = g.pick([g.ordinal(), 'post'])
        if g.chance(0.7):
            g.op('forget')
    o = g.o_open(**opts)
    return g.spec()


def cosign_world(g, n=None):
    n = n or g.r.choice([2, 2, 3, 3, 4])
    g.world(wallets=n, keys=(1, 2), outs=(0, 1), foreign=2, multisigs=0, mempool=0, spends=0, lock_p=0, bs=0)
    r = g.r
    g.ms = []
    for _ in range(r.choice([1, 1, 2])):
        owners = ['w%d.%d' % (i, g.pick(g.wkeys[i])) for i in range(n) if g.chance(0.85) or i < 2]
        if g.chance(0.2):
            owners.append('f5')
        if g.chance(0.15) and len(g.wkeys[0]) > 1:
            owners = sorted(set(owners + ['w0.0', 'w0.1']))
        r.shuffle(owners)
        m = r.randint(1, len([o for o in owners if o[0] == 'w']))
        g.ms.append('ms:%d:%s' % (m, ','.join(owners)))
    for s in g.ms:
        for _ in range(r.randint(1, 3)):
            g.put(g.maybe_lock(s, 0.1), r.randint(5, 500) * TFT)
        for o in s.split(':')[2].split(','):
            if o not in g.setup['keys']:
                g.setup['keys'].append(o)
    if g.chance(0.3):
        # and what it was sent, but is in no block yet
        have = [x for x in g.outlabels if x[3] in ('f0', 'f1') and x[0] not in g.gone and x[2] > g.fee + 10]
        for l, bi, v, _ in r.sample(have, min(len(have), r.choice([1, 1, 2]))):
            m = g.pick(g.ms)
            lab, v = g.label('S'), v - g.fee
            g.gone.add(l)
            k = r.choice([1, 2, 3])
            vals = [v // 4] * (k - 1)
            outs = [[x, m] for x in vals + [v - sum(vals)]]
            g.pool.append({'t': 'spend', 'from': [l], 'outs': outs, 'label': lab})
            for i, (x, _) in enumerate(outs):
                g.outlabels.append(('%s:%d' % (lab, i), 99, x, m))
                g.gone.add('%s:%d' % (lab, i))
    g.actors = [{'name': 'owner%d' % i} for i in range(n)]
    return n


def cosign_steps(g, n, docs, steps, main='sign', patience=40):
    """owners sign, in some order, the newest or an older copy of the document"""
    r = g.r
    docs = list(docs)
    for _ in range(steps):
        a = r.randrange(n)
        d = docs[-1] if g.chance(0.75) else g.pick(docs)
        new = g.label('D')
        o = g.op('sign', a, doc=d, form=g.pick(['str', 'dict', 'obj', 'str']), save=new, until='doc:' + d, patience=patience, wait=r.choice([0, 0, 1, 30]))
        if g.chance(0.12):
            o['submit'] = False
        if len(docs) > 1 and g.chance(0.3):
            # the signatures of two copies that went different ways
            o['with'] = g.pick(docs)
            if g.chance(0.3):
                o['twice'] = True
        if g.chance(0.05):
            o['stranger'] = r.randrange(10 ** 4)
            o.pop('save')
        if g.chance(0.12):
            g.post_trouble(o)
        elif g.chance(0.12):
            g.net_trouble(o)
        if g.chance(0.15):
            g.event(o, ['block', 'block', 'partition', 'heal', 'reorg'])
        if g.chance(0.06):
            o['crash'] = g.pick([g.ordinal(), 'post'])
            g.o_open(a, a)
        if g.chance(0.9):
            docs.append(new)
    return docs


def p_C09(g):
    if g.chance(0.12):
        return joint_world(g)
    n = cosign_world(g)
    r = g.r
    for i in range(n):
        g.o_open(i, i)
    a = r.randrange(n)
    for _ in range(r.choice([1, 1, 2])):
        src = '@' + g.pick(g.ms)
        if g.chance(0.3):
            src = [src, '@w%d.0' % a]
        lab = g.label('t')
        tot = r.choice([r.randint(1, 60) * TFT, r.randint(1, 400) * TFT])
        late = [x[2] for x in g.outlabels if x[3] == src[1:] and x[1] == 99] if isinstance(src, str) else []
        if late and g.chance(0.6):
            tot = max(1, sum(x[2] for x in g.outlabels if x[3] == src[1:] and x[1] != 99) + sum(r.sample(late, r.randint(1, len(late)))) - g.fee - r.choice([0, 0, 1, TFT]))
        o = g.op('coins_send', a, to=g.recipient(), amount=g.amount_arg(tot), source=src, label=lab, data=g.data_plain())
        o.setdefault('to', None)
        if g.chance(0.25):
            o['op'] = 'builder'
            o['outs'] = [[tot, o.pop('to'), None]]
            o.pop('amount')
        cosign_steps(g, n, [lab], r.randint(2, 2 * n + 1))
    return g.spec(max_requests=4000)


def p_C10(g):
    k = g.r.random()
    if k < 0.22:
        return swap_story(g)
    g.world(wallets=1, keys=(1, 3), outs=(1, 4), rich=1, multisigs=1, mempool=1, swaps=4, lock_p=0.1)
    g.o_open()
    for _ in range(g.r.randint(3, 9)):
        k = g.r.random()
        if k < 0.3:
            o = o_swap_make(g, hsh=any_hash(g) if g.chance(0.4) else None)
        elif k < 0.75:
            o = o_claim(g)
        elif k < 0.85:
            o = o_verify(g)
        else:
            o = g.settle()
            if g.chance(0.4):
                g.mine(o, 0, g.r.choice([86400, 86400, 172800, 3600]), edge=0.5)
        if g.chance(0.2):
            g.event(o, ['block', 'block', 'block', 'reorg', 'partition', 'heal', 'skew', 'drop_mempool'])
        if g.chance(0.08):
            if g.chance(0.7):
                # and this wallet claims it before it has seen the key
                c = o_claim(g)
                lab = g.other_device(c, swap=True)
                c['out'] = '~out:%s:0' % lab
                if c['op'] == 'swap_redeem':
                    c['secret'] = g.swaps[-1]['secret']
            else:
                g.other_device(o, swap=True)
        if g.chance(0.12):
            g.post_trouble(o)
        if g.chance(0.12):
            g.net_trouble(o)
    return g.spec()


def swap_story(g):
    """two users who follow the swap protocol through crashes and faults"""
    r = g.r
    g.world(wallets=2, keys=(1, 1), outs=(0, 1), rich=2, foreign=1, multisigs=0, mempool=0, spends=0, lock_p=0, bs=0, nodes=r.choice([1, 2, 3]))
    g.setup['gossip'] = True
    g.actors = [{'name': 'alice'}, {'name': 'bob'}, {'name': 'miner'}]
    av, bv = r.randint(2, 50) * TFT + r.randint(0, 9), r.randint(2, 50) * TFT + r.randint(0, 9)
    quit_b = g.chance(0.2)      # bob loses interest before he participates
    quit_a = g.chance(0.15)     # alice never redeems (her process is gone)
    base = {'av': av, 'bv': bv}
    for a, role in ((0, 'alice'), (1, 'bob')):
        mode = g.pick(['safe', 'safe', 'direct'])
        n = r.choice([0, 0, 1, 2, 3])
        for i in range(n + 1):
            o = g.op('swap_party', a, role=role, mode=mode, poll=r.choice([600, 1800, 3600]), hours=120, **base)
            if (role == 'bob' and quit_b) or (role == 'alice' and quit_a):
                o['quit'] = True
            if i < n:
                o['crash'] = g.pick([r.randrange(0, 30), r.randrange(0, 120), 'post', 'post'])
                if r.random() < 0.4:
                    g.ops[-1]['wait'] = r.choice([0, 60, 3600])
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                f = g.fault(o, LIVE_NET + ['http500', 'http503', 'garbage', 'truncate', 'midreset'], at=r.randrange(0, 150))
                f['times'] = 1
            if g.chance(0.4):
                f = g.fault(o, ACK_FAULTS * 2 + ['reset_before', 'http500', 'garbage'], 'post')
                f['times'] = r.choice([1, 1, 2])
    script = {}
    if g.nodes > 1 and g.chance(0.4):
        i = r.randint(1, 6)
        script[str(i)] = [{'ev': 'partition', 'node': r.randrange(g.nodes)}]
        script[str(i + r.randint(1, 3))] = [{'ev': 'heal'}]
    if g.nodes > 1 and g.chance(0.3):
        i, nd = r.randint(1, 8), r.randrange(1, g.nodes)
        script.setdefault(str(i), []).append({'ev': 'crash', 'node': nd})
        script.setdefault(str(i + r.randint(1, 4)), []).append({'ev': 'restart', 'node': nd})
    if g.chance(0.3):
        script.setdefault(str(r.randint(1, 30)), []).append({'ev': 'reorg', 'node': 0, 'depth': 1, 'dts': [3600, 60]})
    g.op('mine_loop', 2, n=85, every=3600, script=script)
    return g.spec(max_requests=8000, swap=base)


def p_C11(g):
    g.world(wallets=1, keys=(1, 3), outs=(0, 2), rich=1, multisigs=0, mempool=1, swaps=5, lock_p=0.1)
    g.o_open()
    for _ in range(g.r.randint(4, 10)):
        k = g.r.random()
        if k < 0.62:
            o = o_verify(g)
        elif k < 0.72:
            o = o_swap_make(g, hsh=any_hash(g) if g.chance(0.4) else None)
        elif k < 0.85:
            o = o_claim(g)
            if g.chance(0.3):
                # spent, told so, and unspent again
                if g.chance(0.7):
                    g.settle(n=1)
                v = o_verify(g, out=o['out'])
                again(g, v, depth=g.pick([1, 2, 2]))
        else:
            o = g.settle()
            if g.chance(0.4):
                g.mine(o, 0, g.r.choice([86400, 60, 172800, 3600]))
        if o['op'] == 'swap_verify' and g.chance(0.12):
            again(g, o)
        if g.chance(0.2):
            g.event(o, ['block', 'block', 'block', 'reorg', 'partition', 'heal', 'skew'])
        if g.chance(0.06):
            g.other_device(o, swap=True)
        if g.chance(0.1):
            g.net_trouble(o)
    return g.spec()


def p_C12(g):
    r = g.r
    if g.chance(0.5):
        full_world(g, mints=g.pick([0, 1, 3]), bots=0, swaps=0, erc=0, mint=g.pick(['w0.0', 'w0.0', 'f999', 'ms:1:w0.0,f7', 'ms:2:w0.0,f7', 'ms:1:f7,f8']))
        g.o_open()
        for _ in range(r.randint(3, 9)):
            o = o_mint(g) if g.chance(0.8) else g.settle()
            if o.get('label') and g.chance(0.2):
                cosign_tail(g, o['label'])
            if g.chance(0.2):
                g.event(o)
            if g.chance(0.1):
                g.net_trouble(o)
            if g.chance(0.1):
                g.post_trouble(o)
        if o['op'] in READS and g.chance(0.2):
            again(g, o)
        return g.spec()
    n = cosign_world(g)
    owners = ['w%d.0' % i for i in range(n)]
    m = r.randint(1, n)
    g.mint = g.setup['mint'] = 'ms:%d:%s' % (m, ','.join(owners))
    for w in owners:
        if w not in g.setup['keys']:
            g.setup['keys'].append(w)
        if int(w.split('.')[1]) not in g.wkeys[int(w[1])]:
            g.wkeys[int(w[1])].append(0)
    for i in range(n):
        g.o_open(i, i)
    for _ in range(r.choice([1, 1, 2])):
        a = r.randrange(n)
        lab = g.label('t')
        if g.chance(0.4):
            to = g.pick([['@w0.0', '@w1.0'], '@w1.0', {'$tuple': [1, ['@w0.0', '@f7']]}])
            g.op('mint_def', a, to=to, data=g.data_plain(), label=lab)
        else:
            g.op('mint_coins', a, to=g.recipient() or '@f1', amount=g.amount_arg(g.amount()), data=g.data_plain(), label=lab)
        cosign_steps(g, n, [lab], r.randint(2, 2 * n + 1))
        if g.chance(0.5):
            o = g.settle(a)
            g.op('mint_get', a, height=g.pick([-1, 0, g.H]))
    return g.spec(max_requests=4000)


def p_C13(g):
    r = g.r
    two = g.chance(0.35)
    g.world(wallets=2 if two else 1, keys=(1, 3), outs=(0, 2), rich=2, multisigs=1, mempool=1, bots=5, lock_p=0.1, spends=1)
    if two:
        g.actors = [{'name': 'u0'}, {'name': 'u1'}]
    for i in range(len(g.actors)):
        g.o_open(i, i)
    for _ in range(r.randint(4, 10)):
        a = r.randrange(len(g.actors))
        o = o_bot(g, a, a) if g.chance(0.85) else g.settle(a)
        if o['op'] == 'events' and g.chance(0.4):
            g.mine(o, 0, r.choice([86400, 10 * 86400, 29 * 86400, 31 * 86400]))
        if o['op'][:3] == 'bot' and g.chance(0.3):
            # right when a 3Bot expires
            g.mine(o, r.randrange(g.nodes), 86400, edge=1)
        if o['op'] in ('bot_update', 'bot_transfer') and g.chance(0.6):
            d = o['label']
            for _ in range(r.choice([1, 1, 2])):
                b = r.randrange(len(g.actors))
                new = g.label('D')
                g.op('sign', b, doc=d, form=g.pick(['str', 'dict', 'obj']), save=new, until='doc:' + d, patience=20,
                     **({'with': o['label']} if g.chance(0.2) else {}))
                d = new
        if g.chance(0.15):
            g.event(o, ['block', 'block', 'reorg', 'partition', 'heal'])
        if g.chance(0.1):
            g.net_trouble(o)
        if g.chance(0.08):
            g.post_trouble(o)
        if o['op'] in READS and g.chance(0.2):
            again(g, o)
    return g.spec(max_requests=4000)


def p_C14(g):
    r = g.r
    g.world(wallets=1, keys=(1, 4), outs=(0, 3), rich=2, multisigs=1, mempool=1, erc=3, lock_p=0.1)
    g.o_open()
    for _ in range(r.randint(4, 10)):
        k = g.r.random()
        if k < 0.8:
            o = o_erc(g)
        elif k < 0.85:
            o = g.op('address_new')
        elif k < 0.9:
            o = o_query(g)
        else:
            o = g.settle()
        if o.get('label') and o['op'] != 'swap_verify' and g.chance(0.1):
            cosign_tail(g, o['label'])
        if g.chance(0.15):
            g.event(o)
        if g.chance(0.05):
            g.other_device(o)
        if g.chance(0.12):
            g.net_trouble(o)
        if g.chance(0.06):
            g.post_trouble(o)
        if o['op'] in READS and g.chance(0.2):
            again(g, o)
    return g.spec()


def p_C15(g):
    r = g.r
    g.world(wallets=1, keys=(1, 2), outs=(1, 4), multisigs=2, mempool=2, swaps=2, lock_p=0.75, spends=2)
    g.actors[0]['skew'] = r.choice([-10 ** 9, -10 ** 8, -86400, -60, 0, 60, 86400, 10 ** 8, 10 ** 9])
    g.o_open()
    for _ in range(r.randint(4, 9)):
        k = g.r.random()
        if k < 0.25:
            o = o_balance(g)
        elif k < 0.45:
            o = g.o_send()
            if g.chance(0.5):
                o['lock'] = g.lock_arg() or '+1h'
        elif k < 0.52:
            o = g.o_drain()
        elif k < 0.64:
            o = o_swap_make(g, hsh=any_hash(g) if g.chance(0.4) else None)
            o['refund_time'] = g.pick([g.duration_arg(), g.duration_arg(), g.calendar_arg(1), g.T + 60, g.T + 10 ** 6])
        elif k < 0.78:
            o = o_claim(g, refund=g.chance(0.8))
        elif k < 0.84:
            o = o_verify(g)
        else:
            o = g.op('events')
        if g.chance(0.55):
            g.mine(o, r.randrange(g.nodes), r.choice([1, 1, 2, 29, 30, 31, 59, 60, 61, 600, 3600, 86400]), edge=0.4, at=g.pick(['start', 'start', g.ordinal(), 'post']))
        if g.chance(0.3):
            g.event(o, ['skew'])
        if g.chance(0.1):
            g.event(o)
        if g.chance(0.12) and o['op'] != 'events':
            g.net_trouble(o)
    return g.spec()


def p_C16(g):
    full_world(g, wallets=g.r.choice([1, 2]), rich=2, lock_p=0.2, multisigs=3)
    g.o_open()
    for _ in range(g.r.randint(4, 9)):
        k = g.r.random()
        if k < 0.6:
            o = o_any(g)
        elif k < 0.7:
            o = g.o_send()
            o['source'] = '@' + g.pick(g.ms) if g.ms else None
            if o['source'] is None:
                o.pop('source')
        elif k < 0.92:
            o = g.op('tx_get', x=g.r.randrange(999), last=(True if g.chance(0.5) else None), v=g.pick([None, 'bs', 0, 128, 129, 144, 145, 146, 208, 209, 210]))
        else:
            o = g.settle()
        if o.get('label') and o['op'] in ('coins_send', 'builder', 'mint_def', 'mint_coins', 'swap_initiate', 'bot_update', 'bot_transfer', 'drain'):
            if g.chance(0.35):
                cosign_tail(g, o['label'])
            if g.chance(0.3):
                g.op('tx_get', label=o['label'], x=g.r.randrange(99))
        if g.chance(0.1):
            g.event(o)
        if g.chance(0.08) and o['op'] != 'events':
            g.net_trouble(o)
        if g.chance(0.06) and o.get('label'):
            g.post_trouble(o)
    return g.spec()


def p_C17(g):
    full_world(g, wallets=1, lock_p=0.3, spends=8, mempool=5, multisigs=3, nodes=g.r.choice([1, 1, 2, 3]))
    if g.chance(0.5):
        g.o_open()
    for _ in range(g.r.randint(5, 14)):
        k = g.r.random()
        if k < 0.72:
            o = o_query(g)
        elif k < 0.8:
            o = g.pick([lambda: o_bot(g), lambda: o_mint(g), lambda: o_erc(g)])()
        elif k < 0.88:
            o = g.o_send()
        else:
            o = g.settle()
        if g.chance(0.3):
            g.event(o)
        if g.chance(0.08):
            g.net_trouble(o)
        if o['op'] in READS and g.chance(0.15):
            again(g, o)
    return g.spec()


def tiny_world(g):
    """wallets that hold just (not) more than the fee"""
    r = g.r
    g.world(wallets=1, keys=(1, 1), outs=(0, 0), multisigs=0, mempool=0, spends=0, lock_p=0, foreign=1, bs=0)
    mine = ['ms:1:w0.0', 'ms:2:f1,w0.0'][:r.randint(0, 2)]
    purses = [(['w0.0'], None)] + [([m], m) for m in mine]
    for syms, _ in purses:
        total = g.fee + r.choice([-1, 0, 0, 0, 1, 2])
        n = r.choice([1, 2, 3, 5, 99])
        cut = sorted(r.sample(range(1, total), n - 1))
        vals = [b - a for a, b in zip([0] + cut, cut + [total])]
        outs = [[v, g.pick(syms)] for v in vals]
        u = r.choice([0, 0, 0, 1, n])
        if outs[u:]:
            g.blocks[r.randrange(len(g.blocks))]['txs'].append({'t': 'pay', 'label': g.label('M'), 'outs': outs[u:]})
        if outs[:u]:
            at = g.put('f0', sum(v for v, _ in outs[:u]) + g.fee, 0)
            g.pool.append({'t': 'spend', 'from': [at], 'outs': outs[:u], 'label': g.label('S')})
    g.o_open()
    for _ in range(r.randint(2, 4)):
        o = g.o_drain()
        o.pop('ms', None)
        if mine and g.chance(0.5):
            o['ms'] = '@' + g.pick(mine)
        if g.chance(0.1):
            g.event(o)
    return g.spec()


def p_C18(g):
    r = g.r
    if g.chance(0.06):
        return tiny_world(g)
    many = g.chance(0.25)
    g.world(wallets=r.choice([1, 1, 2]), keys=(1, 3), outs=(0, 5), multisigs=2, mempool=5, spends=3, lock_p=0.35, many=230 if many else 0, foreign=2)
    big = []
    if many:
        for b in g.blocks:
            for t in b['txs']:
                if t['label'][0] == 'M' and g.chance(0.5):
                    n = r.choice([98, 99, 100, 101, 197, 198, 199, 200])
                    used = [int(x.split(':')[1]) for d in [d for b2 in g.blocks for d in b2['txs']] + g.pool
                            for x in d.get('from', ()) if x.split(':')[0] == t['label']]
                    t['outs'] = (t['outs'] * 4)[:max([n] + [u + 1 for u in used])]
                    if g.ms and not t.get('legacy') and g.chance(0.3):
                        m = g.pick(g.ms)
                        few = r.choice([0, 0, 1, 50])
                        big.append(m)
                        t['outs'] = [o if i in used or i < few else [o[0], m] for i, o in enumerate(t['outs'])]
                    if g.chance(0.4):
                        # dust: batches not, or just, worth their fee
                        fee = 10 ** 9 if g.net == 'devnet' else 10 ** 8
                        v = r.choice([1, fee // 500, fee // 99, fee // 99 + 1, fee // 100])
                        outs = t['outs']
                        a = r.choice([0, 1, 50, 99, 99, 100])
                        first = g.chance(0.4)
                        t['outs'] = [[v, o[1]] if (a > i if first else a <= i) and i not in used else o for i, o in enumerate(outs)]
    g.o_open()
    for _ in range(r.randint(1, 2) if many else r.randint(2, 6)):
        k = g.r.random()
        if k < 0.75:
            o = g.o_drain()
            if big and g.chance(0.5):
                o['ms'] = '@' + g.pick(big)
            if o.get('submit') is False or 'ms' in o:
                for i in range(2):
                    cosign_tail(g, '%s.%d' % (o['label'], i), drained=True)
        elif k < 0.85:
            o = g.o_send()
        else:
            o = g.settle()
        if g.chance(0.12):
            g.event(o)
        if g.chance(0.05):
            g.net_trouble(o)
    return g.spec()


def p_C19(g):
    """failed calls, and other wallets, must leave no trace: judged by comparing with a run without them"""
    r = g.r
    two = g.chance(0.4)
    gaps = two and g.chance(0.5)
    full_world(g, wallets=2, nodes=r.choice([1, 2, 3]), rich=2, lock_p=0.1, **({'gaps': 1, 'keys': (1, 4)} if gaps else {}))
    g.setup['gossip'] = True
    g.o_open(0, 0)
    if two:
        g.actors = [{'name': 'main'}, {'name': 'other'}]
        g.o_open(1, g.pick([0, 1]))

    def plain(a):
        if gaps and g.chance(0.25):
            return g.op(g.pick(['address_new', 'address_new', 'addresses']), a)
        if g.chance(0.1):
            # a builder whose answer is lost, sent again
            o = g.op('builder', a, outs=[[g.pay_amount(0), g.recipient(), None]], data=g.data_arg(), keep=True)
            o['builder'] = 'K%d' % o['id']
            if g.chance(0.8):
                g.fault(o, ACK_FAULTS + ['reset_before', 'http500', 'stall_before', 'http400'], 'post')['times'] = 1
            else:
                g.net_trouble(o)
            if g.chance(0.3):
                g.settle(a)
            return g.op('builder', a, outs=o['outs'], builder=o['builder'], keep=True)
        k = g.r.random()
        if k < 0.3:
            return o_balance(g, a)
        if k < 0.4:
            return o_query(g, a)
        if k < 0.5:
            return o_verify(g, a)
        o = o_any(g, a, 0)
        if isinstance(o.get('lock'), (str, dict)):
            o.pop('lock')
        if o['op'] == 'builder':
            o['outs'] = [[n, t, l if not isinstance(l, (str, dict)) else None] for n, t, l in o['outs']]
        return o
    for _ in range(r.randint(4, 8)):
        if two and g.chance(0.4):
            o = g.pick([lambda: o_balance(g, 1), lambda: o_query(g, 1), lambda: o_verify(g, 1), lambda: g.op('addresses', 1), lambda: g.op('address_new', 1)])()
            o['wait'] = r.choice([0, 0, 1])
            continue
        n0 = len(g.ops)
        o = plain(0)
        if g.chance(0.5) and len(g.ops) == n0 + 1 and not o.get('keep'):
            k = r.randrange(4)
            if k == 0:
                g.fault(o, LIVE_NET[:-1], 'all')
            elif k == 1:
                g.fault(o, LIVE_NET[:-1], 'from', n=g.ordinal())
                if g.chance(0.4):
                    g.fault(o, ['reset_before', 'http500', 'stall_before'], 'post')
            elif k == 2:
                f = g.fault(o, BODY + STATUS, 'from', n=g.ordinal())
            else:
                f = g.fault(o, ['http500', 'http503', 'reset_before', 'eof_before', 'stall_before', 'http400'], 'post')
        elif g.chance(0.1):
            g.settle(0)
    return g.spec(diff=True)


def p_C20(g):
    r = g.r
    clone = g.chance(0.6)
    g.world(wallets=1, keys=(1, 2), outs=(1, 2), rich=4, multisigs=0, mempool=0, lock_p=0, mint=g.pick(['w0.0', 'w0.0', 'ms:1:w0.0,f7']))
    g.mint = g.setup['mint']
    if clone:
        n = r.choice([2, 2, 3])
        g.actors = [{'name': 'clone%d' % i, 'rng': 0, 'clone': True, 'skew': 0, 'entropy': i} for i in range(n)]
    steps = []
    for _ in range(r.randint(2, 5)):
        k = r.randrange(6)
        if k < 2:
            steps.append(('new_wallet', {}))
        elif k < 4:
            steps.append(('swap_initiate', {'to': '@f2', 'amount': {'$amount': r.randint(2, 9) * TFT, 'form': 0}, 'refund_time': None}))
        else:
            steps.append(('mint_coins', {'to': '@f1', 'amount': {'$amount': r.randint(1, 9) * TFT, 'form': 0}}))
    if g.chance(0.4):
        steps.insert(r.randint(0, len(steps)), ('forget', {}))
    for a in range(len(g.actors)):
        g.o_open(a, 0)
        for kind, kw in steps:
            o = g.op(kind, a, **kw)
            if kind != 'forget':
                o['label'] = g.label('q')
            if kind == 'forget':
                g.o_open(a, 0)
            elif g.chance(0.1):
                g.post_trouble(o)
            elif g.chance(0.1):
                g.net_trouble(o)
            elif g.chance(0.06):
                o['crash'] = 'post'
                g.o_open(a, 0)
    return g.spec(max_requests=3000)


def p_C21(g):
    r = g.r
    full_world(g, rich=2, lock_p=0.1, wallets=1, multisigs=2)
    g.o_open()

    def dmg(x):
        return {'$damage': x, 'how': g.pick(DAMAGE), 'x': r.randrange(10 ** 6)}
    for _ in range(r.randint(5, 11)):
        k = r.randrange(14)
        n = {'$amount': r.randint(1, 20) * TFT, 'form': 0}
        own, oth = '@' + g.pick(g.keysyms), '@f%d' % r.randrange(4)
        if k < 3:
            o = g.op('coins_send', 0, to=dmg(g.pick([own, oth, oth])), amount=n, bad='damaged-address')
        elif k == 3:
            l = [oth, dmg(g.pick([own, '@f5']))]
            o = g.op('coins_send', 0, to=g.pick([l, {'$tuple': [1, l]}]), amount=n, bad='damaged-owner')
        elif k == 4:
            o = g.op('coins_send', 0, to=oth, amount=n, source=dmg(own), bad='damaged-source')
        elif k == 5:
            o = g.op('coins_send', 0, to=oth, amount=n, refund=dmg(own), bad='damaged-refund')
        elif k == 6:
            o = g.op('uh_get', 0, target=g.pick([own, oth]), bad=g.pick(DAMAGE), x=r.randrange(10 ** 6))
        elif k == 7:
            if g.chance(0.5):
                o = g.op('swap_initiate', 0, to=dmg(oth), amount=dict(n, **{'$amount': 5 * TFT}), label=g.label('X'), bad='damaged-address')
            else:
                o = g.op('swap_participate', 0, to=oth, amount=dict(n, **{'$amount': 5 * TFT}), hash=damaged_hash(g), label=g.label('X'), bad='damaged-hash')
        elif k == 8 and g.swaps:
            w = g.pick(g.swaps)
            how = g.pick(['drop', 'dup', 'junk', 'cut'])
            if g.chance(0.5):
                # any damage of an id leads to another id, which nothing is known about
                o = g.op('swap_redeem', 0, out=dmg('~out:%s:0' % w['label']), secret=w['secret'], bad='damaged-id')
            else:
                o = g.op('swap_redeem', 0, out='~out:%s:0' % w['label'], secret={'$damage': w['secret'], 'how': g.pick(DAMAGE), 'x': r.randrange(10 ** 6)}, bad='damaged-secret')
        elif k == 9 and g.swaps:
            w = g.pick(g.swaps)
            o = g.op('swap_refund', 0, out=dmg('~out:%s:0' % w['label']), bad='damaged-id')
        elif k == 10 and g.swaps:
            w = g.pick(g.swaps)
            o = g.op('swap_verify', 0, out=dmg('~out:%s:0' % w['label']), bad='damaged-id')
        elif k == 11:
            o = g.op('erc20_send', 0, address=damaged_erc(g, g.pick([ERC, ERC, ERC[2:]])), amount=n, bad='damaged-address')
            if g.chance(0.3):
                o['via'] = 'coins_send'
        elif k == 12:
            o = g.op('erc20_register', 0, value=dmg(own), bad='damaged-address')
        elif k == 13:
            c = r.randrange(8)
            if c < 3:
                q = o_compose(g, 0, ('w0.',))
            elif c == 3:
                q = g.op('erc20_send', 0, address=ERC, amount=n, source='@' + g.pick(g.keysyms + g.ms[:1]), label=g.label('t'))
            elif c == 4:
                q = g.op('mint_coins', 0, to=g.recipient() or oth, amount=n, label=g.label('t'))
            elif c == 5:
                q = g.op('mint_def', 0, to=g.pick([oth, [own, oth], {'$tuple': [1, [own, oth]]}]), label=g.label('t'))
            else:
                q = g.op('coins_send', 0, to=g.pick([oth, oth, g.recipient() or oth]), amount=n, lock=g.lock_arg(), source='@' + g.ms[0], label=g.label('t')) if g.ms else g.o_send()
            o = g.op('sign', 0, doc=q['label'], form='str', damage={'how': g.pick(['drop', 'dup', 'cut', 'junk', 'flip', 'lack', 'null', 'blank', 'retype']), 'x': r.randrange(10 ** 6)})
        else:
            o = g.op('tx_get', 0, x=r.randrange(999), bad=g.pick(DAMAGE))
        if g.chance(0.1):
            g.net_trouble(o)
        if g.chance(0.1):
            g.event(o)
        if g.chance(0.1):
            g.op('mint_coins', 0, to=dmg(oth), amount=n, bad='damaged-address')
    return g.spec()


PROFILES = {k[2:]: v for k, v in list(globals().items()) if k.startswith('p_C')}
