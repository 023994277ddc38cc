"""What a transaction object says about itself through its public properties, against the decoded document."""
import json
from .chain import bot_fee
from .enc import Cond, netaddr, pk_uh
from .lib import units


def cond_key(c):
    return Cond(json.loads(json.dumps(c.json()))).key()


def outs(l, stakes=False):
    return [(int(o.value.json()) if stakes and hasattr(o.value, 'json') else int(o.value) if stakes else units(o.value),
             cond_key(o.condition)) for o in l]


def raw(d):
    return bytes(d.value) if hasattr(d, 'value') else bytes(d)


def pk_hex(p):
    return raw(p.hash).hex()


def said(t, v):
    """{property: canonical value} of a transaction object of version v"""
    r = {'version': v if v == 0 else int(getattr(t.version, 'value', t.version)),      # version 0 is decoded as version 1
         'coin_inputs': [str(i.parentid) for i in t.coin_inputs],
         'coin_outputs': outs(t.coin_outputs),
         'miner_fees': [units(f) for f in t.miner_fees]}
    if v in (0, 1):
        r['blockstake_inputs'] = [str(i.parentid) for i in t.blockstake_inputs]
        r['blockstake_outputs'] = outs(t.blockstake_outputs, True)
    if v in (0, 1, 128, 129):
        r['data'] = raw(t.data)
    if v == 128:
        r['mint_condition'] = cond_key(t.mint_condition)
    if v == 144:
        r['addresses'] = [netaddr(str(a)) for a in t.addresses]
        r['names'] = [str(n) for n in t.names]
        r['number_of_months'] = t.number_of_months
        r['public_key'] = pk_hex(t.public_key)
    if v == 145:
        r['botid'] = t.botid
        for k in ('addresses_to_add', 'addresses_to_remove'):
            r[k] = [netaddr(str(a)) for a in getattr(t, k)]
        for k in ('names_to_add', 'names_to_remove'):
            r[k] = [str(a) for a in getattr(t, k)]
        r['number_of_months'] = t.number_of_months
    if v == 146:
        r['sender_botid'], r['receiver_botid'] = t.sender_botid, t.receiver_botid
        r['names'] = [str(n) for n in t.names]
    if v in (144, 145, 146):
        r['required_bot_fees'] = units(t.required_bot_fees)
    if v == 208:
        r['address'] = str(t.address).lower().replace('0x', '')
        r['value'] = units(t.value)
    if v == 209:
        r['address'] = str(t.address)
        r['value'] = units(t.value)
        r['blockid'] = str(t.blockid).lower().replace('0x', '')
        r['transactionid'] = str(t.transactionid).lower().replace('0x', '')
    if v == 210:
        r['public_key'] = pk_hex(t.public_key)
        r['unlockhash'] = str(t.public_key.unlockhash)
        r['registration_fee'] = units(t.registration_fee)
    if v in (144, 145, 146, 208, 209, 210):
        r['transaction_fee'] = units(t.transaction_fee)
    if v in (144, 145, 146, 208, 210):
        r['refund_coin_output'] = outs([t.refund_coin_output]) if t.coin_outputs else []
    return r


def meant(x):
    """the same for a decoded transaction"""
    v = x.version
    o = [(y.value, y.cond.key()) for y in x.outputs]
    r = {'version': v, 'coin_inputs': [i.pid for i in x.inputs], 'coin_outputs': o, 'miner_fees': x.fees}
    if v in (0, 1):
        r['blockstake_inputs'] = [i.pid for i in x.bsin]
        r['blockstake_outputs'] = [(y.value, y.cond.key()) for y in x.bsout]
    if v in (0, 1, 128, 129):
        r['data'] = x.arb
    if v == 128:
        r['mint_condition'] = x.mintc.key()
    if v == 144:
        r['addresses'] = [a for _, a in x.addrs]
        r['names'] = [n for n, _ in x.names]
        r['number_of_months'] = x.months
        r['public_key'] = x.pk.hex()
    if v == 145:
        r['botid'] = x.botid
        r['addresses_to_add'], r['addresses_to_remove'] = [a for _, a in x.a_add], [a for _, a in x.a_rem]
        r['names_to_add'], r['names_to_remove'] = [n for n, _ in x.n_add], [n for n, _ in x.n_rem]
        r['number_of_months'] = x.months
    if v == 146:
        r['sender_botid'], r['receiver_botid'] = x.sender, x.receiver
        r['names'] = [n for n, _ in x.names]
    if v in (144, 145, 146):
        r['required_bot_fees'] = bot_fee(x)
    if v == 208:
        r['address'], r['value'] = x.erc.hex(), x.value
    if v == 209:
        r['address'], r['value'] = x.addr, x.value
        r['blockid'], r['transactionid'] = x.blockid.hex(), x.txid.hex()
    if v == 210:
        r['public_key'], r['unlockhash'], r['registration_fee'] = x.pk.hex(), pk_uh(x.pk), x.regfee
    if v in (144, 145, 146, 208, 209, 210):
        r['transaction_fee'] = x.fees[0]
    if v in (144, 145, 146, 208, 210):
        r['refund_coin_output'] = o
    return r


def differ(t, x):
    """names of the properties of transaction object t that disagree with decoded transaction x"""
    try:
        got = said(t, x.version)
    except Exception as e:
        return ['%r' % (e,)]
    want = meant(x)
    return ['%s: %s instead of %s' % (k, got[k], want[k]) for k in want if got[k] != want[k]]
