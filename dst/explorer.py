"""Explorer nodes: several HTTP endpoints over a shared block tree, each with its
own tip and memory pool."""
import json
from . import enc
from .enc import Tx, BadTx, pk_uh, erc20_of
from .chain import Block, View, TFT


class Node:
    def __init__(self, world, idx, tip):
        self.world, self.idx, self.tip = world, idx, tip
        self.mempool = []
        self.up = True
        self.group = 0

    def view(self):
        return View.of(self.tip, self.mempool)

    def offer(self, tx):
        """mempool admission -> list of errors"""
        if any(t.id == tx.id for t in self.mempool):
            return []
        e = self.view().state.validate(tx, self.world.minfee)
        if not e:
            self.mempool.append(tx)
        return e

    def adopt(self, block):
        if self.tip is block:
            return
        if block.height <= self.tip.height:
            return
        back = []
        old = self.tip
        b = old
        while not block.has(b):
            back = [t for t in b.txs] + back
            b = b.parent
        self.tip = block
        pool = back + self.mempool
        self.mempool = []
        known = {t.id for c in block.chain for t in c.txs}
        for t in pool:
            if t.id not in known and t.version != 209:
                self.offer(t)


class World:
    def __init__(self, net, nodes, blocks_tip):
        self.net = net
        self.minfee = TFT if net == 'devnet' else TFT // 10
        self.nodes = [Node(self, i, blocks_tip) for i in range(nodes)]
        self.gossip = True
        self.accepted = []     # (node idx, Tx)
        self.refused = []
        self.salt = 0
        self.payout_uh = None
        self.dup_refuse = False
        self.dress = None       # how documents are written where there is a choice
        self.order = 'chain'    # in which order transactions of an address are listed

    # ------------------------------------------------------------ world events
    def peers(self, node):
        return [n for n in self.nodes if n is not node and n.group == node.group and n.up]

    def submit(self, node, tx):
        known = any(t.id == tx.id for t in node.mempool) or node.view().find_tx(tx.id) is not None
        if known and not self.dup_refuse:
            return []
        if known:
            return [('state', 'duplicate', tx.id)]
        e = node.offer(tx)
        if not e:
            self.accepted.append((node.idx, tx))
            if self.gossip:
                for p in self.peers(node):
                    p.offer(tx)
        return e

    def sync_mempools(self):
        for n in self.nodes:
            if not n.up:
                continue
            for p in self.peers(n):
                for t in list(n.mempool):
                    p.offer(t)

    def mine(self, node_idx, dt, limit=None, deliver=True, extra=(), empty=False):
        node = self.nodes[node_idx]
        self.salt += 1
        txs = [] if empty else (node.mempool if limit is None else node.mempool[:limit])
        pays = [(10 * TFT, self.payout_uh)] if self.payout_uh else []
        if txs and self.payout_uh:
            pays.append((sum(sum(t.fees) for t in txs), self.payout_uh))
        b = Block(node.tip, node.tip.time + max(1, int(dt)), list(txs) + list(extra), pays, self.salt)
        node.adopt(b)
        if deliver:
            for p in self.peers(node):
                p.adopt(b)
        return b

    def instants(self, node_idx):
        """heights and times to come at which an output unlocks, a refund becomes possible or a 3Bot expires"""
        s = self.nodes[node_idx].tip.state
        heights, times = set(), {b.exp for b in s.bots.values()}
        for o in s.utxo.values():
            c = o.cond
            if c.type == 2:
                times.add(c.d['timelock'])
            elif c.type == 3:
                (heights if c.lock < 500000000 else times).add(c.lock)
        return sorted(x for x in heights if s.height < x <= s.height + 12), sorted(x for x in times if s.time < x)

    def reorg(self, node_idx, depth, dts, txsel=None, deliver=True):
        """replace the last `depth` blocks seen by the node with depth+1 other ones;
        transactions of the dropped blocks return to the mempool or vanish"""
        node = self.nodes[node_idx]
        base = node.tip
        dropped = []
        for _ in range(depth):
            if base.parent is None or base.height <= 1:
                break
            dropped = base.txs + dropped
            base = base.parent
        b = base
        for i, dt in enumerate(dts[:1 + (node.tip.height - base.height)] or [60]):
            self.salt += 1
            b = Block(b, b.time + max(1, int(dt)), [t for t in dropped if t.version == 209] if i == 0 else [], (), self.salt)
        while b.height <= node.tip.height:
            self.salt += 1
            b = Block(b, b.time + 60, [], (), self.salt)
        node.adopt(b)
        if deliver:
            for p in self.peers(node):
                p.adopt(b)
        return b

    def heal(self):
        for n in self.nodes:
            n.group = 0
        best = max((n for n in self.nodes if n.up), key=lambda n: (n.tip.height, -n.idx), default=None)
        if best is not None:
            for n in self.nodes:
                if n.up:
                    n.adopt(best.tip)
            self.sync_mempools()

    def crash(self, i):
        self.nodes[i].up = False
        self.nodes[i].mempool = []

    def restart(self, i):
        n = self.nodes[i]
        n.up = True
        for p in self.peers(n):
            n.adopt(p.tip)

    # ------------------------------------------------------------ HTTP
    def handle(self, i, method, path, body):
        node = self.nodes[i]
        try:
            st, obj = self._route(node, method, path, body)
        except BadTx as e:
            st, obj = 400, {'message': 'invalid: %s' % e}
        if obj is None:
            return st, b''
        if self.dress and st == 200 and method == 'GET':
            obj = dressed(obj, self.dress)
        return st, (json.dumps(obj, separators=(',', ':')) + '\n').encode()

    def _route(self, node, method, path, body):
        v = node.view()
        if method == 'POST':
            if path != '/transactionpool/transactions':
                return 404, {'message': '404 - Refer to API.md'}
            try:
                j = json.loads(body)
            except ValueError:
                return 400, {'message': 'failed to decode transaction'}
            tx = Tx(j)
            e = self.submit(node, tx)
            if e:
                self.refused.append((node.idx, tx, e))
                return 400, {'message': 'error after call to AcceptTransactionSet: %s' % (e,)}
            return 200, {'transactionid': tx.id}
        if method != 'GET':
            return 405, {'message': 'method'}
        p = path.split('/')
        if path == '/explorer':
            b = v.tip
            return 200, {'blockid': b.id, 'height': b.height, 'maturitytimestamp': maturity(b), 'difficulty': '1'}
        if path == '/explorer/constants':
            return 200, {'chaininfo': {'Name': 'tfchain', 'NetworkName': self.net}, 'blocksizelimit': 2000000}
        if path.startswith('/explorer/blocks/'):
            try:
                h = int(p[3])
            except ValueError:
                return 400, {'message': 'strconv.ParseUint'}
            if not 0 <= h < len(v.tip.chain):
                return 400, {'message': 'no block found at input height in call to /explorer/block'}
            return 200, {'block': self.j_block(v, v.tip.chain[h])}
        if path.startswith('/explorer/hashes/'):
            return self._hash(v, p[3])
        if path == '/explorer/mintcondition':
            return 200, {'mintcondition': v.base.mint_at().json()}
        if path.startswith('/explorer/mintcondition/'):
            h = int(p[3])
            if h > v.height:
                return 400, {'message': 'height not reached'}
            return 200, {'mintcondition': v.base.mint_at(h).json()}
        if path.startswith('/explorer/3bot/'):
            from urllib.parse import unquote
            ident = unquote(p[3])
            b = None
            if ident.isdigit():
                b = v.base.bots.get(int(ident))
            else:
                bid = v.base.pks.get(enc.pk_bytes(ident))
                b = v.base.bots.get(bid)
            return self._bot(b)
        if path.startswith('/explorer/whois/3bot/'):
            bid = v.base.name_owner(p[4])
            return self._bot(v.base.bots.get(bid))
        return 404, {'message': '404 - Refer to API.md'}

    def _bot(self, b):
        if b is None:
            return 204, None
        r = {'id': b.id, 'publickey': 'ed25519:' + b.pk.hex(), 'expiration': b.exp}
        if b.names:
            r['names'] = list(b.names)
        if b.addrs:
            r['addresses'] = list(b.addrs)
        return 200, {'record': r}

    def _hash(self, v, h):
        unknown = (400, {'message': 'unrecognized hash used as input to /explorer/hash'})
        if len(h) == 78:
            try:
                enc.uh_raw(h)
            except BadTx:
                return 400, {'message': 'could not decode unlock hash'}
            txs = v.txs_of(h)
            ms = v.multisigs_of(h)
            reg = v.base.erc20.get(h)
            if not txs and not ms and reg is None:
                return unknown
            r = {'hashtype': 'unlockhash', 'block': NULL_BLOCK, 'blocks': None, 'transaction': NULL_TX,
                 'transactions': [self.j_tx(v, t, b) for t, b in self.listed(txs)] or None,
                 'multisigaddresses': sorted(ms) or None, 'unconfirmed': False}
            if reg is not None:
                r['erc20info'] = {'tftaddress': h, 'erc20address': erc20_of(h), 'confirmations': v.height - reg}
            return 200, r
        if len(h) != 64:
            return 400, {'message': 'could not decode hash'}
        for b in v.tip.chain:
            if b.id == h:
                return 200, {'hashtype': 'blockid', 'block': self.j_block(v, b), 'transaction': NULL_TX,
                             'transactions': None, 'multisigaddresses': None, 'unconfirmed': False}
        f = v.find_tx(h)
        if f:
            t, b = f
            return 200, {'hashtype': 'transactionid', 'block': NULL_BLOCK, 'transaction': self.j_tx(v, t, b),
                         'transactions': None, 'multisigaddresses': None, 'unconfirmed': b is None}
        for kind, outs in (('coinoutputid', v.base.outs), ('blockstakeoutputid', v.base.bsouts)):
            if h in outs:
                ids = [outs[h][1]]
                sp = v.base.spent.get(h)
                if sp is not None:
                    ids.append(sp)
                txs = [v.find_tx(x) for x in sorted(ids)]
                return 200, {'hashtype': kind, 'block': NULL_BLOCK, 'transaction': NULL_TX,
                             'transactions': [self.j_tx(v, t, b) for t, b in txs],
                             'multisigaddresses': None, 'unconfirmed': False}
        return unknown

    def listed(self, txs):
        if self.order == 'chain':
            return txs
        if self.order == 'reverse':
            return txs[::-1]
        # by identifier, unconfirmed transactions last, as in the index of a real explorer
        return sorted(txs, key=lambda x: (x[1] is None, x[0].id))

    # ------------------------------------------------------------ documents
    def j_tx(self, v, t, b):
        s = v.state
        r = {'id': t.id, 'height': b.height if b is not None else 0,
             'parent': b.id if b is not None else '00' * 32,
             'rawtransaction': t.j,
             'coininputoutputs': [dict(s.outs[x.pid][0].json(), unlockhash=s.outs[x.pid][0].cond.uh)
                                  for x in t.inputs if x.pid in s.outs] or None,
             'coinoutputids': [t.coin_id(i) for i in range(len(t.outputs))] or None,
             'coinoutputunlockhashes': [o.cond.uh for o in t.outputs] or None,
             'blockstakeinputoutputs': [s.bsouts[x.pid][0].json() for x in t.bsin if x.pid in s.bsouts] or None,
             'blockstakeoutputids': [t.bs_id(i) for i in range(len(t.bsout))] or None,
             'unconfirmed': b is None}
        return r

    def j_block(self, v, b):
        return {'blockid': b.id, 'height': b.height, 'difficulty': '1', 'maturitytimestamp': maturity(b),
                'transactions': [self.j_tx(v, t, b) for t in b.txs] or None,
                'minerpayoutids': b.payout_ids() or None,
                'rawblock': {'parentid': b.parent.id if b.parent else '00' * 32, 'timestamp': b.time,
                             'pobsindexes': {'BlockHeight': 0},
                             'minerpayouts': [{'value': str(x), 'unlockhash': u} for x, u in b.payouts] or None,
                             'transactions': [t.j for t in b.txs]}}


LISTS = ('transactions', 'multisigaddresses', 'coininputoutputs', 'coinoutputids', 'blockstakeinputoutputs', 'blockstakeoutputids',
         'minerpayoutids', 'minerpayouts')
RAW = ('coininputs', 'coinoutputs', 'blockstakeinputs', 'blockstakeoutputs')


def dressed(j, how, at=''):
    """the same answer written differently: 'list' empty lists for null, 'bare' without or with null for what is empty in a
    raw transaction, 'extra' with members that mean nothing to the library"""
    if isinstance(j, list):
        return [dressed(x, how, at) for x in j]
    if not isinstance(j, dict):
        return j
    raw = at == 'raw' or 'version' in j and 'data' in j
    r = {k: dressed(x, how, 'raw' if raw else k) for k, x in j.items()}
    if how == 'list':
        for k in LISTS:
            if k in r and r[k] is None:
                r[k] = []
    elif how == 'bare':
        if at == 'raw':
            for i, k in enumerate(RAW):
                if k in r and not r[k]:
                    if i % 2:
                        del r[k]
                    else:
                        r[k] = None
        elif at == 'record':
            r.setdefault('names', None)
            r.setdefault('addresses', None)
    elif how == 'extra' and not raw and at != 'data' and 'type' not in r and 'value' not in r:
        r['estimate'], r['notes'], r['size'] = None, {'data': [], 'version': 7}, 12
    return r


def maturity(b):
    """what explorers report as maturity timestamp: the time of an older block"""
    for _ in range(2):
        b = b.parent or b
    return b.time


NULL_BLOCK = {'blockid': '00' * 32, 'height': 0, 'transactions': None, 'minerpayoutids': None,
              'rawblock': {'parentid': '00' * 32, 'timestamp': 0, 'minerpayouts': None, 'transactions': None}}
NULL_TX = {'id': '00' * 32, 'height': 0, 'parent': '00' * 32, 'rawtransaction': {'version': 0, 'data': {
    'coininputs': [], 'minerfees': None}}, 'coininputoutputs': None, 'coinoutputids': None,
    'blockstakeinputoutputs': None, 'blockstakeoutputids': None, 'unconfirmed': False}
