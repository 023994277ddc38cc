"""Self-check of the reference encoders against vectors of the real network."""
import json
import os
import sys
from . import enc


def run():
    vec = json.load(open(os.path.join(os.path.dirname(__file__), 'vectors.json')))
    n = 0
    for v in vec:
        tx = enc.Tx(v['tx'], complete=False)
        for expr, want in v['checks']:
            if 'binary_encode' in expr:
                got = tx.binary().hex()
            elif 'blockstake' in expr:
                got = tx.bs_id(0)
            elif 'coin_outputid' in expr:
                got = tx.coin_id(0)
            elif 'SENDER' in expr:
                got = tx.sighash(b'sender').hex()
            elif 'RECEIVER' in expr:
                got = tx.sighash(b'receiver').hex()
            else:
                i = int(expr.split('get(')[1].split(')')[0])
                if tx.version == 209:
                    continue
                got = tx.sighash(enc.i8(i)).hex()
            if got != want:
                return 'vector mismatch v%d %s\n%s\n%s' % (tx.version, expr, got, want)
            n += 1
    return n


if __name__ == '__main__':
    r = run()
    print(r)
    sys.exit(0 if isinstance(r, int) and r > 15 else 2)
