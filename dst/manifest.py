"""Writes MANIFEST.json:  python -m dst.manifest"""
import json
import os

PY = '/opt/venv/bin/python'
NOTE = {
    'C01': 'every submission of every operation is validated by an independent consensus model against the views served',
    'C02': 'payments, builders and refunds compared with the requested outputs and the documented change address',
    'C03': 'lost, delayed and duplicated acknowledgements, crashes between submission and answer',
    'C04': 'balances compared with an independent fold of the reference chain under growth, reorganisation and partition',
    'C05': 'inputs and insufficient-funds verdicts compared with the admissible outputs of the views served',
    'C06': 'failing explorers in every stage of a request; liveness as a bound on tries per request',
    'C07': 'damaged, truncated, retyped and mismatched answers for every kind of request',
    'C08': 'recreation of wallets after crashes, with key gaps and scan windows, interrupted scans',
    'C09': 'co-signers exchanging documents in any order with losses, duplicates and stale copies',
    'C10': 'two-party swap protocol under delays, crashes, reorganisations and partitions until final settlement',
    'C11': 'verification verdicts compared with the reference chain over all demand forms',
    'C12': 'minting under changing mint conditions, several minters',
    'C13': '3Bot transactions and record look-ups compared with a reference registry',
    'C14': 'ERC20 conversion, registration and listing compared with the reference chain',
    'C15': 'block time, local clock, skew and jumps around every lock boundary',
    'C16': 'identifiers, signature hashes, binary form and reloading of every transaction made in any simulated history',
    'C17': 'client look-ups compared with the view the explorer served',
    'C18': 'draining, signing and submitting under changing views',
    'C19': 'runs with failed calls, or calls of others, compared with the same runs without them',
    'C20': 'cloned actors with equal clock and pseudo-random state and different operating-system entropy',
    'C21': 'damaged addresses, ids and documents handed to every operation',
}
NA = {
    'C30': 'pure text parsing: the result depends on its argument alone, there is no schedule, clock, fault or other party to simulate '
           '(where a parsed duration meets a clock it is part of C15)',
    'C31': 'pure text parsing without any schedule, clock, fault or other party (names that reach the registry are part of C13)',
    'C32': 'pure functions outside of any transaction; what of them reaches the chain is compared byte for byte under C01 and C16',
}


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    props = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
    checks = []
    for p in props:
        if p in NA:
            continue
        cmd = '%s -m dst.check %s --tier ' % (PY, p)
        checks.append({'property': p, 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough', 'evidence_file': 'evidence/%s.json' % p,
                       'technique': 'deterministic simulation with fault injection (seeded search over schedules, faults and histories, '
                                    'reference-model oracle)',
                       'level': 'exploration', 'level_note': NOTE[p] + '; sampled seeds, not exhaustive'})
    m = {'version': 1, 'setup_cmd': '%s -B -m dst.selftest' % PY, 'checks': checks,
         'not_applicable': [{'property': p, 'reason': NA[p]} for p in props if p in NA],
         'notes': 'No hooks in /repo: every seam (sockets, name lookup, clock, sleep, entropy, threads) is replaced inside the process that '
                  'runs the simulation. Replay: %s -m dst.check --replay replays/<file>.' % PY}
    with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
