#!/usr/bin/env python3
"""./replay FILE: re-executes a reported violation against /repo's current tree (exit 1 if it still fails)."""
import sys, os, json
os.environ['DV_PROFILE'] = json.load(open(sys.argv[1])).get('profile', 'dev')
import verify, replay, consts, ct
from fields import FIELDS, CURVES
from optab import OPS
from multiprocessing import Pool
r = json.load(open(sys.argv[1])); c = verify.Check('replay'); c.build()
print('property %s, %s\nfunction %s' % (r['property'], r['job'], r['function']))
for o in r['obligations'][:4]: print('obligation not discharged: %s: %s' % (o['name'], o['detail'][:400]))
x = r['concrete']; rc = 0
try:
    if x is None: print('no failing input was found; re-run ./check %s to re-verify' % r['property'])
    else:
        rp = replay.Replay(verify.BINARY)
        if x['kind'] == 'field':
            o = rp.batch(x.get('lines', [x['line']]))[-1]; print('input  %s\noutput %s' % (x['line'], o)); e = replay.check(FIELDS[x['field']], OPS[x['op']], x['args'], o)
        elif x['kind'] == 'point':
            o = rp.batch(x.get('lines', [x['line']]))[-1]; print('input  %s\noutput %s' % (x['line'], o)); e = replay.pcheck(CURVES[x['curve']], x['op'], x['args'], o)
        elif x['kind'] == 'history':
            outs = rp.batch(x['lines']); e = None
            for l, o in zip(x['lines'], outs): print(l[:200], '->', o[:200]); e = e or (o if o.startswith(('PANIC', 'CRASH', 'HANG')) else None)
        elif x['kind'] == 'const': e = consts.const_search(rp, FIELDS[x['field']], x['const'])
        elif x['kind'] == 'mask': e = replay.mask_search(rp, FIELDS[x['field']], x['how'], x['variant'], x['seed'], x['n'])
        else:
            t1, t2 = (ct.trace(verify.BINARY, x['wrapper'], l, verify.SCRATCH) for l in (x['line'], x['line2']))
            e = None if t1 == t2 else 'executed instructions differ between %s and %s' % (x['line'], x['line2'])
        print('still fails: %s' % (e,) if e else 'does not fail any more'); rc = 1 if e else 0
finally: verify.cleanup()
sys.exit(rc)
