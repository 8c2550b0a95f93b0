"""Adds to every recorded "params" event the table of exact band probabilities
(SigOps!ParamsLaw quantifies over it; TLC has no reals)."""
import json, os, struct
from decimal import Decimal, getcontext
getcontext().prec = 60
EPS = Decimal('1e-11')


def dec(bits):
    return Decimal(struct.unpack('<d', struct.pack('<Q', int(bits)))[0])


def table(s, n, p, upto):
    res = []
    for x in range(1, upto + 1):
        prob = 1 - (1 - s ** x) ** (n // x) if x <= n else Decimal(0)
        d = prob - p
        res.append(2 if abs(d) < max(EPS, n * Decimal('1e-15')) else 1 if d > 0 else 0)
    return res


def annotate(out):
    for f in sorted(os.listdir(out)):
        if not (f.startswith('trace') and f.endswith('.ndjson')):
            continue
        lines = []
        for l in open(os.path.join(out, f)):
            e = json.loads(l)
            if e['op'] == 'params':
                s, p = dec(e['s']), dec(e['p'])
                e['ok'] = table(s, e['n'], p, min(max(e['r'], 0), e['n']) + 1)
                e['s'], e['p'] = str(float(s)), str(float(p))
            lines.append(json.dumps(e))
        with open(os.path.join(out, f), 'w') as g:
            g.write('\n'.join(lines) + '\n')
