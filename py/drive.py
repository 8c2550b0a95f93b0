#!/usr/bin/env python3
"""drive.py PACKAGE_DIR KIND OUT SHARDS SEED COUNT [SCRIPT]   KIND: min, sim, conf
Uses the real Python package and records what it answers."""
import json, math, os, random, re, signal, sys
from decimal import Decimal
PKG, KIND, OUT, SHARDS, SEED, COUNT = sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]), int(sys.argv[6])
SCRIPT = sys.argv[7] if len(sys.argv) > 7 else None
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from params import table as exact_table
sys.path.insert(0, PKG)

MINWORDS = ['a', 'b', 'cc', '\u00c9t', 'Ab', 'ab', 'x1', '\u4e2d', 'd', 'B', 'CC', '\u0391\u03a3', '\u03a3\u03b1', '\u0130\u0416', '\u03a3']
CHARS = 'aAbBc\u00c9\u4e2d .\u03a3\u0391\u0130\u0416\U0001f600'
ODD = ['\ufeff', '\u200b', '\u00a0', '\u3000', '\x00', '\x0b', '\u2028', '\x1f', '\u0301', '\x7f', '\x85', '\u00ad', '\\', '\r']
SEPS = [' ', ' ', ' ', ', ', '.', '\n', '  ', '-', '\t', '!? ']
# upper case letters with what they become; the capital sigma depends on where it stands, the specification says how
FOLD = [[ord(c), [ord(x) for x in c.lower()]] for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ\u00c9\u0391\u0130\u0416']
analyzer = lambda d: [x for x in d.split('|') if x]
cps = lambda s: [ord(c) for c in s]


class Session:
    """The lines of one session."""
    def __init__(self):
        self.lines = []

    def emit(self, **k):
        self.lines.append(k)


def fold(s):
    return s.lower()


def words(s):
    punct = set('!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~ \t\n\r\x0c')
    r, cur = [], ''
    for c in s:
        if c in punct:
            if cur:
                r.append(cur)
            cur = ''
        else:
            cur += c
    return r + ([cur] if cur else [])


def vocabulary(cfg, docs):
    """Tokens (as the specification writes them) with a document that consists of the token alone."""
    voc = {}
    for d in docs:
        if cfg['an'] == 'call':
            for p in analyzer(d):
                voc[json.dumps(cps(p))] = (p, len(p))     # the one character n-gram of full length
            continue
        f = fold(d) if cfg['lower'] else d
        if cfg['an'] == 'word':
            w = words(f)
            if not cfg['rng']:
                for x in w:
                    voc[json.dumps([cps(x)])] = (x, None)
                continue
            for n in range(cfg['rng'][0], cfg['rng'][1] + 1):
                for i in range(len(w) - n + 1):
                    voc[json.dumps([cps(x) for x in w[i:i + n]])] = (' '.join(w[i:i + n]), n)
        else:
            a, b = cfg['rng'] or (3, 4)
            for n in range(a, b + 1):
                for i in range(len(f) - n + 1):
                    voc[json.dumps(cps(f[i:i + n]))] = (f[i:i + n], n)
    return voc


def make_docs(rng, cfg, n, long):
    def one():
        k = rng.randrange(0, 8) if not long else rng.choice([0, 1, 3, 7, 8, 9, 10, 12])
        if rng.random() < 0.08:
            k = rng.randrange(12, 40)
        if cfg['an'] == 'char':
            return [rng.choice(CHARS) for _ in range(k + 2 if long else k)]
        return [rng.choice(MINWORDS) for _ in range(k)]

    def text(p):
        if cfg['an'] == 'char':
            return ''.join(p)
        if cfg['an'] == 'call':
            return rng.choice(['|', '||', '|']).join(p) + rng.choice(['', '', '|'])
        s = rng.choice(['', '', ' ', '.'])
        for x in p:
            s += x + rng.choice(SEPS)
        return s
    docs, parts = [], []
    while len(docs) < n:
        if parts and rng.random() < 0.7:
            p = list(rng.choice(parts))
            for _ in range(rng.choice([0, 1, 1, 2])):
                c = rng.randrange(5)
                if c == 0 and p:
                    p.pop(rng.randrange(len(p)))
                elif c == 1:
                    p.insert(rng.randrange(len(p) + 1), rng.choice(MINWORDS if cfg['an'] != 'char' else ['a', 'b', 'Z']))
                elif c == 2 and p:
                    i = rng.randrange(len(p))
                    p[i] = p[i].swapcase() if p[i].isascii() else p[i]
                elif c == 3 and p:      # another document of the same length
                    i = rng.randrange(len(p))
                    p[i] = rng.choice([x for x in (MINWORDS if cfg['an'] != 'char' else CHARS) if len(x) == len(p[i])] or [p[i]])
                elif p:
                    p.append(p[rng.randrange(len(p))])
        else:
            p = one()
        parts.append(p)
        t = text(p)
        if rng.random() < 0.15:     # characters that are easily taken for nothing
            o = rng.choice(ODD)
            t = rng.choice([o + t, t + o, t + o + o, t[:len(t) // 2] + o + t[len(t) // 2:]])
        docs.append(t)
    if rng.random() < 0.12:      # a long document, with its variety at the end
        pool = MINWORDS if cfg['an'] != 'char' else CHARS
        pre, k = rng.choice(pool), rng.choice([60, 127, 130, 256, 258, 300, 520])
        p = [pre] * k + [rng.choice(pool) for _ in range(rng.randrange(0, 8))]
        q = list(p)             # the same length, different at one place
        i = rng.choice([0, len(p) // 2, len(p) - 1, rng.randrange(len(p))])
        q[i] = rng.choice([x for x in pool if len(x) == len(q[i])])
        docs[rng.randrange(n)] = text(p)
        docs[rng.randrange(n)] = text(q)
        docs[rng.randrange(n)] = text(p[-12:])
    return docs


def pack(lists):
    """Distinct answers, and which one each query got.  The order of ids, and of ids next to each other with the same value, does not matter."""
    seen, tab, at = {}, [], []
    for x in lists:
        if x and isinstance(x[0], list):
            y, i = [], 0
            while i < len(x):
                j = i
                while j < len(x) and x[j][1] == x[i][1]:
                    j += 1
                y += sorted(x[i:j])
                i = j
            x = y
        else:
            x = sorted(x)
        k = json.dumps(x)
        if k not in seen:
            tab.append(x)
            seen[k] = len(tab)
        at.append(seen[k])
    return tab, at


def batch(s, ids, ds):
    if len(ids) > 200 and ids == list(range(ids[0], ids[0] + len(ids))):
        s.emit(op='bulk', first=ids[0], ds=[d + 1 for d in ds])
    else:
        s.emit(op='bulk', ids=ids, ds=[d + 1 for d in ds])


class Ids:
    """The ids of a session: the specification numbers them, the index gets numbers from the whole range."""
    def __init__(self, rng):
        self.rng, self.big, self.out, self.back = rng, rng.random() < 0.4, {}, {}

    def real(self, i):
        if i not in self.out:
            r = i
            while self.big and (r == i or r in self.back):
                r = self.rng.choice([i, -i, i + (1 << 31), i + (1 << 32), i - (1 << 32), (1 << 63) - 1 - abs(i), abs(i) - (1 << 63), (i << 40) + 3, self.rng.randrange(-1 << 63, 1 << 63)])
                if r not in self.back and self.rng.random() < 0.2:
                    break
            self.out[i], self.back[r] = r, i
        return self.out[i]

    def spec(self, r):
        return self.back.get(r, -7777)


MANY = [255, 256, 257, 300, 512, 700, 1023, 1025, 2050]


def helper(native, cls, args, cfg, n):
    an = 'word' if cfg['an'] == 'word' else 'char'
    return cls(*args, an, False, (n, n) if n else None)


def layout(thr, n):
    """The layout that the law of C10 asks for (exact arithmetic); None where the target is met too narrowly."""
    t = exact_table(Decimal(thr), n, Decimal(0.99), n)
    r = 1
    while n // r > 1 and r < n and t[r] == 1:
        r += 1
    if n // r > 1 and r < n and t[r] == 2:
        return None, None
    return n // r, r


def described(text, name):
    m = re.search(r'(?<![A-Za-z0-9_])%s = ([0-9.eE+-]+)' % name, text)
    return float(m.group(1)) if m else -1.0


def min_session(rng, cfg, hist):
    import gaoya
    from gaoya.gaoya import minhash as native
    s = Session()
    kw = {}
    lay = rng.randrange(40)
    if lay == 0:
        b, w, thr = 42, 3, 0.5
        kw = dict(num_bands=None, band_size=None, num_hashes=128)
    elif lay == 1:
        b, w, thr = 39, 5, 0.7
        kw = dict(num_bands=rng.choice([None, 7]), band_size=None, num_hashes=196)
    elif lay <= 4:
        b = None
        while b is None:
            thr, nh = rng.choice([0.0, 0.1, 0.25, 0.4, 0.5, 0.55, 0.7, 0.8, 0.9, 0.95, 1.0]), rng.choice([1, 2, 3, 7, 10, 16, 21, 30, 50])
            b, w = layout(thr, nh)
        kw = dict(num_bands=None, band_size=rng.choice([None, 3]), num_hashes=nh)
    else:
        b, w = rng.choice([(1, 1), (4, 1), (8, 1), (3, 2), (2, 3), (6, 2), (12, 1), (1, 4), (4, 3)])
        thr = rng.choice([0.0, 0.0, 0.25, 0.5, 0.5, 0.75, 1.0, 1 / 3, 0.6])
        kw = dict(num_bands=b, band_size=w)
        if rng.random() < 0.2:
            kw['num_hashes'] = rng.choice([7, 128])
    n = b * w
    docs = make_docs(rng, cfg, 7 if lay > 1 else 4, False)
    voc = vocabulary(cfg, docs)
    wide = 64 if cfg['hash'] == 64 else 32
    cls = getattr(native, 'MinHash%dStringIntIndexHashSet' % wide)
    hs = {}
    sigs = []
    for d, size in voc.values():
        if size not in hs:
            hs[size] = helper(native, cls, (0.5, b, w, None), cfg, size)
        sigs.append(list(hs[size].tokenize_and_minhash(d)))
    order = [sorted({x[i] for x in sigs if i < len(x)} | {0}) for i in range(n)]
    ranks = [{v: k for k, v in enumerate(o)} for o in order]
    rank = [[ranks[i][x[i]] if i < n else 0 for i in range(len(x))] for x in sigs]
    low = [] if cfg['hash'] >= 32 else [[v % (1 << cfg['hash']) for v in o] for o in order]
    need = next((k for k in range(n + 1) if k / n >= thr), n + 1)
    s.emit(op='new', b=b, w=w, need=need, thr=repr(float(thr)), hash=cfg['hash'], cont=cfg['cont'], an=cfg['an'], lower=cfg['lower'], rng=cfg['rng'], fold=FOLD,
           docs=[cps(d) for d in docs], toks=[json.loads(t) for t in voc], rank=rank, low=low, text=docs)
    an = analyzer if cfg['an'] == 'call' else cfg['an']
    during = 'constructor'
    try:
        ix = gaoya.minhash.MinHashStringIndex(hash_size=cfg['hash'], jaccard_threshold=thr, analyzer=an, lowercase=bool(cfg['lower']),
                                              ngram_range=tuple(cfg['rng']) if cfg['rng'] else None, id_container=cfg['cont'], **kw)
        nat = next((v for v in vars(ix).values() if hasattr(v, 'par_bulk_insert_tokens')), None)
        live, nxt, ids_of = [], 1, Ids(rng)
        sims = lambda l: [[ids_of.spec(i), round(x * n) if abs(x * n - round(x * n)) < 1e-6 else -1] for i, x in l]
        for step, o in enumerate(hist):
            during = o
            if o == 'ins':
                d = rng.randrange(len(docs))
                ix.insert_document(ids_of.real(nxt), docs[d])
                s.emit(op='insert', id=nxt, d=d + 1)
                live.append(nxt)
                nxt += 1
            elif o == 'again':
                i, d = rng.choice(live) if live else -5, rng.randrange(len(docs))
                ix.insert_document(ids_of.real(i), docs[d])
                s.emit(op='insert', id=i, d=d + 1)
                if i not in live:
                    live.append(i)
            elif o in ('bulk', 'big', 'huge'):
                k = rng.choice([0, 1, 2, 3, 5]) if o == 'bulk' else rng.choice([99, 100, 100, 101, 130]) if o == 'big' else rng.choice(MANY)
                ids = list(range(nxt, nxt + k))
                for _ in range(rng.choice([0, 0, 1, 2])):
                    if k > 1:
                        ids[rng.randrange(k)] = rng.choice(ids[:k] + live)
                ds = [rng.randrange(len(docs)) for _ in range(k)]
                if cfg['an'] == 'call' and nat is not None and rng.random() < 0.5:
                    during = o + ' par_bulk_insert_tokens'
                    nat.par_bulk_insert_tokens([ids_of.real(i) for i in ids], [analyzer(docs[d]) for d in ds])
                else:
                    ix.par_bulk_insert_docs([ids_of.real(i) for i in ids], [docs[d] for d in ds])
                batch(s, ids, ds)
                live += [i for i in ids if i not in live]
                nxt += k
            elif o == 'rem' or o == 'absent':
                i = rng.choice(live) if o == 'rem' and live else 9999
                ix.remove(ids_of.real(i))
                s.emit(op='remove', id=i)
                if i in live:
                    live.remove(i)
            during = 'size'
            s.emit(op='size', size=ix.size())
            during = 'description'
            for text in (str(ix), repr(ix))[:1 if step else 2]:
                s.emit(op='desc', desc=[int(described(text, k)) for k in ('num_hashes', 'bands', 'rows_per_band', 'size')], thr=repr(described(text, 'threshold')))
            if step < len(hist) - 1 and rng.random() < 0.5 and o != 'huge':
                continue
            for d in rng.sample(range(len(docs)), min(3, len(docs))):
                during = 'query'
                a = ix.query(docs[d])
                during = 'query with similarity'
                s.emit(op='q', d=d + 1, ids=[ids_of.spec(i) for i in a], sims=sims(ix.query(docs[d], return_similarity=True)))
            ds = [rng.randrange(len(docs)) for _ in range(rng.choice([0, 1, 3, 4]) if o != 'huge' else rng.choice(MANY))]
            during = 'bulk query'
            a = ix.par_bulk_query([docs[d] for d in ds])
            during = 'bulk query with similarity'
            b = [sims(x) for x in ix.par_bulk_query([docs[d] for d in ds], return_similarity=True)]
            (a, at), (b, bt) = pack([[ids_of.spec(i) for i in x] for x in a]), pack(b)
            s.emit(op='bq', ds=[d + 1 for d in ds], ids=a, at=at, sims=b, bt=bt)
    except BaseException as ex:
        s.emit(op='panic', during=during, error=repr(ex)[:200])
    return s


LAYOUTS = [(6, 5), (3, 2), (3, 0), (4, 1), (8, 6), (16, 14), (20, 18), (32, 31), (32, 30), (24, 22), (12, 10), (28, 27), (5, 4)]


def sim_session(rng, cfg, hist):
    import gaoya
    from gaoya.gaoya import simhash as native
    s = Session()
    blocks, k = rng.choice(LAYOUTS)
    docs = make_docs(rng, cfg, 7, True)
    voc = vocabulary(cfg, docs)
    cls = getattr(native, 'SimHash%dStringIntIndex' % cfg['hash'])
    hs, bits = {}, []
    for d, size in voc.values():
        if size not in hs:
            hs[size] = helper(native, cls, (3, 2), cfg, size)
        v = hs[size].tokenize_and_simhash(d)
        bits.append([(v >> i) & 1 for i in range(cfg['hash'])])
    s.emit(op='new', blocks=blocks, k=k, width=cfg['hash'], an=cfg['an'], lower=cfg['lower'], rng=cfg['rng'], fold=FOLD,
           docs=[cps(d) for d in docs], toks=[json.loads(t) for t in voc], bits=bits, text=docs)
    an = analyzer if cfg['an'] == 'call' else cfg['an']
    during = 'constructor'
    try:
        ix = gaoya.simhash.SimHashStringIndex(hash_size=cfg['hash'], num_blocks=blocks, hamming_distance=k, analyzer=an, lowercase=bool(cfg['lower']),
                                              ngram_range=tuple(cfg['rng']) if cfg['rng'] else None)
        nat = next((v for v in vars(ix).values() if hasattr(v, 'par_bulk_insert_docs')), None)
        live, nxt, ids_of = [], 1, Ids(rng)
        lst = lambda l: [[ids_of.spec(i), x] for i, x in l]
        for step, o in enumerate(hist):
            during = o
            if o == 'again' or o == 'ins' or nat is None:
                i = (rng.choice(live) if live else -5) if o == 'again' else nxt
                nxt += o != 'again'
                d = rng.randrange(len(docs))
                ix.insert_document(ids_of.real(i), docs[d])
                s.emit(op='insert', id=i, d=d + 1)
                if i not in live:
                    live.append(i)
            else:
                m = rng.choice([0, 1, 2, 3, 5]) if o == 'bulk' else rng.choice([99, 100, 100, 101, 130]) if o == 'big' else rng.choice(MANY)
                ids = list(range(nxt, nxt + m))
                ds = [rng.randrange(len(docs)) for _ in range(m)]
                during = 'bulk insertion'
                if cfg['an'] == 'call':
                    nat.par_bulk_insert_tokens([ids_of.real(i) for i in ids], [analyzer(docs[d]) for d in ds])
                else:
                    nat.par_bulk_insert_docs([ids_of.real(i) for i in ids], [docs[d] for d in ds])
                batch(s, ids, ds)
                live += ids
                nxt += m
            if step < len(hist) - 1 and rng.random() < 0.5 and o != 'huge':
                continue
            for d in rng.sample(range(len(docs)), min(3, len(docs))):
                during = 'query'
                a = ix.query(docs[d])
                during = 'query with distances'
                s.emit(op='q', d=d + 1, ids=[ids_of.spec(i) for i in a], sims=lst(ix.query(docs[d], return_hamming_distance=True)))
            ds = [rng.randrange(len(docs)) for _ in range(rng.choice([0, 1, 3, 4]) if o != 'huge' else rng.choice(MANY))]
            during = 'bulk query'
            a = ix.par_bulk_query([docs[d] for d in ds])
            during = 'bulk query with distances'
            b = [lst(x) for x in ix.par_bulk_query([docs[d] for d in ds], return_similarity=True)]
            (a, at), (b, bt) = pack([[ids_of.spec(i) for i in x] for x in a]), pack(b)
            s.emit(op='bq', ds=[d + 1 for d in ds], ids=a, at=at, sims=b, bt=bt)
    except BaseException as ex:
        s.emit(op='panic', during=during, error=repr(ex)[:200])
    return s


THR = dict(below=-1e-9, neg=-3.0, zero=0.0, izero=0, low=0.1, half=0.5, one=1.0, ione=1, over=1.0000001, two=2.0, nan=math.nan, inf=math.inf, ninf=-math.inf)


def conf_session(c):
    """One constructor call."""
    import gaoya
    s = Session()
    s.emit(op='new')
    none = lambda x: None if x == 'none' else x
    an = none(c['an']) if c['an'] != 'call' else (lambda d: d.split())
    out, works = 'ok', 1
    try:
        if c['kind'] == 'min':
            ix = gaoya.minhash.MinHashStringIndex(hash_size=none(c['hash']), jaccard_threshold=THR[c['thr']], num_bands=c['nb'] or None, band_size=c['bs'] or None,
                                                  num_hashes=c['nh'] or None, analyzer=an, id_container=none(c['cont']))
        else:
            ix = gaoya.simhash.SimHashStringIndex(hash_size=none(c['hash']), num_blocks=c['blocks'], hamming_distance=c['k'], analyzer=an)
    except BaseException as ex:
        out = type(ex).__name__
    if out == 'ok':
        try:
            docs = ['the first document here', 'quite another text altogether']
            for i, d in enumerate(docs):
                ix.insert_document(i + 1, d)
            for i, d in enumerate(docs):
                if i + 1 not in ix.query(d):
                    works = 0
            if [[x for x in l if x == i + 1] for i, l in enumerate(ix.par_bulk_query(docs))] != [[1], [2]]:
                works = 0
            if c['kind'] == 'min' and ix.size() != 2:
                works = 0
        except BaseException as ex:
            works, c['error'] = 0, repr(ex)[:200]
    s.emit(**dict(c, op='conf', out=out, works=works))
    return s


def main():
    script = [json.loads(l) for l in open(SCRIPT)] if SCRIPT else []
    os.makedirs(OUT, exist_ok=True)
    jobs = [(b.get('cfg'), b.get('hist'), b) for b in script]
    rng = random.Random(SEED * 7 + 5)
    for _ in range(COUNT if KIND != 'conf' else 0):
        r = rng.choice([[], [1, 1], [2, 2], [1, 2], [2, 3], [1, 4], [3, 5], [4, 4], [2, 5]])
        cfg = dict(an=rng.choice(['word', 'char', 'call']), lower=rng.randrange(2), rng=r)
        if KIND == 'min':
            cfg.update(hash=rng.choice([8, 16, 32, 64]), cont=rng.choice(['set', 'vec', 'smallvec']))
            ops = ['ins', 'ins', 'again', 'bulk', 'rem', 'rem', 'absent']
        else:
            cfg.update(hash=rng.choice([64, 128]))
            ops = ['ins', 'ins', 'again', 'bulk']
        hist = [rng.choice(ops) for _ in range(rng.randrange(2, 9))]
        if rng.random() < 0.3:
            hist[rng.randrange(len(hist))] = 'big'
        if rng.random() < 0.08:
            hist[rng.randrange(len(hist))] = 'huge'
        jobs.append((cfg, hist, None))
    pids = []
    for sh in range(SHARDS):
        pid = os.fork()
        if pid:
            pids.append(pid)
            continue
        code = 1
        try:
            kinds, n, ev = {}, 0, 0
            with open('%s/trace%d.ndjson' % (OUT, sh), 'w') as f:
                for j in range(sh, len(jobs), SHARDS):
                    cfg, hist, raw = jobs[j]
                    signal.alarm(40)        # a call that does not return ends this process
                    r = random.Random((SEED * 1000003 + j) * 31 + 7)
                    s = conf_session(raw) if KIND == 'conf' else (min_session if KIND == 'min' else sim_session)(r, cfg, hist)
                    for x in s.lines:
                        kinds[x['op']] = kinds.get(x['op'], 0) + 1
                        f.write(json.dumps(x) + '\n')
                    n += 1
                    ev += len(s.lines)
            json.dump(dict(sessions=n, events=ev, kinds=kinds), open('%s/part%d.json' % (OUT, sh), 'w'))
            code = 0
        except BaseException:
            import traceback
            traceback.print_exc()
        finally:
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(code)
    rc = 0
    for sh, p in enumerate(pids):
        st = os.waitpid(p, 0)[1]
        if os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
            f = '%s/trace%d.ndjson' % (OUT, sh)
            d = open(f).read()
            d = d[:d.rfind('\n') + 1] + json.dumps(dict(op='panic', during='a call that did not return', error='hang')) + '\n'
            open(f, 'w').write(d)
            json.dump(dict(sessions=1, events=d.count('\n'), kinds=dict(panic=1)), open('%s/part%d.json' % (OUT, sh), 'w'))
        elif os.WIFSIGNALED(st):
            os.kill(os.getpid(), os.WTERMSIG(st))
        else:
            rc = rc or os.WEXITSTATUS(st)
    if rc:
        sys.exit(rc)
    tot = dict(sessions=0, events=0, kinds={})
    for sh in range(SHARDS):
        p = json.load(open('%s/part%d.json' % (OUT, sh)))
        tot['sessions'] += p['sessions']
        tot['events'] += p['events']
        for k, v in p['kinds'].items():
            tot['kinds'][k] = tot['kinds'].get(k, 0) + v
    json.dump(tot, open(OUT + '/summary.json', 'w'))


main()
