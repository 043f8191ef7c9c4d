"""File conformance: models generated from spec/EntityGen.tla are decorated with parameter
values, names and Globals, written and read by the real library (harness/drv_core) and
the recorded trace, with the bytes of every file, is validated by spec/IgesTrace.tla."""
import json, os, random
from collections import Counter
import vlib, graph, mutate

PRINT = [chr(c) for c in range(32, 127)]
WORDS = ['a', 'IGES', 'x,y;z', '1H;', '3Habc', ' lead', 'trail ', '/', "it's", 'H', '12', '-1.5', '5HMODEL', 'D', ';', ',', ';;', ',,', 'T      1', 'S0000001']


def esc(s):
    return ''.join(c if (c.isalnum() or c in '._') else '%%%02X' % ord(c) for c in s) or '-'


def dec(m, e):
    return (m, e)


class Deco:
    """decorates one behaviour of EntityGen: real values, names, comments, Globals, Start text"""

    def __init__(self, rng, script, glob=False):
        self.r = rng
        self.g = 2.2 if glob else 1
        self.script = [list(o) for o in script]

    def text(self, long=0.2, edge=True):
        r = self.r
        x = r.random()
        if x < 0.15:
            s = r.choice(WORDS)
        elif x < 0.15 + long:
            n = r.choice([61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 100, 127, 128, 129, 140, 143, 144, 145, 150, 200, r.randint(60, 300)])
            s = ''.join(r.choice(PRINT) for _ in range(n))
        else:
            s = ''.join(r.choice(PRINT) for _ in range(r.randint(1, 30)))
        return s if edge else s.strip()

    def num(self, nz=False, pos=False, e=None):
        r = self.r
        while True:
            d = r.choice([1, 1, 2, 3, 4, 5, 6, 7, 8])
            m = r.randint(1, 10 ** d - 1) if (r.random() < 0.85 or nz or pos) else 0
            ex = r.choice([0, 0, 0, -1, -2, -3, -3, -7 if d < 6 else -3]) if e is None else e
            if m % 10 ** min(d, 3) == 0 and m:
                m += 1
            if not pos and r.random() < 0.45:
                m = -m
            return (m, ex if m else 0)

    def vals(self, k):
        r, N = self.r, self.num
        Z = (0, 0)
        if k == 100:
            c = r.choice([1, 2, 7, 15, 100, 123])
            e = r.choice([0, 0, -1, -2, 1])
            x, y = r.randint(-500, 500), r.randint(-500, 500)
            ds = [(5, 0), (0, 5), (-5, 0), (0, -5), (3, 4), (-3, 4), (4, -3), (-4, -3)]
            a, b = r.choice(ds), r.choice(ds)
            return [N(), (x, e), (y, e), (x + c * a[0], e), (y + c * a[1], e), (x + c * b[0], e), (y + c * b[1], e)]
        if k == 104:      # an ellipse with its axes along x and y, the end points on them
            a, b = r.randint(1, 9), r.randint(1, 9)
            pts = [(a, 0), (0, b), (-a, 0), (0, -b)]
            p, q = r.choice(pts), r.choice(pts)
            return [(b * b, 0), Z, (a * a, 0), Z, Z, (-a * a * b * b, 0), N(), (p[0], 0), (p[1], 0), (q[0], 0), (q[1], 0)]
        if k == 110:
            return [N() for _ in range(6)]
        if k == 120:
            a = r.randint(0, 300)
            return [(a, -2), (a + r.randint(1, 300), -2)]
        if k == 122:
            return [N(), N(), N(nz=True)]
        if k == 124:
            R = r.choice([(1, 0, 0, 0, 1, 0, 0, 0, 1), (0, -1, 0, 1, 0, 0, 0, 0, 1), (0, 1, 0, 1, 0, 0, 0, 0, -1), (0, 0, 1, 1, 0, 0, 0, 1, 0)])
            v = []
            for i in range(3):
                v += [(x, 0) for x in R[3 * i:3 * i + 3]] + [N()]
            return v
        if k == 126:
            n = r.randint(2, 6)
            o = r.randint(2, min(n, 4))
            rat = r.random() < 0.4
            kn = [(0, 0)] * o + [(i, 0) for i in range(1, n - o + 1)] + [(n - o + 1, 0)] * o
            c = []
            for i in range(n):
                c += [N(), N(), N()] + ([(1, 0) if i in (0, n - 1) else (r.randint(1, 30), -1)] if rat else [])
            return [(n, 0), (o, 0), (int(rat), 0), (0, 0), (n - o + 1, 0)] + kn + c
        if k == 128:
            n1, n2 = r.randint(2, 4), r.randint(2, 4)
            o1, o2 = r.randint(2, n1), r.randint(2, n2)
            rat = r.random() < 0.4
            k1 = [(0, 0)] * o1 + [(i, 0) for i in range(1, n1 - o1 + 1)] + [(n1 - o1 + 1, 0)] * o1
            k2 = [(0, 0)] * o2 + [(i, 0) for i in range(1, n2 - o2 + 1)] + [(n2 - o2 + 1, 0)] * o2
            c = []
            for i in range(n1 * n2):
                c += [N(), N(), N()] + ([(r.randint(1, 30), -1)] if rat else [])
            return [(n1, 0), (n2, 0), (o1, 0), (o2, 0), (int(rat), 0), (0, 0), (0, 0), (0, 0), (n1 - o1 + 1, 0), (0, 0), (n2 - o2 + 1, 0)] + k1 + k2 + c
        if k == 142:
            return [(r.randint(0, 3), 0), (r.randint(0, 3), 0)]
        if k == 154:
            return [N(pos=True, e=-1), N(pos=True, e=-1), N(), N(), N()] + r.choice([[Z, Z, (1, 0)], [(1, 0), Z, Z], [Z, (-1, 0), Z], [(6, -1), Z, (8, -1)]])
        if k == 164:
            return [N(pos=True, e=-1)] + r.choice([[Z, Z, (1, 0)], [(1, 0), Z, Z], [Z, (-6, -1), (8, -1)]])
        if k == 314:
            return [(r.randint(0, 1000), -1) for _ in range(3)]
        if k == 408:
            return [N(), N(), N(), N(pos=True, e=-1)]
        return None

    # attributes the format ignores for a kind
    IGN = {124: {3, 4, 6, 9}, 314: {1, 2, 6, 7, 9}, 406: {1, 2, 3, 4, 6, 7, 9}, 142: {2, 3}, 144: {2, 3}, 154: {2, 3}, 164: {2, 3}, 180: {2}, 308: {2}}

    def build(self):
        r = self.r
        kind, out, linked, placed = {}, [], set(), []
        # most boolean trees of a random behaviour are incomplete: usually replaced by a complete one
        trees = {o[2] for o in self.script if o[0] == 'new' and o[3] == 180} if r.random() < 0.85 else set()
        for o in self.script:
            if o[0] == 'new' and o[2] in trees or o[0] != 'new' and trees & set(o[1:4]) and o[0] in ('set', 'app', 'rem', 'xap', 'xrm', 'top', 'tcl') and (o[1] in trees or o[-1] in trees) or o[0] == 'at' and o[1] in trees:
                continue
            if o[0] == 'new':
                kind[o[2]] = o[3]
            if o[0] in ('cull', 'del', 'free'):
                continue
            if o[0] == 'at' and (o[2] in self.IGN.get(kind[o[1]], ()) or o[2] == 10):
                continue
            if o[0] == 'set' and o[2] == 8 and kind[o[1]] in (314, 406):
                continue
            if o[0] == 'app' and kind.get(o[1]) == 102:
                linked.add(o[2])
            if o[0] == 'set' and kind.get(o[1]) == 164:
                linked.add(o[3])
            if o[0] == 'set' and o[2] == 8:
                placed.append((o[1], o[3]))
            out.append(' '.join(map(str, o)))
        # matrices which place a member of a chain stay as they are: the chain would not be one
        for _ in range(4):
            linked |= {t for x, t in placed if x in linked}
        solids = [i for i, k in kind.items() if k == 154]
        if trees and len(solids) > 1:
            t = min(trees)
            r.shuffle(solids)
            out.append('new 1 %d 180 0 1' % t)
            kind[t] = 180
            out += ['app %d %d' % (t, solids[0]), 'app %d %d' % (t, solids[1])]
            for x in solids[2:]:
                out += ['top %d %d' % (t, r.randint(1, 3)), 'app %d %d' % (t, x)]
            out.append('top %d %d' % (t, r.randint(1, 3)))
            props = [i for i, k in kind.items() if k == 406]
            if props and r.random() < 0.6:
                out += ['xap %d %d' % (t, x) for x in r.sample(props, r.randint(1, len(props)))]
        for i, k in kind.items():
            if i in linked and k != 120:
                continue
            if r.random() < 0.75 or k == 120:
                v = self.vals(k)
                if v:
                    out.append('val %d %s' % (i, ' '.join('%d %d' % x for x in v)))
        for i, k in kind.items():
            if r.random() < 0.25:
                s = ''.join(r.choice(PRINT) for _ in range(r.randint(1, 8))).strip() if r.random() < .7 else r.choice(['ABC', '12345678', 'X'])
                if s:
                    out.append('label %d %s' % (i, esc(s)))
            if k in (308, 406) and r.random() < 0.7 or k == 314 and r.random() < 0.5:
                out.append('name %d %s' % (i, esc(self.text(long=0.5))))
            if r.random() < 0.2:
                for _ in range(r.randint(1, 3)):
                    out.append('comment %d %s' % (i, esc(self.text(long=0.4))))
        for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
            out.append('head 1 %s' % esc(self.text(long=0.5)))
        for f in ('idss', 'idrs', 'nsys', 'author', 'org', 'note'):
            if r.random() < 0.35 * self.g:
                out.append('gset 1 %s %s' % (f, esc(self.text(long=0.3))))
        if r.random() < 0.2 * self.g:
            out.append('gset 1 cdate ' + r.choice(['20200229.235959', '19991231.000000', '700101.120000', '20261119.120000']))
        if r.random() < 0.4 * self.g:
            self.delims(out)
        if r.random() < 0.3 * self.g:
            out.append('gset 1 lw %s' % r.choice(['0.5', '2.25', '1e-4', '12.5', '0']))
        if r.random() < 0.3 * self.g:
            out.append('gset 1 res %s' % r.choice(['1e-6', '1e-4', '1e-8', '0.0005', '1e-9', '2e-11']))
        if r.random() < 0.4 * self.g:
            out.append('gset 1 draft %d' % r.randint(0, 7))
        if r.random() < 0.3 * self.g:
            out.append('gset 1 lwg %d' % r.choice([5, 6, 9, 100]))
        self.kind = kind
        return out

    def delims(self, out):
        r = self.r
        legal = [c for c in PRINT if c not in ' +-.0123456789DEH']
        pd = r.choice([c for c in legal if c != ';'])
        rd = r.choice([c for c in legal if c != pd and c != ','])
        if r.random() < 0.7:
            out.append('gset 1 pdelim ' + esc(pd))
        else:
            pd = ','
        if r.random() < 0.7 and rd != pd:
            out.append('gset 1 rdelim ' + esc(rd))



NE, RB, NM = 40, 21, 2
RT = ['gget 1', 'vobs', 'write 1 1.igs 1', 'vobs', 'dump 1.igs', 'read 2 1.igs 21', 'vobs', 'gget 2', 'ghead 2', 'write 2 2.igs 1', 'dump 2.igs', 'vobs']


def roundtrip(base):
    return base + RT


def bases(C, wd, n, depths, off, glob=False):
    """n decorated behaviours of the specification (profile "file" of EntityGen)"""
    k = 8
    sc = graph.generate([('file', 9 + i % 4, 1, depths[i % len(depths)], (n + k - 1) // k, C.seed * 1000 + off + i) for i in range(k)], wd)
    return [Deco(random.Random('%d-%d-%d' % (C.seed, off, i)), s, glob).build() for i, (_, _, s) in enumerate(sc)]


def rstr(rng, n):
    return ''.join(rng.choice(PRINT) for _ in range(n))


def texts(rng, hi):
    """small models with texts of every length up to hi in every place which holds text"""
    out = []
    for n in range(1, hi + 1):
        o = ['new 1 1 110 0 0', 'new 1 2 308 0 0', 'app 2 1', 'new 1 3 314 0 0', 'set 1 9 3', 'new 1 4 406 0 0', 'xap 1 4', 'new 1 5 124 0 0', 'set 1 8 5']
        o += ['name 2 ' + esc(rstr(rng, n)), 'name 3 ' + esc(rstr(rng, (n * 7) % hi + 1)), 'name 4 ' + esc(rstr(rng, (n * 11) % hi + 1))]
        o += ['comment 1 ' + esc(rstr(rng, n)), 'comment 2 ' + esc(rstr(rng, (n * 5) % hi + 1)), 'label 1 ' + esc(rstr(rng, n % 8 + 1).strip() or 'x')]
        o += ['head 1 ' + esc(rstr(rng, n))]
        for k, f in enumerate(('idss', 'nsys', 'idrs', 'author', 'org', 'note')):
            if (n + k) % 3:
                o.append('gset 1 %s %s' % (f, esc(rstr(rng, (n * (2 * k + 1)) % hi + 1))))
        out.append(o)
    return out


def delims(rng, full):
    """small models written with delimiter pairs: every legal character in both places (full: every pair)"""
    legal = [c for c in PRINT if c not in ' +-.0123456789DEH']
    pairs = [(a, b) for a in legal if a != ';' for b in legal if b != a and b != ',']
    if not full:
        q = [rng.choice([p for p in pairs if p[0] == a]) for a in legal if a != ';'] + [rng.choice([p for p in pairs if p[1] == b]) for b in legal if b != ',']
        pairs = sorted(set(q))
    out = []
    for a, b in pairs:
        t = lambda: esc(''.join(rng.choice([a, b, ',', ';', 'x', '1', 'H', ' ']) for _ in range(rng.randint(1, 90))))
        out.append(['new 1 1 110 0 0', 'new 1 2 308 0 0', 'app 2 1', 'name 2 ' + t(), 'new 1 3 126 0 0', 'comment 1 ' + t(), 'gset 1 pdelim ' + esc(a), 'gset 1 rdelim ' + esc(b),
                    'gset 1 idss ' + t(), 'gset 1 author ' + t(), 'gset 1 note ' + t()])
    return out


def big(rng, n):
    """a subfigure and a composite curve of n members: long parameter lists, sequence numbers of several digits"""
    o = ['new 1 1 308 0 0', 'name 1 ' + esc(rstr(rng, rng.randint(1, 70)))]
    ids = []
    for i in range(n):
        k = 110 if rng.random() < 0.7 else 408
        o.append('new 1 %d %d 0 0' % (i + 3, k))
        if k == 110:
            ids.append(i + 3)
        o.append('app 1 %d' % (i + 3))
    o.append('new 1 2 406 0 0')
    for i in rng.sample(ids, min(5, len(ids))):
        o.append('xap %d 2' % i)
    return o


def bigscripts(rng, sizes):
    out = []
    for n in sizes:
        base = n + 4
        b = big(rng, n)
        out.append((2 * base, b + [x.replace(' 21', ' %d' % base) for x in RT]))
    return out


def wild(rng):
    """write calls over all states of a path"""
    o = ['gget 1', 'vobs']
    fs = [3, 4, 5, 6, 7, 8]
    o += ['fput 3.igs ' + esc(rng.choice(['x', 'hello\n', '', 'S' * 300, ('z' * 79 + '\n') * 300, 'S' * 9000])), 'fdir 4.igs', 'flink 5.igs /dev/full', 'fbad 6.igs', 'fwo 7.igs abc']
    st = [3, 4, 7, 8, 1, 9]
    for f in st:
        o.append('stat %d.igs' % f)
    for _ in range(rng.randint(4, 9)):
        f = rng.choice([1, 1, 3, 4, 5, 6, 7, 7, 8, 9, 9])
        x = rng.random()
        if x < 0.7:
            o.append('%s 1 %d.igs %d' % (rng.choice(['write', 'uwrite']) if f == 7 else 'write', f, rng.random() < 0.5))
            o.append('vobs')
            if f not in (5, 6):
                o.append('stat %d.igs' % f)
                if f not in (4,):
                    o.append('dump %d.igs' % f)
        elif x < 0.8:
            o.append('fdel %d.igs' % rng.choice([1, 3, 8, 9]))
        elif x < 0.9 and f not in (5, 6, 4, 7):
            o += ['read 2 %d.igs 21' % f, 'vobs', 'clear 2']
        else:
            f = rng.choice([1, 9])
            o += ['fdel %d.igs' % f, 'write 1 %d.igs 0' % f, 'dump %d.igs' % f, 'vobs', 'write 1 %d.igs 1' % (f + 1), 'dump %d.igs' % (f + 1), 'gget 1']
    for f in st:
        o.append('stat %d.igs' % f)
    return o


class Run:
    """runs scripts and validates their traces, keeps coverage"""

    def __init__(self, C, wd, binp):
        self.C, self.wd, self.binp = C, wd, binp
        self.hist = Counter()
        self.samples = []

    def __call__(self, scripts, heads=None, corrupted=4):
        heads = heads or [(NM, NE)] * len(scripts)
        tr, cr = vlib.run_scripts(self.binp, scripts, lambda i: '%d %d noobs' % heads[i], self.wd)
        traces = {i: (heads[i][0], heads[i][1], tr[i]) for i in tr if tr[i] is not None}
        bad = corrupt(traces, self.C.rng, corrupted)
        traces.update(bad)
        diffs, nev, nst = graph.validate(traces, self.wd, module='IgesTrace', timeout=850)
        hit = {d['t'] for d in diffs}
        if any(t not in hit for t in bad):
            vlib.SOFT.append('a corrupted trace was accepted')
        cov = self.C.cov
        cov['corrupted_traces_rejected'] = cov.get('corrupted_traces_rejected', 0) + len(bad)
        cov['trace_events'] = cov.get('trace_events', 0) + nev
        cov['states'] += nst
        cov['transitions'] += nst
        cov['traces_validated_against_impl'] += len(traces) - len(bad)
        for i in tr:
            for e in tr[i] or []:
                if e['op'] in ('write', 'uwrite', 'read', 'dump', 'stat', 'gget', 'new', 'val', 'units', 'scale', 'export'):
                    self.hist[e['op'] + ('+' if e['r'] else '-')] += 1
                    if e['op'] == 'dump':
                        self.hist['lines decoded'] += len(e['L'])
        return tr, cr, [d for d in diffs if d['t'] not in bad]


def corrupt(traces, rng, n):
    """copies of recorded traces in which one byte of a written file, or one read-back value, was changed"""
    out = {}
    ids = [t for t in sorted(traces) if any(e['op'] == 'dump' and len(e['L']) > 5 for e in traces[t][2])]
    rng.shuffle(ids)
    for t in ids[:n * 3]:
        if len(out) >= n:
            break
        nm, ne, evs = traces[t]
        # up to the first dump of a written file / the first observation after it
        w = [i for i, e in enumerate(evs) if e['op'] == 'write' and e['r'] == 1 and e['a'][1] == 1]
        d = [i for i, e in enumerate(evs) if w and i > w[0] and e['op'] == 'dump' and e['a'][0] == 1]
        if not d or not w:
            continue
        ev = json.loads(json.dumps(evs[d[0]]))
        L = ev['L']
        if not L:
            continue
        rows = [i for i, l in enumerate(L) if l[72:73] in ([68], [80])]
        if not rows:
            continue
        how = len(out) % 4
        p = [i for i in rows if L[i][72] == 80]
        if how == 0:        # the first digit of the first parameter line (the entity type)
            L[p[0]][0] = 50 if L[p[0]][0] != 50 else 51
        elif how == 1:      # level
            L[rows[0]][39] = 57 if L[rows[0]][39] != 57 else 56
        elif how == 2:
            del L[p[-1]]
        else:
            L[-1][0:8] = L[-1][0:7] + [57 if L[-1][7] != 57 else 56]
        nt = 10**7 + t
        out[nt] = (nm, ne, [dict(x, t=nt) for x in evs[:d[0]] + [ev]])
    return out


def kindset(scripts):
    c = Counter()
    for s in scripts:
        for o in s:
            if o.startswith('new '):
                c[o.split()[3]] += 1
    return dict(sorted(c.items()))


def lines_of(ev):
    return [bytes(l).decode('latin1') for l in ev['L']]


def pct(L, nl='\n'):
    return ''.join(c if c.isalnum() or c in '._-' else '%%%02X' % ord(c) for c in nl.join(L) + nl) if L else '-'


def report(C, R, scripts, heads, tr, cr, diffs, rel):
    for i, note in sorted(cr.items())[:6]:
        if rel('crash', scripts[i], len(tr[i] or []), None):
            C.violation('crash: ' + note, {'script': scripts[i], 'header': heads[i] if heads else (NM, NE), 'after': len(tr[i] or [])})
    n = 0
    for d in diffs:
        if n >= 10:
            break
        ev = tr[d['t']][min(d['i'], len(tr[d['t']])) - 1]
        if 'rejected' not in d['d'] and not rel('diff', scripts[d['t']], d['i'] - 1, d):
            continue
        n += 1
        s = scripts[d['t']][:d['i']]
        C.violation('%s %s: %s' % (d['op'], d['a'], ', '.join(sorted(d['d']))),
                    {'script': s, 'header': heads[d['t']] if heads else (NM, NE), 'difference': d['d'], 'expected': d.get('more', d.get('error')),
                     'observed': {k: v for k, v in ev.items() if k in ('r', 'v', 'e', 'w', 'm', 'g')}})


class UDeco(Deco):
    """lengths which stay short decimals in every unit: multiples of 12.573 mm = 0.495 inch (metric start), or a few digits (inch start)"""

    def __init__(self, rng, script):
        Deco.__init__(self, rng, script)
        self.metric = rng.random() < 0.5

    def num(self, nz=False, pos=False, e=None):
        r = self.r
        k = r.randint(1, r.choice([9, 60, 400, 999])) if r.random() < 0.9 or nz or pos else 0
        ex = r.choice([0, 0, -1, -2, -3]) if e is None else e
        if not pos and r.random() < 0.45:
            k = -k
        return (k * (12573 if self.metric else 1), ex if k else 0)

    def vals(self, k):
        v = Deco.vals(self, k)
        f = 12573 if self.metric else 1
        if k == 100 and v:
            v = v[:1] + self.arc(f)
        return v

    def arc(self, f):
        r = self.r
        c, e = r.choice([1, 2, 3, 7, 20]), r.choice([0, -1, -2])
        x, y = r.randint(-90, 90), r.randint(-90, 90)
        ds = [(5, 0), (0, 5), (-5, 0), (0, -5), (3, 4), (-3, 4), (4, -3), (-4, -3)]
        a, b = r.choice(ds), r.choice(ds)
        return [(q * f, e) for q in (x, y, x + c * a[0], y + c * a[1], x + c * b[0], y + c * b[1])]

    def fixture(self, out):
        """a trimmed surface with curves in its parameter space"""
        r = self.r
        if r.random() < 0.55:
            k = r.choice([110, 126, 100, 104, 102, 102])
            out += ['new 1 13 128 0 0', 'new 1 14 %d %s' % (k, '1 3'), 'new 1 15 110 1 2', 'new 1 16 142 0 0', 'new 1 17 144 0 0']
            if k == 100:
                out.append('val 14 0 0 0 0 0 0 5 8 0 0 0 0 5 8')
            if k == 102:
                out += ['new 1 18 %d 1 3' % r.choice([110, 126]), 'new 1 19 %d 3 2' % r.choice([110, 126]), 'app 14 18', 'app 14 19']
            links = ['set 16 1 13', 'set 16 2 14', 'set 16 3 15', 'set 17 1 13', 'set 17 2 16']
            x = r.random()
            if x < 0.15:        # used in model space as well
                links += ['new 1 20 308 0 0', 'app 20 14']
            elif x < 0.3:       # the parameter space curve has another parent first (not a place: it is no length's parent)
                links = ['new 1 20 308 0 0', 'app 20 14', 'rem 20 14'] + links
            elif x < 0.4 and k != 102:
                links += ['new 1 18 142 0 0', 'set 18 1 13', 'set 18 2 14']
            out += links

    def build(self):
        out = Deco.build(self)
        r = self.r
        # one subfigure may not hold what a trimmed surface owns: the fixture is separate
        self.fixture(out)
        if not self.metric:
            out.append('gset 1 units %d' % r.choice([1, 1, 4, 8, 11]))
            out.append('gset 1 res %s' % r.choice(['1e-6', '1e-7', '2e-5']))
        else:
            out.append('gset 1 units %d' % r.choice([2, 2, 6, 10, 9, 7]))
            out.append('gset 1 res %s' % r.choice(['12573e-11', '12573e-10', '25146e-12']))
        return out


UNITS = [1, 2, 4, 5, 6, 7, 8, 9, 10, 11]


def unit_ops(r, metric):
    o = ['gget 1', 'vobs']
    hist = []
    for _ in range(r.randint(2, 6)):
        x = r.random()
        if x < 0.5:
            o.append('units 1 %d' % (r.choice(UNITS) if r.random() < 0.6 else r.choice([1, 2, 6, 8, 9, 10])))
        elif x < 0.75:
            o.append('scale 1 %s' % r.choice(['2', '0.5', '0.1', '10', '5', '0.2', '0.4', '1', '1', '1', '4', '1000', '0.001']))
        elif x < 0.8:
            o.append('units 1 3')
        elif x < 0.85:
            o.append('scale 1 %s' % r.choice(['0', '-1', '5e-8', '1.8e7', '-0.5']))
        else:
            o += ['vobs', 'write 1 1.igs 1', 'vobs', 'dump 1.igs', 'read 2 1.igs 21', 'gget 2', 'vobs'] + r.choice([[], ['units 2 %d' % r.choice(UNITS), 'vobs', 'gget 2'], ['write 2 2.igs 1', 'dump 2.igs']]) + ['clear 2']
        if r.random() < 0.7:
            o += ['vobs', 'gget 1']
    o += ['vobs', 'gget 1', 'write 1 3.igs 1', 'vobs', 'dump 3.igs', 'read 2 3.igs 21', 'gget 2', 'vobs']
    return o


def ubases(C, wd, n, depths, off):
    k = 8
    sc = graph.generate([('file', 9 + i % 4, 1, depths[i % len(depths)], (n + k - 1) // k, C.seed * 1000 + off + i) for i in range(k)], wd)
    out = []
    for i, (_, _, s) in enumerate(sc):
        r = random.Random('%d-%d-%d-u' % (C.seed, off, i))
        d = UDeco(r, s)
        out.append(d.build() + unit_ops(r, d.metric))
    return out


def export_ops(r, metric):
    """model 1 is the built one; copies of it (read back) and small models are exported into others"""
    ids = {'f': 44}         # 21..43 the first copy, 60.. the second, 44..59 single entities

    def new(m, k, a='0 0'):
        ids['f'] += 1
        return ['new %d %d %d %s' % (m, ids['f'] - 1, k, a)], ids['f'] - 1
    f = 12573 if metric else 1

    def val(j, *v):
        lengths = {3, 7, 11} if len(v) == 12 else {0, 1, 2}
        return 'val %d %s' % (j, ' '.join('%d 0' % (x * f if n in lengths else x) for n, x in enumerate(v)))
    o = ['gget 1', 'gget 2', 'gget 3', 'vobs']
    # the units of one script are not too far apart for the resolution
    us = r.choice([[1, 2, 8, 8], [1, 2, 4, 8]] if not metric else [[1, 2, 2, 9, 10], [1, 2, 6, 10]])
    res = {1: '1e-9', 2: '1e-10', 4: '1e-12', 6: '1e-12', 8: '1e-10', 9: '1e-10', 10: '1e-10', 11: '1e-9'}
    copies = 0
    parts = {1: [], 2: [], 3: []}

    def glob(m):
        q = []
        if True:
            u = r.choice(us)
            q += ['gset %d units %d' % (m, u), 'gset %d res %s' % (m, res[u])]
        if r.random() < 0.3:
            q.append('gset %d scale %s' % (m, r.choice(['2', '0.5', '10', '0.1'])))
        if r.random() < 0.4:
            q.append('gset %d lwg %d' % (m, r.choice([1, 2, 3, 5, 10, 16])))
        return q + ['gget %d' % m]

    def content(m):
        nonlocal copies
        q = []
        x = r.random()
        if x < 0.35 and copies == 0:
            copies += 1
            q += ['clear %d' % m, 'read %d 1.igs 21' % m, 'gget %d' % m, 'vobs']
            if r.random() < 0.5:
                q += glob(m)[:-1] + ['gget %d' % m]      # contents keep their numbers: a model in another unit
            if r.random() < 0.3:
                q += ['gset %d fname %s' % (m, r.choice(['-', 'A', '.b', 'x.y.igs', 'q.IGS', '.']))]
        elif x < 0.75:
            n = r.randint(1, 2)
            for _ in range(n):
                c, i = new(m, 144)
                q += c
                if r.random() < 0.4:
                    c, j = new(m, 124)
                    q += c + [val(j, 1, 0, 0, 1, 0, 1, 0, 2, 0, 0, 1, 3), 'set %d 8 %d' % (i, j)]
            if r.random() < 0.3:
                q.append('at %d 7 %d' % (ids['f'] - 1, r.choice([0, 1, 3, 10])))
            c, i = new(m, 308)
            q += c + ['name %d %s' % (i, esc('p%d' % i))]
            if r.random() < 0.5:
                c, j = new(m, 408)
                q += c + ['set %d 1 %d' % (j, i), 'app %d %d' % (i, i - 1)]
            else:
                q += ['del %d %d' % (m, i)]
        else:
            c, i = new(m, 110)
            q += c
        return q
    for m in (1, 2, 3):
        o += glob(m)
    o += ['write 1 1.igs 1', 'dump 1.igs', 'vobs'] if r.random() < 0.7 else ['vobs']
    if not any(x.startswith('write 1 1') for x in o):
        copies = 1
    for m in (2, 3):
        if r.random() < 0.6:
            o += content(m)
    o.append('vobs')
    for _ in range(r.randint(1, 4)):
        a, b = r.choice([(1, 2), (1, 2), (2, 1), (2, 3), (1, 3), (3, 2), (3, 1), (2, 2), (1, 0)])
        i = ids['f']
        ids['f'] += 1
        o += ['export %d %d %d name' % (a, b, i), 'vobs', 'gget %d' % a] + (['gget %d' % b] if b else [])
        if ids['f'] > 56:
            break
        if b and r.random() < 0.6:        # placed in the assembly
            c, j = new(b, 408)
            o += c + ['set %d 1 %d' % (j, i)]
            o += [val(j, 1, 2, 3, 1)] if r.random() < 0.6 else []
        if r.random() < 0.4 and ids['f'] < 54:      # the emptied model is used again
            o += content(a)
        if r.random() < 0.2:
            o += glob(a)
        o.append('vobs')
    m = r.choice([1, 2, 3])
    o += ['gget 1', 'gget 2', 'gget 3', 'vobs', 'write %d 3.igs 1' % m, 'vobs', 'dump 3.igs', 'clear %d' % m, 'read %d 3.igs 60' % m, 'gget %d' % m, 'vobs']
    return o


def xbases(C, wd, n, depths, off):
    k = 8
    sc = graph.generate([('file', 9 + i % 4, 1, depths[i % len(depths)], (n + k - 1) // k, C.seed * 1000 + off + i) for i in range(k)], wd)
    out = []
    for i, (_, _, s) in enumerate(sc):
        r = random.Random('%d-%d-%d-x' % (C.seed, off, i))
        d = UDeco(r, s)
        # a script on 60 subfigures and surfaces has something to export
        out.append(d.build() + export_ops(r, d.metric))
    return out


def rel_x01(kind, s, i, d):
    return any(o.startswith('export') for o in s[:i + 1]) and (kind == 'crash' or any(not x.startswith(('F05', 'F02 stable', 'F04 stable')) for x in d['d']))


def rel_u01(kind, s, i, d):
    if not any(o.startswith(('units', 'scale', 'gset 1 units')) for o in s[:i + 1]):
        return False
    return kind == 'crash' or any(not x.startswith(('F05', 'F02 stable', 'F04 stable')) for x in d['d'])


def after_write(s, i):
    return any(o.startswith(('write', 'uwrite')) for o in s[:i + 1])


def rel_f01(kind, s, i, d):
    if kind == 'crash':
        return i < len(s) and s[i].startswith('write')
    return any(x.startswith('F01') for x in d['d'])


def rel_f02(kind, s, i, d):
    if kind == 'crash':
        return after_write(s, i)
    return after_write(s, i) and (any(x.startswith('F02') or not x.startswith('F0') for x in d['d'])) and not (d['op'] == 'vobs' and not any(o.startswith('read') for o in s[:i]))


def rel_f04(kind, s, i, d):
    if kind == 'crash':
        return after_write(s, i)
    return any(x.startswith('F04') for x in d['d']) or (d['op'] == 'read' and 'F02 written file not read' in d['d'])


def rel_f05(kind, s, i, d):
    if kind == 'crash':
        return i < len(s) and s[i].startswith(('write', 'uwrite'))
    return after_write(s, i) and (any(x.startswith('F05') for x in d['d']) or (d['op'] == 'dump') or (d['op'] in ('vobs', 'gget') and not any(o.startswith('read') for o in s[:i])))


def rel_f03(kind, s, i, d):
    return any(o.startswith('fput') for o in s[:i + 1])


def second_phase(C, R, bs, make, nper):
    """runs the bases once for the lines they are written as; then scripts with nper variants each"""
    first = [b + ['gget 1', 'vobs', 'write 1 1.igs 1', 'dump 1.igs'] for b in bs]
    tr, cr = vlib.run_scripts(R.binp, first, '%d %d noobs' % (NM, NE), R.wd)
    out = []
    for i, b in enumerate(bs):
        if not tr[i] or tr[i][-1]['op'] != 'dump' or tr[i][-1]['r'] == 0:
            continue
        L = lines_of(tr[i][-1])
        rng = random.Random('%d-%d-m' % (C.seed, i))
        s = list(first[i])
        for v in make(L, rng, nper):
            s += v
        out.append(s)
    return out


def mutant_ops(L, rng, n, muts=None):
    for m in (muts or mutate.mutants(L, rng, n)):
        yield ['fput 3.igs ' + pct(m), 'dump 3.igs', 'read 2 3.igs 21', 'vobs', 'write 2 4.igs 1', 'dump 4.igs', 'clear 2', 'read 2 1.igs 21', 'vobs', 'clear 2', 'fdel 4.igs']


def relaid_ops(L, rng, n):
    for _ in range(n):
        yield ['fputv 3.igs ' + pct(mutate.relaid(L, rng)), 'dump 3.igs', 'read 2 3.igs 21', 'vobs', 'gget 2', 'ghead 2', 'write 2 4.igs 1', 'dump 4.igs', 'clear 2', 'fdel 4.igs']


def check(prop):
    C = vlib.Check(prop, 'model_checking')
    T = C.thorough
    REL = {'F01': rel_f01, 'F02': rel_f02, 'F03': rel_f03, 'F04': rel_f04, 'F05': rel_f05, 'U01': rel_u01, 'X01': rel_x01}[prop]
    with vlib.Scratch(prop) as wd:
        binp = vlib.build('drv_core')
        R = Run(C, wd, binp)
        sets = []      # (what, scripts, heads)
        m = 8 if T else 1
        if prop == 'F01':
            sets.append(('models', [roundtrip(b)[:-7] for b in bases(C, wd, 1000 * m, [25, 40, 15, 60], 0)], None))
            sets.append(('texts', [roundtrip(b)[:-7] for b in texts(C.rng, 400 if T else 150)], None))
            h = bigscripts(C.rng, [1, 5, 9, 16, 17, 30, 60] + ([90, 100, 110] if T else [])) 
            sets.append(('long lists', [s for _, s in h], [(NM, ne) for ne, _ in h]))
        elif prop == 'F02':
            bs = bases(C, wd, 900 * m, [25, 40, 15, 60], 100)
            sets.append(('models', [roundtrip(b) for b in bs], None))
            bs = bases(C, wd, 200 * m, [15, 25], 200)
            sets.append(('other layouts', second_phase(C, R, bs, relaid_ops, 4), None))
            h = bigscripts(C.rng, [4, 17, 50])
            sets.append(('long lists', [s for _, s in h], [(NM, ne) for ne, _ in h]))
        elif prop == 'F03':
            bs = bases(C, wd, 500 * m, [10, 15, 25], 300)
            sets.append(('mutants', second_phase(C, R, bs, mutant_ops, int(os.environ.get("NMUT", "12"))), None))
        elif prop == 'F04':
            sets.append(('models', [roundtrip(b) for b in bases(C, wd, 400 * m, [6, 10], 400, True)], None))
            sets.append(('texts', [roundtrip(b) for b in texts(C.rng, 400 if T else 160)], None))
            sets.append(('delimiters', [roundtrip(b) for b in delims(C.rng, T)], None))
        elif prop == 'X01':
            sc = xbases(C, wd, int(os.environ.get('NX', 900)) * m, [10, 20, 30, 15], 700)
            sets.append(('models', sc, [(3, 100)] * len(sc)))
        elif prop == 'U01':
            sets.append(('models', ubases(C, wd, 1200 * m, [10, 20, 30, 15], 600), None))
        else:
            sets.append(('paths', [b + wild(random.Random('%d-%d-w' % (C.seed, i))) for i, b in enumerate(bases(C, wd, 700 * m, [3, 8, 15, 25], 500))], None))
        for what, scripts, heads in sets:
            C.cov[what] = len(scripts)
            batch = 3000
            for k in range(0, len(scripts), batch):
                part, hp = scripts[k:k + batch], heads[k:k + batch] if heads else None
                tr, cr, diffs = R(part, hp)
                report(C, R, part, hp, tr, cr, diffs, REL)
            C.cov['samples'] += [[o[:200] for o in s] for s in C.rng.sample(scripts, min(2, len(scripts)))]
        C.cov['kinds'] = kindset([s for x in sets for s in x[1]])
        C.cov['events'] = dict(R.hist)
        C.assumptions = ['models are those of spec/EntityGen.tla (profile file) with the decorations of tools/files.py: 18 entity kinds, up to 12 entities (lists: up to 110), one unit (mm), model scale 1',
                         'real parameters are compared to nine significant decimal digits']
    C.finish()
