"""IDF conformance. I03: behaviours of spec/IdfOwnerGen.tla are replayed through the public IDF
classes by harness/drv_idf and the recorded trace is validated by spec/IdfOwnerTrace.tla."""
import json
import os
import random
import re
import shutil
from concurrent.futures import ThreadPoolExecutor
from decimal import Decimal, ROUND_HALF_UP
import graph
import vlib


def gen_owner(jobs, wd, timeout=600):
    def one(j):
        i, (cad, depth, num, seed) = j
        cfg = '%s/own%d.cfg' % (wd, i)
        open(cfg, 'w').write('SPECIFICATION Spec\nCONSTANTS NOB=8 NCO=5 Cad=%d Depth=%d\nINVARIANT Emit\nPROPERTY RuleHolds\nCHECK_DEADLOCK FALSE\n' % (cad, depth))
        r = vlib.tlc('IdfOwnerGen', cfg, wd, timeout=timeout, args=['-simulate', 'num=%d' % num, '-depth', str(depth + 1), '-seed', str(seed)])
        if 'Error' in r['out'] or 'violated' in r['out']:
            raise vlib.Infra('generation failed: ' + r['out'][r['out'].find('Error'):][:2500])
        return [(cad, s) for s in graph.parse_scripts(r['out']) if s]
    with ThreadPoolExecutor(vlib.CORES) as ex:
        outs = list(ex.map(one, list(enumerate(jobs))))
    return [s for o in outs for s in o]


def corrupt_owner(tr, sc, rng, n=4):
    out = {}
    ids = [i for i in sorted(tr) if tr[i] and 'o' in tr[i][-1]]
    rng.shuffle(ids)
    for t in ids[:n]:
        evs = json.loads(json.dumps(tr[t]))
        e = evs[-1]
        m = len(out) % 4
        if m == 0:
            e['r'] = 1 - e['r']
        elif m == 1:
            e['o'][0][1] = (e['o'][0][1] + 1) % 3
        elif m == 2:
            e['d'] = e['d'][1:] if e['d'] else [[500, 0, 0, 0]]
        else:
            e['o'][0][5] = e['o'][0][5] + [7, 7]
        nt = 10**7 + t
        out[nt] = (sc[t][0], 0, [dict(x, t=nt) for x in evs])
    return out


def owner(prop='I03'):
    C = vlib.Check(prop, 'model_checking')
    with vlib.Scratch(prop) as wd:
        binp = vlib.build('drv_idf', ('core', 'idf'))
        tot = {}
        for rd in range(20 if C.thorough else 1):
            sc = gen_owner([(i % 2, 90, 90, C.seed * 1000 + rd * 50 + i) for i in range(8)], wd)
            tr, cr = vlib.run_scripts(binp, [graph.lines(s[1]) for s in sc], lambda i: '%d' % sc[i][0], wd)
            for i in tr:
                for e in tr[i] or []:
                    k = e['op'] + ('+' if e['r'] else '-')
                    tot[k] = tot.get(k, 0) + 1
            traces = {i: (sc[i][0], 0, tr[i]) for i in tr if tr[i] is not None}
            bad = corrupt_owner(tr, sc, C.rng)
            traces.update(bad)
            diffs, nev, nst = graph.validate(traces, wd, module='IdfOwnerTrace', timeout=850)
            hit = {d['t'] for d in diffs}
            base = {d['t'] for d in diffs if d['t'] < 10**7}
            if not bad or any(t not in hit for t in bad if t - 10**7 not in base):
                vlib.SOFT.append('a corrupted trace was accepted')
            C.cov['states'] += nst
            C.cov['transitions'] += nev
            C.cov['traces_validated_against_impl'] += len(traces) - len(bad)
            for i, note in sorted(cr.items()):
                C.violation('crash: ' + note, {'cad': sc[i][0], 'script': graph.lines(sc[i][1])[:len(tr[i] or []) + 1]})
            for d in diffs:
                if d['t'] >= 10**7:
                    continue
                C.violation('%s %s: %s differs from the specification' % (d['op'], d['a'], ','.join(d['d'])),
                            {'cad': sc[d['t']][0], 'script': graph.lines(sc[d['t']][1][:d['i']]), 'difference': d, 'observed': tr[d['t']][d['i'] - 1]})
        C.cov['operations_by_result'] = tot
        C.cov['samples'] = [graph.lines(s[1])[:12] for s in C.rng.sample(sc, 2)]
    C.finish()


# ---------------------------------------------------------------- files (I01, I02)
NUM = re.compile(r'[+-]?(\d+(\.\d*)?|\.\d+)$')
PRE = re.compile(r'[+-]?\.?\d')


def token(s, q):
    k, a, b, c = 0, 0, 0, 0
    if NUM.match(s):
        x = Decimal(s)
        k = 2
        if abs(x) < 15000:
            ib, ic = x * 100000, x * 1000
            if ib == int(ib):
                k = 1 if x * 10 == int(x * 10) else 3
                a, b, c = int(x * 10), int(ib), int(ic.to_integral_value(rounding=ROUND_HALF_UP))
    elif PRE.match(s):
        k = 2
    up = ''.join(ch.upper() if ord(ch) < 128 else ch for ch in s)
    return {'s': s, 'u': up, 'q': q, 'k': k, 'a': a, 'b': b, 'c': c}


SP = ' \t\n\v\f\r'


def line(raw):
    ev = {'op': 'ln', 'c': 0, 'x': '', 't': [], 'bad': 0}
    com = raw[:1] == '#'
    if com:
        raw = raw[1:]
    raw = raw.strip(SP)
    if com:
        ev['c'], ev['x'] = 1, raw
        return ev
    if not raw:
        ev['c'] = 2
        return ev
    i, n = 0, len(raw)
    while i < n:
        while i < n and raw[i] in SP:
            i += 1
        if i == n:
            break
        if raw[i] == '"':
            j = raw.find('"', i + 1)
            if j < 0:
                ev['bad'] = 1
                break
            ev['t'].append(token(raw[i + 1:j], 1))
            i = j + 1
        else:
            j = i
            while j < n and raw[j] not in SP:
                j += 1
            ev['t'].append(token(raw[i:j], 0))
            i = j
    return ev


def lines_of(path):
    d = open(path, errors='replace').read().split('\n')
    if d and d[-1] == '':
        d.pop()
    return [line(x) for x in d]


def file_events(path, nosub):
    lib = path[:-3] + 'emp'
    ev = []
    if os.path.exists(lib):
        ev = [{'op': 'lib'}] + lines_of(lib)
    else:
        ev = [{'op': 'nolib'}]
    return ev + [{'op': 'brd', 'nosub': nosub}] + lines_of(path)


LAYERS = ['TOP', 'BOTTOM', 'BOTH', 'INNER', 'ALL']


class Gen:
    """a random legal board file and its library, as lists of lines"""
    def __init__(self, r):
        self.r = r
        self.u = r.choice(['MM', 'THOU'])
        self.names = ['A', 'B1', 'cap', 'SOIC-8', '0402', 'dip 14', 'x/y', 'Q']
        self.parts = []
        self.lunit = self.u

    def case(self, w):
        return w if self.r.random() < .9 else self.r.choice([w.lower(), w.capitalize()])

    def fmt(self, v, thou):
        """v in units of 1e-3 mm (or of a thou)"""
        d = 3 if not thou else 1
        x = Decimal(v) / (1000 if not thou else 1)
        if thou:
            x = x.quantize(Decimal('0.1'))
        s = format(x, 'f')
        if '.' in s and self.r.random() < .6:
            s = s.rstrip('0').rstrip('.') or '0'
        return s if s not in ('-0', '') else '0'

    def ln(self, lo, hi, thou):
        """a length between lo and hi mm"""
        r = self.r
        if thou:
            m = r.choice([1, 5, 10])
            return self.fmt(Decimal(r.randint(int(lo * 400), int(hi * 390)) // m * m) / 10, True)
        if r.random() < .15:
            return format(Decimal(r.randint(int(lo * 100000), int(hi * 100000))) / 100000, 'f')
        return self.fmt(r.randint(int(lo * 1000), int(hi * 1000)) // r.choice([1, 1, 100]) * 1, False)

    def ang(self, full=False):
        r = self.r
        return r.choice(['0', '90', '180', '270', '45.5', '-90', '12.345', '359.9', '0.0', '-30', '1.25', '%d' % r.randint(-359, 359)])

    def q(self, s):
        return '"%s"' % s if ' ' in s or not s or self.r.random() < .3 else s

    def loop(self, idx, thou, cw=None):
        r = self.r
        k = 1000 if not thou else 40
        x, y, w, h = r.randint(-40, 60) * k, r.randint(-40, 60) * k, r.randint(4, 30) * k, r.randint(4, 30) * k
        if r.random() < .3:
            x += r.randint(0, 9)
            w += r.randint(1, 9)
        sh = r.choice(['rect', 'rect', 'tri', 'hex', 'arc', 'arc', 'circ'])
        if sh == 'circ':
            p = [(x, y, '0'), (x + w, y, r.choice(['360', '-360', '360.0', '360.000']))]
            return ['%d %s %s %s' % (idx, self.fmt(a, thou), self.fmt(b, thou), g) for a, b, g in p]
        if sh == 'tri':
            q = [(x, y), (x + w, y), (x + w // 3, y + h)]
        elif sh == 'hex':
            q = [(x, y), (x + w, y), (x + w + w // 3, y + h // 2), (x + w, y + h), (x, y + h), (x - w // 3, y + h // 2)]
        else:
            q = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
        g = [0] * len(q)
        if sh == 'arc':
            h = w
            q = [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]
            g[r.randrange(4)] = r.choice([90, 180, -90, 45, 60.5, -20.25])
            if r.random() < .4:
                g[r.randrange(4)] = r.choice([90, 180, 30])
        o = r.randrange(len(q))
        q, g = q[o:] + q[:o], g[o:] + g[:o]
        if cw:
            q = [q[0]] + q[:0:-1]
            g = [-a for a in g[::-1]]
        out = ['%d %s %s %s' % (idx, self.fmt(q[0][0], thou), self.fmt(q[0][1], thou), r.choice(['0', '0.0', '0.000']))]
        for i in range(len(q)):
            p = q[(i + 1) % len(q)]
            out.append('%d %s %s %s' % (idx, self.fmt(p[0], thou), self.fmt(p[1], thou), ('%g' % g[i])))
        return out

    def loops(self, single, thou):
        r = self.r
        if single:
            return self.loop(r.choice([0, 0, 0, 1]), thou, r.random() < .3)
        out = []
        n = r.choice([1, 1, 2, 3])
        for i in range(n):
            out += self.loop(i, thou, i > 0 if i < n - 1 or r.random() < .8 else i == 0)
        return out

    def comm(self, p=.25):
        r = self.r
        return [r.choice(['# note', '#', '#  two  words ', '# .END_HEADER', '# 0 1 2 "x']) for _ in range(r.choice([1, 2]))] if r.random() < p else []

    def own(self):
        r = self.r
        return r.choice(['MCAD', 'ECAD', 'UNOWNED']) if r.random() < .93 else r.choice(['', 'Nobody'])

    def library(self):
        r = self.r
        L = ['.HEADER', 'LIBRARY_FILE %s "%s" 2014/01/01.10:00:00 %s' % (r.choice(['3.0', '3.0', '3']), 'lib tool', r.choice(['1', '7'])), '.END_HEADER']
        seen = set()
        for _ in range(r.randint(1, 4)):
            g, p = r.choice(self.names), r.choice(self.names)
            if (g, p) in seen:
                continue
            seen.add((g, p))
            self.parts.append((g, p))
            u = r.choice(['MM', 'THOU'])
            e = r.random() < .6
            k = self.case('ELECTRICAL' if e else 'MECHANICAL')
            L += self.comm() + ['.' + k, '%s %s %s %s' % (self.q(g), self.q(p), self.case(u), self.ln(.2, 20, u == 'THOU'))]
            L += self.loops(True, u == 'THOU')
            if e and r.random() < .5:
                L += ['PROP %s %s' % (a, self.q(r.choice(['10k', '1.5 pF', 'x']))) for a in r.sample(['CAPACITANCE', 'RESISTANCE', 'TOLERANCE', 'usr'], r.choice([1, 2, 3]))]
            L.append('.END_' + k)
        return L

    def board(self):
        r, th = self.r, self.u == 'THOU'
        L = ['.HEADER', 'BOARD_FILE %s "%s" 2014/01/01.10:00:00 %s' % (r.choice(['3.0', '3.0', '3.']), r.choice(['kicad', 'my tool']), r.choice(['1', '12'])),
             '%s %s' % (self.q(r.choice(['brd', 'my board', 'b-7.kicad'])), self.case(self.u)), '.END_HEADER']
        L += self.comm() + ['.BOARD_OUTLINE ' + self.own(), self.ln(.5, 3, th)] + self.loops(False, th) + ['.END_BOARD_OUTLINE']
        names = ['o1', 'oth 2', 'o3']
        r.shuffle(names)
        groups = ['g1', 'g 2', 'g1']
        for _ in range(r.randint(0, 6)):
            k = r.choice(['OTHER_OUTLINE', 'ROUTE_OUTLINE', 'PLACE_OUTLINE', 'ROUTE_KEEPOUT', 'VIA_KEEPOUT', 'PLACE_KEEPOUT', 'PLACE_REGION', 'DRILLED_HOLES', 'NOTES'])
            if k == 'OTHER_OUTLINE' and not names:
                continue
            L += self.comm()
            K = self.case(k)
            if k == 'DRILLED_HOLES':
                L.append('.' + K)
                for _ in range(r.randint(0, 4)):
                    L.append(self.drill(th))
            elif k == 'NOTES':
                L.append('.' + K)
                for _ in range(r.randint(0, 3)):
                    L.append('%s %s %s %s "%s"' % (self.ln(-20, 90, th), self.ln(-20, 90, th), self.ln(.5, 5, th), self.ln(1, 60, th), r.choice(['a note', 'x', 'R1 here'])))
            else:
                L.append('.%s %s' % (K, self.own()))
                if k == 'OTHER_OUTLINE':
                    L.append('%s %s %s' % (self.q(names.pop()), self.ln(.5, 5, th), self.case(r.choice(['TOP', 'BOTTOM']))))
                elif k in ('ROUTE_OUTLINE', 'ROUTE_KEEPOUT'):
                    L.append(self.case(r.choice(LAYERS)))
                elif k in ('PLACE_OUTLINE', 'PLACE_KEEPOUT'):
                    h = self.ln(0, 9, th)
                    L.append(self.case(r.choice(LAYERS[:3])) + ' ' + (h if k != 'PLACE_OUTLINE' or r.random() < .7 else ''))
                elif k == 'PLACE_REGION':
                    L.append('%s %s' % (r.choice(LAYERS[:3]), self.q(r.choice(groups))))
                L += self.loops(k != 'OTHER_OUTLINE', th)
            L.append('.END_' + K)
        if r.random() < .85:
            L += self.comm() + ['.PLACEMENT']
            st = {}
            nr = 0
            for _ in range(r.randint(0, 5)):
                ref = r.choice(['R1', 'C2', 'U3', 'the IC', 'u3'])
                if r.random() < .12 and not nr:
                    ref, nr = 'NOREFDES', 1
                g, p = r.choice(self.parts) if self.parts and r.random() < .85 else (r.choice(self.names), r.choice(self.names))
                sd, pl = st.setdefault(ref, (r.choice(['TOP', 'BOTTOM']), r.choice(['PLACED', 'UNPLACED', 'MCAD', 'ECAD'])))
                L.append('%s %s %s' % (self.q(g), self.q(p), self.q(ref)))
                L.append('%s %s %s %s %s %s' % (self.ln(-20, 90, th), self.ln(-20, 90, th), self.ln(0, 3, th) if r.random() < .7 else '0', self.ang(), sd, pl))
            L.append('.END_PLACEMENT')
            if r.random() < .2:
                L += ['# end'] if r.random() < .5 else ['']
        if r.random() < .1:
            L.insert(r.randint(0, len(L)), '')
        return L

    def drill(self, th):
        r = self.r
        ref = r.choice(['BOARD', 'BOARD', 'board', 'R1', 'C2', 'U9', '"the IC"', 'NOREFDES'])
        return '%s %s %s %s %s %s %s' % (self.ln(.3, 4, th), self.ln(-20, 90, th), self.ln(-20, 90, th), self.case(r.choice(['PTH', 'NPTH'])), ref,
                                         r.choice(['PIN', 'VIA', 'MTG', 'TOOL', 'special', 'pin', '"my hole"']), self.case(r.choice(['MCAD', 'ECAD', 'UNOWNED'])))


def damage(L, r):
    """one edit of a list of lines; the result may or may not be a legal file"""
    L = list(L)
    if not L:
        return L
    i = r.randrange(len(L))
    m = r.randrange(17)
    if m >= 11:
        return targeted(L, r, m)
    tok = re.findall(r'"[^"]*"|\S+', L[i])
    if m == 0:
        del L[i]
    elif m == 1:
        L.insert(i, L[i])
    elif m == 2:
        j = r.randrange(len(L))
        L[i], L[j] = L[j], L[i]
    elif m == 3:
        L.insert(i, r.choice(['# a comment', '', '   ', '# ']))
    elif m == 4 and tok:
        del tok[r.randrange(len(tok))]
        L[i] = ' '.join(tok)
    elif m in (5, 6, 7) and tok:
        j = r.randrange(len(tok))
        tok[j] = r.choice(['abc', '-1', '0', '5', '12x', '360', '1e3', '-0.5', 'TOP', 'INNER', 'PANEL', 'BOARD', 'NOREFDES', '""', '.END_HEADER', 'PROP', 'ECAD', '3.5', '0.00001'])
        L[i] = ' '.join(tok)
    elif m == 8 and tok:
        j = r.randrange(len(tok))
        tok[j] = '"%s"' % tok[j].strip('"')
        L[i] = ' '.join(tok)
    elif m == 9:
        L.insert(i, r.choice(['.UNKNOWN', '.PLACEMENT', '.END_PLACEMENT', '.NOTES', '.BOARD_OUTLINE MCAD', '.END_BOARD_OUTLINE', '.DRILLED_HOLES', '.HEADER', '.MECHANICAL', '0 1 1 0', 'PROP a b']))
    else:
        L = L[:i]
    return L


POINT = re.compile(r'\d \S+ \S+ \S+$')


def targeted(L, r, m):
    """an edit which keeps the shape of the file but may break one rule of its grammar"""
    pts = [i for i, x in enumerate(L) if POINT.match(x)]
    groups = []     # runs of points of one loop
    for i in pts:
        if groups and groups[-1][-1] == i - 1 and L[i][0] == L[groups[-1][0]][0]:
            groups[-1].append(i)
        else:
            groups.append([i])
    two = [g for g in groups if L[g[0]][0] != '0'] or groups
    if m == 11 and groups:      # another number for a whole loop
        g = r.choice(two)
        n = r.choice('0123')
        for i in g:
            L[i] = n + L[i][1:]
    elif m == 12 and groups:    # a loop twice, or two loops exchanged
        g = r.choice(groups)
        if r.random() < .5:
            n = r.choice([L[g[0]][0], '1', '2'])
            L[g[-1] + 1:g[-1] + 1] = [n + L[i][1:] for i in g]
        else:
            h = r.choice(groups)
            for i in g:
                L[i] = L[h[0]][0] + L[i][1:]
    elif m == 13 and pts:       # an open loop, or an angle where there must be none
        g = r.choice(groups)
        i = r.choice([g[0], g[-1], r.choice(g)])
        w = L[i].split()
        if r.random() < .5:
            w[r.choice([1, 2])] = r.choice(['0', '1', '7.5', '-3'])
        else:
            w[3] = r.choice(['90', '360', '-360', '0', '180', '400', '-720', '359'])
        L[i] = ' '.join(w)
    elif m == 14:               # the second line of a placement: side and status
        pl = [i for i, x in enumerate(L) if re.search(r' (TOP|BOTTOM) (PLACED|UNPLACED|MCAD|ECAD)$', x)]
        if pl:
            i = r.choice(pl)
            w = L[i].split()
            w[r.choice([-1, -2])] = r.choice(['TOP', 'BOTTOM', 'PLACED', 'UNPLACED', 'MCAD', 'ECAD', 'BOTH', 'placed', 'INNER'])
            L[i] = ' '.join(w)
            if r.random() < .5 and i:       # the component again
                j = r.choice(pl)
                L[j + 1:j + 1] = [L[i - 1], L[i]]
    elif m == 15:               # a section again
        st = [i for i, x in enumerate(L) if re.match(r'\.(?!END)\w', x)]
        if st:
            i = r.choice(st)
            j = next((k for k in range(i, len(L)) if L[k].upper().startswith('.END')), len(L) - 1)
            k = r.choice([j + 1, r.choice(st)])
            L[k:k] = L[i:j + 1]
    else:                       # a keyword of a section, or its owner
        st = [i for i, x in enumerate(L) if x.startswith('.')]
        if st:
            i = r.choice(st)
            w = L[i].split()
            if r.random() < .5 and len(w) > 1:
                w[1] = r.choice(['mcad', 'ECAD', 'UNOWNED', 'OWNED', 'MCADX', '"MCAD"'])
            else:
                w[0] = r.choice(['.END_BOARD_OUTLINE', '.END_NOTES', '.end_placement', '.ROUTE_KEEPOUT', '.VIA_KEEPOUT', '.PLACE_KEEPOUT', '.ELECTRICAL', '.MECHANICAL', '.END_ELECTRICAL', w[0] + 'S', w[0][1:], '"%s"' % w[0], w[0].lower()])
            L[i] = ' '.join(w)
    return L


def put(path, L, r):
    t = '\n'.join(L)
    if L and r.random() < .9:
        t += '\n'
    open(path, 'w').write(t)


def edits(G, r, cad, n):
    out = []
    refs = ['R1', 'C2', 'U3', 'u3', 'X1', 'X2']
    for _ in range(n):
        m = r.randrange(13)
        ref = r.choice(refs)
        if m == 0:
            out.append(['bn', r.choice(['nb', 'board-2'])])
        elif m == 1:
            out.append(['sr', r.choice(['srcA', 'srcB'])])
        elif m == 2:
            out.append(['bth', r.choice([0, -5, 800, 1600, 2540])])
        elif m in (3, 4):
            out.append(['bo', r.randrange(4), r.randint(-9, 40), r.randint(-9, 40), r.randint(2, 20)])
        elif m == 5:
            out.append(['bdh', r.randint(300, 3000), r.randint(-9, 40), r.randint(-9, 40), r.randrange(3)])
        elif m in (6, 7):
            out.append(['xn', ref])
            if r.random() < .8:
                out.append(['xs', ref, r.randint(-9, 40), r.randint(-9, 40), r.choice([0, 90, 180, 270, 45]), r.randrange(2)])
        elif m == 8:
            out.append(['xs', ref, r.randint(-9, 40), r.randint(-9, 40), r.choice([0, 90, 180, 270, 45]), r.randrange(2)])
        elif m == 9:
            out.append(['xp', ref, r.randrange(4)])
        elif m == 10:
            out.append(['xd', ref, r.randint(300, 3000), r.randint(-9, 40), r.randint(-9, 40), r.randrange(3)])
        elif m == 11 and [p for p in G.parts if ' ' not in p[0] + p[1]]:
            g, p = r.choice([p for p in G.parts if ' ' not in p[0] + p[1]])
            out.append(['xo', ref, g, p, r.randint(-5, 5), r.randint(-5, 5), r.choice([0, 1, 2]), r.choice([0, 90, -30])])
        elif m == 12:
            out.append(['xr', ref])
    return out


def file_script(prop, sid, wd, r):
    """a history: files read (legal and damaged), edits, files written and read again"""
    G = Gen(r)
    lib, brd = G.library(), G.board()
    n = [0]
    S = []

    def new(lb, bd):
        n[0] += 1
        p = '%s/%s%d_%d.emn' % (wd, 's' if bd in (None, brd) and lb is lib else 'd', sid, n[0])
        if bd is not None:
            put(p, bd, r)
            if lb is not None:
                put(p[:-3] + 'emp', lb, r)
        return p
    nosub = lambda: int(r.random() < .15)
    if prop == 'I01':
        for _ in range(r.choice([1, 2, 2])):
            a, b = (lib, damage(brd, r)) if r.random() < .75 else (damage(lib, r), brd)
            S.append(['rd', new(a, b), nosub()])
            S.append(['clear'])
        S.append(['rd', new(lib if r.random() < .95 else None, brd), nosub()])
        if r.random() < .3:
            S.append([r.choice(['clear', 'fresh'])])
            S.append(['rd', new(lib, damage(brd, r)), 0])
    else:
        if r.random() < .85:
            if r.random() < .2:
                S.append(['rd', new(lib, damage(brd, r)), 0])
                S.append(['clear'])
            S.append(['rd', new(lib if r.random() < .9 else None, brd), nosub()])
        else:
            S.append(['bn', 'made'])
            S.append(['bo', 0, 1, 2, 30])
        for _ in range(r.choice([1, 1, 2])):
            if r.random() < .5:
                S += edits(G, r, sid % 2, r.randint(1, 8))
            p = new(lib, None)
            S.append(['wr', p, r.randrange(2), r.choice([0, 0, 1])])
            if r.random() < .8:
                S.append([r.choice(['fresh', 'clear'])])
                S.append(['rd', p, nosub()])
    return S


def enrich(evs, S):
    """the events of a history with the lines of its files and the words of its operations"""
    out = []
    for e in evs:
        e = dict(e)
        if e['op'] in ('start', 'end'):
            out.append(e)
            continue
        w = S[e['i'] - 1]
        e['a'] = w[1:]
        if e['op'] == 'rd' or (e['op'] == 'wr' and e['r'] == 1):
            out += file_events(w[1], w[2] if e['op'] == 'rd' else 0)
        out.append(e)
    return out


def corrupt_file(traces, rng, n=6):
    """self test: single values of recorded events are changed, the validator must notice"""
    out = {}
    ids = sorted(traces)
    rng.shuffle(ids)
    for t in ids:
        if len(out) >= n:
            break
        evs = json.loads(json.dumps(traces[t][2]))
        es = [i for i, e in enumerate(evs) if e['op'] == 'rd' and e['r'] == 1]
        if not es:
            continue
        e = evs[es[0]]
        if not os.path.basename(e['a'][0]).startswith('s'):
            continue
        m = len(out) % 3
        if m == 0:
            e['r'] = 0
        elif m == 1:
            e['u'] = 1 - e['u']
        elif m == 2:
            if not e['dr']:
                continue
            e['dr'][0][1] += 50
        out[10**7 + t] = (traces[t][0], 0, evs[:es[0] + 1])
        for x in out[10**7 + t][2]:
            if x['op'] != 'ln':
                x['t'] = 10**7 + t
    return out


def files(prop):
    C = vlib.Check(prop, 'model_checking')
    with vlib.Scratch(prop) as wd:
        binp = vlib.build('drv_idf', ('core', 'idf'))
        tot = {}
        num = 700 if prop == 'I01' else 500
        for rd in range(15 if C.thorough else 1):
            sub = '%s/f%d' % (wd, rd)
            os.makedirs(sub)
            sc = [file_script(prop, i, sub, random.Random('%d/%d/%s/%d' % (C.seed, rd, prop, i))) for i in range(num)]
            tr, cr = vlib.run_scripts(binp, [graph.lines(s) for s in sc], lambda i: '%d' % (i % 2), sub)
            traces = {}
            for i in tr:
                if tr[i] is None:
                    continue
                for e in tr[i]:
                    k = e['op'] + ('+' if e.get('r') else '-')
                    tot[k] = tot.get(k, 0) + 1
                traces[i] = (i % 2, 0, enrich(tr[i], sc[i]))
            bad = corrupt_file(traces, C.rng)
            n0 = len(traces)
            traces.update(bad)
            diffs, nev, nst = graph.validate(traces, sub, module='IdfTrace', timeout=850)
            hit = {d['t'] for d in diffs}
            base = {d['t'] for d in diffs if d['t'] < 10**7}
            if not bad or any(t not in hit for t in bad if t - 10**7 not in base):
                vlib.SOFT.append('a corrupted trace was accepted')
            C.cov['states'] += nst
            C.cov['transitions'] += nev
            C.cov['traces_validated_against_impl'] += n0
            for i, note in sorted(cr.items()):
                C.violation('crash: ' + note, replay(sc[i][:len(tr[i] or []) + 1], i))
            for d in diffs:
                if d['t'] < 10**7:
                    C.violation('%s: %s differs from the specification' % (d['op'], ','.join(d['d'])),
                                dict(replay(sc[d['t']][:d['i']], d['t']), difference=d, observed=[e for e in tr[d['t']] if e['i'] == d['i']][-1:]))
            shutil.rmtree(sub)
        C.cov['operations_by_result'] = tot
        C.cov['samples'] = [graph.lines(s)[:12] for s in C.rng.sample(sc, 2)]
    C.finish()


def replay(S, i):
    """the history and the text of the files it reads"""
    f = {}
    for w in S:
        if w[0] in ('rd', 'wr'):
            for p in (w[1], w[1][:-3] + 'emp'):
                if os.path.exists(p):
                    f[os.path.basename(p)] = open(p, errors='replace').read()
    return {'cad': i % 2, 'script': [' '.join(os.path.basename(str(x)) for x in w) for w in S], 'files': f}


def check(prop):
    if prop == 'I03':
        owner(prop)
    else:
        files(prop)
