"""Damaged and re-laid-out IGES files, from the lines of a good one.  What a mutant
states (and whether a reader must refuse it) is decided by spec/IgesFile.tla alone."""


def rec(text, letter, n):
    return '%-72s%s%7d' % (text[:72], letter, n)


class File:
    """an 80 column file taken apart: start and global text, per entity DE fields, PD text and comments"""

    def __init__(self, lines):
        self.lines = [l for l in lines if l]
        sec = {c: [l for l in self.lines if l[72:73] == c] for c in 'SGDPT'}
        self.start = [l[:72] for l in sec['S']]
        self.glob = ''.join(l[:72] for l in sec['G'])
        self.pd, self.rd = self.delims()
        self.ents = []
        for i in range(0, len(sec['D']), 2):
            a, b = sec['D'][i], sec['D'][i + 1]
            fa = [a[8 * k:8 * k + 8] for k in range(9)]
            fb = [b[8 * k:8 * k + 8] for k in range(9)]
            p, n = int(fa[1]), int(fb[3])
            rows = [l[:64] for l in sec['P'][p - 1:p - 1 + n]]
            toks, used = self.split(''.join(rows))
            self.ents.append(dict(a=fa, b=fb, toks=toks, com=rows[(used + 63) // 64:]))

    def delims(self):
        g = self.glob
        i, pd, rd = 0, ',', ';'
        if g[0] != ',':
            pd = g[2]
            i = 3
        i += 1
        if g[i] != pd:
            rd = g[i + 2]
        return pd, rd

    def split(self, t):
        """tokens of a free-format text; (tokens, characters used)"""
        out, i, cur = [], 0, ''
        while i < len(t):
            j = i
            while j < len(t) and t[j].isdigit():
                j += 1
            if not cur.strip() and j > i and j < len(t) and t[j] == 'H':
                n = int(t[i:j])
                cur += t[i:j + 1 + n]
                i = j + 1 + n
                continue
            c = t[i]
            i += 1
            if c == self.pd or c == self.rd:
                out.append(cur if 'H' in cur else cur.strip())
                cur = ''
                if c == self.rd:
                    return out, i
                continue
            cur += c
        out.append(cur)
        return out, i

    def gtoks(self):
        """the tokens of the Global section after the two delimiters"""
        g = self.glob
        i = 0 if g[0] == ',' else 3
        i += 1
        i += 0 if g[i] == self.pd else 3
        return self.split(g[i + 1:])[0]

    @staticmethod
    def chunk(toks, pd, rd, w, rng=None, pad=0.0):
        """lay tokens out in rows of w columns: only Hollerith strings cross a row end"""
        rows, cur = [], ''
        for k, t in enumerate(toks):
            t = t + (rd if k == len(toks) - 1 else pd)
            hol = 'H' in t and t.strip()[:1].isdigit() and t.strip().split('H')[0].isdigit()
            if rng and rng.random() < pad:
                t = ' ' * rng.randint(1, 5) + t
            if rng and pad and cur.strip() and rng.random() < 0.1:
                rows.append(cur.ljust(w))
                cur = ''
            if not hol:
                if len(cur) + len(t) > w:
                    rows.append(cur.ljust(w))
                    cur = ''
                cur += t
            else:
                n = len(t.split('H')[0]) + 2
                if len(cur) + n > w:
                    rows.append(cur.ljust(w))
                    cur = ''
                cur += t
                while len(cur) > w:
                    rows.append(cur[:w])
                    cur = cur[w:]
        if cur:
            rows.append(cur.ljust(w))
        return [r for r in rows]

    def emit(self, rng=None, pad=0.0, gt=None, over=None, head=None):
        """lines of the file; over: {entity: dict} with raw overrides"""
        pd, rd = self.pd, self.rd
        S = [rec(t, 'S', i + 1) for i, t in enumerate(self.start)]
        if gt is None:
            G = [self.glob[i:i + 72] for i in range(0, len(self.glob), 72)]
        else:
            h = head if head is not None else ['1H' + pd, '1H' + rd]
            G = self.chunk(h + gt, pd, rd, 72, rng, 0)
        G = [rec(t, 'G', i + 1) for i, t in enumerate(G)]
        D, P = [], []
        for q, e in enumerate(self.ents):
            rows = self.chunk(e['toks'], pd, rd, 64, rng, pad) + e['com']
            fa, fb = list(e['a']), list(e['b'])
            if not e.get('rawp'):
                fa[1] = '%8d' % (len(P) + 1)
            if not e.get('rawn'):
                fb[3] = '%8d' % len(rows)
            seq = 2 * q + 1
            D.append(rec(''.join(x[:8].rjust(8) for x in fa), 'D', seq))
            D.append(rec(''.join(x[:8].rjust(8) if k != 7 else x[:8] for k, x in enumerate(fb)), 'D', seq + 1))
            one = e['brow'] % len(rows) if 'brow' in e else None
            for n, r in enumerate(rows):
                P.append('%-64s %7dP%7d' % (r[:64], e.get('back', seq) if one in (None, n) else seq, len(P) + 1))
        T = 'S%7dG%7dD%7dP%7d' % (len(S), len(G), len(D), len(P))
        return S + G + D + P + [rec(T, 'T', 1)]


def mutants(lines, rng, n):
    """n random faults (mostly single, some double)"""
    out = []
    while len(out) < n:
        L = list(lines)
        for _ in range(1 if rng.random() < 0.85 else 2):
            L = rng.choice([fline, fline, fdir, fdir, fpd, fpd, fpd, fglob, fterm])(L, rng)
        if L and L != lines:
            out.append(L)
    return out


BADNUM = ['', '0', '1', '2', '-1', '-2', '-3', '9999999', '99999999', '12345678', '-9999999', 'abc', '1.5', '1 2', '+5', '  ', '4', '7', '13', '100', '406']


def fline(L, r):
    L = list(L)
    if not L:
        return L
    i = r.randrange(len(L))
    k = r.randrange(13)
    if k == 0:
        del L[i]
    elif k == 1:
        L.insert(i, L[i])
    elif k == 2:
        j = r.randrange(len(L))
        L[i], L[j] = L[j], L[i]
    elif k == 3:
        L[i] = L[i][:r.choice([0, 1, 8, 64, 71, 72, 73, 79])]
    elif k == 4:
        L[i] = L[i][:72] + r.choice('SGDPTX gdp1') + L[i][73:]
    elif k == 5:
        L[i] = L[i][:73] + '%7s' % r.choice([i, 0, -1, 1, 2, 9999999, 'x', '', 3, '1x'])
    elif k == 6:
        L = L[:i]
    elif k == 7:
        c = r.choice('SGDPT')
        L = [x for x in L if x[72:73] != c]
    elif k == 8:
        L[i] = L[i] + r.choice([' ', 'x', '  extra'])
    elif k == 9:
        L.insert(i, r.choice(['', ' ' * 80, 'x' * 80, ' ' * 72 + 'P      1', ' ' * 72 + 'C0000001']))
    elif k == 10:
        c, d = r.sample('SGDP', 2)
        a, b = [x for x in L if x[72:73] == c], [x for x in L if x[72:73] == d]
        if a and b:
            L = [x for q in 'SGDPT' for x in (b if q == c else a if q == d else [y for y in L if y[72:73] == q])]
    elif k == 11:
        p = r.randrange(0, 80)
        L[i] = L[i][:p] + r.choice(' 0129,;-+HDE.xS\x00\xff') + L[i][p + 1:]
    else:
        j = min(len(L), i + r.randint(1, 4))
        L = L[:i] + L[j:]
    return L


def fdir(L, r):
    L = list(L)
    d = [i for i, l in enumerate(L) if l[72:73] == 'D']
    if not d:
        return L
    i = r.choice(d)
    f = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8] if i % 2 == d[0] % 2 else [0, 1, 2, 3, 4, 5, 6, 7, 8])
    own = (d.index(i) // 2) * 2 + 1
    v = r.choice(BADNUM + [str(own), str(-own), str(2 * r.randint(0, len(d)) + 1), str(-(2 * r.randint(0, len(d) // 2) + 1)), str(len(d)), str(len(d) + 1), str(len(d) - 1), '1010000', '20500', '10301', '124', '102', '144'])
    L[i] = L[i][:8 * f] + '%8s' % v[:8] + L[i][8 * f + 8:]
    return L


def fpd(L, r):
    try:
        F = File(L)
    except Exception:
        return L
    if not F.ents:
        return L
    q = r.randrange(len(F.ents))
    e = F.ents[q]
    k = r.randrange(12)
    ts = e['toks']
    nd = 2 * len(F.ents)
    ints = [i for i, t in enumerate(ts) if i and t.strip().lstrip('-').isdigit()]
    i = r.choice(ints) if ints and r.random() < 0.7 else r.randrange(len(ts))
    if k <= 3:
        ts[i] = r.choice(BADNUM + [str(2 * q + 1), str(2 * r.randint(0, nd // 2) + 1), str(2 * r.randint(1, nd // 2)), str(nd), str(nd + 1), '-' + str(2 * r.randint(0, nd // 2) + 1)])
    elif k == 4:
        try:
            ts[i] = str(int(ts[i]) + r.choice([-1, 1, 2]))
        except ValueError:
            ts[i] = ''
    elif k == 5:
        del ts[i]
        if not ts:
            ts.append('')
    elif k == 6:
        ts.insert(i, r.choice(['', '0', '1', '5', '1.0', '3Habc']))
    elif k == 7:
        h = [j for j, t in enumerate(ts) if 'H' in t and t.split('H')[0].strip().isdigit()]
        if h:
            j = r.choice(h)
            n = int(ts[j].split('H')[0])
            ts[j] = str(max(0, n + r.choice([-2, -1, 1, 2, 50, 100000]))) + 'H' + ts[j].split('H', 1)[1]
        else:
            ts[i] = r.choice(['5Habc', '3Habc', '0H', '999999999999H', 'H', '-1H'])
    elif k == 8:
        e['back'] = r.choice([1, 3, 2, 0, 2 * q + 2, 2 * q + 3, 9999999])
        if r.random() < 0.6:        # of one line only
            e['brow'] = r.randrange(4)
    elif k == 9:
        e['a'][1] = str(r.choice([0, 1, 2, 3, 9999999, -1, 50]))
        e['rawp'] = True
    elif k == 10:
        e['b'][3] = str(r.choice([0, 1, 2, 3, 4, 99999, -1]))
        e['rawn'] = True
    else:
        t = r.choice(F.ents)
        e['toks'] = list(t['toks'])
    # a literal may contain the delimiters or be cut: only the layout rules of chunk apply
    return F.emit()


def fglob(L, r):
    try:
        F = File(L)
        g = F.gtoks()
    except Exception:
        return L
    head = None
    k = r.randrange(6)
    i = r.randrange(len(g))
    if k == 0:
        g[i] = r.choice(BADNUM + ['3Habc', '5Habc', 'H', '0H', '1H;', '99999H', '1.0D99', '1e5', '2HIN', '2HXX', '1.0E400'])
    elif k == 1:
        del g[i]
    elif k == 2:
        g.insert(i, r.choice(['', '1', '1Hx', '1.0']))
    elif k == 3:
        g = g[:i + 1]
    elif k == 4:
        head = r.choice([['', ''], ['1H' + F.pd, ''], ['1H' + F.pd, '1H' + F.pd], ['1H1', '1H;'], ['2H,,', '1H;'], ['1H ', '1H;'], ['1HD', '1H;'], ['H,', '1H;'], ['1H' + F.pd, '1H+']])
    else:
        if len(g) > 14:
            g[9 + r.randrange(5)] = r.choice(['0', '1', '2', '12', '-1', '99', '0.0', '-1.0', ''])
    if not g:
        g = ['']
    return F.emit(gt=g, head=head)


def fterm(L, r):
    L = list(L)
    if not L:
        return L
    t = L[-1]
    k = r.randrange(6)
    if k == 0:
        L = L[:-1]
    elif k == 1:
        f = r.randrange(4)
        t = t[:8 * f + 1] + '%7s' % r.choice([0, 1, -1, 9999999, 'x', '', '12 3']) + t[8 * f + 8:]
        L[-1] = t
    elif k == 2:
        f = r.randrange(4)
        L[-1] = t[:8 * f] + r.choice('SGDPTx ') + t[8 * f + 1:]
    elif k == 3:
        L.append(t)
    elif k == 4:
        L[-1] = t[:r.choice([0, 1, 8, 32, 72, 73])]
    else:
        L[-1] = t[:40] + 'x' + t[41:]
    return L


def relaid(lines, rng):
    """an equivalent file in another layout"""
    F = File(lines)
    crlf = rng.random() < 0.2
    pad = rng.choice([0, 0, 0.15, 0.3])
    alt = rng.random() < 0.6
    for e in F.ents:
        ts = e['toks']
        if alt:
            for i, t in enumerate(ts):
                if i == 0 or 'H' in t:
                    continue
                if any(c in t for c in '.ED') and rng.random() < 0.4:
                    ts[i] = realform(t, rng)
        if rng.random() < 0.3:
            for k in (2, 3, 4, 5, 6, 7):
                if e['a'][k].strip() == '0':
                    e['a'][k] = ' ' * 8
            for k in (1, 2, 4):
                if e['b'][k].strip() == '0':
                    e['b'][k] = ' ' * 8
        if rng.random() < 0.2:
            for k in (0, 2, 3, 4, 5):
                e['a'][k] = e['a'][k].strip().zfill(8) if e['a'][k].strip().isdigit() else e['a'][k]
        if rng.random() < 0.15 and ts[-1].strip() != '' and int(ts[0]) in (100, 104, 110, 122, 124, 154, 164, 314 if len(ts) == 5 else 0, 408):
            # explicit empty lists of associated and optional entities
            if len(ts) == {100: 8, 104: 12, 110: 7, 122: 5, 124: 13, 154: 9, 164: 6, 314: 5, 408: 6}[int(ts[0])]:
                ts += ['0', '0']
    gt, head = None, None
    if rng.random() < 0.5:
        gt = F.gtoks()
        if F.pd == ',' and F.rd == ';' and rng.random() < 0.6:
            head = rng.choice([['', ''], ['1H,', ''], ['', '1H;'], ['1H,', '1H;']])
        if rng.random() < 0.3 and gt[-1].strip() == '' :
            gt = gt[:-1]
        if rng.random() < 0.3:
            for i in (10, 14, 15, 16):
                if i < len(gt) and rng.random() < 0.5 and '.' in gt[i] and 'H' not in gt[i]:
                    gt[i] = realform(gt[i], rng)
    out = F.emit(rng, pad, gt=gt, head=head)
    if crlf:
        out = [l + '\r' for l in out]
    return out


def realform(t, rng):
    """another free-format spelling of the same decimal"""
    s = t.strip().replace('D', 'E')
    neg = s.startswith('-')
    s = s.lstrip('+-')
    m, _, x = s.partition('E')
    x = int(x or 0)
    ip, _, fp = m.partition('.')
    k = rng.randrange(7)
    if k == 0:
        r = '%s.%sD%d' % (ip, fp, x)
    elif k == 1:
        r = '%s%s.E%d' % (ip, fp, x - len(fp))
    elif k == 2:
        r = '.%s%sE%d' % (ip, fp, x + len(ip))
    elif k == 3:
        r = '%s.%s00E%+d' % (ip or '0', fp, x)
    elif k == 4:
        r = '0%s.%sE%02d' % (ip, fp, x) if x >= 0 else '%s.%sE-%02d' % (ip, fp, -x)
    elif k == 5:
        r = '%s.%sD%+d' % (ip, fp or '0', x)
    else:
        r = t.strip().lstrip('+-')
    return ('-' if neg else '+' if rng.random() < 0.2 else '') + r
