"""Board solid conformance. G05: behaviours of spec/SolidGen.tla are replayed by harness/drv_solid and the faces of
the surfaces it builds are validated against spec/Shell.tla. I04: boards of spec/ConvGen.tla are written out as IDF
files and converted by idf2igs; files and re-read model are validated against spec/ConvTrace.tla."""
import json
import math
import os
import random
from concurrent.futures import ThreadPoolExecutor
from decimal import Decimal
import graph
import idf
import vlib

DRV = ('drv_solid', ('core', 'dll', 'idf'), ('-fno-access-control',))


def generate(wd, seeds, num, depth, timeout=600, module='SolidGen', spec='Spec'):
    def one(s):
        cfg = '%s/sol%d.cfg' % (wd, s)
        open(cfg, 'w').write('SPECIFICATION %s\nCONSTANTS Depth=%d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n' % (spec, depth))
        r = vlib.tlc(module, cfg, wd, timeout=timeout, args=['-simulate', 'num=%d' % num, '-depth', str(depth + 1), '-seed', str(s)])
        if 'Error' in r['out'] or 'violated' in r['out']:
            raise vlib.Infra('generation failed: ' + r['out'][r['out'].find('Error'):][:2500])
        return graph.parse_scripts(r['out'])
    with ThreadPoolExecutor(vlib.CORES) as ex:
        outs = list(ex.map(one, seeds))
    return [s for o in outs for s in o if s]


def header(i):
    return '%d %d %d' % ((0, 1, 2, 3, 4, 5, 6, 0)[i % 8], (0, 0, -4, 70, 0, -8, 30, 0)[i % 8], (0, 0, 5, -80, 0, -8, 20, 1)[i // 2 % 8])


def corrupt(traces, rng):
    """copies of traces with one falsified observation; the validator must report each of them"""
    out = {}
    ids = sorted(traces)
    rng.shuffle(ids)
    for t in ids:
        evs = json.loads(json.dumps(traces[t][2]))
        for k, e in enumerate(evs):
            if e['op'] == 'sol' and e['f']:
                n = len(out) % 5
                f = e['f'][rng.randrange(len(e['f']))]
                if n == 0:
                    e['f'].remove(f)                    # a missing face
                elif n == 1:
                    f['lp'][0]['g'][0][2] += 40         # an end in the wrong place
                elif n == 2:
                    f['lp'][0]['g'].pop()               # an open loop
                elif n == 3:
                    e['f'].append(json.loads(json.dumps(f)))
                else:
                    f['lp'][0]['u'][0][6] += 40         # a parameter curve elsewhere
                nt = 10**7 + t
                out[nt] = (0, 0, [dict(x, t=nt) for x in evs[:k + 1]])
                break
        if len(out) >= 10:
            break
    return out


# ---------------------------------------------------------------- conversion of IDF boards (I04)
UNITS = [('MM', '1', '0.1'), ('MM', '0.5', '0.05'), ('MM', '1.27', '0.127'), ('THOU', '40', '4'), ('THOU', '20', '2')]


def segs(a):
    """the encoded outline at the head of a; returns (list of segments, rest)"""
    n = a[0]
    return [a[1 + 8 * i:9 + 8 * i] for i in range(n)], a[1 + 8 * n:]


def num(x):
    s = format(x.normalize(), 'f')
    return '0' if s in ('-0', '') else s


def loop(o, idx, k):
    """the lines of a loop; k is the length of a grid unit"""
    f = lambda v: num(Decimal(v) * k)
    if len(o) == 1:
        s = o[0]
        return ['%d %s %s 0' % (idx, f(s[5]), f(s[6])), '%d %s %s 360' % (idx, f(s[1]), f(s[2]))]
    out = ['%d %s %s 0' % (idx, f(o[0][1]), f(o[0][2]))]
    for kind, ax, ay, bx, by, cx, cy, w in o:
        g = 0
        if kind == 2:
            g = math.degrees(math.atan2(by - cy, bx - cx) - math.atan2(ay - cy, ax - cx)) % 360
            g = round(g - 360 if w else g)
        out.append('%d %s %s %d' % (idx, f(bx), f(by), g))
    return out


def render(sc, path, r):
    """write the board of a script as an IDF board and library file"""
    u, k, h = r.choice(UNITS)
    k, h = Decimal(k), Decimal(h)
    lu, lk, lh = r.choice(UNITS)
    lk, lh = Decimal(lk), Decimal(lh)
    own = lambda: r.choice(['ECAD', 'MCAD', 'UNOWNED'])
    lib = ['.HEADER', 'LIBRARY_FILE 3.0 "t" 2014/01/01.10:00:00 1', '.END_HEADER']
    bo, dr, pl, oth, sides = [], [], [], [], {}
    for o in sc:
        a = o[1:]
        if o[0] in ('brd', 'cut'):
            bo += loop(segs(a)[0], len([1 for x in sc[:sc.index(o)] if x[0] in ('brd', 'cut')]), k)
        elif o[0] in ('hole', 'xhole', 'xring'):
            own_ref = ['BOARD', 'BOARD', 'NOREFDES', 'R1', 'U9'][a[3]]
            dr.append('%s %s %s %s %s %s %s' % (num(Decimal(a[2]) * h), num(a[0] * k), num(a[1] * k), r.choice(['PTH', 'NPTH']), own_ref, r.choice(['PIN', 'VIA', 'MTG', 'TOOL', 'other']), own()))
        elif o[0] == 'part':
            e = r.choice(['ELECTRICAL', 'MECHANICAL'])
            sg = segs(a[2:])[0]
            lib += ['.' + e, 'geo%d part%d %s %s' % (a[0], a[0], lu, num(a[1] * lh))] + (loop(sg, r.choice([0, 0, 1]), lk) if sg else []) + ['.END_' + e]
        elif o[0] == 'put':
            sd, st = sides.setdefault(a[1], (r.choice(['TOP', 'BOTTOM']), r.choice(['PLACED', 'UNPLACED', 'ECAD', 'MCAD'])))
            pl += ['geo%d part%d R%d' % (a[0], a[0], a[1]), '%s %s %s %s %s %s' % (num(a[2] * k), num(a[3] * k), num(a[4] * h), a[5] * 15, sd, st)]
        else:
            L = ['.OTHER_OUTLINE ' + own(), 'o%d %s %s' % (a[0], num(a[1] * h), ['TOP', 'BOTTOM'][a[2]])]
            rest = a[4:]
            for i in range(a[3]):
                sg, rest = segs(rest)
                L += loop(sg, i, k)
            oth += L + ['.END_OTHER_OUTLINE']
    th = r.choice(['1.6', '0.8', '2.4', '1']) if u == 'MM' else r.choice(['62', '64', '31.5', '40'])
    brd = ['.HEADER', 'BOARD_FILE 3.0 "t" 2014/01/01.10:00:00 1', 'brd ' + u, '.END_HEADER', '.BOARD_OUTLINE ' + own(), th] + bo + ['.END_BOARD_OUTLINE']
    blocks = [oth] + ([['.DRILLED_HOLES'] + dr + ['.END_DRILLED_HOLES']] if dr else [])
    r.shuffle(blocks)
    for b in blocks:
        brd += b
    if pl:
        brd += ['.PLACEMENT'] + pl + ['.END_PLACEMENT']
    if r.random() < .06:                    # now and then the file is not legal
        del brd[r.choice([i for i in range(4, len(brd)) if '.' == brd[i][0] or brd[i + 1].startswith('.END_')])]
    open(path, 'w').write('\n'.join(brd) + '\n')
    if len(lib) > 3 or r.random() < .5:
        open(path[:-3] + 'emp', 'w').write('\n'.join(lib) + '\n')


def conv_round(wd, seed, num_=40, depth=14, xnum=12, xdepth=9):
    """generate, write, convert; returns (scripts, traces, crashes)"""
    binp = vlib.build(*DRV)
    sc = generate(wd, [seed * 10 + i for i in range(8)], num_, depth, module='ConvGen', spec='CSpec')
    sc += generate(wd, [seed * 10 + i for i in range(8)], xnum, xdepth, module='ConvGen', spec='XSpec')
    d = wd + '/brd'
    os.makedirs(d, exist_ok=True)
    for i, s in enumerate(sc):
        render(s, '%s/b%d.emn' % (d, i), random.Random(seed * 100000 + i))
    lines = [['idf %s/b%d.emn' % (d, i)] for i in range(len(sc))]
    tr, cr = vlib.run_scripts(binp, lines, '0 0 0', wd)
    traces = {}
    for i in tr:
        if tr[i]:
            tr[i][-1]['x'] = 2 if any(o[0] == 'xring' for o in sc[i]) else int(any(o[0] == 'xhole' for o in sc[i]))       # holes which cross other curves
            traces[i] = (0, 0, [e if 't' in e else dict(e, t=i) for e in idf.file_events('%s/b%d.emn' % (d, i), 1)] + tr[i])
    return sc, traces, cr


def conv_corrupt(traces, rng):
    out = {}
    ids = [t for t in sorted(traces) if traces[t][2][-1].get('in')]
    rng.shuffle(ids)
    for t in ids[:6]:
        evs = json.loads(json.dumps(traces[t][2]))
        e, n = evs[-1], len(out) % 3
        x = e['in'][rng.randrange(len(e['in']))]
        if n == 0:
            e['in'].remove(x)
        elif n == 1:
            for f in x:
                for lp in f['lp']:
                    for g in lp['g'] + lp['u']:
                        g[1] += 60
                        g[4] += 60
                        g[7] += 60
        else:
            e['in'].append(x)
        nt = 10**7 + t
        out[nt] = (0, 0, [dict(x, t=nt) if x['op'] != 'ln' else x for x in evs])
    return out


def conv(prop='I04'):
    C = vlib.Check(prop, 'model_checking')
    with vlib.Scratch(prop) as wd:
        tot = {}
        for rd in range(10 if C.thorough else 1):
            sc, traces, cr = conv_round(wd, C.seed * 100 + rd)
            for t in traces:
                e = traces[t][2][-1]
                k = 'converted' if e['r'] and e.get('w') else 'refused'
                tot[k] = tot.get(k, 0) + 1
                tot['solids'] = tot.get('solids', 0) + len(e.get('in', []))
            n = len(traces)
            bad = conv_corrupt(traces, C.rng)
            diffs, nev, nst = graph.validate({**traces, **bad}, wd, module='ConvTrace', timeout=850)
            hit = {d['t'] for d in diffs}
            if not bad or sum(t in hit for t in bad) * 2 < len(bad):        # (a board may be left undecided)
                vlib.SOFT.append('a corrupted trace was accepted')
            C.cov['states'] += nst
            C.cov['transitions'] += nev
            C.cov['traces_validated_against_impl'] += n
            text = lambda i: {x: open('%s/brd/b%d.%s' % (wd, i, x)).read() for x in ('emn', 'emp') if os.path.exists('%s/brd/b%d.%s' % (wd, i, x))}
            for i, note in sorted(cr.items()):
                C.violation('crash: ' + note, {'files': text(i)})
            for d in diffs:
                if d['t'] < 10**7:
                    C.violation('conversion: %s differs from the specification' % ','.join(d['d']), {'files': text(d['t']), 'difference': d, 'observed': traces[d['t']][2][-1]})
            for i in range(len(sc)):
                for x in ('emn', 'emp', 'igs'):
                    if os.path.exists('%s/brd/b%d.%s' % (wd, i, x)):
                        os.unlink('%s/brd/b%d.%s' % (wd, i, x))
        C.cov['boards_by_result'] = tot
        C.cov['samples'] = [graph.lines(s)[:12] for s in C.rng.sample(sc, 2)]
    C.finish()


def check(prop):
    if prop == 'I04':
        return conv(prop)
    C = vlib.Check(prop, 'model_checking')
    with vlib.Scratch(prop) as wd:
        binp = vlib.build(*DRV)
        tot = {}
        for rd in range(12 if C.thorough else 1):
            sc = generate(wd, [C.seed * 1000 + rd * 50 + i for i in range(8)], 60, 10)
            tr, cr = vlib.run_scripts(binp, [graph.lines(s) for s in sc], header, wd)
            traces = {i: (0, 0, tr[i]) for i in tr if tr[i] is not None}
            for i in tr:
                for e in tr[i] or []:
                    k = e['op'] + ('+' if e.get('r') else '-')
                    tot[k] = tot.get(k, 0) + 1
                    tot['faces'] = tot.get('faces', 0) + len(e.get('f', []))
            bad = corrupt(traces, C.rng)
            traces.update(bad)
            diffs, nev, nst = graph.validate(traces, wd, module='SolidTrace', timeout=850)
            hit = {d['t'] for d in diffs}
            if not bad or any(t not in hit for t in bad):
                vlib.SOFT.append('a corrupted trace was accepted')
            diffs = [d for d in diffs if d['t'] not in bad]
            C.cov['states'] += nst
            C.cov['transitions'] += nev
            C.cov['traces_validated_against_impl'] += len(traces) - len(bad)
            for i, note in sorted(cr.items()):
                C.violation('crash: ' + note, {'script': graph.lines(sc[i]), 'header': header(i), 'after': len(tr[i] or [])})
            for d in diffs:
                ev = tr[d['t']][d['i'] - 1]
                C.violation('%s %s: %s differs from the specification' % (d['op'], d['a'], ','.join(d['d'])),
                            {'script': graph.lines(sc[d['t']][:d['i']]), 'header': header(d['t']), 'difference': d, 'observed': ev})
        C.cov['operations_by_result'] = tot
        C.cov['samples'] = [graph.lines(s)[:12] for s in C.rng.sample(sc, 2)]
    C.finish()
