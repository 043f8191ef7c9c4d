"""Geometry conformance (G01-G04): behaviours of spec/GeomGen.tla are replayed by harness/drv_geom
and the recorded trace is validated against the exact geometry of spec/GeomTrace.tla."""
import json
from concurrent.futures import ThreadPoolExecutor
import graph
import vlib


def generate(jobs, wd, timeout=600):
    def one(j):
        i, (prof, g, depth, num, seed) = j
        cfg = '%s/geo%d.cfg' % (wd, i)
        mod, const = ('GeomOpGen', '') if prof == 'ops' else ('GeomGen', 'Profile="%s" G=%d ' % (prof, g))
        open(cfg, 'w').write('SPECIFICATION Spec\nCONSTANTS %sDepth=%d\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n' % (const, depth))
        r = vlib.tlc(mod, cfg, wd, timeout=timeout, args=['-simulate', 'num=%d' % num, '-depth', str(depth + 1), '-seed', str(seed)])
        if 'Error' in r['out'] or 'violated' in r['out']:
            raise vlib.Infra('generation failed: ' + r['out'][r['out'].find('Error'):][:2500])
        return graph.parse_scripts(r['out'])
    with ThreadPoolExecutor(vlib.CORES) as ex:
        outs = list(ex.map(one, list(enumerate(jobs))))
    return [s for o in outs for s in o if s]


PLAN = {'G01': [('any', 4), ('any', 6), ('arcs', 5), ('lines', 5), ('any', 8), ('arcs', 8), ('any', 5), ('circ', 6)],
        'G02': [('split', 4), ('split', 8), ('split', 6), ('split', 8), ('split', 5), ('split', 8), ('split', 7), ('split', 8)],
        'G03': [('outline', 8), ('outline', 6), ('outline', 8), ('outline', 5), ('outline', 8), ('outline', 7), ('outline', 8), ('outline', 4)],
        'G04': [('ops', 8)] * 8}
SIZE = {'G01': (120, 120), 'G02': (120, 90), 'G03': (90, 100), 'G04': (16, 100)}
OPS = {'G01': {'isect'}, 'G02': {'mk', 'split'}, 'G03': {'new', 'add', 'probe'}, 'G04': {'opo', 'opc', 'cuto', 'cutc'}}


def header(i):
    return '%d %d %d' % ((0, 1, 2, 0, 3, 0, 4, 5)[i % 8], (0, 0, -4, 7, 0, -8, 3, 0)[i % 8], (0, 0, 5, -8, 0, -8, 2, 1)[i // 2 % 8])


def corrupt(traces, rng, prop):
    """copies of traces with one falsified observation; the validator must report each of them"""
    out = {}
    ids = sorted(traces)
    rng.shuffle(ids)
    for t in ids:
        evs = json.loads(json.dumps(traces[t][2]))
        for k in range(len(evs) - 1, -1, -1):
            e = evs[k]
            if e['op'] == 'isect' and e['p'] and e['f'] in (0, 1):
                if len(out) % 2:
                    e['p'][0][0] += 40
                else:
                    e['p'].pop()
            elif e['op'] == 'mk' and e['r']:
                e['q']['mid'][0] += 40
            elif e['op'] in ('add', 'opo', 'opc') and e['r'] and e['cl']:
                e['in'][0] = 1 - e['in'][0]
            else:
                continue
            nt = 10**7 + t
            out[nt] = (0, 0, [dict(x, t=nt) for x in evs[:k + 1]])
            break
        if len(out) >= 4:
            break
    return out


def check(prop):
    C = vlib.Check(prop, 'model_checking')
    with vlib.Scratch(prop) as wd:
        binp = vlib.build('drv_geom', ('core',))
        depth, num = SIZE[prop]
        tot = {}
        for rd in range(20 if C.thorough else 1):
            sc = generate([(p, g, depth, num, C.seed * 1000 + rd * 50 + i) for i, (p, g) in enumerate(PLAN[prop])], wd)
            tr, cr = vlib.run_scripts(binp, [graph.lines(s) for s in sc], header, wd)
            traces = {i: (0, 0, tr[i]) for i in tr if tr[i] is not None}
            for i in tr:
                for e in tr[i] or []:
                    k = e['op'] + ('+' if e['r'] else '-')
                    tot[k] = tot.get(k, 0) + 1
            bad = corrupt(traces, C.rng, prop)
            traces.update(bad)
            diffs, nev, nst = graph.validate(traces, wd, module='GeomTrace', timeout=850)
            hit = {d['t'] for d in diffs}
            if not bad or any(t not in hit for t in bad):
                vlib.SOFT.append('a corrupted trace was accepted')
            diffs = [d for d in diffs if d['t'] not in bad]
            C.cov['states'] += nst
            C.cov['transitions'] += nev
            C.cov['traces_validated_against_impl'] += len(traces) - len(bad)
            for i, note in sorted(cr.items()):
                C.violation('crash: ' + note, {'script': graph.lines(sc[i]), 'header': header(i), 'after': len(tr[i] or [])})
            for d in diffs:
                if d['op'] not in OPS[prop]:
                    continue
                ev = tr[d['t']][d['i'] - 1]
                C.violation('%s %s: %s differs from the specification' % (d['op'], d['a'], ','.join(d['d'])),
                            {'script': graph.lines(sc[d['t']][:d['i']]), 'header': header(d['t']), 'difference': d, 'observed': ev})
        C.cov['operations_by_result'] = tot
        C.cov['samples'] = [graph.lines(s)[:12] for s in C.rng.sample(sc, 2)]
    C.finish()
