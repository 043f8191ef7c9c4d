"""API-layer conformance (E04, E07): behaviours of spec/ApiGen.tla are replayed through the real
handle classes by harness/drv_api and the recorded trace is validated by spec/ApiTrace.tla."""
import json
from concurrent.futures import ThreadPoolExecutor
import graph
import vlib

PROF = ['hany', 'hmod', 'hobj', 'hany', 'hmod', 'hobj', 'hany', 'hany']


def generate(jobs, wd, timeout=600):
    def one(j):
        i, (prof, ne, nm, depth, num, seed) = j
        cfg = '%s/gen%d.cfg' % (wd, i)
        open(cfg, 'w').write('SPECIFICATION ASpec\nCONSTANTS Profile="%s" NE=%d NM=%d Depth=%d\nINVARIANTS Emit AInv\nCHECK_DEADLOCK FALSE\n' % (prof, ne, nm, depth))
        r = vlib.tlc('ApiGen', cfg, wd, timeout=timeout, args=['-simulate', 'num=%d' % num, '-depth', str(depth + 1), '-seed', str(seed)])
        if 'Error' in r['out'] or 'violated' in r['out']:
            raise vlib.Infra('generation failed: ' + r['out'][r['out'].find('Error'):][:2500])
        return [(ne, nm, [o for o in s if o[0] != 'nop']) for s in graph.parse_scripts(r['out'])]
    with ThreadPoolExecutor(vlib.CORES) as ex:
        outs = list(ex.map(one, list(enumerate(jobs))))
    return [s for o in outs for s in o]


def relevant(prop, d):
    ds = set(d['d'])
    if 'rejected' in ds:
        return True
    if prop == 'E07':
        return 'values' in ds or (d['op'] in ('hG', 'hW') and 'result' in ds) or (d['op'] in ('hS', 'hC', 'hR', 'hO', 'hQ', 'hT', 'mAdd', 'mDel', 'mUnl', 'mClr', 'mCull', 'mExp', 'mIge') and ds & {'result', 'links', 'parents', 'attr', 'alive', 'owner'})
    return bool(ds & {'handle', 'parent model', 'objects', 'alive', 'owner'}) or 'result' in ds or d['op'] in ('hV', 'hK', 'hX')


def corrupt(traces, rng, n=4):
    out = {}
    ids = [t for t in sorted(traces) if traces[t][2] and 'h' in traces[t][2][-1]]
    rng.shuffle(ids)
    for t in ids:
        if len(out) >= n:
            break
        nm, ne, evs = traces[t]
        ev = json.loads(json.dumps(evs[-1]))
        b = [i for i, x in enumerate(ev['h']) if x]
        if not b:
            continue
        if len(out) % 2:
            ev['h'][rng.choice(b)] = 0
        else:
            ev['o'][-1] = 1 - ev['o'][-1]
        nt = 10**7 + t
        out[nt] = (nm, ne, [dict(x, t=nt) for x in evs[:-1] + [ev]])
    return out


def check(prop):
    C = vlib.Check(prop, 'model_checking')
    with vlib.Scratch(prop) as wd:
        binp = vlib.build('drv_api', ('core', 'dll'), ('-fno-access-control',))
        rounds = 24 if C.thorough else 2
        tot = {}
        for rd in range(rounds):
            sc = generate([(p, 14, 3, 60, 60, C.seed * 1000 + rd * 100 + i + (500 if prop == 'E07' else 0)) for i, p in enumerate(PROF)], wd)
            tr, cr = vlib.run_scripts(binp, [graph.lines(s[2]) for s in sc], lambda i: '%d %d 0' % (sc[i][1], sc[i][0]), wd)
            traces = {i: (sc[i][1], sc[i][0], tr[i]) for i in tr if tr[i] is not None}
            for i in tr:
                for e in tr[i] or []:
                    k = e['op'] + ('+' if e['r'] else '-')
                    tot[k] = tot.get(k, 0) + 1
            bad = corrupt(traces, C.rng)
            traces.update(bad)
            diffs, nev, nst = graph.validate(traces, wd, module='ApiTrace', timeout=850)
            hit = {d['t'] for d in diffs}
            if any(t not in hit for t in bad):
                vlib.SOFT.append('a corrupted trace was accepted')
            C.cov['states'] += nst
            C.cov['transitions'] += nev
            C.cov['traces_validated_against_impl'] += len(traces) - len(bad)
            for i, note in sorted(cr.items()):
                C.violation('crash: ' + note, {'script': graph.lines(sc[i][2]), 'header': sc[i][:2], 'after': len(tr[i] or [])})
            todo = [d for d in diffs if d['t'] not in bad and relevant(prop, d)]
            for d in todo[:12]:
                ev = tr[d['t']][d['i'] - 1]
                det = {'script': graph.lines(sc[d['t']][2][:d['i']]), 'ids': sc[d['t']][0], 'models': sc[d['t']][1], 'difference': d, 'observed': ev}
                if 'values' in d['d']:
                    det['values'] = [[k, a, b] for k, (a, b) in enumerate(zip(ev['g'], ev['c'])) if a != b]
                C.violation('%s %s: %s differs from the specification' % (d['op'], d['a'], ','.join(d['d'])), det)
        C.cov['operations_by_result'] = tot
        C.cov['samples'] = [graph.lines(s[2]) for s in C.rng.sample(sc, 2)]
        C.assumptions = ['the driver reads the private state of handles (-fno-access-control)', '8 handles, 14 entities, 3 models, 60 segments and outlines; 60 operations',
                         'an object owned by an outline is not destroyed through another handle (documented as forbidden)']
    C.finish()
