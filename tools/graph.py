"""Entity-graph conformance: behaviours of spec/EntityGen.tla (TLC simulation) or
transitions of spec/EntityMC.tla (exhaustive) are replayed into the real library by
harness/drv_core and the recorded trace is validated by spec/EntityTrace.tla."""
import json, os, re, random
from concurrent.futures import ThreadPoolExecutor
import vlib


def gen_cfg(path, profile, ne, nm, depth):
    open(path, 'w').write('SPECIFICATION Spec\nCONSTANTS Profile="%s" NE=%d NM=%d Depth=%d\nINVARIANTS Emit Inv\nCHECK_DEADLOCK FALSE\n' % (profile, ne, nm, depth))


def parse_scripts(out):
    res = []
    for l in out.splitlines():
        l = l.strip()
        if l.startswith('"SCRIPT '):
            res.append(json.loads(json.loads(l)[7:]))
    return res


def generate(jobs, wd, timeout=300):
    """jobs: list of (profile, ne, nm, depth, num, seed); returns (scripts, number of states)"""
    def one(j):
        i, (prof, ne, nm, depth, num, seed) = j
        cfg = '%s/gen%d.cfg' % (wd, i)
        gen_cfg(cfg, prof, ne, nm, depth)
        r = vlib.tlc('EntityGen', cfg, wd, timeout=timeout, args=['-simulate', 'num=%d' % num, '-depth', str(depth + 1), '-seed', str(seed)])
        if 'Error' in r['out'] or 'violated' in r['out']:
            raise vlib.Infra('generation failed: ' + r['out'][-2000:])
        return [(ne, nm, s) for s in parse_scripts(r['out'])]
    with ThreadPoolExecutor(vlib.CORES) as ex:
        outs = list(ex.map(one, list(enumerate(jobs))))
    seen, res = set(), []
    for o in outs:
        for ne, nm, s in o:
            k = json.dumps(s)
            if k not in seen:
                seen.add(k)
                res.append((ne, nm, s))
    return res


def lines(s):
    return [' '.join(str(x) for x in op) for op in s]


def validate(traces, wd, module='EntityTrace', nchunk=None, timeout=600, heap='3g'):
    """traces: {id: (nm, ne, [events])}; returns (diffs [dict], events validated, states)"""
    ids = sorted(traces)
    if not ids:
        return [], 0, 0
    nchunk = nchunk or vlib.CORES
    per = (len(ids) + nchunk - 1) // nchunk
    jobs = [ids[i:i + per] for i in range(0, len(ids), per)]

    def one(j, deep=0):
        k, part = j
        p = '%s/trace%d.ndjson' % (wd, k)
        n = 0
        with open(p, 'w') as f:
            for t in part:
                nm, ne, evs = traces[t]
                f.write(json.dumps({'t': t, 'i': 0, 'op': 'start', 'a': [nm, ne]}) + '\n')
                n += 1
                for e in evs:
                    f.write(json.dumps(e, separators=(',', ':')) + '\n')
                    n += 1
        r = vlib.tlc(module, '%s/spec/%s.cfg' % (vlib.VERIF, module), wd, timeout=timeout, env={'TRACE': p}, heap=heap)
        if r['rc'] != 0 and 'OutOfMemory' not in r['out'] and 'StackOverflow' not in r['out'] and 'Error: ' in r['out'] and 0 < r['distinct'] <= n and deep < 12:
            # an observed value the specification cannot even be compared with: the trace is no behaviour of it
            bad, x, cur = None, r['distinct'] - 1, 0
            for l in open(p):
                bad = json.loads(l)
                cur = bad['t'] if bad['op'] == 'start' else cur
                bad['t'] = cur          # (lines of files have tokens there)
                x -= 1
                if x < 0:
                    break
            m = r['out'][r['out'].find('Error: '):]
            d0 = [json.loads(json.loads(l)[5:]) for l in r['out'].splitlines() if l.startswith('"DIFF ')]
            d0 += [{'t': bad['t'], 'i': bad.get('i', 1) or 1, 'op': bad['op'], 'a': bad.get('a', ''), 'd': ['rejected'], 'expr': 0, 'error': m[:600]}]
            rest = [t for t in part if t > bad['t']]
            os.unlink(p)
            if rest:
                d1, n1, s1 = one((k, rest), deep + 1)
                return d0 + d1, n + 0 * n1, r['distinct'] + s1
            return d0, n, r['distinct']
        if r['rc'] != 0 or r['distinct'] != n + 1:
            raise vlib.Infra('trace validation did not finish (%d states for %d lines):\n%s' % (r['distinct'], n, r['out'][-3000:]))
        if os.environ.get('GRAPHOUT'):
            open(os.environ['GRAPHOUT'] + str(k), 'w').write(r['out'])
        d = []
        for l in r['out'].splitlines():
            if l.startswith('"DIFF '):
                d.append(json.loads(json.loads(l)[5:]))
        os.unlink(p)
        return d, n, r['distinct']
    with ThreadPoolExecutor(vlib.CORES) as ex:
        outs = list(ex.map(one, list(enumerate(jobs))))
    vlib.SEEN[0] += sum(1 for o in outs for d in o[0] if d['t'] < 10**7)
    return [d for o in outs for d in o[0]], sum(o[1] for o in outs), sum(o[2] for o in outs)


def model_check(family, maxd, wd, emit=False, workers=2, timeout=800, fullcull=True):
    """exhaustive exploration (all invariants) of one population; returns the TLC result (and the transitions)"""
    cfg = '%s/mc_%s_%d.cfg' % (wd, family, emit)
    open(cfg, 'w').write('SPECIFICATION Spec\nCONSTANTS Family="%s" EMIT=%s MAXD=%d FULLCULL=%s\nVIEW View\nCHECK_DEADLOCK FALSE\n' % (family, str(emit).upper(), maxd, str(fullcull).upper())
                         + 'INVARIANTS Inv InvC InvCull\n' + ('ACTION_CONSTRAINT EmitT\n' if emit else ''))
    r = vlib.tlc('EntityMC', cfg, wd, timeout=timeout, workers=workers, heap='4g')
    vlib.tlc_ok(r, 'EntityMC ' + family)
    if 'No error has been found' not in r['out']:
        raise vlib.Infra('EntityMC %s: %s' % (family, r['out'][-1000:]))
    return r


POP = {'chain': 5, 'chain2': 5, 'trim': 5, 'ext': 5, 'solid': 5, 'assy': 4, 'assy2': 4, 'attr': 5, 'prop': 4, 'own': 4, 'own2': 3, 'xform': 4, 'place': 5}


def transitions(family, maxd, wd, rng=None, limit=None):
    """one replay script per explored transition; transitions which leave the state unchanged are
    appended to a common script.  Returns ([(ne, nm, script, first observed step)], transitions, total)"""
    r = model_check(family, maxd, wd, emit=True, workers=1)
    loops, moves = {}, []
    total = 0
    for l in r['out'].splitlines():
        l = l.strip()
        if l.startswith('"T '):
            h, same = json.loads(json.loads(l)[2:])
            total += 1
            if same:
                loops.setdefault(json.dumps(h[:-1]), []).append(h[-1])
            else:
                moves.append(h)
    res = []
    n = 0
    groups = [(json.loads(k), v) for k, v in loops.items()]
    work = [('l', g) for g in groups] + [('m', m) for m in moves]
    if limit and len(work) > limit:
        rng.shuffle(work)
        work = work[:limit]
    ne = POP[family]
    for t, w in work:
        if t == 'l':
            res.append((ne, 2, w[0] + w[1], len(w[0]) + 1))
            n += len(w[1])
        else:
            res.append((ne, 2, w, len(w)))
            n += 1
    return res, n, total, r


DEEP = {'chain': 30, 'chain2': 30, 'ext': 30, 'solid': 30, 'assy': 30, 'assy2': 30, 'attr': 30, 'prop': 30, 'own2': 30, 'xform': 30, 'place': 30, 'trim': 3, 'own': 3}
TRIMMED = {'trim': 5, 'own': 6}


def relevant(prop, d, ev):
    """which differences between specification and implementation break which property"""
    ds, op = set(d['d']), d['op']
    if 'rejected' in ds:
        return True
    if prop == 'E01':
        return bool(ds & {'parents', 'links', 'alive'})
    if prop == 'E02':
        return bool(ds & {'owner', 'alive'})
    if prop == 'E03':
        return op in ('cull', 'write') or 'alive' in ds
    if prop == 'E05':
        return bool(ds & {'result', 'attr'}) or d['expr'] == 0
    if prop == 'T01':
        return 'curve' in ds
    if prop == 'E06':
        return 'curve' in ds or (op in ('app', 'set', 'del', 'free', 'cull') and bool(ds & {'links', 'result'}) and any(e.get('k') == 102 for e in ev.get('e', [])))
    return True


PLAN = {
    'E01': dict(fam=['chain', 'chain2', 'ext', 'solid', 'assy', 'assy2', 'attr', 'prop', 'trim'], prof=['any', 'trim', 'solid', 'assy', 'chain']),
    'E02': dict(fam=['own', 'own2', 'assy2', 'trim'], prof=['own', 'own', 'own', 'assy', 'any']),
    'E03': dict(fam=['chain', 'trim', 'ext', 'assy', 'assy2', 'attr', 'prop', 'solid'], prof=['cull', 'cull', 'cull', 'cull', 'assy']),
    'E05': dict(fam=['chain2', 'ext', 'solid', 'assy', 'attr', 'prop', 'trim', 'own2', 'xform'], prof=['attr', 'attr', 'attr', 'any', 'solid']),
    'E06': dict(fam=['chain', 'chain2', 'place'], prof=['chain', 'chain', 'chain', 'place']),
    'T01': dict(fam=['xform', 'place'], prof=['place', 'place', 'place', 'place']),
}


def check(prop):
    C = vlib.Check(prop, 'model_checking')
    plan = PLAN[prop]
    T = C.thorough
    with vlib.Scratch(prop) as wd:
        binp = vlib.build('drv_core')
        # 1. the specification: every invariant in every reachable state of the bounded populations,
        #    and every explored transition as a replay script
        limit = None if T else 700 + 4200 // len(plan['fam'])

        def fam(f):
            sub = '%s/f_%s' % (wd, f)
            os.makedirs(sub, exist_ok=True)
            rng = random.Random('%s-%s-%d' % (prop, f, C.seed))
            return f, transitions(f, DEEP[f] if not T or f not in TRIMMED else TRIMMED[f] - 1, sub, rng, limit if f not in TRIMMED else (limit or 60000))
        with ThreadPoolExecutor(4) as ex:
            fams = list(ex.map(fam, plan['fam']))
        scripts = []
        ntr = 0
        model = {}
        for f, (res, n, total, r) in fams:
            scripts += res
            ntr += n
            model[f] = dict(states=r['distinct'], transitions=r['states'], replayed=n)
            C.cov['states'] += r['distinct']
            C.cov['transitions'] += r['states']
        nx = len(scripts)
        # 2. long random behaviours of the specification over all kinds
        num = 1500 if T else 150
        sc = generate([(p, 12 + (i % 3), 2, 40 if not T else 60, num, C.seed * 1000 + i) for i, p in enumerate(plan['prof'])], wd)
        scripts += [(ne, nm, s, 0) for ne, nm, s in sc]
        C.cov['random_behaviours'] = len(sc)
        C.cov['model'] = model
        C.cov['replayed_transitions'] = ntr
        batch = 25000
        kinds = {}
        rej = 0
        for b in range(0, len(scripts), batch):
            part = scripts[b:b + batch]
            tr, cr = vlib.run_scripts(binp, [lines(s[2]) for s in part], lambda i: '%d %d %d' % (part[i][1], part[i][0], part[i][3]), wd)
            traces = {i: (part[i][1], part[i][0], tr[i]) for i in tr if tr[i] is not None}
            # binding self-test: corrupted copies of recorded traces must be rejected
            bad = corrupt(traces, C.rng)
            traces.update(bad)
            diffs, nev, nst = validate(traces, wd, timeout=850)
            hit = {d['t'] for d in diffs}
            if any(t not in hit for t in bad):
                vlib.SOFT.append('a corrupted trace was accepted')
            rej += len(bad)
            C.cov['trace_events'] = C.cov.get('trace_events', 0) + nev
            C.cov['traces_validated_against_impl'] += len(traces) - len(bad)
            for i in tr:
                for e in tr[i] or []:
                    k = e['op'] + ('+' if e['r'] else '-')
                    kinds[k] = kinds.get(k, 0) + 1
            for i, note in sorted(cr.items()):
                C.violation('crash: ' + note, {'script': lines(part[i][2]), 'header': part[i][:2], 'after': len(tr[i] or [])})
            todo = [d for d in diffs if d['t'] not in bad]
            todo = [d for d in todo if relevant(prop, d, tr[d['t']][d['i'] - 1])]
            for d in todo[:12]:
                ne, nm, s, frm = part[d['t']]
                s = s[:d['i']]
                l1, c1 = vlib.run_scripts(binp, [lines(s)], '%d %d %d' % (nm, ne, 0), wd)
                d1, _, _ = validate({0: (nm, ne, l1[0])}, wd, nchunk=1)
                if d1 or c1:
                    x = d1[0] if d1 else d
                    C.violation('%s %s: %s differs from the specification' % (x['op'], x['a'], ','.join(x['d'])),
                                {'script': lines(s), 'models': nm, 'ids': ne, 'difference': x, 'observed': l1[0][x['i'] - 1] if len(l1[0]) >= x['i'] else None, 'crash': c1})
        C.cov['operations_by_result'] = kinds
        C.cov['corrupted_traces_rejected'] = rej
        C.cov['samples'] = [lines(s[2]) for s in C.rng.sample(scripts[:nx], 2) + C.rng.sample(scripts[nx:], 2)]
        C.cov['exhaustive'] = bool(T)
        C.assumptions = ['the driver reads back references, owner list and start section through the LIBIGES_VERIF_HOOKS accessors',
                         'populations of the exhaustive part: see spec/EntityMC.tla (Pop); random behaviours: up to 14 entities, 2 models']
    C.finish()


def corrupt(traces, rng, n=4):
    """copies of recorded traces with one observed field changed"""
    out = {}
    ids = [t for t in sorted(traces) if traces[t][2] and 'e' in traces[t][2][-1]]
    rng.shuffle(ids)
    for t in ids:
        if len(out) >= n:
            break
        nm, ne, evs = traces[t]
        ev = json.loads(json.dumps(evs[-1]))
        live = [e for e in ev['e'] if e['k']]
        if not live:
            continue
        e = rng.choice(live)
        how = len(out) % 4
        if how == 0:
            e['r'] = e['r'][1:] if e['r'] else [1]
        elif how == 1:
            e['o'] = 2 if e['o'] != 2 else 1
        elif how == 2:
            ev['r'] = 1 - ev['r'] if ev['op'] != 'write' else ev['r']
            e['k'] = 999
        else:
            e['a'][5] += 1
            e['s'][0] = e['s'][0] + 1
        nt = 10**7 + t
        out[nt] = (nm, ne, [dict(x, t=nt) for x in evs[:-1] + [ev]])
    return out
