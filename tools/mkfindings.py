import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [l.rstrip('\n').split('|') for l in open(V + '/tools/fixes.txt') if l.strip()]
log = dict(l.split(' ', 1)[::-1] for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines())
doc = json.load(open(V + '/known_findings.json')) if os.path.exists(V + '/known_findings.json') else {'findings': []}
doc['findings'] = [f for f in doc['findings'] if f.get('status') == 'open']
doc['fixed'] = []
for prop, h, what in F:
    subj = subprocess.run(['git', '-C', '/repo', 'log', '-1', '--format=%h', h], capture_output=True, text=True).stdout.strip()
    assert subj, h
    doc['fixed'].append('fixed: property=%s %s %s' % (prop, subj, what))
json.dump(doc, open(V + '/known_findings.json', 'w'), indent=1)
