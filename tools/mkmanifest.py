import json, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = {
 'idf': ('TLA+ specification of the owner rules of the IDF layer as a state machine over outlines, holes and components (IdfOwner, whose transitions are checked by TLC against the action property Protected); random behaviours generated from it by TLC (IdfOwnerGen) are executed through the public IDF classes (ASan) by an electrical and a mechanical CAD and TLC validates the recorded traces against IdfOwnerTrace. Files: TLA+ grammar of IDF 3 board and library files (IdfFile: one transition per line, deciding acceptance and the board described, and what a written file must describe); generated legal, damaged and edited boards are read, edited and written by the library, and every line of every file read or written and the complete public state after every call are validated by TLC against IdfTrace',
         'sampled behaviours over up to 8 outlines of every kind, 5 components and any number of holes; sampled files with every section kind, single edits of them, both units; the binding compares every property, loop, hole, component and result after every call'),
 'geom': ('TLA+ specification of exact planar geometry (Geom: common points of lines, arcs and circles, regions of closed chains decided in integer arithmetic, including irrational points) and of the outline state machine (GeomState); behaviours generated by TLC (GeomGen) are executed by the library (ASan) and TLC validates the recorded traces against GeomTrace',
          'segments with end points and centres on a 9 x 9 integer grid (several scales and offsets), sampled in every relative position, with both argument orders; results decided exactly'),
 'api': ('TLA+ specification of the handles of the API layer (Handles, over the EntityGraph state machine): random behaviours generated from the specification by TLC are executed through the library\'s handle classes (ASan) and TLC validates the recorded traces, the validity, binding and model of every handle, the object graph and every value read through a handle against the object itself',
          'sampled behaviours (two profiles of entity handles, one of model handles, one of segment, outline and PCB handles); every call through an invalid handle of every class is enumerated'),
 'graph': ('TLA+ specification EntityGraph checked with TLC (all invariants over the full reachable state graph of bounded entity populations); every explored transition and long random behaviours of the specification are replayed into the library (ASan) and the recorded traces validated by TLC against EntityTrace',
           'exhaustive over the listed small populations, sampled beyond them; the binding compares the complete observable graph after every call'),
 'files': ('TLA+ file format specification (IgesFile: an independent decoder of IGES records, free format, Globals and entities) with the EntityGraph specification; behaviours of the specification, decorated with values, are executed by the library (ASan) and the recorded traces with the bytes of every file validated by TLC against IgesTrace; damaged and re-laid-out files are classified by the same specification',
           'inputs are generated from the specification and sampled (text lengths, delimiters and list lengths enumerated); TLC decides every trace against the complete observable state and the exact bytes written'),
 'solid': ('TLA+ specification of the boundary representation of extruded outlines (Shell: trimmed planes and walls, exact correspondence of model space and parameter space loops, every edge met by exactly two faces) composed with the outline state machine and, for conversions, with the TLA+ grammar of IDF files (IdfFile decides the board a file states, ConvTrace the solids that follow from it); boards generated by TLC (SolidGen, ConvGen) are built by the library or converted by the code of idf2igs (ASan), written, read back, and TLC validates the surfaces found in the model against the specification (SolidTrace, ConvTrace)',
           'sampled boards on a grid, outlines with arcs up to 270 degrees and full circles, non-overlapping cutouts and holes, rotations in steps of 15 degrees; surfaces compared at start, middle and end of every piece with a tolerance of a few thousandths'),
}
CHECKS = {'E01': 'graph', 'E02': 'graph', 'E03': 'graph', 'E05': 'graph', 'E06': 'graph', 'T01': 'graph', **{'F0%d' % i: 'files' for i in range(1, 6)}, 'U01': 'files', 'X01': 'files', 'E04': 'api', 'E07': 'api', 'G01': 'geom', 'G02': 'geom', 'G03': 'geom', 'G04': 'geom', 'I01': 'idf', 'I02': 'idf', 'I03': 'idf', 'G05': 'solid', 'I04': 'solid'}
NA = {}
exec(open(V + '/tools/manifest_extra.py').read()) if os.path.exists(V + '/tools/manifest_extra.py') else None
m = {'version': 1, 'setup_cmd': 'true',
     'hooks': {'guard': 'LIBIGES_VERIF_HOOKS', 'enable': 'tools/vlib.py compiles the sources of /repo with -DLIBIGES_VERIF_HOOKS', 'source_commits': HOOKS if 'HOOKS' in globals() else ['f99c3b9']},
     'checks': [], 'not_applicable': []}
m['hooks']['source_commits'] = [subprocess.run(['git', '-C', '/repo', 'rev-parse', c], capture_output=True, text=True).stdout.strip() for c in m['hooks']['source_commits']]
for p in props:
    i = p['id']
    if i in CHECKS:
        t, n = TECH[CHECKS[i]]
        m['checks'].append(dict(property=i, quick_cmd='python3 checks/run.py %s quick' % i, thorough_cmd='python3 checks/run.py %s thorough' % i,
                                technique=t, level='model_checking', level_note=n, evidence_file='evidence/%s.json' % i))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'specification and binding not built yet; not claimed')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
