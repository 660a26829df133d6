"""usage: note.py ID TECHNIQUE-KEY NOTE  (adds the level note of a check and regenerates the manifest)"""
import json, subprocess, sys
T = {'seq': "bounded exhaustive exploration of operation sequences on the real code against a reference model (stateless model checking)",
     'enum': "bounded exhaustive enumeration of configurations and executions of the real code against an independent reference (explicit-state model checking of the reference with replay on the implementation)",
     'diff': "bounded exhaustive exploration of call histories on the real code, compared with a reference execution of the same history (stateless model checking)",
     'sched': "exhaustive exploration of completion orders / interleavings on the real code (stateless model checking)"}
i, k, n = sys.argv[1:4]
p = 'tools/level_notes.json'
d = json.load(open(p))
d[i] = dict(technique=T[k], note=n)
json.dump(d, open(p, 'w'), indent=1)
for s in ('write_properties', 'write_manifest'):
    subprocess.check_call([sys.executable, 'tools/%s.py' % s])
