"""Make /verif/seeded/<id>/ from a spec and confirm it (usage: plant.py SPEC.py [--notest]).

SPEC.py defines BUGS = {id: dict(property, edits=[(file, old, new[, count])], demo, needs, breaks)}.
"""
import json, os, subprocess, sys, time
REPO = os.environ.get('PLANT_REPO', '/repo')  # PLANT_REPO: a scratch clone of /repo with its build products
PY = '/opt/venv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
if REPO != '/repo':
    ENV.update(PYTHONPATH=REPO, VERIF_REPO=REPO)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, env=ENV, **kw)


def clean():
    sh('git -C ' + REPO + ' checkout -- .')
    sh("find " + REPO + " -name __pycache__ -type d -prune -exec /bin/rm -r {} +")


def main(spec, notest, nocheck, only):
    ns = {}
    exec(open(spec).read(), ns)
    assert not sh('git -C ' + REPO + ' status --short').stdout.strip(), 'repo dirty'
    for bug, d in ns['BUGS'].items():
        if only and bug not in only:
            continue
        out = '/verif/seeded/' + bug
        os.makedirs(out, exist_ok=True)
        ok = True
        clean()
        try:
            for ed in d['edits']:
                fn = os.path.join(REPO, ed[0])
                s = open(fn).read()
                n = s.count(ed[1])
                if n != 1:
                    print(bug, 'EDIT matches', n, 'times:', ed[1][:60]); ok = False; break
                open(fn, 'w').write(s.replace(ed[1], ed[2]))
            if not ok:
                continue
            diff = sh('git -C ' + REPO + ' diff').stdout
            open(out + '/patch.diff', 'w').write(diff)
            open(out + '/demo.py', 'w').write(d['demo'])
            open(out + '/demo.sh', 'w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            os.chmod(out + '/demo.sh', 0o755)
            for fn, text in d.get('files', {}).items():
                open(out + '/' + fn, 'w').write(text)
            json.dump({'property': d['property'], 'needs': d['needs'], 'what_it_breaks': d['breaks']},
                      open(out + '/meta.json', 'w'), indent=1)
            # blame of removed lines
            clean()
            base = other = 0
            cur = None
            for line in diff.splitlines():
                if line.startswith('--- a/'):
                    cur = line[6:]
                elif line.startswith('@@'):
                    ln = int(line.split()[1].split(',')[0][1:])
                elif line.startswith('-') and not line.startswith('---'):
                    b = sh('git -C %s blame -s -L %d,%d -- %s' % (REPO, ln, ln, cur)).stdout
                    if b.startswith('^d3deb45'): base += 1
                    else: other += 1
                    ln += 1
                elif line.startswith(' '):
                    ln += 1
            r0 = sh('bash %s/demo.sh' % out, cwd=REPO)
            sh('git -C %s apply %s/patch.diff' % (REPO, out))
            t0 = time.time()
            r1 = sh('bash %s/demo.sh' % out, cwd=REPO, timeout=300)
            msg = '%s lines(base/own)=%d/%d demo %d->%d' % (bug, base, other, r0.returncode, r1.returncode)
            if r0.returncode: msg += '\n' + r0.stderr[-600:]
            if not nocheck:
                t0 = time.time()
                try:
                    r = sh('%s run.py %s --tier quick' % (PY, d['property']), cwd='/verif', timeout=900)
                    msg += ' check rc=%d %.0fs %s' % (r.returncode, time.time()-t0,
                         [l for l in r.stdout.splitlines() if 'VIOLATION' in l][:1])
                except subprocess.TimeoutExpired:
                    msg += ' check TIMEOUT'
            if not notest:
                sh('timeout 800 bash %s /tmp/plant_t.json > /tmp/plant_t.log 2>&1' % ('/opt/vp/test.sh' if REPO == '/repo' else '/tmp/ptest.sh'))
                t = open('/tmp/plant_t.log').read().splitlines()
                msg += ' tests: ' + t[-1] + str([l for l in t if l.startswith(('FAILED', 'ERROR'))][:3])
            print(msg, flush=True)
        finally:
            clean()


if __name__ == '__main__':
    a = sys.argv[1:]
    main(a[0], '--notest' in a, '--nocheck' in a, [x for x in a[1:] if not x.startswith('--')])
