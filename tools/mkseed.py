#!/usr/bin/env python3
"""Turn a seed spec into /verif/seeded/<id>/ after confirming it in scratch copies.

usage: mkseed.py SPEC.py [--no-tests] [--tier quick]
SPEC.py defines PROP, NEEDS, BREAKS, EDITS=[(file, old, new)...], DEMO (python text; compat is imported first).
The id is the stem of the spec's name.  Everything patched runs in a private mount of a
copy of /repo (unshare -Urm), never in /repo itself.
"""
import sys, os, subprocess, json, shutil, tempfile, re, time
BASE = 'a8b661e'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
PYTHONPATH="$D:$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg exec /opt/venv/bin/python "$D/demo.py"
'''
def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)

def main(path, tests=True, check=True):
    sid = os.path.splitext(os.path.basename(path))[0]
    ns = {}
    exec(open(path).read(), ns)
    work = tempfile.mkdtemp(prefix='seed_', dir='/tmp/w')
    rep = {}
    try:
        copy = os.path.join(work, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', copy])
        sh('git checkout -- .', cwd=copy)
        for f, old, new in ns['EDITS']:
            p = os.path.join(copy, f)
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        patch = sh('git diff', cwd=copy).stdout
        assert patch.strip()
        # touched lines must be original
        orig = 0
        for f in sorted({e[0] for e in ns['EDITS']}):
            blame = sh('git blame -s HEAD -- %s' % f, cwd=copy).stdout.splitlines()
            d = sh('git diff -U0 -- %s' % f, cwd=copy).stdout
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))?', d, re.M):
                a, n = int(m.group(1)), int(m.group(2) or 1)
                for k in range(a, a + n):
                    if blame[k - 1].startswith('^'):
                        orig += 1
                    else:
                        print('  note: line %s:%d is from a fix commit' % (f, k))
        rep['orig_lines'] = orig
        out = os.path.join(work, sid)
        os.mkdir(out)
        open(out + '/patch.diff', 'w').write(patch)
        open(out + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write('import compat\n' + ns['DEMO'].lstrip('\n'))
        shutil.copy(VERIF + '/vlib/compat.py', out + '/compat.py')
        json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']},
                  open(out + '/meta.json', 'w'), indent=1)
        r = sh('bash %s/demo.sh' % out, cwd='/repo')
        rep['demo_clean'] = r.returncode
        if r.returncode: print(r.stdout[-1500:])
        priv = "unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'"
        r = sh(priv % (copy, 'bash %s/demo.sh' % out))
        rep['demo_patched'] = r.returncode
        print('  demo patched says:', r.stdout.strip().splitlines()[-1:] )
        if check:
            t = time.time()
            r = sh(priv % (copy, 'cd /verif && VERIF_EVIDENCE=%s VERIF_SEED=1 ./check %s quick' % (work, ns['PROP'])))
            rep['check'] = r.returncode
            rep['check_s'] = round(time.time() - t)
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            rep['viol'] = len(v)
            d = [l for l in r.stdout.splitlines() if not l.startswith('VIOLATION')]
            print('  check:', (v[:1] or [''])[0][:200], '|', '\n'.join(d[-3:])[:400])
        if tests and rep['demo_clean'] == 0 and rep['demo_patched'] != 0:
            o = work + '/t.json'
            sh(priv % (copy, 'bash /opt/vp/test.sh %s' % o))
            b = json.load(open('/opt/vp/BASELINE.json'))
            res = json.load(open(o))
            miss = sorted(set(b['stable']) - set(res['passed']))
            rep['tests_missing'] = miss
        ok = rep['demo_clean'] == 0 and rep['demo_patched'] != 0 and orig > 0 and rep.get('tests_missing') == []
        rep['ok'] = ok
        if ok:
            dst = VERIF + '/seeded/' + sid
            if os.path.isdir(dst): shutil.rmtree(dst)
            shutil.copytree(out, dst)
        print('SEED', sid, ns['PROP'], json.dumps(rep), flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)

if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    for p in a:
        try:
            main(p, tests='--no-tests' not in sys.argv, check='--no-check' not in sys.argv)
        except Exception as e:
            import traceback; traceback.print_exc()
            print('SEED', p, 'FAILED', e, flush=True)
