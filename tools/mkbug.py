"""mkbug.py NAME: makes seeded/NAME/ from tools' bug table module (path in argv[1]); used while planting bugs."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '1771c65'
DEMO = '''#!/bin/bash
exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''
HEAD = '''import os
import sys
sys.path.insert(0, os.getcwd())
import warnings
warnings.simplefilter('ignore')
import matplotlib
matplotlib.use('Agg')
'''


def sh(cmd, cwd=None, timeout=300):
    try:
        return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 124, '', 'timeout')


def main():
    spec = importlib.util.spec_from_file_location('bugs', sys.argv[1])
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    for name, b in mod.BUGS.items():
        if len(sys.argv) > 2 and name not in sys.argv[2:]:
            continue
        d = '/tmp/x/bug-%s' % name
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree('/repo', d, symlinks=True)
        ok = True
        for f, old, new in b['edits']:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(name, 'EDIT does not match', f, s.count(old), repr(old[:60]))
                ok = False
                break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            shutil.rmtree(d)
            continue
        diff = sh('git diff', d).stdout
        # removed lines have to be original ones
        cur, mine = None, []
        for line in diff.splitlines():
            if line.startswith('--- a/'):
                cur = line[6:]
                base = sh('git show %s:%s' % (BASE, cur), d).stdout.splitlines()
            elif line.startswith('-') and not line.startswith('---'):
                if line[1:] not in base and line[1:].strip():
                    mine.append(line[1:])
        t = sh('bash /tmp/x/test.sh %s' % d)
        tests = t.stdout.strip().splitlines()[-1:] or [t.stderr[-200:]]
        out = os.path.join(V, 'seeded', name)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(os.path.join(out, 'patch.diff'), 'w').write(diff)
        open(os.path.join(out, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(out, 'demo.sh'), 0o755)
        open(os.path.join(out, 'demo.py'), 'w').write(HEAD + b['demo'].lstrip('\n'))
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(os.path.join(out, 'meta.json'), 'w'), indent=1)
        good = sh('bash %s/demo.sh' % out, '/repo')
        bad = sh('bash %s/demo.sh' % out, d)
        r = sh('VERIF_REPO=%s ./check.py %s' % (d, b['property']), V, 900)
        viol = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        first = [l for l in r.stdout.splitlines() if l.startswith('  ') and 'not judged' not in l][:1]
        print('%s [%s] tests: %s demo: %d/%d own-lines: %s check: exit %d %d violations %s' % (
            name, b['property'], tests[0], good.returncode, bad.returncode, mine or 'no', r.returncode, len(viol), first))
        if good.returncode or not bad.returncode:
            print('   demo:', good.stdout[-300:], good.stderr[-300:], '|', bad.stdout[-200:], bad.stderr[-200:])
        sys.stdout.flush()
        shutil.rmtree(d)


main()
