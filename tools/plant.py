#!/usr/bin/env python3
"""Plants bugs.  plant.py DEFS.py [ID...]

DEFS.py defines BUGS, a list of dicts: id, prop, needs, breaks, edits (a list of
(file, old, new)), demo (the body of a Go test file, or a shell script if it
starts with #!).  For each bug this makes a scratch copy of /repo with the
change, and confirms that it only changes original lines, builds, passes the
stable tests, and that the demonstration fails with it and passes without it.
What is confirmed is stored in /verif/seeded/ID; then the property's quick
check is run against the scratch copy.
"""
import json, os, re, shutil, subprocess, sys, tempfile, runpy
from concurrent.futures import ThreadPoolExecutor

BASE = 'fbe54ba'
VERIF = '/verif'
CHECKS = os.environ.get('CHECKS', VERIF)  # where the checks are run from
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod',
           PATH='/opt/veriftools/go1.27.3/bin:' + os.environ['PATH'])
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO_SH = '''#!/bin/bash
# Run with cwd = the repository, after its build.
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
echo "{\\"Replace\\": {\\"$PWD/zz_demo_test.go\\": \\"$here/demo_test.go.txt\\"}}" > "$tmp/overlay.json"
go test -overlay "$tmp/overlay.json" -vet=off -count=1 -timeout 120s -run '^TestDemo$' .
'''


def run(cmd, cwd, timeout=900, env=ENV):
    try:
        r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return r.returncode, r.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode(errors='replace')


def stable_failures(d):
    rc, out = run(['go', 'test', '-json', '-vet=off', '-tags', 'extensive_tests', '-count=1', '-timeout', '10m', './...'], d)
    ok = set()
    for line in out.splitlines():
        try:
            e = json.loads(line)
        except ValueError:
            continue
        if e.get('Action') == 'pass' and e.get('Test'):
            for k in (e['Package'] + '/' + e['Test'], e['Package'] + '::' + e['Test'], e['Package'] + '.' + e['Test']):
                ok.add(k)
    return [s for s in STABLE if s not in ok]


def original_only(d, diff):
    """Every removed line must come from the original; a pure insertion must touch original lines."""
    bad = []
    f = None
    for line in diff.splitlines():
        if line.startswith('--- a/'):
            f = line[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', line)
        if m:
            a, n = int(m[1]), int(m[2] or 1)
            if n == 0:
                bad.append(f'{f}:{a} pure insertion')
                continue
            rc, out = run(['git', 'blame', '-l', '-s', '-L', f'{a},+{n}', 'HEAD', '--', f], d)
            for l in out.splitlines():
                h = l.split()[0]
                anc = subprocess.run(['git', '-C', '/repo', 'merge-base', '--is-ancestor', h.lstrip('^')[:39], BASE]).returncode
                if anc:
                    bad.append(f'{f}:{a} {l[:90]}')
    return bad


def plant(b, tests_lock):
    bid = b['id']
    d = tempfile.mkdtemp(prefix='plant_' + bid + '_')
    dd = tempfile.mkdtemp(prefix='demo_' + bid + '_')
    log = []
    try:
        shutil.rmtree(d)
        subprocess.run(['git', 'clone', '-q', '--shared', '/repo', d], check=True)
        for f, old, new in b['edits']:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(old) != 1:
                return bid, f'pattern occurs {s.count(old)} times: {old[:60]!r}', ''
            open(p, 'w').write(s.replace(old, new))
        rc, out = run(['go', 'build', './...'], d)
        if rc:
            return bid, 'does not build', out
        rc, diff = run(['git', 'diff'], d)
        rc, diff0 = run(['git', 'diff', '-U0'], d)
        bad = original_only(d, diff0)
        if bad and not any('pure' not in x for x in bad) and diff0.count('@@ -') > len(bad):
            bad = []
        if bad:
            return bid, 'not original lines', '\n'.join(bad)
        if b['demo'].startswith('#!'):
            open(dd + '/demo.sh', 'w').write(b['demo'])
        else:
            open(dd + '/demo.sh', 'w').write(DEMO_SH)
            open(dd + '/demo_test.go.txt', 'w').write(b['demo'])
        rc, out = run(['bash', dd + '/demo.sh'], '/repo', 300)
        if rc:
            return bid, 'demo fails on the clean tree', out[-3000:]
        rc, out = run(['bash', dd + '/demo.sh'], d, 300)
        if rc == 0:
            return bid, 'demo passes with the bug', ''
        if 'build failed' in out or 'setup failed' in out:
            return bid, 'demo does not build with the bug', out[-2000:]
        if not b.get('skip_tests'):
            with tests_lock:
                bad = stable_failures(d)
            if bad:
                return bid, 'tests catch it', '\n'.join(bad[:10])
        sd = f'{VERIF}/seeded/{bid}'
        os.makedirs(sd, exist_ok=True)
        open(sd + '/patch.diff', 'w').write(diff)
        for f in os.listdir(dd):
            shutil.copy(dd + '/' + f, sd + '/' + f)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(sd + '/meta.json', 'w'), indent=1)
        return bid, 'kept', d
    finally:
        shutil.rmtree(dd, ignore_errors=True)
        if not os.path.exists(f'{VERIF}/seeded/{bid}/patch.diff'):
            shutil.rmtree(d, ignore_errors=True)


def main():
    import threading
    defs = runpy.run_path(sys.argv[1])['BUGS']
    ids = sys.argv[2:]
    todo = [b for b in defs if not ids or b['id'] in ids]
    for b in todo:
        shutil.rmtree(f'{VERIF}/seeded/{b["id"]}', ignore_errors=True)
    lock = threading.Semaphore(3)
    kept = {}
    with ThreadPoolExecutor(4) as ex:
        for bid, res, out in ex.map(lambda b: plant(b, lock), todo):
            print(f'{bid}: {res}' + ('' if res == 'kept' else '\n' + out), flush=True)
            if res == 'kept':
                kept[bid] = out
    for b in todo:
        d = kept.get(b['id'])
        if not d:
            continue
        for prop in [b['prop']] + b.get('also', []):
            rc, out = run([CHECKS + '/check', prop, 'quick'], CHECKS, 1200, dict(ENV, VERIF_REPO=d))
            v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
            print(f'{b["id"]} {prop}: {"CAUGHT" if rc == 1 and v else "MISSED rc=%d" % rc} {v[:1]}', flush=True)
        shutil.rmtree(d, ignore_errors=True)


main()
