#!/usr/bin/env python3
"""Runs quick checks against planted bugs.  run_seeded.py [-p PROPS] [ID...]

Applies each /verif/seeded/ID to a scratch clone of /repo and runs the check of
its property (or of PROPS, comma separated) from $CHECKS (default: /verif)."""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = os.environ.get('CHECKS', VERIF)
args = sys.argv[1:]
props = None
if args[:1] == ['-p']:
    props, args = args[1].split(','), args[2:]
for bid in args or sorted(os.listdir(VERIF + '/seeded')):
    sd = f'{VERIF}/seeded/{bid}'
    d = tempfile.mkdtemp(prefix='seeded_')
    try:
        subprocess.run(['git', 'clone', '-q', '--shared', '/repo', d], check=True)
        if subprocess.run(['git', '-C', d, 'apply', sd + '/patch.diff']).returncode:
            print(bid, 'DOES NOT APPLY', flush=True)
            continue
        for prop in props or [json.load(open(sd + '/meta.json'))['property']]:
            r = subprocess.run([CHECKS + '/check', prop, 'quick'], cwd=CHECKS, env=dict(os.environ, VERIF_REPO=d),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            v = [l for l in r.stdout.decode(errors='replace').splitlines() if l.startswith('VIOLATION')]
            ok = r.returncode == 1 and any(f'property={prop} ' in l for l in v)
            print(bid, prop, 'CAUGHT' if ok else f'MISSED rc={r.returncode}', flush=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)
