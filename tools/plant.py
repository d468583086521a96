"""Plant a bug: build /verif/seeded/<id>/ from a description, and confirm it.

    plant(id, property, [(file, old, new), ...], needs, breaks, demo)

In a scratch copy of /repo: applies the edits, checks that every changed line
is a line of the original repository, that the modules import, that the stable
tests still pass, and that the demonstration exits 0 without and non-zero with
the change.  Then runs the property's quick check on the changed copy.

Not used by any registered check.
"""
import json
import os
import shutil
import subprocess
import sys

REPO = '/repo'
SEEDED = '/verif/seeded'
PY = '/opt/venv/bin/python'
BASE = '9762f65'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')

DEMO_SH = '''#!/bin/bash
# cwd: the repository
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg
D=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$PWD" exec timeout 250 /opt/venv/bin/python "$D/demo.py"
'''


def sh(args, cwd, **kw):
    return subprocess.run(args, cwd=cwd, env=kw.pop('env', ENV),
                          capture_output=True, text=True, **kw)


def original_lines(path):
    """Line numbers (1-based) of path at HEAD that belong to the base."""
    out = sh(['git', 'blame', '-s', path], REPO).stdout.splitlines()
    return {i for i, s in enumerate(out, 1) if s.startswith('^' + BASE[:6])}


def plant(pid, prop, edits, needs, breaks, demo, check=True, seed=1):
    scratch = f'/tmp/plant/{pid}'
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    shutil.copytree(REPO, scratch, symlinks=True)
    msgs = []
    try:
        for path, old, new in edits:
            full = os.path.join(scratch, path)
            text = open(full, encoding='utf-8').read()
            if text.count(old) != 1:
                return print(pid, 'FAIL edit matches', text.count(old), path)
            open(full, 'w', encoding='utf-8').write(text.replace(old, new))
        diff = sh(['git', 'diff'], scratch).stdout
        # which HEAD lines are touched
        touched, added_only = {}, False
        path = None
        for line in sh(['git', 'diff', '-U0'], scratch).stdout.splitlines():
            if line.startswith('--- a/'):
                path = line[6:]
            elif line.startswith('@@'):
                a = line.split()[1][1:]
                start, cnt = (a.split(',') + ['1'])[:2]
                touched.setdefault(path, set()).update(
                    range(int(start), int(start) + int(cnt)))
        for path, lines in touched.items():
            bad = lines - original_lines(path)
            if bad:
                msgs.append(f'NOT ORIGINAL {path}:{sorted(bad)}')
        if not any(touched.values()):
            msgs.append('only additions')
        for path in touched:
            r = sh([PY, '-c', 'import ast,sys;ast.parse(open(sys.argv[1]).read())', path], scratch)
            if r.returncode:
                msgs.append('SYNTAX')
        r = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                '--continue-on-collection-errors', 'tests'],
               scratch)
        tail = r.stdout.strip().splitlines()[-1]
        if '9 passed' not in tail:
            msgs.append('TESTS ' + tail)
        d = f'{SEEDED}/{pid}'
        os.makedirs(d, exist_ok=True)
        open(f'{d}/demo.py', 'w').write(demo.lstrip('\n'))
        open(f'{d}/demo.sh', 'w').write(DEMO_SH)
        os.chmod(f'{d}/demo.sh', 0o755)
        open(f'{d}/patch.diff', 'w').write(diff)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  open(f'{d}/meta.json', 'w'), indent=1, ensure_ascii=False)
        clean = sh(['bash', f'{d}/demo.sh'], REPO)
        if clean.returncode:
            msgs.append('DEMO FAILS CLEAN: ' + (clean.stdout + clean.stderr)[-600:])
        dirty = sh(['bash', f'{d}/demo.sh'], scratch)
        if dirty.returncode == 0:
            msgs.append('DEMO PASSES PATCHED')
        elif 'AssertionError' not in dirty.stderr:
            msgs.append('demo fails oddly: ' + dirty.stderr[-300:])
        r = sh(['git', 'apply', '--check', f'{d}/patch.diff'], REPO)
        if r.returncode:
            msgs.append('APPLY ' + r.stderr)
        caught = '?'
        if check:
            r = sh([PY, 'run.py', 'check', prop, '--tier', 'quick', '--seed',
                    str(seed)], '/verif',
                   env=dict(ENV, VERIF_REPO=scratch, VERIF_SEED=str(seed)))
            caught = {0: 'MISSED', 1: 'caught'}.get(r.returncode,
                                                    f'rc={r.returncode}')
            if caught == 'caught' and f'VIOLATION property={prop}' not in r.stdout:
                caught = 'rc1 without line'
            last = [s for s in r.stdout.splitlines() if 'VIOLATION' in s][:1]
        print(pid, prop, caught, msgs or 'ok', last if check else '')
        sys.stdout.flush()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
