#!/opt/venv/bin/python
"""run.py check C01 [--tier quick|thorough] [--seed N] [--part P] [--scale X]
run.py replay FILE
run.py all [...]"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from harness import env  # noqa: E402,F401
from harness import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest='cmd', required=True)
    for name in ('check', 'all'):
        p = sub.add_parser(name)
        if name == 'check':
            p.add_argument('property')
        p.add_argument('--tier',
                       default=os.environ.get('VERIF_TIER', 'quick'))
        p.add_argument('--seed', type=int,
                       default=int(os.environ.get('VERIF_SEED', '1')))
        p.add_argument('--part')
        p.add_argument('--scale', type=float, default=1.0)
    p = sub.add_parser('replay')
    p.add_argument('file')
    a = ap.parse_args()
    if a.cmd == 'replay':
        return core.replay(os.path.abspath(a.file))
    if a.cmd == 'check':
        return core.run_property(a.property, a.tier, a.seed, a.part, a.scale)
    worst = 0
    import subprocess
    here = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(os.path.join(here, 'props'))):
        if f[0] == 'c' and f.endswith('.py') and f[1:-3].isdigit():
            r = subprocess.run([sys.executable, __file__, 'check',
                                f[:-3].upper(), '--tier', a.tier, '--seed',
                                str(a.seed), '--scale', str(a.scale)])
            if r.returncode:
                print(f'{f}: exit {r.returncode}', flush=True)
            worst = max(worst, r.returncode)
    return worst


if __name__ == '__main__':
    try:
        code = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
