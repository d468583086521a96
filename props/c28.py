"""The command line finds the models."""
import importlib
import os
import shutil
import sys
import tempfile

from click.testing import CliRunner
from hypothesis import strategies as st

import pysim.main
import pysim.models
from harness.core import Part, Property, eq, req

OWN = ['pingpong', 'rfid', 'tag_time']
GOOD = {
    'command': '''
import click

@click.command()
@click.option('-k', '--knob', default=3)
def cli_run(knob):
    print('NAME got', knob)
''',
    'group': '''
import click

@click.group()
def cli_run():
    print('NAME group')

@cli_run.command('go')
@click.argument('x', type=int)
def go(x):
    print('NAME got', x)
''',
    'bare decorator': '''
import click
from . import part

@click.command
@click.option('-k', '--knob', type=int)
def cli_run(knob):
    print('NAME got', part.value(knob))
''',
}
BAD = {
    'no cli_run': 'import click\n\n@click.command()\ndef run():\n    pass\n',
    'not a command': 'def cli_run():\n    print("no")\n',
    'none': 'cli_run = None\n',
    'no cli': None,
    'plain module': None,
    'missing import': 'import no_such_module_anywhere\n',
}


@st.composite
def strategy(draw):
    names = draw(st.lists(st.from_regex(r'\A[a-z][a-z0-9_]{1,9}\Z'),
                          min_size=1, max_size=6, unique=True))
    kinds = st.sampled_from(sorted(GOOD) + sorted(BAD))
    return [{'name': 'zz' + n if draw(st.booleans()) else 'aa' + n,
             'kind': draw(kinds), 'value': draw(st.integers(-5, 99))}
            for n in names]


def write(root, m):
    if m['kind'] == 'plain module':
        with open(os.path.join(root, m['name'] + '.py'), 'w') as f:
            f.write(GOOD['command'].replace('NAME', m['name']))
        return
    d = os.path.join(root, m['name'])
    os.mkdir(d)
    open(os.path.join(d, '__init__.py'), 'w').close()
    text = GOOD.get(m['kind'], BAD.get(m['kind']))
    if text is not None:
        with open(os.path.join(d, 'cli.py'), 'w') as f:
            f.write(text.replace('NAME', m['name']))
    if m['kind'] == 'bare decorator':
        with open(os.path.join(d, 'part.py'), 'w') as f:
            f.write('def value(x):\n    return x\n')


def invoke(*args):
    return CliRunner().invoke(pysim.main.cli, list(args))


def body(models, ctx):
    names = [m['name'] for m in models]
    if len(set(names)) < len(names):
        return
    root = tempfile.mkdtemp(dir=os.getcwd())
    importlib.invalidate_caches()
    pysim.models.__path__.append(root)
    try:
        for m in models:
            write(root, m)
        importlib.invalidate_caches()
        importlib.reload(pysim.main)
        good = [m for m in models if m['kind'] in GOOD]
        res = invoke('list')
        eq(res.exit_code, 0, 'exit code of list')
        got = [x[2:] for x in res.output.splitlines()
               if x.startswith('* ')]
        eq(sorted(got), sorted(OWN + [m['name'] for m in good]),
           f'models listed among {[(m["name"], m["kind"]) for m in models]}')
        eq([x for x in invoke('run', '--help').output.split()
            if x in names + OWN],
           sorted(OWN + [m['name'] for m in good]), 'models to run')
        for m in models:
            v = m['value']
            args = {'group': ['go', '--', str(v)]}.get(
                m['kind'], ['-k', str(v)])
            res = invoke('run', m['name'], *args)
            if m['kind'] in GOOD:
                eq(res.exit_code, 0, f'exit code of {m}')
                lines = res.output.split('\n')
                req(f'{m["name"]} got {v}' in lines, 'output of %r: %r', m,
                    res.output)
            else:
                req(res.exit_code != 0, 'a malformed model was run: %r', m)
        req(invoke('run', 'no' + names[0]).exit_code != 0,
            'a model that does not exist was run')
        eq(invoke('run', 'pingpong', '--help').exit_code, 0,
           'help of a model')
    finally:
        pysim.models.__path__.remove(root)
        for name in [x for x in sys.modules
                     if any(x == f'pysim.models.{n}' or
                            x.startswith(f'pysim.models.{n}.')
                            for n in names)]:
            del sys.modules[name]
        for n in names:
            vars(pysim.models).pop(n, None)
        shutil.rmtree(root)
        importlib.reload(pysim.main)
    ctx.nt(0 < len(good) < len(models))
    ctx.label(*{m['kind'] for m in models})


def pairs():
    return st.fixed_dictionaries({
        'pings': st.integers(1, 40), 'loss': st.sampled_from([0.0, .3]),
        'scenario': st.integers(1, 3), 'packets': st.integers(1, 20)})


def own_body(c, ctx):
    """The models that come with the package run from the root command."""
    res = invoke('run', 'pingpong', '-mp', str(c['pings']), '-l',
                 str(c['loss']))
    eq((res.exit_code, 'Running PingPongOOP model' in res.output),
       (0, True), f'ping-pong: {res.output!r}')
    res = invoke('run', 'tag_time', '-s', str(c['scenario']), '-m',
                 str(c['packets']), '-cn', '2')
    eq((res.exit_code, f'Scenario number {c["scenario"]}' in res.output),
       (0, True), f'tag time: {res.output!r}')
    res = invoke('run', 'rfid', '-s', '200', '-ws', '1', '-n', '1')
    eq((res.exit_code, 'Running RFID model' in res.output), (0, True),
       f'RFID: {res.output!r}')
    ctx.nt(c['loss'] > 0)


PROPERTY = Property(
    'C28',
    'Generated packages next to the models of the simulator: right ones '
    '(command, group, command with helpers) and malformed ones (no cli.py, '
    'no cli_run, cli_run that is no command, a module, a failed import); '
    'list, help and run of each.  Non-trivial: right and malformed ones '
    'together; runs with losses.',
    [Part('discovery', strategy, body, 160, 3000, shards=4),
     Part('own', pairs, own_body, 40, 300, shards=2)],
    ['Generated packages are added to the path of the package of models, as '
     'if they were put into its directory.'])
