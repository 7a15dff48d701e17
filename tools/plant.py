"""Plants bugs in scratch copies: python3 tools/plant.py SPEC.py [id...]

SPEC.py defines BUGS, a list of dicts: id, property, edits [(file, old, new)],
demo (python source, run with cwd = the repository), needs, what_it_breaks.
For each one: a copy of /repo is edited, its stable tests and the demonstration
are run with and without the change, seeded/<id>/ is written when both agree,
and the property's quick check is run against the copy with a few seeds.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1')
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds here; nonzero: it is broken
export PYTHONDONTWRITEBYTECODE=1
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
PYTHONPATH="$PWD" exec "$py" "$(dirname "$0")/demo.py"
'''


def tests(copy):
    xml = os.path.join(copy, 'junit-out.xml')
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--rootdir=' + copy,
                    '-W', 'error', '-o', 'junit_family=xunit2', '--junitxml=' + xml, 'tests'], cwd=copy, env=ENV,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out = os.path.join(copy, 'junit-out.json')
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', out, 'junit:' + xml], stdout=subprocess.DEVNULL)
    res = json.load(open(out))
    base = json.load(open('/opt/vp/BASELINE.json'))

    def names(d):
        for k in ('stable', 'passed', 'pass', 'tests'):
            if k in d:
                return set(d[k])
        return set()
    return sorted(names(base) - names(res))


def demo(folder, cwd):
    return subprocess.run(['bash', os.path.join(folder, 'demo.sh')], cwd=cwd, env=ENV, stdout=subprocess.DEVNULL,
                          stderr=subprocess.PIPE, timeout=300)


def own_lines(copy, diff):
    """The removed lines of a patch that do not come from the first commit."""
    base = subprocess.run(['git', '-C', copy, 'rev-list', '--max-parents=0', 'HEAD'], stdout=subprocess.PIPE).stdout.decode().strip()
    name, line, out = None, 0, []
    for text in diff.splitlines():
        if text.startswith('--- a/'):
            name = text[6:]
            blame = [x.split(b' ', 1)[0].lstrip(b'^').decode() for x in subprocess.run(
                ['git', '-C', copy, 'blame', '-s', '-l', 'HEAD', '--', name], stdout=subprocess.PIPE).stdout.splitlines()]
        elif text.startswith('@@'):
            line = int(text.split()[1][1:].split(',')[0])
        elif text.startswith('-') and not text.startswith('---'):
            if not base.startswith(blame[line - 1][:39]):
                out.append(text)
            line += 1
        elif text.startswith(' '):
            line += 1
    return out


def plant(bug, check=True, seeds=(1, 2, 3)):
    out = []
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        copy = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', copy, symlinks=True)
        folder = os.path.join(tmp, 'seeded')
        os.mkdir(folder)
        for name, old, new in bug['edits']:
            p = os.path.join(copy, name)
            s = open(p, encoding='utf-8').read()
            if s.count(old) != 1:
                return bug['id'], 'EDIT: %d matches in %s for %r' % (s.count(old), name, old[:60])
            open(p, 'w', encoding='utf-8').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', copy, 'diff'], stdout=subprocess.PIPE).stdout
        own = own_lines(copy, diff.decode())
        if own:
            return bug['id'], 'OWN LINES changed: %r' % own[:3]
        open(os.path.join(folder, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(folder, 'demo.sh'), 'w').write(DEMO_SH)
        open(os.path.join(folder, 'demo.py'), 'w').write(bug['demo'].strip() + '\n')
        json.dump({k: bug[k] for k in ('property', 'needs', 'what_it_breaks')},
                  open(os.path.join(folder, 'meta.json'), 'w'), indent=1)
        r = demo(folder, '/repo')
        if r.returncode:
            return bug['id'], 'DEMO fails on the unchanged tree: ' + r.stderr.decode()[-600:]
        r = demo(folder, copy)
        if not r.returncode:
            return bug['id'], 'DEMO passes with the change'
        out.append('demo: ' + (r.stderr.decode().strip().splitlines() or [""])[-1][:100])
        miss = tests(copy)
        if miss:
            return bug['id'], 'TESTS fail: %s' % miss[:3]
        dest = os.path.join(SEEDED, bug['id'])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(folder, dest)
        if check:
            out.append(run_checks(bug['property'], copy, seeds))
        return bug['id'], ' | '.join(out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_checks(prop, copy, seeds):
    got = []
    for seed in seeds:
        r = subprocess.run([os.path.join(HERE, 'check.sh'), prop, 'quick'], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           env=dict(os.environ, VERIF_REPO=copy, VERIF_OUT=os.path.join(os.path.dirname(copy), 'out'), VERIF_SEED=str(seed), VERIF_TIER='quick'))
        got.append({0: 'MISSED', 1: 'caught'}.get(r.returncode, 'exit %d' % r.returncode))
    return '%s %s' % (prop, got)


def existing(name, seeds):
    """Runs the check of an already planted bug again."""
    folder = os.path.join(SEEDED, name)
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        copy = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', copy, symlinks=True)
        r = subprocess.run(['git', '-C', copy, 'apply', os.path.join(folder, 'patch.diff')], stderr=subprocess.PIPE)
        if r.returncode:
            return name, 'PATCH does not apply: ' + r.stderr.decode()[:200]
        if demo(folder, '/repo').returncode:
            return name, 'DEMO fails on the unchanged tree'
        if not demo(folder, copy).returncode:
            return name, 'DEMO passes with the change'
        miss = tests(copy)
        if miss:
            return name, 'TESTS fail: %s' % miss[:3]
        return name, run_checks(json.load(open(os.path.join(folder, 'meta.json')))['property'], copy, seeds)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    seeds = tuple(int(x) for x in os.environ.get('SEEDS', '1,2,3').split(','))
    if sys.argv[1] == 'existing':
        names = sys.argv[2:] or sorted(os.listdir(SEEDED))
        jobs = [(existing, (n, seeds)) for n in names]
    else:
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        jobs = [(plant, (b, True, seeds)) for b in ns['BUGS'] if not sys.argv[2:] or b['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(2) as ex:
        for name, text in ex.map(lambda j: j[0](*j[1]), jobs):
            print('%-28s %s' % (name, text), flush=True)


if __name__ == '__main__':
    main()
