"""Create and verify planted bugs (see DESIGN.md).

  mkseed.py make SPEC.py     SPEC.py defines ID, PROPERTY, NEEDS, BREAKS,
                             EDITS = [(file, old, new), ..], DEMO (python code)
  mkseed.py verify ID..      build + tests + demo in a scratch copy
  mkseed.py check ID..       run the property's check against the patched copy
  mkseed.py table            the table of DESIGN.md
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
PRE = '''import os, sys, types
mod = types.ModuleType('getclass')
mod.getclass = lambda obj: obj.__class__
sys.modules.setdefault('getclass', mod)
sys.path.insert(0, os.getcwd())
import logging
logging.disable(logging.CRITICAL)

'''
SH = '''#!/bin/bash
# run with the current directory in the repository
here="$(cd "$(dirname "$0")" && pwd)"
export CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
tmp="$(mktemp -d)"
export MPLCONFIGDIR="$tmp" DEMO_TMP="$tmp"
timeout 240 /opt/venv/bin/python -W ignore "$here/demo.py"
rc=$?
rm -rf "$tmp"
exit $rc
'''
IGN = ['data/handler', 'data/modules', 'data/test_trafo.py', 'manager',
       'model', 'test_create_trafo_model.py']
MODS = '''__about__ misc data.tensor settings.setup_manager
settings.version_control manager.reconstruction.tray
manager.reconstruction.modules.covariance
manager.reconstruction.modules.fit_quality
manager.reconstruction.modules.mcmc
manager.reconstruction.modules.opening_angle
manager.reconstruction.modules.reconstruction
manager.reconstruction.modules.visualization
manager.reconstruction.modules.utils.trafo
utils.angles utils.basis_functions utils.detector utils.dom_noise_rates
utils.learning_rate utils.spherical_opt'''.split()


def copy():
    d = tempfile.mkdtemp(prefix='seed_')
    subprocess.run(['git', 'clone', '-q',
                    os.environ.get('SEED_REPO', '/repo'), d + '/repo'], check=True)
    return d


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, CUDA_VISIBLE_DEVICES='-1', TF_CPP_MIN_LOG_LEVEL='3',
             MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1')
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    d = copy()
    try:
        for f, old, new in ns['EDITS']:
            p = os.path.join(d, 'repo', f)
            s = open(p).read()
            if s.count(old) != 1:
                sys.exit('%s: %d matches of %r' % (ns['ID'], s.count(old), old))
            open(p, 'w').write(s.replace(old, new))
        rc, diff = sh(['git', 'diff'], d + '/repo')
        out = os.path.join(SEEDED, ns['ID'])
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.sh', 'w').write(SH)
        os.chmod(out + '/demo.sh', 0o755)
        open(out + '/demo.py', 'w').write(PRE + ns['DEMO'].lstrip())
        json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'],
                   'what_it_breaks': ns['BREAKS']},
                  open(out + '/meta.json', 'w'), indent=1)
        return ns['ID']
    finally:
        shutil.rmtree(d)


def verify(i, check=True, tier='quick'):
    d = copy()
    s = os.path.join(SEEDED, i)
    repo = d + '/repo'
    demo = d + '/demo'
    os.makedirs(demo)
    for f in os.listdir(s):
        if f not in ('patch.diff', 'meta.json'):
            shutil.copy(os.path.join(s, f), demo)
    res = {}
    try:
        rc, out = sh([demo + '/demo.sh'], repo)
        res['demo_clean'] = rc
        if rc:
            print(out[-1500:])
        rc, out = sh(['git', 'apply', s + '/patch.diff'], repo)
        if rc:
            return 'patch does not apply ' + out
        rc, out = sh(['/opt/venv/bin/python', '-W', 'ignore', '-c',
                      'import importlib\nfor m in %r: importlib.import_module'
                      '("egenerator."+m)\nimport egenerator; print("AT", egenerator.__file__)' % MODS], repo,
                     {'PYTHONPATH': repo})
        if 'AT ' + repo not in out:
            print(out[-500:])
        res['build'] = rc
        cmd = ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
               'no:cacheprovider', '--continue-on-collection-errors', 'test']
        cmd += ['--ignore=test/' + x for x in IGN]
        rc, out = sh(cmd, repo, {'PYTHONPATH': repo})
        res['tests'] = out.strip().splitlines()[-1]
        rc, out = sh([demo + '/demo.sh'], repo)
        res['demo_patched'] = rc
        res['demo_says'] = out.strip()[-300:]
        if check:
            p = json.load(open(s + '/meta.json'))['property']
            rc, out = sh([VERIF + '/bin/check', p, tier], VERIF,
                         {'VERIF_REPO': repo, 'VERIF_SEED': '1',
                          'VERIF_EVIDENCE': d + '/ev'}, timeout=1000)
            res['check'] = rc
            res['caught'] = rc == 1 and ('VIOLATION property=' + p) in out
            res['check_says'] = out.strip()[-700:]
        return res
    finally:
        shutil.rmtree(d)


def table():
    """Rewrite the table of planted bugs at the end of DESIGN.md."""
    path = os.path.join(VERIF, 'DESIGN.md')
    text = open(path).read().split('\n| bug |')[0].rstrip()
    rows = ['| bug | breaks | needs | caught by |', '|-|-|-|-|']
    for i in sorted(os.listdir(SEEDED)):
        m = json.load(open(os.path.join(SEEDED, i, 'meta.json')))
        rows.append('| %s | %s | %s | %s |' % (
            i, m['what_it_breaks'], m['needs'],
            m.get('caught_by', m['property'])))
    open(path, 'w').write(text + '\n\n' + '\n'.join(rows) + '\n')


if __name__ == '__main__':
    if sys.argv[1] == 'table':
        table()
        sys.exit()
    ids = sys.argv[2:]
    if sys.argv[1] == 'make':
        ids = [make(p) for p in ids]
        chk = os.environ.get('NOCHECK') is None
    else:
        chk = sys.argv[1] == 'check'
    if ids == ['all']:
        ids = sorted(os.listdir(SEEDED))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        for i, r in zip(ids, ex.map(lambda x: verify(x, chk), ids)):
            print('=====', i)
            if not isinstance(r, dict):
                print(r)
                continue
            ok = (r['demo_clean'] == 0 and r['build'] == 0 and
                  r['demo_patched'] != 0 and '21 passed' in r['tests'])
            print('VALID' if ok else 'INVALID', 'CAUGHT' if r.get('caught')
                  else 'not caught' if chk else '')
            for k, v in r.items():
                print('  ', k, ':', v)
            sys.stdout.flush()
