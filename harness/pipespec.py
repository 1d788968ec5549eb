"""The Pipeline specification: exhaustive runs and schedules taken from it."""
import glob
import os
import re
import subprocess
import tempfile
import shutil

import vlib

CFG = '''SPECIFICATION Spec
CONSTANTS NWorkers=%(W)d BatchSize=%(B)d Reps=%(R)d NumAdd=%(A)d
CONSTANTS FileCap=%(FC)d BatchCap=%(BC)d Forever=%(forever)s Protocol="%(P)s"
CONSTANT Kind <- K
%(props)s
'''


def _kind(kind):
    return '<<' + ','.join(str(k) for k in kind) + '>>'


def model(kind, W=2, B=2, R=1, A=0, FC=1, BC=1, forever=False, P='fixed',
          props=('INVARIANT Inv',)):
    cfg = CFG % dict(W=W, B=B, R=R, A=A, FC=FC, BC=BC, P=P,
                     forever='TRUE' if forever else 'FALSE',
                     props='\n'.join(props))
    files = {'MCP.tla': '---- MODULE MCP ----\nEXTENDS Pipeline\nK == %s\n'
                        '====\n' % _kind(kind)}
    return cfg, files


def check_model(chk, kind, props, **kw):
    cfg, files = model(kind, props=props, **kw)
    r = vlib.tlc('MCP', cfg, files=files, workers=8, timeout=600)
    chk.add_tlc(r, 'Pipeline kind=%s %s' % (_kind(kind), kw))
    if not r.ok:
        raise vlib.MachineryError('Pipeline violates %s: %s' % (
            r.violated, r.error_trace()))
    return r


def expect_violation(chk, kind, props, **kw):
    """The properties must be able to fail (legacy protocol)."""
    cfg, files = model(kind, props=props, P='legacy', **kw)
    r = vlib.tlc('MCP', cfg, files=files, workers=8, timeout=600)
    if r.ok or r.violated is None:
        raise vlib.MachineryError('the legacy protocol is not rejected')
    chk.count('selftest_rejections')
    return r.violated


def schedules(kind, num, depth, seed, rng, **kw):
    """Schedules (process names) of random behaviours of the model."""
    cfg, files = model(kind, props=(), **kw)
    work = tempfile.mkdtemp(prefix='egv_sim_')
    try:
        for f in glob.glob(os.path.join(vlib.SPEC, '*.tla')):
            shutil.copy(f, work)
        for n, t in files.items():
            open(os.path.join(work, n), 'w').write(t)
        open(os.path.join(work, 'M.cfg'), 'w').write(cfg)
        p = subprocess.run(
            ['java', '-XX:+UseParallelGC', '-cp', vlib.TLA_CP,
             'tlc2.TLC', '-config', 'M.cfg', '-deadlock', '-seed', str(seed),
             '-simulate', 'file=%s/tr,num=%d' % (work, num),
             '-depth', str(depth), 'MCP.tla'],
            cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            text=True, timeout=300)
        res = []
        nw = kw.get('W', 2)
        for f in sorted(glob.glob(os.path.join(work, 'tr_*'))):
            names = []
            for m in re.finditer(r'^\\\* <(\w+?)(?:\((\d+)\))? line',
                                 open(f).read(), re.M):
                a, w = m.group(1), m.group(2)
                if a == 'Init' or a == 'Terminated':
                    continue
                n = 'proc%s' % w if w else (
                    'consumer' if a in ('CRead', 'CGet')
                    else 'proc%d' % (nw + 1))
                names.extend([n] * rng.choice([1, 1, 2, 3]))
            if names:
                res.append(names)
        if not res:
            raise vlib.MachineryError('no behaviours: ' + p.stdout[-2000:])
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)
