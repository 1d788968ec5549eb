"""P09: a crash while saving never costs existing checkpoints."""
import json
import os
import random
import shutil

import ckpt
import fswatch
import vlib
from checks import p01

LEVEL = 'model_checking'
MAXN = 12


def component_class():
    from egenerator.manager.component import BaseComponent, Configuration
    if 'CkptLoss' not in vars(ckpt):
        class CkptLoss(BaseComponent):
            def _configure(self, **kw):
                return Configuration(class_string='ckpt.CkptLoss',
                                     settings=kw), {'x': [1, 2]}, {}
        CkptLoss.__module__ = 'ckpt'
        CkptLoss.__qualname__ = 'CkptLoss'
        ckpt.CkptLoss = CkptLoss
    return ckpt.CkptLoss


def do(m, d, op):
    """One save operation of a training process."""
    ckpt.set_weights(m, op['w'])
    kw = dict(max_keep=op['keep'], protected=op['prot'])
    if op['start']:
        c = component_class()()
        c.configure(k=op['cfg'])
        m.save(d, overwrite=True, new_training_settings={
            'config': {'cfg': op['cfg']}, 'components': {'loss_module': c}},
            **kw)
    else:
        m.save_weights(d, num_training_steps=op['steps'], **kw)


def look(d, upto):
    """What a fresh process finds."""
    import ruamel.yaml as yaml

    def load(**kw):
        f = ckpt.model_class()()
        got = vlib.observe(f.load, d, **kw)
        return ckpt.get_weights(f) if got[0] == 'ok' else 0
    res = {'latest': load(),
           'loads': [load(checkpoint_number=n) for n in range(1, upto + 1)]}
    tr, ok = [], True
    p = os.path.join(d, 'training', 'training_steps.yaml')
    if os.path.exists(p):
        try:
            meta = yaml.safe_load(open(p))
            for n in sorted(meta['training_steps']):
                try:
                    c = yaml.safe_load(open(os.path.join(
                        d, 'training', 'step_%04d' % n,
                        'training_config.yaml')))['cfg']
                    f = component_class()()
                    f.load(os.path.join(d, 'training', 'step_%04d' % n,
                                        'loss_module'))
                    if f.configuration.settings['k'] != c:
                        c = 0
                except Exception:
                    c = 0
                tr.append({'n': n, 'cfg': c, 'steps':
                           meta['training_steps'][n]['num_training_steps']})
        except Exception:
            ok = False
    res.update(tr=tr, trok=ok)
    return res


class Story:
    def __init__(self, rng, k):
        self.rng = rng
        self.w = 0
        self.cfg = 0
        self.steps = 0
        self.keep = rng.choice([1, 1, 2, 3])
        self.started = False

    def next_op(self):
        r = self.rng
        self.w += 1
        start = not self.started or r.random() < 0.25
        if start:
            self.cfg += 1
            self.started = True
        self.steps += 10
        if r.random() < 0.15:
            self.keep = r.choice([1, 2, 3])
        return dict(w=self.w, prot=bool(start or r.random() < 0.15),
                    keep=self.keep, start=start, cfg=self.cfg,
                    steps=self.steps)

    def fork(self):
        s = Story(self.rng, 0)
        s.__dict__.update(self.__dict__)
        return s


def resume_model(d):
    m = ckpt.model_class()()
    got = vlib.observe(m.load, d)
    if got[0] != 'ok':
        m = ckpt.new_model()     # nothing to resume from: start anew
    return m


def step_record(op, kind, obs, failed=False):
    e = dict(op, op=kind, failed=failed)
    e.update(obs)
    return e


def explore(rng, path, depth, limit):
    """Runs of one history: every crash state of its last save, resumed;
    returns a list of recorded step lists."""
    st = Story(rng, 0)
    d = os.path.join(path, 'base')
    m = ckpt.new_model()
    steps = []
    n = rng.choice([0, 1, 2, 3, 4])
    for _ in range(n):
        op = st.next_op()
        do(m, d, op)
        steps.append(step_record(op, 'save', look(d, len(steps) + 2)))
    return branch(rng, path, d, m, st, steps, depth, limit)


def attempt(d, m, op):
    """Perform a save while all states of the directory are recorded."""
    os.makedirs(d, exist_ok=True)
    with fswatch.watch(d) as w:
        got = vlib.observe(do, m, d, op)
    return got, w.states()


def branch(rng, path, d, m, st, steps, depth, limit):
    runs = []
    op = st.next_op()
    got, states = attempt(d, m, op)
    upto = min(MAXN, len(steps) + 3)
    done = steps + [step_record(op, 'save', look(d, upto), got[0] != 'ok')]
    runs.append(done)
    if limit and len(states) > limit:
        states = rng.sample(states, limit)
    for i, tree in enumerate(states):
        sub = os.path.join(path, 'c%d_%d' % (depth, i))
        fswatch.write_tree(tree, sub)
        s2 = st.fork()
        rec = steps + [step_record(op, 'crash', look(sub, upto))]
        m2 = resume_model(sub)
        # an interrupted first start is repeated
        if not os.path.exists(os.path.join(
                sub, 'training', 'training_steps.yaml')) or \
                not rec[-1]['tr'] or rec[-1]['latest'] == 0:
            s2.started = False
        if depth > 1:
            runs.extend(branch(rng, path, sub, m2, s2, rec, depth - 1, 4))
        else:
            op2 = s2.next_op()
            got = vlib.observe(do, m2, sub, op2)
            rec = rec + [step_record(op2, 'save', look(sub, upto + 1),
                                     got[0] != 'ok')]
            if got[0] != 'ok':
                rec[-1]['error'] = str(got)
            runs.append(rec)
        shutil.rmtree(sub, ignore_errors=True)
    return runs


def run(chk):
    vlib.stub_git()
    n = 5 if chk.thorough else 4
    base = ('SPECIFICATION Spec\nCONSTANTS MaxSaves=%d Keeps={1,2} '
            'Protocol="%s"\nINVARIANT %s\nCHECK_DEADLOCK FALSE\n')
    r = vlib.tlc('CheckpointCrash', base % (n, 'fixed', 'Recoverable'),
                 workers=8)
    if not r.ok:
        raise vlib.MachineryError(r.out[-4000:])
    chk.add_tlc(r, 'CheckpointCrash')
    for inv in ('LatestLoadable', 'ProtectedLoadable', 'CanResume'):
        r = vlib.tlc('CheckpointCrash', base % (3, 'legacy', inv), workers=4)
        if inv != 'ProtectedLoadable' and r.violated != inv:
            raise vlib.MachineryError('legacy protocol passes ' + inv)
    budget = 780 if chk.thorough else 130
    i = 0
    with vlib.scratch() as path:
        while chk.left(budget) > 0 and not chk.stop and \
                i < (1000 if chk.thorough else 60):
            runs, meta = [], []
            t_end = chk.left(budget) - (150 if chk.thorough else 50)
            while chk.left(budget) > max(0, t_end) and len(runs) < 1500:
                rng = random.Random(chk.seed * 977 + i)
                sub = os.path.join(path, 'e%d' % i)
                depth = 2 if i % 3 == 2 else 1
                rs = explore(rng, sub, depth, 6 if depth == 2 else None)
                shutil.rmtree(sub, ignore_errors=True)
                for r in rs:
                    runs.append({'steps': r})
                    meta.append({'story': i, 'steps': [
                        {k: e[k] for k in ('op', 'w', 'prot', 'keep',
                                           'start', 'latest', 'failed')}
                        for e in r]})
                i += 1
            p01.validate(chk, runs, meta, 'CheckpointCrashTrace')
            chk.count('crash_states', sum(
                1 for r in runs if any(e['op'] == 'crash'
                                       for e in r['steps'])))
            chk.sample(meta[-1])
            if chk.violations:
                break
    chk.cov['stories'] = i
    chk.assumptions.append(
        'a crash leaves the effects of a prefix of the file operations; '
        'written data becomes visible in order')
