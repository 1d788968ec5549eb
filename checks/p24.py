"""P24: training of ensembles."""
import contextlib
import glob
import io
import os
import shutil
import tempfile

import numpy as np

import vlib

LEVEL = 'model_checking'
NAN = 9999
INV = ''.join('INVARIANT %s\n' % x for x in ('Counted', 'NeverAhead', 'Emit'))\
    + ''.join('PROPERTY %s\n' % x for x in ('OnlySteps', 'Untouched',
                                            'FailKeeps')) + \
    'CONSTRAINT Bounded\n'


def config(small, *values):
    return ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + INV +
            'CONSTANT Small = %s\n' % ('TRUE' if small else 'FALSE') +
            ''.join('CONSTANT %s = %d\n' % x for x in zip(
                ('MaxModels', 'MaxVars', 'MaxIter', 'MaxTrains'), values)))


def run(chk):
    big = chk.thorough
    jobs = [('TrainLoop', config(True, 1, 2, 2, 1), {'expect_ok': True})]
    for sizes in ((1, 3, 4, 2), (2, 2, 3, 3), (3, 3, 6, 2), (1, 2, 9, 1)):
        jobs.append(('TrainLoop', config(False, *sizes), {
            'expect_ok': True, 'workers': 1, 'extra': [
                '-simulate', 'num=%d' % (700 if big else 90), '-depth', '300',
                '-seed', str(chk.rng.randrange(10 ** 6))]}))
    cases = []
    for (_, _, o), r in zip(jobs, vlib.tlc_all(jobs)):
        chk.add_tlc(r, 'TrainLoop')
        got = {vlib.freeze(x): x for x in r.json_prints()}
        got = [got[k] for k in sorted(got, key=repr)]
        chk.rng.shuffle(got)
        got.sort(key=lambda x: 'fail' in [e['ev'] for e in x])
        n = (300 if big else 25) if 'extra' not in o else \
            (900 if big else 75)
        # two thirds without failures
        cases += got[:2 * n // 3] + got[2 * n // 3:][-(n // 3):]
    chk.rng.shuffle(cases)
    if len(cases) < 150:
        raise vlib.MachineryError('only %d histories' % len(cases))
    vlib.parallel(chk, replay, cases)
    if not chk.violations:
        for f in ('step', 'val', 'eval', 'ckpt', 'end', 'reload', 'gradient',
                  'loss', 'summaries', 'clip'):
            if not chk.cov.get(f):
                raise vlib.MachineryError('no history with ' + f)


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-4, atol=1e-3,
                                              equal_nan=True)


def same_all(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


class World:

    def __init__(self, chk, case, directory):
        import training as T
        self.T, self.chk, self.case = T, chk, case
        self.dir = os.path.join(directory, 'm')
        self.rng = chk.rng
        self.ev = None
        self.ids = 0
        self.logs = {}
        self.trains = 0
        self.ckpts = []

    def bad(self, what, detail=None):
        self.chk.violation('training:' + what,
                           {'what': what, 'detail': detail, 'event': self.ev},
                           {'case': self.case, 'detail': detail,
                            'event': self.ev})
        return False

    def split(self):
        """Trainings with what happens in them."""
        res = []
        for e in self.case[1:]:
            if e['ev'] in ('train', 'reload'):
                res.append([e])
            else:
                res[-1].append(e)
        return res

    def run(self):
        T = self.T
        first = self.case[0]
        sizes = [sum(v['size'] for v in k) for k in first['kinds']]
        self.starts = [sum(sizes[:i]) for i in range(len(sizes))]
        self.man = T.manager(self.dir, first['kinds'], self.starts)
        for m, w in zip(self.man.models, first['w']):
            a = 0
            for v in m._untracked_data['w']:
                n = int(v.shape[0])
                v.assign([float(x) for x in w[a:a + n]])
                a += n
        c = T.classes()
        import ensemble
        self.loss = ensemble.configured(c['Loss'](), tag=3)
        self.judge = ensemble.configured(c['Judge'](), tag=4)
        self.w = first['w']
        self.base = int(self.man.models[0].step.numpy())
        for part in self.split():
            self.ev = part[0]
            self.chk.count(part[0]['ev'])
            if part[0]['ev'] == 'reload':
                self.man = T.load(self.dir)
                self.w = part[0]['w']
                if not self.state(part[0]):
                    return False
            elif not self.train(part):
                return False
        return True

    def state(self, e):
        if not same_all(self.T.flat(self.man), e['w']):
            return self.bad('weights', (self.T.flat(self.man), e['w']))
        for m in self.man.models:
            if int(m.step.numpy()) != self.base + e['stp']:
                return self.bad('step counter', (
                    int(m.step.numpy()), self.base + e['stp']))
            if m._untracked_data['fixed'].numpy().tolist() != [3., 4.]:
                return self.bad('fixed weights changed')
        return True

    def batch(self, b):
        self.ids += 1
        return (self.ids, [self.T.number(x) for m in b['c'] for x in m],
                [self.T.number(x) for x in b['d']])

    def train(self, part):
        T, o, rng = self.T, part[0]['opt'], self.rng
        self.trains += 1
        want = []
        unused = None
        feed = {'tr': [], 'va': []}

        def give(k, b):
            feed[k].append(self.batch(b))
            return feed[k][-1][0]
        n = len(self.w)
        w = self.w
        logs = {'training': [], 'validation': []}
        out = part[-1]
        for e in part[1:]:
            self.chk.count(e['ev'])
            if e['ev'] == 'step':
                i = give('tr', e['b'])
                want += [(i, m, True, w[m]) for m in range(n)]
                w = e['w']
            elif e['ev'] == 'clip':
                i = give('tr', e['b'])
                want += [(i, m, True, w[m]) for m in range(n)]
                # the step that is not made of integers
                f = o['lr'] * o['clip'] / np.sqrt(e['n2'])
                w = [[x + (o['mom'] * v - f * g if h else 0)
                      for x, v, g, h in zip(*y)] for y in zip(
                          w, e['vel'], e['g'], e['has'])]
                out = dict(out, w=w, saved=w)
            elif e['ev'] == 'fail' and e['why'] == 'gradient':
                i = give('tr', e['b'])
                want += [(i, m, True, w[m]) for m in range(n)]
            elif e['ev'] == 'fail' and e['why'] == 'nothing':
                # refused before or after the loss is calculated
                unused = give('tr', e['b'])
            elif e['ev'] == 'val':
                for k, b, l, d in (('tr', 'bt', 'lt', 'training'),
                                   ('va', 'bv', 'lv', 'validation')):
                    i = give(k, e[b])
                    want += [(i, m, False, w[m]) for m in range(n)]
                    logs[d].append((self.base + e['stp'], [
                        np.nan if x == NAN else x / 2. for x in e[l]],
                        [x / 2. for x in e['reg']]
                        if o['l1'] or o['l2'] else None))
            elif e['ev'] == 'eval':
                want.append(('eval', give('va', e['b']), e['it'], 'Loss'))
        # further batches which must not be used for anything that counts
        zero = {'c': [[7 for _ in m] for m in w], 'd': [7 for _ in w]}
        for _ in range(12):
            give('tr', zero)
            give('va', zero)
        T.FEED.update(feed)
        T.TRACE.clear()
        # the scale is part of the settings of the loss
        settings = {
            'optimizer_name': 'SGD',
            'optimizer_settings': {
                'learning_rate': float(o['lr']), 'momentum': float(o['mom'])},
            'l1_regularization': float(o['l1']),
            'l2_regularization': o['l2'] / 2.,
            'clip_gradients_value': float(o['clip']) if o['clip'] else None,
            'validation_frequency': o['V'], 'evaluation_frequency': o['E'],
            'save_frequency': o['S'],
            'additional_loss_module_kwargs': {'scale': 1.},
        }
        if o['rm']:
            settings['remove_nan_gradients'] = o['rm'] == 2
        if not o['clip'] and rng.random() < .5:
            del settings['clip_gradients_value']
        if rng.random() < .3:
            settings['optimizer_settings']['learning_rate'] = {
                'full_class_string': 'tensorflow.keras.optimizers.schedules.'
                'PiecewiseConstantDecay',
                'settings': {'boundaries': [o['iter']],
                             'values': [float(o['lr']), 50.]}}
        cfg = {'training_settings': settings,
               'data_iterator_settings': {'training': {'which': 'tr'},
                                          'validation': {'which': 'va'}}}
        error = None
        try:
            with vlib.quiet(), contextlib.redirect_stdout(io.StringIO()):
                self.man.train(
                    config=cfg, loss_module=self.loss,
                    num_training_iterations=o['iter'],
                    evaluation_module=self.judge if o['ev'] else None)
        except Exception as e:
            error = e
        self.ev = out
        if (error is None) is not (out['ev'] == 'end'):
            return self.bad('refused' if error else 'accepted', repr(error))
        if out['ev'] == 'fail':
            self.chk.count(out['why'])
        got = [x for x in T.TRACE if unused is None or x[0] != unused]
        if len(got) != len(want) or any(
                g[:3] != x[:3] or (g[3] != x[3] if x[0] == 'eval' else
                                   not same(g[3], x[3]))
                for g, x in zip(got, want)):
            k = [i for i, (g, x) in enumerate(zip(got, want))
                 if g[:3] != x[:3] or not (g[3] == x[3] if x[0] == 'eval'
                                           else same(g[3], x[3]))]
            k = k[0] if k else min(len(got), len(want))
            return self.bad('course of training', {
                'at': k, 'got': got[k:k + 2], 'want': want[k:k + 2],
                'lengths': (len(got), len(want))})
        if not self.state(dict(out)):
            return False
        self.w = out['w']
        return self.files(out) and self.summaries(logs, n)

    def files(self, out):
        """Recorded numbers of steps, and checkpoints."""
        import ruamel.yaml
        yaml = ruamel.yaml.YAML(typ='safe', pure=True)
        for c in out['ckpt']:
            self.ckpts.append(c['prot'])
        unprot = [i for i, p in enumerate(self.ckpts, 1) if not p][-3:]
        prot = [i for i, p in enumerate(self.ckpts, 1) if p]
        trains = self.trains
        for m in range(len(self.w)):
            d = os.path.join(self.dir, 'models_%04d' % m)
            with open(os.path.join(d, 'training', 'training_steps.yaml')) as f:
                t = yaml.load(f)
            if t['latest_step'] != trains or \
                    t['training_steps'][trains]['num_training_steps'] != \
                    out['n']:
                return self.bad('recorded number of steps', (t, out['n']))
            with open(os.path.join(d, 'model_checkpoint.yaml')) as f:
                c = yaml.load(f)
            if c['latest_checkpoint'] != len(self.ckpts) or \
                    sorted(c['protected_checkpoints']) != prot or \
                    sorted(c['unprotected_checkpoints']) != unprot:
                return self.bad('checkpoints', (c, prot, unprot))
            if len(glob.glob(os.path.join(d, 'model_checkpoint_*.index'))) \
                    != len(prot) + len(unprot):
                return self.bad('checkpoint files', os.listdir(d))
        if self.rng.random() < .3:
            man = self.T.load(self.dir)
            if not same_all(self.T.flat(man), out['saved']):
                return self.bad('saved weights', (self.T.flat(man),
                                                  out['saved']))
            self.chk.count('saved_weights')
        return True

    def summaries(self, logs, n):
        """Losses in the logs."""
        for k, rows in logs.items():
            got = self.T.summaries(os.path.join(self.dir, 'logs', k))
            old = self.logs.setdefault(k, {})
            for m in range(n):
                for tag, i in (('loss_%04d' % m, 1), ('reg_loss_%04d' % m, 2)):
                    old.setdefault(tag, []).extend(
                        (r[0], r[i][m]) for r in rows if r[i] is not None)
                    g, x = got.get(tag, []), old[tag]
                    if [s for s, _ in sorted(g)] != [s for s, _ in sorted(x)] \
                            or not all(same(a[1], b[1]) for a, b in zip(
                                sorted(g), sorted(x))):
                        return self.bad('logged losses', (k, tag, g, x))
            self.chk.count('summaries', len(rows))
        return True


def replay(chk, cases):
    vlib.setup_environment()
    vlib.stub_git()
    import tensorflow as tf
    tf.config.threading.set_intra_op_parallelism_threads(1)
    tf.config.threading.set_inter_op_parallelism_threads(2)
    tf.get_logger().setLevel('ERROR')
    for case in cases:
        if chk.stop:
            break
        d = tempfile.mkdtemp(prefix='p24_')
        w = World(chk, case, d)
        try:
            w.run()
        except Exception:
            import traceback
            w.bad('exception', traceback.format_exc()[-1500:])
        finally:
            shutil.rmtree(d)
        chk.traces()
        chk.sample(case)
