"""P29: what was trained is what is exported, loaded and used."""
import hashlib
import json
import os

import numpy as np
import ruamel.yaml as YAML

import vlib
import workflow as W

LEVEL = 'model_checking'
INV = ('OneHypothesis', 'Origin', 'Sums')
PROPS = ('Consent', 'Continued', 'Snapshot', 'Apart')


def cfg(small, emit=False, view=False, **c):
    return 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + ''.join(
        'INVARIANT %s\n' % i for i in INV + (('Emit',) if emit else ())) + \
        ''.join('PROPERTY %s\n' % p for p in PROPS if small) + (
            'VIEW View\n' if view else '') + ''.join(
                'CONSTANT %s = %s\n' % x for x in dict(
                    c, Small=str(small).upper()).items())


def tree(d):
    """All files in a directory."""
    res = {}
    for p, _, files in os.walk(d):
        for f in files:
            f = os.path.join(p, f)
            with open(f, 'rb') as fh:
                res[os.path.relpath(f, d)] = hashlib.sha1(
                    fh.read()).hexdigest()
    return res


class World:

    def __init__(self, chk, case, root):
        self.chk, self.case, self.root, self.rng = chk, case, root, chk.rng
        self.exported = {}
        # directories may have dots in their names
        style = self.rng.choice(['%s%d', '%s_%d', '%s.%d', 'v1.%s%d'])
        self.dirs = {(k, i): os.path.join(root, style % (k, i))
                     for k, n in (('trafo', 9), ('man', 9), ('exp', 9))
                     for i in range(1, n)}
        self.files = []
        for i, c in enumerate(case['cfgs'], 1):
            self.files.append(os.path.join(root, 'cfg%d.yaml' % i))
            with open(self.files[-1], 'w') as f:
                json.dump(self.config(i, c), f)

    def config(self, i, c):
        r = self.rng
        loss = [{'loss_module': 'workflow.Scaled', 'config': {'scale': s}}
                for s in c['loss']]
        if len(loss) == 1 and r.random() < .5:
            loss = loss[0]
        self.seeds = getattr(self, 'seeds', {})
        self.seeds[i] = seeds = r.choice(
            ['x_parameters', 's1', ['s1'], ['s2', 's1'], ['x_parameters'],
             ['s1', 'x_parameters', 's2']])
        reco = {'seed': seeds, 'seed_parameter_names': ['a', 'b'],
                'seed_float_precision': 'float32',
                'seed_missing_value': None, 'seed_missing_value_dict': {}}
        self.changes = getattr(self, 'changes', {})
        self.changes[i] = change = {}
        if r.random() < .3:
            change['label'] = 'new'
            reco['modified_label_module'] = {
                'label_module': 'standin.Labels',
                'label_settings': {'label_key': 'new'}}
        if c['data']:
            change['data'] = 'Other%d' % i
            reco['modified_data_module'] = {
                'data_module': 'standin.Data', 'data_settings': {
                    'kind': c['kind'], 'pulse_key': 'Other%d' % i}}
        it = {'which': i}
        return {
            'data_handler_settings': {
                'data_handler': 'standin.Handler',
                'data_module': 'standin.Data',
                'data_settings': {'kind': c['kind'], 'pulse_key': 'P%d' % i},
                'label_module': 'standin.Labels', 'label_settings': {},
                'weight_module': 'dummy.DummyWeightModule',
                'weight_settings': {},
                'misc_module': 'dummy.DummyMiscModule', 'misc_settings': {},
                'filter_module': 'dummy.DummyFilterModule',
                'filter_settings': {}},
            'data_iterator_settings': {
                k: dict(it, k=k) for k in ('training', 'validation',
                                           'test')} | {
                                               'trafo': {'k': 'trafo'}},
            'data_trafo_settings': {
                'model_dir': self.dirs['trafo', c['trafo']],
                'num_batches': 4, 'float_precision': 'float32',
                'norm_constant': 1e-6},
            'loss_module_settings': loss,
            'model_settings': self.model(c),
            'model_manager_settings': {
                'model_manager_class':
                    'egenerator.manager.source.SourceManager',
                'restore_model': c['restore'],
                'config': {'manager_dir': self.dirs['man', c['dir']],
                           'I3ParticleMapping': {'zenith': 'a',
                                                 'azimuth': 'b'}}},
            'training_settings': {
                'optimizer_name': 'SGD',
                'optimizer_settings': {'learning_rate': 1.},
                'l1_regularization': 0., 'l2_regularization': 0.,
                'num_training_iterations': 0, 'validation_frequency': 1,
                'evaluation_frequency': 1, 'save_frequency': 1,
                'additional_loss_module_kwargs': {}},
            'reconstruction_settings': reco} | self.judges(i)

    def judges(self, i):
        """Settings of the evaluation, its name or None."""
        r = self.rng
        self.evaluations = getattr(self, 'evaluations', {})
        k = r.randrange(4)
        self.evaluations[i] = 'e%d' % i if k < 2 else None
        return {} if k == 3 else {'evaluation_module_settings': {
            'evaluation_module': None if k == 2 else 'workflow.Judge',
            'config': {'name': 'e%d' % i}}}

    def model(self, c):
        r = self.rng
        names = ['a', 'b'][::1 if c['order'] == 1 else -1]
        m = {'model_class': 'workflow.Weight',
             'config': {'w0': c['w0'], 'names': names}}
        if not c['bases']:
            if r.random() < .2:
                m['multi_source_bases'] = {}
            return m
        m['model_class'] = 'workflow.Total'
        m['config'] = {'names': names}
        m['multi_source_bases'] = bases = {}
        for i, b in enumerate(c['bases'], 1):
            bases['b%d' % i] = x = {
                'model_class': 'workflow.Weight',
                'config': {'w0': b['w0'], 'names': names}}
            if b['load']:
                x['load_dir'] = os.path.join(
                    self.dirs['man', b['load']], 'models_0000')
                if r.random() < .5:     # the class is that of what is loaded
                    x['config'] = {'w0': 77., 'names': ['no']}
                if b['sum']:
                    x['model_class'] = 'workflow.Total'
            elif r.random() < .5:
                x['load_dir'] = None
            if b['trafo']:
                x['data_trafo_settings'] = {
                    'model_dir': self.dirs['trafo', b['trafo']]}
        return m

    # ------------------------------------------------------------------
    def bad(self, what, **more):
        info = dict(more, what=what, case=self.case, op=self.op)
        self.chk.violation('workflow:' + what, info, info)
        return False

    def call(self, main, args, yes):
        """Run a script: outcome and whether it asked something."""
        from click.testing import CliRunner
        r = CliRunner().invoke(main, [str(a) for a in args],
                               input='y\n' if yes else 'n\n')
        asked = '[y/N]' in r.output
        if r.exception is None:
            return 'ok', asked, r.output
        if isinstance(r.exception, ValueError) and \
                'Aborting!' in str(r.exception):
            return 'aborted', asked, r.exception
        return 'failed', asked, r.exception

    def run(self):
        state = {'trafo': set(), 'man': set(), 'exp': set()}
        for e in self.case['hist']:
            self.op = e
            before = {k: tree(d) for k, d in self.dirs.items()}
            if not getattr(self, e['op']['do'])(e['op'], e):
                return False
            self.chk.traces()
            self.chk.count(e['op']['do'] + '_' + e['out'])
            n = e['op'].get('cs', e['op'].get('os'))
            if n and len(set(n)) > 1:
                self.chk.count(e['op']['do'] + '_mixed_' + e['out'])
            # nothing else has changed on disk
            mine = self.touched(e)
            for k, d in self.dirs.items():
                now = tree(d)
                if k != mine and now != before[k] or (
                        k == mine and e['out'] == 'aborted' and
                        now != before[k]):
                    return self.bad('files of others', directory=k, changed=[
                        f for f in set(now) | set(before[k])
                        if now.get(f) != before[k].get(f)][:5])
            left = {os.path.join(self.root, f)
                    for f in os.listdir(self.root)}
            if left - set(self.dirs.values()) - set(self.files):
                return self.bad('files at other places', files=sorted(
                    left - set(self.dirs.values()) - set(self.files)))
        self.op = 'final state'
        for d, m in enumerate(self.case['man'], 1):
            if m and not (self.loaded(self.dirs['man', d], m) and
                          self.history(d, m[0])):
                return False
        for o, x in enumerate(self.case['exp'], 1):
            if x['models'] and not self.loaded(self.dirs['exp', o],
                                               x['models']):
                return False
        return True

    def touched(self, e):
        op, c = e['op'], self.case['cfgs']
        if op['do'] == 'trafo':
            return 'trafo', c[op['c'] - 1]['trafo']
        if op['do'] == 'train':
            return 'man', c[op['c'] - 1]['dir']
        return ('exp', op['o']) if op['do'] == 'export' else None

    def outcome(self, e, got, exists):
        """Compare the outcome of a command."""
        out, asked, info = got
        if out != e['out']:
            return self.bad('outcome of a command', got=out,
                            error=repr(info)[-600:])
        if asked != exists:
            return self.bad('question before deletion', asked=asked)
        return True

    # ------------------------------------------------------------------
    def trafo(self, op, e):
        from egenerator.create_trafo_model import main
        d = self.dirs['trafo', self.case['cfgs'][op['c'] - 1]['trafo']]
        exists = bool(tree(d))
        W.FEED['trafo'] = op['content']
        W.KILLED.clear()
        got = self.call(main, [self.files[op['c'] - 1]], op['yes'])
        if not self.outcome(e, got, exists):
            return False
        if e['out'] == 'ok' and not W.KILLED:
            return self.bad('processes of the data handler not ended')
        return True

    def train(self, op, e):
        from egenerator.train_model import main
        c = self.case['cfgs'][op['c'] - 1]
        f = self.files[op['c'] - 1]
        exists = bool(tree(self.dirs['man', c['dir']]))
        with open(f) as fh:
            config = json.load(fh)
        config['training_settings']['num_training_iterations'] = op['n']
        with open(f, 'w') as fh:
            json.dump(config, fh)
        W.FEED['slope'] = op['g']
        W.KILLED.clear()
        W.ASKED.clear()
        W.EVALUATED.clear()
        got = self.call(main, [f], op['yes'])
        if not self.outcome(e, got, exists and not c['restore']):
            return False
        if e['out'] == 'ok':
            for b in e['res'][0]['bases']:
                self.chk.count('bases' + '_own' * (
                    b['trafo'] != e['res'][0]['trafo']) +
                    '_sum' * bool(b['bases']))
            if not W.KILLED:
                return self.bad('processes of the data handler not ended')
            if [a[1] for a in W.ASKED] != [
                    config['data_iterator_settings'][k]
                    for k in ('training', 'validation')]:
                return self.bad('iterators of a training', asked=W.ASKED)
            j = self.evaluations[op['c']]
            if set(W.EVALUATED) != ({(j, sum(c['loss']))} if j else set()):
                return self.bad('evaluations of a training', want=j,
                                got=W.EVALUATED)
        return True

    def export(self, op, e):
        from egenerator.export_manager import main
        d = self.dirs['exp', op['o']]
        args = [self.files[c - 1] for c in op['cs']] + ['-o', d]
        if op['rc']:
            args += ['-r', self.files[op['rc'] - 1]]
        exists = os.path.exists(d)
        return self.outcome(e, self.call(main, args, op['yes']), exists)

    def reconstruct(self, op, e):
        from egenerator.manager.source import SourceManager
        from egenerator.reconstruct_test_data import main
        args = [self.files[c - 1] for c in op['cs']]
        rc = op['rc'] or op['cs'][0]
        if op['rc']:
            args += ['-r', self.files[rc - 1]]
        calls = []

        def reconstruct_testdata(man, config, loss_module):
            calls.append((man, config, loss_module))
        keep = SourceManager.reconstruct_testdata
        SourceManager.reconstruct_testdata = reconstruct_testdata
        try:
            got = self.call(main, args, False)
        finally:
            SourceManager.reconstruct_testdata = keep
        if not self.outcome(e, got, False):
            return False
        if e['out'] != 'ok':
            return not calls or self.bad('failed, but reconstructed')
        if len(calls) != 1:
            return self.bad('number of reconstructions', calls=len(calls))
        man, config, loss = calls[0]
        seeds = self.seeds[rc]
        seeds = [s for s in ([seeds] if isinstance(seeds, str) else seeds)
                 if s != 'x_parameters']
        change = self.changes[rc]
        last = self.pulse_key(op['cs'][-1])
        return self.judge(man, loss, e['res'], op['loss'], seeds,
                          change.get('label', 'L'),
                          change.get('data', last))

    def pulse_key(self, c):
        """Setting of the data module a model was trained with."""
        d = self.case['cfgs'][c - 1]['dir']
        for e in self.case['hist']:
            if e is self.op:
                break
            if e['op']['do'] == 'train' and \
                    self.case['cfgs'][e['op']['c'] - 1]['dir'] == d:
                x = self.case['cfgs'][e['op']['c'] - 1]
                if e['out'] == 'failed':
                    key = None
                elif e['out'] == 'ok' and e['res'][0]['steps'] == e['op']['n']:
                    key = 'P%d' % e['op']['c']
        return key

    def use(self, op, e):
        from egenerator.utils.configurator import ManagerConfigurator
        r = self.rng
        dirs = [self.dirs['exp', o] for o in op['os']]
        kw = {}
        seeds = r.choice([None, ['s1'], ['s2', 's1'], ['x_parameters']])
        if seeds:
            kw['misc_setting_updates'] = {'seed_names': seeds}
        labels = r.random() < .5
        if labels:
            kw['load_labels'] = True
        key = 'L'
        if r.random() < .5:
            kw['label_setting_updates'] = {'label_key': 'own'}
            key = 'own'
        data = op['data']
        if data:
            kw['data_setting_updates'] = {'pulse_key': 'Mine'}
        if op['rc'] and (op['rc'] != op['os'][0] or r.random() < .5):
            kw['reco_config_dir'] = self.dirs['exp', op['rc']]
        if e['out'] == 'failed' and not op['rc']:
            kw.pop('reco_config_dir', None)
        threads = r.randrange(4)
        import copy
        given = copy.deepcopy(kw)
        W.THREADS.clear()
        got = vlib.observe(ManagerConfigurator, dirs[0] if len(dirs) == 1 and
                           r.random() < .5 else dirs, num_threads=threads,
                           **kw)
        if (got[0] == 'ok') != (e['out'] == 'ok'):
            return self.bad('outcome of loading', got=repr(got)[-600:],
                            settings=given)
        if kw != given:
            return self.bad('settings of the caller changed', kw=kw)
        if got[0] != 'ok':
            return True
        if W.THREADS != [threads, threads]:
            return self.bad('number of threads', got=W.THREADS)
        return self.judge(got[1].manager, got[1].loss_module, e['res'],
                          op['loss'],
                          seeds if seeds and seeds != ['x_parameters']
                          else [], key if labels else None,
                          'Mine' if data else None)

    # ------------------------------------------------------------------
    def judge(self, man, loss, models, scales, seeds, label, pulse_key):
        """The chain that is put together."""
        h = man.data_handler
        got = [t.name for t in h.misc_tensors.list]
        if sorted(got) != sorted(seeds):
            return self.bad('seeds that are loaded', got=got, want=seeds)
        c = h.label_module.configuration.config
        name = type(h.label_module).__name__
        if (label is None) != (name == 'DummyLabelModule') or \
                label is not None and c['label_key'] != label:
            return self.bad('labels that are loaded', got=(name, c),
                            want=label)
        c = h.data_module.configuration.config
        if pulse_key is not None and c['pulse_key'] != pulse_key:
            return self.bad('data that are loaded', got=c, want=pulse_key)
        if not self.ensemble(man, models):
            return False
        n = ['x_g'] + (['x_parameters'] if label is not None else []) + \
            list(seeds)
        if sorted(h.tensors.names) != sorted(n):
            return self.bad('tensors of the data', got=h.tensors.names)
        if label is None:
            return True
        import tensorflow as tf
        g, p = 3., 4.
        v = {'x_g': [[g]], 'x_parameters': [[p, 1.]], 's1': [[7., 7.]],
             's2': [[8., 8.]]}
        got = float(man.get_loss(
            tuple(tf.constant(v[t], tf.float32) for t in h.tensors.names),
            loss_module=loss, is_training=False,
            opt_config={'l1_regularization': 0., 'l2_regularization': 0.}))
        leaves = [m for x in models for m in self.leaves(x)]
        want = [sum(scales) * g * (m['w'] + p - W.BASE *
                                   m['trafo']['content']) for m in leaves]
        size = sum(sum(scales) * g * (abs(m['w']) + p + W.BASE *
                                      m['trafo']['content']) for m in leaves)
        if abs(got - sum(want)) > 1e-5 * size:
            return self.bad('loss of the ensemble', got=got, want=want)
        return True

    def history(self, d, model):
        """The numbers of steps of all trainings, as recorded on disk."""
        runs = []
        for e in self.case['hist']:
            if e['op']['do'] == 'train' and e['out'] != 'aborted' and \
                    self.case['cfgs'][e['op']['c'] - 1]['dir'] == d:
                if e['out'] == 'failed':
                    runs = []
                else:
                    n = e['op']['n']
                    runs = runs * (e['res'][0]['steps'] > n) + [n]
        for where in self.parts(model, 'models_0000'):
            f = os.path.join(self.dirs['man', d], where, 'training',
                             'training_steps.yaml')
            with open(f) as fh:
                meta = YAML.safe_load(fh)
            got = [meta['training_steps'][k]['num_training_steps']
                   for k in sorted(meta['training_steps'])]
            if got != runs or meta['latest_step'] != len(runs):
                return self.bad('history of trainings', got=meta, want=runs,
                                directory=where)
        return True

    def parts(self, m, where):
        """Directories of all models with weights."""
        return [p for i, b in enumerate(m['bases'], 1) for p in self.parts(
            b, os.path.join(where, 'b%d' % i))] or [where]

    def leaves(self, m):
        """Models with weights."""
        return [x for b in m['bases'] for x in self.leaves(b)] or [m]

    def real(self, m):
        bases = [m.sub_components[k] for k in sorted(m.sub_components)
                 if k != 'data_trafo']
        return (list(m.parameter_names), 0. if bases else
                float(m._untracked_data['w'].numpy()),
                int(m.step.numpy()) - 1,
                round(float(np.ravel(
                    m.data_trafo.data['x_parameters_mean'])[0]), 3),
                [self.real(b)[:2] + self.real(b)[3:] for b in bases])

    def wanted(self, m):
        bases = m['bases']
        return (['a', 'b'][::1 if m['order'] == 1 else -1], float(m['w']),
                m['steps'], W.BASE * m['trafo']['content'],
                [self.wanted(b)[:2] + self.wanted(b)[3:] for b in bases])

    def ensemble(self, man, models):
        got = [self.real(m) for m in man.models]
        want = [self.wanted(m) for m in models]
        for i, (g, w) in enumerate(zip(got, want)):
            if g[4] and g[2] == 0 != w[2]:
                # the counter of a sum of models is not stored
                info = {'what': 'steps of a stored sum', 'got': g, 'want': w}
                self.chk.violation('workflow:steps of a stored sum: 0', info,
                                   dict(info, case=self.case))
                got[i] = g[:2] + w[2:3] + g[3:]
        if got != want:
            return self.bad('models of the ensemble', got=got, want=want)
        if abs(float(np.ravel(man.data_trafo.data['x_parameters_mean'])[0])
               - want[0][3]) > 1e-3:
            return self.bad('normalisation of the ensemble')
        return True

    def loaded(self, directory, models):
        from egenerator.manager.source import SourceManager
        man = SourceManager()
        r = vlib.observe(man.load, directory)
        if r[0] != 'ok':
            return self.bad('stored models can not be loaded', error=r,
                            directory=directory)
        return self.ensemble(man, models)


def work(chk, cases):
    vlib.stub_git()
    W.install()
    import trafo as T
    from egenerator.data import trafo as trafo_module
    trafo_module.tqdm = T.NoBar
    for c in cases:
        if chk.stop:
            return
        with vlib.scratch('wf_') as d:
            World(chk, c, d).run()


def run(chk):
    q = not chk.thorough
    num = 66 if q else 400
    res = vlib.tlc_all([
        ('Workflow', cfg(True, view=True, NumCfg=2, NumTrafo=2, NumDir=2,
                         NumOut=1, MaxOps=6 if q else 9), dict(timeout=800)),
        ('Workflow', cfg(False, emit=True, NumCfg=4, NumTrafo=2, NumDir=4,
                         NumOut=3, MaxOps=16 if q else 22),
         dict(workers=1, extra=['-simulate', 'num=%d' % num, '-depth', '60',
                                '-seed', str(chk.seed)]))])
    for r in res:
        chk.add_tlc(r, 'Workflow')
        if r.violated or not r.ok:
            raise vlib.MachineryError(r.error_trace())
    cases = list(res[1].json_prints('case'))
    if len(cases) < 30:
        raise vlib.MachineryError('too few histories')
    chk.sample(cases[0])
    vlib.parallel(chk, work, cases)
    chk.assumptions += [
        'data are replaced by stand-ins: the data handler serves the numbers '
        'of the specification, models have one weight']
