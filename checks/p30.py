"""P30: the table of a test reconstruction has a row for each event."""
import os
import sys

import numpy as np

import fit as F
import icetray
import vlib

sys.path.append(os.path.dirname(os.path.abspath(__file__)))
import p28  # noqa: E402

LEVEL = 'model_checking'
INV = p28.INV


class MarkovChainMonteCarlo(p28.StandIn):
    pass


class Visualize1DLikelihoodScan(p28.StandIn):
    pass


class Table(p28.Stream):
    """A behaviour of FrameReco, as events of a test file."""

    def __init__(self, chk, case):
        super().__init__(chk, case)
        r, c = self.rng, self.c
        if c['label']:
            self.seeds[c['label'] - 1] = 'x_parameters'
        if not self.mapping:
            self.cov = self.circ = False
        self.mcmc = c['ns'] == 1 and r.random() < .4
        self.scans = c['ns'] == 1 and r.random() < .2

    def setup(self):
        r, c = self.rng, self.c
        self.man, self.loss = F.manager(
            {'log': c['log'], 'mu': c['mu'], 'sg': c['sg'],
             'members': [c['a']], 'c': c['c'], 'q': c['q']},
            self.names, seeds=sorted(set(self.seeds) - {'x_parameters'}),
            mapping={'I3ParticleMapping': self.mapping})
        p28.StandIn.made = []
        fit, default = {}, r.random() < .5
        for n, f in zip(self.names, c['fit']):
            if f != default or r.random() < .3:
                fit[n] = f
        settings = {'method': 'L-BFGS-B', 'options': {'maxiter': 7}} \
            if self.interface != 'shog' else {'method': 'BFGS'}
        name = r.choice(['reco.hdf5', 'a.b.hdf5', 'table'])
        self.where = r.choice(['', 'out', os.path.join('new', 'sub')])
        if r.random() < .5:
            self.where = os.path.join(self.root, self.where)
        self.file = os.path.join(self.where, name)
        self.stem = os.path.splitext(self.file)[0]
        one = c['ns'] == 1 and (self.mcmc or self.scans or r.random() < .5)
        self.config = {
            'data_iterator_settings': {
                'test': {'batch_size': 1, 'n': r.randrange(99)},
                'training': {}},
            'reconstruction_settings': {
                'reco_output_file': self.file,
                'minimize_in_trafo_space': c['trafo'],
                'minimize_parameter_default_value': default,
                'minimize_parameter_dict': fit,
                'parameter_tensor_name': 'x_parameters',
                'seed': self.seeds[0] if one else list(self.seeds),
                'calculate_covariance_matrix': self.cov,
                'calculate_goodness_of_fit': self.gof,
                'estimate_angular_uncertainty': self.circ,
                'run_mcmc': self.mcmc, 'make_1d_llh_scans': self.scans,
                'reco_optimizer_interface': self.interface,
                'scipy_optimizer_settings': settings,
                'tf_optimizer_settings': {'method': 'bfgs_minimize',
                                          'x_tolerance': .25}}}
        self.asked = []

        def get_batch_generator(*a, **kw):
            self.asked.append((a, kw))
            return self.batches()
        self.man.data_handler.get_batch_generator = get_batch_generator

    def sampled(self, g):
        """Samples of a Markov chain."""
        n = g.choice([0, 1, 7])
        return {'samples': g.uniform(-3, 3, size=(n, self.n)),
                'log_prob_values': g.permutation(n) - 3.5,
                'acceptance_ratio': .5}

    def batches(self):
        import tensorflow as tf
        c = self.c
        for f in self.case['frames']:
            values = {'x_parameters': F.real(c, [f['truth']]),
                      'x_data': np.array([[f['data']]], 'int32')}
            for name, h in zip(self.seeds, f['seeds']):
                values[name] = F.real(c, [h])
            self.batch = tuple(tf.constant(values[k])
                               for k in self.man.data_handler.tensors.names)
            space = 'trafo' if c['trafo'] else 'real'
            F.ENV.queue = [([self.coords(space, p['x'])], 0)
                           for p in f['fits']]
            F.ENV.flags = [p['ok'] for p in f['fits']]
            a = self.answers()
            a['MarkovChainMonteCarlo'] = self.sampled(
                np.random.RandomState(self.rng.randrange(10**6)))
            a['Visualize1DLikelihoodScan'] = {}
            p28.StandIn.answers[:] = [a]
            self.given.append(a)
            self.fits.append(len(F.ENV.calls))
            yield self.batch
            for m in p28.StandIn.made:
                b, res = m.seen
                if any(not np.array_equal(x, y)
                       for x, y in zip(b, self.batch)) or not np.allclose(
                           res['reco']['result'], F.real(c, [f['result']]),
                           rtol=1e-9, atol=1e-9):
                    self.wrong.append(m.name)

    def run(self):
        import pandas as pd
        c, chk = self.c, self.chk
        self.given, self.fits, self.wrong = [], [], []
        with vlib.scratch('tab_') as root:
            here = os.getcwd()
            os.chdir(root)
            self.root = root
            try:
                self.setup()
                F.ENV.reset([[0.] * sum(c['fit'])], 0)
                F.ENV.calls, F.ENV.told = [], []
                r = vlib.observe(self.man.reconstruct_testdata, self.config,
                                 self.loss)
                chk.traces()
                chk.count('events_' + self.interface, len(self.fits))
                if self.cov and not self.full:
                    chk.count('refused')
                    if r[0] == 'ok':
                        self.bad('covariance of some parameters accepted')
                    return
                if r[0] != 'ok':
                    self.bad('test data not reconstructed', outcome=r)
                    return
                if self.asked != [((), self.config['data_iterator_settings'][
                        'test'])]:
                    self.bad('events that are read', asked=self.asked)
                elif F.ENV.queue or len(F.ENV.calls) != \
                        c['ns'] * len(self.case['frames']):
                    self.bad('number of fits', calls=len(F.ENV.calls))
                elif self.wrong:
                    self.bad('event or fit given to %s' % self.wrong[0])
                elif self.further():
                    files = sorted(
                        os.path.relpath(os.path.join(p, f), root)
                        for p, _, fs in os.walk(root) for f in fs)
                    self.table(pd.read_hdf(self.file, key='Variables'),
                               files)
            finally:
                os.chdir(here)

    def further(self):
        """Modules besides the fits."""
        made = {m.name: m for m in p28.StandIn.made}
        want = [k for k, f in (
            ('GoodnessOfFit', self.gof), ('MarkovChainMonteCarlo', self.mcmc),
            ('CircularizedAngularUncertainty', self.circ),
            ('Visualize1DLikelihoodScan', self.scans)) if f]
        if sorted(made) != sorted(want) or len(p28.StandIn.made) != len(want):
            return self.bad('further modules', got=sorted(made))
        for name, m in made.items():
            kw = m.kw
            checks = [
                (list(kw['fit_paramater_list']), list(self.c['fit'])),
                (kw['reco_key'], 'reco'),
                (kw['minimize_in_trafo_space'], self.c['trafo']),
                (kw['parameter_tensor_name'], 'x_parameters'),
                (m.manager, self.man), (m.loss_module, self.loss)]
            if name in ('GoodnessOfFit', 'CircularizedAngularUncertainty'):
                checks.append((kw.get('covariance_key'),
                               'covariance' if self.cov else None))
            else:
                checks.append((kw['seed_tensor_name'], self.seeds[0]))
            for got, x in checks:
                if got is not x and got != x:
                    return self.bad('settings of %s' % name, got=got, want=x)
        return True

    def table(self, df, files):
        c, frames = self.c, self.case['frames']
        import pandas as pd
        want = [self.row(f, a) for f, a in zip(frames, self.given)]
        names = set()
        for row in want:
            names |= set(row)
        if set(df.columns) != names:
            return self.bad('columns of the table', missing=sorted(
                names - set(df.columns)), more=sorted(
                    set(df.columns) - names))
        if len(df) != len(frames):
            return self.bad('rows of the table', got=len(df))
        for i, (row, f) in enumerate(zip(want, frames)):
            for k, (v, size, tol) in row.items():
                got = float(df[k].iloc[i])
                if v is None:
                    continue
                if not abs(got - v) <= tol * (size + abs(v)):
                    return self.bad('value in the table: ' + (
                        k if k not in self.names else 'parameter'), key=k,
                        row=i, got=got, want=v, event=f)
        expected = [os.path.relpath(self.file, self.root)]
        if self.mcmc:
            for i, a in enumerate(self.given):
                a = a['MarkovChainMonteCarlo']
                if len(a['samples']) == 0:
                    continue
                p = '%s_mcmc_%08d.hdf5' % (self.stem, i)
                expected.append(os.path.relpath(p, self.root))
                if not os.path.exists(p):
                    return self.bad('no samples', files=files)
                s = pd.read_hdf(p, key='Variables')
                order = np.argsort(a['log_prob_values'])
                m = {'log_prob': a['log_prob_values'][order]}
                for j, n in enumerate(self.names):
                    m['samples_' + n] = a['samples'][order, j]
                if set(s.columns) != set(m) or any(
                        len(s[k]) != len(v) or not np.allclose(s[k], v)
                        for k, v in m.items()):
                    return self.bad('samples in the file', event=i,
                                    columns=list(s.columns))
                self.chk.count('chains')
        if sorted(expected) != files:
            return self.bad('files that are written', got=files,
                            want=expected)
        return True

    def row(self, f, a):
        """Column: value, size of the numbers it is computed of, tolerance."""
        c = self.c
        res, vec = {}, {}
        for end, raw, loss in (
                ('', f['truth'], 'true'), ('_reco', f['result'], 'reco'),
                ('_seed', f['seeds'][f['best'] - 1], 'seed')):
            h = F.real(c, [raw])[0]
            vec[end] = h
            for n, v in zip(self.names, h):
                res[n + end] = v, 1., 1e-9
            value = {'true': f['loss_true'], 'reco': f['loss'],
                     'seed': f['loss_seed']}[loss]
            size = (np.abs(h * c['a']).sum() + abs(f['data']))**2 + np.abs(
                h * c['c']).sum() + (h * h * c['q']).sum()
            res['loss_' + loss] = value, 1. + size, 1e-9
        if self.cov:
            m = self.covariances(f, 'trafo' if c['trafo'] else 'real')
            ends = [('_unc', 'cov'), ('_unc_sandwhich', 'cov_sand')]
            corr = [('cov_zenith_azimuth', 'cov')]
            if self.interface in ('scipy',):
                ends += [('_unc_fit', 'cov_fit'),
                         ('_unc_sandwhich_fit', 'cov_sand_fit')]
                corr += [('cov_fit_zenith_azimuth', 'cov_fit')]
            z, y = (self.names.index(n) for n in ('zen', 'azi'))
            for end, key in ends:
                for j, n in enumerate(self.names):
                    v = None
                    if m is not None and m[key][j][j] > 0:
                        v = np.sqrt(m[key][j][j])
                    res[n + end] = v, 1e-3 if m is None else np.sqrt(
                        np.abs(m[key]).max()), 1e-5
            for name, key in corr:
                res[name] = (None, 0, 0) if m is None else (
                    m[key][z][y], np.abs(m[key]).max(), 1e-6)
            if m is None:
                self.chk.count('singular')
        if self.gof:
            g = a['GoodnessOfFit']
            for k in ('event_p_value_1sided', 'event_p_value_2sided'):
                res[k] = g[k], 0., 1e-9
            if 'sample_reco_cov' in g:
                for j, n in enumerate(self.names):
                    v = g['sample_reco_cov'][j, j]
                    res[n + '_unc_samples'] = np.sqrt(v), 0., 1e-9
                    res[n + '_sample_reco_bias'] = \
                        g['sample_reco_bias'][j], 0., 1e-9
        if self.circ:
            res['circular_unc'] = a['CircularizedAngularUncertainty'][
                'circular_unc'], 0., 1e-9
        return res


def work(chk, cases):
    icetray.install()
    vlib.stub_git()
    F.install()
    from egenerator.manager.reconstruction import modules
    for c in (p28.GoodnessOfFit, p28.CircularizedAngularUncertainty,
              MarkovChainMonteCarlo, Visualize1DLikelihoodScan):
        setattr(modules, c.__name__, c)
    for c in cases:
        if chk.stop:
            return
        Table(chk, c).run()


def run(chk):
    q = not chk.thorough
    num = 120 if q else 1800
    res = vlib.tlc_all([
        ('FrameReco', p28.cfg(INV, MaxPar=2, MaxSeeds=2, MaxFrames=1,
                              Range=1, Small='TRUE'), dict(timeout=800)),
        ('FrameReco', p28.cfg(INV + ('Emit',), MaxPar=5, MaxSeeds=3,
                              MaxFrames=4, Range=6, Small='FALSE'),
         dict(workers=1, extra=['-simulate', 'num=%d' % num, '-depth', '60',
                                '-seed', str(chk.seed + 7000)]))])
    for r in res:
        chk.add_tlc(r, 'FrameReco')
        if r.violated or not r.ok:
            raise vlib.MachineryError(r.error_trace())
    cases = list(res[1].json_prints('case'))
    if len(cases) < 40:
        raise vlib.MachineryError('too few behaviours')
    chk.sample(cases[0])
    vlib.parallel(chk, work, cases)
    chk.assumptions += [
        'batches of one event; optimizers report the points given by the '
        'specification; goodness of fit, circularised uncertainty, Markov '
        'chains and scans give prepared results']
