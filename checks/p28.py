"""P28: reconstruction results reach the frame."""
import math

import numpy as np

import fit as F
import icetray
import vlib

LEVEL = 'model_checking'
INV = ('Least', 'Consistent', 'Symmetric', 'Curved', 'NoMemory', 'InOrder')
KEYS = ['x', 'y', 'z', 'energy', 'time', 'length', 'speed']
MODELS = ['m1', 'm2']


def cfg(inv, **c):
    return 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + ''.join(
        'INVARIANT %s\n' % i for i in inv) + ''.join(
        'CONSTANT %s = %s\n' % x for x in c.items())


def close(a, b, size=1., tol=1e-9):
    return abs(float(a) - float(b)) <= tol * (size + abs(float(b)))


def plain(x):
    """All values in a frame."""
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    return plain(vars(x)) if hasattr(x, '__dict__') else repr(x)


class StandIn:
    """A reconstruction module that gives what it is told to give."""
    made, answers = [], []

    def __init__(self, manager, loss_module, function_cache, **kw):
        self.manager, self.loss_module, self.kw = manager, loss_module, kw
        self.name, self.seen = type(self).__name__, None
        StandIn.made.append(self)

    def execute(self, data_batch, results):
        self.seen = data_batch, dict(results)
        return dict(StandIn.answers[0][self.name])


class GoodnessOfFit(StandIn):
    pass


class CircularizedAngularUncertainty(StandIn):
    pass


class Stream:
    """A behaviour of FrameReco."""

    def __init__(self, chk, case):
        self.chk, self.case, self.rng = chk, case, chk.rng
        r, c = self.rng, case['cfg']
        self.c, self.n = c, len(c['log'])
        self.seeds = r.sample(['a_seed', 'seed_b', 'x_seed', 'z', 'Seed'],
                              c['ns'])
        names = ['zen', 'azi', 'x', 'e', 'q'][:self.n]
        r.shuffle(names)
        self.names = names
        self.mapping = {}
        if self.n > 1 and r.random() < .6:
            self.mapping = {'zenith': 'zen', 'azimuth': 'azi'}
            free = [n for n in names if n not in ('zen', 'azi')]
            for key, n in zip(r.sample(KEYS, len(free)), free):
                self.mapping[key] = n
            items = list(self.mapping.items())
            r.shuffle(items)
            self.mapping = dict(items)
        self.full = all(c['fit'])
        self.cov = r.random() < (.6 if self.full else .06)
        self.gof = r.random() < .35
        self.circ = bool(self.mapping) and r.random() < .35
        self.interface = r.choice(['scipy'] * 3 + ['tfp', 'tfp', 'shog',
                                                   'spherical_opt'])
        if self.interface == 'spherical_opt' and not c['trafo'] and \
                not self.mapping:
            self.interface = 'scipy'
        if self.interface == 'shog' and not c['trafo']:
            self.interface = 'tfp'
        self.gof_settings = {
            'num_samples': r.randrange(1, 9),
            'reconstruct_samples': r.random() < .6,
            'add_per_dom_calculation': r.random() < .5,
            'scipy_optimizer_settings': {'method': 'G'}}
        if r.random() < .2:
            # the default of both is to be calculated
            self.gof_settings.pop('reconstruct_samples')
            self.gof_settings.pop('add_per_dom_calculation')
        self.out = r.choice(['Out', 'EventGenerator', 'o_1'])

    def bad(self, what, **more):
        info = dict(more, what=what, case=self.case, names=self.names,
                    seeds=self.seeds, interface=self.interface, cov=self.cov,
                    gof=self.gof and self.gof_settings, circ=self.circ,
                    mapping=self.mapping)
        self.chk.violation('frames:' + what, info, info)
        return False

    def setup(self):
        from egenerator.ic3.reconstruction import EventGeneratorReconstruction
        r, c = self.rng, self.c
        self.man, self.loss = F.manager(
            {'log': c['log'], 'mu': c['mu'], 'sg': c['sg'],
             'members': [c['a']], 'c': c['c'], 'q': c['q']},
            self.names, seeds=sorted(self.seeds),
            mapping={'I3ParticleMapping': self.mapping}
            if self.mapping else {})
        calls = icetray.use_manager(self.man, self.loss)
        StandIn.made = []
        fit, default = {}, r.random() < .5
        for n, f in zip(self.names, c['fit']):
            if f != default or r.random() < .3:
                fit[n] = f
        models = MODELS[:r.randrange(1, 3)]
        base = r.choice([None, '/base'])
        settings = {'method': 'L-BFGS-B', 'options': {'maxiter': 7}} \
            if self.interface != 'shog' else {'method': 'BFGS'}
        self.module = icetray.module(
            EventGeneratorReconstruction,
            seed_keys=self.seeds[0]
            if len(self.seeds) == 1 and r.random() < .5 else self.seeds,
            model_names=models[0] if len(models) == 1 and r.random() < .5
            else models, model_base_dir=base, output_key=self.out,
            pulse_key='Pulses', dom_exclusions_key='Bad',
            time_exclusions_key='Windows', label_key='L', snowstorm_key='S',
            add_circular_err=self.circ, add_covariances=self.cov,
            add_goodness_of_fit=self.gof, num_threads=3,
            minimize_in_trafo_space=c['trafo'],
            minimize_parameter_default_value=default,
            minimize_parameter_dict=fit,
            reco_optimizer_interface=self.interface,
            scipy_optimizer_settings=settings,
            tf_optimizer_settings={'method': 'bfgs_minimize',
                                   'x_tolerance': .25},
            goodness_of_fit_settings=dict(self.gof_settings))
        r = vlib.observe(self.module.Configure)
        if self.cov and not self.full:
            self.chk.count('refused')
            if r[0] == 'ok':
                self.bad('covariance of some parameters accepted')
            return False
        if r[0] != 'ok':
            return self.bad('module not configured', outcome=r)
        if len(calls) != 1:
            return self.bad('number of managers', calls=calls)
        got = calls[0]
        dirs = ['/base/' + m if base else m for m in models]
        misc, data = [dict(got.get(k) or {}) for k in (
            'misc_setting_updates', 'data_setting_updates')]
        want = {'pulse_key': 'Pulses', 'dom_exclusions_key': 'Bad',
                'time_exclusions_key': 'Windows'}
        if list(got['manager_dirs']) != dirs or data != want or \
                list(misc.pop('seed_names', [])) != self.seeds or misc or \
                got['num_threads'] != 3 or got['load_labels']:
            return self.bad('model and settings that are loaded', got=got,
                            want=(dirs, want))
        return self.stand_ins()

    def stand_ins(self):
        """What the further modules are set up with."""
        made = {m.name: m for m in StandIn.made}
        want = [k for k, f in (('GoodnessOfFit', self.gof), (
            'CircularizedAngularUncertainty', self.circ)) if f]
        if sorted(made) != sorted(want) or len(StandIn.made) != len(want):
            return self.bad('further modules', got=sorted(made))
        for name, m in made.items():
            kw = dict(m.kw)
            checks = [
                (list(kw.pop('fit_paramater_list')), list(self.c['fit'])),
                (kw.pop('reco_key'), 'reco'),
                (kw.pop('covariance_key', None),
                 'covariance' if self.cov else None),
                (kw.pop('minimize_in_trafo_space'), self.c['trafo']),
                (kw.pop('parameter_tensor_name', 'x_parameters'),
                 'x_parameters'),
                (m.manager, self.man), (m.loss_module, self.loss)]
            if name == 'GoodnessOfFit':
                s = dict({'reconstruct_samples': True,
                          'add_per_dom_calculation': True},
                         **self.gof_settings)
                checks += [(kw.get(k), v) for k, v in s.items()]
            for got, x in checks:
                if got is not x and got != x:
                    return self.bad('settings of %s' % name, got=got, want=x)
        return True

    def answers(self):
        """Results of the modules that are not run here."""
        g = np.random.RandomState(self.rng.randrange(10**6))
        s = self.gof_settings
        gof = {k: np.float64(g.uniform(-9, 9)) for k in (
            'event_p_value_1sided', 'event_p_value_2sided',
            'loss_sample_min', 'loss_sample_max', 'loss_sample_mean',
            'loss_sample_median', 'loss_sample_std', 'loss_data_fit')}
        gof['num_samples'] = s['num_samples']
        gof['sampled_hypotheses'] = g.uniform(size=(3, self.n))
        if s.get('add_per_dom_calculation', True):
            gof['dom_p_value1'] = g.uniform(size=(86, 60))
            gof['dom_p_value2'] = g.uniform(size=(86, 60))
        if s.get('reconstruct_samples', True):
            m = g.uniform(size=(self.n, self.n))
            gof['sample_recos'] = g.uniform(size=(3, self.n))
            gof['sample_reco_bias'] = g.uniform(size=self.n)
            gof['sample_reco_cov'] = m + m.T
        return {'GoodnessOfFit': gof, 'CircularizedAngularUncertainty': {
            'circular_unc': np.float64(g.uniform()),
            'circular_unc_deg': np.float64(g.uniform()),
            'delta_psi': g.uniform(size=4), 'delta_loss': g.uniform(size=4)}}

    def run(self):
        import tensorflow as tf
        c = self.c
        if not self.setup():
            self.chk.traces()
            return
        F.ENV.reset([[0.] * sum(c['fit'])], 0)
        before = []
        for f in self.case['frames']:
            values = {'x_parameters': np.full([1, self.n], 5.5),
                      'x_data': np.array([[f['data']]], 'int32')}
            for name, h in zip(self.seeds, f['seeds']):
                values[name] = F.real(c, [h])
            arrays = [values[k] for k in self.man.data_handler.tensors.names]
            self.batch = tuple(tf.constant(a) for a in arrays)
            space = 'trafo' if c['trafo'] else 'real'
            F.ENV.calls, F.ENV.told = [], []
            F.ENV.queue = [([self.coords(space, p['x'])], 0)
                           for p in f['fits']]
            F.ENV.flags = [p['ok'] for p in f['fits']]
            StandIn.answers[:] = [self.answers()]
            frame = {'event': f['data']}
            asked = []

            def get_data_from_frame(fr, *a, **k):
                asked.append(fr)
                return 1, self.batch
            self.man.data_handler.get_data_from_frame = get_data_from_frame
            self.module.pushed.clear()
            r = vlib.observe(self.module.Physics, frame)
            self.chk.traces()
            self.chk.count('frames_' + self.interface)
            if r[0] != 'ok':
                return self.bad('frame not processed', outcome=r, event=f)
            if F.ENV.queue or len(F.ENV.calls) != c['ns']:
                return self.bad('number of fits', left=len(F.ENV.queue))
            if len(asked) != 1 or asked[0] is not frame:
                return self.bad('data of the frame not read once')
            if len(self.module.pushed) != 1 or \
                    self.module.pushed[0] is not frame:
                return self.bad('frame not pushed once')
            if not self.written(f, frame, space):
                return
            before.append((frame, plain(frame)))
        for frame, was in before:
            if plain(frame) != was:
                return self.bad('an earlier frame was changed',
                                frame=plain(frame), was=was)

    def coords(self, space, x):
        return np.array([F.coord(self.c, space, j, m)
                         for j, (m, f) in enumerate(zip(x, self.c['fit']))
                         if f])

    def written(self, f, frame, space):
        c, got = self.c, frame.get(self.out)
        if not isinstance(got, dict):
            return self.bad('no results in the frame', event=f)
        h = F.real(c, [f['result']])[0]
        want = dict(zip(self.names, h))
        want['loss_reco'], want['loss_seed'] = f['loss'], f['loss_seed']
        want['minimization_success'] = float(f['ok'])
        size = {k: 1. for k in want}
        # the loss is a sum of numbers of both signs
        for k, m in (('loss_reco', h), ('loss_seed', F.real(
                c, [f['seeds'][f['best'] - 1]])[0])):
            size[k] = (np.abs(m * c['a']).sum() + abs(f['data']))**2 + \
                np.abs(m * c['c']).sum() + (m * m * c['q']).sum()
        a = StandIn.answers[0]
        gof, circ = a['GoodnessOfFit'], a['CircularizedAngularUncertainty']
        cov = {}
        if self.gof:
            for k, n in (
                    ('goodness_of_fit_1sided', 'event_p_value_1sided'),
                    ('goodness_of_fit_2sided', 'event_p_value_2sided'),
                    ('goodness_loss_sample_min', 'loss_sample_min'),
                    ('goodness_loss_sample_max', 'loss_sample_max'),
                    ('goodness_loss_sample_mean', 'loss_sample_mean'),
                    ('goodness_loss_sample_median', 'loss_sample_median'),
                    ('goodness_loss_sample_std', 'loss_sample_std'),
                    ('goodness_loss_data_fit', 'loss_data_fit')):
                want[k] = gof[n]
            if 'sample_reco_bias' in gof:
                cov['goodness_of_fit'] = gof['sample_reco_cov']
                for n, v in zip(self.names, gof['sample_reco_bias']):
                    want[n + '_sample_reco_bias'] = v
        if self.circ:
            want['circular_unc'] = circ['circular_unc']
        for k, v in want.items():
            if k not in got or not close(got[k], v, size.get(k, 1.)):
                return self.bad('value in the frame: ' + (
                    k if k not in self.names else 'parameter'), key=k,
                    got=got.get(k), want=v, event=f)
        runtimes = ['reco_' + s for s in self.seeds] + ['reco'] + [
            n for n, x in (('covariance', self.cov),
                           ('GoodnessOfFit', self.gof),
                           ('CircularizedAngularUncertainty', self.circ))
            if x]
        for n in runtimes:
            t = got.get('runtime_' + n)
            if t is None or not 0 <= float(t) < 1e4:
                return self.bad('run time', module=n, got=t)
        if self.cov:
            m = self.covariances(f, space)
            if m is None:
                self.chk.count('singular')
            cov.update(m or {})
        for name, m in cov.items():
            d = frame.get('%s_cov_matrix_%s' % (self.out, name))
            if not isinstance(d, dict):
                return self.bad('covariance not in the frame', name=name)
            top = np.abs(m).max()
            for i in range(self.n):
                for j in range(i, self.n):
                    key = '_'.join(
                        ('log_' if c['log'][k] else '') + self.names[k]
                        for k in (i, j))
                    if key not in d or abs(d[key] - m[i][j]) > 1e-6 * top:
                        return self.bad('covariance %s' % name, key=key,
                                        got=d.get(key), want=m[i][j],
                                        event=f)
        if self.gof and 'dom_p_value1' in gof:
            for k, m in (('1', gof['dom_p_value1']),
                         ('2', gof['dom_p_value2'])):
                d = frame.get('%s_GoodnessOfFit_%ssided' % (self.out, k), {})
                w = {icetray.OMKey(s + 1, o + 1): m[s, o]
                     for s in range(86) for o in range(60)}
                if dict(d) != w:
                    return self.bad('p-values of the DOMs', side=k)
        for m in StandIn.made:
            b, res = m.seen
            if len(b) != len(self.batch) or any(
                    not np.array_equal(x, y) for x, y in zip(b, self.batch)):
                return self.bad('data given to %s' % m.name)
            if not np.allclose(res['reco']['result'], [h], rtol=1e-9,
                               atol=1e-9) or \
                    ('covariance' in res) != self.cov:
                return self.bad('results given to %s' % m.name)
        return self.particle(frame, want)

    def particle(self, frame, want):
        p = frame.get(self.out + '_I3Particle')
        if not self.mapping:
            return True if p is None else self.bad('particle not asked for')
        if p is None:
            return self.bad('no particle in the frame')
        for key, n in self.mapping.items():
            v = getattr(p.pos, key) if key in 'xyz' else \
                getattr(p.dir, key) if key in ('zenith', 'azimuth') else \
                getattr(p, key, None)
            if v is None or not close(v, want[n]):
                return self.bad('particle', key=key, got=v, want=want[n])
        return True

    def covariances(self, f, space):
        c = self.c
        unit = F.scale(c, space, [True] * self.n)
        hess = np.array(f['hess'], float) * np.outer(unit, unit)
        if abs(np.linalg.det(hess)) < 1e-9 or np.linalg.cond(hess) > 1e7:
            return None
        g = np.array(f['grad'], float) * unit[:, None]
        opg = g.dot(g.T)
        inv = np.linalg.inv(hess)
        back = np.ones(self.n)
        if space == 'trafo':
            back = np.array(c['sg']) * np.where(c['log'], F.LN2, 1.)
        back = np.outer(back, back)
        res = {'cov_trafo': inv, 'cov_sand_trafo': inv.dot(opg).dot(inv)}
        if self.interface == 'scipy':
            two = 2 * np.eye(self.n)
            res['cov_fit_trafo'] = two
            res['cov_sand_fit_trafo'] = two.dot(opg).dot(two)
        for k in list(res):
            res[k[:-len('_trafo')]] = res[k] * back
        return res


class Uncertainty:
    """Circularised uncertainty of a likelihood of known width."""

    def __init__(self, chk):
        self.chk = chk

    def directions(self):
        """New directions have the given angle to the old one."""
        from egenerator.utils import angles
        chk, r = self.chk, self.chk.rng
        rotate = getattr(angles.get_delta_psi_vector, 'real',
                         angles.get_delta_psi_vector)
        for i in range(300):
            k = r.choice([1, 1, 2, 10])
            zen = np.array([r.choice([0., np.pi, np.pi / 2,
                                      r.uniform(0, np.pi)])])
            azi = np.array([r.choice([0., r.uniform(-7, 7)])])
            psi = [r.choice([0., 1e-3, 89.9, r.uniform(0, 89.9)])
                   for _ in range(k)]
            deg = r.random() < .7
            res = vlib.observe(
                rotate, zenith=zen, azimuth=azi,
                delta_psi=psi if deg else np.deg2rad(psi), is_degree=deg,
                random_service=np.random.RandomState(i),
                randomize_for_each_delta_psi=r.random() < .6)
            chk.traces()
            info = {'zenith': zen.tolist(), 'azimuth': azi.tolist(),
                    'angles': psi, 'got': res}
            if res[0] != 'ok':
                chk.violation('directions:refused', info, info)
                return
            z, a = np.ravel(res[1][0]), np.ravel(res[1][1])
            if z.shape != (k,) or a.shape != (k,):
                chk.violation('directions:number', info, info)
                return
            v = np.stack([np.sin(z) * np.cos(a), np.sin(z) * np.sin(a),
                          np.cos(z)], axis=1)
            o = np.array([np.sin(zen[0]) * np.cos(azi[0]),
                          np.sin(zen[0]) * np.sin(azi[0]), np.cos(zen[0])])
            got = np.rad2deg(np.arctan2(np.linalg.norm(np.cross(v, o), axis=1),
                                        v.dot(o)))
            if np.any(np.abs(got - psi) > 1e-4):
                chk.violation('directions:angle', dict(info, angle=got), info)
                return

    def closest(self, psi, loss, dof):
        """Width of which the coverage is closest to Wilks' theorem."""
        from scipy.stats import chi2
        target = chi2(dof).cdf(2 * loss)
        s = np.exp(np.linspace(np.log(psi[-1]) - 5, np.log(psi[-1]) + 5,
                               20001))[:, None]
        cost = ((1 - np.exp(-psi**2 / (2 * s**2)) - target)**2).sum(axis=1)
        return s[np.argmin(cost), 0]

    def estimate(self, sigma, best, cov, trafo, seed):
        """The loss is a parabola of the angle to the best direction."""
        import types
        import tensorflow as tf
        from egenerator.manager.reconstruction.modules import opening_angle
        chk = self.chk
        names = ['zen', 'e', 'azi', 'x', 'y', 'z', 't'][:len(best)]
        others = [i for i in range(len(best)) if names[i] not in (
            'zen', 'azi')]
        o = F.direction(best[0], best[2])

        def angle(p):
            return np.rad2deg(np.arctan2(
                np.linalg.norm(np.cross(F.direction(p[0], p[2]), o)),
                F.direction(p[0], p[2]).dot(o)))
        fits, losses = [], []
        # the optimizer may work in other coordinates
        unit = np.array([2., 3., .5, 4., 1., 1.5, 2.])[:len(best)]
        if not trafo:
            unit = np.ones(len(best))

        def loss(p):
            return (angle(p) / sigma)**2 / 2 + 3. + sum(
                (p[i] - best[i])**2 for i in others)

        spaces = []

        def function(kw):
            spaces.append(kw['minimize_in_trafo_space'])
            mask = kw['fit_paramater_list']

            def f(parameters_trafo, data_batch, seed):
                p = np.array(seed, float)[0]
                mask_ = np.array(mask)
                p[mask_] = np.array(parameters_trafo, float)[0] / unit[mask_]
                losses.append(p)
                return tf.constant(loss(p), tf.float64)
            return f

        class Cache:
            def get(self, *a):
                return None

            def add(self, *a):
                pass

        def reconstruct_events(data_batch, loss_module, seed=None,
                               fit_paramater_list=None, **kw):
            s = np.array(seed, float)
            fits.append(s[0])
            # the fit finds the best values of the others
            x = (np.array([best]) * unit)[:, np.array(fit_paramater_list)]
            spaces.append(kw.get('minimize_in_trafo_space'))
            return x, types.SimpleNamespace(success=True)
        man = types.SimpleNamespace(
            configuration=types.SimpleNamespace(config={'config': {
                'I3ParticleMapping': {'zenith': 'zen', 'azimuth': 'azi'}}}),
            models=[types.SimpleNamespace(get_index=names.index)],
            data_trafo=types.SimpleNamespace(data={'tensors': {
                'x_parameters': types.SimpleNamespace(dtype='float64')}}),
            data_handler=types.SimpleNamespace(
                get_data_set_signature=lambda: (tf.TensorSpec(None),)),
            get_parameter_loss_function=lambda **kw: function(kw),
            get_loss_and_gradients_function=lambda **kw: None,
            reconstruct_events=reconstruct_events)

        def do(s):
            m = opening_angle.CircularizedAngularUncertainty(
                man, None, Cache(), [True] * len(best), 'reco',
                covariance_key='cov' if cov else None,
                minimize_in_trafo_space=trafo, random_seed=s)
            c = np.eye(len(best))
            c[0, 0] = cov
            c[2, 2] = cov / max(np.sin(best[0]), 1e-3)**2
            b = np.array([best], float)
            given.update(reco={'result': b, 'result_trafo': b * unit},
                         cov={'cov_sand': c})
            return m.execute((tf.constant([0.]),), given)
        given = {}
        r = vlib.observe(do, seed)
        chk.traces()
        info = {'sigma': sigma, 'best': best, 'cov': cov, 'outcome': r}
        if r[0] != 'ok':
            chk.violation('uncertainty:failed', info, info)
            return
        r = r[1]
        if set(spaces) != {trafo}:
            chk.violation('uncertainty:space of the fits', dict(
                info, spaces=spaces), info)
            return
        if not np.array_equal(given['reco']['result'], [best]) or \
                not np.array_equal(given['reco']['result_trafo'],
                                   np.array([best]) * unit):
            chk.violation('uncertainty:best fit was changed', dict(
                info, given=given), info)
            return
        for p in fits:
            if any(not close(p[i], best[i]) for i in others):
                chk.violation('uncertainty:seed of a fit', dict(
                    info, seed=p), info)
                return
        psi = np.array(r['delta_psi'], float)
        want = (psi / sigma)**2 / 2
        if np.any(np.abs(np.ravel(r['delta_loss']) - want)
                  > 1e-6 * (1 + want)):
            chk.violation('uncertainty:loss differences', dict(
                info, want=want), info)
            return
        deg = float(r['circular_unc_deg'])
        if len(best) == 4:
            # two degrees of freedom: exactly the width
            expected = sigma
        else:
            expected = self.closest(psi, want, len(best) - 2)
        if not abs(deg / expected - 1.) < .02:
            chk.violation('uncertainty:width of the likelihood', dict(
                info, got=deg), info)
        elif not close(r['circular_unc'], math.radians(deg)):
            chk.violation('uncertainty:units', info, info)


def work(chk, cases):
    icetray.install()
    vlib.stub_git()
    F.install()
    from egenerator.manager.reconstruction import modules
    for c in (GoodnessOfFit, CircularizedAngularUncertainty):
        setattr(modules, c.__name__, c)
    for c in cases:
        if chk.stop:
            return
        Stream(chk, c).run()


def uncertainties(chk):
    icetray.install()
    vlib.stub_git()
    u = Uncertainty(chk)
    u.directions()
    r = chk.rng
    for i in range(250 if chk.thorough else 40):
        if chk.stop:
            return
        s = r.choice([10**r.uniform(-.9, 1.75), r.uniform(20, 60)])
        best = [r.choice([r.uniform(.05, 3.1), .01, np.pi / 2]),
                r.uniform(0, 9), r.uniform(0, 6.28)]
        best += [r.uniform(-5, 5) for _ in range(r.choice([0, 1, 1, 2, 4]))]
        # the covariance may be off by a factor
        f = r.choice([1., r.uniform(.5, 1.6)])
        cov = 0. if s > 3. and r.random() < .4 else np.deg2rad(s * f)**2
        u.estimate(s, best, cov, r.random() < .5, r.randrange(1000))


def run(chk):
    q = not chk.thorough
    num = 90 if q else 1500
    res = vlib.tlc_all([
        ('FrameReco', cfg(INV, MaxPar=2, MaxSeeds=2 if q else 3, MaxFrames=1,
                          Range=1, Small='TRUE'), dict(timeout=800)),
        ('FrameReco', cfg(INV + ('Emit',), MaxPar=5, MaxSeeds=3, MaxFrames=4,
                          Range=6, Small='FALSE'),
         dict(workers=1, extra=['-simulate', 'num=%d' % num, '-depth', '60',
                                '-seed', str(chk.seed)]))])
    for r in res:
        chk.add_tlc(r, 'FrameReco')
        if r.violated or not r.ok:
            raise vlib.MachineryError(r.error_trace())
    cases = list(res[1].json_prints('case'))
    if len(cases) < 40:
        raise vlib.MachineryError('too few behaviours')
    chk.sample(cases[0])
    k = 5
    vlib.parallel(chk, lambda c, items: [
        work(c, item) if item else uncertainties(c) for item in items],
        [None] + [cases[i::k] for i in range(k)], procs=6)
    chk.assumptions += [
        'IceTray classes and the data of a frame are replaced by stand-ins',
        'optimizers report the points given by the specification; goodness '
        'of fit (P27) and circularised uncertainty give prepared results '
        'while frames are written']
