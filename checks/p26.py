"""P26: simulation of the light sources of events."""
import types

import numpy as np

import icetray
import vlib

LEVEL = 'model_checking'
PARTICLE = ['x', 'y', 'z', 'zenith', 'azimuth', 'energy', 'time']
OTHER = ['Absorption', 'AnisotropyScale', 'DOMEfficiency', 'Scattering']
WALK = ('OnceEach', 'OnlySources', 'Complete', 'NotSilent', 'Disjoint',
        'Terminates')
DRAW = ('OnePulseEach', 'NothingElse', 'InOrder', 'Confluent')
KEY = 'Simulated'
FAINT = 1e-12


def cfg(inv, **c):
    return 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + ''.join(
        'INVARIANT %s\n' % i for i in inv) + ''.join(
        'CONSTANT %s = %s\n' % x for x in c.items())


class Rng(np.random.RandomState):
    """Random numbers; the numbers of photo electrons may be given."""
    given = None        # (sorted expected values, numbers)
    used = 0

    def negative_binomial(self, n, p, size=None):
        if self.given is None:
            return super().negative_binomial(n, p, size=size)
        n, p = np.broadcast_arrays(np.asarray(n, float), np.asarray(p, float))
        self.used += 1
        with np.errstate(all='ignore'):
            mean = np.nan_to_num(n * (1. - p) / p)
        mu, num = self.given
        k = np.clip(np.searchsorted(mu, mean.ravel()), 1, len(mu) - 1)
        k -= mean.ravel() - mu[k - 1] < mu[k] - mean.ravel()
        return num[k].reshape(mean.shape)


class Manager:
    """A model whose prediction is given and whose questions are recorded."""

    def __init__(self, names, tensors=None, dtype='float32'):
        self.names, self.tensors, self.asked = list(names), tensors, []
        model = types.SimpleNamespace(
            num_variables=(0, 0), parameter_names=list(names),
            num_parameters=len(names), get_index=self.names.index,
            get_name=lambda i: self.names[i])
        self.models = [model]
        self.data_trafo = types.SimpleNamespace(data={'tensors': {
            'x_parameters': types.SimpleNamespace(
                dtype=dtype, trafo_log=[False] * len(names))}})
        model.data_trafo = self.data_trafo

    def get_model_tensors_function(self, model_index=0):
        import tensorflow as tf

        def model_tensors_function(parameters):
            self.asked.append(np.array(parameters))
            return {k: tf.constant(v) for k, v in
                    self.tensors(len(self.asked[-1])).items()}
        return model_tensors_function


def nothing(n):
    """The prediction of n sources without light."""
    one = np.ones((n, 86, 60, 2), np.float32)
    return dict(dom_charges=one[..., :1] * FAINT,
                dom_charges_variance=one[..., :1] * 1.01 * FAINT,
                latent_var_mu=one, latent_var_sigma=one * 1e-6,
                latent_var_r=one, latent_var_scale=one / 2)


class Simulation:

    def __init__(self, chk, names, tensors, rng, **parameters):
        from egenerator.ic3.simulation import EventGeneratorSimulation
        self.chk = chk
        self.manager = Manager(names, tensors)
        self.calls = icetray.use_manager(self.manager)
        self.module = icetray.module(
            EventGeneratorSimulation, model_name='m', model_base_dir='/b',
            output_key=KEY, random_service=rng, **parameters)
        self.configured = vlib.observe(self.module.Configure)

    def __call__(self, frame):
        self.manager.asked.clear()
        self.module.pushed.clear()
        return vlib.observe(self.module.DAQ, frame)


class Trees:
    """Behaviours of ParticleTree replayed with the module."""

    def __init__(self, chk):
        self.chk, self.rng = chk, chk.rng
        self.sims, self.n = [], 0

    def simulation(self):
        """Some modules with different parameters, used in turns."""
        r = self.rng
        if len(self.sims) < 5:
            defaults = r.sample(OTHER, r.randrange(1, 5))
            if r.random() < .4:
                defaults.append(r.choice(['time', 'energy', 'z']))
            names = [n for n in PARTICLE + OTHER
                     if n in PARTICLE or n in defaults]
            r.shuffle(names)
            values = {n: r.choice([1., .5, 7.25, 'Key' + n])
                      for n in defaults}
            s = Simulation(
                self.chk, names, nothing, np.random.RandomState(3),
                default_values=dict(values), mc_tree_name='Tree',
                max_simulation_distance=1000., min_simulation_energy=64.)
            s.values = values
            self.sims.append(s)
            return s
        return r.choice(self.sims)

    def particle(self, kind, sight):
        r = self.rng
        energy = r.choice([64., 64.5, 1e4]) if sight != 'soft' else \
            r.choice([0., 1., 63.75])
        length = r.choice([0., 0., 250.])
        far = 1000. + length
        if sight == 'far':
            d = r.choice([far + .25, far + 1000.])
        elif sight == 'soft':
            d = r.choice([10., far + 50.])
        else:
            d = r.choice([far, 10., 700., 0.])
        axis = r.sample([0., r.choice([-1., 1.]) * d, 0.], 3)
        if d and r.random() < .3 and sight != 'seen':
            axis = [.36 * d * 1.01, -.48 * d * 1.01, .8 * d * 1.01]
        return icetray.I3Particle(
            type=r.choice(icetray.KINDS[kind]), energy=energy, length=length,
            pos=icetray.Position(*axis), time=r.uniform(9e3, 11e3),
            dir=icetray.Direction(r.uniform(0, 3), r.uniform(0, 6)))

    def row(self, sim, p, frame):
        res = []
        for n in sim.manager.names:
            if n in sim.values:
                v = sim.values[n]
                res.append(frame[v].value if isinstance(v, str) else v)
            elif n in 'xyz':
                res.append(getattr(p.pos, n))
            elif n in ('zenith', 'azimuth'):
                res.append(getattr(p.dir, n))
            else:
                res.append(getattr(p, n))
        return res

    def replay(self, case):
        chk = self.chk
        sim = self.simulation()
        if sim.configured[0] != 'ok':
            chk.violation('tree:configure', sim.configured, sim.values)
            return
        parts = [self.particle(k, s)
                 for k, s in zip(case['kind'], case['sight'])]
        frame = {v: icetray.Double(self.rng.uniform(0, 2))
                 for v in sim.values.values() if isinstance(v, str)}
        frame['Tree'] = icetray.Tree(parts, case['parent'])
        r = sim(frame)
        chk.traces()
        info = {'case': case, 'outcome': r, 'defaults': sim.values}

        def bad(what):
            chk.violation('tree:' + what, dict(info, what=what), info)
        if case['status'] == 'refused':
            if r[0] == 'ok' or sim.module.pushed:
                bad('particle without simulated light accepted silently')
            return
        if r[0] != 'ok':
            return bad('event not simulated')
        if len(sim.module.pushed) != 1 or \
                sim.module.pushed[0] is not frame or KEY not in frame:
            return bad('frame not pushed once with its pulses')
        rows = [x for a in sim.manager.asked for x in a.tolist()]
        want = np.array([self.row(sim, parts[i - 1], frame)
                         for i in case['found']], np.float32)
        info['sources'] = (rows, want.tolist())
        if len(rows) != len(want):
            return bad('wrong number of light sources')
        if not np.array_equal(np.array(rows, np.float32).reshape(want.shape),
                              want):
            return bad('light sources are not those of the tree')
        if frame[KEY]:
            return bad('pulses without light')


def place(rng, n):
    """n different DOMs, among them the first and the last one."""
    res = [(0, 0), (85, 59), (0, 59), (85, 0)]
    while len(res) < n + 4:
        d = (rng.randrange(86), rng.randrange(60))
        if d not in res:
            res.append(d)
    rng.shuffle(res)
    return res[:n]


def cascade(time, energy=1e4):
    return icetray.I3Particle(type='EMinus', energy=energy, length=0.,
                              time=time)


class Draws:
    """Behaviours of PulseSampling replayed with the module."""

    def __init__(self, chk):
        self.chk, self.rng = chk, chk.rng
        self.random = Rng(chk.seed)
        self.names = list(PARTICLE)
        self.rng.shuffle(self.names)
        self.sim = Simulation(chk, self.names, None, self.random,
                              default_values={}, mc_tree_name='Tree')

    def replay(self, case):
        chk, rng, num = self.chk, self.rng, case['num']
        doms = place(rng, len(case['series']))
        k = len(case['delay'][0][0]) if num else 2
        t = {key: np.array(v) for key, v in nothing(num).items()}
        for key in ('latent_var_mu', 'latent_var_sigma', 'latent_var_r',
                    'latent_var_scale'):
            t[key] = np.ones((num, 86, 60, k), np.float32)
        t['latent_var_mu'] *= 50
        t['latent_var_sigma'] *= 1e-6
        t['latent_var_scale'] /= k
        numbers = {}
        for s in range(num):
            for d, dom in enumerate(doms):
                at = (s,) + dom
                mu = 1. + .25 * (s + num * d)
                numbers[mu] = case['pe'][s][d]
                t['dom_charges'][at] = mu
                t['dom_charges_variance'][at] = mu + .25 * mu**2
                t['latent_var_mu'][at] = case['delay'][s][d]
                t['latent_var_scale'][at] = 0
                t['latent_var_scale'][at][case['comp'][s][d] - 1] = 1
        mus = np.array([0., .01] + sorted(numbers))
        self.random.given = (mus, np.array(
            [0, 0] + [numbers[m] for m in sorted(numbers)]))
        self.random.used = 0
        self.sim.manager.tensors = lambda n: t
        parts = [cascade(1000. * case['time'][s]) for s in range(num)]
        frame = {'Tree': icetray.Tree(parts, [0] * num)}
        r = self.sim(frame)
        self.random.given = None
        chk.traces()
        info = {'case': case, 'doms': doms, 'outcome': r}

        def bad(what, **more):
            info.update(more)
            chk.violation('pulses:' + what, dict(info, what=what), info)
        if r[0] != 'ok':
            return bad('event not simulated')
        got = frame[KEY]
        where = {icetray.OMKey(d[0] + 1, d[1] + 1): case['series'][i]
                 for i, d in enumerate(doms)}
        if not self.random.used and num:
            chk.count('uncontrolled')
            return
        if {tuple(x) for x in got} != {
                tuple(x) for x in where if where[x]}:
            return bad('DOMs with pulses', got=sorted(map(tuple, got)),
                       want=[x for x in where if where[x]])
        for key, series in where.items():
            if not series:
                continue
            times = [p.time for p in got[key]]
            charges = [p.charge for p in got[key]]
            if len(times) != len(series):
                return bad('number of pulses', dom=key, got=times)
            if not np.allclose(times, 1000. * np.array(series), rtol=0,
                               atol=.1):
                return bad('times of pulses', dom=key, got=times,
                           want=series)
            if any(b < a for a, b in zip(times, times[1:])):
                return bad('order of pulses', dom=key, got=times)
            if min(charges) <= 0 or abs(sum(charges) - len(series)) > 1e-6:
                return bad('charge of pulses', dom=key, got=charges)


def light(pulses):
    q = np.zeros((86, 60))
    for key, series in pulses.items():
        q[key.string - 1, key.om - 1] = sum(p.charge for p in series)
    return q


class Statistics:
    """Free draws: numbers and times follow the prediction of the model."""

    def __init__(self, chk):
        self.chk = chk

    def event(self, tensors, times, seed):
        n = len(times)
        sim = Simulation(self.chk, PARTICLE, lambda _: tensors, seed,
                         default_values={}, mc_tree_name='Tree')
        frame = {'Tree': icetray.Tree([cascade(t) for t in times], [0] * n)}
        r = sim(frame)
        return r, frame.get(KEY)

    def bright(self, mu, alpha, seed):
        """Only some DOMs have light."""
        t, k = nothing(1), 400
        var = mu + alpha * mu * mu
        g = np.random.RandomState(seed)
        lit = np.unravel_index(g.choice(86 * 60, k, replace=False), (86, 60))
        t['dom_charges'][0][lit] = mu
        t['dom_charges_variance'][0][lit] = var
        r, pulses = self.event(t, [9000.], seed)
        self.chk.traces()
        info = {'mean': mu, 'variance': var, 'doms': k, 'outcome': r}
        if r[0] != 'ok':
            self.chk.violation('light:event not simulated', info, info)
            return
        q = light(pulses)[lit]
        m, v = float(q.mean()), float(q.var())
        info.update(found=(m, v))
        # the fourth moment of a negative binomial distribution
        tail = 2. + 6. * alpha + 1. / var
        if abs(m - mu) > 6 * np.sqrt(var / k):
            self.chk.violation('light:amount of light', info, info)
        elif abs(v / var - 1.) > 6 * np.sqrt(tail / k):
            self.chk.violation('light:fluctuation of light', info, info)

    def numbers(self, mu, alpha, n, seed):
        t = nothing(n)
        var = mu + alpha * mu * mu
        t['dom_charges'][:] = mu
        t['dom_charges_variance'][:] = var
        r, pulses = self.event(t, [9000.] * n, seed)
        self.chk.traces()
        info = {'mean': mu, 'variance': var, 'sources': n, 'outcome': r}
        if r[0] != 'ok':
            self.chk.violation('light:event not simulated', info, info)
            return
        q = light(pulses)
        total, want = float(q.sum()), mu * n * q.size
        spread = np.sqrt(var * n * q.size)
        info.update(total=total, expected=want, spread=spread)
        if abs(total - want) > 6 * spread + 3:
            self.chk.violation('light:amount of light', info, info)
        elif mu >= .3:
            v = float(q.var()) / n
            info['found'] = v
            if abs(v / var - 1.) > .2:
                self.chk.violation('light:fluctuation of light', info, info)

    def times(self, seed):
        """Many pulses at some DOMs, from two sources each."""
        from scipy import special
        chk = self.chk
        g = np.random.RandomState(chk.rng.randrange(10**6))
        n, k = 2, 3
        doms = place(chk.rng, 3)
        t = {key: v[..., :1].repeat(k, -1) if 'latent' in key else v
             for key, v in nothing(n).items()}
        t['latent_var_mu'] = g.uniform(.1, 4, (n, 86, 60, k))
        t['latent_var_sigma'] = g.uniform(.05, 2, (n, 86, 60, k))
        t['latent_var_r'] = g.uniform(.3, 6, (n, 86, 60, k))
        scale = g.uniform(.05, 1, (n, 86, 60, k))
        t['latent_var_scale'] = scale / scale.sum(-1, keepdims=True)
        for d in doms:
            mu = g.uniform(2000, 4000, n)
            t['dom_charges'][(slice(None),) + d] = mu[:, None]
            t['dom_charges_variance'][(slice(None),) + d] = \
                mu[:, None] * 1.05
        t = {key: v.astype(np.float32) for key, v in t.items()}
        start = [9000., 11000.]
        r, pulses = self.event(t, start, seed)
        chk.traces()
        info = {'doms': doms, 'outcome': r}
        if r[0] != 'ok':
            chk.violation('light:event not simulated', info, info)
            return
        for d in doms:
            series = pulses.get(icetray.OMKey(d[0] + 1, d[1] + 1), [])
            found = np.array([p.time for p in series])
            mu = t['dom_charges'][(slice(None),) + d][:, 0].astype(float)
            if len(found) < mu.sum() / 2:
                chk.violation('light:pulses missing', dict(
                    info, dom=d, got=len(found), want=mu.sum()), info)
                return
            share = mu / mu.sum()
            for x in np.linspace(7000., 20000., 40):
                p = 0.
                for s in range(n):
                    for c in range(k):
                        at = (s,) + d + (c,)
                        m, sig, rr, w = [float(t['latent_var_' + q][at])
                                         for q in ('mu', 'sigma', 'r',
                                                   'scale')]
                        u = (x - start[s]) / 1000. - m
                        left = (1 + special.erf(
                            min(u, 0.) / sig / np.sqrt(2))) / (1 + rr)
                        right = rr * special.erf(
                            max(u, 0.) / (sig * rr) / np.sqrt(2)) / (1 + rr)
                        p += share[s] * w * (left + right)
                n_below, total = int(np.sum(found < x)), len(found)
                # the shares of the sources fluctuate, too
                tol = 6 * np.sqrt(total * p * (1 - p) + total * .05) + 5
                if abs(n_below - total * p) > tol:
                    chk.violation('light:times of pulses', dict(
                        info, dom=d, time=x, found=n_below,
                        expected=total * p, total=total), info)
                    return


def prediction(chk):
    """The function that is asked for the light is the model's."""
    import sourcebatch as B
    from egenerator.manager.source import SourceManager
    from egenerator.utils import detector
    hyps = B.hypotheses(np.asarray(detector.x_coords).reshape(86, 60, 3))
    kinds = [('cascade', True), ('cascade_poisson', False)]
    if chk.thorough:
        kinds += [('cascade', False), ('systematic', False),
                  ('track', False), ('cascade_gauss', False)]
    for kind, exclusions in kinds:
        m = B.Model(kind, exclusions=exclusions)
        other = B.Model(kind, seed=1, exclusions=exclusions)
        man = SourceManager()
        man._sub_components = {'models_0000': m.model,
                               'models_0001': other.model,
                               'data_handler': None}
        man._untracked_data = {}
        for i, (model, kw) in enumerate([(m, {}), (other, dict(
                model_index=1))]):
            events = [B.plain(h, s, at=h) for h in (1, 2, 3) for s in (1, 3)]
            chk.rng.shuffle(events)
            par = np.array([B.row(model.names, hyps[e['hyp'] - 1], e)
                            for e in events], np.float32)
            chk.traces()
            r = vlib.observe(man.get_model_tensors_function(**kw), par)
            info = {'model': kind, 'time exclusions': exclusions,
                    'index': i}
            if r[0] != 'ok':
                chk.violation('prediction:not available',
                              dict(info, outcome=r), info)
                break
            w = model(B.make(model, hyps, events, B.GRID[::100]))
            if w[0] != 'ok':
                raise vlib.MachineryError('model failed %r' % (w,))
            for key in ('dom_charges', 'dom_charges_variance',
                        'latent_var_mu', 'latent_var_sigma', 'latent_var_r',
                        'latent_var_scale'):
                if key not in r[1] or not np.allclose(
                        r[1][key].numpy() * np.ones(w[1][key].shape),
                        w[1][key], rtol=1e-4, atol=1e-7):
                    chk.violation('prediction:' + key, dict(
                        info, tensor=key), info)
                    break


def single(chk):
    """A model to be simulated needs nothing else than a particle's data."""
    sim = Simulation(chk, PARTICLE + ['Other'], nothing, 1,
                     default_values={}, mc_tree_name='Tree')
    chk.traces()
    if sim.configured[0] == 'ok':
        chk.violation('configure:parameter without value accepted',
                      sim.configured, None)
    # the model is the one that was asked for
    for base, want in (('/b', '/b/m'), (None, 'm')):
        from egenerator.ic3.simulation import EventGeneratorSimulation
        calls = icetray.use_manager(Manager(PARTICLE, nothing))
        m = icetray.module(EventGeneratorSimulation, model_name='m',
                           model_base_dir=base, default_values={})
        r = vlib.observe(m.Configure)
        dirs = [c['manager_dirs'] for c in calls]
        chk.traces()
        if r[0] != 'ok' or dirs not in ([[want]], [want], [([want],)]):
            chk.violation('configure:model', (r, dirs, want), None)
    # the same seed gives the same pulses
    t = nothing(2)
    t['dom_charges'][:] = .05
    t['dom_charges_variance'][:] = .06
    res = []
    for seed in (5, 5, 6):
        r, pulses = Statistics(chk).event(t, [9000., 9500.], seed)
        if r[0] != 'ok':
            chk.violation('seed:event not simulated', r, None)
            return
        res.append({tuple(k): [(p.time, p.charge) for p in s]
                    for k, s in pulses.items()})
    if res[0] != res[1] or res[0] == res[2]:
        chk.violation('seed:pulses not reproducible', None, None)


def run(chk):
    q = not chk.thorough
    num = (250, 40) if q else (3000, 400)
    seed = ['-seed', str(chk.seed)]
    jobs = [
        ('ParticleTree', cfg(WALK, Nodes=3 if q else 5, Small='TRUE'),
         dict(heap='12g', timeout=800)),
        ('ParticleTree', cfg(WALK + ('Emit',), Nodes=9, Small='FALSE'),
         dict(workers=1, extra=['-simulate', 'num=%d' % num[0], '-depth',
                                '40'] + seed)),
        ('PulseSampling', cfg(DRAW, MaxSources=2, NumDoms=2 if q else 3,
                              MaxPe=2, NumComp=2, Small='TRUE'), {}),
        ('PulseSampling', cfg(DRAW + ('Emit',), MaxSources=4, NumDoms=5,
                              MaxPe=3, NumComp=3, Small='FALSE'),
         dict(workers=1, extra=['-simulate', 'num=%d' % num[1], '-depth',
                                '90'] + seed))]
    res = vlib.tlc_all(jobs)
    for (name, _, _), r in zip(jobs, res):
        chk.add_tlc(r, name)
        if r.violated or not r.ok:
            raise vlib.MachineryError('%s: %s' % (name, r.error_trace()))
    trees = list(res[1].json_prints('tree'))
    cases = list(res[3].json_prints('case'))
    if len(trees) < 100 or len(cases) < 20:
        raise vlib.MachineryError('too few behaviours')
    chk.count('refused', sum(c['status'] == 'refused' for c in trees))
    chk.sample(trees[0])
    chk.sample(cases[0])
    icetray.install()
    vlib.stub_git()
    t = Trees(chk)
    for c in trees:
        if chk.stop:
            return
        t.replay(c)
    d = Draws(chk)
    if d.sim.configured[0] != 'ok':
        chk.violation('pulses:configure', d.sim.configured, None)
        return
    for c in cases:
        if chk.stop:
            return
        d.replay(c)
    s = Statistics(chk)
    for mu, alpha, n in [(1e-3, .5, 20), (.01, .003, 20), (.01, 1., 4),
                         (.3, .05, 3), (5., 1., 1), (5., .01, 2)]:
        s.numbers(mu, alpha, n, chk.seed)
    for mu, alpha in [(300., 1e-5), (40., .02)] + (
            [] if q else [(1000., 1e-5), (200., .05), (10., 1e-4)]):
        s.bright(mu, alpha, chk.seed)
    for i in range(2 if q else 20):
        s.times(chk.seed + i)
    single(chk)
    prediction(chk)
    chk.assumptions += [
        'IceTray classes are replaced by stand-ins with the same attributes',
        'random draws are compared with expectation at six standard '
        'deviations']
