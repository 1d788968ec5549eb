"""P31: chains and scans show the likelihood at the points they name."""
import collections
import os

import numpy as np

import fit as F
import vlib

LEVEL = 'model_checking'
INV = ('Points', 'Fixed', 'Last', 'Number', 'Most')
SCRIPT = {}     # what is offered to the chains and whether it is accepted
FIGURES = []
_OLD = {}


def cfg(inv, **c):
    return 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + ''.join(
        'INVARIANT %s\n' % i for i in inv) + ''.join(
        'CONSTANT %s = %s\n' % x for x in c.items())


def install():
    """Kernels of Markov chains that follow a script, figures that are seen."""
    import tensorflow as tf
    import tensorflow_probability as tfp
    sample_chain = tfp.mcmc.sample_chain
    F.install()
    tfp.mcmc.sample_chain = sample_chain
    Part = collections.namedtuple('Part', ['target_log_prob', 'step_size'])
    Res = collections.namedtuple('Res', [
        'is_accepted', 'target_log_prob', 'accepted_results',
        'proposed_results', 'step'])
    Outer = collections.namedtuple('Outer', ['inner_results', 'new_step_size'])

    class Script(tfp.mcmc.TransitionKernel):
        """Offers the points of the script."""

        def __init__(self, target_log_prob_fn, **kw):
            self.target, self.kw = target_log_prob_fn, kw
            SCRIPT['kw'] = kw

        @property
        def is_calibrated(self):
            return True

        def part(self, lp):
            size = self.kw.get('step_size')
            if size is None:
                size = tf.zeros([1, lp.shape[0]], lp.dtype)
            return Part(lp, tf.convert_to_tensor(size))

        def bootstrap_results(self, state):
            SCRIPT['shape'] = tuple(state.shape)
            lp = tf.reshape(self.target(state), [state.shape[0]])
            return Res(tf.ones([state.shape[0]], tf.bool), lp, self.part(lp),
                       self.part(lp), tf.constant(0))

        def one_step(self, state, prev, seed=None):
            SCRIPT.setdefault('start', None)
            props = tf.constant(SCRIPT['props'], state.dtype)[prev.step]
            acc = tf.constant(SCRIPT['accs'])[prev.step]
            props = tf.reshape(props, state.shape)
            lp = tf.reshape(self.target(props), [state.shape[0]])
            new = tf.where(acc, lp, prev.target_log_prob)
            return tf.where(acc[:, None], props, state), Res(
                acc, new, self.part(new), self.part(lp), prev.step + 1)

    class Adapt(tfp.mcmc.TransitionKernel):
        """Stands for the adaptation of the step size."""

        def __init__(self, inner_kernel, **kw):
            self.inner = inner_kernel

        @property
        def is_calibrated(self):
            return True

        def bootstrap_results(self, state):
            r = self.inner.bootstrap_results(state)
            return Outer(r, r.accepted_results.step_size)

        def one_step(self, state, prev, seed=None):
            s, r = self.inner.one_step(state, prev.inner_results)
            return s, Outer(r, prev.new_step_size)

    for k in ('HamiltonianMonteCarlo', 'NoUTurnSampler',
              'RandomWalkMetropolis'):
        _OLD[k] = getattr(tfp.mcmc, k)
    _OLD['SimpleStepSizeAdaptation'] = tfp.mcmc.SimpleStepSizeAdaptation
    scripted = {k: Script for k in _OLD}
    scripted['SimpleStepSizeAdaptation'] = Adapt

    def kernels(real):
        for k in _OLD:
            setattr(tfp.mcmc, k, _OLD[k] if real else scripted[k])
    SCRIPT['kernels'] = kernels

    import matplotlib
    matplotlib.use('Agg')
    from matplotlib.figure import Figure

    def savefig(self, name, *a, **kw):
        FIGURES.append((str(name), [[
            (np.array(line.get_xdata(), float), np.array(
                line.get_ydata(), float)) for line in ax.get_lines()]
            for ax in self.axes]))
    Figure.savefig = savefig


class Event:

    def __init__(self, chk, case):
        self.chk, self.case, self.rng = chk, case, chk.rng
        self.c, self.n = case['cfg'], len(case['cfg']['log'])
        names = ['zen', 'azi', 'x', 'e', 'q'][:self.n]
        self.rng.shuffle(names)
        self.names = names

    def bad(self, what, **more):
        info = dict(more, what=what, case=self.case, names=self.names)
        self.chk.violation('explore:' + what, info, info)
        return False

    def loss_at(self, v):
        """The loss of the specification, and the size of its terms."""
        c = self.c
        e = np.dot(c['a'], v) - self.case['event']['data']
        return (e * e + np.dot(c['c'], v) + np.dot(c['q'], v * v),
                (np.abs(np.array(c['a']) * v).sum() + abs(
                    self.case['event']['data']))**2 + np.abs(
                        np.array(c['c']) * v).sum() + np.dot(
                            c['q'], v * v) + 1.)

    def setup(self):
        import tensorflow as tf
        c, e = self.c, self.case['event']
        self.man, self.loss = F.manager(
            {'log': c['log'], 'mu': c['mu'], 'sg': c['sg'],
             'members': [c['a']], 'c': c['c'], 'q': c['q']},
            self.names, seeds=('a_seed', 'x_seed'))
        self.seed = self.rng.choice(['a_seed', 'x_seed'])
        v = {'x_parameters': F.real(c, [e['truth']]),
             'x_data': np.array([[e['data']]], 'int32'),
             'a_seed': F.real(c, [e['best']]) + 1,
             'x_seed': F.real(c, [e['truth']]) - 1}
        v[self.seed] = F.real(c, [e['seed']])
        self.batch = tuple(tf.constant(v[k]) for k in
                           self.man.data_handler.tensors.names)
        space = 'trafo' if c['trafo'] else 'real'
        # as the modules of a reconstruction give it
        best = F.real(c, [e['best']])
        self.results = {'r': {
            'result': best, 'result_trafo': np.array([[
                F.coord(c, space, j, m) for j, m in enumerate(e['best'])]]),
            'loss_reco': self.case['best'], 'seed_tensor_name': self.seed}}
        from egenerator.manager.reconstruction.tray import FunctionCache
        self.kw = dict(
            manager=self.man, loss_module=self.loss,
            function_cache=FunctionCache(), reco_key='r',
            fit_paramater_list=[bool(f) for f in c['fit']],
            seed_tensor_name=self.seed, minimize_in_trafo_space=c['trafo'],
            parameter_tensor_name='x_parameters')

    def untouched(self):
        e = self.case['event']
        if not np.array_equal(self.results['r']['result'],
                              F.real(self.c, [e['best']])):
            return self.bad('best fit changed')
        return True

    # ------------------------------------------------------------------
    def chain(self, method, real):
        from egenerator.manager.reconstruction.modules.mcmc import \
            MarkovChainMonteCarlo
        c, case = self.c, self.case
        SCRIPT['kernels'](real)
        space = 'trafo' if c['trafo'] else 'real'
        js = [j for j, f in enumerate(c['fit']) if f]
        SCRIPT['props'] = np.array([[[F.coord(c, space, j, p['x'][j])
                                      for j in js] for p in s]
                                    for s in case['steps']])
        SCRIPT['accs'] = np.array([[p['ok'] for p in s]
                                   for s in case['steps']])
        results = c['results'] + 4 * real
        m = vlib.observe(
            MarkovChainMonteCarlo, mcmc_num_chains=c['chains'],
            mcmc_method=method, mcmc_num_results=results,
            mcmc_num_burnin_steps=c['burnin'],
            mcmc_num_steps_between_results=c['between'],
            mcmc_num_parallel_iterations=1, **self.kw)
        r = m if m[0] != 'ok' else vlib.observe(
            m[1].execute, self.batch, dict(self.results))
        if r[0] != 'ok' and 'NotImplementedError' in str(r[1]) and \
                c['trafo'] and any(c['log']):
            # steps in logarithmic parameters have to be known
            self.chk.count('refused')
            return True
        if r[0] != 'ok':
            return self.bad('chain', error=r, method=method)
        r = r[1]
        x, lp = np.asarray(r['samples']), np.asarray(r['log_prob_values'])
        if x.shape != (len(lp), self.n) or lp.shape != (len(lp),):
            return self.bad('shape of the samples', got=[x.shape, lp.shape])
        if real:
            self.chk.count('real_samples', len(lp))
            fixed = F.real(c, [case['event']['seed']])[0]
            if len(lp) > c['chains'] * results:
                return self.bad('number of samples')
            for v, q in zip(x, lp):
                loss, size = self.loss_at(v)
                if np.isfinite(q) and not abs(q + loss) <= 1e-6 * size:
                    return self.bad('probability of a sample', sample=v,
                                    got=q, want=-loss, method=method)
                for j, f in enumerate(c['fit']):
                    if not f and abs(v[j] - fixed[j]) > 1e-9 * (
                            1 + abs(fixed[j])):
                        return self.bad('fixed parameter', sample=v, j=j)
            return self.untouched()
        want = sorted(tuple(F.real(c, [k['x']])[0]) + (-float(k['loss']),)
                      for k in case['kept'])
        got = sorted(tuple(np.round(v, 6)) + (q,) for v, q in zip(x, lp))
        self.chk.count('samples_kept', len(want))
        if len(got) != len(want):
            return self.bad('number of samples', got=got, want=want,
                            method=method)
        for g, w in zip(got, want):
            size = self.loss_at(np.array(w[:-1]))[1]
            if not np.allclose(g[:-1], w[:-1], rtol=1e-8, atol=1e-6) or \
                    not abs(g[-1] - w[-1]) <= 1e-8 * size:
                return self.bad('samples', got=g, want=w, method=method)
        return self.untouched()

    # ------------------------------------------------------------------
    def scan(self):
        from egenerator.manager.reconstruction.modules.visualization import \
            Visualize1DLikelihoodScan
        from matplotlib import pyplot as plt
        c, case = self.c, self.case
        first = self.rng.randrange(2)
        m = vlib.observe(Visualize1DLikelihoodScan, plot_file_template=(
            '/nowhere/{event_counter:04d}_{parameter}'), **self.kw)
        for i in range(1 + first):
            FIGURES.clear()
            r = m if m[0] != 'ok' else vlib.observe(
                m[1].execute, self.batch, dict(self.results))
            if r[0] != 'ok':
                return self.bad('scan', error=r)
            if sorted(f[0] for f in FIGURES) != sorted(
                    '/nowhere/%04d_%s' % (i, n) for n in self.names):
                return self.bad('figures', got=[f[0] for f in FIGURES])
        if plt.get_fignums():
            plt.close('all')
            return self.bad('figures left open')
        truth, best = [F.real(c, [case['event'][k]])[0]
                       for k in ('truth', 'best')]
        figures = {n.split('_', 1)[1]: axes for n, axes in FIGURES}
        for j, name in enumerate(self.names):
            axes = figures[name]
            if len(axes) != 2:
                return self.bad('scans of a figure')
            for ax, hyp, ends, loss in zip(
                    axes, (truth, best), case['ends'],
                    (case['truth'], case['best'])):
                curve = [d for d in ax if len(d[0]) > 2]
                if len(curve) != 1:
                    return self.bad('curves', got=len(curve))
                x, y = curve[0]
                for k in {0, len(x) - 1} | set(
                        self.rng.sample(range(len(x)), 60)):
                    v = hyp.copy()
                    v[j] = x[k]
                    want, size = self.loss_at(v)
                    if not abs(y[k] - want) <= 1e-8 * size:
                        return self.bad('scan', parameter=name, at=x[k],
                                        got=y[k], want=want)
                if np.any(np.diff(x) <= 0):
                    return self.bad('order of a scan', got=x)
                for k, e in ((0, ends[j][0]), (-1, ends[j][1])):
                    raw = case['event']['truth'][j] + (
                        c['sg'][j] if k else -c['sg'][j])
                    at = 2.**raw - 1 if c['log'][j] else float(raw)
                    if abs(x[k] - at) > 1e-6 * (1 + abs(at)):
                        return self.bad('range of a scan', got=x[k], want=at)
                    v = hyp.copy()
                    v[j] = at
                    size = self.loss_at(v)[1]
                    if e['in'] and not abs(y[k] - e['loss']) <= 1e-8 * size:
                        return self.bad('end of a scan', parameter=name,
                                        got=y[k], want=e['loss'])
                flat = [d[1][0] for d in ax
                        if len(d[0]) == 2 and d[1][0] == d[1][1]]
                size = self.loss_at(hyp)[1]
                if len(flat) != 1 or abs(flat[0] - loss) > 1e-8 * size:
                    return self.bad('loss at the point', got=flat, want=loss)
                up = sorted(d[0][0] for d in ax
                            if len(d[0]) == 2 and d[1][0] != d[1][1])
                if len(up) != 2 or not np.allclose(
                        up, sorted([truth[j], best[j]]), atol=1e-6):
                    return self.bad('lines of truth and fit', got=up,
                                    want=[truth[j], best[j]])
        self.chk.count('scans', self.n)
        return self.untouched()


def work(chk, cases):
    vlib.stub_git()
    install()
    methods = ['HamiltonianMonteCarlo', 'NoUTurnSampler',
               'RandomWalkMetropolis']
    for i, c in enumerate(cases):
        if chk.stop:
            return
        e = Event(chk, c)
        e.setup()
        # other kernels than RandomWalkMetropolis only if the points allow it
        if not e.chain(chk.rng.choice(methods), False):
            continue
        chk.traces()
        if i % 6 == 0:
            e.setup()
            if not e.chain(chk.rng.choice(methods), True):
                continue
            chk.traces()
        if i % 4 == 0:
            e.scan()
            chk.traces()


def run(chk):
    q = not chk.thorough
    num = 140 if q else 1200
    res = vlib.tlc_all([
        ('Explore', cfg(INV, MaxPar=2, MaxChains=1 if q else 2,
                        MaxResults=2 if q else 1, Range=1, Small='TRUE'), dict(timeout=800)),
        ('Explore', cfg(INV + ('Emit',), MaxPar=5, MaxChains=3, MaxResults=4,
                        Range=6, Small='FALSE'),
         dict(workers=1, extra=['-simulate', 'num=%d' % num, '-depth', '60',
                                '-seed', str(chk.seed + 31)]))])
    for r in res:
        chk.add_tlc(r, 'Explore')
        if r.violated or not r.ok:
            raise vlib.MachineryError(r.error_trace())
    cases = list(res[1].json_prints('case'))
    if len(cases) < 40:
        raise vlib.MachineryError('too few behaviours')
    chk.sample(cases[0])
    vlib.parallel(chk, work, cases)
    chk.assumptions += [
        'kernels of Markov chains follow a script given by the specification '
        '(some runs use the real ones); figures are inspected, not stored']
