"""P16: fits vary exactly the selected parameters."""
import itertools

import numpy as np

import fit as F
import vlib

LEVEL = 'model_checking'
INV = ''.join('INVARIANT %s\n' % x for x in
              ('KeepsSeed', 'HoldsDirection', 'StartIsSeed', 'GradientIsSlope',
               'HessianIsSlope', 'SpaceIrrelevant', 'Emit'))
SEEDS = {1: 'x_seed', 2: 'a_seed'}


def config(small, **kw):
    d = dict(MaxPar=4, MaxEvents=3, MaxMembers=2, MaxSteps=2, MaxAsks=3)
    d.update(kw)
    return ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + INV +
            'CONSTANT Small = %s\n' % ('TRUE' if small else 'FALSE') +
            ''.join('CONSTANT %s = %s\n' % x for x in d.items()))


def close(a, b, size=None, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    size = 1 + np.abs(b).max(initial=0) if size is None else size
    return bool(np.all(np.abs(a - b) <= tol * size))


class Expect:
    """What the specification says about a step."""

    def __init__(self, cfg, s):
        self.n = len(cfg['log'])
        self.space, self.mask = s['space'], s['mask']
        sc = F.scale(cfg, self.space, self.mask)
        self.seed = F.real(cfg, s['seed'])
        self.x0 = F.point(cfg, self.space, self.mask, s['start'])
        self.points = [F.point(cfg, self.space, self.mask, v['x'])
                       for v in s['evals']]
        self.hyps = [F.real(cfg, v['hyp']) for v in s['evals']]
        self.losses = [float(v['loss']) for v in s['evals']]
        self.terms = [np.array(v['terms'], float) for v in s['evals']]
        # gradients of the terms: event, parameter, term
        self.dterms = [np.array(v['grad'], float) * sc[None, :, None]
                       for v in s['evals']]
        self.grads = [d.sum(axis=2) for d in self.dterms]
        self.hess = [np.array(v['hess'], float) * np.outer(sc, sc)
                     if v['hess'] else None for v in s['evals']]
        self.opg = [np.einsum('eki,eli->kl', d, d) for d in self.dterms]
        self.best = s['best'] - 1
        self.hessian = False
        self.result = F.real(cfg, s['result'])
        # one pair of bounds for each fitted parameter of each event
        self.bounds = None
        if s['bounds']:
            b = [[self.bound(cfg, j, x, i) for i, x in enumerate(p)]
                 for j, p in enumerate(s['bounds'])]
            self.bounds = np.array([b[j] for _ in self.x0
                                    for j in range(self.n)
                                    if self.mask[j]])

    def bound(self, cfg, j, x, upper):
        inf = [-np.inf, np.inf][upper]
        if x[0] == 'none':
            return inf
        if x[0] == 'edge':
            return inf if self.space == 'trafo' and not upper else \
                (-1. if self.space == 'real' else -np.inf)
        return F.coord(cfg, self.space, j, x[1])


def raw_bounds(cfg, s, rng):
    res = []
    for j, p in enumerate(s['bounds']):
        res.append([])
        for i, x in enumerate(p):
            res[-1].append(
                rng.choice([None, [-np.inf, np.inf][i]]) if x[0] == 'none'
                else -1. if x[0] == 'edge' else F.value(cfg, j, x[1]))
    return res


def got_bounds(b):
    if hasattr(b, 'lb'):
        return np.array([b.lb, b.ub], float).T
    return np.array([[[-np.inf, np.inf][i] if v is None else float(v)
                      for i, v in enumerate(p)] for p in b])


def same_bounds(a, b):
    if a.shape != b.shape:
        return False
    with np.errstate(invalid='ignore'):
        return bool(np.all((a == b) | (np.abs(a - b) < 1e-9)))


def told(e, kind):
    """Check what the optimizer was told."""
    if len(F.ENV.told) != len(e.points):
        return 'number of evaluations', len(F.ENV.told)
    for i, t in enumerate(F.ENV.told):
        size = 1 + np.abs(e.terms[i]).sum()
        gs = 1 + np.abs(e.dterms[i]).sum()
        loss, grad = (t, None) if kind == 'spherical' else t[:2]
        if abs(float(np.reshape(loss, [])) - e.losses[i]) > 1e-9 * size:
            return 'loss told to the optimizer', (
                i, float(np.reshape(loss, [])), e.losses[i])
        if grad is not None and not close(
                np.reshape(grad, [-1]), e.grads[i].reshape(-1), gs):
            return 'gradient told to the optimizer', (i, grad, e.grads[i])
    for c in F.ENV.calls:
        for i, h in enumerate(c.get('hess', [])):
            h = np.reshape(h, e.hess[i].shape)
            if not close(h, e.hess[i]):
                return 'Hessian told to the optimizer', (i, h, e.hess[i])
        if 'problem' in c:
            return c['problem'], c
    return None


def called(e, kind):
    """Check how the optimizer was called."""
    if len(F.ENV.calls) != 1:
        return 'number of optimizer calls', len(F.ENV.calls)
    c = F.ENV.calls[0]
    if kind in ('scipy', 'direct'):
        if not close(c['x0'], e.x0.reshape(-1)):
            return 'starting point', (c['x0'], e.x0)
        b = c['bounds']
        if e.bounds is None:
            if b is not None:
                return 'bounds', b
        elif b is None or not same_bounds(got_bounds(b), e.bounds):
            return 'bounds', (b, e.bounds)
        if c['kw'].get('options') != {'maxiter': 7}:
            return 'options of the optimizer', c['kw']
        if c['method'] != 'L-BFGS-B':
            return 'method of the optimizer', c['method']
    elif kind == 'tfp':
        if not close(c['x0'], e.x0):
            return 'starting point', (c['x0'], e.x0)
        if c['kw'].get('x_tolerance') != 0.25:
            return 'options of the optimizer', c['kw']
    elif kind == 'shgo':
        b = got_bounds(c['bounds'])
        if not close(b, np.stack([e.x0[0] - 1, e.x0[0] + 1], axis=1)):
            return 'bounds around the starting point', (b, e.x0)
        m = c['minimizer']
        if m.get('method') != 'BFGS' or m.get('jac') is not True or \
                ('hess' in m) != e.hessian or \
                ('hess' in c['options']) != e.hessian:
            return 'options of the optimizer', (m, c['options'])
    elif kind == 'spherical':
        if not (c['initial'].ndim == 2 and close(c['initial'][:1], e.x0)):
            return 'starting point', (c['initial'][:1], e.x0)
    elif kind == 'mcmc':
        if not close(c['x0'], np.tile(e.x0, (len(e.points), 1))):
            return 'starting point', (c['x0'], e.x0)
    return None


class Run:
    def __init__(self, c, rng):
        import tensorflow as tf
        from egenerator.manager.reconstruction.tray import FunctionCache
        self.c, self.cfg, self.rng, self.tf = c, c['cfg'], rng, tf
        cfg = self.cfg
        n = len(cfg['log'])
        self.names = ['zen', 'azi', 'x', 'e', 'q'][:n]
        rng.shuffle(self.names)
        for s in c['steps']:
            if s['kind'] == 'profile':
                h = [j - 1 for j in s['hold']]
                self.names = ['x', 'e', 'q', 'r', 's'][:n]
                self.names[h[0]], self.names[h[1]] = 'zen', 'azi'
        if n == 1:
            self.names = ['zen']
        r = vlib.observe(F.manager, cfg, self.names)
        if r[0] != 'ok':
            raise vlib.MachineryError('manager: %r' % (r,))
        self.man, self.loss = r[1]
        ne = len(cfg['data'])
        self.values = {
            'x_parameters': np.full([ne, n], 5.5),
            'x_data': np.array(cfg['data'], 'int32')[:, None],
            'x_seed': F.real(cfg, cfg['seeds'][0]),
            'a_seed': F.real(cfg, cfg['seeds'][1])}
        arrays = [self.values[k] for k in
                  self.man.data_handler.tensors.names]
        self.batch = tuple(tf.constant(a) for a in arrays) \
            if rng.random() < .6 else tuple(arrays)
        self.cache = FunctionCache()
        self.results = {}
        self.fit = []
        self.kw = dict(manager=self.man, loss_module=self.loss,
                       function_cache=self.cache)

    def profile(self, s):
        """Fits with the direction held at given values."""
        from egenerator.manager.reconstruction.modules.opening_angle import \
            CircularizedAngularUncertainty
        name = 'step%d' % s['of']
        n = len(self.cfg['log'])
        if 'loss_reco' not in self.results[name]:
            return None
        es = [Expect(self.cfg, dict(f, space=s['space'], mask=s['mask'],
                                    bounds=[], best=b, result=f['seed']))
              for f, b in zip(s['fits'], s['best'])]
        fit_list = [True] * n
        settings = {'method': 'L-BFGS-B', 'options': {'maxiter': 7}}
        F.ENV.reset(None, 0)
        F.ENV.queue = [([p.reshape(-1) for p in e.points], e.best)
                       for e in es] + [()]
        h = [j - 1 for j in s['hold']]
        held = F.real(self.cfg, [f['seed'][0] for f in s['fits']])[:, h]
        F.ENV.directions = held[:, 0], held[:, 1]
        self.results['cov'] = {'cov_sand': np.eye(n) * .01}

        def do():
            m = CircularizedAngularUncertainty(
                fit_paramater_list=fit_list, reco_key=name,
                covariance_key='cov',
                minimize_in_trafo_space=s['space'] == 'trafo',
                scipy_optimizer_settings=settings,
                num_fit_points=len(es), **self.kw)
            return m.execute(self.batch, self.results)
        r = vlib.observe(do)
        if r[0] != 'ok':
            return 'fits', r
        calls, all_told = F.ENV.calls, F.ENV.told
        if not all(fit_list):
            return "caller's list of fitted parameters changed", fit_list
        start = F.real(self.cfg, s['result'])[0, h]
        got = calls.pop(0)
        if not close(np.reshape(got['from'], [-1]), start):
            return 'direction', (got, start)
        if len(calls) != len(es):
            return 'number of optimizer calls', len(calls)
        for i, (e, c) in enumerate(zip(es, calls)):
            F.ENV.calls = [c]
            F.ENV.told = all_told[c['first']:][:len(e.points)]
            p = called(e, 'scipy') or told(e, 'scipy')
            if p:
                return p[0], (i, p[1])
        size = 1 + max(abs(x) for e in es for x in e.losses)
        if not close(r[1]['delta_loss'], s['delta'], size):
            return 'differences of the loss', (r[1]['delta_loss'],
                                               s['delta'])
        return None

    # -- one step ---------------------------------------------------------
    def step(self, i, s):
        if s['kind'] == 'profile':
            return self.profile(s)
        e = Expect(self.cfg, s)
        name = 'step%d' % (i + 1)
        seed = ('step%d' % s['src'][1], True) if s['src'][0] == 'step' \
            else (SEEDS[s['src'][1]], False)
        # the caller uses one list for all fits
        self.fit[:] = s['mask']
        space = dict(fit_paramater_list=self.fit,
                     minimize_in_trafo_space=s['space'] == 'trafo')
        kind = s['kind']
        F.ENV.reset([p.reshape(-1) for p in e.points], e.best)
        settings = {'method': 'L-BFGS-B', 'options': {'maxiter': 7}} \
            if kind != 'shgo' else {'method': 'BFGS'}
        if s['bounds']:
            settings['bounds'] = raw_bounds(self.cfg, s, self.rng)
        keep = repr(settings)
        if kind == 'direct' or kind == 'shgo' and self.rng.random() < .5:
            r = vlib.observe(self.direct, e, seed, space, settings,
                             kind == 'shgo')
        elif kind == 'mcmc':
            r = vlib.observe(self.mcmc, e, seed, space)
        else:
            r = vlib.observe(self.module, kind, seed, space, settings)
        if r[0] != 'ok':
            return 'fit', r
        if repr(settings) != keep:
            return 'settings of the caller changed', (settings, keep)
        p = called(e, kind) or (told(e, kind) if kind != 'mcmc' else None)
        if p:
            return p
        res = r[1]
        if kind == 'mcmc':
            if not close(np.reshape(res['samples'], [-1, e.n]),
                         np.concatenate(e.hyps)):
                return 'samples', (res['samples'], e.hyps)
            lp = np.reshape(res['log_prob_values'], [-1])
            if not close(-lp, e.losses):
                return 'probabilities of the chain', (-lp, e.losses)
            return None
        # what is reported
        if not close(np.asarray(res['result']), e.result):
            return 'result', (res['result'], e.result)
        if 'loss_reco' in res:
            if not close(np.asarray(res['result_trafo']),
                         e.points[e.best]):
                return 'result in fit coordinates', res['result_trafo']
            for k, v in (('loss_seed', s['loss_seed']),
                         ('loss_reco', s['loss'])):
                if not close(res[k], v, 1 + abs(v) + np.abs(
                        e.terms[e.best]).sum()):
                    return k, (res[k], v)
            self.results[name] = res
        else:
            self.results[name] = {'result': e.result}
        F.ENV.reset(None, 0)
        return self.functions(e, s, seed, space) or \
            self.covariance(e, s, name, space) or \
            self.minimum(e, s, seed, space)

    def minimum(self, e, s, seed, space):
        """The loss is a parabola: the real optimizers find its minimum."""
        js = [j for j, f in enumerate(e.mask) if f]
        if e.hess[0] is None or any(self.cfg['log'][j] for j in js) or \
                self.rng.random() < .4:
            return None
        x = e.points[0][0] - np.linalg.solve(e.hess[0], e.grads[0][0])
        hyp = e.seed[0].copy()
        for j, v in zip(js, x):
            hyp[j] = v * self.cfg['sg'][j] + self.cfg['mu'][j] \
                if e.space == 'trafo' else v
        kind = self.rng.choice(['scipy', 'scipy', 'tfp'])
        r = vlib.observe(
            self.module, kind, seed, space,
            {'method': self.rng.choice(['L-BFGS-B', 'BFGS'])},
            {'method': 'bfgs_minimize', 'tolerance': 1e-9})
        if r[0] != 'ok':
            return 'real %s optimizer' % kind, r
        if not close(np.asarray(r[1]['result']), hyp[None], tol=1e-4):
            return 'result of the real %s optimizer' % kind, (
                r[1]['result'], hyp)
        return None

    def module(self, kind, seed, space, settings, tf_settings=None):
        from egenerator.manager.reconstruction.modules.reconstruction \
            import Reconstruction
        m = Reconstruction(
            seed_tensor_name=seed[0], seed_from_previous_module=seed[1],
            reco_optimizer_interface={
                'scipy': self.rng.choice(['scipy', 'SciPy']), 'tfp': 'tfp',
                'shgo': 'shog', 'spherical': 'spherical_opt'}[kind],
            scipy_optimizer_settings=settings,
            tf_optimizer_settings=tf_settings or {
                'method': 'bfgs_minimize', 'x_tolerance': 0.25},
            **space, **self.kw)
        return m.execute(self.batch, self.results)

    def seed_array(self, e):
        return e.seed if self.rng.random() < .5 else \
            self.tf.constant(e.seed)

    def direct(self, e, seed, space, settings, shgo):
        from egenerator.manager.reconstruction.modules.utils import trafo
        tf, man = self.tf, self.man
        sig, full = [tf.TensorSpec([None, k], tf.float64)
                     for k in (sum(e.mask), e.n)]
        data = man.data_handler.get_data_set_signature()
        f = dict(loss_module=self.loss, input_signature=(sig, data, full),
                 **space)
        kw = {} if shgo else dict(settings)
        if e.hess[0] is not None and self.rng.random() < .7:
            kw['hessian_function'] = man.get_hessian_function(**f)
            e.hessian = True
        # seeds by name or by value
        s = seed[0] if not seed[1] and self.rng.random() < .6 else \
            self.seed_array(e)
        fit = man.scipy_global_reconstruct_events if shgo \
            else man.reconstruct_events
        best, obj = fit(
            self.batch, self.loss, man.get_loss_and_gradients_function(**f),
            seed=s, **space, **kw)
        return {'result': trafo.get_reco_result_batch(
            result_trafo=best, seed_tensor=self.seed_array(e),
            data_trafo=man.data_trafo, **space)}

    def mcmc(self, e, seed, space):
        from egenerator.manager.reconstruction.modules.mcmc import \
            MarkovChainMonteCarlo
        m = MarkovChainMonteCarlo(
            seed_tensor_name='x_seed', reco_key=seed[0],
            mcmc_num_chains=len(e.points), mcmc_num_results=1,
            mcmc_num_burnin_steps=1,
            mcmc_method=self.rng.choice(['HamiltonianMonteCarlo',
                                         'NoUTurnSampler']),
            **space, **self.kw)
        return m.execute(self.batch, self.results)

    # -- the functions that can be obtained --------------------------------
    def functions(self, e, s, seed, space):
        tf, man, rng = self.tf, self.man, self.rng
        sig, full = [tf.TensorSpec([None, k], tf.float64)
                     for k in (sum(e.mask), e.n)]
        data = man.data_handler.get_data_set_signature()
        how = rng.choice(['call', 'value'] if seed[1]
                         else ['call', 'value', 'name'])
        f = dict(loss_module=self.loss, **space)
        if how == 'call':
            f['input_signature'] = (sig, data, full)
            f['seed'] = None
        else:
            f['input_signature'] = (sig, data)
            f['seed'] = seed[0] if how == 'name' else tf.constant(e.seed)
        batch = tuple(tf.constant(b) for b in self.batch)
        i = rng.randrange(len(e.points))
        args = (tf.constant(e.points[i]), batch) + (
            (tf.constant(e.seed),) if how == 'call' else ())
        size = 1 + np.abs(e.terms[i]).sum()
        kind = rng.choice(['loss', 'terms', 'grad', 'eager', 'hess', 'opg'])
        if kind in ('hess', 'opg') and e.hess[i] is None:
            kind = 'grad'
        what = '%s with seed by %s' % (kind, how)
        if kind == 'loss':
            r = vlib.observe(lambda: man.get_parameter_loss_function(
                **f)(*args))
            good = r[0] == 'ok' and close(r[1], e.losses[i], size)
        elif kind == 'eager':
            r = vlib.observe(
                man.parameter_loss_function, *args[:2], self.loss,
                space['fit_paramater_list'],
                space['minimize_in_trafo_space'],
                seed=f['seed'] if how != 'call' else e.seed)
            good = r[0] == 'ok' and close(r[1], e.losses[i], size)
        elif kind == 'terms':
            r = vlib.observe(lambda: man.get_parameter_loss_function(
                reduce_to_scalar=False, **f)(*args))
            good = r[0] == 'ok' and close(
                np.array(r[1]), e.terms[i].T, size)
        elif kind == 'grad':
            r = vlib.observe(lambda: man.get_loss_and_gradients_function(
                **f)(*args))
            good = r[0] == 'ok' and close(r[1][0], e.losses[i], size) and \
                close(r[1][1], e.grads[i], 1 + np.abs(e.dterms[i]).sum())
        elif kind == 'hess':
            r = vlib.observe(lambda: man.get_hessian_function(
                **f)(*args))
            good = r[0] == 'ok' and close(
                np.reshape(r[1], e.hess[i].shape), e.hess[i])
        else:
            r = vlib.observe(lambda: man.get_opg_estimate_function(
                **f)(*args))
            good = r[0] == 'ok' and close(
                np.reshape(r[1], e.opg[i].shape), e.opg[i],
                1 + np.abs(e.opg[i]).sum())
        if not good:
            return what, (r, e.losses[i], e.grads[i])
        return None

    def covariance(self, e, s, name, space):
        """Covariance at the result of a fit of all parameters."""
        if not all(e.mask) or e.hess[0] is None or \
                'loss_reco' not in self.results[name] \
                or self.rng.random() < .5:
            return None
        h = e.hess[e.best]
        if np.linalg.cond(h) > 1e7:
            return None
        from egenerator.manager.reconstruction.modules.covariance import \
            CovarianceMatrix
        r = vlib.observe(lambda: CovarianceMatrix(
            reco_key=name, **space, **self.kw).execute(
                self.batch, self.results))
        if r[0] != 'ok':
            return 'covariance', r
        r = r[1]
        inv = np.linalg.inv(h)
        sand = inv @ e.opg[e.best] @ inv
        unit = np.ones(e.n)
        if e.space == 'trafo':
            unit = np.array([g * (F.LN2 if lo else 1.) for g, lo in zip(
                self.cfg['sg'], self.cfg['log'])])
        for k, m in (('cov', inv), ('cov_sand', sand)):
            for kk, mm in ((k + '_trafo', m), (k, m * np.outer(unit, unit))):
                if kk not in r or not close(
                        r[kk], mm, 1e-6 + np.abs(mm).max(), 1e-6):
                    return kk, (r.get(kk), mm)
        return None


def run(chk):
    sims = 4 if not chk.thorough else 6
    num = 40 if not chk.thorough else 500
    jobs = [('FitRouting', config(True, MaxSteps=1 + chk.thorough,
                                  MaxAsks=2 - chk.thorough), {})]
    for k in range(sims):
        jobs.append(('FitRouting', config(
            False, MaxPar=3 + k % 3, MaxSteps=1 + k % 3), {
            'workers': 1, 'extra': [
                '-simulate', 'num=%d' % num, '-depth', '40', '-seed',
                str(chk.seed * 100 + k)]}))
    res = vlib.tlc_all(jobs)
    cases = []
    for j, r in zip(jobs, res):
        if not r.ok:
            raise vlib.MachineryError('FitRouting: %s\n%s' % (
                r.violated, r.out[-2000:]))
        chk.add_tlc(r, 'FitRouting' + (' (simulation)' if j[2] else ''))
        if j[2]:
            cases.append(list(r.json_prints()))
    order = [c for t in itertools.zip_longest(*cases) for c in t if c]
    if len(order) < 60:
        raise vlib.MachineryError('only %d histories' % len(order))
    # some of the rare kinds of steps first
    for kind, n in (('profile', 4), ('mcmc', 3), ('shgo', 2)):
        rare = [c for c in order if kind in [s['kind'] for s in c['steps']]]
        order = rare[:n] + [c for c in order if c not in rare[:n]]
    vlib.parallel(chk, replay, order)
    if not chk.violations and chk.cov['traces_validated_against_impl'] < 15:
        raise vlib.MachineryError('too few histories')


def replay(chk, cases):
    F.install()
    budget = 60 if not chk.thorough else 700
    for i, c in enumerate(cases):
        if chk.left(budget) < 0 and i > 3 or chk.stop:
            break
        run_ = Run(c, chk.rng)
        for k, s in enumerate(c['steps']):
            F.ENV.reset(None, 0)
            p = run_.step(k, s)
            chk.count('fits_checked')
            chk.count('fits_' + s['kind'])
            if not all(s['mask']):
                chk.count('partial_fits')
            if p:
                chk.violation('%s %s: %s' % (s['kind'], s['space'], p[0]),
                              p[1], {'case': c, 'step': k})
                break
        chk.traces()
        chk.sample(c, 2)
