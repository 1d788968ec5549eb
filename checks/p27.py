"""P27: goodness of fit of reconstructed events."""
import types

import numpy as np

import trafo
import vlib

LEVEL = 'model_checking'
INV = ('Bounded', 'Once', 'Tails', 'Worst', 'Alike')
NAMES = ['x', 'energy', 'time', 'zenith']
LOG = [False, True, False, False]
FAINT = 1e-12
COV = np.array([[3., 0, 0, 0], [.1, .2, 0, 0], [20, 5, 40, 0],
                [.02, 0, .05, .1]])
COV = COV.dot(COV.T)


def cfg(inv, **c):
    return 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + ''.join(
        'INVARIANT %s\n' % i for i in inv) + ''.join(
        'CONSTANT %s = %s\n' % x for x in c.items())


def new_trafo():
    from egenerator.data.tensor import DataTensor
    rng = np.random.RandomState(5)
    par = rng.uniform(0, 3, (60, 4))
    par[:, 0] = rng.uniform(-100, 100, 60)
    par[:, 1] = 10**rng.uniform(1, 4, 60)
    par[:, 2] = rng.uniform(9000, 11000, 60)
    t = DataTensor(name='x_parameters', shape=[None, 4], tensor_type='label',
                   dtype='float64', trafo=True, trafo_log=LOG)
    return trafo.new_trafo(
        trafo.make_handler([t], [{'x_parameters': par}] * 2), 2,
        data_iterator_settings={}, norm_constant=1e-6)


def number(a):
    return a.numpy() if hasattr(a, 'numpy') else np.asarray(a)


class Manager:
    """Records what is asked for and gives the prepared answers."""

    def __init__(self, chk, data_trafo, quantiles, order):
        import tensorflow as tf
        self.chk, self.data_trafo = chk, data_trafo
        self.order = order
        self.settings, self.calls, self.asked = [], [], []
        spec = tuple(tf.TensorSpec(None) for _ in order)
        self.data_handler = types.SimpleNamespace(
            tensors=types.SimpleNamespace(get_index=order.index,
                                          names=list(order)),
            get_data_set_signature=lambda: spec,
            data_module=types.SimpleNamespace(
                configuration=types.SimpleNamespace(
                    config={'add_charge_quantiles': quantiles})))
        self.models = [types.SimpleNamespace(
            get_index=NAMES.index, parameter_names=NAMES,
            num_parameters=4)]

    def get_model_tensors_function(self, model_index=0):
        import tensorflow as tf

        def model_tensors_function(parameters):
            self.asked.append(np.array(number(parameters)))
            return {k: tf.constant(v)
                    for k, v in self.predict(len(parameters)).items()}
        return model_tensors_function

    def get_parameter_loss_function(self, **kw):
        self.settings.append(kw)

        def parameter_loss_function(parameters_trafo, data_batch, seed):
            self.calls.append(('loss', number(parameters_trafo),
                               data_batch, number(seed)))
            return self.loss(data_batch)
        return parameter_loss_function

    def get_loss_and_gradients_function(self, **kw):
        self.settings.append(kw)

        def loss_and_gradients_function(*args, **kwargs):
            raise vlib.MachineryError('not to be called')
        return loss_and_gradients_function

    def reconstruct_events(self, data_batch, loss_module,
                           loss_and_gradients_function=None,
                           fit_paramater_list=None,
                           minimize_in_trafo_space=None, seed=None,
                           parameter_tensor_name='x_parameters', **kw):
        point = self.rng.normal(0, 1, (1, int(np.sum(fit_paramater_list))))
        self.calls.append(('fit', point, data_batch, number(seed), kw,
                           fit_paramater_list, minimize_in_trafo_space))
        return point, types.SimpleNamespace(success=True)


class Event:
    """One goodness of fit calculation."""

    def __init__(self, chk, data_trafo, case, cov=None, free=None):
        self.chk, self.case, self.rng = chk, case, chk.rng
        r = self.rng
        self.num, self.conf = case['num'], case['conf']
        self.space = r.random() < .7
        self.quantiles = r.random() < .4
        self.fit = [True] * 4
        if cov is None and r.random() < .5:
            self.fit = [r.random() < .6 for _ in range(4)]
            if not any(self.fit):
                self.fit[r.randrange(4)] = True
        self.cov = cov
        order = ['x_dom_charge', 'x_pulses', 'x_pulses_ids', 'x_parameters',
                 'x_time_window']
        r.shuffle(order)
        self.order = order
        self.trafo = data_trafo
        self.manager = Manager(chk, data_trafo, self.quantiles, order)
        self.np_rng = self.manager.rng = np.random.RandomState(
            r.randrange(10**6))
        self.manager.loss = self.loss
        self.manager.predict = self.predict
        self.doms = place(r, len(case['pe'][0]))
        self.delay = [r.randrange(1, 9) for _ in self.doms]
        energy = 1000. * r.random() + 1
        self.best = np.array([[20. * r.random(), energy if r.random() < .6
                               else 3. * r.random(), 10000. + r.random(),
                               1.]])
        self.made = {}

    # -- data ---------------------------------------------------------------
    def batch(self):
        pe = self.case['pe'][0]
        q = np.zeros((1, 86, 60, 1))
        pulses, ids = [], []
        for d, n in zip(self.doms, pe):
            q[(0,) + d] = n
            for i in range(n):
                row = [1., 9500. + i, (i + 1.) / n]
                pulses.append(row[:2 + self.quantiles])
                ids.append((0,) + d)
        v = {'x_dom_charge': q, 'x_pulses': np.array(pulses).reshape(
                 -1, 2 + self.quantiles),
             'x_pulses_ids': np.array(ids, np.int32).reshape(-1, 3),
             'x_parameters': np.full((1, 4), 7.),
             'x_time_window': np.array([[9000., 20000.]])}
        return tuple(v[n] for n in self.order)

    def predict(self, n):
        """The number of photo electrons is sure to be the one given."""
        one = np.ones((n, 86, 60, 2))
        t = dict(dom_charges=one[..., :1] * FAINT,
                 dom_charges_variance=one[..., :1] * 1.01 * FAINT,
                 latent_var_mu=30 * one, latent_var_sigma=one * 1e-6,
                 latent_var_r=one.copy(), latent_var_scale=one / 2)
        given = {}
        for e in range(n):
            for i, d in enumerate(self.doms):
                at = (e,) + d
                mu = 1. + .125 * (e + n * i)
                t['dom_charges'][at] = mu
                t['dom_charges_variance'][at] = mu + .25 * mu**2
                t['latent_var_mu'][at] = [99., self.delay[i]]
                t['latent_var_scale'][at] = [0., 1.]
                given[mu] = self.case['pe'][e + 1][i] \
                    if e < self.num else 0
        mus = sorted(given)
        self.given[:] = [np.array([0., .01] + mus),
                         np.array([0, 0] + [given[m] for m in mus])]
        return t

    def loss(self, data_batch):
        import tensorflow as tf
        done = sum(c[0] == 'loss' for c in self.manager.calls)
        original = self.same_pulses(data_batch)
        e = 0 if original else done - sum(
            self.same_pulses(c[2]) for c in self.manager.calls
            if c[0] == 'loss')
        if e > self.num:
            return tf.constant(0.)
        v = self.case['loss'][e]
        dom = np.zeros((1, 86, 60))
        for d, x in zip(self.doms, v['dom']):
            dom[(0,) + d] = x
        if self.conf['perdom']:
            return [tf.constant(float(v['const']), tf.float64),
                    tf.constant([float(v['event'])], tf.float64),
                    tf.constant(dom)]
        return tf.constant(float(v['const'] + v['event'] + sum(v['dom'])),
                           tf.float64)

    def same_pulses(self, data_batch):
        at = self.order.index('x_pulses')
        a, b = data_batch[at], self.data[at]
        return a is b or len(b) > 0 and np.array_equal(number(a), b)

    # -- run ----------------------------------------------------------------
    def run(self):
        from egenerator.manager.reconstruction.modules import GoodnessOfFit
        from egenerator.manager.reconstruction.tray import FunctionCache
        self.given, event = [], self
        seed = self.rng.randrange(1000)

        class Rng(np.random.RandomState):
            used = 0

            def negative_binomial(self, n, p, size=None):
                n, p = np.broadcast_arrays(np.asarray(n, float),
                                           np.asarray(p, float))
                with np.errstate(all='ignore'):
                    mean = np.nan_to_num(n * (1. - p) / p)
                mu, num = event.given
                k = np.clip(np.searchsorted(mu, mean.ravel()), 1,
                            len(mu) - 1)
                k -= mean.ravel() - mu[k - 1] < mu[k] - mean.ravel()
                event.used = True
                return num[k].reshape(mean.shape)
        self.used = False
        keep = np.random.RandomState
        np.random.RandomState = Rng
        try:
            kw = {} if self.cov is None else {'covariance_key': 'cov'}
            r = vlib.observe(
                GoodnessOfFit, self.manager, 'loss module', FunctionCache(),
                fit_paramater_list=self.fit, reco_key='reco',
                minimize_in_trafo_space=self.space, num_samples=self.num,
                reconstruct_samples=self.conf['recon'],
                add_per_dom_calculation=self.conf['perdom'],
                normalize_by_total_charge=self.conf['norm'],
                random_seed=seed,
                scipy_optimizer_settings={'method': 'M'}, **kw)
        finally:
            np.random.RandomState = keep
        if r[0] != 'ok':
            return self.bad('module not created', outcome=r)
        self.data = self.batch()
        before = [np.array(x) for x in self.data]
        full = self.trafo.transform(self.best, tensor_name='x_parameters') \
            if self.space else self.best
        results = {'reco': {'result': self.best.copy(),
                            'result_trafo': np.array(full)[:, self.fit]},
                   'cov': {'cov_sand': self.cov}}
        r = vlib.observe(r[1].execute, self.data, results)
        self.chk.traces()
        if not self.used and r[0] == 'ok':
            self.chk.count('uncontrolled')
            return
        if r[0] != 'ok':
            return self.bad('not calculated', outcome=r)
        if any(not np.array_equal(a, b) for a, b in zip(before, self.data)):
            return self.bad('data changed')
        self.settings(results) and self.samples(results) and \
            self.verdict(r[1], results)
        return r[1]

    def bad(self, what, **more):
        info = dict(more, what=what, case=self.case, fit=self.fit,
                    space=self.space, quantiles=self.quantiles,
                    doms=self.doms, tensors=self.order)
        self.chk.violation('%s:%s' % (
            'event' if self.cov is None else 'posterior', what), info, info)
        return False

    def settings(self, results):
        loss, grad = self.manager.settings
        for kw in (loss, grad):
            for key, v in (('fit_paramater_list', self.fit),
                           ('minimize_in_trafo_space', self.space),
                           ('loss_module', 'loss module'), ('seed', None),
                           ('parameter_tensor_name', 'x_parameters')):
                if kw.get(key) != v:
                    return self.bad('setting ' + key, got=kw.get(key))
        if bool(loss.get('sort_loss_terms')) != self.conf['perdom'] or \
                bool(loss.get('reduce_to_scalar')) == self.conf['perdom'] or \
                loss.get('normalize_by_total_charge'):
            return self.bad('settings of the loss')
        return True

    def fitted(self, hyp):
        full = self.trafo.transform(hyp, tensor_name='x_parameters') \
            if self.space else hyp
        return np.array(full)[:, self.fit]

    def samples(self, results):
        """Every sample is complete and evaluated at its own point."""
        m = self.manager
        if len(m.asked) != 1 or m.asked[0].shape != (self.num, 4):
            return self.bad('hypotheses', asked=m.asked)
        self.hyp = hyp = m.asked[0]
        sharp = self.cov is None or np.max(np.abs(self.cov)) < 1e-12
        if sharp and not np.allclose(hyp, self.best, rtol=1e-5):
            return self.bad('hypotheses are not the best fit', hyp=hyp)
        if not sharp and self.num > 1 and np.any(hyp.std(axis=0) == 0.):
            return self.bad('hypotheses do not vary', hyp=hyp)
        seq, k = [], 0
        point = None
        for c in m.calls:
            batch, seed = c[2], c[3]
            if self.same_pulses(batch):
                if c[0] != 'loss':
                    return self.bad('data are fitted again')
                seq.append(['loss', 0])
                for a, b in zip(batch, self.data):
                    if a is not b and not np.array_equal(a, b):
                        return self.bad('data incomplete')
                if not np.allclose(c[1], results['reco']['result_trafo'],
                                   rtol=1e-6):
                    return self.bad('data not evaluated at best fit',
                                    got=c[1])
                if not all(self.fit) and not np.allclose(
                        np.asarray(seed)[0][~np.array(self.fit)],
                        self.best[0][~np.array(self.fit)], rtol=1e-6):
                    return self.bad('seed of the data', got=seed)
                continue
            if c[0] == 'fit' or not self.conf['recon']:
                k += 1
            if k > self.num:
                return self.bad('too many samples')
            seq.append([c[0], k])
            if np.shape(seed) != (1, 4) or not np.allclose(
                    seed[0], hyp[k - 1], rtol=1e-6):
                return self.bad('seed of a sample', got=seed, sample=k)
            if c[0] == 'fit':
                point = c[1]
                if c[5] != self.fit or c[6] != self.space or \
                        c[4].get('method') != 'M':
                    return self.bad('reconstruction settings', got=c[4:])
            else:
                want = point if self.conf['recon'] else \
                    self.fitted(hyp[k - 1:k])
                if np.shape(c[1]) != np.shape(want) or not np.allclose(
                        c[1], want, rtol=1e-6):
                    return self.bad('point of a sample', got=c[1], want=want,
                                    sample=k)
            if not self.complete(batch, k, hyp[k - 1]):
                return False
        if seq != self.case['calls'] and sorted(seq) != sorted(
                self.case['calls']):
            return self.bad('sequence of evaluations', got=seq)
        return True

    def complete(self, batch, k, hyp):
        b = {n: np.asarray(number(x)) for n, x in zip(self.order, batch)}
        pe = self.case['pe'][k]
        q = np.zeros((86, 60))
        p, ids = b['x_pulses'], b['x_pulses_ids']
        if len(p) != sum(pe) or ids.shape != (len(p), 3):
            return self.bad('number of simulated pulses', sample=k,
                            got=len(p))
        if p.shape != (len(p), 2 + self.quantiles):
            return self.bad('shape of simulated pulses', got=p.shape)
        for row, i in zip(p, ids):
            if i[0] != 0:
                return self.bad('simulated pulse of another event')
            q[i[1], i[2]] += row[0]
        for i, d in enumerate(self.doms):
            mine = p[(ids[:, 1] == d[0]) & (ids[:, 2] == d[1])]
            if len(mine) != pe[i]:
                return self.bad('pulses of a DOM', dom=d, got=mine,
                                want=pe[i])
            if not len(mine):
                continue
            if abs(mine[:, 0].sum() - pe[i]) > 1e-6:
                return self.bad('charge of a DOM', dom=d, got=mine)
            if not np.allclose(mine[:, 1], hyp[2] + 1000. * self.delay[i],
                               rtol=0, atol=.1):
                return self.bad('times of pulses', dom=d, got=mine,
                                time=hyp[2])
            if np.any(np.diff(mine[:, 1]) < 0):
                return self.bad('order of pulses', dom=d, got=mine)
            if self.quantiles and not np.allclose(
                    mine[:, 2], np.cumsum(mine[:, 0]) / mine[:, 0].sum()):
                return self.bad('quantiles of pulses', dom=d, got=mine)
        if b['x_dom_charge'].shape != (1, 86, 60, 1) or not np.allclose(
                b['x_dom_charge'][0, ..., 0], q):
            return self.bad('charges at the DOMs are not those of the '
                            'simulated pulses', sample=k,
                            got=float(b['x_dom_charge'].sum()),
                            want=float(q.sum()))
        for n, a in zip(self.order, self.data):
            if n not in ('x_pulses', 'x_pulses_ids', 'x_dom_charge') and \
                    not np.array_equal(b[n], a):
                return self.bad('other tensors changed', tensor=n)
        return True

    def verdict(self, got, results):
        res, n = self.case['result'], float(self.num)

        def same(key, want):
            v = np.asarray(number(got.get(key, np.nan)), float)
            if v.shape != np.shape(want) or not np.allclose(
                    v, want, rtol=1e-6, atol=1e-9, equal_nan=True):
                self.bad(key, got=v if v.size < 20 else 'many',
                         want=want if np.size(want) < 20 else 'many')
                return False
            return True
        total = []
        for e in range(self.num + 1):
            v = self.case['loss'][e]
            t = v['const'] + v['event'] + sum(v['dom'])
            total.append(t / (sum(self.case['pe'][e]) + 1.)
                         if self.conf['norm'] else float(t))
        s = np.array(total[1:])
        ok = same('event_p_value_1sided', res['one'] / n) and \
            same('event_p_value_2sided', res['two'] / n) and \
            same('loss_data_fit', total[0]) and \
            same('loss_sample_min', s.min()) and \
            same('loss_sample_max', s.max()) and \
            same('loss_sample_mean', s.mean()) and \
            same('loss_sample_median', np.median(s)) and \
            same('loss_sample_std', s.std()) and \
            same('num_samples', self.num) and \
            same('sampled_hypotheses', self.hyp)
        if ok and self.conf['perdom']:
            p = np.ones((2, 86, 60))
            p[1] = 0.
            for d, x in zip(self.doms, res['dom']):
                p[(slice(None),) + d] = np.array(x) / n
            ok = same('dom_p_value1', p[0]) and same('dom_p_value2', p[1])
        if ok and self.conf['recon']:
            points = np.concatenate([c[1] for c in self.manager.calls
                                     if c[0] == 'fit'])
            full = np.array(self.trafo.transform(
                self.hyp, tensor_name='x_parameters')
                if self.space else self.hyp)
            full[:, self.fit] = points
            reco = np.array(self.trafo.inverse_transform(
                full, tensor_name='x_parameters')) if self.space else full
            diff = self.hyp - reco
            ok = same('sample_recos', reco) and \
                same('sample_reco_bias', diff.mean(axis=0))
            if ok and self.num > 1:
                ok = same('sample_reco_cov', np.cov(diff.T))
        return ok


def place(rng, n):
    res = [(0, 0), (85, 59), (0, 59), (85, 0)]
    while len(res) < n + 4:
        d = (rng.randrange(86), rng.randrange(60))
        if d not in res:
            res.append(d)
    rng.shuffle(res)
    return res[:n]


def posterior(chk, data_trafo, num):
    """Hypotheses drawn around the best fit, with its covariance."""
    cov = COV
    case = {'num': num, 'conf': {'recon': False, 'perdom': False,
                                 'norm': False},
            'pe': [[1, 1]] * (num + 1),
            'loss': [{'const': 0, 'event': i % 7, 'dom': [0, 0]}
                     for i in range(num + 1)],
            'calls': [['loss', i + 1] for i in range(num)] + [['loss', 0]]}
    case['result'] = {'one': num, 'two': 0, 'dom': []}
    e = Event(chk, data_trafo, case, cov=cov)
    r = e.run()
    if not isinstance(r, dict):
        return
    h = np.array(e.hyp)
    best = e.best[0].copy()
    h[:, 1], best[1] = np.log1p(h[:, 1]), np.log1p(best[1])
    s = np.sqrt(np.diag(cov))
    z = (h.mean(axis=0) - best) / s * np.sqrt(num)
    if np.any(np.abs(z) > 6):
        e.bad('mean of the hypotheses', z=z)
    c = np.cov(h.T) / np.outer(s, s)
    want = cov / np.outer(s, s)
    if np.any(np.abs(c - want) > 6 * np.sqrt(2. / num)):
        e.bad('covariance of the hypotheses', got=c, want=want)


def run(chk):
    q = not chk.thorough
    num = 110 if q else 1500
    res = vlib.tlc_all([
        ('GoodnessOfFit', cfg(INV, MaxNum=2, NumDoms=1 if q else 2, MaxPe=2
                              if q else 1, MaxLoss=2 if q else 1,
                              Small='TRUE'), dict(heap='12g', timeout=800)),
        ('GoodnessOfFit', cfg(INV + ('Emit',), MaxNum=6, NumDoms=3, MaxPe=3,
                              MaxLoss=3, Small='FALSE'),
         dict(workers=1, extra=['-simulate', 'num=%d' % num, '-depth', '40',
                                '-seed', str(chk.seed)]))])
    for r in res:
        chk.add_tlc(r, 'GoodnessOfFit')
        if r.violated or not r.ok:
            raise vlib.MachineryError(r.error_trace())
    cases = list(res[1].json_prints('case'))
    if len(cases) < 50:
        raise vlib.MachineryError('too few behaviours')
    chk.sample(cases[0])
    vlib.stub_git()
    data_trafo = new_trafo()
    for c in cases:
        if chk.stop:
            return
        r = chk.rng.random()
        cov = None if r < .6 else COV * (1e-15 if r > .9 else 1.)
        Event(chk, data_trafo, c, cov=cov).run()
    for n in ([150] if q else [150, 400, 1000]):
        posterior(chk, data_trafo, n)
    chk.assumptions += [
        'the losses, fits and predicted light of the samples are given by '
        'the specification instead of a model; the goodness of fit module '
        'and the data transformer are the real ones']
