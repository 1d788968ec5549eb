"""P14: loss terms treat events, pulses and DOMs independently."""
import math

import numpy as np

import vlib

LEVEL = 'model_checking'
FUNCTIONS = ['unbinned_extended_pulse_llh', 'unbinned_pulse_time_llh',
             'unbinned_pulse_and_dom_charge_pdf',
             'unbinned_charge_quantile_pdf', 'dom_and_event_charge_pdf',
             'negative_binomial_charge_pdf',
             'negative_binomial_event_charge_pdf',
             'normalized_dom_charge_pdf']
OPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b,
       '*': lambda a, b: a * b, '/': lambda a, b: a / b,
       'log': math.log, 'lgamma': math.lgamma, 'sqrt': math.sqrt,
       'exp': math.exp, 'max': max, 'pi': lambda: math.pi}


def value(t):
    """Value of an expression of the specification."""
    if t[0] == 'q':
        return t[1] / t[2]
    return OPS[t[0]](*[value(x) for x in t[1:]])


class Losses:
    def __init__(self):
        self.mods, self.tensors = {}, {}

    def module(self, c, prec):
        from egenerator.loss.default import DefaultLossModule
        key = (c['fn'], c['norm'], tuple(c['lims']), prec)
        if key not in self.mods:
            lim = [None if x < 0 else x / 10. for x in c['lims']]
            m = DefaultLossModule()
            m.configure(config={
                'loss_function_name': c['fn'], 'float_precision': prec,
                'add_normalization_term': c['norm'],
                'min_charge_quantile': lim[0],
                'max_charge_quantile': lim[1]})
            self.mods[key] = m
        return self.mods[key]

    def list(self, excl, times):
        from egenerator.data.tensor import DataTensor, DataTensorList
        key = (excl, times)
        if key not in self.tensors:
            ts = [DataTensor('x_pulses', (None, 3), 'data', 'float32'),
                  DataTensor('x_dom_charge', (None, 86, 60, 1), 'data',
                             'float32')]
            if excl != 'missing':
                ts.append(DataTensor('x_dom_exclusions', (None, 86, 60, 1),
                                     'data', 'bool', exists=excl))
            if times != 'missing':
                ts.append(DataTensor('x_time_exclusions', (None, 2), 'data',
                                     'float32', exists=times))
            self.tensors[key] = DataTensorList(ts)
        return self.tensors[key]


def inputs(c, prec, rng):
    """Batch, predictions and the kind of each DOM of each event."""
    import tensorflow as tf
    n = len(c['ev'])
    kinds = len(c['ev'][0]['true'])
    kind = np.full([n, 5160], kinds - 1)
    where = []
    for e in range(n):
        special = rng.sample(range(5160), kinds - 1)
        kind[e, special] = range(kinds - 1)
        where.append(special)
    kind = kind.reshape([n, 86, 60])

    def field(name, div):
        v = np.array([x[name] for x in c['ev']], dtype=float) / div
        return np.stack([v[e][kind[e]] for e in range(n)])[..., None] \
            .astype(prec)
    # sometimes sorted by event, sometimes not
    order = list(range(len(c['pulses'])))
    rng.shuffle(order)
    if rng.random() < .4:
        order.sort(key=lambda i: c['pulses'][i]['e'])
    ps = [c['pulses'][i] for i in order]
    ids = [[p['e'] - 1] + list(divmod(where[p['e'] - 1][p['d'] - 1], 60))
           for p in ps]
    tc = tf.constant
    batch = {
        'x_pulses': tc(np.array([[p['q'] / 2., 7., p['quant'] / 10.]
                                 for p in ps], prec).reshape(-1, 3)),
        'x_pulses_ids': tc(np.array(ids, np.int32).reshape(-1, 3)),
        'x_dom_charge': tc(field('true', 2.)),
        'x_dom_exclusions': tc(field('valid', 1).astype(bool)),
        'x_parameters': tc(np.ones([n, 2], prec)),
    }
    if not c['excl'] and rng.random() < .5:
        del batch['x_dom_exclusions']
    result = {
        'dom_charges': tc(field('pred', 4.)),
        'dom_charges_variance': tc(field('var', 4.)),
        'dom_charges_log_pdf_values': tc(field('lpdf', 3.)),
        'pulse_pdf': tc(np.array([p['pdf'] / 8. for p in ps], prec)),
        'pulse_quantile_pdf': tc(np.array([p['qpdf'] / 8. for p in ps],
                                          prec)),
    }
    return batch, result, kind


def one(losses, c, i, rng):
    import tensorflow as tf
    # the negative binomial distribution needs the higher precision
    prec = 'float32' if i % 4 == 3 and 'binomial' not in c['fn'] \
        else 'float64'
    tol = 2e-4 if prec == 'float32' else 1e-7
    mod = losses.module(c, prec)
    batch, result, kind = inputs(c, prec, rng)
    excl = c['excl'] or rng.choice([False, 'missing'])
    times = rng.choice([True, False, 'missing'])
    tensors = losses.list(excl, times)
    if times is True:
        result['dom_cdf_exclusion_sum'] = tf.ones_like(
            result['dom_charges']) * 0.25
    n = len(c['ev'])
    dom = np.array([[value(t) for t in r] for r in c['dom']])
    dom = np.stack([dom[e][kind[e]] for e in range(n)])
    event = np.array([value(t) for t in c['event']])
    total, scale = value(c['total']), value(c['scale'])
    size = np.abs(dom).sum() + np.abs(event).sum() + 1
    graph = i % 6 == 1

    def get(**kw):
        def f(b, r):
            return mod.get_loss(b, r, tensors, model=None,
                                parameter_tensor_name='x_parameters', **kw)
        return vlib.observe(tf.function(f) if graph else f, batch, result)
    for by_charge in (False, True):
        kw = {'normalize_by_total_charge': True} if by_charge else \
            rng.choice([{}, {'normalize_by_total_charge': False}])
        div = scale if by_charge else 1.
        # a single number
        r = get(**kw) if rng.random() < .5 else \
            get(reduce_to_scalar=True, sort_loss_terms=False, **kw)
        if r[0] != 'ok':
            return 'scalar loss', r
        if r[1].shape != () or abs(float(r[1]) - total / div) > \
                tol * size / div:
            return 'scalar loss', (float(tf.reduce_sum(r[1])), total / div,
                                   by_charge)
        # individual terms
        r = get(reduce_to_scalar=False, **kw)
        if r[0] != 'ok':
            return 'individual terms', r
        s = sum(float(tf.reduce_sum(x)) for x in r[1])
        if abs(s - total / div) > tol * size / div:
            return 'sum of individual terms', (s, total / div, by_charge)
        # sorted terms
        r = get(reduce_to_scalar=False, sort_loss_terms=True, **kw)
        if r[0] != 'ok':
            return 'sorted terms', r
        r = list(r[1])
        if [tuple(x.shape) for x in r] != [(), (n,), (n, 86, 60)]:
            return 'shapes of sorted terms', [tuple(x.shape) for x in r]
        if abs(float(r[0])) > tol * size / div:
            return 'sorted terms of the batch', float(r[0])
        if not np.allclose(r[1], event / div, rtol=tol,
                           atol=tol * (1 + np.abs(event).max()) / div):
            return 'sorted terms of events', (r[1].numpy(), event / div)
        if not np.allclose(r[2], dom / div, rtol=tol, atol=tol / div):
            at = tuple(np.argwhere(~np.isclose(
                r[2], dom / div, rtol=tol, atol=tol / div))[0])
            return 'sorted terms of DOMs', (at, float(r[2][at]),
                                            dom[at] / div)
    # contradicting options, missing predictions
    r = get(reduce_to_scalar=True, sort_loss_terms=True)
    if r[0] == 'ok':
        return 'sorted and reduced', 'not refused'
    if times is True:
        del result['dom_cdf_exclusion_sum']
        r = get()
        if r[0] == 'ok':
            return 'time exclusions that the model does not know of', \
                'not refused'
    return None


def prior_models():
    from egenerator.model.source.base import Source
    import source as S
    S.classes()

    class Named(Source):
        """A hypothesis with the given parameters."""

        def _build_architecture(self, config, name=None):
            return list(config['names'])

    Named.__module__ = 'p14'
    Named.__qualname__ = 'Named'
    globals()['Named'] = Named
    trafo = S.configured(S.Trafo(), kind='none')
    memo = {}

    def get(names):
        if names not in memo:
            memo[names] = S.configured(Named(), data_trafo=trafo, name='m',
                                       config={'names': list(names)})
        return memo[names]
    return get


def prior(models, c, rng):
    """Penalties for systematic parameters."""
    import tensorflow as tf
    from egenerator.loss.snowstorm import SnowstormPriorLossModule
    n = len(c['pars'])
    label = {'U': 'Uniform%d', 'F': 'IceWavePlusModes_%02d', 'O': 'Other%d'}
    names = tuple(label[k] % (i - 1) for k, i in c['names'])
    event = np.array([value(t) for t in c['event']])
    total = value(c['total'])
    size = np.abs(event).sum() + 1
    prec = 'float32' if size < 1e20 and rng.random() < .5 else 'float64'
    tol = 1e-3 if prec == 'float32' else 1e-9
    lims = [('Uniform%d' % i, [x / 10. for x in v])
            for i, v in enumerate(c['limits'])]
    rng.shuffle(lims)
    m = SnowstormPriorLossModule()
    with vlib.quiet():
        m.configure(config={
            'uniform_parameters': dict(lims),
            'sigmas': [x / 10. for x in c['sigmas']]})
    pname = rng.choice(['x_parameters', 'x_hypo'])
    batch = {'x_dom_charge': tf.ones([n, 86, 60, 1], prec),
             pname: tf.constant(np.array(c['pars']) / 10., prec)}
    graph = rng.random() < .2

    def get(**kw):
        def f(b):
            return m.get_loss(b, {}, None, model=models(names),
                              parameter_tensor_name=pname, **kw)
        return vlib.observe(tf.function(f) if graph else f, batch)
    r = get()
    if r[0] != 'ok' or r[1].shape != () or \
            abs(float(r[1]) - total) > tol * size:
        return 'scalar loss', r, total
    r = get(reduce_to_scalar=False)
    if r[0] != 'ok':
        return 'individual terms', r
    s = np.zeros(n)
    for x in r[1]:
        if x.shape[0] != n:
            return 'individual terms', x
        s = s + np.asarray(x, float).reshape(n, -1).sum(axis=1)
    if not np.allclose(s, event, rtol=tol, atol=tol * size):
        return 'individual terms', s, event
    r = get(reduce_to_scalar=False, sort_loss_terms=True)
    if r[0] != 'ok':
        return 'sorted terms', r
    if [tuple(x.shape) for x in r[1]] != [(), (n,), (n, 86, 60)]:
        return 'shapes of sorted terms', [tuple(x.shape) for x in r[1]]
    if float(r[1][0]) or np.any(r[1][2]) or \
            not np.allclose(r[1][1], event, rtol=tol, atol=tol * size):
        return 'sorted terms', r[1][1].numpy(), event
    return None


def run(chk):
    vlib.stub_git()
    losses = Losses()
    inv = ''.join('INVARIANT %s\n' % x
                  for x in ('Independent', 'Ignored', 'Emit'))
    inv2 = ''.join('INVARIANT %s\n' % x
                   for x in ('NamesOnly', 'NoPrior', 'Flat', 'Emit'))
    fns = '{' + ','.join('"%s"' % f for f in FUNCTIONS) + '}'
    sim = ['-simulate', 'num=%d' % (10 if chk.thorough else 1), '-seed',
           str(chk.seed), '-depth']
    jobs = [('LossTerms', 'SPECIFICATION Spec\nCONSTANTS '
             'NumEvents=%d Kinds=%d MaxPulses=%d Functions=%s\n%s'
             % (ne, kinds, mp, fns, inv),
             {'workers': 1, 'expect_ok': True, 'extra': sim + [str(num)]})
            for ne, kinds, mp, num in [(1, 3, 3, 150), (2, 4, 5, 200),
                                       (3, 4, 8, 150), (5, 3, 4, 60)]]
    jobs.append(('PriorTerms', 'SPECIFICATION Spec\nCONSTANTS MaxEvents=4 '
                 'MaxUniform=4 MaxFourier=5\n' + inv2,
                 {'workers': 1, 'expect_ok': True, 'extra': sim + ['250']}))
    res = vlib.tlc_all(jobs)
    for j, r in zip(jobs, res):
        chk.add_tlc(r, j[0])
    cases = [c for r in res[:-1] for c in r.json_prints()]
    priors = list(res[-1].json_prints())
    chk.rng.shuffle(cases)
    chk.rng.shuffle(priors)
    budget = 100 if chk.thorough else 16
    models = prior_models()
    for i, c in enumerate(priors):
        if chk.stop or chk.left(budget) < 0:
            break
        bad = prior(models, c, chk.rng)
        chk.traces()
        chk.count('priors')
        if bad:
            chk.violation('priors: ' + bad[0], bad, [bad, c])
        elif i == 3:
            chk.sample({k: c[k] for k in ('names', 'limits', 'sigmas',
                                          'pars')})
    budget = 800 if chk.thorough else 45
    for i, c in enumerate(cases):
        if chk.stop or chk.left(budget) < 0:
            break
        bad = one(losses, c, i, chk.rng)
        chk.traces()
        chk.count(c['fn'])
        if bad:
            chk.violation('%s: %s' % (c['fn'], bad[0]), bad, [bad, c])
        elif i % 300 == 7:
            chk.sample({k: c[k] for k in ('fn', 'norm', 'excl', 'pulses')})
    chk.assumptions += [
        'pulses on excluded DOMs have been removed before, as documented',
        'predicted charges and variances are positive']
