"""P12: the data transformation is inverted exactly, for all input kinds."""
import numpy as np

import trafo as T
import vlib

LEVEL = 'model_checking'
REDUCED = {'none': (), 'cols': (-1,), 'rows': (-2,), 'all': (-2, -1)}


def rats(rows):
    return np.array([[T.rat(x) for x in r] for r in rows])


def build(case, precision, flat):
    """A transformer with the statistics of the case."""
    from egenerator.data.tensor import DataTensor
    mean, spread = np.array(case['mean'], float), \
        np.array(case['spread'], float)
    log = np.array(case['log'], dtype=bool)
    shape = mean.shape
    red = REDUCED[case['reduce']]
    if flat:
        mean, spread, shape = mean[0], spread[0], (shape[1],)
        red = (-1,) if red else ()
    k = np.stack([mean - spread, mean + spread])
    values = np.where(log, np.expm1(k), k)
    tl = [bool(x) for x in log]
    if not log.any():
        tl = None if int(mean.sum()) % 2 else False
    elif log.all() and int(mean.sum()) % 2:
        tl = True
    # other tensors must not matter
    ts = [DataTensor(name='x_t', shape=[None] + list(shape),
                     tensor_type='data', dtype='float64', trafo=True,
                     trafo_log=tl, trafo_reduce_axes=red),
          DataTensor(name='x', shape=[None] + list(shape),
                     tensor_type='data', dtype='float64', trafo=True),
          DataTensor(name='x_t_mean', shape=[None] + list(shape),
                     tensor_type='label', dtype='float64')]
    b = {'x_t': values, 'x': values * 7 + 11, 'x_t_mean': values}
    h = T.make_handler(ts, [b])
    return T.new_trafo(h, 1, data_iterator_settings={},
                       float_precision=precision,
                       norm_constant=T.rat(case['norm']))


class Runner:
    """Calls a method with numpy arrays, tensors, or within tf.function."""

    def __init__(self, trafo, kind):
        import tensorflow as tf
        self.tf, self.trafo, self.kind = tf, trafo, kind

    def __call__(self, method, x, name='x_t', **kw):
        f = getattr(self.trafo, method)
        if self.kind == 'np':
            y = x.copy()
            r = vlib.observe(f, y, name, **kw)
            if r[0] == 'ok' and not np.array_equal(x, y):
                return ('error', 'input modified', '')
            return r
        y = self.tf.constant(x)
        if self.kind == 'tf':
            r = vlib.observe(f, y, name, **kw)
        else:
            g = self.tf.function(
                lambda z: f(z, name, **kw), input_signature=[
                    self.tf.TensorSpec([None] + list(x.shape[1:]),
                                       x.dtype)])
            r = vlib.observe(g, y)
        if r[0] == 'ok' and not self.tf.is_tensor(r[1]):
            return ('error', 'not a tensor', repr(r[1])[:100])
        return ('ok', r[1].numpy()) if r[0] == 'ok' else r


def check_group(chk, cases, kind, dtype, precision, flat, roll):
    """Cases with the same statistics: the queries form one batch."""
    c0 = cases[0]
    r = vlib.observe(build, c0, precision, flat)
    if r[0] != 'ok':
        return 'not configured', r
    run = Runner(r[1], kind)

    def col(key, f=rats):
        a = np.stack([f(c[key]) for c in cases])
        return a[:, 0, :] if flat else a
    log = np.array(c0['log'], dtype=bool)
    k = col('query', lambda q: np.array(q, dtype=float))
    x = np.where(log, np.expm1(k), k).astype(dtype)
    diff = k.astype(dtype)
    tol = 2e-4 if 'float32' in (dtype, precision) else 1e-9
    inv = col('inv')
    inv_raw = np.where(log, np.expm1(np.minimum(inv, 50)), inv)
    plan = [('transform', x, True, col('fwd')),
            ('inverse_transform', diff, True, inv_raw),
            ('transform', diff, False, col('fwd_diff')),
            ('inverse_transform', diff, False, col('inv_diff')),
            # and back again
            ('inverse_transform', col('fwd').astype(dtype), True, x),
            ('transform', inv_raw.astype(dtype), True, diff)]
    for j, (method, data, bias, want) in enumerate(plan):
        kw = {} if bias and roll % 2 else {'bias_correction': bias}
        got = run(method, data, **kw)
        what = '%s(bias_correction=%s)' % (method, bias)
        if got[0] != 'ok':
            return what, got
        got = got[1]
        if got.dtype != np.dtype(dtype):
            return what + ' has another data type', got.dtype
        t = tol if j < 5 or tol < 1e-6 else 5e-3
        if got.shape != want.shape or not np.allclose(
                got, want, rtol=t, atol=t):
            return what, (kind, dtype, precision, 'data', data, 'got',
                          got, 'expected', want)
    # a part of the batch, or no event at all, gives the same
    for part in (slice(0, 0), slice(len(x) - 1, None)):
        got = run('transform', x[part])
        if got[0] != 'ok' or got[1].shape != x[part].shape or \
                not np.allclose(got[1], col('fwd')[part], rtol=tol,
                                atol=tol):
            return 'transform of a part of the batch', (got, x[part])
    if flat:
        s = rats(c0['scale'])[0]
        n = len(s)
        cov = (np.arange(n * n).reshape([n, n]) - 1.5).astype(dtype)
        got = run('inverse_transform_cov', cov)
        if got[0] != 'ok':
            return 'inverse_transform_cov', got
        want = cov * s[:, None] * s[None, :]
        if got[1].dtype != np.dtype(dtype) or got[1].shape != want.shape \
                or not np.allclose(got[1], want, rtol=tol, atol=tol):
            return 'inverse_transform_cov', (kind, dtype, got[1], want)
    # what cannot be transformed is refused
    for name, data in [('x_t_mean', x), ('y', x), ('x_t', x[..., :-1]),
                       ('x_t', x[0, ..., 0] if flat else x[:, 0])]:
        for method in ('transform', 'inverse_transform'):
            got = run(method, np.asarray(data), name=name) \
                if np.ndim(data) else ('error',)
            if got[0] == 'ok':
                return 'not refused: ' + method, (name, np.shape(data))
    return None


def run(chk):
    vlib.stub_git()
    from egenerator.data import trafo
    trafo.tqdm = T.NoBar
    inv = 'INVARIANT Inverse\nINVARIANT Differences\n' \
        'INVARIANT Variances\nINVARIANT Emit\n'
    r = vlib.tlc('TrafoMap', 'SPECIFICATION Spec\nCONSTANTS Rows=1 Cols=2 '
                 'Means={0,3} Spreads={0,2} Queries={0,3} '
                 'Simulated=FALSE\n' + inv, workers=1, expect_ok=True)
    chk.add_tlc(r, 'TrafoMap 1x2')
    cases = list(r.json_prints())
    for rows, cols, num in [(1, 1, 150), (1, 3, 600), (2, 2, 600),
                            (3, 2, 250), (1, 7, 200)]:
        r = vlib.tlc('TrafoMap', 'SPECIFICATION Spec\nCONSTANTS Rows=%d '
                     'Cols=%d Means={0,1,3,4} Spreads={0,1,2} '
                     'Queries={0,1,2,5} Simulated=TRUE\n%s' % (
                         rows, cols, inv), workers=1, expect_ok=True,
                     extra=['-simulate', 'num=%d' % (
                         10 if chk.thorough else 1), '-depth', str(num),
                         '-seed', str(chk.seed)])
        chk.add_tlc(r, 'TrafoMap %dx%d simulated' % (rows, cols))
        cases += list(r.json_prints())
    groups = {}
    for c in cases:
        groups.setdefault(vlib.freeze([c[k] for k in (
            'mean', 'spread', 'log', 'reduce', 'norm')]), []).append(c)
    groups = list(groups.values())
    chk.rng.shuffle(groups)
    chk.cov['statistics'] = len(groups)
    kinds = ['np', 'tf', 'np', 'tf', 'graph']
    dtypes = ['float64', 'float32', 'float64']
    budget = 800 if chk.thorough else 45
    for i, g in enumerate(groups):
        if chk.stop or chk.left(budget) < 0:
            break
        c = g[0]
        flat = len(c['mean']) == 1 and c['reduce'] in ('none', 'cols')
        if len(c['mean']) == 1 and not flat:
            # one row only: reduced over rows is not reduced
            flat = False
        precision = 'float32' if i % 7 == 3 else 'float64'
        args = (kinds[i % 5] if i % 5 != 4 or i % 3 == 0 else 'np',
                dtypes[i % 3], precision, flat, i)
        bad = check_group(chk, g, *args)
        chk.traces(len(g))
        chk.count('kind_' + args[0])
        if bad:
            chk.violation('transformation: ' + bad[0], bad, [bad, g, args])
        elif i % 400 == 7:
            chk.sample(g[0])
    chk.assumptions += [
        'logarithms between -60 and 60 (the code deliberately clips beyond '
        'for tensors), raw values above -1']
