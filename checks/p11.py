"""P11: normalisation statistics are those of the whole sample."""
import numpy as np

import trafo as T
import vlib

LEVEL = 'model_checking'


def layouts(n):
    """name -> (shape, log per last axis, reduced axes, positions)."""
    e = list(range(n))
    # (the first entry alone as a number per event)
    res = {'t_number': ((), None, (), 0),
           't_flat': ((n,), None, (), e),
           't_nolog': ((n,), False, (), e),
           't_alllog': ((n,), True, (), e),
           't_partlog': ((n,), [i % 2 == 0 for i in e], (), e),
           't_lastlog': ((n,), [i == n - 1 for i in e], (-1,), e),
           't_reduced': ((n,), None, (-1,), e)}
    if n == 4:
        g = [[0, 1], [2, 3]]
        for i, (log, red) in enumerate([
                (None, ()), (True, (-1,)), ([True, False], (-2,)),
                ([False, True], (-2, -1)), ([False, True], (-1, -2)),
                ([True, False], ())]):
            res['t_grid%d' % i] = ((2, 2), log, red, g)
    return res


def logged_columns(log, shape):
    if log is None or log is False or shape == ():
        return np.zeros(shape, dtype=bool)
    if log is True:
        return np.ones(shape, dtype=bool)
    return np.broadcast_to(np.array(log), shape)


def check_case(chk, case, i):
    from egenerator.data.tensor import DataTensor
    ev = np.array(case['events'], dtype='float64')
    n = ev.shape[1]
    cuts = case['cuts']
    used = sum(cuts)
    offset = [0., 0.1, -3.3, 1e4][i % 4]
    scale = [1., 0.5, 1., 30.][(i // 4) % 4]
    precision = 'float32' if i % 11 == 5 else 'float64'
    dtypes = ['float64', 'float32', 'float64'][i % 3]
    tensors, values = [], {}
    lay = layouts(n)
    for name, (shape, log, red, pos) in lay.items():
        tensors.append(DataTensor(
            name=name, shape=[None, -1][i % 2:][:1] + list(shape),
            tensor_type=['data', 'label', 'misc'][i % 3], dtype=dtypes,
            trafo=True, trafo_log=log, trafo_reduce_axes=red))
        lg = logged_columns(log, shape)
        k = ev[:, pos]
        with np.errstate(over='ignore'):
            values[name] = np.where(lg, np.expm1(k), offset + scale * k)
    for name, kw in [('n_plain', {}), ('n_missing', {'trafo': True})]:
        tensors.append(DataTensor(name=name, shape=[None, n],
                                  tensor_type='data', dtype='float64',
                                  exists=name != 'n_missing', **kw))
    values['n_plain'] = ev
    # a vector: the same rows, but all in the first batch
    tensors.append(DataTensor(
        name='v_rows', shape=[None, n], tensor_type='data',
        dtype='float64', trafo=True, vector_info={
            'type': 'value', 'reference': 'v_ids'}))
    tensors.append(DataTensor(
        name='v_ids', shape=[None, 1], tensor_type='data',
        dtype='int32', vector_info={
            'type': 'index', 'reference': 'v_rows'}))
    order = list(range(len(tensors)))
    chk.rng.shuffle(order)
    tensors = [tensors[j] for j in order]
    batches, start = [], 0
    for b, k in enumerate(cuts + ([len(ev) - used] * (len(ev) > used))):
        batch = {m: v[start:start + k].copy() for m, v in values.items()}
        batch['v_rows'] = ev[:used] if b == 0 else ev[:0]
        batch['v_ids'] = np.zeros((len(batch['v_rows']), 1), dtype='int32')
        batches.append(batch)
        start += k
    before = [{m: v.copy() for m, v in b.items()} for b in batches]
    asked = []
    settings = {'batch_size': int(cuts[0]), 'pick': ['x', i]}
    h = T.make_handler(tensors, batches, asked)
    r = vlib.observe(T.new_trafo, h, len(cuts),
                     data_iterator_settings=settings,
                     float_precision=precision)
    if r[0] != 'ok':
        return 'not configured', r
    if asked != [settings]:
        return 'data iterator settings', asked
    data = r[1].data
    for b, b0 in zip(batches, before):
        for m in b:
            if not np.array_equal(b[m], b0[m]):
                return 'input data modified', m
    for m in ('n_plain', 'n_missing', 'v_ids'):
        if m + '_mean' in data or m + '_std' in data:
            return 'statistics of a tensor that is not transformed', m
    mean = np.array([T.rat(x) for x in case['mean']])
    std = np.sqrt(np.array([T.rat(x) for x in case['var']]))
    constant = np.zeros(n, dtype=bool)
    constant[[c - 1 for c in case['constant']]] = True
    lay['v_rows'] = ((n,), None, (), list(range(n)))
    tol = 2e-3 if precision == 'float32' else 1e-7
    for name, (shape, log, red, pos) in lay.items():
        lg = logged_columns(log, shape)
        plain = name == 'v_rows'
        o, s = (0., 1.) if plain else (offset, scale)
        m = np.where(lg, mean[pos], o + s * mean[pos])
        d = np.where(lg, std[pos], s * std[pos])
        c = constant[pos]
        if red:
            m = np.mean(m, axis=red, keepdims=True)
            d = np.mean(d, axis=red, keepdims=True)
            c = np.all(c, axis=red, keepdims=True)
        d = np.where(c, 1., d)
        for what, w in (('mean', m), ('std', d)):
            if '%s_%s' % (name, what) not in data:
                return 'no ' + what, name
            g = data['%s_%s' % (name, what)]
            try:
                g = np.broadcast_to(np.asarray(g, dtype='float64'), shape)
            except ValueError:
                return 'shape of the ' + what, (name, np.shape(g))
            w = np.broadcast_to(w, shape)
            if not np.allclose(g, w, rtol=tol, atol=tol * max(
                    1, abs(o) / 1e2)):
                return what + ' is not that of the sample', (
                    name, 'log', log, 'reduced', red, g, w)
            if what == 'std' and not np.all(
                    np.asarray(g)[np.broadcast_to(c, shape)] == 1.) and \
                    precision == 'float64':
                return 'constant entry', (name, g)
    return None


def run(chk):
    vlib.stub_git()
    from egenerator.data import trafo
    trafo.tqdm = T.NoBar
    inv = 'INVARIANT Exact\nINVARIANT Orderless\nINVARIANT Shifted\n' \
        'INVARIANT Emit\n'
    r = vlib.tlc('NormStats', 'SPECIFICATION Spec\nCONSTANTS Entries=2 '
                 'Values={0,1,2} MaxEvents=%d Simulated=FALSE\n%s' % (
                     3, inv), workers=1, expect_ok=True)
    chk.add_tlc(r, 'NormStats 2x3')
    cases = list(r.json_prints())
    if not chk.thorough:
        cases = chk.rng.sample(cases, 2500)
    r = vlib.tlc('NormStats', 'SPECIFICATION Spec\nCONSTANTS Entries=1 '
                 'Values={0,1,3,4} MaxEvents=5 Simulated=FALSE\n' + inv,
                 workers=1, expect_ok=True)
    chk.add_tlc(r, 'NormStats 1x5')
    cs = list(r.json_prints())
    cases += chk.rng.sample(cs, 8000 if chk.thorough else 500)
    r = vlib.tlc('NormStats', 'SPECIFICATION Spec\nCONSTANTS Entries=4 '
                 'Values={0,1,2,3,4,5} MaxEvents=12 Simulated=TRUE\n' + inv,
                 workers=1, expect_ok=True,
                 extra=['-simulate', 'num=%d' % (
                     200 if chk.thorough else 20), '-depth', '250',
                     '-seed', str(chk.seed)])
    chk.add_tlc(r, 'NormStats 4x12 simulated')
    cases += list(r.json_prints())
    for i, c in enumerate(cases):
        if chk.stop:
            break
        c['constant'] = list(c['constant'] or [])
        bad = check_case(chk, c, i)
        chk.traces()
        if bad:
            chk.violation('statistics: ' + bad[0], bad, [bad, c, i])
        elif i % 2000 == 7:
            chk.sample(c)
    chk.assumptions += [
        'the batch axis is the first and the logarithm acts on the last '
        'axis (all that transform() supports)',
        'along reduced axes the averages of the means and of the standard '
        'deviations are used']
