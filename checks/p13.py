"""P13: a multi source model is the exact superposition of its sources."""
import os

import numpy as np

import source as S
import vlib

LEVEL = 'model_checking'
C_LIGHT = 0.299792458


def rats(x):
    return np.array([[r[0] / float(r[1]) for r in row] for row in x])


def build_bases(used, trafo, zero):
    from egenerator.model.multi_source.independent import \
        IndependentMultiSource
    res = {}
    cls = S.classes()['Lin']

    def lin(b):
        conf = {'num': S.NP[b]}
        if not zero:
            conf['k'] = S.K[b]
        return S.configured(cls(), config=conf, data_trafo=trafo, name=b)
    for b in used:
        res[b] = lin(b) if b != 'm' else S.configured(
            IndependentMultiSource(), base_sources={'bb': lin('b'),
                                                    'aa': lin('a')},
            data_trafo=trafo, config={'sources': {'v': 'bb', 'u': 'aa'}})
    return res


def leaves(bases):
    for n, b in bases.items():
        if n == 'm':
            yield 'a', b.sub_components['aa']
            yield 'b', b.sub_components['bb']
        else:
            yield n, b


class Models:
    """Configured models by (listed, kind of trafo)."""

    def __init__(self, chk):
        self.chk, self.trafos, self.num = chk, {}, 0
        self.shared = {}
        for kind in ('none', 'exists', 'absent'):
            self.trafos[kind] = S.configured(S.classes()['Trafo'](),
                                             kind=kind)

    def get(self, case, i):
        from egenerator.model.multi_source.independent import \
            IndependentMultiSource
        kind = ('exists', 'none', 'exists', 'absent')[i % 4]
        trafo = self.trafos[kind]
        used = []
        for x in case['listed']:
            if x['base'] not in used:
                used.append(x['base'])
        reload = i % 12 == 5
        key = (tuple(used), kind)
        if not reload and key in self.shared:
            # the caller's bases may serve several models
            bases = self.shared[key]
        else:
            bases = build_bases(used, trafo, reload)
            if not reload:
                self.shared[key] = bases
        m = IndependentMultiSource()
        r = vlib.observe(
            m.configure, base_sources=bases, data_trafo=trafo,
            config={'sources': {'s%d' % x['name']: x['base']
                                for x in case['listed']}},
            name='multi')
        if r[0] != 'ok':
            return 'not configured', r
        if sorted(bases) != sorted(used):
            return "the caller's sources are changed", sorted(bases)
        if not reload:
            return kind, m
        # weights and component are saved and restored
        with vlib.scratch() as d:
            for b, leaf in leaves(bases):
                leaf._untracked_data['k'].assign(S.K[b])
            if i % 24 == 5:
                r = vlib.observe(m.save, os.path.join(d, 'c'))
                m2 = IndependentMultiSource()
                if r[0] == 'ok':
                    r = vlib.observe(m2.load, os.path.join(d, 'c'))
                m = m2
            else:
                r = vlib.observe(m.save_weights, os.path.join(d, 'w'))
                for b, leaf in leaves(bases):
                    leaf._untracked_data['k'].assign(-3.)
                if r[0] == 'ok':
                    r = vlib.observe(m.load_weights, os.path.join(d, 'w'))
            if r[0] != 'ok':
                return 'not restored', r
        self.chk.count('restored_models')
        return kind, m


def one(models, case, i):
    import tensorflow as tf
    kind, m = models.get(case, i)
    if kind not in models.trafos:
        return kind, m
    # names and positions
    total = case['total']
    if m.num_parameters != total or len(m.parameter_names) != total:
        return 'number of parameters', (m.parameter_names, total)
    var = {'n': [], 'a': ['p0', 'p1'], 'b': ['p0', 'p1', 'p2'],
           'm': ['u_p0', 'u_p1', 'v_p0', 'v_p1', 'v_p2']}
    base = {x['name']: x['base'] for x in case['listed']}
    for j, a in enumerate(case['at']):
        n = 's%d_%s' % (a['name'], var[base[a['name']]][a['var'] - 1])
        if m.parameter_names[j] != n or m.get_index(n) != j or \
                m.get_name(j) != n:
            return 'name of parameter', (j, n, m.parameter_names)
    # predictions
    pars = np.array(case['pars'], dtype=np.float32).reshape(
        len(case['pars']), total)
    ids, pulses = [], []
    for j, p in enumerate(case['pulses']):
        dom = (p['d'] - 1) + 3 * ((37 * j + 11 * i) % 1720)
        ids.append([p['e'] - 1, dom // 60, dom % 60])
        pulses.append([j + .5, p['t']])
    scale = 2.
    batch = {'x_pulses': tf.constant(np.array(pulses, np.float32)
                                     .reshape(-1, 2)),
             'x_pulses_ids': tf.constant(np.array(ids, np.int32)
                                         .reshape(-1, 3)),
             'x_scale': tf.constant(scale)}
    name = ('x_parameters', 'x_other')[i % 3 == 1]
    if i % 6 == 1:
        batch['x_parameters'] = tf.constant(pars[:, ::-1] + 3.)
    batch[name] = tf.constant(pars)
    kw = {} if name == 'x_parameters' else {'parameter_tensor_name': name}
    training = bool(i % 2)
    keys = sorted(batch)
    # mostly without building graphs, which takes long
    tf.config.run_functions_eagerly(i % 5 not in (0, 2))
    if i % 5 == 2:
        f = tf.function(lambda b: m.get_tensors(b, is_training=training,
                                                **kw))
        r = vlib.observe(f, batch)
    else:
        r = vlib.observe(m.get_tensors, batch, is_training=training, **kw)
    tf.config.run_functions_eagerly(False)
    if r[0] != 'ok':
        return 'get_tensors', r
    if sorted(batch) != keys:
        return 'inputs changed', sorted(batch)
    res = {k: v.numpy() for k, v in r[1].items()}
    d = S.DOMS % 3
    want = {'dom_charges': rats(case['charge'])[:, d][..., None],
            'dom_charges_variance': rats(case['variance'])[:, d][..., None],
            'pulse_pdf': np.array([x[0] / x[1] for x in case['pdf']])}
    if kind == 'exists':
        want['dom_cdf_exclusion_sum'] = \
            rats(case['cdf'])[:, d][..., None] * scale
    for k, w in want.items():
        if k not in res:
            return 'missing ' + k, sorted(res)
        if res[k].shape != w.shape or not np.allclose(
                res[k], w, rtol=1e-5, atol=1e-7):
            bad = np.argwhere(~np.isclose(res[k], w, rtol=1e-5)) \
                if res[k].shape == w.shape else []
            at = tuple(bad[0]) if len(bad) else ()
            return k, ('at', at, 'got', res[k][at], 'expected', w[at],
                       kind, name)
    return None


def track(case, i, model):
    """Sources on a line: parameters of the sources, and what is made of
    them."""
    import tensorflow as tf
    from egenerator.model.multi_source.track.stochastic_track import \
        StochasticTrackModel
    from egenerator.model.multi_source.muon.default import \
        DefaultMultiCascadeModel
    nc, ns = case['cascades'], case['sys'] if model == 'track' else 0
    trafo = S.configured(S.classes()['Trafo'](), kind='none')
    rec = S.classes()['Rec']
    bases = {'cascade': S.configured(rec(), config={'num': 7 + ns},
                                     data_trafo=trafo)}
    conf = {'num_cascades': nc}
    if model == 'track':
        t = S.configured(rec(), config={'num': 9 + ns}, data_trafo=trafo)
        bases = {'track': t, 'cascade': bases['cascade']} if i % 2 \
            else dict(bases, track=t)
        split = [ns] if i % 3 or not ns else [1, ns - 1]
        if ns or i % 2:
            conf['snowstorm_parameter_names'] = [
                ['sys%s_{:03d}' % 'ab'[k], n] for k, n in enumerate(split)]
    m = StochasticTrackModel() if model == 'track' \
        else DefaultMultiCascadeModel()
    r = vlib.observe(m.configure, base_sources=bases, data_trafo=trafo,
                     config=conf)
    if r[0] != 'ok':
        return 'not configured', r
    z, a = np.array(case['dir']) * np.pi / 2
    x = case['pos']
    e = 3. + np.arange(nc + 1)
    if model == 'track':
        val = {'zenith': z, 'azimuth': a, 'track_anchor_x': x[0],
               'track_anchor_y': x[1], 'track_anchor_z': x[2],
               'track_anchor_time': case['time'], 'track_energy': 77.,
               'track_distance_start': case['seg'][0],
               'track_distance_end': case['seg'][1],
               'track_stochasticity': 1.25}
        for k in range(nc):
            val['cascade_%04d_energy' % k] = e[k]
            if k:
                val['cascade_%04d_distance' % k] = case['dist'][k - 1]
        sysv = [20. + j for j in range(ns)]
        j = 0
        for k, n in enumerate(split):
            for q in range(n):
                val['sys%s_%03d' % ('ab'[k], q)] = sysv[j]
                j += 1
    else:
        val = {'x': x[0], 'y': x[1], 'z': x[2], 'zenith': z, 'azimuth': a,
               'time': case['time']}
        for k in range(nc):
            val['cascade_%04d_log_energy' % k] = np.log(e[k])
        sysv = []
    if sorted(m.parameter_names) != sorted(val) or \
            m.num_parameters != len(val) or \
            [m.get_index(n) for n in m.parameter_names] != \
            list(range(len(val))):
        return 'names of parameters', (m.parameter_names, sorted(val))
    row = np.array([val[n] for n in m.parameter_names])
    # the others of the batch are different
    pars = np.stack([row * 0.5 + 1, row, row - 0.25]).astype(np.float64)
    p = m.add_parameter_indexing(tf.constant(pars))
    r = vlib.observe(m.get_source_parameters, p)
    if r[0] != 'ok':
        return 'get_source_parameters', r
    got, want = r[1], {}
    for s in case['sources']:
        v = [c[0] / c[1] for c in s['v']['x']]
        t = s['v']['t'][0][0] + s['v']['t'][1][0] / s['v']['t'][1][1] / C_LIGHT
        if s['name'] == 'track':
            want['track'] = v + [z, a, 77., t, s['length'], 1.25] + sysv
        else:
            en = 0. if s.get('dark') else e[s['k']]
            want['cascade_%04d' % s['k']] = v + [z, a, en, t] + sysv
    if sorted(got) != sorted(want):
        return 'sources', (sorted(got), sorted(want))
    for n, w in want.items():
        if got[n].shape != (3, len(w)) or not np.allclose(
                got[n][1], w, rtol=1e-6, atol=1e-6):
            return 'parameters of source ' + n.split('_')[0], (
                n, got[n].shape, got[n][1:2].numpy(), w)
    # the same when the model is evaluated
    if i % 5 == 0:
        batch = {'x_parameters': tf.constant(pars.astype(np.float32)),
                 'x_pulses': tf.zeros([0, 2]),
                 'x_pulses_ids': tf.zeros([0, 3], tf.int32)}
        r = vlib.observe(m.get_tensors, batch, is_training=False)
        if r[0] != 'ok':
            return 'get_tensors', r
        q = np.zeros(60)
        for w in want.values():
            q[:len(w)] += w
        q2 = r[1]['dom_charges'].numpy()[1, 0, :, 0]
        if not np.allclose(q2, q, rtol=1e-4, atol=2e-2):
            return 'superposition', (q2, q)
    return None


def refusals(chk):
    """Names that cannot be told apart are refused."""
    from egenerator.model.multi_source.independent import \
        IndependentMultiSource
    trafo = S.configured(S.classes()['Trafo'](), kind='none')
    lin = S.classes()['Lin']
    a = S.configured(lin(), config={'num': 1, 'names': ['y_z']},
                     data_trafo=trafo)
    b = S.configured(lin(), config={'num': 1, 'names': ['z']},
                     data_trafo=trafo)
    m = IndependentMultiSource()
    r = vlib.observe(m.configure, base_sources={'a': a, 'b': b},
                     data_trafo=trafo,
                     config={'sources': {'x': 'a', 'x_y': 'b'}})
    chk.traces()
    if r[0] == 'ok' and [m.get_index(n) for n in m.parameter_names] \
            != [0, 1]:
        chk.violation('superposition: equal names of parameters',
                      m.parameter_names)


def run(chk):
    vlib.stub_git()
    inv = ''.join('INVARIANT %s\n' % x for x in
                  ('Additive', 'OneToOne', 'Separate', 'Emit'))
    r = vlib.tlc('MultiSource', 'SPECIFICATION Spec\nCONSTANTS MaxSources=3 '
                 'NumEvents=2 Values={0,1,2} Simulated=FALSE\n' + inv,
                 workers=1, expect_ok=True)
    chk.add_tlc(r, 'MultiSource 3 sources, all orders and bases')
    cases = list(r.json_prints())
    chk.rng.shuffle(cases)
    more = []
    for ms, ne in [(4, 3), (5, 1)]:
        r = vlib.tlc('MultiSource', 'SPECIFICATION Spec\nCONSTANTS '
                     'MaxSources=%d NumEvents=%d Values={0,1,2,5} '
                     'Simulated=TRUE\n%s' % (ms, ne, inv), workers=1,
                     expect_ok=True, extra=[
                         '-simulate', 'num=%d' % (6 if chk.thorough else 1),
                         '-depth', '60', '-seed', str(chk.seed)])
        chk.add_tlc(r, 'MultiSource %d sources simulated' % ms)
        more += list(r.json_prints())
    mix = []
    while cases or more:
        mix += cases[:3] + more[:1]
        del cases[:3], more[:1]
    refusals(chk)
    models = Models(chk)
    budget = 800 if chk.thorough else 50
    tracks = []
    for name in ('track', 'multi'):
        r = vlib.tlc('TrackSources', 'SPECIFICATION Spec\nCONSTANTS '
                     'Model="%s" MaxCascades=4 MaxSys=3\nINVARIANT OnLine\n'
                     'INVARIANT Nearest\nINVARIANT Emit\n' % name,
                     workers=1, expect_ok=True, extra=[
                         '-simulate', 'num=%d' % (6 if chk.thorough else 1),
                         '-depth', '80', '-seed', str(chk.seed)])
        chk.add_tlc(r, 'TrackSources ' + name)
        tracks += [(name, c) for c in r.json_prints()]
    for i, (name, c) in enumerate(tracks):
        if chk.stop:
            break
        bad = track(c, i, name)
        chk.traces()
        chk.count('lines')
        if bad:
            chk.violation('%s: %s' % (name, bad[0]), bad, [bad, c])
    for i, c in enumerate(mix):
        if chk.stop or chk.left(budget) < 0:
            break
        bad = one(models, c, i)
        chk.traces()
        chk.count('superpositions')
        if bad:
            chk.violation('superposition: ' + bad[0], bad, [bad, c, i])
        elif i % 100 == 7:
            chk.sample({k: c[k] for k in ('listed', 'at', 'pars')})
    chk.assumptions += [
        'base sources stand in for neural networks: they compute the '
        'integer functions of the specification',
        'the total charge of a DOM is not zero (its pulse likelihood and '
        'excluded fraction would be undefined)']
