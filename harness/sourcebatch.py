"""Real source models and batches of spec/SourceBatch.tla for them."""
import numpy as np

import trafo
import vlib

CELL = 1000.            # ns
START = 10000.
# (string, DOM): two ordinary ones and one of high quantum efficiency
DOMS = [(20, 30), (80, 40), (50, 10)]
GRID = np.arange(-300, 601) * 100.      # ns, for integrals
SCALE = [0., .5, 1., 3.]
BASE = ['x', 'y', 'z', 'zenith', 'azimuth', 'energy', 'time']

CONV = dict(
    keep_prob=None, add_opening_angle=True, add_dom_coordinates=False,
    num_local_vars=0, scale_charge=True,
    scale_charge_by_relative_dom_efficiency=True,
    scale_charge_by_global_dom_efficiency=False,
    estimate_charge_distribution='negative_binomial', num_latent_models=2,
    filter_size_list=[[1, 1]] * 3, num_filters_list=[5, 8, 10],
    method_list=['locally_connected', 'convolution', 'convolution'],
    use_dropout_list=False, activation_list=['elu', 'elu', ''],
    use_batch_norm_list=False, use_residual_list=True)
SECOND = {k + '_2': CONV[k] for k in (
    'filter_size_list', 'method_list', 'use_dropout_list', 'activation_list',
    'use_batch_norm_list', 'use_residual_list')}
EFF = dict(snowstorm_parameter_names=[['DOMEfficiency', 1]])

# name: (class, configuration, time exclusions exist)
MODELS = {
    'cascade': ('cascade.default.DefaultCascadeModel', dict(
        CONV, scale_charge_by_global_dom_efficiency=True,
        num_local_vars=2, add_dom_coordinates=True, **EFF), True),
    'cascade_poisson': ('cascade.default.DefaultCascadeModel', dict(
        CONV, estimate_charge_distribution=False, num_latent_models=3,
        num_filters_list=[5, 8, 13], add_opening_angle=False,
        prevent_mixture_component_swapping=True, scale_charge=False,
        method_list=['convolution'] * 3,
        additional_label_names=['extra']), True),
    'cascade_gauss': ('cascade.default.DefaultCascadeModel', dict(
        CONV, estimate_charge_distribution=True,
        num_filters_list=[5, 8, 11], **EFF), False),
    'systematic': ('cascade.systematic.SystematicsCascadeModel', dict(
        CONV, num_filters_list=[5, 8, 4], add_anisotropy_angle=True,
        num_filters_list_2=[5, 8, 10],
        snowstorm_parameter_names=[['DOMEfficiency', 1], ['Par_{}', 1]],
        **SECOND), False),
    'quantile': ('cascade.charge_quantiles.ChargeQuantileCascadeModel', dict(
        CONV, add_predicted_charge_to_latent_vars=True,
        fc_num_filters_list=[9, 8], fc_use_dropout_list=False,
        fc_activation_list=['elu', ''], fc_use_batch_norm_list=False,
        fc_use_residual_list=True, fc_max_out_size_list=None), False),
    'track': ('track.stochastic_segment.StochasticTrackSegmentModel', dict(
        CONV, **EFF), False),
    'noise': ('noise.default.DefaultNoiseModel', {}, True),
    'noise_all': ('noise.default.DefaultNoiseModel', {}, False),
}


def tensors(num, exclusions, quantile):
    from egenerator.data.tensor import DataTensor
    return [
        DataTensor(name='x_parameters', shape=[None, num],
                   tensor_type='label', dtype='float32', trafo=num > 0,
                   trafo_log=[i == 5 for i in range(num)]),
        DataTensor(name='x_pulses', shape=[None, 3 if quantile else 2],
                   tensor_type='data', dtype='float32',
                   vector_info={'type': 'value',
                                'reference': 'x_pulses_ids'}),
        DataTensor(name='x_pulses_ids', shape=[None, 3], tensor_type='data',
                   dtype='int32', vector_info={'type': 'index',
                                               'reference': 'x_pulses'}),
        DataTensor(name='x_time_exclusions', shape=[None, 2],
                   tensor_type='data', dtype='float32', exists=exclusions)]


def new_trafo(num, exclusions, quantile=False, track=False):
    rng = np.random.RandomState(5)
    par = rng.uniform(0, 3, (50, num)).astype(np.float32)
    if num:
        par[:, :3] = rng.uniform(-400, 400, (50, 3))
        par[:, 5] = 10**rng.uniform(2, 5, 50)
        par[:, 6] = rng.uniform(9000, 11000, 50)
        if track:
            par[:, 7] = rng.uniform(10, 1000, 50)
    return trafo.new_trafo(
        trafo.make_handler(tensors(num, exclusions, quantile),
                           [{'x_parameters': par}] * 2), 2,
        data_iterator_settings={}, norm_constant=1e-6)


def load(path):
    import importlib
    mod, cls = path.rsplit('.', 1)
    return getattr(importlib.import_module(
        'egenerator.model.source.' + mod), cls)


class Model:
    """A configured source with weights drawn at random."""

    def __init__(self, kind, seed=0, num_labels=None, conf=None,
                 exclusions=None):
        path, c, excl = MODELS[kind]
        self.conf = dict(c, **(conf or {}))
        self.exclusions = excl if exclusions is None else exclusions
        self.kind, self.quantile = kind, kind == 'quantile'
        self.model = load(path)()
        num = 0 if kind.startswith('noise') else 7
        num += 2 * (kind == 'track')
        num += len(self.conf.get('additional_label_names', []))
        num += sum(n for _, n in
                   self.conf.get('snowstorm_parameter_names', []))
        with vlib.quiet():
            self.trafo = new_trafo(num if num_labels is None else num_labels,
                                   self.exclusions, self.quantile,
                                   kind == 'track')
            self.model.configure(config=self.conf, data_trafo=self.trafo)
        self.names = list(self.model.parameter_names)
        rng = np.random.RandomState(seed)
        width = {'track': .25, 'noise': .2}.get(kind[:5], .35)
        for v in self.model.variables:
            v.assign(rng.normal(0, width, v.shape))
        self.pdf = 'pulse_quantile_pdf' if self.quantile else 'pulse_pdf'
        self.fn = None

    def __call__(self, data):
        import tensorflow as tf
        if self.fn is None:
            self.fn = tf.function(
                lambda d: self.model.get_tensors(d, is_training=False),
                input_signature=[{
                    k: tf.TensorSpec([None] + list(v.shape[1:]), v.dtype)
                    for k, v in data.items()}])
        with vlib.quiet():
            r = vlib.observe(self.fn, data)
        if r[0] == 'ok':
            return 'ok', {k: v.numpy() for k, v in r[1].items()}
        return r


def hypotheses(coords):
    """Vertices near the DOMs; the last one hardly shines."""
    at = [coords[d] for d in DOMS]
    off = [np.array([30., 25., -40.]), np.array([-45., 60., 20.]),
           np.array([20., -30., 15.])]
    res = []
    for i, (zen, azi, en, length) in enumerate(
            [(.7, 1.1, 8000., 900.), (2.2, 4.0, 30000., 150.),
             (1.4, 5.5, 60., 20.)]):
        res.append(dict(zip('xyz', at[i] + off[i]), zenith=zen, azimuth=azi,
                        energy=en, length=length, stochasticity=.3 + .2 * i,
                        extra=.5 * i, Par_0=1. + .3 * i))
    return res


def row(names, hyp, event):
    v = dict(hyp)
    w = event['writing']
    if w == 1:
        v['azimuth'] += 2 * np.pi
    elif w == 2:
        v['zenith'], v['azimuth'] = -v['zenith'], v['azimuth'] + np.pi
    v['time'] = START + CELL * event['at']
    v['DOMEfficiency'] = SCALE[event['scale']]
    return [v[n] for n in names]


def make(model, hyps, events, grid=None):
    """The batch of tensors for these events.  With grid, all events have
    pulses at these times at all DOMs of interest."""
    import tensorflow as tf
    par, pulses, ids, excl, excl_ids, read = [], [], [], [], [], []
    measured = np.zeros((len(events), 86, 60, 1), np.float32)
    for i, e in enumerate(events):
        par.append(row(model.names, hyps[e['hyp'] - 1], e))
        read.append([START + CELL * (e['at'] + t) for t in e['read']])
        if grid is not None:
            t0 = START + CELL * e['at']
            for d in DOMS:
                for t in grid:
                    pulses.append([1., t0 + t, .5])
                    ids.append((i,) + d)
                measured[(i,) + d] = 5.
        for p in e['pulses']:
            d = DOMS[p['d'] - 1]
            pulses.append([p['q'] / 20., START + CELL * (p['t'] + .5),
                           {1: .05, 20: .4, 400: 1.}[p['q']]])
            ids.append((i,) + d)
            measured[(i,) + d] += p['q'] / 20.
        for w in e['windows']:
            excl.append([START + CELL * w['a'], START + CELL * w['b']])
            excl_ids.append((i,) + DOMS[w['d'] - 1])
    n = 3 if model.quantile else 2
    d = {'x_parameters': np.array(par, np.float32).reshape(
             len(events), len(model.names)),
         'x_pulses': np.array(pulses, np.float32).reshape(-1, 3)[:, :n],
         'x_pulses_ids': np.array(ids, np.int32).reshape(-1, 3),
         'x_time_exclusions': np.array(excl, np.float32).reshape(-1, 2),
         'x_time_exclusions_ids': np.array(excl_ids,
                                           np.int32).reshape(-1, 3),
         'x_time_window': np.array(read, np.float32).reshape(-1, 2),
         'x_dom_charge': measured}
    return {k: tf.constant(v) for k, v in d.items()}


def plain(h, scale=1, at=0, read=(0, 12), writing=0):
    return dict(hyp=h, writing=writing, scale=scale, at=at, read=list(read),
                pulses=[], windows=[])


class Multi:
    """A superposition of a cascade and noise."""
    kind, conf, quantile, pdf = 'multi', {}, False, 'pulse_pdf'

    def __init__(self, cascade, noise):
        from egenerator.model.multi_source.independent import \
            IndependentMultiSource
        self.exclusions = True
        self.model = IndependentMultiSource()
        with vlib.quiet():
            self.model.configure(
                base_sources={'c': cascade.model, 'n': noise.model},
                data_trafo=cascade.trafo,
                config={'sources': {'shower': 'c', 'noise': 'n'}})
        self.names = [n.split('_', 1)[1] for n in self.model.parameter_names]
        self.fn = None

    __call__ = Model.__call__
