"""Optimizers that ask for given points, and models for spec/FitRouting.tla."""
import numpy as np

import vlib
from source import configured  # noqa: F401

LN2 = np.log(2.)
_C = {}


class Env:
    """The optimizer: what it asks for and what it is told."""

    def __init__(self):
        self.reset(None, 0)

    def reset(self, points, best):
        self.points, self.best = points, best
        self.calls, self.told = [], []
        self.queue, self.directions = [], None
        self.flags, self.success = [], True

    def next(self):
        """Take the points of the next of several fits."""
        if self.queue:
            self.points, self.best = self.queue.pop(0)
            if self.flags:
                self.success = self.flags.pop(0)
            return True
        return False

    def evaluate(self, fun, *args):
        for p in self.points:
            x = np.array(p, dtype=np.float64)
            keep = x.copy()
            self.told.append(fun(x, *args))
            if not np.array_equal(keep, x):
                self.calls.append({'problem': 'point changed'})


ENV = Env()


def install():
    """Replace the optimizers (before the package is imported)."""
    if _C.get('installed'):
        return
    _C['installed'] = True
    import tensorflow as tf
    import tensorflow_probability as tfp
    import scipy.optimize as so
    _C['real'] = {'minimize': so.minimize, 'shgo': so.shgo,
                  'bfgs_minimize': tfp.optimizer.bfgs_minimize}

    def minimize(fun, x0, args=(), method=None, jac=None, hess=None,
                 bounds=None, **kw):
        last = bool(ENV.queue) and not ENV.queue[0]
        if last or not ENV.next() and ENV.points is None:
            if last:
                ENV.points = None
            return _C['real']['minimize'](
                fun, x0, args=args, method=method, jac=jac, hess=hess,
                bounds=bounds, **kw)
        args = args if isinstance(args, tuple) else (args,)
        c = {'x0': np.array(x0, dtype=float), 'method': method,
             'bounds': bounds, 'kw': kw, 'jac': jac, 'first': len(ENV.told)}
        ENV.calls.append(c)
        if callable(jac):
            ENV.evaluate(lambda x, *a: (fun(x, *a), jac(x, *a)), *args)
        else:
            ENV.evaluate(fun, *args)
        if hess is not None:
            c['hess'] = [hess(np.array(p), *args) for p in ENV.points]
        return so.OptimizeResult(x=np.array(ENV.points[ENV.best]),
                                 fun=0., success=ENV.success,
                                 hess_inv=np.eye(len(ENV.points[0])) * 2)

    def shgo(func, bounds, args=(), minimizer_kwargs=None, options=None,
             **kw):
        if ENV.points is None:
            return _C['real']['shgo'](
                func, bounds, args=args, minimizer_kwargs=minimizer_kwargs,
                options=options, **kw)
        args = args if isinstance(args, tuple) else (args,)
        c = {'bounds': bounds, 'minimizer': dict(minimizer_kwargs or {}),
             'options': dict(options or {})}
        ENV.next()
        ENV.calls.append(c)
        ENV.evaluate(func, *args)
        hess = c['minimizer'].get('hess')
        if hess is not None:
            c['hess'] = [hess(np.array(p), *args) for p in ENV.points]
        return so.OptimizeResult(x=np.array(ENV.points[ENV.best]), fun=0.,
                                 success=ENV.success)

    def spherical(func, initial_points=None, spherical_indices=(),
                  method=None, batch_size=1, **kw):
        ENV.next()
        ENV.calls.append({'initial': np.array(initial_points),
                          'spherical': spherical_indices})
        ENV.evaluate(func)
        return {'x': np.array(ENV.points[ENV.best]), 'fun': 0.,
                'success': ENV.success, 'n_calls': 1, 'nit': 1}

    def told(x, *res):
        ENV.told.append(tuple(np.array(r) for r in res))
        return np.float64(0)

    def tf_minimize(value_and_gradients_function, initial_position, **kw):
        if ENV.points is None:
            return _C['real']['bfgs_minimize'](
                value_and_gradients_function, initial_position, **kw)

        def start(x0):
            ENV.next()
            ENV.calls.append({'x0': np.array(x0), 'kw': kw})
            return np.array(ENV.points)[:, None].astype(x0.dtype)
        x0 = tf.convert_to_tensor(initial_position)
        xs = tf.numpy_function(start, [x0], x0.dtype)
        done = []
        for i in range(len(ENV.points)):
            x = tf.reshape(xs[i], tf.shape(x0))
            v, g = value_and_gradients_function(x)
            done.append(tf.numpy_function(told, [x, v, g], tf.float64))
        with tf.control_dependencies(done):
            best = tf.numpy_function(lambda p: p[ENV.best], [xs], x0.dtype)

            good = tf.reshape(tf.numpy_function(
                lambda: np.array([bool(ENV.success)]), [], tf.bool), [1])
        import collections
        R = collections.namedtuple('R', ['converged', 'failed', 'position'])
        return R(good, tf.logical_not(good),
                 tf.reshape(best, tf.shape(x0)))

    def sample_chain(num_results, current_state, kernel, **kw):
        k = kernel
        while not hasattr(k, 'target_log_prob_fn'):
            k = k.inner_kernel

        def start(x0):
            ENV.calls.append({'x0': np.array(x0), 'kw': kw})
            return np.array(ENV.points).astype(x0.dtype)
        x0 = tf.convert_to_tensor(current_state)
        xs = tf.numpy_function(start, [x0], x0.dtype)
        xs = tf.reshape(xs, x0.shape)
        lp = tf.reshape(k.target_log_prob_fn(xs), [x0.shape[0]])
        return tf.tile(xs[None], [num_results, 1, 1]), (
            tf.ones([num_results, x0.shape[0]], tf.bool),
            tf.tile(lp[None], [num_results, 1]))

    so.minimize, so.shgo = minimize, shgo
    tfp.optimizer.bfgs_minimize = tf_minimize
    tfp.mcmc.sample_chain = sample_chain
    from egenerator.utils import angles
    rotate = angles.get_delta_psi_vector

    def get_delta_psi_vector(zenith, azimuth, delta_psi, **kw):
        if ENV.directions is None:
            return rotate(zenith, azimuth, delta_psi, **kw)
        ENV.calls.append({'from': (np.array(zenith), np.array(azimuth)),
                          'delta_psi': np.array(delta_psi)})
        return ENV.directions
    get_delta_psi_vector.real = rotate
    angles.get_delta_psi_vector = get_delta_psi_vector
    from egenerator.utils import spherical_opt as module
    module.spherical_opt = spherical
    from egenerator.manager import source
    source.spherical_opt = spherical


def classes():
    if 'Factor' in _C:
        return _C
    import tensorflow as tf
    from egenerator.manager.component import BaseComponent, Configuration
    from egenerator.model.source.base import Source

    class Factor(Source):
        """Predicts the scalar product of the parameters with `a`."""

        def _build_architecture(self, config, name=None):
            return list(config['names'])

        def get_tensors(self, data_batch_dict, is_training,
                        parameter_tensor_name='x_parameters'):
            p = data_batch_dict[parameter_tensor_name]
            a = np.array(self.configuration.config['config']['a'], float)
            return {'y': tf.linalg.matvec(p, tf.constant(a, p.dtype))}

    class Terms(BaseComponent):
        """The loss of the specification."""

        def _configure(self, c, q):
            return (Configuration(class_string='fit.Terms',
                                  settings={'c': c, 'q': q}), {}, {})

        def get_loss(self, data_batch_dict, result_tensors, tensors, model,
                     parameter_tensor_name='x_parameters',
                     reduce_to_scalar=True, sort_loss_terms=False,
                     normalize_by_total_charge=False, **kwargs):
            cfg = self.configuration.config
            p = data_batch_dict[parameter_tensor_name]
            d = tf.cast(data_batch_dict['x_data'][:, 0], p.dtype)
            c, q = [tf.constant(np.array(cfg[k], float), p.dtype)
                    for k in 'cq']
            terms = [(result_tensors['y'] - d)**2,
                     tf.reduce_sum(p * c, axis=1),
                     tf.reduce_sum(q * p**2, axis=1)]
            if reduce_to_scalar:
                return tf.add_n([tf.reduce_sum(t) for t in terms])
            return terms

    for k in (Factor, Terms):
        k.__module__ = 'fit'
        k.__qualname__ = k.__name__
        globals()[k.__name__] = k
        _C[k.__name__] = k
    return _C


def direction(zenith, azimuth):
    return np.array([np.sin(zenith) * np.cos(azimuth),
                     np.sin(zenith) * np.sin(azimuth), np.cos(zenith)])


def value(cfg, j, m):
    return 2.**m - 1 if cfg['log'][j] else float(m)


def real(cfg, hs):
    """Values of a batch of hypotheses."""
    return np.array([[value(cfg, j, m) for j, m in enumerate(h)]
                     for h in hs])


def coord(cfg, space, j, m):
    if space == 'trafo':
        return (m - cfg['mu'][j]) / float(cfg['sg'][j])
    return value(cfg, j, m)


def point(cfg, space, mask, x):
    """Coordinates of a point of the fitted parameters of all events."""
    js = [j for j, f in enumerate(mask) if f]
    return np.array([[coord(cfg, space, j, m) for j, m in zip(js, r)]
                     for r in x])


def scale(cfg, space, mask):
    """The unit of derivatives."""
    return np.array([LN2 if cfg['log'][j] and space == 'trafo' else 1.
                     for j, f in enumerate(mask) if f])


def manager(cfg, names, dtype='float64', seeds=('a_seed', 'x_seed'),
            mapping=None, factor=None):
    """Manager of an ensemble for the configuration of a history."""
    import trafo as T
    from egenerator.data import trafo as trafo_module
    from egenerator.data.tensor import DataTensor
    from egenerator.manager.source import SourceManager
    install()
    trafo_module.tqdm = T.NoBar
    classes()
    n = len(cfg['log'])
    logs = list(cfg['log'])
    tensors = [DataTensor('x_parameters', [None, n], 'data', dtype,
                          trafo=True, trafo_log=logs),
               DataTensor('x_data', [None, 1], 'data', 'int32')] + [
                   DataTensor(s, [None, n], 'data', dtype) for s in seeds]
    nc = 0.25
    unit = np.array([LN2 if g else 1. for g in logs])
    mean = np.array(cfg['mu']) * unit
    std = np.array(cfg['sg']) * unit - nc
    batches = []
    for s in (-1, 1):
        raw = mean + s * std
        batches.append({'x_parameters': np.where(
            logs, np.expm1(raw), raw)[None].astype('float64'),
            'x_data': np.zeros([1, 1], 'int32')})
    handler = T.make_handler(tensors, batches)
    tr = T.new_trafo(handler, 2, data_iterator_settings={},
                     float_precision=dtype, norm_constant=nc)
    models = [configured((factor or _C['Factor'])(), data_trafo=tr, name='m%d' % i,
                         config={'names': list(names),
                                 'a': [int(x) for x in a]})
              for i, a in enumerate(cfg['members'])]
    man = configured(SourceManager(), data_handler=handler, models=models,
                     config={'I3ParticleMapping': {
                         'zenith': 'zen', 'azimuth': 'azi'}}
                     if mapping is None else mapping)
    loss = configured(_C['Terms'](), c=list(cfg['c']), q=list(cfg['q']))
    return man, loss
