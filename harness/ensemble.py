"""Stand-ins for the parts of a model manager (specs CombinedLoss, Ensemble)."""
import numpy as np

from source import configured  # noqa: F401

_C = {}
DOMS = 2


def classes():
    if _C:
        return _C
    import tensorflow as tf
    from egenerator.manager.component import BaseComponent, Configuration
    from egenerator.model.source.base import Source
    from egenerator.data.tensor import DataTensor, DataTensorList

    class Handler(BaseComponent):
        """Data handler: describes the tensors of a batch."""

        @property
        def tensors(self):
            return None if self.data is None else self.data['tensors']

        def _configure(self, h=0, hm=0, num=None):
            ts = DataTensorList([
                DataTensor(name='x_parameters', shape=[None, num],
                           tensor_type='data', dtype='float64', trafo=True),
                DataTensor(name='x_seed', shape=[None, num],
                           tensor_type='data', dtype='float64'),
                DataTensor(name='x_bias', shape=[None],
                           tensor_type='data', dtype='float64')])
            return (Configuration(class_string='ensemble.Handler',
                                  settings={'h': h, 'num': num},
                                  mutable_settings={'hm': hm}),
                    {'tensors': ts}, {})

    class Trafo(BaseComponent):
        """Data transformation with settings and data."""

        def _configure(self, data_handler, t=0, tm=0, d=0):
            data = {'tensors': data_handler.tensors,
                    'x_mean': np.array([d % 2 * 1., 2.]), 'd': d}
            return (Configuration(class_string='ensemble.Trafo',
                                  settings={'t': t},
                                  mutable_settings={'tm': tm, 'd': d}), data, {})

    class Factor(Source):
        """The result is the factor times the first parameter."""

        def _build_architecture(self, config, name=None):
            self._untracked_data['v'] = tf.Variable(
                float(config['v']), dtype=tf.float64, name='v')
            self._untracked_data['calls'] = []
            return list(config['names'])

        def get_tensors(self, data_batch_dict, is_training,
                        parameter_tensor_name='x_parameters'):
            self._untracked_data['calls'].append(is_training)
            p = data_batch_dict[parameter_tensor_name]
            # further parameters and data have to be there, but are zero
            rest = tf.reduce_sum(p[:, 1:], axis=1) + \
                data_batch_dict['x_bias']
            return {'y': self._untracked_data['v'] * p[:, 0] + rest}

    class Leaf(BaseComponent):
        """Loss component with the terms of the specification."""

        def _configure(self, terms, tag=0):
            c = tf.constant
            n = 64
            # constant terms are the same objects in every call
            self._untracked_data['const'] = c(0., tf.float64)
            return (Configuration(class_string='ensemble.Leaf',
                                  settings={'terms': terms, 'tag': tag}),
                    {}, {})

        def get_loss(self, data_batch_dict, result_tensors, tensors, model,
                     parameter_tensor_name='x_parameters',
                     reduce_to_scalar=True, sort_loss_terms=False, shift=0,
                     **kwargs):
            kw = self._untracked_data.setdefault('kw', [])
            kw.append((parameter_tensor_name, model.parameter_names,
                       tuple(tensors.names), sorted(kwargs)))
            y = result_tensors['y']
            if 'expect' in kwargs:
                # the result tensors are those of the model passed on
                tf.debugging.assert_near(
                    y, model.untracked_data['v']
                    * data_batch_dict[parameter_tensor_name][:, 0])
            sh = tf.cast(shift, tf.float64)
            d = tf.range(1, DOMS + 1, dtype=tf.float64)[None]
            res = []
            for t in self.configuration.config['terms']:
                a, k = float(t['a']), float(t['c'])
                if t['shape'] == 's':
                    v = a * tf.reduce_sum(y) + k + sh
                elif t['shape'] == 'e':
                    v = a * y + k + sh
                else:
                    v = a * y[:, None] + k * d + sh
                res.append(k * tf.ones_like(v) if t['const'] else v)
            zero = [tf.zeros([], tf.float64), tf.zeros_like(y),
                    tf.zeros_like(y)[:, None] * d]
            if reduce_to_scalar:
                return tf.add_n([tf.reduce_sum(v) for v in res] + zero[:1])
            if sort_loss_terms:
                out = [tf.add_n([v for v in res if len(v.shape) == i] + [z])
                       for i, z in enumerate(zero)]
            else:
                out = res
            # the component keeps what it returns
            self._untracked_data.setdefault('kept', []).append(
                (out, list(out)))
            return out

    for k in (Handler, Trafo, Factor, Leaf):
        k.__module__ = 'ensemble'
        k.__qualname__ = k.__name__
        globals()[k.__name__] = k
        _C[k.__name__] = k
    return _C
