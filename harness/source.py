"""Base sources computing exactly what spec/MultiSource.tla says."""
import numpy as np

import vlib

_C = {}
NP = {'n': 0, 'a': 2, 'b': 3}
K = {'n': 1., 'a': 2., 'b': 7.}
DOMS = np.arange(86 * 60).reshape(86, 60)     # DOM i is of kind i % 3 + 1


def classes():
    if _C:
        return _C
    import tensorflow as tf
    from egenerator.manager.component import BaseComponent, Configuration
    from egenerator.model.source.base import Source
    from egenerator.data.tensor import DataTensor, DataTensorList

    class Trafo(BaseComponent):
        """Only tells whether there are time exclusions."""

        def _configure(self, kind):
            ts = [DataTensor(name='x_pulses', shape=[None, 2],
                             tensor_type='data', dtype='float32')]
            if kind != 'none':
                ts.append(DataTensor(
                    name='x_time_exclusions', shape=[None, 2],
                    tensor_type='data', dtype='float32',
                    exists=kind == 'exists'))
            return (Configuration(class_string='source.Trafo',
                                  settings={'kind': kind}),
                    {'tensors': DataTensorList(ts)}, {})

    class Lin(Source):
        def _build_architecture(self, config, name=None):
            self._untracked_data['k'] = tf.Variable(
                config.get('k', 0.), dtype=tf.float32, name='k')
            self._untracked_data['train'] = []
            if 'names' in config:
                return list(config['names'])
            return ['p%d' % i for i in range(config['num'])]

        def get_tensors(self, data_batch_dict, is_training,
                        parameter_tensor_name='x_parameters'):
            self.assert_configured(True)
            self._untracked_data['train'].append(is_training)
            p = data_batch_dict[parameter_tensor_name]
            ids = data_batch_dict['x_pulses_ids']
            t = data_batch_dict['x_pulses'][:, 1]
            n = self.num_parameters
            w = tf.reduce_sum(
                p * tf.range(1, n + 1, dtype=tf.float32), axis=-1)
            k = self._untracked_data['k']
            d = tf.constant((DOMS % 3 + 1)[None, :, :, None], tf.float32)
            one = tf.ones([1, 86, 60, 1])
            wd = w[:, None, None, None]
            return {
                'dom_charges': k + d + d * wd,
                'dom_charges_variance': (3 * k + wd) * one,
                'pulse_pdf': k + t * (1 + tf.gather(w, ids[:, 0])),
                'dom_cdf_exclusion_sum':
                    (k + 2 * d + wd) * data_batch_dict['x_scale'],
            }

    class Rec(Source):
        """The charges of the first DOMs are the parameters."""

        def _build_architecture(self, config, name=None):
            return ['p%d' % i for i in range(config['num'])]

        def get_tensors(self, data_batch_dict, is_training,
                        parameter_tensor_name='x_parameters'):
            p = data_batch_dict[parameter_tensor_name]
            m = tf.pad(p, [[0, 0], [0, 60 - self.num_parameters]])
            q = tf.pad(m[:, None, :, None],
                       [[0, 0], [0, 85], [0, 0], [0, 0]])
            return {'dom_charges': q, 'dom_charges_variance': q,
                    'pulse_pdf': data_batch_dict['x_pulses'][:, 1]}

    for c in (Trafo, Lin, Rec):
        c.__module__ = 'source'
        c.__qualname__ = c.__name__
        globals()[c.__name__] = c
        _C[c.__name__] = c
    return _C


def configured(obj, **kw):
    with vlib.quiet():
        obj.configure(**kw)
    return obj
