"""Stand-in data for the scripts (spec Workflow)."""
import sys
import types

import numpy as np

FEED = {}       # content of the data: 'trafo' -> number, 'slope' -> number
KILLED = []     # data handlers that were shut down
ASKED = []      # iterators that were made
THREADS = []
EVALUATED = []  # names of the evaluations with what the loss gives
BASE = 10.      # mean of the parameters per unit of content


def install():
    """Classes under the names configuration files use."""
    if 'Data' in globals():
        return
    import tensorflow as tf
    from egenerator.data.handler.modular import ModuleDataHandler
    from egenerator.data.tensor import DataTensor, DataTensorList
    from egenerator.manager.component import BaseComponent, Configuration
    from egenerator.model.multi_source.base import MultiSource
    from egenerator.model.source.base import Source

    class Data(BaseComponent):

        def _configure(self, config_data, kind, pulse_key='Pulses',
                       dom_exclusions_key=None):
            return (Configuration(
                class_string='workflow.Data',
                settings={'kind': kind, 'config_data': config_data},
                mutable_settings={'pulse_key': pulse_key,
                                  'dom_exclusions_key': dom_exclusions_key}),
                {'data_tensors': DataTensorList([DataTensor(
                    'x_g', [None, 1], 'data', 'float32')])}, {})

    class Labels(BaseComponent):

        def _configure(self, config_data, label_key='L', snowstorm_key=None):
            return (Configuration(
                class_string='workflow.Labels',
                settings={'config_data': config_data},
                mutable_settings={'label_key': label_key,
                                  'snowstorm_key': snowstorm_key}),
                {'label_tensors': DataTensorList([DataTensor(
                    'x_parameters', [None, 2], 'label', 'float32',
                    trafo=True, trafo_log=[False, False])])}, {})

    class Handler(ModuleDataHandler):
        """Serves the data of the current command."""

        def values(self, n, slope, par):
            v = {'x_g': np.full([n, 1], slope, np.float32),
                 'x_parameters': np.asarray(par, np.float32)}
            return tuple(v.get(t) for t in self.tensors.names)

        def get_batch_generator(self, **kw):
            ASKED.append(('generator', kw))
            m = BASE * FEED['trafo']
            for s in (-1, 1, -1, 1):
                yield self.values(1, 0, [[m + s, -s]])

        def get_tf_dataset(self, **kw):
            ASKED.append(('dataset', kw))
            v = self.values(1, FEED['slope'], [[1., 2.]])
            return tf.data.Dataset.from_tensors(v).repeat(100)

        def kill(self):
            KILLED.append(self)

    class Weight(Source):

        def _build_architecture(self, config, name=None):
            self._untracked_data['w'] = tf.Variable(
                float(config['w0']), name='w')
            return list(config['names'])

        def get_tensors(self, data_batch_dict, is_training,
                        parameter_tensor_name='x_parameters'):
            t = self.data_trafo.transform(
                data=data_batch_dict[parameter_tensor_name],
                tensor_name=parameter_tensor_name)
            return {'y': self._untracked_data['w'] + t[:, :1]}

    class Total(MultiSource):
        """The sum of its bases, each with its own normalisation."""

        def get_parameters_and_mapping(self, config, base_sources):
            return list(config['names']), {
                's' + b: b for b in sorted(base_sources)}

        def get_tensors(self, data_batch_dict, is_training,
                        parameter_tensor_name='x_parameters'):
            bases = [self.sub_components[b]
                     for b in self._untracked_data['sources'].values()]
            return {'y': tf.add_n([b.get_tensors(
                data_batch_dict, is_training, parameter_tensor_name)['y']
                for b in bases])}

    class Judge(BaseComponent):

        def _configure(self, config):
            return (Configuration(class_string='workflow.Judge',
                                  settings={'config': config}), {}, {})

        def evaluate(self, data_batch, loss_module, tensors, step, writer):
            one = {'y': tf.constant([[1.]])}
            EVALUATED.append((
                self.configuration.config['config']['name'],
                int(loss_module.get_loss({'x_g': tf.constant([[1.]])}, one,
                                         None, None))))

    class Scaled(BaseComponent):

        def _configure(self, config):
            return (Configuration(class_string='workflow.Scaled',
                                  settings={'config': config}), {}, {})

        def get_loss(self, data_batch_dict, result_tensors, tensors, model,
                     parameter_tensor_name='x_parameters',
                     reduce_to_scalar=True, **kwargs):
            s = float(self.configuration.config['config']['scale'])
            return s * tf.reduce_sum(
                data_batch_dict['x_g'] * result_tensors['y'])

    for k in (Data, Labels, Handler, Weight, Total, Judge, Scaled):
        k.__module__ = 'workflow'
        k.__qualname__ = k.__name__
        globals()[k.__name__] = k
    for where, k in (('data.handler', Handler), ('data.modules.data', Data),
                     ('data.modules.labels', Labels)):
        name = 'egenerator.%s.standin' % where
        m = types.ModuleType(name)
        setattr(m, k.__name__, k)
        sys.modules[name] = m
    for k in ('intra', 'inter'):
        setattr(tf.config.threading, 'set_%s_op_parallelism_threads' % k,
                THREADS.append)
