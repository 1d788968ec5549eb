"""Real managers and models with stand-in data and losses (spec TrainLoop)."""
import os

import numpy as np

import ensemble

NAN, INF = 9999, 9998
_C = {}
FEED = {}       # batches of the iterators
TRACE = []      # evaluations of losses, in the order they happen


def number(x):
    return np.nan if x == NAN else np.inf if x == INF else float(x)


def classes():
    if _C:
        return _C
    import tensorflow as tf
    ensemble.classes()
    from egenerator.manager.component import BaseComponent, Configuration
    from egenerator.model.source.base import Source
    from egenerator.data.tensor import DataTensor, DataTensorList

    class Handler(BaseComponent):
        """Data handler: serves the batches of the history."""

        @property
        def tensors(self):
            return None if self.data is None else self.data['tensors']

        def _configure(self):
            ts = DataTensorList([
                DataTensor(name='x_parameters', shape=[None, 1],
                           tensor_type='data', dtype='float32', trafo=True),
                DataTensor(name='x_c', shape=[None], tensor_type='data',
                           dtype='float32'),
                DataTensor(name='x_d', shape=[None], tensor_type='data',
                           dtype='float32'),
                DataTensor(name='x_id', shape=[None], tensor_type='data',
                           dtype='int32')])
            return (Configuration(class_string='training.Handler',
                                  settings={}), {'tensors': ts}, {})

        def get_tf_dataset(self, which, **kwargs):
            items = FEED[which]
            n = len(items[0][1])
            m = len(items[0][2])
            v = {'x_parameters': np.zeros([len(items), 1, 1], np.float32),
                 'x_c': np.array([i[1] for i in items], np.float32).reshape(
                     len(items), n),
                 'x_d': np.array([i[2] for i in items], np.float32).reshape(
                     len(items), m),
                 'x_id': np.array([[i[0]] for i in items], np.int32)}
            return tf.data.Dataset.from_tensor_slices(
                tuple(v[k] for k in self.tensors.names))

    class Weights(Source):
        """The weights of the specification."""

        def _build_architecture(self, config, name=None):
            self._untracked_data['w'] = [
                tf.Variable(tf.zeros([v['size']]), name='w%d' % i)
                for i, v in enumerate(config['kinds'])]
            self._untracked_data['fixed'] = tf.Variable(
                [3., 4.], trainable=False, name='fixed')
            return ['a']

        def get_tensors(self, data_batch_dict, is_training,
                        parameter_tensor_name='x_parameters'):
            cfg = self.configuration.config['config']
            w = self._untracked_data['w']

            def record(i, *v):
                TRACE.append((int(i[0]), cfg['no'], is_training, np.concatenate(
                    [x.numpy() for x in v]).tolist()))
            tf.py_function(record, [data_batch_dict['x_id'], *w], [])
            a = cfg['first']
            loss = []
            for v, x in zip(cfg['kinds'], w):
                c = data_batch_dict['x_c'][a:a + v['size']]
                a += v['size']
                if v['kind'] == 'lin':
                    loss.append(tf.reduce_sum(c * x))
                elif v['kind'] == 'quad':
                    loss.append(tf.reduce_sum(c * tf.gather(
                        x, tf.range(v['size']))**2))
            d = data_batch_dict['x_d'][cfg['no']]
            return {'y': loss, 'd': d}

    class Loss(BaseComponent):

        def _configure(self, tag=0):
            return (Configuration(class_string='training.Loss',
                                  settings={'tag': tag}), {}, {})

        def get_loss(self, data_batch_dict, result_tensors, tensors, model,
                     parameter_tensor_name='x_parameters', scale=None,
                     **kwargs):
            # additional arguments of the settings arrive here
            s = tf.constant(float('nan') if scale is None else float(scale))
            return tf.add_n(result_tensors['y'] + [result_tensors['d']]) * s

    class Judge(BaseComponent):
        """Evaluation module: records what it gets."""

        def _configure(self, tag=0):
            return (Configuration(class_string='training.Judge',
                                  settings={'tag': tag}), {}, {})

        def evaluate(self, data_batch, loss_module, tensors, step, writer):
            d = {n: v.numpy() for n, v in zip(tensors.names, data_batch)}
            TRACE.append(('eval', int(d['x_id'][0]), int(step),
                          type(loss_module).__name__))

    for k in (Handler, Weights, Loss, Judge):
        k.__module__ = 'training'
        k.__qualname__ = k.__name__
        globals()[k.__name__] = k
        _C[k.__name__] = k
    return _C


def manager(directory, kinds, first):
    from egenerator.manager.source import SourceManager
    c = classes()
    h = ensemble.configured(c['Handler']())
    tr = ensemble.configured(ensemble.classes()['Trafo'](), data_handler=h)
    models = []
    for m, k in enumerate(kinds):
        models.append(ensemble.configured(
            c['Weights'](), name='m%d' % m, data_trafo=tr,
            config={'kinds': k, 'no': m, 'first': first[m]}))
    return ensemble.configured(
        SourceManager(), data_handler=h, models=models,
        config={'manager_dir': directory})


def load(directory):
    from egenerator.manager.source import SourceManager
    man = SourceManager()
    man.load(directory)
    return man


def flat(man):
    return [np.concatenate([v.numpy() for v in m._untracked_data['w']])
            .tolist() for m in man.models]


def summaries(directory):
    """Scalars of the logs: tag -> [(step, value)]."""
    import glob
    import tensorflow as tf
    res = {}
    for f in sorted(glob.glob(os.path.join(directory, '*tfevents*')),
                    key=os.path.getmtime):
        for e in tf.compat.v1.train.summary_iterator(f):
            for v in e.summary.value:
                x = tf.make_ndarray(v.tensor) if v.HasField('tensor') \
                    else v.simple_value
                res.setdefault(v.tag, []).append((e.step, float(x)))
    return res
