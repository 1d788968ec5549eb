"""A data handler stand-in that delivers given batches, for DataTransformer."""
import numpy as np

import vlib


def make_handler(tensors, batches, log=None):
    from egenerator.data.handler.base import BaseDataHandler
    from egenerator.data.tensor import DataTensorList
    from egenerator.manager.component import Configuration

    class Handler(BaseDataHandler):
        def _configure_derived_class(self, config, config_data=None):
            return (Configuration(class_string='vtrafo.Handler',
                                  settings={'config': config}),
                    {'tensors': DataTensorList(tensors)}, {})

        def get_batch_generator(self, **settings):
            if log is not None:
                log.append(settings)
            names = self.tensors.names

            def gen():
                for b in batches:
                    yield tuple(b.get(n) for n in names)
            return gen()

        def kill(self):
            pass   # there are no processes to be ended

    h = Handler()
    with vlib.quiet():
        h.configure(config={})
    return h


class NoBar:
    def __new__(cls, it, *a, **k):
        return it


def new_trafo(handler, num_batches, **kw):
    from egenerator.data import trafo
    t = trafo.DataTransformer()
    with vlib.quiet():
        t.configure(data_handler=handler, num_batches=num_batches, **kw)
    return t


def rat(r):
    return r[0] / float(r[1])


def raw(k, logged):
    """The raw number a value stands for."""
    return np.expm1(k) if logged else k
