"""Real Model objects for the checkpoint properties (P08-P10)."""
import glob
import hashlib
import os
import re

import numpy as np

import vlib

_M = [None]


def model_class():
    if _M[0] is None:
        import tensorflow as tf
        from egenerator.model.base import Model
        from egenerator.manager.component import Configuration

        class CkptModel(Model):
            def _configure_derived_class(self, **kwargs):
                configuration = Configuration(
                    class_string='ckpt.CkptModel', settings=kwargs)
                self._untracked_data['a'] = tf.Variable(
                    [0., 0.], dtype='float32', name='a')
                self._untracked_data['b'] = tf.Variable(
                    0, dtype='int32', trainable=False, name='b')
                return configuration, {}, {}
        CkptModel.__module__ = 'ckpt'
        CkptModel.__qualname__ = 'CkptModel'
        globals()['CkptModel'] = CkptModel
        _M[0] = CkptModel
    return _M[0]


def new_model():
    m = model_class()()
    m.configure(size=3)
    return m


def set_weights(m, w):
    m._untracked_data['a'].assign([float(w), -2. * w])
    m._untracked_data['b'].assign(w * 7)
    m.step.assign(w + 100)


def get_weights(m):
    """The weight number, or -1 if the variables do not belong together."""
    a = m._untracked_data['a'].numpy()
    b = int(m._untracked_data['b'].numpy())
    s = int(m.step.numpy())
    w = int(a[0])
    if w == 0 and b == 0 and list(a) == [0., 0.]:
        return 0
    if list(a) == [w, -2. * w] and b == 7 * w and s == w + 100:
        return w
    return -1


def ckpt_files(d):
    """number -> digest of the checkpoint's files."""
    res = {}
    for f in sorted(glob.glob(os.path.join(d, 'model_checkpoint_*'))):
        m = re.match(r'model_checkpoint_(\d+)\.', os.path.basename(f))
        n = int(m.group(1)) if m else -1
        with open(f, 'rb') as fh:
            res.setdefault(n, []).append(
                (os.path.basename(f), hashlib.md5(fh.read()).hexdigest()))
    return res


def record(d):
    import ruamel.yaml as yaml
    p = os.path.join(d, 'model_checkpoint.yaml')
    if not os.path.exists(p):
        return {'latest_checkpoint': 0, 'unprotected_checkpoints': {},
                'protected_checkpoints': {}}
    with open(p) as fh:
        return yaml.safe_load(fh)
