"""P19: piecewise learning rate schedules."""
import sys
import types

import numpy as np

import vlib

LEVEL = 'model_checking'
INV = 'INVARIANT Responsible\nINVARIANT Emit\nPROPERTY NoGaps\n'


def config(small, parts, bound, last):
    return ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n%s'
            'CONSTANT Small = %s\nCONSTANT MaxParts = %d\n'
            'CONSTANT MaxBound = %d\nCONSTANT Last = %d\n' % (
                INV, 'TRUE' if small else 'FALSE', parts, bound, last))


def run(chk):
    small = (5, 6, 9) if not chk.thorough else (7, 9, 13)
    jobs = [('LRSchedule', config(True, *small), {'expect_ok': True}),
            ('LRSchedule', config(False, 6, 11, 25), {'expect_ok': True})]
    jobs[1] = jobs[1][:2] + ({'expect_ok': True, 'extra': [
        '-seed', str(chk.rng.randrange(10 ** 6))]},)
    cases = []
    for r in vlib.tlc_all(jobs):
        chk.add_tlc(r, 'LRSchedule')
        cases += list(r.json_prints())
    if len(cases) < 120:
        raise vlib.MachineryError('only %d schedules' % len(cases))
    chk.rng.shuffle(cases)
    vlib.parallel(chk, replay, cases if chk.thorough else cases[:240])


def replay(chk, cases):
    vlib.setup_environment()
    import tensorflow as tf
    from egenerator.utils.learning_rate import MultiLearningRateScheduler
    schedules = tf.optimizers.schedules

    class Probe(schedules.LearningRateSchedule):
        """Shows which part it is and the step it was given."""

        def __init__(self, offset):
            super().__init__()
            self.offset = offset

        def __call__(self, step):
            return self.offset + tf.cast(step, tf.float32)

        def get_config(self):
            return {'offset': self.offset}

    module = types.ModuleType('egv_schedules')
    module.Probe = Probe
    sys.modules['egv_schedules'] = module
    keras = 'tensorflow.keras.optimizers.schedules.'

    def leaf(i, j, kind, scale):
        if kind == 'probe':
            return {'full_class_string': 'egv_schedules.Probe',
                    'settings': {'offset': (10 * i + j) * 1e4}}
        k = (i + 3 * j) % 3
        if k == 0:
            return {'full_class_string': keras + 'PolynomialDecay',
                    'settings': dict(initial_learning_rate=i + .1 * j,
                                     decay_steps=20 * scale,
                                     end_learning_rate=.01 * i)}
        if k == 1:
            return {'full_class_string': keras + 'ExponentialDecay',
                    'settings': dict(initial_learning_rate=i + .1 * j,
                                     decay_steps=3 * scale,
                                     decay_rate=.7)}
        return {'full_class_string': keras + 'InverseTimeDecay',
                'settings': dict(initial_learning_rate=i + .1 * j,
                                 decay_steps=2 * scale, decay_rate=.5)}

    multi = 'egenerator.utils.learning_rate.MultiLearningRateScheduler'

    def build(case, kind, scale, dtype):
        def scaled(b):
            return [dtype(x * scale) for x in b]
        leaves, parts = {}, []
        for i, p in enumerate(case['parts'], 1):
            if not p:
                parts.append(leaf(i, 0, kind, scale))
                leaves[i, 0] = parts[-1]
            else:
                sub = [leaf(i, j, kind, scale)
                       for j in range(1, len(p) + 2)]
                leaves.update({(i, j): s for j, s in enumerate(sub, 1)})
                parts.append({'full_class_string': multi, 'settings': {
                    'boundaries': scaled(p), 'scheduler_settings': sub}})
        return (MultiLearningRateScheduler(scaled(case['bounds']), parts),
                leaves, parts)

    def step_of(kind, x):
        return {'int': lambda: x, 'numpy': lambda: np.int64(x),
                'int32': lambda: tf.constant(x, tf.int32),
                'int64': lambda: tf.constant(x, tf.int64),
                'float': lambda: tf.constant(float(x)),
                'variable': lambda: tf.Variable(x, dtype=tf.int64)}[kind]()

    import warnings
    warnings.filterwarnings('ignore')
    from egenerator import misc
    for n, case in enumerate(cases):
        if chk.stop:
            break

        def bad(what, detail):
            chk.violation('%s:%d intervals' % (what, len(case['parts'])),
                          {'what': what, 'detail': detail},
                          {'case': case, 'detail': detail})
        kind = ['probe', 'keras'][n % 4 == 3]
        scale = chk.rng.choice([1, 1, 7, 1000]) if kind == 'keras' else 1
        try:
            m, leaves, parts = build(case, kind, scale,
                                     chk.rng.choice([int, int, float]))
            if n % 5 == 4:
                m = MultiLearningRateScheduler.from_config(m.get_config())
            mode = chk.rng.choice(['int', 'numpy', 'int32', 'int64', 'float',
                                   'int64', 'variable', 'graph', 'optimizer'])
            if mode == 'optimizer':
                # the sum of all learning rates so far
                opt = tf.optimizers.SGD(learning_rate=m)
                w = tf.Variable(0., dtype=tf.float64)
            if mode == 'graph':
                f = tf.function(lambda x: m(x))
            subs = {k: misc.load_class(s['full_class_string'])(
                **s['settings']) for k, s in leaves.items()}
            steps = list(enumerate(case['paths']))
            if mode != 'optimizer' and len(steps) > 10:
                near = {b + d for b in case['bounds'] for d in (0, 1)}
                steps = [s for s in steps if s[0] in near or
                         chk.rng.random() < .3]
            for s, (i, j, local) in steps:
                if mode == 'optimizer':
                    if scale != 1:
                        break
                    before = float(w.numpy())
                    opt.apply_gradients([(tf.constant(-1., tf.float64), w)])
                    got = float(w.numpy()) - before
                else:
                    x = step_of('int64' if mode == 'graph' else mode,
                                s * scale)
                    got = float(f(x) if mode == 'graph' else m(x))
                want = float(subs[i, j](tf.constant(local * scale, tf.int64)))
                chk.count('steps')
                if abs(got - want) > 1e-5 * max(1., abs(want)):
                    bad('learning rate', (mode, s * scale, got, want, i, j))
                    break
            # far behind the last boundary
            far = 10 ** 6
            if case['parts'][-1] == [] and mode != 'optimizer':
                b = (case['bounds'] or [0])[-1] * scale
                got = float(m(tf.constant(far + b, tf.int64)))
                want = float(subs[len(case['parts']), 0](
                    tf.constant(far, tf.int64)))
                if abs(got - want) > 1e-5 * max(1., abs(want)):
                    bad('learning rate', ('far', got, want))
        except Exception as e:
            import traceback
            bad('exception', traceback.format_exc()[-600:] + repr(e)[:300])
            continue
        # numbers of boundaries and schedules that do not agree
        for b, p in ((case['bounds'] + [10 ** 3], parts),
                     (case['bounds'], parts + parts[:1]),
                     (case['bounds'], parts[:-1])):
            try:
                MultiLearningRateScheduler(b, p)
            except ValueError:
                continue
            except Exception as e:
                bad('other error', repr(e))
                continue
            bad('accepted', (b, len(p)))
        chk.traces()
        chk.count('mode_' + mode)
        chk.sample(case)
