"""Drives BaseDataHandler.get_batch_generator under a controlled schedule."""
import os
import numpy as np

import vlib
import sched as sc


def make_handler_class():
    from egenerator.data.handler.base import BaseDataHandler
    from egenerator.manager.component import Configuration
    from egenerator import misc

    class DrivenHandler(BaseDataHandler):
        """Returns prepared data for file names; records every load."""
        def _configure_derived_class(self, config, config_data=None):
            return (Configuration(
                class_string=misc.get_full_class_string_of_object(self),
                settings=dict(config=config)), {'tensors': TENSORS[0]}, {})

        def __del__(self):
            # the garbage collector may run in the middle of another run
            pass

        def _get_data_from_hdf(self, file, *args, **kwargs):
            name = os.path.basename(file)
            if CTX.on_load is not None:
                CTX.on_load(name)
            entry = CTX.table(name) if callable(CTX.table) \
                else CTX.table[name]
            if entry is None:
                return None, None
            n, data = entry
            return n, tuple(None if d is None else np.array(d) for d in data)

    return DrivenHandler


class CTX:
    table = None        # basename -> (num_events, data) or None
    on_load = None


TENSORS = [None]
_cls = [None]


def handler(tensors):
    if _cls[0] is None:
        _cls[0] = make_handler_class()
    TENSORS[0] = tensors
    h = _cls[0]()
    h.configure(config={'k': 1})
    return h


def make_files(path, kinds):
    """kinds: 'missing' -> dangling link, otherwise an (empty) file."""
    names = []
    for i, k in enumerate(kinds):
        name = 'f%02d.h5' % i
        p = os.path.join(path, name)
        if os.path.lexists(p):
            os.remove(p)
        if k == 'missing':
            os.symlink(os.path.join(path, 'nowhere'), p)
        else:
            open(p, 'w').close()
        names.append(name)
    return names


def run_controlled(h, table, patterns, policy, gen_kwargs, max_batches=None,
                   consume=True, summarise=None, stall=2500, fair=1500,
                   np_seed=0, after=None, started=None):
    """One run of the generator; returns (events, sched).

    events: list of dicts with op load/batch/end/hang/error/dead.
    """
    import egenerator.data.handler.base as base
    s = sc.Sched(policy, stall=stall, fair=fair)
    CTX.table = table
    CTX.on_load = lambda name: s.event(op='load', f=name)
    if callable(table):
        CTX.on_load = None      # the table records what it delivers
        started(s)
    np.random.seed(np_seed)
    h._untracked_data['mp_processes'] = []
    h._untracked_data['mp_managers'] = []
    with sc.controlled(s, base):
        s.adopt('consumer')
        try:
            gen = h.get_batch_generator(patterns, **gen_kwargs)
            n = 0
            if not consume:
                # the consumer does not read: run until nobody can continue
                s.point(lambda: False)
            while max_batches is None or n < max_batches:
                try:
                    batch = next(gen)
                except StopIteration:
                    s.event(op='end')
                    break
                s.event(op='batch',
                        **(summarise(batch) if summarise else {}))
                n += 1
            else:
                s.event(op='cut')
            if after is not None:
                after(s, gen)
        except sc.Hang:
            s.event(op='hang', why=s.hang)
        except sc.Abort:
            s.event(op='hang', why='abort')
        except Exception as e:
            s.event(op='error', error='%s: %s' % (type(e).__name__, e))
        finally:
            s.aborted = True
    h._untracked_data['mp_processes'] = []
    h._untracked_data['mp_managers'] = []
    return s.events, s


def policy_for(i, rng, guides=None):
    """A mixture of scheduling policies."""
    k = i % 6
    if k == 0:
        return sc.RandomPolicy(rng)
    if k == 1:
        return sc.RandomPolicy(rng, 0.8)
    if k == 2:
        return sc.PriorityPolicy(rng, changes=rng.randrange(1, 6),
                                 horizon=rng.choice([40, 150, 400]))
    if k == 3:
        slow = rng.sample(['consumer', 'proc1', 'proc2', 'proc3', 'proc4'],
                          rng.choice([1, 1, 2]))
        return sc.SlowPolicy(rng, set(slow), rng.choice([60, 150, 400]))
    if k == 4 and guides:
        return sc.GuidedPolicy(rng.choice(guides), rng)
    return sc.RandomPolicy(rng, rng.choice([0.5, 0.95]))
