"""P04: a data handler combines its modules into one set of events."""
import sys
import types

import numpy as np

import vlib

LEVEL = 'model_checking'
CASE = {}
MODS = {'data': 'data', 'label': 'labels', 'misc': 'misc',
        'weight': 'weights'}
DTYPES = ['float32', 'int64', 'float64', 'int32']


def norm_value(rank, e):
    return [1000. * rank + 10 * e, e]


def norm_shape(rank):
    return [(2,), (1, 2), (), (2, 1)][rank % 4]


def elem(rank, e, j):
    return [1e4 * rank + 100. * e + j, -e, j]


def file_order(tot, order):
    """Elements (e, j) of a vector in the order of the file."""
    els = [(e, j) for e in range(1, len(tot) + 1)
           for j in range(tot[e - 1])]
    if order == 'mixed':
        els.sort(key=lambda x: (x[1], -x[0]))
    elif order == 'backwards':
        els.sort(key=lambda x: (-x[0], x[1]))
    return els


def module_data(case, mod):
    """What a module returns: (num events, tensors in its own order)."""
    do = case['does'][mod]
    ts = sorted((t for t in case['tensors'] if t['mod'] == mod),
                key=lambda t: t['rank'])
    if not ts:
        return None, (None,)
    if do == 'skip':
        return None, None
    n = case['n'] + (1 if do == 'more' else 0)
    out = []
    for t in ts:
        r = t['rank']
        if not t['exists']:
            out.append(None)
        elif t['kind'] == 'norm':
            a = np.array([norm_value(r, e) for e in range(1, n + 1)],
                         dtype=DTYPES[r % 4]).reshape([-1, 2])
            if norm_shape(r) == ():
                a = a[:, 0]
            out.append(a.reshape((n,) + norm_shape(r)))
        else:
            els = file_order(case['tot'][r - 1], case['order'])
            els += [(e, 0) for e in range(case['n'] + 1, n + 1)]
            if t['kind'] == 'val':
                out.append(np.array([elem(r, e, j) for e, j in els],
                                    dtype='float32').reshape([-1, 3]))
            else:
                out.append(np.array([[e - 1, 7 * e + j] for e, j in els],
                                    dtype='int64').reshape([-1, 2]))
    return n, tuple(out)


def make_modules():
    from egenerator.manager.component import BaseComponent, Configuration
    from egenerator.data.tensor import DataTensor, DataTensorList
    for mod in MODS:
        def tensor_list(mod=mod):
            ts = []
            for t in CASE['tensors']:
                if t['mod'] != mod:
                    continue
                r = t['rank']
                kw = {'shape': (None,) + norm_shape(r),
                      'dtype': DTYPES[r % 4]}
                if t['kind'] != 'norm':
                    kw = {'shape': (None, 3 if t['kind'] == 'val' else 2),
                          'dtype': 'float32' if t['kind'] == 'val'
                          else 'int64',
                          'vector_info': {
                              'type': {'val': 'value',
                                       'idx': 'index'}[t['kind']],
                              'reference': 't%02d' % t['ref']}}
                ts.append(DataTensor(name='t%02d' % r, tensor_type=mod,
                                     exists=t['exists'], **kw))
            return DataTensorList(ts)

        class Module(BaseComponent):
            _mod = property(lambda self, mod=mod: mod)

            def _configure(self, config_data=None, tl=tensor_list, mod=mod):
                return Configuration(
                    class_string='vmod.Module',
                    settings={'config_data': config_data}), \
                    {mod + '_tensors': tl()}, {}

            def get_data_from_hdf(self, *a, mod=mod, **k):
                self._untracked_data['args'] = ('hdf', a, k)
                return module_data(CASE, mod)

            def get_data_from_frame(self, *a, mod=mod, **k):
                self._untracked_data['args'] = ('frame', a, k)
                return module_data(CASE, mod)

            def create_data_from_frame(self, *a, mod=mod, **k):
                self._untracked_data['args'] = ('create', a, k)
                return module_data(CASE, mod)

            def write_data_to_frame(self, data, frame, *a, mod=mod, **k):
                frame[mod] = list(data)
        sys.modules['egenerator.data.modules.%s.vmod' % MODS[mod]] = \
            types.SimpleNamespace(Module=Module)

    class Filter(BaseComponent):
        def _configure(self, config_data=None):
            return Configuration(class_string='vmod.Filter', settings={
                'config_data': config_data}), {}, {}

        def mask(self, file, tensors, num_events, batch, *a, **k):
            m = np.zeros(num_events, dtype=bool)
            m[[e - 1 for e in CASE['mask']]] = True
            return m if (num_events + len(CASE['mask'])) % 2 else list(m)
        get_event_filter_mask_from_hdf = mask
        get_event_filter_mask_from_frame = mask
    sys.modules['egenerator.data.modules.filters.vmod'] = \
        types.SimpleNamespace(Filter=Filter)


def new_handler():
    from egenerator.data.handler.modular import ModuleDataHandler
    h = ModuleDataHandler()
    config = {m + '_module': 'vmod.Module' for m in MODS}
    config.update({m + '_settings': {} for m in MODS})
    config.update({'filter_module': 'vmod.Filter', 'filter_settings': {}})
    with vlib.quiet():
        h.configure(config=config)
    return h


def compare(case, got, frame):
    """What is wrong with the returned (num, data), or None."""
    num, data = got
    names = ['t%02d' % (r + 1) for r in range(len(case['tensors']))]
    if num != len(case['mask']):
        return 'number of events %s' % num
    if len(data) != len(names):
        return 'number of tensors %s' % len(data)
    for r, (name, o, v) in enumerate(zip(names, case['out'], data), 1):
        if o['kind'] == 'none':
            if not (v is None or (frame and np.shape(v) == ())):
                return '%s: not existing, but %r' % (name, v)
        elif o['kind'] == 'norm':
            w = np.array([norm_value(r, e) for e in o['c']],
                         dtype=DTYPES[r % 4])
            w = w[:, 0] if norm_shape(r) == () else w
            w = w.reshape((len(o['c']),) + norm_shape(r))
            if np.shape(v) != w.shape or v.dtype != w.dtype or \
                    not np.array_equal(v, w):
                return '%s: %r, expected %r' % (name, v, w)
        else:
            # per event the elements in their order, wherever the events are
            total = sum(c['m'] for c in o['c'])
            width = 3 if o['kind'] == 'val' else 2
            if np.shape(v) != (total, width):
                return '%s: shape %s, expected %s' % (
                    name, np.shape(v), (total, width))
            if not isinstance(v, np.ndarray):
                return '%s: not an array: %r' % (name, v)
            if o['kind'] == 'idx':
                val = np.asarray(data[case['ref'][r] - 1])
                for p, c in enumerate(o['c']):
                    m = v[:, 0] == p
                    wv = [elem(case['ref'][r], c['e'], j)
                          for j in range(c['m'])]
                    wi = [[p, 7 * c['e'] + j] for j in range(c['m'])]
                    if v[m].tolist() != wi or \
                            len(val) != len(v) or \
                            not np.array_equal(val[m], np.array(
                                wv, dtype='float32').reshape([-1, 3])):
                        return '%s: event %d has %s with index %s' % (
                            name, p, val[m].tolist(), v[m].tolist())
    return None


def check_case(chk, case, h):
    CASE.clear()
    CASE.update(case)
    case['ref'] = {t['rank']: t['ref'] for t in case['tensors']}
    ways = [('hdf', lambda: h.get_data_from_hdf('file', key=4)),
            ('frame', lambda: h.get_data_from_frame({}, key=4)),
            ('create', lambda: h.create_data_from_frame({}, key=4))]
    for way, call in ways:
        got = vlib.observe(call)
        if case['result'] == 'error':
            if got[0] == 'ok':
                return way + ': modules disagree without an error', got
            continue
        if got[0] != 'ok':
            return way + ': unexpected error', got
        if case['result'] == 'skip':
            if got[1] != (None, None):
                return way + ': not skipped', got[1]
            continue
        if got[1][0] is None:
            return way + ': skipped', got[1]
        bad = compare(case, got[1], way == 'frame')
        if bad:
            return way + ': ' + bad.split(':')[0], bad
        for m in MODS:
            args = h.sub_components[m + '_module'].untracked_data['args']
            if args != (way, ('file' if way == 'hdf' else {},),
                        {'key': 4}):
                return way + ': arguments of the module', (m, args)
        if way == 'hdf':
            # what is written are the tensors of each module
            frame = {}
            w = vlib.observe(h.write_data_to_frame, got[1][1], frame)
            for m in MODS:
                ranks = sorted(t['rank'] for t in case['tensors']
                               if t['mod'] == m)
                want = [got[1][1][r - 1] for r in ranks]
                if w[0] != 'ok' or len(frame[m]) != len(want) or any(
                        a is not b for a, b in zip(frame[m], want)):
                    return 'written to frame', (m, frame.get(m), want)
    return None


def batches(chk, case, h):
    """The result can be divided into events and batched."""
    got = vlib.observe(h.get_data_from_hdf, 'file')
    num, data = got[1]
    for t in case['tensors']:
        if t['kind'] != 'val' or not t['exists']:
            continue
        v, i = data[t['rank'] - 1], data[t['ref'] - 1]
        r = vlib.observe(h.batch_to_event_structure, v, i, num)
        if r[0] != 'ok':
            return 'batch_to_event_structure', r
        r = vlib.observe(h.event_to_batch_structure, r[1][0], r[1][1], num)
        if r[0] != 'ok' or len(r[1][0]) != len(v):
            return 'event_to_batch_structure', r
    return None


def run(chk):
    vlib.stub_git()
    make_modules()
    cases = []
    for mode, n, mult in [('data', 3, 2), ('modules', 2, 1),
                          ('data', 5, 1), ('data', 4, 3)]:
        r = vlib.tlc('ModularHandler', 'SPECIFICATION Spec\nCONSTANTS '
                     'MaxEvents=%d MaxMult=%d Mode="%s"\n'
                     'INVARIANT Consistent\nINVARIANT Emit\n' % (
                         n, mult, mode), workers=1, expect_ok=True)
        chk.add_tlc(r, 'ModularHandler %s %d %d' % (mode, n, mult))
        cs = list(r.json_prints())
        if (n, mult) in ((4, 3), (5, 1)) and not chk.thorough:
            cs = chk.rng.sample(cs, min(3000, len(cs)))
        cases += cs
    handlers = {}
    for i, c in enumerate(cases):
        if chk.stop:
            break
        c['mult'] = list(c['mult'] or [])
        for r, o in enumerate(c['out'] or []):
            o['c'] = list(o['c'] or [])
        if c['lay'] not in handlers:
            CASE.clear()
            CASE.update(c)
            handlers[c['lay']] = new_handler()
        h = handlers[c['lay']]
        names = ['t%02d' % t for t in sorted(t['rank']
                                             for t in c['tensors'])]
        bad = None
        if h.tensors.names != names:
            bad = ('tensor order', h.tensors.names)
        bad = bad or check_case(chk, c, h)
        if not bad and c['result'] == 'give':
            bad = batches(chk, c, h)
        chk.traces()
        chk.count('result_' + c['result'])
        if bad:
            chk.violation('modular handler: ' + bad[0], bad, [bad, c])
        elif i % 5000 == 7:
            chk.sample(c)
