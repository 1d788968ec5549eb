"""P22: filters, seeds and labels of events."""
import collections
import math
import os
import sys
import types

import numpy as np

import vlib

LEVEL = 'model_checking'
IDS = [('Run', 'u4'), ('Event', 'u4'), ('SubEvent', 'u4'),
       ('SubEventStream', 'u4'), ('exists', 'u1')]
NAN, NOTHING = 99, 77
LIGHT = 0.299792458


def config(invariants, small, **values):
    return ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' +
            ''.join('INVARIANT %s\n' % x for x in invariants) +
            'CONSTANT Small = %s\n' % ('TRUE' if small else 'FALSE') +
            ''.join('CONSTANT %s = %d\n' % x for x in values.items()))


def records(small, e, c):
    return ('EventRecords', config(
        ('Monotone', 'Trichotomy', 'NothingReplaced', 'NothingInvented',
         'Emit'), small, MaxEvents=e, MaxConstraints=c))


def labels(small, e, c, s):
    return ('EventLabels', config(
        ('Widths', 'SamePlaces', 'Unshifted', 'Emit'), small, MaxEvents=e,
        MaxCascades=c, MaxSnow=s))


class Vector3:
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Particle:
    """Stand-in for particles: position and direction are nested."""

    def __init__(self, values):
        self.pos, self.dir = Vector3(), Vector3()
        for k, v in values.items():
            if k in ('x', 'y', 'z'):
                setattr(self.pos, k, v)
            elif k in ('zenith', 'azimuth'):
                setattr(self.dir, k, v)
            else:
                setattr(self, k, v)


class Plain:
    """Stand-in for objects with attributes."""

    def __init__(self, values):
        self.__dict__.update(values)


def icecube():
    pkg = types.ModuleType('icecube')
    dc = types.ModuleType('icecube.dataclasses')
    dc.I3Particle = Particle
    dc.I3RecoPulseSeriesMapMask = type('Mask', (dict,), {})
    dc.I3RecoPulseSeriesMapUnion = type('Union', (dict,), {})
    pkg.dataclasses = dc
    sys.modules['icecube'] = pkg
    sys.modules['icecube.dataclasses'] = dc


def number(v):
    return math.nan if v == NAN else v / 2


class World:

    def __init__(self, chk, case, path):
        self.chk, self.case, self.path, self.rng = chk, case, path, chk.rng
        self.mode = 'setup'

    def bad(self, what, detail=None):
        self.chk.violation(
            '%s:%s' % (self.mode, what), {
                'what': what, 'detail': detail,
                'case': {k: self.case[k] for k in self.case
                         if k in ('cons', 'opt', 'seeds', 'params', 'lack')}},
            {'case': self.case, 'detail': detail})
        return False

    def ids(self, n):
        ids = set()
        while len(ids) < n:
            ids.add((self.rng.choice([7, 4000]), self.rng.choice([1, 2, 30]),
                     self.rng.randrange(2), self.rng.choice([0, 6])))
        ids = list(ids)
        self.rng.shuffle(ids)
        return [i + (1,) for i in ids]

    def write(self, tables_):
        import tables
        name = os.path.join(self.path, 'x.hdf5')
        with tables.open_file(name, 'w') as f:
            for key, columns, rows in tables_:
                f.create_table('/', key, np.array(
                    rows, dtype=IDS + columns))
        return name

    def table(self, ids, key, columns, more=False):
        """Columns {name: values of all events}."""
        names = list(columns)
        self.rng.shuffle(names)
        return (key, [(c, self.types.get(c, 'f8')) for c in names],
                [i + tuple(columns[c][e] for c in names)
                 for e, i in enumerate(ids)])

    @staticmethod
    def vectors(ids, key, values):
        return (key, [('vector_index', 'u4'), ('item', 'f8')],
                [ids[e] + (k, x) for e, v in enumerate(values)
                 for k, x in enumerate(v)])

    types = {}

    def call(self, f, *args):
        try:
            return f(*args), None
        except Exception as e:
            return None, e


class Records(World):

    def constraints(self):
        return [(('V', c['idx']) if c['vec'] else ('T', c['col'])) +
                (c['op'], number(c['thr'])) for c in self.case['cons']]

    def settings(self):
        case = self.case
        o = case['opt']
        s = dict(config_data='x', seed_names=list(case['seeds']),
                 seed_parameter_names=list(case['params']),
                 float_precision=self.precision)
        d = {p: v / 4 for p, v in o['dict'].items() if v != NOTHING}
        if d or self.rng.random() < .5:
            s['missing_value_dict'] = d
        if o['value'] != NOTHING:
            s['missing_value'] = o['value'] / 4
        return s

    def run(self):
        from egenerator.data.modules.filters.general_filter import \
            GeneralFilterModule
        from egenerator.data.modules.misc.seed_loader import \
            SeedLoaderMiscModule
        case = self.case
        n = case['n']
        self.precision = self.rng.choice(['float32', 'float64'])
        flt = GeneralFilterModule()
        flt.configure(config_data=None, constraints=self.constraints())
        seed = SeedLoaderMiscModule()
        seed.configure(**self.settings())
        ids = self.ids(n + 1)
        tabs = []
        if 't' in case['has']:
            tabs.append(self.table(ids[:n], 'T', {
                c: [number(x) for x in v] for c, v in case['tab'].items()}))
        if 'v' in case['has']:
            tabs.append(self.vectors(ids, 'V', [
                [number(x) for x in v] for v in case['vec']]))
        for s, d in case['srows'].items():
            if d['exists']:
                tabs.append(self.table(ids[:d['n']], s, {
                    c: [x / 2 for x in d['rows'][c]] for c in d['cols']}))
        name = self.write(tabs)
        self.mode = 'filter of file'
        mask, e = self.call(flt.get_event_filter_mask_from_hdf,
                            name, None, n, [])
        want = [d == 'pass' for d in case['decision']]
        if e is None:
            if np.shape(mask) != (n,) or list(np.asarray(mask)) != want:
                return self.bad('decisions', (mask, case['decision']))
        elif not case['filerefused']:
            return self.bad('exception', repr(e))
        self.chk.count('decisions', n)
        self.mode = 'seeds of file'
        r, e = self.call(seed.get_data_from_hdf, name)
        rows = case['srows'][case['seeds'][0]]['n']
        if not self.judge(seed, r, e, range(rows)):
            return False
        for i in range(n):
            frame = self.frame(i)
            self.mode = 'filter of frame'
            mask, e = self.call(flt.get_event_filter_mask_from_frame,
                                frame, None, 1, [])
            if e is None:
                if np.shape(mask) != (1,) or mask[0] != want[i]:
                    return self.bad('decision', (mask, case['decision'][i]))
            elif case['decision'][i] != 'refused':
                return self.bad('exception', repr(e))
            self.mode = 'seeds of frame'
            r, e = self.call(self.rng.choice([
                seed.get_data_from_frame, seed.create_data_from_frame]),
                frame)
            if not self.judge(seed, r, e, [i]):
                return False
        return self.handler(name, ids)

    def frame(self, i):
        case, rng = self.case, self.rng
        frame = {}
        if 't' in case['has']:
            row = {c: number(v[i]) for c, v in case['tab'].items()}
            frame['T'] = row if rng.random() < .5 else Plain(row)
        if 'v' in case['has']:
            frame['V'] = [number(x) for x in case['vec'][i]]
        for s, d in case['srows'].items():
            if not d['exists']:
                continue
            row = {c: d['rows'][c][i] / 2 for c in d['cols']}
            if {'x', 'azimuth'} <= set(row) and rng.random() < .5:
                row = Particle(row)
            frame[s] = row
        return frame

    def judge(self, m, r, e, events):
        out = self.case['out']
        events = list(events)
        refused = out['refused'] and self.mode == 'seeds of file'
        if e is not None:
            return refused or self.bad('exception', repr(e))
        size, data = r
        if out['skipped']:
            if size is None and data is None:
                self.chk.count('skipped')
                return True
            return self.bad('loaded with missing values', r)
        if refused:
            return size is None or self.bad('seeds of unequal length', r)
        if size != len(events):
            return self.bad('number of events', (size, events))
        names = m.data['misc_tensors'].names
        if len(data) != len(names) or set(names) != set(self.case['seeds']):
            return self.bad('tensors', names)
        for t, x in zip(m.data['misc_tensors'].list, data):
            x = np.asarray(x)
            want = np.array([out['data'][t.name][i] for i in events],
                            dtype=float)
            # missing values are given in other units
            cols = self.case['srows'][t.name]['cols']
            for k, p in enumerate(self.case['params']):
                want[:, k] /= 2 if p in cols else 4
            if str(x.dtype) != self.precision or x.shape != want.shape or \
                    not np.array_equal(x, want):
                return self.bad('values of seeds', (t.name, x, want))
            self.chk.count('seeds')
        return True

    def handler(self, name, ids):
        """All modules together."""
        from egenerator.data.handler.modular import ModuleDataHandler
        import tables
        case, n, out = self.case, self.case['n'], self.case['out']
        if case['filerefused'] or out['skipped'] or out['refused']:
            return True
        if self.rng.random() > .3 or case['srows'][case['seeds'][0]]['n'] > n:
            return True
        self.mode = 'data handler'

        class Handler(ModuleDataHandler):
            def kill(self):
                pass
        mark = {c: [100 * (k + 1) + e for e in range(n)]
                for k, c in enumerate(CASCADE)}
        pulses = [(e, 1 + (e + k) % 86, 1 + k, 10. * e + k)
                  for e in range(n) for k in range((3 * e + 2) % 4)]
        self.rng.shuffle(pulses)
        with tables.open_file(name, 'a') as f:
            for key, columns, rows in [
                    self.table(ids[:n], 'LabelsDeepLearning', mark),
                    ('Pulses', [('string', 'i4'), ('om', 'u4'), ('pmt', 'u1'),
                                ('vector_index', 'u4'), ('time', 'f8'),
                                ('width', 'f4'), ('charge', 'f4')],
                     [ids[e] + (s, o, 0, k, t, 8., t + 1)
                      for k, (e, s, o, t) in enumerate(pulses)])]:
                f.create_table('/', key, np.array(rows, dtype=IDS + columns))
        h = Handler()
        h.configure(config={
            'data_module': 'pulse_data.PulseDataModule',
            'data_settings': dict(
                pulse_key='Pulses', dom_exclusions_key=None,
                time_exclusions_key=None, float_precision=self.precision,
                add_charge_quantiles=False,
                discard_pulses_from_excluded_doms=False),
            'label_module': 'cascades.CascadeGeneratorLabelModule',
            'label_settings': dict(
                shift_cascade_vertex=False, trafo_log=False,
                float_precision=self.precision),
            'weight_module': 'dummy.DummyWeightModule',
            'weight_settings': {},
            'misc_module': 'seed_loader.SeedLoaderMiscModule',
            'misc_settings': {k: v for k, v in self.settings().items()
                              if k != 'config_data'},
            'filter_module': 'general_filter.GeneralFilterModule',
            'filter_settings': dict(constraints=self.constraints())})
        keep = [e for e in range(n) if case['decision'][e] == 'pass']
        if not self.together(h, self.call(h.get_data_from_hdf, name),
                             keep, mark, pulses):
            return False
        self.mode = 'data handler with frames'
        for i in range(n):
            frame = self.frame(i)
            frame['LabelsDeepLearning'] = {
                c: v[i] for c, v in mark.items()}
            frame['Pulses'] = collections.OrderedDict()
            for e, s, o, t in pulses:
                if e == i:
                    frame['Pulses'].setdefault(OMKey(s, o, 0), []).append(
                        Pulse(t, 8., t + 1))
            if not self.together(
                    h, self.call(h.get_data_from_frame, frame),
                    [i] if i in keep else [], mark, pulses):
                return False
        return True

    def together(self, h, result, keep, mark, pulses):
        r, e = result
        if e is not None:
            return self.bad('exception', repr(e))
        size, data = r
        if not keep:
            return size is None and data is None or self.bad('kept', size)
        if size != len(keep) or len(data) != len(h.tensors.names):
            return self.bad('number of events', (size, keep))
        d = dict(zip(h.tensors.names, data))
        want = [[mark[c][e] for c in CASCADE] for e in keep]
        if not np.array_equal(d['x_parameters'], want):
            return self.bad('labels', (d['x_parameters'], want))
        want = [(keep.index(e), s - 1, o - 1, t) for e, s, o, t in pulses
                if e in keep]
        got = [tuple(i) + (p[1],) for i, p in zip(
            np.asarray(d['x_pulses_ids']).tolist(), d['x_pulses'])]
        if sorted(got) != sorted(want) or len(d['x_pulses']) != len(want):
            return self.bad('pulses', (got, want))
        q = np.zeros((len(keep), 86, 60, 1))
        for e, s, o, t in want:
            q[e, s, o, 0] += t + 1
        if not np.array_equal(d['x_dom_charge'], q):
            return self.bad('charges')
        out, case = self.case['out'], self.case
        for s in case['seeds']:
            want = np.array([[
                out['data'][s][e][k] / (
                    2 if p in case['srows'][s]['cols'] else 4)
                for k, p in enumerate(case['params'])] for e in keep])
            if not np.array_equal(d[s], want):
                return self.bad('seeds', (s, d[s], want))
        self.chk.count('handled_events', size)
        return True


OMKey = collections.namedtuple('OMKey', 'string om pmt')
Pulse = collections.namedtuple('Pulse', 'time width charge')
CASCADE = ['cascade_x', 'cascade_y', 'cascade_z', 'cascade_zenith',
           'cascade_azimuth', 'cascade_energy', 'cascade_t']
ZENITH = {1: 0., 2: math.pi, 3: math.pi / 2, 4: math.pi / 2,
          5: math.pi / 2, 6: math.pi / 2}
AZIMUTH = {1: 0., 2: 0., 3: 0., 4: math.pi, 5: math.pi / 2,
           6: 1.5 * math.pi}


def energy(length):
    """Energy of a cascade with its maximum at this distance.

    The energy is deposited as a gamma distribution with shape
    a = 2.01849 + 0.63176 ln(E / GeV) and scale 0.63207 (in radiation lengths
    of 0.358/0.9216 m), which has its mode (a - 1) / b.
    """
    if length == 0:
        return 0.1
    return math.exp((length / 0.63207 - 1.01849) / 0.63176)


class Labels(World):

    def columns(self):
        mod, o = self.case['opt']['mod'], self.case['opt']
        rows = self.case['rows']
        z = [ZENITH[r['d']] for r in rows]
        a = [AZIMUTH[r['d']] for r in rows]
        p = [[r['p'][i] for r in rows] for i in range(3)]
        t = [r['t'] for r in rows]
        if mod in ('cascade', 'muon', 'snowcascade'):
            e = [r['q'] if mod == 'muon' else energy(r['c'][0])
                 for r in rows]
            d = dict(zip(CASCADE, p + [z, a, e, t]))
            for k, x in enumerate(self.extra):
                d[x] = [r['x'][k] for r in rows]
            lack = dict(p1='cascade_x', d='cascade_zenith', t='cascade_t',
                        q='cascade_energy',
                        x1=self.extra[0] if self.extra else None)
        else:
            d = dict(zip(['track_anchor_x', 'track_anchor_y',
                          'track_anchor_z', 'zenith', 'azimuth',
                          'track_energy', 'track_anchor_time',
                          'track_distance_start', 'track_distance_end',
                          'track_stochasticity'],
                         p + [z, a, [r['q'] for r in rows], t,
                              [r['start'] for r in rows],
                              [r['end'] for r in rows],
                              [r['x'][0] for r in rows]]))
            for i in range(len(rows[0]['c'])):
                d['cascade_%04d_energy' % i] = [
                    energy(r['c'][i]) for r in rows]
                d['cascade_%04d_distance' % i] = [
                    r['dist'][i] for r in rows]
            lack = dict(p1='track_anchor_x', d='zenith', q='track_energy',
                        x1='track_stochasticity',
                        start='track_distance_start')
        if self.case['lack'] in lack:
            del d[lack[self.case['lack']]]
        return {k: [float(x) for x in v] for k, v in d.items()}

    def module(self):
        import importlib
        o, rng = self.case['opt'], self.rng
        mod = o['mod']
        name, cls = {
            'cascade': ('cascades', 'CascadeGeneratorLabelModule'),
            'muon': ('muons', None),
            'snowcascade': ('snowstorm_cascades',
                            'SnowstormCascadeGeneratorLabelModule'),
            'segment': ('snowstorm_track_segment',
                        'SnowstormTrackSegmentGeneratorLabelModule'),
            'track': ('snowstorm_tracks',
                      'SnowstormTrackGeneratorLabelModule')}[mod]
        m = importlib.import_module('egenerator.data.modules.labels.' + name)
        if cls is None:
            cls = [c for c in vars(m) if c.endswith('LabelModule')][0]
        m = getattr(m, cls)()
        w = self.case['width']
        log = {'none': None, 'no': False, 'yes': True,
               'list': [rng.random() < .5 for _ in range(w)]}[o['log']]
        storm = self.case['total'] - w
        self.log = [[bool(log)] * w if not isinstance(log, list)
                    else log][0] + [False] * storm
        s = dict(config_data=None, trafo_log=log,
                 float_precision=self.precision, label_key='Labels')
        if mod in ('cascade', 'snowcascade', 'track'):
            s['shift_cascade_vertex'] = o['shift']
        if mod in ('muon', 'track'):
            s['num_cascades'] = o['num']
        if mod == 'snowcascade' and (o['extra'] or rng.random() < .5):
            s['additional_labels'] = list(self.extra)
        if mod in ('snowcascade', 'segment', 'track'):
            s['snowstorm_key'] = 'Storm' if o['key'] else None
            s['num_snowstorm_params'] = o['nsnow']
        m.configure(**s)
        return m

    def run(self):
        case, rng, o = self.case, self.rng, self.case['opt']
        n = len(case['rows'])
        self.precision = rng.choice(['float32', 'float64'])
        self.extra = ['hadrons', 'angle'][:o['extra']] \
            if o['mod'] == 'snowcascade' else []
        self.mode = o['mod'] + ' configuration'
        m = self.module()
        t = m.data['label_tensors']
        if t.names != ['x_parameters']:
            return self.bad('tensors', t.names)
        t = t.list[0]
        if list(t.shape) != [None, case['total']] or t.type != 'label' or \
                not t.trafo or t.dtype != self.precision:
            return self.bad('tensor', vars(t))
        if list(t.trafo_log or [False] * case['total']) != self.log:
            return self.bad('logarithms', (t.trafo_log, self.log))
        cols = self.columns()
        ids = self.ids(n)
        tabs = [] if case['lack'] == 'table' else [
            self.table(ids, 'Labels', cols)]
        tabs.append(self.vectors(ids, 'Storm', case['snow']))
        name = self.write(tabs)
        self.mode = o['mod'] + ' labels of file'
        for _ in range(2):
            if not self.judge(self.call(m.get_data_from_hdf, name),
                              range(n)):
                return False
        for e in range(n):
            self.mode = o['mod'] + ' labels of frame'
            frame = {'Storm': [float(x) for x in case['snow'][e]]}
            if case['lack'] != 'table':
                frame['Labels'] = {k: v[e] for k, v in cols.items()}
            for f in (m.get_data_from_frame, m.create_data_from_frame):
                if not self.judge(self.call(f, frame), [e]):
                    return False
        return True

    def value(self, x):
        u, b = x['u'], x['b']
        if u == 't':
            return b + x['s'] / LIGHT
        if u == 'e':
            return energy(b)
        if u == 'z':
            return ZENITH[b]
        if u == 'a':
            return AZIMUTH[b]
        return b

    def judge(self, result, events):
        r, e = result
        if e is not None:
            return self.bad('exception', repr(e))
        size, data = r
        events = list(events)
        if any(self.case['bad'][i] for i in events):
            if size is None and data is None:
                self.chk.count('skipped')
                return True
            return self.bad('loaded with missing labels', r)
        if size != len(events) or len(data) != 1:
            return self.bad('number of events', (size, events))
        x = np.asarray(data[0])
        want = np.array([[self.value(v) for v in self.case['labels'][i]]
                         for i in events]).reshape(len(events), -1)
        if str(x.dtype) != self.precision or x.shape != want.shape:
            return self.bad('shape or type', (x.dtype, x.shape, want.shape))
        # lengths are defined up to a regularisation of the logarithm
        tol = 2e-5 if self.precision == 'float64' else 1e-4
        bad = np.argwhere(~(np.abs(x - want) <= tol * (1 + np.abs(want))))
        if len(bad):
            i, k = bad[0]
            return self.bad('value of label', (
                int(i), int(k), float(x[i, k]), float(want[i, k])))
        self.chk.count('labels', x.size)
        return True


def run(chk):
    big = chk.thorough
    jobs = [records(True, 1, 1), labels(True, 1, 3, 1)]
    jobs = [j + ({'expect_ok': True},) for j in jobs]

    def simulate(job, num):
        jobs.append(job + ({'expect_ok': True, 'workers': 1, 'extra': [
            '-simulate', 'num=%d' % (num * (10 if big else 1)), '-depth', '5',
            '-seed', str(chk.rng.randrange(10 ** 6))]},))
    for e, c in ((2, 1), (3, 3), (6, 4)):
        simulate(records(False, e, c), 400)
    for e, c, s in ((2, 2, 2), (3, 4, 3), (5, 4, 5)):
        simulate(labels(False, e, c, s), 300)
    cases = []
    for (module, _, o), r in zip(jobs, vlib.tlc_all(jobs)):
        chk.add_tlc(r, module)
        got = list(r.json_prints())
        if 'extra' not in o:
            chk.rng.shuffle(got)
            got = got[:8000 if big else 600]
        cases += [(module, c) for c in got]
    if len(cases) < 2500:
        raise vlib.MachineryError('only %d cases' % len(cases))
    vlib.parallel(chk, replay, cases)


def replay(chk, cases):
    vlib.setup_environment()
    vlib.stub_git()
    icecube()
    with vlib.scratch() as path:
        for module, case in cases:
            if chk.stop:
                break
            w = (Records if module == 'EventRecords' else Labels)(
                chk, case, path)
            try:
                w.run()
            except Exception as e:
                import traceback
                w.bad('exception', traceback.format_exc()[-700:] + repr(e))
            chk.traces()
            chk.sample(case)
