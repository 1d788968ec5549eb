"""P21: pulse data of files and frames."""
import collections
import os
import sys
import types

import numpy as np

import vlib

LEVEL = 'model_checking'
INV = ''.join('INVARIANT %s\n' % x for x in
              ('NoneLost', 'NoneInvented', 'ChargesAddUp', 'Quantiles',
               'InRange', 'Emit'))


def config(small, *values):
    return ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + INV +
            'CONSTANT Small = %s\n' % ('TRUE' if small else 'FALSE') +
            ''.join('CONSTANT %s = %d\n' % x for x in zip(
                ('MaxEvents', 'MaxPulses', 'MaxOthers'), values)))


OMKey = collections.namedtuple('OMKey', 'string om pmt')
Pulse = collections.namedtuple('Pulse', 'time width charge')
Window = collections.namedtuple('Window', 'start stop')
IDS = [('Run', 'u4'), ('Event', 'u4'), ('SubEvent', 'u4'),
       ('SubEventStream', 'u4'), ('exists', 'u1')]


class Mask(dict):
    """Pulses that are obtained with the help of the frame."""

    def __init__(self, name):
        self.name = name

    def apply(self, frame):
        return frame[self.name]


def icecube():
    pkg = types.ModuleType('icecube')
    dc = types.ModuleType('icecube.dataclasses')
    dc.I3RecoPulseSeriesMapMask = Mask
    dc.I3RecoPulseSeriesMapUnion = type('Union', (Mask,), {})
    pkg.dataclasses = dc
    sys.modules['icecube'] = pkg
    sys.modules['icecube.dataclasses'] = dc


class World:

    def __init__(self, chk, case, path):
        from egenerator.utils import detector
        self.chk, self.case, self.path = chk, case, path
        rng = self.rng = chk.rng
        mask = np.array(detector.bad_doms_mask).reshape(86, 60)
        good = list(zip(*np.nonzero(mask)))
        bad = list(zip(*np.nonzero(~mask)))
        a = rng.choice(good)
        b = rng.choice([x for x in good if x[0] == a[0] and x != a])
        c = rng.choice([x for x in good if x[0] != a[0]])
        if rng.random() < .3:
            c = rng.choice([x for x in good if x[1] in (0, 59) and
                            x not in (a, b)])
        self.mask = mask
        self.om = dict(enumerate([a, b, c, rng.choice(bad)], 1))
        for i in (5, 6):
            self.om[i] = (rng.choice([a[0], c[0], 80]), 59 + i + rng.choice(
                [-4, -3]) + 1)
        n = case['n']
        ids = set()
        while len(ids) < n:
            ids.add((rng.choice([7, 4000]), rng.choice([1, 2, 9 ** 9]),
                     rng.randrange(2), rng.choice([0, 6])))
        self.ids = list(ids)
        rng.shuffle(self.ids)
        self.exact = rng.choice(['float32', 'float64'])

    def bad(self, what, detail=None):
        self.chk.violation(
            '%s:%s' % (self.mode, what),
            {'what': what, 'detail': detail, 'options': self.case['opt']},
            {'case': self.case, 'doms': self.om, 'detail': detail})
        return False

    def key(self, d):
        s, o = self.om[d]
        return int(s) + 1, int(o) + 1

    # -- files ------------------------------------------------------------
    def write(self):
        import tables
        case, opt = self.case, self.case['opt']
        name = os.path.join(self.path, 'x.hdf5')
        with tables.open_file(name, 'w') as f:
            def table(name, columns, rows):
                f.create_table('/', name, np.array(
                    rows, dtype=IDS + columns))
            ids = [i + (1,) for i in self.ids]
            if opt['haslabels']:
                cols = [('cascade_x', 'f8')] if self.rng.random() < .7 \
                    else []
                table('LabelsDeepLearning', cols, [
                    i + ((.5,) if cols else ()) for i in ids])
            om = [('string', 'i4'), ('om', 'u4')]
            index = [('pmt', 'u1'), ('vector_index', 'u4')]
            if opt['haspulses']:
                table('Pulses', om + index + [
                    ('time', 'f8'), ('width', 'f4'), ('charge', 'f4')], [
                        ids[p['e'] - 1] + self.key(p['dom']) +
                        (0, i, p['t'] / 2, 8., p['q'] / 4)
                        for i, p in enumerate(case['pulses'])])
            if opt['hasdoms']:
                table('Doms', [('vector_index', 'u4')] + om, [
                    ids[p['e'] - 1] + (i,) + self.key(p['dom'])
                    for i, p in enumerate(case['exdoms'])])
            if opt['haswins']:
                table('Windows', om + index + [
                    ('start', 'f8'), ('stop', 'f8')], [
                        ids[p['e'] - 1] + self.key(p['dom']) +
                        (0, i, p['a'] / 2, p['b'] / 2)
                        for i, p in enumerate(case['exwins'])])
        return name

    def module(self):
        from egenerator.data.modules.data.pulse_data import PulseDataModule
        opt = self.case['opt']
        m = PulseDataModule()
        m.configure(
            config_data='x', pulse_key='Pulses',
            dom_exclusions_key='Doms' if opt['domkey'] else None,
            time_exclusions_key='Windows' if opt['winkey'] else None,
            float_precision=self.exact, add_charge_quantiles=opt['quant'],
            discard_pulses_from_excluded_doms=opt['discard'])
        return m

    def run(self):
        out = self.case['out']
        m = self.module()
        self.mode = 'file'
        name = self.write()
        # memory that is not initialised is more visible that way
        junk = [np.full((k, 3), 77, dtype=t) for k in range(1, 12)
                for t in (np.float32, np.float64, np.int32)]
        del junk
        r = m.get_data_from_hdf(name)
        if not out['ok']:
            if r[0] is not None or r[1] is not None:
                return self.bad('incomplete file was loaded', r)
            self.chk.count('skipped_files')
            return True
        if not self.judge(m, r, range(self.case['n']), out['pulses'],
                          out['windows'], True):
            return False
        self.mode = 'frame'
        for e in range(1, self.case['n'] + 1):
            frame, order, worder = self.frame(e)
            own = [p for p in out['pulses'] if p['e'] == e]
            own.sort(key=lambda p: order.index(p['dom']))
            wins = [w for w in out['windows'] if w['e'] == e]
            wins.sort(key=lambda w: worder.index(w['dom']))
            get = self.rng.choice([m.get_data_from_frame,
                                   m.create_data_from_frame])
            if not self.judge(m, get(frame), [e - 1], own, wins, False):
                return False
            self.chk.count('frames')
        return True

    def frame(self, e):
        """The event as a frame, and the order of its DOMs."""
        case, opt, rng = self.case, self.case['opt'], self.rng
        pulses, wins, doms = {}, {}, []
        for p in case['pulses']:
            if p['e'] == e:
                pulses.setdefault(p['dom'], []).append(
                    Pulse(p['t'] / 2, 8., p['q'] / 4))
        for w in case['exwins']:
            if w['e'] == e:
                wins.setdefault(w['dom'], []).append(
                    Window(w['a'] / 2, w['b'] / 2))
        doms = [OMKey(*self.key(d['dom']), 0) for d in case['exdoms']
                if d['e'] == e]
        order, worder = list(pulses), list(wins)
        rng.shuffle(order)

        def keyed(x, keys):
            return collections.OrderedDict(
                (OMKey(*self.key(d), 0), x[d]) for d in keys)
        frame = {'Pulses': keyed(pulses, order)}
        if rng.random() < .5:
            frame['Map'] = frame['Pulses']
            frame['Pulses'] = Mask('Map')
        if opt['hasdoms']:
            frame['Doms'] = doms
        if opt['haswins']:
            frame['Windows'] = keyed(wins, worder)
        return frame, order, worder

    def judge(self, m, r, events, pulses, windows, file):
        events = list(events)
        size, data = r
        out, opt = self.case['out'], self.case['opt']
        if size != len(events):
            return self.bad('number of events', size)
        names = [t.name for t in m.data['data_tensors'].list]
        if len(data) != len(names):
            return self.bad('number of tensors', len(data))
        d = dict(zip(names, data))
        for t in m.data['data_tensors'].list:
            x = d[t.name]
            if not t.exists:
                if x is not None:
                    return self.bad('tensor that does not exist', t.name)
                continue
            x = np.asarray(x)
            if str(x.dtype) != str(np.dtype(t.dtype)) or \
                    x.ndim != len(t.shape) or any(
                        b is not None and a != b
                        for a, b in zip(x.shape, t.shape)):
                return self.bad('shape or type of tensor', (
                    t.name, str(x.dtype), x.shape))
        # charges
        q = np.zeros((size, 86, 60, 1))
        ok = np.broadcast_to(self.mask[None, :, :, None], q.shape).copy()
        rng_ = np.zeros((size, 2))
        for i, e in enumerate(events):
            for k in range(4):
                q[(i,) + self.om[k + 1] + (0,)] = out['charges'][e][k] / 4
                ok[(i,) + self.om[k + 1] + (0,)] = \
                    not out['excluded'][e][k]
            t = out['ranges'][e]
            rng_[i] = (t[0] / 2, t[1] / 2) if t else (np.inf, -np.inf)
        if not np.array_equal(d['x_dom_charge'], q):
            return self.bad('charges of DOMs', self.diff(
                d['x_dom_charge'], q))
        if not np.array_equal(d['x_time_window'], rng_):
            return self.bad('range of times', (d['x_time_window'], rng_))
        if opt['domkey'] and not np.array_equal(d['x_dom_exclusions'], ok):
            return self.bad('excluded DOMs', self.diff(
                d['x_dom_exclusions'], ok))
        ids = [(events.index(p['e'] - 1),) + self.om[p['dom']]
               for p in pulses]
        val = [[p['q'] / 4, p['t'] / 2] + (
            [p['cum'] / p['tot']] if opt['quant'] else []) for p in pulses]
        if [tuple(x) for x in d['x_pulses_ids']] != ids:
            return self.bad('events and DOMs of pulses', (
                d['x_pulses_ids'], ids))
        if val and not np.allclose(d['x_pulses'], val, rtol=1e-6, atol=0):
            return self.bad('pulses', (d['x_pulses'], val))
        if opt['winkey']:
            ids = [(events.index(w['e'] - 1),) + self.om[w['dom']]
                   for w in windows]
            if [tuple(x) for x in d['x_time_exclusions_ids']] != ids:
                return self.bad('events and DOMs of time windows', (
                    d['x_time_exclusions_ids'], ids))
            if not np.array_equal(
                    d['x_time_exclusions'],
                    np.array([[w['a'] / 2, w['b'] / 2]
                              for w in windows]).reshape(-1, 2)):
                return self.bad('time windows', (
                    d['x_time_exclusions'], windows))
        return True

    @staticmethod
    def diff(a, b):
        i = np.argwhere(np.asarray(a) != b)[:4]
        return [(x.tolist(), str(np.asarray(a)[tuple(x)]), str(b[tuple(x)]))
                for x in i]


def run(chk):
    big = chk.thorough
    jobs = [('PulseData', config(True, 2, 2, 1), {'expect_ok': True})]
    if big:
        jobs.append(('PulseData', config(True, 2, 3, 2), {
            'expect_ok': True}))
    for e, p, o in ((1, 5, 2), (2, 8, 3), (3, 12, 4), (4, 20, 6)):
        jobs.append(('PulseData', config(False, e, p, o), {
            'expect_ok': True, 'workers': 1, 'extra': [
                '-simulate', 'num=%d' % (3000 if big else 300), '-depth',
                '5', '-seed', str(chk.rng.randrange(10 ** 6))]}))
    cases = []
    for (_, _, o), r in zip(jobs, vlib.tlc_all(jobs)):
        chk.add_tlc(r, 'PulseData')
        got = list(r.json_prints())
        if 'extra' not in o:
            chk.rng.shuffle(got)
            got = got[:6000 if big else 500]
        cases += got
    if len(cases) < 1200:
        raise vlib.MachineryError('only %d cases' % len(cases))
    vlib.parallel(chk, replay, cases)


def replay(chk, cases):
    vlib.setup_environment()
    vlib.stub_git()
    icecube()
    with vlib.scratch() as path:
        for case in cases:
            if chk.stop:
                break
            w = World(chk, case, path)
            w.mode = 'setup'
            try:
                w.run()
            except Exception as e:
                import traceback
                w.bad('exception', traceback.format_exc()[-700:] + repr(e))
            chk.traces()
            chk.count('pulses', len(case['pulses']))
            chk.sample(case)
