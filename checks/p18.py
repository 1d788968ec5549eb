"""P18: the global optimizer returns the best point it has evaluated."""
import math

import numpy as np

import vlib

LEVEL = 'model_checking'
INV = ''.join('INVARIANT %s\n' % x for x in
              ('KeepsBest', 'Evaluated', 'Limited', 'Emit')) + \
    'PROPERTY Descends\nCONSTRAINT Clear\n'


def config(sim, *values):
    return ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + INV +
            'CONSTANT Simulated = %s\n' % ('TRUE' if sim else 'FALSE') +
            ''.join('CONSTANT %s = %d\n' % x for x in zip(
                ('MaxDim', 'MaxBatch', 'MaxIter', 'Values'), values)))


class Recorder:
    """A function with the given values, whatever the points are."""

    def __init__(self, values, kind, rng):
        self.values, self.kind, self.rng = values, kind, rng
        self.points = []
        self.told = []
        self.excess = False

    def one(self, x):
        i = len(self.points)
        self.excess |= i >= len(self.values)
        v = self.values[i] if i < len(self.values) else 7
        self.points.append(np.array(x, dtype=float))
        self.told.append(float(v))
        return v

    def __call__(self, x):
        x = np.asarray(x)
        if x.ndim == 1:
            return self.one(x)
        res = [self.one(p) for p in x]
        return np.array(res) if self.kind != 'list' else res


def start(cfg, rng, angles):
    """Starting points within the valid range."""
    n, d = cfg['points'], cfg['dim']
    kind = rng.choice(['float', 'float', 'int', 'float32'])
    x = np.array([[rng.uniform(-5, 5) for _ in range(d)] for _ in range(n)])
    if rng.random() < .2:
        x[:] = x[0]
    for a, z in angles:
        for p in x:
            if rng.random() < .3:
                p[a] = rng.choice([0, .5, 1, 1.5, 2]) * np.pi
                p[z] = rng.choice([0, .5, 1]) * np.pi
            else:
                p[a], p[z] = rng.uniform(0, 6.28), rng.uniform(0, 3.14)
    if rng.random() < .1:
        x[:, [i for p in angles for i in p]] = x[
            0, [i for p in angles for i in p]]
    if kind == 'int':
        return np.abs(x).astype(int) if not angles else np.floor(
            np.abs(x)).astype(int)
    return x.astype(np.float32 if kind == 'float32' else float)


def spread(points, angles, cart):
    """Standard deviations of coordinates and directions."""
    p = np.array(points)
    c = np.std(p[:, cart], axis=0)
    s = []
    for a, z in angles:
        v = np.array([np.sin(p[:, z]) * np.cos(p[:, a]),
                      np.sin(p[:, z]) * np.sin(p[:, a]), np.cos(p[:, z])]).T
        m = v.mean(axis=0)
        if np.linalg.norm(m) < 1e-3:
            return c, None
        m /= np.linalg.norm(m)
        d = np.arctan2(np.linalg.norm(np.cross(v, m), axis=1), v @ m)
        s.append(math.sqrt((d ** 2).sum() / (len(p) - 1)))
    return c, np.array(s)


class Case:

    def __init__(self, chk, case, rng):
        self.chk, self.case, self.rng = chk, case, rng
        cfg = self.cfg = case['cfg']
        idx = list(range(cfg['dim']))
        rng.shuffle(idx)
        self.angles = [(idx[2 * i], idx[2 * i + 1])
                       for i in range(cfg['pairs'])]
        self.cart = sorted(idx[2 * cfg['pairs']:])
        self.x0 = start(cfg, rng, self.angles)
        self.seed = rng.randrange(10 ** 6)
        undefined = [np.nan, np.inf, float('inf')]
        self.values = [x if x != 999 else rng.choice(undefined)
                       for x in case['evals']]
        if rng.random() < .7:
            self.values = [float(x) for x in self.values]
        self.kw = dict(
            method=cfg['method'], batch_size=cfg['batch'],
            spherical_indices=[list(x) if rng.random() < .5 else x
                               for x in self.angles],
            max_iter=cfg['iter'],
            max_calls=cfg['calls'] or rng.choice([None, 0]),
            max_noimprovement=cfg['noimp'] or rng.choice([None, 0]),
            fstdthresh=math.sqrt(cfg['fthr'][0] / cfg['fthr'][1])
            if cfg['fthr'] else 0.)

    def bad(self, what, detail=None):
        self.chk.violation(
            '%s:%s' % (self.cfg['method'], what),
            {'what': what, 'detail': detail, 'cfg': self.cfg},
            {'case': self.case, 'start': self.x0, 'values': self.values,
             'arguments': self.kw, 'detail': detail,
             'spreads': getattr(self, 'spreads', None)})
        return False

    def call(self, extra):
        from egenerator.utils import spherical_opt as so
        kind = self.rng.choice(['list', 'array'])
        rec = Recorder(self.values, kind, self.rng)
        x0 = self.x0.copy()
        with vlib.quiet(), np.errstate(all='ignore'):
            r = so.spherical_opt(
                rec, initial_points=x0, rand=np.random.default_rng(self.seed),
                meta=self.rng.random() < .3, **dict(self.kw, **extra))
        if not np.array_equal(x0, self.x0):
            raise AssertionError('starting points changed')
        return rec, r

    def judge(self, rec, r, stop, reasons):
        """Compare with the specified run up to iteration `stop`."""
        snap = self.case['snaps'][stop]
        vals = [999 if not np.isfinite(v) else v for v in rec.told]
        if rec.excess and stop == self.case['iter']:
            return self.bad('number of evaluations', len(rec.points))
        if r['n_calls'] != len(rec.points):
            return self.bad('reported number of calls', (
                r['n_calls'], len(rec.points)))
        if r['nit'] != stop:
            return self.bad('reported number of iterations', (
                r['nit'], stop, r['stopping_flag']))
        if stop == self.case['iter'] and \
                len(rec.points) != len(self.values):
            return self.bad('number of evaluations', (
                len(rec.points), len(self.values)))
        if r['stopping_flag'] not in reasons:
            return self.bad('reason for stopping', (
                r['stopping_flag'], reasons))
        if bool(r['success']) != (r['stopping_flag'] > 0):
            return self.bad('reported success', r)
        # the reported minimum
        fun = 999 if not np.isfinite(r['fun']) else float(r['fun'])
        if fun != min(vals):
            return self.bad('reported value', (r['fun'], min(vals)))
        if not self.visited(rec, vals, r['x'], fun):
            return self.bad('reported point', (r['x'], fun))
        xs, fs = r['final_simplex']
        fs = [999 if not np.isfinite(f) else float(f) for f in fs]
        want = sorted(self.case['evals'][i - 1] for i in snap)
        if sorted(fs) != want:
            return self.bad('values in use', (fs, want))
        for x, f in zip(xs, fs):
            if not self.visited(rec, vals, x, f):
                return self.bad('points in use', (x, f))
        # valid directions only
        for i, p in enumerate(rec.points[len(self.x0):]):
            for a, z in self.angles:
                if not (-1e-6 <= p[a] <= 2 * np.pi + 1e-6 and
                        -1e-6 <= p[z] <= np.pi + 1e-6):
                    return self.bad('direction out of range', (i, p))
        if not all(np.all(np.isfinite(p)) for p in rec.points):
            return self.bad('undefined point')
        return True

    @staticmethod
    def visited(rec, vals, x, f):
        return any(v == f and np.array_equal(p, np.asarray(x, float))
                   for p, v in zip(rec.points, vals))

    def run(self):
        rec, r = self.call({})
        if not self.judge(rec, r, self.case['iter'], self.case['why']):
            return
        self.chk.count('flag_%d' % r['stopping_flag'])
        # thresholds of coordinates: only if points in use are unambiguous
        v = self.case['evals']
        if len(set(v)) != len(v) or self.case['iter'] < 1:
            return
        c, s = [], []
        for snap in self.case['snaps']:
            a, b = spread([rec.points[i - 1] for i in snap], self.angles,
                          self.cart)
            if b is None:
                return
            c.append(a)
            s.append(b)
        c, s = np.array(c), np.array(s)
        k = self.rng.randrange(len(c))
        ct = [x * 1.001 + 1e-4 if self.rng.random() < .8 else
              self.rng.choice([-1, 0]) for x in c[k]]
        st = [x * 1.001 + 2e-3 if self.rng.random() < .7 else
              self.rng.choice([-1, -.5]) for x in s[k]]
        extra = {}
        active = []
        if self.cart and self.rng.random() < .7:
            extra['cstdthresh'] = ct
            active += [(c[:, i], t, 1e-5 + 2e-4 * t)
                       for i, t in enumerate(ct) if t > 0]
        if self.angles and self.rng.random() < .8:
            extra['sstdthresh'] = st
            # directions are kept in single precision
            active += [(s[:, i], t, 1e-3 + 5e-4 * t)
                       for i, t in enumerate(st) if t > 0]
        if any(np.any(np.abs(x - t) < m) for x, t, m in active):
            return
        narrow = np.ones(len(c), bool) if active else np.zeros(len(c), bool)
        for x, t, _ in active:
            narrow &= x < t
        first = int(np.argmax(narrow)) if narrow.any() else len(c)
        reasons = set(self.case['why']) if first >= self.case['iter'] else \
            set()
        if first <= self.case['iter']:
            reasons.add(3)
        stop = min(first, self.case['iter'])
        rec, r = self.call(extra)
        self.kw.update(extra)
        self.spreads = (c.tolist(), s.tolist(), ct, st, k, self.x0.dtype.name)
        if self.judge(rec, r, stop, reasons):
            self.chk.count('runs_with_thresholds_of_coordinates')
            self.chk.count('flag_%d' % r['stopping_flag'])


def run(chk):
    big = chk.thorough
    jobs = [('GlobalOpt', config(False, 1, 1, 2, 1), {'expect_ok': True}),
            ('GlobalOpt', config(False, 1, 2, 1, 1), {'expect_ok': True})]
    if big:
        jobs.append(('GlobalOpt', config(False, 1, 1, 2, 2),
                     {'expect_ok': True, 'timeout': 800}))
    for i in range(6):
        jobs.append(('GlobalOpt', config(
            True, 2 + i % 4, 1 + i % 3, 4 + 6 * i,
            (6, 12, 900, 3)[i % 4]), {
                'expect_ok': True, 'workers': 1, 'extra': [
                    '-simulate', 'num=%d' % (6000 if big else 900), '-depth',
                    '60', '-seed', str(chk.rng.randrange(10 ** 6))]}))
    cases = []
    for (_, _, o), r in zip(jobs, vlib.tlc_all(jobs)):
        chk.add_tlc(r, 'GlobalOpt')
        got = list(r.json_prints())
        if 'extra' not in o:
            chk.rng.shuffle(got)
            got = got[:30000 if big else 3000]
        cases += got
    if len(cases) < 4000:
        raise vlib.MachineryError('only %d runs' % len(cases))
    vlib.parallel(chk, replay, cases)
    if not chk.violations:
        for f in ('flag_0', 'flag_1', 'flag_2', 'flag_3', 'flag_-1'):
            if not chk.cov.get(f):
                raise vlib.MachineryError('no run with ' + f)


def replay(chk, cases):
    vlib.setup_environment()
    from egenerator.utils import spherical_opt     # noqa: F401
    for case in cases:
        if chk.stop:
            break
        c = Case(chk, case, chk.rng)
        try:
            c.run()
        except Exception as e:
            import traceback
            c.bad('exception', traceback.format_exc()[-800:] + repr(e))
        chk.traces()
        chk.count('evaluations', len(case['evals']))
        chk.sample(case)
