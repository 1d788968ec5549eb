"""P25: a source predicts one rate of light per event, DOM and time."""
import numpy as np

import sourcebatch as B
import vlib

LEVEL = 'model_checking'
US = 1e-3           # the likelihoods are per microsecond


def setting():
    from egenerator.utils import detector
    coords = np.asarray(detector.x_coords).reshape(86, 60, 3)
    eff = np.asarray(detector.rel_dom_eff, dtype=float).reshape(86, 60)
    return B.hypotheses(coords), eff


def integral(y, x):
    return np.sum((y[..., 1:] + y[..., :-1]) * np.diff(x) / 2., axis=-1)


class Rates:
    """The rates of a model, taken from single events without windows.

    rate[h, s]: at the DOMs of interest on the grid of times
    charge[h, s]: at all DOMs, variance likewise
    """

    def __init__(self, model, hyps):
        self.model, self.hyps = model, hyps
        keys = [(h, s) for h in range(1, len(hyps) + 1) for s in (1, 2, 3)]
        self.rate, self.charge, self.var, self.bad = {}, {}, {}, None
        self.seen = {}
        # one event at a time for some, together for the others
        groups = [keys[:1], keys[1:2], keys[2:]]
        noise = model.kind.startswith('noise')
        for g in groups:
            ev = [B.plain(h, s, read=(-30, 60) if noise else (0, 12))
                  for h, s in g]
            r = model(B.make(model, hyps, ev, B.GRID))
            if r[0] != 'ok':
                self.bad = ('no prediction', r)
                return
            o = r[1]
            pdf = o[model.pdf].reshape(len(g), len(B.DOMS), -1)
            q = o['dom_charges'][..., 0]
            if q.shape != (len(g), 86, 60):
                self.bad = ('shape of the charges', q.shape)
                return
            for i, k in enumerate(g):
                self.charge[k] = q[i].astype(float)
                self.var[k] = o['dom_charges_variance'][i, ..., 0] * np.ones(
                    (86, 60))
                unc = o.get('dom_charges_unc')
                if unc is not None and not np.all(unc > 0):
                    self.bad = ('uncertainty of charges not positive', k)
                    return
                self.rate[k] = pdf[i] * np.array(
                    [[q[i][d]] for d in B.DOMS])
        self.whole()

    def whole(self):
        """The likelihood of the time of a pulse integrates to one."""
        for k, rate in self.rate.items():
            q = np.array([self.charge[k][d] for d in B.DOMS])
            total = integral(rate, B.GRID * US) / q
            if not np.all(np.abs(total - 1.) < 6e-3):
                self.bad = ('likelihood of pulse times does not integrate '
                            'to one', (k, total))
                return
            if np.any(rate < 0):
                self.bad = ('negative likelihood of a pulse', k)
                return
            if not np.all(np.isfinite(self.charge[k])) or \
                    np.any(self.charge[k] <= 0):
                self.bad = ('charges not positive', k)
                return

    def at(self, k, d, t):
        """Rate at a time (ns, since the event)."""
        j = np.searchsorted(B.GRID, t)
        assert B.GRID[j] == t
        return self.rate[k][d - 1][j]

    def share(self, k, d, cells):
        """Share of the light of a DOM in these cells."""
        rate, tot = self.rate[k][d - 1], 0.
        for c in cells:
            i = np.searchsorted(B.GRID, c * B.CELL)
            j = np.searchsorted(B.GRID, (c + 1) * B.CELL)
            tot += integral(rate[i:j + 1], B.GRID[i:j + 1] * US)
        return tot / self.charge[k][B.DOMS[d - 1]]


def near(a, b, rel, ab=1e-6):
    return np.all(np.abs(a - b) <= rel * np.abs(b) + ab)


def touched():
    m = np.zeros((86, 60), bool)
    for d in B.DOMS:
        m[d] = True
    return m


MASK = touched()


def light(rates, case, chk):
    """A batch for a source of light."""
    model = rates.model
    r = model(B.make(model, rates.hyps, case['batch']))
    if r[0] != 'ok':
        return 'no prediction', r
    o = r[1]
    q, var = o['dom_charges'][..., 0], o['dom_charges_variance'][..., 0]
    n = 0
    for i, e in enumerate(case['batch']):
        k = e['hyp'], e['scale']
        base = rates.charge[k]
        if not near(q[i][~MASK], base[~MASK], 5e-4):
            return 'charges', (i, 'at other DOMs',
                               np.max(np.abs(q[i] / base - 1.)[~MASK]))
        for d, dom in enumerate(B.DOMS, 1):
            info = case['doms'][i][d - 1]
            cut = info['excluded'] if model.exclusions else []
            free = 1. - rates.share(k, d, cut)
            got = q[i][dom] / base[dom]
            if not free - 2e-3 <= got <= free + 2e-3 + 1e-6 / base[dom]:
                return 'charges', (i, dom, 'share', got, 'expected', free,
                                   'excluded', cut)
            # the distribution of the charge
            key = (k, d, tuple(cut), info['measured'])
            val = [q[i][dom], var[i][dom]]
            if 'dom_charges_log_pdf_values' in o:
                val.append(o['dom_charges_log_pdf_values'][i][dom][0])
            old = rates.seen.setdefault(key, val)
            if not near(np.array(val), np.array(old), 2e-3, 1e-5):
                return 'distribution of the charge', (i, dom, val, old)
        for j, p in enumerate(e['pulses']):
            dom = B.DOMS[p['d'] - 1]
            pdf = float(o[model.pdf][n])
            n += 1
            t = (case['times'][i][j]['t'] + .5) * B.CELL
            if model.quantile:
                key = (k, p['d'], t, p['q'],
                       case['doms'][i][p['d'] - 1]['measured'])
                old = rates.seen.setdefault(key, pdf)
                if not near(pdf, old, 2e-3):
                    return 'likelihood of a pulse', (i, j, pdf, old)
                continue
            want = rates.at(k, p['d'], t)
            got = pdf * q[i][dom]
            if not near(got, want, 3e-3, 2e-6 * max(1., pdf)):
                return 'likelihood of a pulse', (
                    i, j, 'rate', got, 'expected', want,
                    'excluded', case['doms'][i][p['d'] - 1]['excluded'])
    if n != len(o[model.pdf]):
        return 'number of likelihoods', (n, len(o[model.pdf]))
    return None


def noise(rates, case, chk):
    model = rates.model
    r = model(B.make(model, rates.hyps, case['batch']))
    if r[0] != 'ok':
        return 'no prediction', r
    o = r[1]
    q = o['dom_charges'][..., 0]
    base = rates.charge[1, 1] / 90.          # per cell
    n = 0
    for i, e in enumerate(case['batch']):
        length = e['read'][1] - e['read'][0]
        if not near(q[i][~MASK], base[~MASK] * length, 1e-3):
            return 'charges', (i, 'at other DOMs')
        for d, dom in enumerate(B.DOMS, 1):
            cells = case['doms'][i][d - 1]['noise']
            cells = cells[0] / cells[1] if model.exclusions else length
            if not near(q[i][dom], base[dom] * cells, 1e-3,
                        2e-3 * length * base[dom] + 1e-6):
                return 'charges', (i, dom, 'got', q[i][dom], 'expected',
                                   base[dom] * cells)
        for j, p in enumerate(e['pulses']):
            dom = B.DOMS[p['d'] - 1]
            pdf = float(o[model.pdf][n])
            n += 1
            want = case['times'][i][j]['noise']
            want = want[0] / want[1] if model.exclusions else 1. / length
            want /= B.CELL * US
            if not near(pdf, want, 3e-3 * length * want, 0.) or \
                    not near(pdf * q[i][dom], base[dom] / (B.CELL * US), 3e-3):
                return 'likelihood of a pulse', (i, j, 'got', pdf,
                                                 'expected', want)
    return None


def both(rates, case, chk):
    """A superposition: the rates add up."""
    multi, light_, dark = rates
    r = multi(B.make(multi, light_.hyps, case['batch']))
    if r[0] != 'ok':
        return 'no prediction', r
    o = r[1]
    q = o['dom_charges'][..., 0]
    base = dark.charge[1, 1] / 90.
    n = 0
    for i, e in enumerate(case['batch']):
        k = e['hyp'], e['scale']
        length = e['read'][1] - e['read'][0]
        for d, dom in enumerate(B.DOMS, 1):
            info = case['doms'][i][d - 1]
            want = light_.charge[k][dom] * (
                1. - light_.share(k, d, info['excluded'])) \
                + base[dom] * info['noise'][0] / info['noise'][1]
            top = light_.charge[k][dom] + base[dom] * length
            if not near(q[i][dom], want, 1e-3, 2e-3 * top + 1e-6):
                return 'charges', (i, dom, 'got', q[i][dom], 'expected',
                                   want)
        for j, p in enumerate(e['pulses']):
            dom = B.DOMS[p['d'] - 1]
            pdf = float(o['pulse_pdf'][n])
            n += 1
            t = (case['times'][i][j]['t'] + .5) * B.CELL
            want = light_.at(k, p['d'], t) + base[dom] / (B.CELL * US)
            if not near(pdf * q[i][dom], want, 5e-3, 5e-6):
                return 'likelihood of a pulse', (
                    i, j, 'rate', pdf * q[i][dom], 'expected', want)
    return None


def scales(chk, hyps, eff):
    """What the charges are scaled with, for equal weights."""
    ev = [B.plain(h, s) for h in (1, 2, 3) for s in (1, 2, 3)]
    energy = np.array([hyps[e['hyp'] - 1]['energy'] for e in ev])
    glob = np.array([B.SCALE[e['scale']] for e in ev])
    for kind in ('cascade', 'cascade_gauss', 'systematic', 'quantile',
                 'track'):
        flags = ['scale_charge', 'scale_charge_by_relative_dom_efficiency',
                 'scale_charge_by_global_dom_efficiency']
        if kind in ('systematic', 'quantile'):
            flags.pop()
        off = {f: False for f in flags}
        chosen = [off] + [dict(off, **{f: True}) for f in flags] + [
            {f: True for f in flags}]
        res = []
        for c in chosen:
            m = B.Model(kind, 11, conf=c, exclusions=False)
            r = m(B.make(m, hyps, ev))
            if r[0] != 'ok':
                chk.violation(kind + ': no prediction', r)
                return
            res.append(r[1]['dom_charges'][..., 0].astype(float) - 1e-7)
        for c, q in zip(chosen[1:], res[1:]):
            f = np.ones(q.shape)
            if c[flags[0]]:
                f *= energy[:, None, None] / 10000.
            if c[flags[1]]:
                f *= eff[None]
            if len(flags) > 2 and c[flags[2]]:
                f *= glob[:, None, None]
            chk.traces()
            chk.count('scalings')
            if not near(q, res[0] * f, 1e-3, 1e-6):
                chk.violation('%s: scale of the charges' % kind, c)
                return
        if kind == 'systematic':
            # proportional to the efficiency of the DOMs
            q = res[0].reshape(3, 3, 86, 60) / glob.reshape(3, 3, 1, 1)
            if not near(q[:, 1:], q[:, :1], 1e-3, 1e-6):
                chk.violation('systematic: scale of the charges',
                              'efficiency of all DOMs')


def distribution(chk, hyps):
    """The distribution of the charge has the mean and the variance it is
    said to have (negative binomial: sums to one over whole charges)."""
    from scipy.special import gammaln
    import tensorflow as tf
    num = 120
    for kind in ('cascade', 'systematic', 'quantile', 'track'):
        m = B.Model(kind, 3, exclusions=False)
        for h, s in ((1, 1), (2, 2), (3, 2)):
            d = B.make(m, hyps, [B.plain(h, s) for _ in range(num)])
            x = np.arange(num, dtype=np.float32)
            d['x_dom_charge'] = tf.constant(
                x[:, None, None, None] * np.ones((1, 86, 60, 1), np.float32))
            r = m(d)
            chk.traces()
            if r[0] != 'ok':
                chk.violation(kind + ': no prediction', r)
                return
            o = r[1]
            llh = o['dom_charges_log_pdf_values'][..., 0].astype(float)
            mean = o['dom_charges'][..., 0].astype(float)
            var = o['dom_charges_variance'][..., 0].astype(float)
            if not near(mean, mean[:1], 1e-4) or \
                    not near(var, var[:1], 1e-3):
                chk.violation(kind + ': prediction depends on the charge '
                              'that is measured', (h, s))
                return
            ok = mean[0] + 12 * np.sqrt(var[0]) < num
            xs = x[:, None].astype(float)
            p = np.exp(llh[:, ok] - gammaln(xs + 1.))
            tot = p.sum(axis=0)
            mu = (p * xs).sum(axis=0)
            v = (p * xs**2).sum(axis=0) - mu**2
            chk.count('charge_distributions', int(ok.sum()))
            for what, a, b in (('sum', tot, 1.), ('mean', mu, mean[0][ok]),
                               ('variance', v, var[0][ok])):
                if not near(a, b, 1e-2, 1e-5):
                    chk.violation('%s: distribution of the charge: %s'
                                  % (kind, what), (h, s))
                    return


def batches(chk, num, **k):
    r = vlib.tlc('SourceBatch', 'SPECIFICATION Spec\nCONSTANTS NumHyps=3 '
                 'NumDoms=3 Low=0 High=12 MaxEvents=4 MaxPulses=5 '
                 'MaxWindows=4 Writings={0,1,2} Scales={1,2,3} '
                 'Lengths={1,2,4,9} Simulated=TRUE\nINVARIANT Valid\n'
                 'INVARIANT Complete\nINVARIANT Emit\n', workers=1,
                 expect_ok=True, extra=['-simulate', 'num=%d' % num, '-depth',
                                        '40', '-seed', str(chk.seed)])
    chk.add_tlc(r, 'SourceBatch simulated')
    return list(r.json_prints())


def exhaustive(chk):
    runs = [dict(MaxEvents=1, MaxPulses=2, MaxWindows=2, High=2)]
    if chk.thorough:
        runs += [dict(MaxEvents=2, MaxPulses=1, MaxWindows=1, High=2),
                 dict(MaxEvents=1, MaxPulses=2, MaxWindows=3, High=3)]
    for c in runs:
        r = vlib.tlc('SourceBatch', 'SPECIFICATION Spec\nCONSTANTS NumHyps=1 '
                     'NumDoms=1 Low=0 Writings={0,1} Scales={1} '
                     'Lengths={1,2} Simulated=FALSE %s\nINVARIANT Valid\n'
                     'INVARIANT Complete\nPROPERTY Kept\n' % ' '.join(
                         '%s=%d' % x for x in c.items()),
                     workers=4, expect_ok=True)
        chk.add_tlc(r, 'SourceBatch exhaustive %r' % c)


def run(chk):
    vlib.stub_git()
    exhaustive(chk)
    cases = batches(chk, 60 if chk.thorough else 12)
    chk.rng.shuffle(cases)
    hyps, eff = setting()
    scales(chk, hyps, eff)
    distribution(chk, hyps)
    kinds = list(B.MODELS)
    budget = 700 if chk.thorough else 45
    for seed in range(1, 40 if chk.thorough else 2):
        models = {k: B.Model(k, 10 * chk.seed + seed) for k in kinds}
        rates = {}
        for k, m in models.items():
            rates[k] = Rates(m, hyps)
            chk.traces()
            chk.count('models')
            if rates[k].bad:
                chk.violation('%s: %s' % (k, rates[k].bad[0]),
                              rates[k].bad[1])
                return
        multi = B.Multi(models['cascade'], models['noise'])
        for i, c in enumerate(cases):
            if chk.stop or chk.left(budget) < 0:
                return
            order = [k for k in kinds if i % 2 or k in
                     ('cascade', 'noise', 'cascade_poisson')] + ['multi']
            for k in order:
                if k == 'multi':
                    bad = both((multi, rates['cascade'], rates['noise']), c,
                               chk)
                elif k.startswith('noise'):
                    bad = noise(rates[k], c, chk)
                else:
                    bad = light(rates[k], c, chk)
                chk.traces()
                chk.count('batches')
                if bad:
                    chk.violation('%s: %s' % (k, bad[0]), bad[1], [bad, c])
                    break
            if i % 100 == 7:
                chk.sample(c['batch'])
        chk.rng.shuffle(cases)
    chk.assumptions += [
        'convolutions of one DOM only (filter size 1), weights drawn at '
        'random',
        'rates are integrated numerically from 30 us before to 60 us after '
        'the event']
