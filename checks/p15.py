"""P15: total losses are exact sums over models and loss components."""
import numpy as np

import ensemble as E
import vlib

LEVEL = 'model_checking'
OPT = {'l1_regularization': 0., 'l2_regularization': 0.}
INV = ''.join('INVARIANT %s\n' % x for x in
              ('SameTotal', 'OrderIrrelevant', 'Additive', 'Emit'))
INV2 = ''.join('INVARIANT %s\n' % x for x in
               ('SubEnsembles', 'OrderIrrelevant', 'Pairwise', 'Emit'))


class Parts:
    """Configured stand-ins, shared by all cases."""

    def __init__(self):
        self.c = E.classes()
        self.memo, self.loss_memo = {}, {}

    def get(self, cls, key, **kw):
        k = (cls,) + key
        if k not in self.memo:
            self.memo[k] = E.configured(self.c[cls](), **kw)
        return self.memo[k]

    def handler(self, h, hm):
        return self.get('Handler', (h, hm), h=h, hm=hm, num=2)

    def model(self, names, h, hm, t, tm, d, v=1, no=0):
        tr = self.get('Trafo', (h, hm, t, tm, d), t=t, tm=tm, d=d,
                      data_handler=self.handler(h, hm))
        return self.get('Factor', (tuple(names), h, hm, t, tm, d, v, no),
                        config={'v': v, 'names': list(names), 'no': no},
                        data_trafo=tr, name='m%d' % no)

    def loss(self, t, rng):
        """Loss of a tree; equal components are sometimes the same object."""
        from egenerator.loss.multi_loss import MultiLossModule
        key = vlib.freeze(t)
        if key in self.loss_memo and rng.random() < .6:
            return self.loss_memo[key]
        if t['leaf']:
            res = E.configured(self.c['Leaf'](), terms=t['terms'],
                               tag=rng.randrange(3))
        else:
            res = E.configured(MultiLossModule(), loss_modules=[
                self.loss(s, rng) for s in t['sub']])
        self.loss_memo[key] = res
        return res


def manager(parts, handler, models):
    from egenerator.manager.source import SourceManager
    return vlib.observe(
        E.configured, SourceManager(), config={'a': 1},
        data_handler=handler, models=models)


def leaves(loss):
    if not loss.sub_components:
        yield loss
    for s in loss.sub_components.values():
        yield from leaves(s)


def one_sum(parts, c, i, rng, managers):
    import tensorflow as tf
    names = ['a', 'b']
    key = tuple(c['models'])
    if key not in managers or rng.random() < .1:
        models = [parts.model(names, 0, rng.randrange(2), 0,
                              rng.randrange(2), 0, v, no)
                  for no, v in enumerate(c['models'])]
        r = manager(parts, parts.handler(0, 0), models)
        if r[0] != 'ok':
            return 'ensemble refused', r
        managers[key] = r[1]
    man = managers[key]
    loss = parts.loss(c['tree'], rng)
    pname = rng.choice(['x_parameters', 'x_parameters', 'x_seed'])
    n = len(c['pars'])
    par = np.stack([np.array(c['pars'], float), np.zeros(n)], axis=1)
    other = rng.choice([par * 0 - 77., par + 1.])
    values = {'x_parameters': other, 'x_seed': other, 'x_bias': np.zeros(n)}
    values[pname] = par
    batch = tuple(tf.constant(values[x])
                  for x in man.data_handler.tensors.names)
    before = [b.numpy().copy() for b in batch]
    kw = {'parameter_tensor_name': pname, 'expect': True}
    if c['shift'] or rng.random() < .5:
        kw['shift'] = c['shift']

    def same(x, y):
        x, y = np.asarray(x), np.asarray(y, float)
        return x.shape == y.shape and np.allclose(x, y, rtol=1e-12,
                                                  atol=1e-9)
    got = []

    def call(**k):
        # hypothesis of the fit instead of the one of the batch
        b = list(batch)
        if rng.random() < .5:
            b[man.data_handler.tensors.get_index(pname)] = \
                tf.constant(par * 0 - 5.)
        return vlib.observe(
            man.parameter_loss_function, tf.constant(par), tuple(b),
            loss, [True, True], minimize_in_trafo_space=False, **kw, **k)
    modes = ['scalar', 'items', 'sorted', 'get_loss', 'items', 'scalar']
    rng.shuffle(modes)
    for m in modes[:4]:
        for f in leaves(loss):
            f._untracked_data['kept'] = []
        if m == 'get_loss':
            if i % 5:
                continue
            r = vlib.observe(man.get_loss, batch, loss, OPT,
                             is_training=bool(rng.randrange(2)), **kw)
            ok = r[0] == 'ok' and same(r[1], c['total'])
        elif m == 'scalar':
            r = call() if rng.random() < .5 else \
                call(reduce_to_scalar=True)
            ok = r[0] == 'ok' and same(r[1], c['total'])
        elif m == 'items':
            r = call(reduce_to_scalar=False,
                     **rng.choice([{}, {'sort_loss_terms': False}]))
            ok = r[0] == 'ok' and len(r[1]) == len(c['items'])
            if ok:
                # the order of the items is up to the implementation
                rest = [(s, np.array(v, float).reshape(
                    {'s': [], 'e': [n], 'd': [n, E.DOMS]}[s]))
                    for s, v in zip(c['shapes'], c['items'])]
                for x in r[1]:
                    hit = [j for j, y in enumerate(rest)
                           if same(x, y[1])]
                    ok = ok and bool(hit)
                    if hit:
                        rest.pop(hit[0])
        else:
            r = call(reduce_to_scalar=False, sort_loss_terms=True)
            ok = r[0] == 'ok' and len(r[1]) == 3 and \
                all(same(x, np.array(y, float).reshape(np.shape(x)))
                    for x, y in zip(r[1], (c['ss'], c['se'], c['sd'])))
        got.append(m)
        if not ok:
            return m, (r, c, got)
        for f in leaves(loss):
            for out, ref in f._untracked_data.get('kept', []):
                if len(out) != len(ref) or any(
                        x is not y for x, y in zip(out, ref)):
                    return 'terms of a component changed', (m, c)
        for b, v in zip(batch, before):
            if not np.array_equal(b.numpy(), v):
                return 'input changed', (m, c)
    return None


def one_ensemble(parts, c, rng):
    models = [parts.model(m['names'], m['h'], m['hm'], m['t'], m['tm'],
                          m['d'], no=rng.randrange(3))
              for m in c['members']]
    r = manager(parts, parts.handler(c['handler']['h'], c['handler']['hm']),
                models)
    if (r[0] == 'ok') != c['accepted']:
        return 'accepted' if r[0] == 'ok' else 'refused', (r[0:3], c)
    if r[0] == 'ok' and [m for m in r[1].models] != models:
        return 'members', c
    return None


def run(chk):
    vlib.stub_git()
    parts = Parts()
    sim = ['-simulate', 'num=%d' % (8 if chk.thorough else 1), '-seed',
           str(chk.seed), '-depth']
    const = 'SPECIFICATION Spec\nCONSTANTS MaxEvents=%d NumDoms=2 ' \
        'MaxModels=%d MaxTerms=3 Simulated=%s\n' + INV
    cons2 = 'SPECIFICATION Spec\nCONSTANTS MaxModels=%d Simulated=%s\n' + INV2
    kw = {'workers': 1, 'expect_ok': True}
    jobs = [('CombinedLoss', const % (3, 4, 'FALSE'), kw),
            ('CombinedLoss', const % (2, 3, 'TRUE'),
             dict(kw, extra=sim + ['250'])),
            ('CombinedLoss', const % (4, 6, 'TRUE'),
             dict(kw, extra=sim + ['250'])),
            ('Ensemble', cons2 % (3, 'FALSE'), kw),
            ('Ensemble', cons2 % (3, 'TRUE'), dict(kw, extra=sim + ['400'])),
            ('Ensemble', cons2 % (6, 'TRUE'), dict(kw, extra=sim + ['400']))]
    res = vlib.tlc_all(jobs)
    for j, r in zip(jobs, res):
        chk.add_tlc(r, j[0])
    small, cases, c2, ens, e2, e3 = [list(r.json_prints()) for r in res]
    cases += c2
    ens += e2 + e3
    for x in (small, cases, ens):
        chk.rng.shuffle(x)
    if not chk.thorough:
        small, ens = small[:700], ens[:1200]
    budget = 600 if chk.thorough else 16
    for i, c in enumerate(ens):
        if chk.stop or chk.left(budget) < 0:
            break
        bad = one_ensemble(parts, c, chk.rng)
        chk.traces()
        chk.count('ensembles_accepted' if c['accepted'] else
                  'ensembles_refused')
        if bad:
            chk.violation('ensemble ' + bad[0], bad, [bad, c])
    budget = 850 if chk.thorough else 45
    managers = {}
    todo = [x for p in zip(cases, small) for x in p] + small[len(cases):]
    for i, c in enumerate(todo):
        if chk.stop or chk.left(budget) < 0:
            break
        bad = one_sum(parts, c, i, chk.rng, managers)
        chk.traces()
        chk.count('losses')
        if bad:
            chk.violation('loss: ' + bad[0], bad, bad)
        elif i % 200 == 7:
            chk.sample({k: c[k] for k in ('tree', 'models', 'total')})
    chk.assumptions += ['loss components give terms of the shapes '
                        '[], [events] and [events, DOMs]']
