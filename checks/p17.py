"""P17: chains of reconstruction modules and the best reconstruction."""
import copy
import time

import numpy as np

import vlib

LEVEL = 'model_checking'
INV = ''.join('INVARIANT %s\n' % x for x in
              ('UniqueNames', 'AllRun', 'Lowest', 'Emit')) + \
    'PROPERTY Refused\nPROPERTY Repeatable\n'


def config(sim, n):
    return ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n%s'
            'CONSTANT MaxOps = %d\nCONSTANT Simulated = %s\n' % (
                INV, n, 'TRUE' if sim else 'FALSE'))


class Fault(Exception):
    pass


class ENV:
    """What the stand-in modules record."""
    loss = None
    log = []         # calls of execute of the modules
    wait = 0.
    functions = []   # functions obtained while a module is constructed
    shared, list = {}, []      # settings re-used for all functions


def loss_of(x):
    return np.float64({1000: np.nan, 999: np.inf, -999: -np.inf}.get(x, x))


def function_for(cache, name, setting):
    """Get a function from the cache or have it built."""
    # settings objects are re-used by the caller, as parameters of a module
    s = ENV.shared
    s.clear()
    s['mode'] = 1
    ENV.list[:] = [[], [True, False], [False, True]][setting - 1]
    if setting != 1:
        s['mask'] = ENV.list
    got = cache.get(name, s)
    if got is not None:
        return got, True

    def func():
        return name, setting
    func.__name__ = name
    cache.add(func, s)
    try:
        cache.add(func, copy.deepcopy(s))
    except KeyError:
        pass
    else:
        raise AssertionError('function cached twice')
    return func, False


class StandIn:

    def __init__(self, manager, loss_module, function_cache, mod):
        assert (manager, loss_module) == ('manager', 'loss module')
        self.mod = mod
        ENV.module = self
        if mod['kind'] == 'broken':
            raise Fault()
        for name, setting in sorted(map(tuple, mod.get('funs', ()))):
            f, shared = function_for(function_cache, name, setting)
            ENV.functions.append((name, setting, f, shared))

    def execute(self, data_batch, results):
        batch = int(data_batch[0][0])
        ENV.log.append((self, data_batch, copy.deepcopy(results)))
        time.sleep(ENV.wait)
        if self.mod['kind'] == 'late' and batch == 2:
            raise Fault()
        x = 5 if self.mod['kind'] == 'late' else \
            ENV.loss[self.mod['work'] - 1][batch - 1] \
            if self.mod['kind'] == 'work' else 0
        res = {'loss_reco': loss_of(x), 'who': id(self), 'batch': batch,
               'result': np.array([[id(self) % 1000, batch, 7.]]),
               'extra': {'nested': [1, batch]}}
        if self.mod['kind'] == 'runtime':
            res['runtime'] = 3.
        if self.mod['kind'] == 'work' and self.mod['work'] == 2:
            res['reco_extra'] = 'only of some'
        return res


def same(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and set(a) == set(b) and all(
            same(a[k], b[k]) for k in a)
    return bool(np.array_equal(a, b) or (a != a and b != b))


class World:

    def __init__(self, chk, case, modules, tray_module, key):
        self.chk, self.case, self.key = chk, case, key
        ENV.loss = case['loss']
        self.tray = tray_module.ReconstructionTray('manager', 'loss module')
        self.names = []
        self.objs = []       # module objects (None for selections)
        self.kinds = []
        self.funs = {}       # functions that exist
        self.kept = []       # results returned before, with copies

    def bad(self, what, detail=None):
        self.chk.violation(
            self.key + ':' + what, {'what': what, 'detail': detail},
            {'case': self.case, 'what': what, 'detail': detail})
        return False

    def snapshot(self):
        return (list(self.tray.modules), list(self.tray.module_names),
                [(k, len(v)) for k, v in
                 self.tray.function_cache.functions.items()])

    def add(self, s):
        mod = s['mod']
        before = self.snapshot()
        ENV.functions = []
        ENV.module = None
        name = s['given'] or None
        args = {} if name is None else {'name': name}
        error = None
        try:
            if mod['kind'] == 'select':
                of = list(mod['of'])
                self.tray.add_module(
                    'SelectBestReconstruction', reco_names=of, **args)
                of[:] = ['changed by caller']
            else:
                self.tray.add_module('StandIn', mod=mod, **args)
        except AssertionError:
            raise
        except Exception as e:
            error = e
        if (error is None) != s['ok']:
            return self.bad('addition refused' if error else
                            'addition accepted', (s, repr(error)))
        if error is not None:
            if mod['kind'] == 'broken' and s['name'] not in self.names and \
                    not isinstance(error, Fault):
                return self.bad('other error', repr(error))
            now = self.snapshot()
            if now[0] != before[0] or now[1] != before[1]:
                return self.bad('refused module was added', (before, now))
            if now[2] != before[2]:
                return self.bad('refused module changed the functions',
                                (before, now))
            return True
        self.names.append(s['name'])
        self.objs.append(ENV.module)
        self.kinds.append(mod)
        shared = {tuple(x) for x in s['shared']}
        for n, setting, f, hit in ENV.functions:
            k = (n, setting)
            if f() != k:
                return self.bad('function with other settings', (k, f()))
            if hit != (k in shared):
                return self.bad('function not shared' if k in shared else
                                'function shared', (k, s))
            if hit and f is not self.funs[k]:
                return self.bad('another function', k)
            self.funs.setdefault(k, f)
        return True

    def exec(self, s):
        b = s['batch']
        data = (np.array([float(b), 2.]), 'weights')
        out, want = None, s['out']
        ENV.log = []
        t = time.perf_counter()
        error = None
        try:
            with vlib.quiet():
                out = self.tray.execute(data)
        except Exception as e:
            error = e
        t = time.perf_counter() - t
        if (error is None) != want['ok']:
            return self.bad('execution failed' if error else
                            'execution did not fail', (s, repr(error)))
        # the modules that ran, with what they were told
        n = want['at'] if error else len(self.names)
        ran = [o for o in self.objs[:n] if o is not None]
        if [x[0] for x in ENV.log] != ran:
            return self.bad('modules that ran', [
                self.objs.index(x[0]) for x in ENV.log])
        for obj, d, res in ENV.log:
            i = self.objs.index(obj)
            if d is not data and not all(x is y for x, y in zip(d, data)):
                return self.bad('data given to module', i)
            if list(res) != self.names[:i]:
                return self.bad('results given to module', (i, list(res)))
            for j in range(i):
                if 'runtime' not in res[self.names[j]]:
                    return self.bad('results without run time', (i, j))
                if out is not None and not same(
                        res[self.names[j]], out[self.names[j]]):
                    return self.bad('result changed later', (
                        i, j, res[self.names[j]], out[self.names[j]]))
        if error is None:
            if list(out) != self.names:
                return self.bad('names of results', list(out))
            total = 0.
            for i, name in enumerate(self.names):
                if not self.result(i, out, want['res'][i], b):
                    return False
                total += out[name]['runtime']
            if total > t:
                return self.bad('run times', (total, t))
            self.kept.append((out, copy.deepcopy(out)))
        for old, was in self.kept:
            if not same(old, was):
                return self.bad('earlier results changed', (old, was))
        return True

    def result(self, i, out, want, b):
        r = out[self.names[i]]
        if not ENV.wait * (self.objs[i] is not None) <= r['runtime']:
            return self.bad('run time', (i, r))
        if self.objs[i] is not None:
            if (r['who'], r['batch']) != (id(self.objs[i]), b) or \
                    not same(r['loss_reco'], loss_of(want['loss'])):
                return self.bad('result of module', (i, r, want))
            return True
        # a complete and unchanged copy of one of the best
        mine = {k: v for k, v in r.items() if k != 'runtime'}
        sources = [out[n] for n in self.kinds[i]['of']]
        fits = []
        for j in want['from']:
            o = dict(out[self.names[j - 1]])
            o['reco_runtime'] = o.pop('runtime')
            fits.append(o)
        # results of a selection of a selection carry its own run time
        ok = any(same({k: v for k, v in mine.items()
                       if k != 'reco_runtime'},
                      {k: v for k, v in o.items() if k != 'reco_runtime'})
                 for o in fits)
        if not ok:
            return self.bad('selected result', (i, mine, want))
        if not any(mine.get('reco_runtime') == o['runtime'] and
                   o['who'] == mine['who'] for o in sources):
            return self.bad('run time of selected result', (i, mine))
        return True

    def run(self):
        for s in self.case['hist']:
            if not getattr(self, s['op'])(s):
                return False
        return True


def run(chk):
    n = 60 if chk.thorough else 10
    jobs = [('Tray', config(False, 4 if chk.thorough else 3),
             {'expect_ok': True})]
    for i in range(4):
        jobs.append(('Tray', config(True, 16 if i == 3 else 5 + 3 * i), {
            'expect_ok': True, 'workers': 1, 'extra': [
                '-simulate', 'num=%d' % (n * 20), '-depth', '30', '-seed',
                str(chk.rng.randrange(10 ** 6))]}))
    cases = []
    for (_, _, o), r in zip(jobs, vlib.tlc_all(jobs)):
        chk.add_tlc(r, 'Tray')
        cases += [('simulated' if 'extra' in o else 'small', c)
                  for c in r.json_prints()]
    if len(cases) < 1000:
        raise vlib.MachineryError('only %d histories' % len(cases))
    vlib.parallel(chk, replay, cases)


def replay(chk, cases):
    vlib.setup_environment()
    from egenerator.manager.reconstruction import modules, tray
    modules.StandIn = StandIn
    for i, (kind, case) in enumerate(cases):
        if chk.stop:
            break
        ENV.wait = 0.0005 if i % 4 == 0 else 0.
        w = World(chk, case, modules, tray, kind)
        w.run()
        chk.traces()
        chk.count('executions', sum(
            s['op'] == 'exec' for s in case['hist']))
        chk.count('selections', sum(k['kind'] == 'select' for k in w.kinds))
        chk.count('shared_functions', sum(
            len(s['shared']) for s in case['hist'] if s['op'] == 'add'))
        chk.sample(case)
