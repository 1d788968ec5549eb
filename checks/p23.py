"""P23: tensors and lists of tensors."""
import copy
import os
import pickle

import vlib

LEVEL = 'model_checking'
# properties of tensors, in the order of the variations of the specification
STANDARD = dict(shape=[None, 3, 2], tensor_type='data', dtype='float32',
                exists=True, vector_info=None, trafo=False,
                trafo_reduce_axes=[], trafo_log=None, trafo_log_axis=-1,
                trafo_batch_axis=0)
VARIATIONS = {
    0: {},
    1: dict(shape=[None, 3, None]),
    2: dict(tensor_type='label'),
    3: dict(dtype='float64'),
    4: dict(exists=False),
    5: dict(vector_info={'type': 'index', 'reference': 'other'}),
    6: dict(trafo=True),
    7: dict(trafo_reduce_axes=[1]),
    8: dict(trafo_log=True),
    9: dict(trafo_log_axis=1),
    10: dict(trafo_batch_axis=1),
    11: dict(unit='m'),
    12: dict(vector_info={'type': 'value', 'reference': 'other'}),
    13: dict(vector_info={'type': 'index', 'reference': 'another'}),
    14: dict(trafo_log=[True, False]),
    15: dict(trafo_log=True, trafo_log_axis=1),
    16: dict(unit='m', type='t'),
    17: dict(unit='m', specs={'unit': 'm'}),
    18: dict(unit={'of': ['m', 3]}),
    19: dict(dtype='bool'),
    20: dict(trafo_log=False),
    21: dict(shape=[3, None, 2]),
    22: dict(tensor_type='weight'), 23: dict(tensor_type='misc'),
    108: dict(trafo_log=[True, True]),
    115: dict(trafo_log=[True] * 3, trafo_log_axis=1),
    120: dict(trafo_log=[False, False]),
    50: dict(shape=None), 51: dict(trafo_log_axis='0'),
    52: dict(trafo_log_axis=None), 53: dict(tensor_type='labels'),
    54: dict(tensor_type=None), 55: dict(dtype=float),
    56: dict(dtype='float31'), 57: dict(vector_info={'type': 'indices',
                                                     'reference': 'other'}),
    58: dict(trafo_log=True, trafo_log_axis=0),
    59: dict(trafo_log=False, shape=[None, 3, None]),
}
INVALID = {k for k in VARIATIONS if 50 <= k < 60}
POOL = ['x', 'X', 'x10', 'x2', 'x_2', 'x2_', '_x', 'data', 'Data', '2', '10',
        'xx', 'é', 'z', 'ω', 'x y', 'a', 'B']


def config(small, names, variations, *sizes):
    def s(x):
        return '{%s}' % ', '.join(str(i) for i in sorted(x))
    return ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT OrderOk\n'
            'INVARIANT SetsDecide\nINVARIANT Emit\nPROPERTY Grow\n'
            'CONSTANT Names = %s\nCONSTANT Variations = %s\n'
            'CONSTANT Invalid = %s\nCONSTANT Small = %s\n' % (
                s(range(1, names + 1)), s(variations),
                s(INVALID & set(variations)), 'TRUE' if small else 'FALSE') +
            ''.join('CONSTANT %s = %d\n' % x for x in zip(
                ('MaxTensors', 'MaxLists', 'MaxSteps'), sizes)))


def run(chk):
    big = chk.thorough
    jobs = [('TensorLists', config(True, 2, {0, 8, 108}, 2, 2, 4),
             {'expect_ok': True})]
    if big:
        jobs.append(('TensorLists', config(True, 2, {0, 1, 50}, 3, 2, 5),
                     {'expect_ok': True}))
    for n, t, l, m in ((3, 5, 4, 10), (4, 6, 6, 16), (6, 9, 8, 26)):
        # fewer variations make equal lists more likely
        for v in (set(VARIATIONS), set(chk.rng.sample(
                sorted(VARIATIONS), 3)) | {0, 8, 108}):
            jobs.append(('TensorLists', config(False, n, v, t, l, m), {
                'expect_ok': True, 'workers': 1, 'extra': [
                    '-simulate', 'num=%d' % (4000 if big else 300), '-depth',
                    str(3 * m), '-seed', str(chk.rng.randrange(10 ** 6))]}))
    cases = []
    for (_, _, o), r in zip(jobs, vlib.tlc_all(jobs)):
        chk.add_tlc(r, 'TensorLists')
        got = list(r.json_prints())
        if 'extra' not in o:
            chk.rng.shuffle(got)
            got = got[:20000 if big else 1500]
        cases += got
    if len(cases) < 2000:
        raise vlib.MachineryError('only %d histories' % len(cases))
    vlib.parallel(chk, replay, cases)


class World:

    def __init__(self, chk, case):
        self.chk, self.case, self.rng = chk, case, chk.rng
        self.names = sorted(self.rng.sample(POOL, 9))
        self.tens, self.values, self.lists, self.want = [], [], [], []
        self.step = None

    def bad(self, what, detail=None):
        self.chk.violation(
            '%s:%s' % (self.step and self.step['op'], what),
            {'what': what, 'step': self.step, 'detail': detail},
            {'case': self.case, 'names': self.names, 'detail': detail})
        return False

    def settings(self, nm, v):
        s = copy.deepcopy(STANDARD)
        s.update(copy.deepcopy(VARIATIONS[v]))
        s['name'] = self.names[nm - 1]
        return s

    def full(self, nm, v):
        """All properties as they are kept."""
        s = self.settings(nm, v)
        log = s['trafo_log']
        if isinstance(log, bool):
            s['trafo_log'] = [log] * s['shape'][s['trafo_log_axis']]
        s['specs'] = {k: s.pop(k) for k in list(s)
                      if k not in STANDARD and k != 'name'}
        s['type'] = s.pop('tensor_type')
        return s

    def run(self):
        from egenerator.data.tensor import DataTensor, DataTensorList
        for self.step in self.case['steps']:
            op = self.step['op']
            new = want = None
            try:
                if op == 'tensor':
                    s = self.settings(self.step['nm'], self.step['v'])
                    new = DataTensor(**s)
                    self.tens.append(new)
                elif op == 'make':
                    x = [self.tens[i - 1] for i in self.step['of']]
                    new = DataTensorList(
                        x if self.rng.random() < .7 else tuple(x))
                elif op == 'copy':
                    x = self.lists[self.step['of'][0] - 1]
                    f = self.rng.choice([
                        DataTensorList, copy.deepcopy, copy.copy,
                        lambda y: pickle.loads(pickle.dumps(y))])
                    new = f(x)
                elif op == 'join':
                    a, b = [self.lists[i - 1] for i in self.step['of']]
                    new = DataTensorList(a.list + b.list)
                elif op == 'restore':
                    x = self.lists[self.step['of'][0] - 1]
                    s = x.serialize()
                    if len(s) != len(self.step['perm']):
                        return self.bad('serialized tensors', s)
                    t = [s[i - 1] for i in self.step['perm']]
                    if self.rng.random() < .4:
                        t = self.yaml(t)
                    f = DataTensorList if self.rng.random() < .5 else \
                        self.rng.choice(self.lists).deserialize
                    before = copy.deepcopy(t)
                    new = f(t)
                    if t != before:
                        return self.bad('serialized list changed', t)
                    # what was serialized may be changed
                    for y in (s, t):
                        for z in y:
                            self.spoil(z)
                elif op == 'change':
                    i = self.step['of'][0] - 1
                    t = self.tens[i]
                    nm = self.names.index(t.name) + 1
                    for k, y in self.full(nm, self.step['v']).items():
                        old = getattr(t, k)
                        if isinstance(old, dict) and isinstance(y, dict):
                            old.clear()
                            old.update(y)
                        elif isinstance(old, list) and isinstance(y, list):
                            old[:] = y
                        else:
                            setattr(t, k, y)
            except Exception as e:
                if self.step['ok']:
                    return self.bad('exception', repr(e))
                self.chk.count('refused')
            else:
                if not self.step['ok']:
                    return self.bad('accepted', str(self.step))
                if op not in ('tensor', 'change'):
                    self.lists.append(new)
            if not self.judge():
                return False
        return True

    @staticmethod
    def yaml(x):
        from ruamel.yaml import YAML
        import io
        y = YAML(typ='safe', pure=True)
        f = io.StringIO()
        y.dump(x, f)
        return y.load(f.getvalue())

    @staticmethod
    def spoil(d):
        for k in list(d):
            if isinstance(d[k], dict):
                d[k]['spoiled'] = 1
            elif isinstance(d[k], list):
                d[k].append('spoiled')
            else:
                d[k] = 'spoiled'

    def judge(self):
        # lists after this step: those of the end that existed already
        want = self.case['lists'][:len(self.lists)]
        for x, w in zip(self.lists, want):
            full = [self.full(t['nm'], t['v']) for t in w]
            names = [t['name'] for t in full]
            if list(x.names) != names or x.len != len(names) or \
                    [t.name for t in x.list] != names:
                return self.bad('order of names', (x.names, names))
            for i, t in enumerate(full):
                if x.get_index(t['name']) != i or \
                        x.get_name(i) != t['name'] or \
                        x[t['name']] is not x.list[i]:
                    return self.bad('index of tensor', (i, t['name']))
                y = x.list[i]
                for k, v in t.items():
                    if getattr(y, k) != v:
                        return self.bad('property', (k, getattr(y, k), v))
                if y.to_dict() != t or \
                        (x.shapes[i], x.types[i], x.exists[i]) != (
                            t['shape'], t['type'], t['exists']):
                    return self.bad('properties', (y.to_dict(), t))
            for f, k in ((x.get_index, 'unknown'), (x.get_name, len(names)),
                         (x.__getitem__, 'unknown')):
                try:
                    y = f(k)
                except Exception:
                    pass
                else:
                    return self.bad('unknown tensor', y)
        for i, x in enumerate(self.lists):
            for j, y in enumerate(self.lists):
                same = want[i] == want[j]
                if (x == y) is not same or (x != y) is same:
                    return self.bad('equality', (want[i], want[j]))
                self.chk.count('equal' if same else 'unequal')
            if x == x.list or not x != None:  # noqa: E711
                return self.bad('equal to something else')
        return True


def replay(chk, cases):
    vlib.setup_environment()
    vlib.stub_git()
    for case in cases:
        if chk.stop:
            break
        w = World(chk, case)
        try:
            w.run()
        except Exception:
            import traceback
            w.bad('harness', traceback.format_exc()[-900:])
        chk.traces()
        chk.sample(case)
