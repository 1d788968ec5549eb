"""P02: every event keeps its own data through batching."""
import json
import os
import random

import numpy as np

import pipe
import vlib

LEVEL = 'model_checking'

DT = ['float32', 'float64', 'int32', 'int64']
DTB = DT + ['bool']


def make_tensors(rng):
    """A random tensor list; returns (list, description in list order)."""
    from egenerator.data.tensor import DataTensor, DataTensorList
    letters = list('abcdefghijkl')
    rng.shuffle(letters)
    nm = iter(letters)
    ts = []
    desc = {}

    def add(name, kind, ref=None, **kw):
        ts.append(DataTensor(name=name, tensor_type='data', **kw))
        desc[name] = dict(kind=kind, ref=ref, dtype=kw['dtype'])
    add(next(nm) + '_id', 'id', shape=[None, 2], dtype=rng.choice(
        ['float32', 'int32', 'float64']))
    for _ in range(rng.choice([0, 1, 1, 2])):
        add(next(nm) + '_plain', 'plain',
            shape=[None] + [2] * rng.choice([0, 1, 2]),
            dtype=rng.choice(DTB))
    for _ in range(rng.choice([1, 1, 2])):
        v, i = next(nm) + '_vals', next(nm) + '_idx'
        add(v, 'value', ref=i, shape=[None, 2], dtype=rng.choice(DT),
            vector_info={'type': 'value', 'reference': i})
        add(i, 'index', ref=v, shape=[None, 3],
            dtype=rng.choice(['int32', 'int64']),
            vector_info={'type': 'index', 'reference': v})
    if rng.random() < 0.4:
        add(next(nm) + '_none', 'none', shape=[None, 3],
            dtype=rng.choice(DTB), exists=False)
    if rng.random() < 0.2:
        v, i = next(nm) + '_nvals', next(nm) + '_nidx'
        add(v, 'none', shape=[None, 2], dtype='float32', exists=False,
            vector_info={'type': 'value', 'reference': i})
        add(i, 'none', shape=[None, 3], dtype='int32', exists=False,
            vector_info={'type': 'index', 'reference': v})
    rng.shuffle(ts)
    tl = DataTensorList(ts)
    return tl, [dict(desc[t.name], name=t.name, shape=list(t.shape))
                for t in tl.list]


def make_file(rng, desc, first, n, declared):
    """Data of one file and the per-event view of it."""
    per_event = [[None] * len(desc) for _ in range(n)]
    data = [None] * len(desc)
    for t, d in enumerate(desc):
        dt = d['dtype']
        if not declared and dt.startswith('float'):
            dt = 'float64' if dt == 'float32' else 'float32'
        if d['kind'] in ('plain', 'id'):
            sh = [n] + [2 for _ in d['shape'][1:]]
            if d['kind'] == 'id':
                arr = np.zeros(sh)
                arr[:, 0] = np.arange(first, first + n)
                arr[:, 1] = 7
            else:
                arr = np.arange(int(np.prod(sh))).reshape(sh) + 1000 * first
            if dt == 'bool':
                # keep the values of neighbouring events apart
                arr = (arr.astype(int) // 2 + first) % 3
            data[t] = arr.astype(dt)
            for e in range(n):
                per_event[e][t] = [int(x) for x in
                                   data[t][e].reshape(-1)]
    for t, d in enumerate(desc):
        if d['kind'] != 'index':
            continue
        v = [j for j, x in enumerate(desc) if x['name'] == d['ref']][0]
        mult = [rng.choice([0, 1, 1, 2, 3]) for _ in range(n)]
        owners = [e for e in range(n) for _ in range(mult[e])]
        if rng.random() < 0.4:
            rng.shuffle(owners)
        m = len(owners)
        idx = np.zeros((m, 3), dtype=d['dtype'])
        val = np.zeros((m, 2), dtype=desc[v]['dtype'])
        for k, e in enumerate(owners):
            idx[k] = [e, rng.randrange(86), rng.randrange(60)]
            val[k] = [(first + e) * 16 + k, k]
        data[t], data[v] = idx, val
        for e in range(n):
            sel = [k for k in range(m) if owners[k] == e]
            per_event[e][t] = [[int(x) for x in idx[k]] for k in sel]
            per_event[e][v] = [[int(x) for x in val[k]] for k in sel]
    for t, d in enumerate(desc):
        if d['kind'] == 'none':
            for e in range(n):
                per_event[e][t] = 0
    return data, per_event


def rows(arr, kind):
    arr = np.asarray(arr)
    if arr.ndim == 0:
        return [[int(arr)]]
    if arr.shape[0] == 0:
        return []
    a = arr.reshape(arr.shape[0], -1)
    return [[int(x) if float(x).is_integer() else -999999
             for x in r] for r in a]


def one(rng, path, i):
    tl, desc = make_tensors(rng)
    h = pipe.handler(tl)
    nf = rng.choice([1, 2, 3])
    names = pipe.make_files(path, [1] * nf)
    table, view = {}, []
    declared = rng.random() < 0.7
    for nme in names:
        n = rng.choice([1, 2, 3, 4, 0])
        data, per = make_file(rng, desc, len(view) + 1, n, declared)
        table[nme] = (n, data)
        view.extend(per)
    forever = rng.random() < 0.25 and len(view) > 0
    args = dict(batch_size=rng.choice([1, 2, 3, 4, 5]),
                sample_randomly=rng.random() < 0.6,
                pick_random_files_forever=forever,
                file_capacity=rng.choice([1, 2]),
                batch_capacity=rng.choice([1, 3]),
                num_jobs=rng.choice([1, 2]),
                num_add_files=rng.choice([0, 1, 2]),
                num_repetitions=rng.choice([1, 1, 2, 3]))

    def summarise(batch):
        return {'b': [{'dtype': str(np.asarray(b).dtype),
                       'rows': rows(b, d['kind'])}
                      for b, d in zip(batch, desc)]
                if len(batch) == len(desc) else []}
    events, s = pipe.run_controlled(
        h, table, os.path.join(path, '*.h5'), pipe.policy_for(i, rng), args,
        max_batches=8 if forever else 60, summarise=summarise,
        np_seed=rng.randrange(10 ** 6))
    batches = [e['b'] for e in events if e['op'] == 'batch']
    end = ''
    for e in events:
        if e['op'] in ('error', 'dead'):
            end = 'error: ' + e['error'][:200]
    # hangs and lost events are P01's business
    run = {'tensors': [{'kind': d['kind'], 'dtype': d['dtype']}
                       for d in desc],
           'data': view, 'batches': batches, 'end': end}
    meta = {'tensors': desc, 'args': args, 'files': nf, 'case': i}
    return run, meta, len(batches)


def validate(chk, runs, meta):
    import checks.p01 as p01
    return p01.validate(chk, runs, meta, 'EventTrace')


def split_cases(chk):
    """TLC's cases of splitting/joining vectors, replayed on the code."""
    from egenerator.data.tensor import DataTensor, DataTensorList
    r = vlib.tlc('VectorSplit', 'SPECIFICATION Spec\nINVARIANT Inv\n'
                 'CONSTANTS MaxElems=%d MaxEvents=3\nCHECK_DEADLOCK FALSE\n'
                 % (6 if chk.thorough else 5), workers=4, expect_ok=True)
    chk.add_tlc(r, 'VectorSplit')
    h = pipe.handler(DataTensorList([DataTensor(
        name='x', shape=[None, 1], tensor_type='data', dtype='float32')]))
    n = 0
    for c in r.json_prints():
        n += 1
        o = c['owner']
        m = len(o)
        val = np.array([[10. * k, k] for k in range(1, m + 1)],
                       dtype='float32').reshape(m, 2)
        idx = np.array([[o[k] - 1, 5 + k, 7] for k in range(m)],
                       dtype='int32').reshape(m, 3)
        v0, i0 = val.copy(), idx.copy()
        got = vlib.observe(h.batch_to_event_structure, val, idx, c['n'])
        case = {'function': 'batch_to_event_structure', 'case': c}
        if got[0] != 'ok' or not (np.array_equal(v0, val) and
                                  np.array_equal(i0, idx)):
            chk.violation('split fails', case, [case, got])
            return
        vl, il = got[1]
        res = [[int(x[1]) for x in v] for v in vl]
        ids = [[[int(y) for y in x] for x in v] for v in il]
        exp_ids = [[[e, 4 + k, 7] for k in s] for e, s in enumerate(c['split'])]
        if res != c['split'] or ids != exp_ids:
            chk.violation('vector elements assigned to the wrong event',
                          case, [case, res, ids])
            return
        got = vlib.observe(h.event_to_batch_structure, vl, il, c['n'])
        flat = [k for s in c['split'] for k in s]
        if got[0] != 'ok' or \
                [int(x[1]) for x in got[1][0]] != flat or \
                [int(x[1]) - 4 for x in got[1][1]] != flat:
            chk.violation('joining the events of a vector fails', case,
                          [case, str(got)])
            return
    chk.traces(n)
    chk.count('split_cases', n)


def run(chk):
    vlib.stub_git()
    split_cases(chk)
    budget = 700 if chk.thorough else 120
    total = 40000 if chk.thorough else 2500
    n = batches = 0
    with vlib.scratch() as path:
        while n < total and chk.left(budget) > 0 and not chk.violations:
            runs, meta = [], []
            for _ in range(500):
                if chk.left(budget) < 0:
                    break
                sub = os.path.join(path, 'd%d' % n)
                os.mkdir(sub)
                rng = random.Random(chk.seed * 7919 + n)
                r, m, nb = one(rng, sub, n)
                for f in os.listdir(sub):
                    os.remove(os.path.join(sub, f))
                os.rmdir(sub)
                runs.append(r)
                meta.append(m)
                n += 1
                batches += nb
            validate(chk, runs, meta)
            if meta:
                chk.sample({'scenario': meta[-1],
                            'batch': runs[-1]['batches'][-1:]}, 2)
    chk.cov['runs'] = n
    chk.cov['batches_checked'] = batches
