"""P01: single-pass batch generation delivers everything once and ends."""
import json
import os
import random

import numpy as np

import pipe
import pipespec
import vlib

LEVEL = 'model_checking'


def make_tensors():
    from egenerator.data.tensor import DataTensor, DataTensorList
    return DataTensorList([
        DataTensor(name='x_parameters', shape=[None, 1], tensor_type='data',
                   dtype='float32')])


def scenario(rng):
    """Files, their kinds and the generator's arguments."""
    nf = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5])
    kinds = []
    for _ in range(nf):
        kinds.append(rng.choice(
            [1, 2, 2, 3, 4, 5, 0, 'skip', 'missing', 1, 3]))
    return dict(
        kinds=kinds, pattern=rng.choice(['glob', 'list', 'names']),
        args=dict(batch_size=rng.choice([1, 2, 2, 3, 4, 7]),
                  sample_randomly=rng.random() < 0.5,
                  pick_random_files_forever=False,
                  file_capacity=rng.choice([1, 1, 2, 4]),
                  batch_capacity=rng.choice([1, 1, 2, 5]),
                  num_jobs=rng.choice([1, 2, 2, 3]),
                  num_add_files=rng.choice([0, 0, 1, 2, 3]),
                  num_repetitions=rng.choice([1, 1, 1, 2, 3, 5])))


FIXED = [
    dict(kinds=[], args={}), dict(kinds=['missing'], args={}),
    dict(kinds=['skip'], args=dict(num_jobs=2)), dict(kinds=[0], args={}),
    dict(kinds=[2], args=dict(batch_size=2)),
    dict(kinds=[3], args=dict(batch_size=2)),
    dict(kinds=[2, 2], args=dict(num_add_files=3)),
    dict(kinds=[1, 'missing', 2], args=dict(num_jobs=3)),
    dict(kinds=[2, 'skip'], args=dict(num_jobs=1)),
    dict(kinds=['skip', 3, 0], args=dict(num_jobs=2, batch_size=4)),
    dict(kinds=[4, 4, 4], args=dict(num_jobs=3, batch_size=4)),
    dict(kinds=[3, 1], args=dict(num_repetitions=5, batch_size=7)),
]


def build(sc, path):
    names = pipe.make_files(path, sc['kinds'])
    table, ids = {}, 0
    for f, (name, k) in enumerate(zip(names, sc['kinds'])):
        if k in ('skip', 'missing'):
            table[name] = None
            continue
        data = np.arange(ids + 1, ids + k + 1, dtype=np.float32)
        table[name] = (k, (data.reshape(k, 1),))
        ids += k
    if sc.get('pattern', 'glob') == 'glob':
        pat = os.path.join(path, '*.h5')
    elif sc['pattern'] == 'list':
        pat = [os.path.join(path, '*.h5')]
    else:   # explicit patterns; missing ones match nothing or are dangling
        pat = [os.path.join(path, n) for n in names] + \
            [os.path.join(path, 'nothing*.h5')]
    return pat, table, ids


def summarise(batch):
    return {'e': [int(v) for v in np.asarray(batch[0]).reshape(-1)]}


def validate(chk, runs, meta, spec='BatchTrace'):
    """Let TLC decide about the recorded runs."""
    with vlib.scratch() as d:
        path = os.path.join(d, 'runs.json')
        with open(path, 'w') as f:
            json.dump(runs, f)
        r = vlib.tlc(spec, 'SPECIFICATION TSpec\nCHECK_DEADLOCK FALSE\n',
                     env={'RUNS': path}, workers=4, timeout=800)
    if not r.ok:
        raise vlib.MachineryError(r.out[-3000:])
    chk.add_tlc(r, spec)
    verdicts = {}
    for v in r.json_prints():
        verdicts[v['tid']] = v
    if len(verdicts) != len(runs):
        raise vlib.MachineryError('only %d verdicts for %d runs\n%s' % (
            len(verdicts), len(runs), r.out[-1500:]))
    bad = []
    for t in sorted(verdicts):
        chk.traces()
        if verdicts[t]['verdict'] != 'ok':
            bad.append((t - 1, verdicts[t]))
    seen = set()
    for i, v in bad:
        if v['verdict'] in seen:
            continue
        seen.add(v['verdict'])
        chk.violation(v['verdict'], {'clause': v['verdict'],
                                     'scenario': meta[i]},
                      {'scenario': meta[i], 'run': runs[i],
                       'failing_step': v['l']})
    return bad


def run_one(h, scn, path, seed, guides=None, i=0):
    rng = random.Random(seed)
    pat, table, n = build(scn, path)
    args = dict(batch_size=2, sample_randomly=False,
                pick_random_files_forever=False)
    args.update(scn['args'])
    events, s = pipe.run_controlled(
        h, table, pat, pipe.policy_for(i, rng, guides), args,
        summarise=summarise, np_seed=seed % 100000)
    ev = []
    for e in events:
        if e['op'] == 'load':
            continue
        if e['op'] == 'batch':
            ev.append({'op': 'batch', 'e': e['e']})
        elif e['op'] == 'dead':
            ev.append({'op': 'error', 'e': [], 'what': e['error']})
        else:
            ev.append({'op': e['op'], 'e': []})
        if e['op'] in ('end', 'hang', 'error', 'dead'):
            break
    return ({'n': n, 'reps': args['num_repetitions'] if 'num_repetitions'
             in args else 1, 'size': args['batch_size'], 'ev': ev},
            {'kinds': scn['kinds'], 'args': args, 'seed': seed, 'policy': i % 6,
             'steps': s.steps, 'hang': s.hang})


def real_runs(chk, h, n):
    """A few runs with real processes (no controlled schedule)."""
    import signal
    runs, meta = [], []
    scns = [dict(kinds=[3, 2, 4], args=dict(num_jobs=2, batch_size=4)),
            dict(kinds=[1, 'missing', 5, 'skip'],
                 args=dict(num_jobs=3, batch_size=2, num_add_files=1,
                           num_repetitions=2)),
            dict(kinds=[], args=dict(num_jobs=1)),
            dict(kinds=[6, 6], args=dict(num_jobs=2, batch_size=5,
                                         sample_randomly=True))][:n]

    class Alarm(Exception):
        pass

    def on_alarm(*a):
        raise Alarm()
    for scn in scns:
        with vlib.scratch() as path:
            pat, table, nev = build(scn, path)
            pipe.CTX.table, pipe.CTX.on_load = table, None
            args = dict(batch_size=2, sample_randomly=False,
                        pick_random_files_forever=False)
            args.update(scn['args'])
            ev = []
            old = signal.signal(signal.SIGALRM, on_alarm)
            signal.alarm(60)
            try:
                for b in h.get_batch_generator(pat, **args):
                    ev.append({'op': 'batch', 'e': summarise(b)['e']})
                ev.append({'op': 'end', 'e': []})
            except Alarm:
                ev.append({'op': 'hang', 'e': []})
            except Exception as e:
                ev.append({'op': 'error', 'e': [], 'what': repr(e)})
            finally:
                signal.alarm(0)
                signal.signal(signal.SIGALRM, old)
            h.kill()
            h._untracked_data['mp_processes'] = []
            runs.append({'n': nev, 'reps': args.get('num_repetitions', 1),
                         'size': args['batch_size'], 'ev': ev})
            meta.append({'real_processes': True, 'kinds': scn['kinds'],
                         'args': args})
    return runs, meta


def run(chk):
    vlib.stub_git()
    # 1. the specification: all interleavings of small pipelines
    props = ('INVARIANT Inv', 'PROPERTY ContractSpec', 'PROPERTY Ends',
             'PROPERTY LoadersStop')
    for kind, kw in [
            ([2, 1], dict(W=2, A=0)), ([], dict(W=2)), ([-1], dict(W=2)),
            ([1, -1, 2], dict(W=2, A=1)), ([0, 1], dict(W=2, R=2)),
            ([2, 2], dict(W=1, A=2, B=3))] + ([
                ([2, 1, 2], dict(W=3, A=1)), ([1, 2, 1], dict(W=2, R=2, A=1)),
                ([1, 1, 1, 1], dict(W=3, A=0, B=3, FC=2, BC=2)),
                ([2, -1, 0, 1], dict(W=2, A=2, FC=2)),
                ([3, 3], dict(W=2, R=2, B=2, BC=2))]
                if chk.thorough else []):
        pipespec.check_model(chk, kind, props, **kw)
    for kind, kw in [([1, 1], dict(W=2)), ([], dict(W=1)),
                     ([1], dict(W=1, A=1))]:
        pipespec.expect_violation(chk, kind, props, **kw)

    # 2. behaviours of the specification as schedules of the real code
    guides = {}
    for W in (1, 2, 3):
        guides[W] = pipespec.schedules(
            [2, -1, 1, 3], 40, 80, chk.seed + W, chk.rng, W=W, A=W - 1)

    # 3. the real code under controlled schedules
    h = pipe.handler(make_tensors())
    rr, rm = real_runs(chk, h, 4 if chk.thorough else 2)
    validate(chk, rr, rm)
    budget = 780 if chk.thorough else 170
    total = 60000 if chk.thorough else 6000
    n = 0
    with vlib.scratch() as path:
        while n < total and not chk.stop and chk.left(budget) > 0:
            runs, meta = [], []
            for _ in range(1500):
                if chk.left(budget) < 0:
                    break
                i = n
                if n < len(FIXED) * 20:
                    scn = FIXED[n % len(FIXED)]
                    i = n // len(FIXED)
                else:
                    scn = scenario(chk.rng)
                g = guides[min(3, scn['args'].get('num_jobs', 1))]
                sub = os.path.join(path, 'd%d' % n)
                os.mkdir(sub)
                r, m = run_one(h, scn, sub, chk.seed * 1000003 + n, g, i)
                for f in os.listdir(sub):
                    os.remove(os.path.join(sub, f))
                os.rmdir(sub)
                runs.append(r)
                meta.append(m)
                n += 1
                if sum(1 for m_ in meta if m_['hang']) > 20:
                    break
            if runs:
                validate(chk, runs, meta)
            if chk.violations:
                break
            chk.sample({'scenario': meta[-1], 'run': runs[-1]})
    chk.cov['controlled_runs'] = n
    chk.assumptions.append(
        'controlled runs replace multiprocessing by a deterministic '
        'scheduler; one access to a shared object is atomic')
