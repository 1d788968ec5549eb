"""P03: endless batch generation makes progress within its queue limits."""
import os
import random

import numpy as np

import pipe
import pipespec
import sched as sc
import vlib
from checks import p01

LEVEL = 'model_checking'


def stall_models(chk):
    """The bound on loaded files holds in the pipeline model and is tight."""
    cases = [([1], dict(W=1, B=2, R=1, A=0), 1), ([1], dict(W=2, B=1), 1),
             ([2, 2], dict(W=1, B=1, R=2, A=1), 0),
             ([1, 1], dict(W=2, B=2, A=1), 1)]
    if chk.thorough:
        cases += [([2], dict(W=2, B=3, R=2, A=0, FC=2, BC=2), 2),
                  ([1, 1], dict(W=3, B=2, R=3, A=1), 1),
                  ([3], dict(W=2, B=2, A=0, BC=2), 2)]
    for kind, kw, stop in cases:
        cfg, files = pipespec.model(kind, forever=True, props=(), **kw)
        files['MCS.tla'] = files.pop('MCP.tla').replace(
            'MODULE MCP', 'MODULE MCS').replace('Pipeline', 'PipelineStall')
        cfg = cfg.replace('SPECIFICATION Spec', 'SPECIFICATION SSpec') + \
            'CONSTANT Stop=%d\nCHECK_DEADLOCK FALSE\n' % stop
        r = vlib.tlc('MCS', cfg + 'INVARIANT Bounded\nINVARIANT Inv\n',
                     files=files, workers=8)
        if not r.ok:
            raise vlib.MachineryError('load bound: ' + r.error_trace())
        chk.add_tlc(r, 'PipelineStall %s %s' % (kind, kw))
        r = vlib.tlc('MCS', cfg + 'INVARIANT NotReached\n', files=files,
                     workers=8)
        if r.violated != 'NotReached':
            raise vlib.MachineryError('the load bound is not tight')


def scenario(rng):
    nf = rng.choice([1, 1, 2, 3, 4])
    uniform = rng.random() < 0.5
    if uniform:
        kinds = [rng.choice([1, 2, 3, 5])] * nf
    else:
        kinds = [rng.choice([1, 2, 3, 4, 0, 'skip', 'missing', 5])
                 for _ in range(nf)]
        if not any(isinstance(k, int) and k > 0 for k in kinds):
            kinds[rng.randrange(nf)] = rng.choice([1, 3])
    return dict(kinds=kinds, uniform=uniform, args=dict(
        batch_size=rng.choice([1, 2, 3, 4, 7]),
        sample_randomly=rng.random() < 0.5,
        file_capacity=rng.choice([1, 1, 2, 4]),
        batch_capacity=rng.choice([1, 1, 2, 5]),
        num_jobs=rng.choice([1, 2, 2, 3]),
        num_add_files=rng.choice([0, 0, 1, 2, 3]),
        num_repetitions=rng.choice([1, 1, 1, 2, 3, 5])),
        batches=rng.choice([0, 1, 4, 12]), stop=rng.random() < 0.6)


def one(h, scn, path, seed, i, guides):
    rng = random.Random(seed)
    names = pipe.make_files(path, scn['kinds'])
    kinds = dict(zip(names, scn['kinds']))
    loads = []

    def make(name):
        k = kinds[name]
        if k in ('skip', 'missing'):
            return None
        loads.append(k)
        s_box[0].event(op='load', n=k)
        ids = np.arange(1, k + 1, dtype=np.float32) + 10 * len(loads)
        return k, (ids.reshape(k, 1),)

    s_box = [None]
    args = dict(scn['args'])
    args.setdefault('pick_random_files_forever', True)

    def after(s, gen):
        # wait until nobody can continue; polling is not progress
        try:
            s.point(lambda: False)
        except sc.Hang:
            pass

    def started(s):
        s_box[0] = s
    events, s = pipe.run_controlled(
        h, make, os.path.join(path, '*.h5'),
        pipe.policy_for(i, rng, guides), args,
        max_batches=scn['batches'], summarise=p01.summarise,
        np_seed=seed % 100000, after=after if scn['stop'] else None,
        started=started)
    ev = []
    for e in events:
        op = e['op']
        if op == 'cut' and not scn['stop']:
            op = 'last'
        if op == 'dead':
            op = 'error'
        ev.append({'op': op, 'n': e.get('n', 0), 'e': e.get('e', [])})
        if op in ('error', 'hang', 'end', 'last'):
            break
    pos = [k for k in scn['kinds'] if isinstance(k, int) and k > 0]
    a = scn['args']
    # files without events enlarge a group without being visible
    zero = 0
    run = dict(size=a['batch_size'], reps=a['num_repetitions'],
               add=a['num_add_files'], fcap=a['file_capacity'],
               bcap=a['batch_capacity'], workers=a['num_jobs'],
               k=pos[0] if scn['uniform'] else 0, mink=min(pos), zero=zero,
               ev=ev)
    meta = dict(kinds=scn['kinds'], args=args, batches=scn['batches'],
                stop=scn['stop'], seed=seed, policy=i % 6,
                loads=len(loads), hang=s.hang)
    return run, meta


def run(chk):
    vlib.stub_git()
    for kind, kw in [([1], dict(W=2, B=2)), ([1, 0], dict(W=1, B=2, A=1)),
                     ([-1, 2], dict(W=1, R=2, B=3))] + (
            [([1, 2], dict(W=2, B=2, FC=2)), ([2, 1], dict(W=2, A=1, B=3))]
            if chk.thorough else []):
        # every file is picked infinitely often only if loads are fair about
        # files; files without events alone would never fill a batch
        props = ['INVARIANT Inv']
        if min(kind) > 0:
            props.append('PROPERTY Progress')
        pipespec.check_model(chk, kind, props, forever=True, **kw)
    stall_models(chk)
    guides = {W: pipespec.schedules([1, 2, -1], 40, 120, chk.seed + W,
                                    chk.rng, W=W, A=W - 1, forever=True)
              for W in (1, 2, 3)}
    h = pipe.handler(p01.make_tensors())
    budget = 780 if chk.thorough else 150
    total = 60000 if chk.thorough else 4000
    n = 0
    with vlib.scratch() as path:
        while n < total and not chk.stop and chk.left(budget) > 0:
            runs, meta = [], []
            for _ in range(1000):
                if chk.left(budget) < 0:
                    break
                scn = scenario(chk.rng)
                sub = os.path.join(path, 'd%d' % n)
                os.mkdir(sub)
                r, m = one(h, scn, sub, chk.seed * 1000003 + n, n,
                           guides[scn['args']['num_jobs']])
                for f in os.listdir(sub):
                    os.remove(os.path.join(sub, f))
                os.rmdir(sub)
                runs.append(r)
                meta.append(m)
                n += 1
                if sum(1 for r_ in runs if r_['ev'] and
                       r_['ev'][-1]['op'] == 'hang') > 20:
                    break
            if runs:
                p01.validate(chk, runs, meta, 'EndlessTrace')
                chk.count('loads', sum(m_['loads'] for m_ in meta))
                chk.sample({'scenario': meta[-1], 'run': runs[-1]}, 2)
            if chk.violations:
                break
    chk.cov['controlled_runs'] = n
    chk.assumptions.append('at least one of the given files has events')
