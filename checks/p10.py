"""P10: the training history is recorded completely and in order."""
import hashlib
import os
import shutil

import ckpt
import vlib
from checks import p09

LEVEL = 'model_checking'


def entry_files(d, n):
    root = os.path.join(d, 'training', 'step_%04d' % n)
    res = {}
    for r, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(r, f)
            res[os.path.relpath(p, root)] = hashlib.md5(
                open(p, 'rb').read()).hexdigest()
    return res


def settings(op):
    comps = {}
    for j in range(op['comps']):
        c = p09.component_class()()
        c.configure(k=op['cfg'] * 10 + j)
        comps[['loss_module', 'evaluation_module'][j]] = c
    return {'config': {'cfg': op['cfg'], 'opt': {'lr': [1, 2]}},
            'components': comps}


def replay(h, d):
    import ruamel.yaml as yaml
    m = ckpt.new_model()
    m.save(d)
    files, meta0 = {}, {}
    for i, e in enumerate(h):
        op, exp = e['op'], e['exp']
        if op['name'] == 'start':
            if op['full']:
                got = vlib.observe(m.save, d, overwrite=True, protected=True,
                                   new_training_settings=settings(op))
            else:
                got = vlib.observe(m.save_training_settings, d, settings(op))
        elif op['name'] == 'ckpt':
            kw = {'num_training_steps': op['steps']} if op['steps'] else {}
            got = vlib.observe(m.save_weights, d, **kw)
        elif op['name'] == 'save':
            got = vlib.observe(m.save, d, overwrite=True)
        else:
            m = ckpt.model_class()()
            got = vlib.observe(m.load, d)
        if (got[0] == 'ok') != e['ok']:
            return i, 'refused: %s' % (got,) if e['ok'] else \
                'accepted although it has to be refused'
        p = os.path.join(d, 'training', 'training_steps.yaml')
        meta = yaml.safe_load(open(p)) if os.path.exists(p) else \
            {'training_steps': {}, 'latest_step': 0}
        ts = meta['training_steps']
        if sorted(ts) != list(range(1, len(exp) + 1)):
            return i, 'entries %s, expected %d' % (sorted(ts), len(exp))
        if meta['latest_step'] != len(exp):
            return i, 'latest entry is %s' % meta['latest_step']
        for n, x in enumerate(exp, 1):
            if ts[n]['num_training_steps'] != x['steps']:
                return i, 'steps of entry %d: %s, expected %s' % (
                    n, ts[n]['num_training_steps'], x['steps'])
            root = os.path.join(d, 'training', 'step_%04d' % n)
            try:
                cfg = yaml.safe_load(open(os.path.join(
                    root, 'training_config.yaml')))
            except Exception as err:
                return i, 'no configuration stored: %r' % err
            if cfg != {'cfg': x['cfg'], 'opt': {'lr': [1, 2]}}:
                return i, 'configuration of entry %d: %s' % (n, cfg)
            names = ['loss_module', 'evaluation_module'][:x['comps']]
            for j, nme in enumerate(names):
                c = p09.component_class()()
                got = vlib.observe(c.load, os.path.join(root, nme))
                if got[0] != 'ok' or \
                        c.configuration.settings != {'k': x['cfg'] * 10 + j}:
                    return i, 'component of entry %d: %s' % (n, got)
            f = entry_files(d, n)
            if n in files and files[n] != f:
                return i, 'files of entry %d changed' % n
            files[n] = f
            t = {k: v for k, v in ts[n].items() if k != 'num_training_steps'}
            if n in meta0 and meta0[n] != t:
                return i, 'record of entry %d changed' % n
            meta0[n] = t
    return None


def run(chk):
    vlib.stub_git()
    cfg = ('SPECIFICATION Spec\nCONSTANTS N=%d Steps={%s} Comps={%s} '
           'Emit=TRUE\nINVARIANT EmitHist\n%sCHECK_DEADLOCK FALSE\n')
    r = vlib.tlc('TrainHist', cfg % (4 if chk.thorough else 3, '0,5,9', '1,2',
                                     'PROPERTY EarlierKept\n'),
                 workers=1, expect_ok=True)
    chk.add_tlc(r, 'TrainHist')
    hs = list(r.json_prints())
    chk.rng.shuffle(hs)
    chk.cov['exhaustive_histories'] = len(hs)
    n = 1500 if chk.thorough else 80
    r = vlib.tlc('TrainHist', cfg % (12, '0,3,8,20', '1,2,0', ''), workers=1,
                 extra=('-simulate', 'num=%d' % n, '-seed', str(chk.seed),
                        '-depth', '14'), expect_ok=True)
    chk.add_tlc(r, 'TrainHist simulation')
    sim = list(r.json_prints())
    hs = chk.rng.sample(sim, min(n, len(sim))) + hs
    budget = 780 if chk.thorough else 120
    with vlib.scratch() as path:
        for i, h in enumerate(hs):
            if chk.stop or chk.left(budget) < 0:
                break
            d = os.path.join(path, 'h%d' % i)
            bad = replay(h, d)
            shutil.rmtree(d, ignore_errors=True)
            chk.traces()
            chk.count('operations', len(h))
            if bad:
                chk.violation('training history: ' + bad[1].split(':')[0],
                              bad, {'history': h, 'bad': bad})
            elif i % 50 == 3:
                chk.sample([e['op'] for e in h])
