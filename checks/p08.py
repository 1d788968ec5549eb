"""P08: checkpoints are numbered, kept, pruned and restored as requested."""
import os
import shutil

import ckpt
import vlib

LEVEL = 'model_checking'


def replay(chk, hist, d):
    """Returns None or (step, what)."""
    m = ckpt.new_model()
    before = {}
    for i, e in enumerate(hist):
        op, exp = e['op'], e['exp']
        if op['name'] == 'save':
            ckpt.set_weights(m, op['w'])
            kw = {'max_keep': op['keep'], 'protected': op['prot'],
                  'description': 'op %d' % i}
            if i == 0 or not os.path.exists(
                    os.path.join(d, 'configuration.yaml')):
                got = vlib.observe(m.save, d, **kw)
            else:
                got = vlib.observe(m.save_weights, d, **kw)
        else:
            kw = {} if op['num'] == 0 else {'checkpoint_number': op['num']}
            target = m
            if op['fresh'] and os.path.exists(
                    os.path.join(d, 'configuration.yaml')):
                target = ckpt.model_class()()
                got = vlib.observe(target.load, d, **kw)
                if got[0] == 'ok':
                    m = target
            else:
                got = vlib.observe(m.load_weights, d, **kw)
        if (got[0] == 'ok') != e['ok']:
            return i, ('refused: %s' % (got,) if e['ok']
                       else 'accepted although it has to be refused')
        files = ckpt.ckpt_files(d) if os.path.isdir(d) else {}
        rec = ckpt.record(d)
        if sorted(files) != sorted(exp['present']):
            return i, 'checkpoint files %s exist, expected %s' % (
                sorted(files), exp['present'])
        prot = sorted(rec['protected_checkpoints'])
        unp = sorted(rec['unprotected_checkpoints'])
        if prot != sorted(exp['prots']) or \
                unp != sorted(set(exp['present']) - set(exp['prots'])):
            return i, 'record lists protected %s unprotected %s' % (prot, unp)
        if rec['latest_checkpoint'] != exp['latest']:
            return i, 'record has the latest checkpoint %s, expected %s' % (
                rec['latest_checkpoint'], exp['latest'])
        if ckpt.get_weights(m) != exp['w']:
            return i, 'weights %s, expected %s' % (
                ckpt.get_weights(m), exp['w'])
        for n in before:
            if n in files and files[n] != before[n]:
                return i, 'files of checkpoint %d were overwritten' % n
        for n in files:
            kinds = [f.split('.')[-1].split('-')[0] for f, _ in files[n]]
            if sorted(kinds) != ['data', 'index']:
                return i, 'incomplete checkpoint %s' % files[n]
        before = files
    # every checkpoint that exists restores its weights in a fresh object
    saved = {}
    for e in hist:
        if e['op']['name'] == 'save':
            saved[len(saved) + 1] = e['op']['w']
    for n in exp['present']:
        f = ckpt.model_class()()
        got = vlib.observe(f.load, d, checkpoint_number=n)
        if got[0] != 'ok' or ckpt.get_weights(f) != saved[n]:
            return len(hist), 'checkpoint %d restores %s, expected %s' % (
                n, got if got[0] != 'ok' else ckpt.get_weights(f), saved[n])
    return None


def histories(chk, N, keeps, nums, simulate=None):
    cfg = ('SPECIFICATION Spec\nCONSTANTS N=%d Keeps={%s} Nums={%s} '
           'Emit=TRUE\nINVARIANT LatestExists\nINVARIANT EmitHist\n'
           'PROPERTY ProtectedStay\nPROPERTY NeverOverwritten\n'
           'PROPERTY NumbersGrow\nCHECK_DEADLOCK FALSE\n' % (
               N, ','.join(map(str, keeps)), ','.join(map(str, nums))))
    extra = ()
    if simulate:
        cfg = cfg.replace('PROPERTY ProtectedStay\nPROPERTY NeverOverwritten'
                          '\nPROPERTY NumbersGrow\n', '')
        extra = ('-simulate', 'num=%d' % simulate, '-seed', str(chk.seed),
                 '-depth', str(N + 2))
    r = vlib.tlc('CheckpointHist', cfg, workers=1, extra=extra,
                 expect_ok=True)
    chk.add_tlc(r, 'CheckpointHist N=%d' % N)
    return list(r.json_prints())


def loses_record(chk, path):
    """An existing checkpoint is not overwritten if the record is lost."""
    for k in range(1, 4):
        d = os.path.join(path, 'lost%d' % k)
        m = ckpt.new_model()
        for i in range(k):
            ckpt.set_weights(m, i + 1)
            m.save_weights(d) if i else m.save(d)
        os.remove(os.path.join(d, 'model_checkpoint.yaml'))
        before = ckpt.ckpt_files(d)
        ckpt.set_weights(m, 50)
        for _ in range(2):
            got = vlib.observe(m.save_weights, d)
            after = ckpt.ckpt_files(d)
            if any(after.get(n) != before[n] for n in before):
                chk.violation('checkpoint overwritten without a record',
                              [k, got], [before, after])
        # a save whose number is recorded already is refused
        chk.traces()


def changed_model(chk, path):
    """A model that has changed since it was configured is not saved."""
    import tensorflow as tf
    d = os.path.join(path, 'changed')
    m = ckpt.new_model()
    m.save(d)
    before = ckpt.ckpt_files(d)
    m._untracked_data['new'] = tf.Variable(3., name='new')
    got = vlib.observe(m.save_weights, d)
    if got[0] == 'ok' and len(m.variables) != len(
            m._untracked_data['variables']):
        chk.violation('changed model saved', got, got)
    if got[0] != 'ok' and ckpt.ckpt_files(d) != before:
        chk.violation('refused save changes files', got, got)
    chk.traces()


def run(chk):
    vlib.stub_git()
    hs = histories(chk, 3, [1, 2], [0, 1, 2])
    chk.cov['exhaustive_histories'] = len(hs)
    for N, keeps, nums, n in [(8, [1, 2, 3], [0, 1, 2, 3, 5], 300),
                              (20, [1, 2, 3, 5], [0, 1, 4, 7, 12], 100)]:
        if chk.thorough:
            n *= 12
        h = histories(chk, N, keeps, nums, n)
        hs += chk.rng.sample(h, min(n, len(h)))
    budget = 800 if chk.thorough else 200
    with vlib.scratch() as path:
        loses_record(chk, path)
        changed_model(chk, path)
        for i, h in enumerate(hs):
            if chk.stop or chk.left(budget) < 0:
                break
            d = os.path.join(path, 'h%d' % i)
            bad = replay(chk, h, d)
            shutil.rmtree(d, ignore_errors=True)
            chk.traces()
            chk.count('operations', len(h))
            if bad:
                chk.violation(
                    'checkpoint history: ' + bad[1].split(':')[0],
                    {'step': bad[0], 'what': bad[1]},
                    {'history': h, 'step': bad[0], 'what': bad[1]})
            elif i % 500 == 3:
                chk.sample([e['op'] for e in h])
    chk.assumptions.append('max_keep is at least one')
