"""Replay of histories of spec/ComponentHist.tla on real components."""
import os
import re

import comp
import vlib


def histories(chk, ops, N, vals, rnd=0, classes=('A', 'B'), maxobj=12):
    props = '' if rnd else ('PROPERTY Once\nPROPERTY NoSilentOverwrite\n'
                            'PROPERTY RoundTrip\n')
    cfg = ('SPECIFICATION Spec\nCONSTANTS N=%d Classes={%s} Vals={%s} '
           'Locs={"p","q"} Ops={%s} MaxObj=%d Random=%s Emit=TRUE\n'
           'INVARIANT Closed\nINVARIANT EmitHist\n%sCHECK_DEADLOCK FALSE\n' % (
               N, ','.join('"%s"' % c for c in classes),
               ','.join(map(str, vals)), ','.join('"%s"' % o for o in ops),
               maxobj, 'TRUE' if rnd else 'FALSE', props))
    extra = ('-simulate', 'num=%d' % rnd, '-seed', str(chk.seed), '-depth',
             str(N + 2)) if rnd else ()
    r = vlib.tlc('ComponentHist', cfg, workers=1, extra=extra, expect_ok=True)
    chk.add_tlc(r, 'ComponentHist %s N=%d%s' % (
        '/'.join(ops), N, ' random' if rnd else ''))
    hs = list(r.json_prints())
    if rnd:
        hs = chk.rng.sample(hs, min(len(hs), 3 * rnd))
    return hs


def arguments(a, objs):
    kw = comp.plain(a['s'], a['m'], a['chk'], sorted(a['deps']),
                    sorted(a['muts']), extra={'q': [1, {'r': 2}]})
    if a['inner']:
        kw['inner'] = True
    if a['fault'] != 'none':
        kw['fault'] = a['fault']
    for p in sorted(a['passed'], key=lambda p: (p['how'], p['key'],
                                                p['name'])):
        c = objs[p['id'] - 1]
        if p['how'] == 'direct':
            kw[p['key']] = c
        elif p['how'] == 'list':
            kw.setdefault(p['key'], []).append(c)
        else:
            kw.setdefault(p['key'], {})[p['name']] = c
    return kw


def spoil(kw):
    """The caller changes what was passed in."""
    for v in kw.values():
        if isinstance(v, list):
            v.append('spoiled')
        elif isinstance(v, dict):
            v['spoiled'] = 'spoiled'
    if 'extra' in kw:
        kw['extra']['q'].append('spoiled')
        kw['extra']['q'][1]['r'] = 'spoiled'


def spoil_read(c):
    """What can be read of a configuration is not the configuration."""
    cf = c.configuration
    for d in (cf.dict, cf.settings, cf.mutable_settings, cf.check_values,
              cf.sub_component_configurations, cf.config):
        for v in list(d.values()):
            if isinstance(v, list):
                v.append('spoiled')
            elif isinstance(v, dict):
                v['spoiled'] = 'spoiled'
        d['spoiled'] = 1


def age(d):
    """As if the component had been stored by another version."""
    import egenerator
    for root, _, files in os.walk(d):
        for f in files:
            if f == 'configuration.yaml':
                p = os.path.join(root, f)
                s = open(p).read()
                s = re.sub(r'(event_generator_version: )\S+', r'\g<1>0.0.9',
                           s)
                open(p, 'w').write(s)


def mods_of(mods, objs):
    res = {}
    for n, m in dict(mods or {}).items():
        res[n] = objs[m['id'] - 1] if m['id'] else mods_of(m['nest'], objs)
    return res


def frozen(mods):
    return {k: frozen(v) if isinstance(v, dict) else id(v)
            for k, v in mods.items()}


def placed(c, mods):
    """Are exactly the given objects in place?"""
    for n, m in mods.items():
        if isinstance(m, dict):
            if not placed(c.sub_components[n], m):
                return False
        elif c.sub_components[n] is not m:
            return False
    return True


def replay(chk, hist, d):
    """None or (step, what)."""
    cls = comp.classes()
    objs = []
    for i, e in enumerate(hist):
        op = e['op']
        name = op['name']
        o = objs[op['o'] - 1] if 'o' in op else None
        before = {l: comp.listing(os.path.join(d, 'v.' + l)) for l in 'pq'}
        kw = mods = None
        if name == 'new':
            objs.append(cls[op['cls']]())
            got = ('ok', None)
        elif name == 'configure':
            kw = arguments(op['a'], objs)
            comp.NEXT_DATA[0] = i
            got = vlib.observe(o.configure, **kw)
            spoil(kw)
            if o.is_configured:
                spoil_read(o)
        elif name == 'update':
            kw = {'m': op['m'], 'deps': ['a', ['b']]}
            bogus = vlib.observe(o.configuration.update_mutable_settings,
                                 {'unknown%d' % i: 1})
            if bogus[0] == 'ok' or 'unknown%d' % i in str(
                    o.configuration.dict):
                return i, 'an unknown setting was updated', bogus, op
            got = vlib.observe(o.configuration.update_mutable_settings, kw)
            kw['deps'][1].append('spoiled')
            spoil_read(o)
            if o.configuration.config['deps'] != ['a', ['b']] or \
                    o.configuration.dict['mutable_settings']['deps'] != \
                    ['a', ['b']]:
                return i, 'updated setting has changed', \
                    o.configuration.config, op
        elif name == 'save':
            if o.is_configured:
                # what would not be restored can not be saved
                o.stray = 1
                got = vlib.observe(o.save, os.path.join(d, 'v.' + op['l']),
                                   overwrite=op['ow'])
                del o.stray
                if got[0] == 'ok':
                    return i, 'saved with an attribute that is not stored', \
                        got, op
                if {l: comp.listing(os.path.join(d, 'v.' + l)) for l in 'pq'} != \
                        before:
                    return i, 'refused, but files were changed', got, op
            got = vlib.observe(o.save, os.path.join(d, 'v.' + op['l']),
                               overwrite=op['ow'])
        elif name == 'load':
            mods = mods_of(op['mods'], objs)
            ids = frozen(mods)
            args = {'modified_sub_components': mods} if mods else {}
            got = vlib.observe(o.load, os.path.join(d, 'v.' + op['l']), **args)
        elif name == 'age':
            age(os.path.join(d, 'v.' + op['l']))
            got = ('ok', None)
        if (got[0] == 'ok') != e['ok']:
            return i, ('refused' if e['ok'] else
                       'accepted although it has to be refused'), got, op
        if mods is not None and frozen(mods) != ids:
            return i, 'the caller\'s replacements were changed', got, op
        if mods and e['ok'] and not placed(o, mods):
            return i, 'not the given objects are in place', got, op
        after = {l: comp.listing(os.path.join(d, 'v.' + l)) for l in 'pq'}
        for l in 'pq':
            if after[l] != before[l] and not (
                    op.get('l') == l and (name == 'age' or
                                          (name == 'save' and e['ok']))):
                return i, 'stored files have changed', sorted(
                    f for f in set(after[l]) | set(before[l])
                    if after[l].get(f) != before[l].get(f)), op
        last = i == len(hist) - 1
        for k, (x, c) in enumerate(zip(e['exp'], objs)):
            if not (last or c is o):
                continue
            if c.is_configured != (x['st'] == 'ok'):
                return i, 'is_configured is %s' % c.is_configured, k, op
            if x['st'] == 'ok':
                t, s = comp.tree(c), comp.norm(x['tree'])
                if t != s:
                    return (i, 'component differs from the specification',
                            {'is': t, 'expected': s}, op)
                x2 = c.configuration.mutable_settings.get('extra')
                if x2 not in (None, {'q': [1, {'r': 2}]}):
                    return i, 'recorded setting has changed', x2, op
    return None


def run_histories(chk, hs, path, budget):
    import shutil
    for i, h in enumerate(hs):
        if chk.stop or chk.left(budget) < 0:
            break
        d = os.path.join(path, 'h%d' % i)
        os.makedirs(d)
        bad = replay(chk, h, d)
        shutil.rmtree(d, ignore_errors=True)
        chk.traces()
        chk.count('operations', len(h))
        if bad:
            chk.violation('component history: %s (%s)' % (
                bad[1], bad[3]['name']), bad,
                {'history': [dict(e['op'], ok=e['ok']) for e in h],
                 'bad': bad})
        elif i % 997 == 3:
            chk.sample([e['op'] for e in h])
