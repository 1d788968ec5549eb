"""P06: saved components are restored and never overwritten silently."""
import os

import comp
import comphist
import vlib

LEVEL = 'model_checking'


SUBS = {'leaf': {}, 'x': {'x': {}}, 'xy': {'x': {'y': {}}},
        'both': {'x': {}, 'y': {}}}


def design(subs, k, at=()):
    return {'cls': 'A', 's': 10 * k + len(at), 'm': 1, 'chk': 1, 'd': k,
            'subs': {n: design(s, k, at + (n,)) for n, s in subs.items()},
            'deps': sorted(subs), 'muts': []}


def places(chk, path):
    """Places that lie within each other (spec/ComponentPlaces.tla)."""
    r = vlib.tlc('ComponentPlaces', 'SPECIFICATION Spec\nCONSTANTS N=%d '
                 'Objects={%s}\n'
                 'PROPERTY NoSilentOverwrite\nINVARIANT EmitHist\n'
                 'CHECK_DEADLOCK FALSE\n' % (
                     3, ','.join('"%s"' % o for o in sorted(SUBS))),
                 workers=1, expect_ok=True)
    chk.add_tlc(r, 'ComponentPlaces')
    hs = list(r.json_prints())
    for i, h in enumerate(chk.rng.sample(hs, min(
            len(hs), 6000 if chk.thorough else 300))):
        if chk.stop:
            break
        d = os.path.join(path, 'n%d' % i)
        saved = {}
        for k, e in enumerate(h, 1):
            c = comp.build(design(SUBS[e['o']], k))
            saved[k] = c
            got = vlib.observe(c.save, os.path.join(d, *e['l']),
                               overwrite=e['ow'])
            bad = None
            if (got[0] == 'ok') != e['ok']:
                bad = 'refused' if e['ok'] else 'accepted'
            for x in e['held']:
                v = x['v']
                if bad or not v['whole']:
                    continue
                f = comp.classes()['A']()
                res = vlib.observe(f.load, os.path.join(d, *x['p']))
                want = saved[v['k']]
                for n in v['at']:
                    want = want.sub_components[n]
                if res[0] != 'ok' or comp.tree(f) != comp.tree(want):
                    bad = 'what is stored has changed'
                    got = [x, res]
            if bad:
                chk.violation('nested places: ' + bad, [e, got], [h, e, got])
                break
        chk.traces()


def half_stored(chk, path):
    """A place that holds only one of the two files is not overwritten."""
    for f in ('configuration.yaml', 'data.pickle'):
        d = os.path.join(path, 'half_' + f[:4])
        comp.build(design({'x': {}}, 1)).save(d)
        os.remove(os.path.join(d, f))
        before = comp.listing(d)
        got = vlib.observe(comp.build(design({}, 2)).save, d)
        if got[0] == 'ok' or comp.listing(d) != before:
            chk.violation('half stored component is overwritten', f, got)
        chk.traces()


def run(chk):
    vlib.stub_git()
    f = 10 if chk.thorough else 1
    hs = comphist.histories(chk, ['configure0', 'save', 'load'], 5, [1],
                            maxobj=2)
    chk.cov['exhaustive_histories'] = len(hs)
    hs = chk.rng.sample(hs, min(len(hs), 2500 * f))
    hs += comphist.histories(chk, ['configure', 'save', 'load', 'update'],
                             20, [1, 2], 120 * f)
    hs += comphist.histories(chk, ['configure', 'save', 'load', 'age'],
                             20, [1, 2], 60 * f)
    chk.rng.shuffle(hs)
    with vlib.scratch() as path:
        half_stored(chk, path)
        places(chk, path)
        comphist.run_histories(chk, hs, path, 700 if chk.thorough else 100)
