"""P07: sub components are exchanged on load only if compatible."""
import os

import comp
import comphist
import vlib

LEVEL = 'model_checking'
CFG = ('CONSTANT Deep=%s\nINVARIANT Complete\n'
       'INVARIANT CompatibleIsReflexive\n')


def build_request(req):
    return {n: comp.build(r['t']) if 't' in r else build_request(
        dict(r['g'] or {})) for n, r in dict(req or {}).items()}


def trees(mods):
    return {n: trees(m) if isinstance(m, dict) else comp.tree(m)
            for n, m in mods.items()}


def exchange(chk, case, d):
    mods = build_request(case['req'])
    ids, before = comphist.frozen(mods), trees(mods)
    files = comp.listing(d)
    # the same request can be used for several loads
    for n in range(2):
        o = comp.classes()[case['target']]()
        got = vlib.observe(o.load, d, modified_sub_components=mods)
        if (got[0] == 'ok') != case['ok']:
            return ('refused' if case['ok'] else
                    'accepted although it has to be refused'), got
        if o.is_configured != case['ok']:
            return 'is_configured is %s' % o.is_configured, got
        if comphist.frozen(mods) != ids or trees(mods) != before:
            return 'the replacements have been changed', got
        if comp.listing(d) != files:
            return 'stored files have changed', got
        if case['ok']:
            if not comphist.placed(o, mods):
                return 'not the given objects are in place', got
            t, s = comp.tree(o), comp.norm(case['tree'])
            if t != s:
                return 'component differs from the specification', {
                    'is': t, 'expected': s}
            if sorted(o.untracked_data.get('updated', [])) != sorted(mods):
                return 'the component is told about the exchange of', \
                    o.untracked_data.get('updated')
            # and the result can be saved and loaded like any other
            p = d + '_again'
            o.save(p, overwrite=True)
            q = comp.classes()[case['target']]()
            q.load(p)
            if comp.tree(q) != s:
                return 'saving and loading the result differs', comp.tree(q)
    return None


def run(chk):
    vlib.stub_git()
    deep = 'TRUE' if chk.thorough else 'FALSE'
    r = vlib.tlc('ComponentExchange', 'SPECIFICATION Spec\nINVARIANT Emit\n' +
                 CFG % deep, workers=1, expect_ok=True)
    chk.add_tlc(r, 'ComponentExchange')
    cases = list(r.json_prints())
    budget = 700 if chk.thorough else 100
    with vlib.scratch() as path:
        d = os.path.join(path, 'saved')
        comp.build(cases[0]['saved']).save(d)
        for c in cases:
            if chk.stop:
                break
            bad = exchange(chk, c, d)
            chk.traces()
            if bad:
                chk.violation('exchange: ' + bad[0], [bad, c['req']], c)
        r = vlib.tlc('ComponentExchange', 'SPECIFICATION SpecPairs\n'
                     'INVARIANT EmitPair\nCONSTANT Deep=%s\n' % deep,
                     workers=1, expect_ok=True)
        chk.add_tlc(r, 'ComponentExchange pairs')
        built = {}

        def get(t):
            k = repr(t)
            if k not in built:
                built[k] = comp.build(t)
            return built[k]
        for c in r.json_prints():
            if chk.stop:
                break
            got = vlib.observe(get(c['t']).is_compatible, get(c['u']))
            chk.traces()
            if got != ('ok', c['ok']):
                chk.violation('is_compatible', [got, c], c)
        f = 10 if chk.thorough else 1
        hs = comphist.histories(
            chk, ['configure', 'save', 'load', 'exchange', 'exchange'], 22,
            [1, 2], 120 * f)
        comphist.run_histories(chk, hs, path, budget)
