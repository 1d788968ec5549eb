"""P20: configuration files are merged completely."""
import copy
import json
import os

import vlib

LEVEL = 'model_checking'
INV = ''.join('INVARIANT %s\n' % x for x in
              ('AnyOrder', 'Complete', 'NoTwins', 'Emit'))
NAMES = ['one', 'two.v2', 'three_3', 'yaml_four']


def config(small, files, entries):
    return ('SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n%s'
            'CONSTANT Small = %s\nCONSTANT MaxFiles = %d\n'
            'CONSTANT MaxEntries = %d\n' % (
                INV, 'TRUE' if small else 'FALSE', files, entries))


NUMBERS = [0, 1, 2.5, True, None, -5, 1e-5, 700, False, [1, 2]]


def text(pieces):
    return ''.join({
        'lit': lambda: p[1], 'brace': lambda: '{{',
        'ref': lambda: '{%s}' % p[1],
        'sub': lambda: '{%s[%s]}' % (p[1], p[2])}[p[0]]() for p in pieces)


def value_text(v, indent, flow):
    """Value as YAML."""
    if v['t'] == 'num':
        x = NUMBERS[v['n']]
        return 'null' if x is None else json.dumps(x)
    if v['t'] == 'text':
        return json.dumps(text(v['s']))
    if v['t'] == 'list':
        return json.dumps([text(v['s']), 1])
    if not v['e']:
        return '{}'
    if flow:
        return '{%s}' % ', '.join(
            '%s: %s' % (k, value_text(w, indent, flow)) for k, w in v['e'])
    return ''.join('\n%s%s: %s' % (
        ' ' * indent, k, value_text(w, indent + 2, flow)) for k, w in v['e'])


def file_text(entries, rng):
    flow = rng.random() < .4
    lines = ['%s: %s' % (k, value_text(v, 4, flow)) for k, v in entries]
    if rng.random() < .3:
        lines.insert(0, '# a comment: {with} braces')
    return '\n'.join(lines) + ('\n' if rng.random() < .8 else '')


def final(v, auto):
    if v['t'] == 'num':
        return NUMBERS[v['n']]
    if v['t'] == 'list':
        return [text(v['s']), 1]
    if v['t'] == 'sec':
        return {k: final(w, auto) for k, w in v['e']}
    return ''.join({
        'lit': lambda: p[1], 'brace': lambda: '{',
        'num': lambda: str(NUMBERS[p[1]]),
        'auto': lambda: auto[p[1]]}[p[0]]() for p in v['s'])


def order(x):
    """Nested names in their order."""
    return [(k, order(v)) for k, v in x.items()] if isinstance(x, dict) \
        else None


def run(chk):
    n = 2500 if chk.thorough else 250
    jobs = [('ConfigMerge', config(True, 2, 2), {'expect_ok': True})]
    for i, (f, e) in enumerate([(1, 5), (2, 3), (2, 5), (3, 4), (4, 3)]):
        jobs.append(('ConfigMerge', config(False, f, e), {
            'expect_ok': True, 'workers': 1, 'timeout': 800, 'extra': [
                '-simulate', 'num=%d' % n, '-depth', '40', '-seed',
                str(chk.rng.randrange(10 ** 6))]}))
    cases = []
    for r in vlib.tlc_all(jobs):
        chk.add_tlc(r, 'ConfigMerge')
        cases += list(r.json_prints())
    if len(cases) < 2000:
        raise vlib.MachineryError('only %d cases' % len(cases))
    vlib.parallel(chk, replay, cases)


def replay(chk, cases):
    vlib.setup_environment()
    with vlib.scratch() as path:
        for case in cases:
            if chk.stop:
                break
            one(chk, case, path)
            chk.traces()
            chk.sample(case)


def one(chk, case, path):
    import numpy as np
    import tensorflow as tf
    import tfscripts
    from egenerator.settings import version_control
    from egenerator.settings.setup_manager import SetupManager

    def bad(what, detail=None):
        chk.violation('%s' % what, {'what': what, 'detail': detail},
                      {'case': case, 'detail': detail,
                       'texts': texts})

    rng = chk.rng
    paths, texts, names = [], [], rng.sample(NAMES, len(case['files']))
    for i, (name, entries) in enumerate(zip(names, case['files'])):
        d = os.path.join(path, 'd%d' % (i % 2))
        os.makedirs(d, exist_ok=True)
        paths.append(os.path.join(d, name + '.yaml'))
        texts.append(file_text(entries, rng))
        with open(paths[-1], 'w') as f:
            f.write(texts[-1])
    kept = []
    for load, want in zip(case['loads'], case['out']):
        if want['skip']:
            continue
        given = [paths[i - 1] for i in load]
        given = given if rng.random() < .7 else tuple(given)
        before = copy.deepcopy(given)
        try:
            m = SetupManager(given)
            error = None
        except Exception as e:
            error = e
        chk.count('loads')
        if (error is None) != want['ok']:
            return bad('refused' if error else 'accepted', (
                load, repr(error), None if error else m.get_config()))
        if error is not None:
            chk.count('refused')
            continue
        if given != before:
            return bad('list of files changed', given)
        c = m.get_config()
        auto = {'config_name': '__'.join(names[i - 1] for i in load),
                'git_sha': str(version_control.sha),
                'egenerator_dir': c.get('egenerator_dir')}
        if c['config_name'] != auto['config_name']:
            return bad('combined name', (load, c['config_name']))
        if os.path.realpath(auto['egenerator_dir']) != \
                os.path.realpath(vlib.REPO):
            return bad('directory of the package', auto['egenerator_dir'])
        expect = {'float_precision': 'float32'}
        expect.update((k, final(v, auto)) for k, v in want['entries'])
        fp = expect['float_precision']
        expect.update(
            config_name=auto['config_name'],
            egenerator_dir=auto['egenerator_dir'],
            git_sha=auto['git_sha'],
            git_short_sha=str(version_control.short_sha),
            git_origin=str(version_control.origin),
            git_uncommited_changes=version_control.uncommitted_changes,
            pip_installed_packages=version_control.installed_packages,
            tf_float_precision=getattr(tf, fp),
            np_float_precision=getattr(np, fp))
        if set(c) != set(expect):
            return bad('entries', sorted(set(c) ^ set(expect)))
        for k, v in expect.items():
            if c[k] != v or not isinstance(c[k], type(v)):
                return bad('value of entry', (k, c[k], v))
        mine = [k for k, _ in want['entries'] if k != 'float_precision']
        got = [(k, order(v)) for k, v in c.items() if k in mine]
        if got != [(k, order(expect[k])) for k in mine]:
            return bad('order of entries', (got, mine))
        if tfscripts.FLOAT_PRECISION != expect['tf_float_precision']:
            return bad('precision of networks', tfscripts.FLOAT_PRECISION)
        kept.append((m, copy.deepcopy(c)))
        # what is done with a configuration must not change others
        for v in c.values():
            if isinstance(v, dict):
                v['new'] = 1
        c['a'] = 'changed'
        for other, was in kept:
            if other.get_config() != was:
                return bad('configuration changed later', (
                    other.get_config(), was))
    return None
