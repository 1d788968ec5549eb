"""Components of several classes, driven as spec/Component.tla describes."""
import os
import re

import numpy as np

import vlib

_C = {}
NEXT_DATA = [0]


def _data(d):
    return {'d': d, 'a': np.array([d, 2 * d]), 'n': {'x': [d, None]}}


def classes():
    if _C:
        return _C
    from egenerator.manager.component import BaseComponent, Configuration

    class Generic(BaseComponent):
        """Settings s, m, chk and which components are dependent/mutable;
        components are passed under any keyword."""

        def _configure(self, s, m, chk, deps=(), muts=(), inner=False,
                       fault='', extra=None, **kw):
            found = {}
            for k, v in kw.items():
                if isinstance(v, dict):
                    found.update(v)
                elif isinstance(v, (list, tuple)):
                    found.update({k + '_%04d' % i: c
                                  for i, c in enumerate(v)})
                else:
                    found[k] = v
            self._untracked_data['touched'] = True
            if fault == 'raise':
                raise RuntimeError('cannot be configured')
            subs = {n: c for n, c in found.items() if n in deps}
            if fault == 'unknown':
                subs['unknown'] = self._make_inner()
            sets = {'s': s}
            # mutable, as these do not matter for the compatibility
            mut = {'m': m, 'chk': chk, 'deps': deps, 'muts': muts}
            for k, v in (('inner', inner), ('fault', fault),
                         ('extra', extra)):
                if v:
                    mut[k] = v
            if fault == 'clash':
                mut['s'] = s
            if fault == 'forget':
                del sets['s']
            if fault == 'wrong':
                sets['s'] = s + 1
            conf = Configuration(
                class_string='comp.' + type(self).__name__, settings=sets,
                mutable_settings=mut,
                check_values={'chk': chk, 'arr': [chk, str(chk)]},
                mutable_sub_components=muts)
            if inner:
                subs['inner'] = self._make_inner()
                conf.add_sub_components({'inner': subs['inner']})
            return conf, _data(NEXT_DATA[0]), subs

        def _make_inner(self):
            keep = NEXT_DATA[0]
            NEXT_DATA[0] = 7
            c = _C['A']()
            c.configure(**plain(7, 7, 7))
            NEXT_DATA[0] = keep
            return c

        def _update_sub_components(self, names):
            self._untracked_data.setdefault('updated', []).extend(names)

    class CompA(Generic):
        pass

    class CompB(Generic):
        pass
    for n, c in (('A', CompA), ('B', CompB)):
        c.__module__ = 'comp'
        c.__qualname__ = c.__name__
        globals()[c.__name__] = c
        _C[n] = c
    return _C


def plain(s, m, chk, deps=(), muts=(), **kw):
    return dict(s=s, m=m, chk=chk, deps=list(deps), muts=list(muts), **kw)


def conf_tree(d):
    """The recorded configuration as the specification describes it."""
    import egenerator
    return {'cls': re.sub(r'^comp\.Comp', '', d['class_string']),
            'ver': int(d['event_generator_version'] ==
                       egenerator.__version__),
            's': d['settings']['s'], 'm': d['mutable_settings']['m'],
            'chk': d['check_values']['chk'],
            'subs': {n: conf_tree(c) for n, c in
                     d['sub_component_configurations'].items()},
            'deps': sorted(d['dependent_sub_components']),
            'muts': sorted(d['mutable_sub_components'])}


def tree(c):
    """A live component as the specification describes it."""
    d = c.data['d']
    if not np.array_equal(c.data.get('a'), [d, 2 * d]) or \
            c.data.get('n') != {'x': [d, None]} or len(c.data) != 3:
        d = 'mixed data %r' % (c.data,)
    return {'conf': conf_tree(c.configuration.dict), 'dat': d,
            'deps': {n: tree(s) for n, s in c.sub_components.items()}}


def norm(t):
    """A specified tree, with TLC's empty functions and sets normalised."""
    return {'conf': norm_conf(t['conf']), 'dat': t['dat'],
            'deps': {n: norm(s) for n, s in dict(t['deps'] or {}).items()}}


def norm_conf(c):
    return {'cls': c['cls'], 'ver': c['ver'], 's': c['s'], 'm': c['m'],
            'chk': c['chk'],
            'subs': {n: norm_conf(s)
                     for n, s in dict(c['subs'] or {}).items()},
            'deps': sorted(c['deps']), 'muts': sorted(c['muts'])}


def build(t):
    """A configured component for a design (spec/ComponentExchange.tla)."""
    c = classes()[t['cls']]()
    subs = {n: build(s) for n, s in dict(t['subs'] or {}).items()}
    NEXT_DATA[0] = t['d']
    kw = plain(t['s'], t['m'], t['chk'], t['deps'], t['muts'])
    with vlib.quiet():
        c.configure(k=subs, **kw)
    return c


def listing(d):
    """All files below d with their contents."""
    res = {}
    for root, _, files in os.walk(d):
        for f in files:
            p = os.path.join(root, f)
            with open(p, 'rb') as fh:
                res[os.path.relpath(p, d)] = fh.read()
    return res
