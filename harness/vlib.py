"""Common machinery of the checks: environment, TLC runner, verdicts, evidence.

Every check is a module in /verif/checks with a function ``run(chk)``.  The
oracle of a check is a TLA+ specification in /verif/spec, evaluated by TLC.
"""
import contextlib
import io
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import types

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
EVIDENCE = os.environ.get('VERIF_EVIDENCE',
                          os.path.join(VERIF, 'evidence'))
TLA_CP = ('/opt/veriftools/tla/tla2tools.jar:'
          '/opt/veriftools/tla/CommunityModules-deps.jar')


class MachineryError(Exception):
    """The check itself could not do its work (no verdict about the code)."""


# --------------------------------------------------------------------------
# environment of the code under test
# --------------------------------------------------------------------------
def setup_environment():
    """Import path and stand-ins for the packages missing in this sandbox."""
    os.environ.setdefault('CUDA_VISIBLE_DEVICES', '-1')
    os.environ.setdefault('TF_CPP_MIN_LOG_LEVEL', '3')
    os.environ.setdefault('TF_ENABLE_ONEDNN_OPTS', '0')
    os.environ.setdefault('MPLBACKEND', 'Agg')
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # the package `getclass` cannot be installed here; it is used only to
    # obtain an object's class
    if 'getclass' not in sys.modules:
        mod = types.ModuleType('getclass')
        mod.getclass = lambda obj: obj.__class__
        sys.modules['getclass'] = mod
    os.chdir(REPO)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.filterwarnings('ignore')


def stub_git():
    """Constant git information (each Configuration would call git 4x)."""
    from egenerator.settings import version_control
    info = ('abcdef0', 'abcdef0' * 5, 'origin', '')
    version_control.get_git_infos = lambda *a, **k: info


@contextlib.contextmanager
def quiet():
    """Silence stdout of the code under test."""
    with contextlib.redirect_stdout(io.StringIO()):
        yield


@contextlib.contextmanager
def scratch(prefix='egv_'):
    path = tempfile.mkdtemp(prefix=prefix)
    try:
        yield path
    finally:
        shutil.rmtree(path, ignore_errors=True)


# --------------------------------------------------------------------------
# TLA+ values
# --------------------------------------------------------------------------
class Rec(dict):
    """A TLA+ record / function as dictionary with attribute access."""
    __getattr__ = dict.__getitem__


def parse_tla(text):
    """Parse a TLA+ value as printed by TLC."""
    tok = re.compile(r'\s*(<<|>>|\|->|:>|@@|"(?:[^"\\]|\\.)*"|[\[\]{}(),]|'
                     r'-?\d+|[A-Za-z_]\w*)')
    toks = tok.findall(text)
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def take():
        t = toks[pos[0]]
        pos[0] += 1
        return t

    def value():
        t = take()
        if t == '<<':
            res = []
            while peek() != '>>':
                res.append(value())
                if peek() == ',':
                    take()
            take()
            return res
        if t == '{':
            res = []
            while peek() != '}':
                res.append(value())
                if peek() == ',':
                    take()
            take()
            return set(map(freeze, res))
        if t == '[':
            res = Rec()
            while peek() != ']':
                k = take()
                assert take() == '|->', (k, text[:200])
                res[k] = value()
                if peek() == ',':
                    take()
            take()
            return res
        if t == '(':
            res = Rec()
            while True:
                k = value()
                assert take() == ':>'
                res[freeze(k)] = value()
                n = take()
                if n == ')':
                    return res
                assert n == '@@'
        if t.startswith('"'):
            return json.loads(t)
        if t == 'TRUE':
            return True
        if t == 'FALSE':
            return False
        if re.match(r'-?\d+$', t):
            return int(t)
        return t

    return value()


def freeze(v):
    if isinstance(v, dict):
        return tuple(sorted((k, freeze(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return tuple(freeze(x) for x in v)
    if isinstance(v, set):
        return frozenset(v)
    return v


# --------------------------------------------------------------------------
# TLC
# --------------------------------------------------------------------------
class TLCResult:
    def __init__(self, out, rc):
        self.out = out
        self.rc = rc
        self.states = self.distinct = 0
        m = re.findall(r'(\d+) states generated.*?(\d+) distinct states',
                       out.replace(',', ''))
        if m:
            self.states, self.distinct = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r'The number of states generated: (\d+)',
                       out.replace(',', ''))
        if m:
            self.states = max(self.states, int(m[-1]))
        self.ok = 'Model checking completed. No error has been found' in out \
            or (rc == 0 and 'Error:' not in out)
        self.violated = None
        m = re.search(r'Error: Invariant (\S+) is violated', out)
        if m:
            self.violated = m.group(1)
        elif 'Error: Deadlock reached' in out:
            self.violated = 'Deadlock'
        elif re.search(r'Error: (Action|Temporal) propert', out):
            m = re.search(r'Error: Action property (\S+)', out)
            self.violated = m.group(1) if m else 'Temporal'
        self.prints = []
        for line in out.splitlines():
            if line.startswith('"') and line.endswith('"'):
                try:
                    self.prints.append(json.loads(line))
                except ValueError:
                    pass

    def json_prints(self, tag=None):
        """Values printed with PrintT(ToJson(..)) (or tag \\o ToJson(..))."""
        for p in self.prints:
            if tag is not None:
                if not p.startswith(tag):
                    continue
                p = p[len(tag):]
            try:
                yield json.loads(p)
            except ValueError:
                continue

    def error_trace(self):
        """Variables of the last state of the counterexample, as text."""
        i = self.out.rfind('\nState ')
        return self.out[i:i + 3000] if i >= 0 else self.out[-3000:]


def tlc(module, cfg, workers=4, timeout=600, env=None, extra=(),
        files=None, expect_ok=None, heap='6g', depth_first=False):
    """Run TLC on spec/<module>.tla with the configuration text `cfg`.

    The spec directory is copied into a scratch directory.  Raises
    MachineryError if TLC fails for another reason than a violation.
    """
    work = tempfile.mkdtemp(prefix='egv_tlc_')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), work)
        for name, text in (files or {}).items():
            with open(os.path.join(work, name), 'w') as fh:
                fh.write(text)
        with open(os.path.join(work, 'M.cfg'), 'w') as fh:
            fh.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        e.pop('JAVA_TOOL_OPTIONS', None)
        opts = ['-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC']
        if depth_first:
            opts.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
        cmd = ['java'] + opts + [
            '-cp', TLA_CP, 'tlc2.TLC', '-workers', str(workers),
            '-config', 'M.cfg', '-metadir', os.path.join(work, 'meta'),
            '-noGenerateSpecTE'] + list(extra) + [module + '.tla']
        try:
            p = subprocess.run(cmd, cwd=work, env=e, timeout=timeout,
                               stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC timed out on ' + module)
        r = TLCResult(p.stdout, p.returncode)
        if not r.ok and r.violated is None and 'Error: ' in r.out and \
                'ostcondition' not in r.out and 'Assumption' not in r.out:
            raise MachineryError('TLC failed on %s:\n%s' % (
                module, r.out[-6000:]))
        if r.rc != 0 and r.violated is None and r.ok:
            raise MachineryError('TLC failed on %s:\n%s' % (
                module, r.out[-6000:]))
        if expect_ok and not r.ok:
            raise MachineryError('specification %s is wrong: %s\n%s' % (
                module, r.violated, r.out[-6000:]))
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def tlc_all(jobs):
    """Run several TLC jobs [(module, cfg, options), ..] at the same time."""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        return list(ex.map(lambda j: tlc(j[0], j[1], **j[2]), jobs))


# --------------------------------------------------------------------------
# verdicts
# --------------------------------------------------------------------------
class Check:
    def __init__(self, pid, level):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random(self.seed * 1000003 + hash_str(pid))
        self.thorough = self.tier == 'thorough'
        self.t0 = time.time()
        self.violations = []
        self.known_seen = {}
        self.cov = {'states': 0, 'transitions': 0,
                    'traces_validated_against_impl': 0, 'samples': [],
                    'specs': []}
        self.assumptions = []
        self.known = []
        path = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(path):
            with open(path) as fh:
                for k in json.load(fh)['findings']:
                    if k['property'] == pid:
                        self.known.append(k)
        self.max_violations = 5

    # -- coverage ----------------------------------------------------------
    def add_tlc(self, r, name=''):
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.states
        if name:
            self.cov['specs'].append(
                {'spec': name, 'distinct': r.distinct,
                 'generated': r.states})

    def count(self, key, n=1):
        self.cov[key] = self.cov.get(key, 0) + n

    def traces(self, n=1):
        self.cov['traces_validated_against_impl'] += n

    def sample(self, obj, limit=4):
        if len(self.cov['samples']) < limit:
            self.cov['samples'].append(jsonable(obj))

    def left(self, budget):
        """Seconds left of a time budget counted from the start.

        In the quick tier time spent waiting for a busy machine counts
        only partly, so that about the same work is done under load.
        """
        wall = time.time() - self.t0
        if not self.thorough and wall < 500:
            wall = min(wall, max(time.process_time(), wall / 3))
        return budget - wall

    # -- violations --------------------------------------------------------
    def is_known(self, key):
        """The known finding a key belongs to."""
        for k in self.known:
            if re.search(k['match'], key):
                return k['what']

    def violation(self, key, what, replay=None):
        """Report a violation; `key` identifies the failing history."""
        known = self.is_known(key)
        if known:
            self.known_seen.setdefault(known, 0)
            self.known_seen[known] += 1
            return
        if len(self.violations) < self.max_violations:
            d = os.path.join(EVIDENCE, 'replays')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, '%s_%d.json' % (
                self.pid, len(self.violations)))
            with open(path, 'w') as fh:
                json.dump(jsonable({'property': self.pid, 'key': key,
                                    'what': what, 'replay': replay,
                                    'seed': self.seed, 'tier': self.tier}),
                          fh, indent=1)
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            print('  %s: %s' % (key, str(what)[:1500]))
            sys.stdout.flush()
        self.violations.append(key)

    @property
    def stop(self):
        """Enough violations have been found."""
        return len(self.violations) >= self.max_violations

    def finish(self):
        for what, n in sorted(self.known_seen.items()):
            print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed,
              'level': self.level, 'coverage': jsonable(self.cov),
              'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2),
              'violations': len(self.violations)}
        d = EVIDENCE
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
        print('%s %s: %d violation(s), %s, %.1fs' % (
            self.pid, self.tier, len(self.violations),
            {k: v for k, v in ev['coverage'].items()
             if isinstance(v, (int, float))}, ev['wall_s']))
        return 1 if self.violations else 0


def parallel(chk, work, items, procs=6):
    """Call work(child, items[i::procs]) in forked processes.

    `child` is a Check whose coverage and violations are merged into `chk`.
    TensorFlow must not have been imported before.
    """
    if 'tensorflow' in sys.modules:
        raise MachineryError('fork after import of tensorflow')
    sys.stdout.flush()
    sys.stderr.flush()
    children = []
    for i in range(procs):
        mine = items[i::procs]
        if not mine:
            continue
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                c = Check(chk.pid, chk.level)
                c.t0 = chk.t0
                c.rng = random.Random(chk.rng.random() + i * 7919)
                c.found = []
                c.violation = lambda key, what, replay=None: (
                    c.found.append((key, jsonable(what), jsonable(replay))),
                    c.violations.append(key) if not c.is_known(key)
                    else None)
                error = None
                try:
                    work(c, mine)
                except MachineryError as e:
                    error = str(e)
                except Exception:
                    tb = traceback.format_exc()
                    c.found.append(('unexpected-exception', tb[-1500:], tb))
                with os.fdopen(w, 'w') as fh:
                    json.dump([c.found, jsonable(c.cov), error], fh)
                code = 0
            finally:
                sys.stdout.flush()
                os._exit(code)
        os.close(w)
        children.append((pid, r))
    errors = []
    for pid, r in children:
        with os.fdopen(r) as fh:
            text = fh.read()
        os.waitpid(pid, 0)
        if not text:
            errors.append('a worker process ended without result')
            continue
        found, cov, error = json.loads(text)
        if error:
            errors.append(error)
        for f in found:
            chk.violation(*f)
        for k, v in cov.items():
            if isinstance(v, (int, float)):
                chk.cov[k] = chk.cov.get(k, 0) + v
        for s in cov['samples']:
            chk.sample(s)
    if errors and not chk.violations:
        raise MachineryError('; '.join(errors))


def hash_str(s):
    h = 0
    for c in s:
        h = (h * 131 + ord(c)) % 1000000007
    return h


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if isinstance(o, (set, frozenset)):
        return sorted((jsonable(v) for v in o), key=str)
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return jsonable(o.item())
    if isinstance(o, float) and (o != o or o in (float('inf'),
                                                 float('-inf'))):
        return str(o)
    if isinstance(o, (int, float, str, bool)) or o is None:
        return o
    return repr(o)


def observe(fn, *args, **kwargs):
    """Call the code under test: ('ok', result) or ('error', ExcName, msg)."""
    try:
        with quiet():
            return ('ok', fn(*args, **kwargs))
    except MachineryError:
        raise
    except Exception as e:
        return ('error', type(e).__name__, str(e)[:300])


def main(pid, level, run):
    chk = Check(pid, level)
    try:
        setup_environment()
        run(chk)
    except MachineryError as e:
        print('MACHINERY ERROR: %s' % e)
        if not chk.violations:
            return 2
    except (KeyboardInterrupt, MemoryError):
        raise
    except Exception:
        # The drivers are deterministic and pass on the unchanged tree; an
        # exception that escapes one is caused by the code under test
        # behaving in a way no specified behaviour allows.
        tb = traceback.format_exc()
        print(tb)
        if not chk.stop:
            chk.violation('unexpected-exception', tb[-1500:], tb)
        else:
            chk.violations.append('unexpected-exception')
    return chk.finish()
