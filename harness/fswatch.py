"""Records every intermediate state of a directory while code runs.

An audit hook takes a snapshot before each file system operation of the
process on the directory; files written by native code between two snapshots
are split into the states in which they become visible.
"""
import contextlib
import os
import sys

_active = [None]
_installed = [False]
EVENTS = ('open', 'os.remove', 'os.rename', 'os.mkdir', 'os.rmdir',
          'os.truncate', 'os.link', 'os.symlink', 'shutil.copyfile',
          'shutil.move', 'shutil.rmtree', 'os.chmod', 'os.utime')


def read_tree(d):
    res = {}
    for root, dirs, files in os.walk(d):
        rel = os.path.relpath(root, d)
        for x in dirs:
            res[os.path.normpath(os.path.join(rel, x)) + '/'] = None
        for f in files:
            p = os.path.join(root, f)
            try:
                with open(p, 'rb') as fh:
                    res[os.path.normpath(os.path.join(rel, f))] = fh.read()
            except OSError:
                pass
    return res


def write_tree(tree, d):
    os.makedirs(d, exist_ok=True)
    for p in sorted(tree):
        if p.endswith('/'):
            os.makedirs(os.path.join(d, p), exist_ok=True)
        else:
            os.makedirs(os.path.dirname(os.path.join(d, p)), exist_ok=True)
            with open(os.path.join(d, p), 'wb') as fh:
                fh.write(tree[p])


def _hook(event, args):
    w = _active[0]
    if w is None or event not in EVENTS:
        return
    if event == 'open':
        path, mode, flags = args
        if not isinstance(path, (str, bytes, os.PathLike)):
            return
        writing = (isinstance(flags, int) and flags & (
            os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
        if not writing:
            return
        w.event(os.fsdecode(path), truncates=True)
    else:
        for a in args[:2]:
            if isinstance(a, (str, bytes, os.PathLike)):
                if w.event(os.fsdecode(a)):
                    break


class Watch:
    def __init__(self, d):
        self.d = os.path.realpath(d)
        self.trees = []
        self.opened = set()
        self.busy = False

    def event(self, path, truncates=False):
        if self.busy:
            return False
        p = os.path.realpath(os.path.join(os.getcwd(), path))
        if not (p + '/').startswith(self.d + '/'):
            return False
        self.busy = True
        try:
            self.trees.append(read_tree(self.d))
            if truncates:
                self.opened.add(os.path.relpath(p, self.d))
        finally:
            self.busy = False
        return True

    def states(self):
        """All states in which the directory can be found after a crash."""
        res, seen = [], set()

        def add(t):
            k = tuple(sorted((p, v) for p, v in t.items()
                             if v is not None)) + tuple(
                sorted(p for p, v in t.items() if v is None))
            if k not in seen:
                seen.add(k)
                res.append(dict(t))
        for a, b in zip(self.trees, self.trees[1:]):
            add(a)
            cur = dict(a)
            changed = [p for p in b if a.get(p, 0) != b[p]]
            dirs = sorted(p for p in changed if p.endswith('/'))
            files = sorted((p for p in changed if not p.endswith('/')),
                           key=lambda p: (p.endswith('.index'), p))
            gone = [p for p in a if p not in b]
            for p in dirs:
                cur[p] = None
                add(cur)
            # contents that merely moved are not written again
            moved = {a[p] for p in gone if a[p] is not None}
            for p in files:
                if b[p] not in moved:
                    for part in (b[p][:0], b[p][:len(b[p]) // 2],
                                 b[p][:max(0, len(b[p]) - 1)]):
                        cur[p] = part
                        add(cur)
                cur[p] = b[p]
                if b[p] not in moved:
                    add(cur)
            add(b)
        if self.trees:
            add(self.trees[-1])
        return res


@contextlib.contextmanager
def watch(d):
    if not _installed[0]:
        sys.addaudithook(_hook)
        _installed[0] = True
    w = Watch(d)
    w.trees.append(read_tree(w.d))
    _active[0] = w
    try:
        yield w
    finally:
        _active[0] = None
        w.trees.append(read_tree(w.d))
