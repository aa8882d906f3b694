"""A given directory tree, as seen by the analysed code.

The names of directories and files below one (symbolic) root are constants,
so that what the code selects among them can be computed by constant propagation.
"""
import posixpath
from .common import *


class World:
    """tree: {relative path: text of a file, or None for a directory}; parents are implied."""

    def __init__(self, tree, root=None, links=(), times=None):
        self.tree = {}
        for p, v in tree.items():
            self.tree[p] = v
            while '/' in p:
                p = p.rsplit('/', 1)[0]
                self.tree.setdefault(p, None)
        self.tree.setdefault('', None)
        self.root = root
        self.links, self.times = set(links), times

    def rel(self, run, path):
        """The path relative to the root, '' for the root itself, None if elsewhere or not constant."""
        p = run.fspath(path) if not isinstance(path, T) else path
        if isinstance(p, C) and isinstance(p.v, bytes):
            p = C(p.v.decode('utf-8', 'surrogateescape'))
        p, root = canon(p), canon(self.root)
        if isinstance(p, C) and isinstance(p.v, str) and isinstance(root, C):
            r = posixpath.relpath(posixpath.normpath(p.v), posixpath.normpath(root.v)) if p.v[:1] == '/' else '..'
            return None if r == '..' or r.startswith('../') else '' if r == '.' else r
        if p == root:
            return ''
        r = below(p, root)
        if r is None:
            return None
        r = C(r) if isinstance(r, str) else r
        if isinstance(r, C) and isinstance(r.v, str):
            return '/'.join(x for x in r.v.split('/') if x not in ('', '.'))
        return None

    def names(self, d, want=None):
        pre = d + '/' if d else ''
        out = [p[len(pre):] for p in self.tree if p.startswith(pre) and p != d and '/' not in p[len(pre):]]
        if want is not None:
            out = [n for n in out if (self.tree[pre + n] is None) == want]
        return out

    def exists(self, run, kind, path):
        r = self.rel(run, path)
        if r is None:
            return None
        if kind == 'isdir':
            return r in self.tree and self.tree[r] is None
        if kind == 'isfile':
            return self.tree.get(r) is not None
        return r in self.tree

    def read(self, run, f, how):
        r = self.rel(run, f.path)
        if r is None:
            return NotImplemented
        if self.tree.get(r) is None:
            if any(e.kind in ('open', 'rename', 'copy') and (e.kind != 'open' or 'r' not in str(e.mode)) for e in run.events):
                return NotImplemented       # it may have been made by the analysed code
            raise PyExc('FileNotFoundError', (), None, None)
        text = self.tree[r]
        if not isinstance(text, str):
            return NotImplemented
        if how == 'all':
            return C(text)
        lines = text.splitlines(True)
        if how == 'lines':
            return run.new_list([C(x) for x in lines])
        if how == 'line':
            return C(lines[f.nread - 1] if f.nread <= len(lines) else '')
        return NotImplemented

    def ext(self, run, nm, args, kw, node):
        if nm not in ('os.walk', 'os.listdir', 'os.scandir', 'os.path.islink', 'os.path.getmtime', 'os.stat', 'os.lstat') or not args:
            return NotImplemented
        r = self.rel(run, args[0])
        if r is None:
            return NotImplemented
        if nm == 'os.path.islink':
            run.emit('query', kind_='islink', path=args[0])
            return C(r in self.links)
        if nm in ('os.path.getmtime', 'os.stat', 'os.lstat'):
            if self.times is None:
                return NotImplemented
            if r not in self.tree:
                raise PyExc('FileNotFoundError', (), None, node)
            run.emit('stat', path=args[0], name=nm)
            t = C(self.times.get(r, 0))
            if nm == 'os.path.getmtime':
                return t
            x = run.alloc(XObj('stat_result'))
            x.fields['st_mtime'] = t
            return x
        if self.tree.get(r, 0) is not None:
            if nm == 'os.walk':
                return run.b_iter([run.new_list([])], {}, node)
            raise PyExc('FileNotFoundError', (), None, node)
        by = isinstance(args[0], C) and isinstance(args[0].v, bytes) or ty(args[0]) == 'bytes'
        if nm == 'os.walk':
            follow = kw.get('followlinks', args[3] if len(args) > 3 else FALSE)
            top = kw.get('topdown', args[1] if len(args) > 1 else TRUE)
            run.emit('walk', path=args[0], followlinks=follow)
            if not isinstance(follow, C) or not isinstance(top, C):
                return NotImplemented
            ran = []

            def go(run, cb, node):
                if not ran:
                    ran.append(1)
                    self.walk(run, r, args[0], by, bool(follow.v), bool(top.v), cb)
            return run.alloc(Lazy('gen', go))
        if nm == 'os.listdir':
            return run.new_list([self.name(x, by) for x in self.names(r)])
        return NotImplemented

    @staticmethod
    def name(x, by):
        return C(x.encode('utf-8', 'surrogateescape') if by else x)

    def walk(self, run, r, at, by, follow, top, cb):
        ds, fs = self.names(r, True), self.names(r, False)
        dl = run.new_list([self.name(x, by) for x in ds])
        t = Tup([at, dl, run.new_list([self.name(x, by) for x in fs])])
        if top:
            cb(t)
            out = []
            run.iterate(dl, lambda x: out.append(x))      # the directories the consumer has left in the list
            ds = [x for x in ds if self.name(x, by) in out] if all(isinstance(x, C) for x in out) else ds
        for d in ds:
            x = (r + '/' if r else '') + d
            if x not in self.links or follow:
                self.walk(run, x, run.pathjoin(run.fspath(at), self.name(d, by)), by, follow, top, cb)
        if not top:
            cb(t)

    def opts(self, **kw):
        ext = kw.pop('ext_hook', None)
        ex = kw.pop('exists_default', None)
        rd = kw.pop('read_hook', None)

        def e(run, nm, args, k, node):
            x = self.ext(run, nm, args, k, node)
            return ext(run, nm, args, k, node) if x is NotImplemented and ext else x

        def d(run, kind, p):
            x = self.exists(run, kind, p)
            return ex(run, kind, p) if x is None and ex else x

        def r(run, f, how):
            x = self.read(run, f, how)
            return rd(run, f, how) if x is NotImplemented and rd else x
        return Opts(ext_hook=e, exists_default=d, read_hook=r, sepfree=sepfree, **kw)


def written(run, path):
    """What the code has written to the file so far (following renames), or None."""
    path = canon(path)
    evs = list(run.events)
    data = None
    for i in range(len(evs) - 1, -1, -1):
        e = evs[i]
        if e.kind == 'rename' and canon(e.dst) == path:
            path = canon(e.src)
        elif e.kind == 'rename' and below(path, e.dst) is not None:
            r = below(path, e.dst)
            path = cat(canon(e.src), C('/' + r) if isinstance(r, str) else cat(C('/'), r))
        elif e.kind == 'open' and e.writing and canon(e.path) == path and 'a' not in str(getattr(e.mode, 'v', e.mode)):
            data = [w.data for w in evs[i:] if w.kind == 'write' and canon(w.path) == path]
            break
    return None if data is None else cat(*[canon(d) for d in data]) if data else C('')


def read_back(run, f, how):
    """Read hook: a file contains what has been written to it (constants only)."""
    t = written(run, f.path)
    if how == 'all' and t is not None and f.kind == 'plain':
        return t
    if not isinstance(t, C) or not isinstance(t.v, str):
        return NotImplemented
    lines = t.v.split('\n')
    lines = [x + '\n' for x in lines[:-1]] + ([lines[-1]] if lines[-1] else [])
    if how == 'all':
        return t
    if how == 'lines':
        return run.new_list([C(x) for x in lines])
    if how == 'line':
        return C(lines[f.nread - 1] if f.nread <= len(lines) else '')
    return NotImplemented
