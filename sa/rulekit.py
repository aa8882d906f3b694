"""Shared services for the rules: exploration bookkeeping, obligations, violations, evidence."""
import os
import pickle
import time
import traceback

BUDGET = 640      # seconds for all explorations of one check
from .explore import *
from .ir import *

KIT_ASSUME = [
    'the models of the Python standard library and of the third-party packages in sa/libext.py and sa/libmeth.py',
    'os-level rename, exclusive create and lock calls behave as POSIX documents',
]


class AnchorMissing(Exception):
    pass


class Violation:
    def __init__(self, file, line, fn, msg, path, key):
        self.file, self.line, self.fn, self.msg, self.path, self.key = file, line, fn, msg, path, key
        self.lines = None


class Ctx:
    def __init__(self, prop, repo='/repo', tier='quick'):
        self.prop, self.repo, self.tier = prop, repo, tier
        self.prog = Program(repo)
        self.t0 = time.time()
        self.violations, self.undecided_, self.entries = [], [], []
        self.obligations = self.discharged = 0
        self.sites, self.functions = set(), set()
        self.rules, self.samples = [], []
        self.n_paths = self.n_explored = self.n_events = 0
        self.results = []

    # ---- program access
    def get(self, run, mod, name):
        m = self.prog.modobjs.get('codeprep.' + mod)
        if m is None:
            raise AnchorMissing('module codeprep.' + mod)
        try:
            v = run.global_get(m, name)
        except PyExc:
            v = None
        if v is None:
            raise AnchorMissing(f'codeprep.{mod}.{name}')
        return v

    def maybe(self, run, mod, name):
        try:
            return self.get(run, mod, name)
        except AnchorMissing:
            return None

    # ---- exploration
    def explore(self, name, entry, opts=None, max_paths=None, note=True):
        t = time.time()
        r = explore(self.prog, entry, opts, max_paths, max(0.2, (BUDGET - (t - self.t0)) / 4))
        if os.environ.get('SA_TIME'):
            print(f'{name}: {len(r.paths)} paths, {r.n_explored} explored, {r.restarts} restarts, {time.time() - t:.1f}s', flush=True)
        if note:
            self.entries.append((name, len(r.paths), len(r.limits), len(r.errors)))
        self.n_paths += len(r.paths)
        self.n_explored += r.n_explored
        self.functions |= {str(v) for v in r.visited}
        self.n_events += sum(len(p.events) for p in r.paths)
        for e in sorted(set(r.errors))[:5]:
            self.undecided(f'{name}: analysis stopped on a path: {e}')
        for e in sorted(set(map(str, r.limits)))[:5]:
            self.undecided(f'{name}: limit reached: {e}')
        if len(self.samples) < 6 and r.paths:
            p = r.paths[0]
            self.samples.append(f'{name}: path 1 of {len(r.paths)}: {p.outcome}, conditions ' +
                                ('; '.join(p.conditions()[:4]) or 'none')[:400])
        return r

    def parallel(self, jobs, work):
        """work(ctx, job) for every job, in several processes; their findings are merged in the order of the jobs."""
        jobs = list(jobs)
        n = max(1, min(os.cpu_count() or 1, 8, len(jobs)))
        if os.environ.get('SA_SERIAL'):
            n = 1
        pipes = []
        for k in range(n):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    out = []
                    for i in range(k, len(jobs), n):
                        sub = self.fresh()
                        try:
                            res = work(sub, jobs[i])
                            out.append((i, sub.summary(), res))
                        except AnchorMissing as e:
                            out.append((i, None, str(e)))
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(out, f)
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(w)
            pipes.append((pid, r))
        got = []
        failed = None
        for pid, r in pipes:
            with os.fdopen(r, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            try:
                got.extend(pickle.loads(data))
            except Exception as e:
                failed = e
        if failed is not None:
            raise RuntimeError('a worker process of the analysis failed')
        results = []
        for i, s, res in sorted(got, key=lambda x: x[0]):
            if s is None:
                raise AnchorMissing(res)
            self.merge(s)
            results.append(res)
        return results

    def fresh(self):
        c = Ctx.__new__(Ctx)
        c.__dict__.update(self.__dict__)
        c.violations, c.undecided_, c.entries = [], [], []
        c.obligations = c.discharged = c.n_paths = c.n_explored = c.n_events = 0
        c.sites, c.functions = set(), set()
        c.rules, c.samples, c.results = [], [], []
        return c

    def summary(self):
        for v in self.violations:
            v.lines = self.path_lines(v.path)
            v.path = None
        return dict(violations=self.violations, undecided_=self.undecided_, entries=self.entries, obligations=self.obligations,
                    discharged=self.discharged, n_paths=self.n_paths, n_explored=self.n_explored, n_events=self.n_events,
                    sites=self.sites, functions=self.functions, samples=self.samples)

    def merge(self, s):
        for k in ('obligations', 'discharged', 'n_paths', 'n_explored', 'n_events'):
            setattr(self, k, getattr(self, k) + s[k])
        self.sites |= s['sites']
        self.functions |= s['functions']
        self.entries += s['entries']
        self.samples = (self.samples + s['samples'])[:6]
        for u in s['undecided_']:
            self.undecided(u)
        for v in s['violations']:
            if all(x.key != v.key for x in self.violations):
                self.violations.append(v)

    # ---- results
    def rule(self, text):
        self.rules.append(text)

    def ok(self, site=None, n=1):
        self.obligations += n
        self.discharged += n
        if site is not None:
            self.sites.add(str(site))

    def site(self, s):
        self.sites.add(s.where() if isinstance(s, Event) else str(s))

    def undecided(self, msg):
        if msg not in self.undecided_:
            self.undecided_.append(msg)

    def open_obligation(self, msg):
        self.obligations += 1
        self.undecided(msg)

    def violation(self, at, msg, path=None, key=None):
        """at: an Event, a FnInfo/Cls, or (file, line, function)."""
        self.obligations += 1
        if path is not None and getattr(getattr(path, 'run', None), 'guessed', None):
            self.undecided(f'the result of {path.run.guessed} on text is not known: {msg}'[:200])
            return None
        if isinstance(at, Event):
            f, l, fn = self.file_of(at.mod), at.line, at.fn
        elif isinstance(at, tuple):
            f, l, fn = at
            f = self.file_of(f)
        else:
            f, l, fn = self.loc(at)
        key = key or f'{fn}: {msg}'
        for v in self.violations:
            if v.key == key:
                return v
        v = Violation(f, l, fn, msg, path, key)
        self.violations.append(v)
        return v

    def check(self, cond, at, msg, path=None, key=None):
        if cond:
            self.ok(at.where() if isinstance(at, Event) else None)
            return True
        self.violation(at, msg, path, key)
        return False

    def file_of(self, m):
        m = getattr(m, 'name', m)
        if isinstance(m, str) and m.startswith('/'):
            return os.path.relpath(m, self.repo)
        mo = self.prog.modobjs.get(m)
        if mo is None:
            return str(m)
        return os.path.relpath(mo.path, self.repo) if os.path.isabs(mo.path) else mo.path

    def loc(self, f):
        info = getattr(f, 'info', f)
        if getattr(f, 'info', None) is not None:
            info = f.info
        node = getattr(info, 'node', None) or getattr(f, 'node', None)
        mod = getattr(info, 'mod', None) or getattr(f, 'mod', None)
        q = getattr(info, 'qual', None) or getattr(f, 'qual', None) or getattr(f, 'name', '?')
        if callable(q):
            q = q()
        return self.file_of(mod) if mod is not None else '?', getattr(node, 'lineno', 0), str(q)

    def path_lines(self, p, upto=None):
        out = []
        if p is None:
            return out
        out.append('path conditions:')
        out += ['  ' + c for c in p.conditions()]
        out.append('effects on the path:')
        for e in p.events:
            if e.kind in ('call', 'loop', 'loopend', 'loop0', 'mutate', 'nondet'):
                continue
            out.append('  ' + short(e))
            if upto is not None and e is upto:
                break
        return out[:400]


def short(e, n=300):
    s = f'{e.kind} ' + ', '.join(f'{k}={v!r}' for k, v in e.d.items() if k not in
                                 ('stack', 'loops', 'locks', 'fr', 'obj', 'mod', 'line', 'fn', 'i', 'worker', 'task', 'inject'))
    return f'{e.where()}: {s}'[:n]


def is_const(v, *vals):
    return isinstance(v, C) and (not vals or v.v in vals)


def has(v, needle):
    """Does the (frozen) value contain the sub-term?"""
    return contains(v, needle)
