"""Core of the abstract interpreter: control flow signals, events, facts, loops."""
import os
from .ir import *
from .program import Cls


class Signal(Exception):
    """Engine-internal; never seen by analysed handlers."""


class Infeasible(Signal):
    pass


class Restart(Signal):
    def __init__(self, head, key, item):
        self.head, self.key, self.item = head, key, item


class EndPath(Signal):
    def __init__(self, why):
        self.why = why


class Limit(Signal):
    pass


class Ctl(Exception):
    """Control flow of the analysed program."""


class Return_(Ctl):
    def __init__(self, v):
        self.v = v


class Break_(Ctl):
    pass


class Continue_(Ctl):
    pass


class GenClose(Ctl):
    def __init__(self, token):
        self.token = token


class PyExc(Ctl):
    """An exception of the analysed program; cls: builtin/external name or Cls."""

    def __init__(self, cls, args=(), obj=None, node=None):
        self.cls, self.args_, self.obj, self.node = cls, tuple(args), obj, node

    def name(self):
        return self.cls if isinstance(self.cls, str) else self.cls.name


class Event:
    __slots__ = ('kind', 'd', 'mod', 'line', 'fn', 'loops', 'stack', 'worker', 'task', 'locks', 'i', 'inject')

    def __init__(self, kind, d):
        self.kind, self.d = kind, d

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def get(self, n, default=None):
        return self.d.get(n, default)

    def where(self):
        return f'{self.mod}:{self.line} ({self.fn})'

    def __repr__(self):
        return f'{self.kind}@{self.mod}:{self.line}[{self.fn}]({", ".join(f"{k}={v!r}" for k, v in self.d.items())})'


class LoopRec:
    def __init__(self, key, head, start, mut, desc):
        self.key, self.head, self.start, self.mut, self.desc = key, head, start, mut, desc
        self.saved = {}
        self.dirty = False


class Opts:
    sepfree = None
    ascii_file = None               # (run, hfile) -> its content is certainly ASCII

    def __init__(self, **kw):
        self.inject = False             # fork a generic error at each effect
        self.inject_kinds = None        # restrict to these event kinds
        self.exists_default = None      # path -> True/False/None
        self.call_hook = None           # (run, fn, args, kw, node) -> value or NotImplemented
        self.mcall_hook = None          # (run, recv, name, args, kw, node) -> value or NotImplemented
        self.ext_hook = None            # (run, name, args, kw, node) -> value or NotImplemented
        self.decide_hook = None         # (run, term) -> True/False/None
        self.read_hook = None           # (run, hfile, how) -> value or NotImplemented
        self.unroll_hook = None         # (run, term) -> list of its elements, or None
        self.max_depth = 60
        self.max_rec = 2                # recursive activations of one function
        self.max_steps = 60000
        self.max_paths = 3000
        self.mkdir_race = None           # (run, path) -> another process makes this directory first
        self.chars = False               # strings of abstract characters (chars.py)
        self.opaque_sizes = False        # sizes of queues and values of shared counters are symbols in worker processes
        self.queue_empty = None          # (run, queue) -> this get runs into its timeout
        self.unroll = 400
        self.unroll_forever = 0          # iterations of `while True` that are followed one by one
        self.fork_raises = True
        self.raise_always = frozenset()   # errors that are forked even if no handler would see them
        self.join = True
        self.max_seconds = 150
        self.loop_zero = True           # also consider that a loop body never runs
        self.__dict__.update(kw)


class Core:
    """Facts, choices, events and heap of one path."""

    def __init__(self, prog, opts, prefix, loop_mut):
        self.prog, self.opts = prog, opts
        self.prefix, self.taken, self.alts, self.labels = list(prefix), [], [], []
        self.loop_mut = loop_mut
        self.events, self.notes = [], []
        self.serial = 0
        self.heap = {}
        self.loops, self.stack, self.handlers, self.locks = [], [], [], []
        self.worker = 0
        self.task = None                 # which of the calls in other processes (worker > 0) this is
        self.ntasks = 0
        self.quiet = 0
        self.steps = 0
        self.globals, self.gbusy, self.clsattrs = {}, set(), {}
        self.bools = {}             # term -> bool
        self.eqc = {}               # term -> C
        self.neq = {}               # term -> set of C
        self.dom = {}               # term -> tuple of C
        self.iv = {}                # linear term -> (lo, hi)
        self.tclass = {}            # term -> Cls
        self.tfields = {}           # (term, field) -> value
        self.fs = {}                # (kind, canonical path) -> bool
        self.loopcount = 0
        self.injected = None
        self.node = None
        self.pools = []
        self.files = []
        self.gserial = 0
        self.gmode = 0
        self.shared_tag = None
        self.defaults = {}
        self.visited = set()
        self.elemclass = {}
        self.cur_exc = []
        self.isinst_cls = {}

    # ------------------------------------------------------------ choices
    def choose(self, n, label='', default=0):
        if n <= 1:
            return 0
        if self.quiet:
            return default
        i = len(self.taken)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:          # scheduled before a loop was found to change more
                raise Infeasible()
        else:
            c = default
            for k in range(n):
                if k != default:
                    self.alts.append(tuple(self.taken) + (k,))
        self.taken.append(c)
        self.labels.append((label, c, self.at()))
        return c

    def at(self):
        fr = self.stack[-1] if self.stack else None
        line = getattr(self.node, 'lineno', 0)
        return (fr.mod.path if fr else '', line, fr.name if fr else '')

    # ------------------------------------------------------------ events
    def emit(self, kind, eff=False, **d):
        if self.quiet:
            return None
        e = Event(kind, d)
        e.mod, e.line, e.fn = self.at()
        e.loops = tuple(l.key for l in self.loops)
        e.stack = tuple(f.qual for f in self.stack)
        e.worker = self.worker
        e.task = self.task
        e.locks = tuple(self.locks)
        e.i = len(self.events)
        e.inject = False
        if eff and self.opts.inject and self.injected is None and \
                (self.opts.inject_kinds is None or kind in self.opts.inject_kinds):
            kinds = ['InjectedError'] + self.handled_errors(d)
            c = self.choose(1 + len(kinds), 'error at ' + kind)
            if c:
                self.injected = e
                e.inject = True
                self.events.append(e)
                raise PyExc(kinds[c - 1], (), None, self.node)
        self.events.append(e)
        return e

    def handled_errors(self, d):
        """Specific errors some active handler would see, besides the generic one."""
        out = []
        for hs in self.handlers:
            for c in hs:
                n = c.name.split('.')[-1] if hasattr(c, 'name') and isinstance(c.name, str) else None
                r = {'OSError': 'PermissionError', 'IOError': 'PermissionError', 'EnvironmentError': 'PermissionError',
                     'EOFError': 'EOFError', 'PermissionError': 'PermissionError', 'ValueError': 'ValueError',
                     'UnicodeError': 'UnicodeDecodeError', 'UnicodeDecodeError': 'UnicodeDecodeError',
                     'UnpicklingError': 'UnpicklingError', 'RuntimeError': 'RuntimeError'}.get(n)
                if r and r not in out:
                    out.append(r)
        return out

    def note(self, *msg):
        if len(self.notes) < 300:
            self.notes.append((self.at(),) + msg)

    # ------------------------------------------------------------ heap
    def alloc(self, o):
        if self.gmode:
            self.gserial -= 1
            o.serial = self.gserial
        else:
            self.serial += 1
            o.serial = self.serial
        self.heap[o.serial] = o
        if self.quiet and getattr(self, 'shared_tag', None):
            o.shared = self.shared_tag
        return o

    def new_list(self, values=()):
        return self.alloc(HList([('e', v) for v in values]))

    def fresh(self, op, *args):
        self.serial += 1
        return T(op, *args, self.serial)

    def touch(self, item, born, getter=None):
        """A location (serial, field) older than an active loop is being changed."""
        for l in self.loops:
            if born <= l.start and item not in l.mut:
                l.mut.add(item)
                l.dirty = True

    def mutate(self, o, field, node=None, how='set', val=None):
        self.touch((o.serial, field), o.serial)
        self.emit('mutate', obj=o, field=field, how=how, shared=o.shared, val=val)

    # ------------------------------------------------------------ facts
    def assume_bool(self, t, b):
        self.bools[t] = b

    def domain(self, t):
        d = self.dom.get(t)
        if d is not None:
            return d
        if t.op == 'sym' and t.args[0] in SYMDOM:
            return SYMDOM[t.args[0]]
        return None

    def set_dom(self, t, d):
        if not d:
            raise Infeasible()
        self.dom[t] = tuple(d)
        if len(d) == 1:
            self.eqc[t] = d[0]

    def known_const(self, v):
        """The constant a value is known to be equal to, or None."""
        if isinstance(v, C) or isinstance(v, EnumMember):
            return v
        if isinstance(v, T):
            c = self.eqc.get(v)
            if c is not None:
                return c
            d = self.domain(v)
            if d is not None and len(d) == 1:
                return d[0]
            if v.op == 'lin':
                r = C(v.args[0])
                for t, k in v.args[1]:
                    c = self.eqc.get(t)
                    if c is None or not isinstance(c.v, int):
                        return None
                    r = C(r.v + k * c.v)
                return r
        return None

    def subst(self, v):
        c = self.known_const(v)
        return c if c is not None else v

    # linear comparison: L < c with L = linear term without constant, positive leading coefficient
    @staticmethod
    def norm_lt(a, b):
        d = lin_add(a, b, -1)       # a - b < 0
        if d is None:
            return None
        c, terms = lin_of(d)
        if not terms:
            return C(c < 0)
        items = sorted(terms.items(), key=lambda kv: repr(kv[0]))
        if items[0][1] > 0:
            L = mk_lin(0, dict(terms))
            return ('lt', L, -c)            # L < -c
        L = mk_lin(0, {k: -x for k, x in terms.items()})
        return ('ge', L, c + 1 if False else c)  # -L + c < 0  <=>  L > c  <=>  not (L < c+1)

    def interval(self, L):
        lo, hi = self.iv.get(L, (None, None))
        if lo is None and isinstance(L, T):
            if L.op in ('len', 'plen', 'niter', 'sum', 'qsize'):
                lo = 0
            if L.op == 'lin' and all(k > 0 for _, k in L.args[1]):
                los = [self.interval(t)[0] for t, _ in L.args[1]]
                if all(x is not None for x in los):
                    lo = sum(x * k for x, (_, k) in zip(los, L.args[1]))
        c = self.eqc.get(L) if isinstance(L, T) else None
        if c is not None and isinstance(c.v, int):
            return int(c.v), int(c.v)
        return lo, hi

    def set_iv(self, L, lo, hi):
        l0, h0 = self.interval(L)
        lo = l0 if lo is None else (lo if l0 is None else max(lo, l0))
        hi = h0 if hi is None else (hi if h0 is None else min(hi, h0))
        if lo is not None and hi is not None and lo > hi:
            raise Infeasible()
        nq = self.neq.get(L)
        if nq and lo is not None:
            while C(lo) in nq:
                lo += 1
        if nq and hi is not None:
            while C(hi) in nq:
                hi -= 1
        if lo is not None and hi is not None and lo > hi:
            raise Infeasible()
        self.iv[L] = (lo, hi)
        if lo is not None and lo == hi and isinstance(L, T):
            self.eqc[L] = C(lo)

    def lt(self, a, b):
        """Term or constant for a < b."""
        a, b = self.subst(a), self.subst(b)
        if isinstance(a, C) and isinstance(b, C):
            try:
                return C(a.v < b.v)
            except TypeError:
                return T('ltx', a, b)
        if isinstance(a, (C, T)) and isinstance(b, (C, T)):
            if isinstance(a, C) and not isinstance(a.v, int) or isinstance(b, C) and not isinstance(b.v, int) \
                    or ty(a) in ('str', 'bytes', 'float') or ty(b) in ('str', 'bytes', 'float'):
                return T('ltx', a, b)
            n = self.norm_lt(a, b)
            if isinstance(n, C):
                return n
            if n is not None:
                k, L, c = n
                if k == 'ge':               # L > c
                    t = T('lt', L, c + 1)   # not (L < c+1)
                    return self.neg(t)
                return T('lt', L, c)
        return T('ltx', fz(a), fz(b))

    @staticmethod
    def neg(t):
        if isinstance(t, C):
            return C(not t.v)
        if isinstance(t, T) and t.op == 'not':
            return t.args[0]
        return T('not', t)

    def eq(self, a, b):
        """Term or constant for a == b (structural values only)."""
        if a is b:
            return TRUE
        a1, b1 = self.subst(a), self.subst(b)
        if isinstance(a1, EnumMember) or isinstance(b1, EnumMember):
            if isinstance(a1, EnumMember) and isinstance(b1, EnumMember):
                return C(a1 == b1)
            e, o = (a1, b1) if isinstance(a1, EnumMember) else (b1, a1)
            if isinstance(o, C):
                if any(getattr(x, 'name', None) in ('builtins.str', 'builtins.int') for x in (e.cls.bases or [])):
                    return C(e.value == o) if isinstance(e.value, C) else T('eq', fz(e), o)
                return FALSE
            if not isinstance(o, T):
                return FALSE
            return T('eq', fz(o), e)
        if isinstance(a1, C) and isinstance(b1, C):
            return C(a1.v == b1.v)
        if isinstance(a1, Ext) and isinstance(b1, Ext):
            ta = toktype(a1)
            return C(a1.name == b1.name or ta is not None and ta == toktype(b1))
        if isinstance(a1, (Cls, Ext)) and isinstance(b1, (Cls, Ext)):
            return C(a1 is b1 or isinstance(a1, Ext) and isinstance(b1, Ext) and a1.name == b1.name)
        if isinstance(a1, Cls) and isinstance(b1, C) or isinstance(b1, Cls) and isinstance(a1, C):
            return FALSE
        kinds = (HList, Tup, HDict, HSet)
        if isinstance(a1, Tup) and isinstance(b1, Tup):
            if len(a1.items) != len(b1.items):
                return FALSE
            rs = [self.eq(x, y) for x, y in zip(a1.items, b1.items)]
            if all(r == TRUE for r in rs):
                return TRUE
            if any(r == FALSE for r in rs):
                return FALSE
            return T('eq', fz(a1), fz(b1))
        if isinstance(a1, HList) and isinstance(b1, HList):
            x, y = a1.elems(), b1.elems()
            if x is not None and y is not None:
                return self.eq(Tup(x), Tup(y))
            fa, fb = fz(a1), fz(b1)
            return TRUE if fa == fb else T('eq', fa, fb)
        if isinstance(a1, kinds) and isinstance(b1, C) or isinstance(b1, kinds) and isinstance(a1, C):
            return FALSE
        if isinstance(a1, kinds) and isinstance(b1, kinds) and type(a1) is not type(b1):
            return FALSE
        fa, fb = fz(a1), fz(b1)
        if fa == fb and isinstance(fa, (T, C)):
            return TRUE
        if not isinstance(fa, T) and not isinstance(fb, T):
            return C(fa == fb)
        if isinstance(fa, C):
            fa, fb = fb, fa
        if isinstance(fb, C):
            ta, tb = ty(fa), type(fb.v).__name__
            if fb.v is None:
                return self.isnone(fa)
            if ta and tb and ta != tb and not {ta, tb} <= {'int', 'bool', 'float'}:
                return FALSE
            if isinstance(fb.v, int) and (fa.op in ('lin', 'len') or ta == 'int'):
                c, d = lin_of(fa)
                rest = mk_lin(0, d)
                k = fb.v - c
                lo, hi = self.interval(rest)
                if lo is not None and k < lo or hi is not None and k > hi or C(k) in self.neq.get(rest, ()):
                    return FALSE
                return T('eq', rest, C(k))
            d = self.domain(fa)
            if d is not None and fb not in d:
                return FALSE
            if fb in self.neq.get(fa, ()):
                return FALSE
            if isinstance(fb.v, (str, bytes)) and fa.op == 'cat':
                if len(fb.v) == 0 and any(isinstance(p, C) for p in fa.args):
                    return FALSE
                p0, p1 = fa.args[0], fa.args[-1]
                if isinstance(p0, C) and type(p0.v) is type(fb.v) and not fb.v.startswith(p0.v):
                    return FALSE
                if isinstance(p1, C) and type(p1.v) is type(fb.v) and not fb.v.endswith(p1.v):
                    return FALSE
            return T('eq', fa, fb)
        # two terms
        if not isinstance(fa, T) or not isinstance(fb, T):
            return C(False) if type(fa) is type(fb) else T('eq', fa, fb)
        if fa.op in ('lin',) or fb.op in ('lin',) or ty(fa) == 'int' and ty(fb) == 'int':
            d = lin_add(fa, fb, -1)
            if d is not None:
                c, terms = lin_of(d)
                if not terms:
                    return C(c == 0)
                items = sorted(terms.items(), key=lambda kv: repr(kv[0]))
                s = 1 if items[0][1] > 0 else -1
                L = mk_lin(0, {k: s * x for k, x in terms.items()})
                return self.eq(L, C(-c * s)) if not isinstance(L, C) else C(L.v == -c * s)
        da, db = self.domain(fa), self.domain(fb)
        if da is not None and db is not None and not set(da) & set(db):
            return FALSE
        if fa.op == 'cat' or fb.op == 'cat':
            pa, pb = parts_of(fa), parts_of(fb)
            while pa and pb and pa[0] == pb[0]:
                pa, pb = pa[1:], pb[1:]
            while pa and pb and pa[-1] == pb[-1]:
                pa, pb = pa[:-1], pb[:-1]
            if not pa and pb or not pb and pa:
                rest = pa or pb
                if any(isinstance(p, C) for p in rest):
                    return FALSE
            if pa and pb:
                if isinstance(pa[0], C) and isinstance(pb[0], C) and type(pa[0].v) is type(pb[0].v):
                    x, y = pa[0].v, pb[0].v
                    if not x.startswith(y) and not y.startswith(x):
                        return FALSE
                if isinstance(pa[-1], C) and isinstance(pb[-1], C) and type(pa[-1].v) is type(pb[-1].v):
                    x, y = pa[-1].v, pb[-1].v
                    if not x.endswith(y) and not y.endswith(x):
                        return FALSE
        if repr(fb) < repr(fa):
            fa, fb = fb, fa
        t = T('eq', fa, fb)
        b = self.bools.get(t)
        return t if b is None else C(b)

    def isnone(self, v):
        if isinstance(v, C):
            return C(v.v is None)
        if not isinstance(v, T):
            return FALSE
        c = self.known_const(v)
        if c is not None:
            return C(isinstance(c, C) and c.v is None)
        t_ = ty(v)
        if t_ and t_ != 'NoneType':
            return FALSE
        if v in self.tclass:
            return FALSE
        d = self.domain(v)
        if d is not None and NONE not in d:
            return FALSE
        if NONE in self.neq.get(v, ()):
            return FALSE
        if self.bools.get(T('truthy', v)) is True:
            return FALSE
        return T('isnone', v)

    def truthy(self, v):
        """Truth value as constant or term."""
        if isinstance(v, C):
            return C(bool(v.v))
        if isinstance(v, EnumMember):
            return TRUE
        if isinstance(v, Tup):
            return C(len(v.items) > 0)
        if isinstance(v, (HList, HSet)):
            if any(s[0] == 'e' or s[0] == 's' and nonempty(s[1]) for s in v.segs):
                return TRUE
            if not v.segs:
                return FALSE
            n = segs_len(v.segs)
            if isinstance(n, C):
                return C(n.v > 0)
            return self.neg(self.eq(n, C(0)))
        if isinstance(v, HDict):
            if v.pairs:
                return TRUE
            return T('truthy', fz(v)) if v.opaque else FALSE
        if isinstance(v, T):
            if v.op in ('not', 'eq', 'lt', 'ltx', 'isnone', 'truthy', 'in', 'isinstance', 'and', 'or', 'exists'):
                return v
            c = self.known_const(v)
            if c is not None:
                return self.truthy(c)
            t_ = ty(v)
            if v.op == 'lin' or t_ == 'int':
                return self.neg(self.eq(v, C(0)))
            if v.op == 'cat' and any(isinstance(p, C) for p in v.args):
                return TRUE
            if t_ in ('str', 'bytes', 'list'):
                return self.neg(self.eq(length(v), C(0)))
            d = self.domain(v)
            if d is not None:
                tr = [bool(x.v) if isinstance(x, C) else True for x in d]
                if all(tr):
                    return TRUE
                if not any(tr):
                    return FALSE
            if self.bools.get(T('isnone', v)) is True:
                return FALSE
            return T('truthy', v)
        return TRUE

    def decide(self, v, label=''):
        """Truth of a value on this path; forks if it is unknown."""
        t = self.truthy(v)
        if isinstance(t, C):
            return bool(t.v)
        neg = False
        while isinstance(t, T) and t.op == 'not':
            t, neg = self.truthy(t.args[0]), not neg
            if isinstance(t, C):
                return bool(t.v) != neg
        r = self._decide(t, label)
        return r != neg

    def _decide(self, t, label):
        if t in self.bools:
            return self.bools[t]
        if self.opts.decide_hook:
            r = self.opts.decide_hook(self, t)
            if r is not None:
                self.assume(t, r)
                return r
        op = t.op
        if op == 'lt':
            L, c = t.args
            lo, hi = self.interval(L)
            if hi is not None and hi < c:
                return True
            if lo is not None and lo >= c:
                return False
        elif op == 'eq':
            r = self.eq(t.args[0], t.args[1])
            if isinstance(r, C):
                return bool(r.v)
        elif op == 'isnone':
            r = self.isnone(t.args[0])
            if isinstance(r, C):
                return bool(r.v)
        elif op == 'truthy':
            r = self.truthy(t.args[0]) if isinstance(t.args[0], T) else t
            if isinstance(r, C):
                return bool(r.v)
            if r != t:
                return self.decide(r, label)
        elif op in ('and', 'or'):
            for a in t.args:
                d = self.decide(a)
                if d != (op == 'and'):
                    return d
            return op == 'and'
        elif op == 'in':
            r = self.decide_in(t)
            if r is not None:
                return r
        r = self.choose(2, label or repr(t)[:80]) == 0
        self.assume(t, r)
        return r

    def decide_in(self, t):
        x, coll = t.args
        d = self.domain(x) if isinstance(x, T) else None
        if d is not None and coll.op in ('list', 'tup', 'set') and all(isinstance(a, C) for a in coll.args):
            yes = [c for c in d if c in coll.args]
            no = [c for c in d if c not in coll.args]
            if not yes:
                return False
            if not no:
                return True
            if self.choose(2, f'{x!r} in {coll!r}') == 0:
                self.set_dom(x, yes)
                return True
            self.set_dom(x, no)
            return False
        return None

    def assume(self, t, b):
        """Record that boolean term t has value b."""
        while isinstance(t, T) and t.op == 'not':
            t, b = t.args[0], not b
        if isinstance(t, C):
            if bool(t.v) != b:
                raise Infeasible()
            return
        self.bools[t] = b
        op = t.op
        if op == 'lt':
            L, c = t.args
            if b:
                self.set_iv(L, None, c - 1)
            else:
                self.set_iv(L, c, None)
        elif op == 'eq':
            a, c = t.args
            if isinstance(c, (C, EnumMember)):
                if b:
                    if isinstance(c, C) and isinstance(c.v, int) and not isinstance(c.v, bool):
                        self.set_iv(a, c.v, c.v)
                    d = self.domain(a)
                    if d is not None:
                        self.set_dom(a, [x for x in d if x == c])
                    self.eqc[a] = c
                else:
                    self.neq.setdefault(a, set()).add(c)
                    d = self.domain(a)
                    if d is not None:
                        self.set_dom(a, [x for x in d if x != c])
                    if isinstance(c, C) and isinstance(c.v, int) and a in self.iv or isinstance(a, T) and a.op == 'len':
                        lo, hi = self.interval(a)
                        self.set_iv(a, lo, hi)
        elif op == 'isnone':
            if b:
                self.eqc[t.args[0]] = NONE
                d = self.domain(t.args[0])
                if d is not None:
                    self.set_dom(t.args[0], [NONE])
            else:
                self.neq.setdefault(t.args[0], set()).add(NONE)
                d = self.domain(t.args[0])
                if d is not None:
                    self.set_dom(t.args[0], [x for x in d if x != NONE])
        elif op == 'truthy' and isinstance(t.args[0], T):
            a = t.args[0]
            d = self.domain(a)
            if d is not None:
                self.set_dom(a, [x for x in d if bool(x.v if isinstance(x, C) else True) == b])
            if b:
                self.neq.setdefault(a, set()).add(NONE)
        elif op == 'isinstance' and b:
            k = self.isinst_cls.get(t)
            if k is not None:
                self.tclass[t.args[0]] = k

    def forget(self, pred):
        """Drop facts about terms satisfying pred."""
        for tab in (self.bools, self.eqc, self.neq, self.dom, self.iv):
            for k in [k for k in tab if isinstance(k, T) and any(pred(x) for x in subterms(k))]:
                del tab[k]
        for k in [k for k in self.fs if any(pred(x) for x in subterms(k[1]))]:
            del self.fs[k]

    # ------------------------------------------------------------ file system facts
    def fs_query(self, kind, path):
        p = canon(path)
        k = (kind, p)
        if k in self.fs:
            return C(self.fs[k])
        ex = self.fs.get(('exists', p))
        if ex is False:
            return FALSE
        if kind == 'exists' and (self.fs.get(('isfile', p)) or self.fs.get(('isdir', p))):
            return TRUE
        if kind == 'isdir' and self.fs.get(('isfile', p)) or kind == 'isfile' and self.fs.get(('isdir', p)):
            return FALSE
        if self.opts.exists_default:
            r = self.opts.exists_default(self, kind, p)
            if r is not None:
                self.fs[k] = r
                return C(r)
        if self.quiet:
            return C(kind == 'exists')
        r = self.choose(2, f'{kind}({p!r})') == 0
        self.fs[k] = r
        return C(r)

    def events_since(self, kind):
        return any(e.kind == kind for e in self.events)

    def fs_set(self, path, state):
        p = canon(path)
        for k in [k for k in self.fs if k[1] == p]:
            del self.fs[k]
        if state is not None:
            self.fs[('exists', p)] = state

    def fs_drop_below(self, path):
        p = canon(path)
        for k in [k for k in self.fs if k[1] == p or strip_prefix(k[1], p) is not None]:
            del self.fs[k]

    # ------------------------------------------------------------ loops
    def absloop(self, desc, elem, body, node=None):
        """Zero iterations, or one iteration that stands for any."""
        self.__dict__['n_absloops'] = self.__dict__.get('n_absloops', 0) + 1
        cnt = length(desc) if isinstance(desc, T) and desc.op != 'niterof' else None
        key = self.loop_key(node)
        if nonempty(desc):
            zero = False
        elif cnt is not None and isinstance(desc, T):
            c0 = self.eq(cnt, C(0))
            if self.opts.loop_zero or isinstance(c0, C):
                zero = not self.decide(self.neg(c0), 'loop over ' + repr(desc)[:60])
            else:
                zero = False
        else:
            zero = self.opts.loop_zero and self.choose(2, 'loop ' + key) == 1
        if zero:
            self.emit('loop0', key=key, desc=desc)
            return
        rec = self.enter_loop(key, desc, node)
        ok = False
        try:
            self.emit('loop', key=key, desc=desc)
            body(elem(rec))
            ok = True
        finally:
            self.loops.remove(rec)
            if rec.dirty and not any(l.dirty for l in self.loops):
                self.loop_mut.setdefault(rec.seed, set()).update(rec.mut)
                # changed locations were found that the loop entry had not widened: analyse the loop again
                raise Restart(rec.head, rec.key, None)
        if ok:
            self.leave_loop(rec)
            self.emit('loopend', key=key, desc=desc)
            if self.opts.join and self.injected is None:
                self.loop_join(('join', rec.head, key), rec)

    EFFECTS = ('open', 'write', 'close', 'rename', 'remove', 'rmtree', 'mkdir', 'copy', 'setglobal', 'setclassattr',
               'setext', 'unkcall', 'extcall', 'extmethod', 'lock', 'unlock', 'qput', 'qget', 'pool', 'pooltasks',
               'procstart', 'caught', 'nondet', 'terminate', 'errors_dropped', 'sorted', 'exhausted', 'badcall')

    def loop_join(self, jkey, rec):
        """Paths that leave a loop in the same state after the same effects are continued only once."""
        def ck(v):
            if isinstance(v, (T, C)):
                return v
            return repr(fz(v))
        eff = []
        for e in self.events[rec.ev0:]:
            if e.kind in self.EFFECTS:
                eff.append((e.kind, e.line, tuple((k, ck(v)) for k, v in sorted(e.d.items()) if k not in ('obj', 'file', 'node', 'fr', 'stack', 'args', 'kw'))))
        mut = []
        for item in sorted(rec.mut, key=repr):
            ser, field = item
            o = self.heap.get(ser)
            if isinstance(o, (HList, HSet)):
                mut.append((item, tuple(seg_repr(x) for x in o.segs)))
            elif isinstance(o, HDict):
                mut.append((item, repr(o)))
            elif isinstance(o, Slots):
                v = o.slots().get(field) if not isinstance(field, tuple) else None
                mut.append((item, ck(v)))
        st = (frozenset(self.bools.items()), frozenset(self.eqc.items()),
              frozenset((k, frozenset(v)) for k, v in self.neq.items() if v), frozenset((k, tuple(v)) for k, v in self.dom.items()),
              frozenset(self.iv.items()), frozenset(self.fs.items()), frozenset((k, ck(v)) for k, v in self.tfields.items()),
              tuple(eff), tuple(repr(m) for m in mut), tuple(self.locks), len(self.handlers))
        reg = self.loop_mut.setdefault(jkey, {})
        me = tuple(self.taken)
        first = reg.setdefault(st, me)
        if first != me:
            self.emit('joined')
            raise EndPath('joined')

    def loop_key(self, node):
        self.loopcount += 1
        p, line, fn = self.at()
        line = getattr(node, 'lineno', line)
        return f'{os.path.basename(p)}:{line}#{self.loopcount}'

    def enter_loop(self, key, desc, node):
        head = tuple(self.taken)
        mut = self.loop_mut.get((head, key))
        if mut is None:
            mut = self.loop_mut[(head, key)] = set(self.loop_mut.get(('seed', self.serial, key), ()))
        rec = LoopRec(key, head, self.serial, mut, desc)
        rec.ev0 = len(self.events)
        rec.seed = ('seed', self.serial, key)
        self.serial += 1
        for item in sorted(mut, key=repr):
            self.havoc(rec, item)
        self.loops.append(rec)
        return rec

    def havoc(self, rec, item):
        ser, field = item
        o = self.heap.get(ser)
        if isinstance(field, tuple) and field[0] == '!':
            return
        if isinstance(o, (HList, HSet)):
            rec.saved[item] = list(o.segs)
            o.segs = [('p', rec.key, ser)]
        elif isinstance(o, HDict):
            rec.saved[item] = (list(o.pairs), list(o.opaque))
            o.pairs = []
            o.opaque = o.opaque + [T('p', rec.key, ser)]
        elif isinstance(o, Slots):
            d = o.slots()
            pre = d.get(field)
            rec.saved[item] = pre
            strong = (ser, ('!', field)) in rec.mut
            d[field] = self.loop_var(rec, item, pre, strong)
        elif isinstance(o, HFile) or o is None:
            pass

    def loop_var(self, rec, item, pre, strong):
        name = T('ref', item[0], str(item[1]))
        if pre is None:
            return None if not strong else T('lv', rec.key, name, T('unbound'))
        if isinstance(pre, (C, T, EnumMember)):
            return T('lv', rec.key, name, fz(pre))
        if not strong:
            return pre
        if isinstance(pre, HList):
            l = self.alloc(HList([('p', rec.key, str(item))]))
            rec.saved[('list', item)] = l
            return l
        if isinstance(pre, HObj):
            t = T('lv', rec.key, name, fz(pre))
            self.tclass[t] = pre.cls
            return t
        return T('lv', rec.key, name, fz(pre))

    def leave_loop(self, rec):
        # optimistic assumption about variables holding heap objects: verify
        for item in sorted(rec.mut, key=repr):
            ser, field = item
            o = self.heap.get(ser)
            if isinstance(o, Slots) and not (isinstance(field, tuple) and field[0] == '!'):
                pre = rec.saved.get(item)
                if pre is not None and not isinstance(pre, (C, T, EnumMember)):
                    cur = o.slots().get(field)
                    strong = (ser, ('!', field))
                    if strong not in rec.mut and cur is not pre:
                        raise Restart(rec.head, rec.key, strong)
                elif pre is None and o.slots().get(field) is not None and (ser, ('!', field)) not in rec.mut:
                    pass
        for item in sorted(rec.mut, key=repr):
            self.collapse(rec, item)
        key, depth = rec.key, len(self.loops)
        el = rec.saved.get('elem')
        self.forget(lambda x: isinstance(x, T) and (x == el or x.op == 'lv' and x.args[0] == key))

    def collapse(self, rec, item):
        ser, field = item
        o = self.heap.get(ser)
        if item not in rec.saved or isinstance(field, tuple) and field[0] == '!':
            return
        pre = rec.saved[item]
        if isinstance(o, (HList, HSet)):
            if o.segs and o.segs[0] == ('p', rec.key, ser):
                rest = o.segs[1:]
                if rest:
                    o.segs = list(pre) + [('r', rec.key, rec.desc, tuple(rest))]
                else:
                    o.segs = list(pre) + [('p', rec.key, ser)]
        elif isinstance(o, HDict):
            new = o.pairs
            if not pre[0] and not pre[1]:       # buckets of an initially empty dictionary: only what the loop put there
                new = [(k, v) for k, v in new]
                for k, v in new:
                    if isinstance(v, HList) and v.segs and v.segs[0][0] == 's' and isinstance(v.segs[0][1], T) and \
                            v.segs[0][1].op == 'getitem' and contains(v.segs[0][1].args[0], T('p', rec.key, ser)):
                        v.segs = [('r', rec.key, rec.desc, tuple(v.segs[1:]))] if len(v.segs) > 1 else []
            o.pairs = list(pre[0])
            o.opaque = list(pre[1]) + [T('rep', rec.key, *[T('pair', fz(k), fz(v)) for k, v in new])]
        elif isinstance(o, Slots):
            d = o.slots()
            cur = d.get(field)
            if pre is None:
                return
            if isinstance(pre, (C, T)):
                lv = T('lv', rec.key, T('ref', ser, str(field)), fz(pre))
                if cur == lv:
                    return
                if isinstance(cur, T):
                    if cur.op == 'cat' and cur.args[0] == lv:
                        rest = cat(*cur.args[1:])
                        d[field] = cat(pre, T('repcat', rec.key, rest))
                        return
                    diff = lin_add(cur, lv, -1) if cur.op in ('lin',) or ty(pre) == 'int' else None
                    if diff is not None and not contains(diff, lv):
                        d[field] = lin_add(pre, sum_over(rec.key, diff))
                        return
            elif isinstance(pre, HList) and isinstance(cur, HList) and ('list', item) in rec.saved:
                m = ('p', rec.key, str(item))
                if cur.segs and cur.segs[0] == m and len(cur.segs) > 1:
                    nl = self.alloc(HList(list(pre.segs) + [('r', rec.key, rec.desc, tuple(cur.segs[1:]))]))
                    d[field] = nl


def nonempty(t):
    """Sequences that have at least one element whatever their input."""
    if isinstance(t, T):
        if t.op == 'mcall' and len(t.args) > 2 and t.args[1] in ('split', C('split')) and isinstance(t.args[2], C) and t.args[2].v:
            return True
        if t.op in ('sorted', 'set', 'list', 'spread', 'reversed', 'tup', 'it') and len(t.args) >= 1:
            return nonempty(t.args[0])
    return False


class Slots(Heap):
    """Anything with named slots: frames, objects, the globals table."""

    def slots(self):
        raise NotImplementedError


class Frame(Slots):
    def __init__(self, mod, name, qual, closure=None, cls=None, info=None, kind='fn'):
        self.mod, self.name, self.qual = mod, name, qual
        self.closure, self.cls, self.info, self.kind = closure, cls, info, kind
        self.locals = {}
        self.yield_cb = None
        self.fn = None

    def slots(self):
        return self.locals


class Globals(Slots):
    def __init__(self, d):
        self.d = d

    def slots(self):
        return self.d


class TFields(Slots):
    def __init__(self, d):
        self.d = d

    def slots(self):
        return self.d


def _hobj_slots(self):
    return self.fields


HObj.__bases__ = (Slots,)
HObj.slots = _hobj_slots
