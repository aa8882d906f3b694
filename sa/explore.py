"""Path enumeration."""
import sys
import time
from .core import *
from .stmts import Stmts
from .exprs import Exprs
from .calls import Calls, Through
from .libext import LibExt
from .libmeth import LibMeth
from .program import Program, Cls, Mod, FnInfo
from .chars import Chars

sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)


class Run(Calls, Stmts, Exprs, LibExt, LibMeth, Core):
    pass


class CharRun(Chars, Run):
    pass


class Path:
    def __init__(self, run, outcome, value, setup):
        self.run, self.outcome, self.value, self.setup = run, outcome, value, setup
        self.events = run.events
        self.taken = tuple(run.taken)

    def __repr__(self):
        return f'<path {self.outcome} {self.value!r} {len(self.events)} events>'

    def ev(self, *kinds):
        return [e for e in self.events if e.kind in kinds]

    def conditions(self):
        return [f'{lab} -> {c} at {at[0]}:{at[1]}' for lab, c, at in self.run.labels]


class Result:
    def __init__(self):
        self.paths, self.notes, self.limits = [], [], []
        self.visited = set()
        self.n_explored = 0
        self.n_infeasible = 0
        self.errors = []


def explore(prog, entry, opts=None, max_paths=None, seconds=None):
    """entry(run) sets up the arguments and executes; returns a value.  Explores all paths of it."""
    opts = opts or Opts()
    loop_mut = {}
    pend = [()]
    done = {}
    res = Result()
    limit = max_paths or opts.max_paths
    restarts = 0
    t0 = time.time()
    seconds = opts.max_seconds if seconds is None else min(seconds, opts.max_seconds)
    while pend:
        prefix = pend.pop()
        if len(done) >= limit:
            res.limits.append('paths')
            break
        if time.time() - t0 > seconds:
            res.limits.append('time')
            break
        run = (CharRun if opts.chars else Run)(prog, opts, prefix, loop_mut)
        outcome, val = None, None
        try:
            val = entry(run)
            outcome = 'return'
        except Infeasible:
            outcome = 'infeasible'
        except Restart as r:
            restarts += 1
            if restarts > 5000:
                res.limits.append('restarts')
                break
            if r.item is not None:
                loop_mut.setdefault((r.head, r.key), set()).add(r.item)
            h = r.head
            n = len(h)
            for k in [k for k in loop_mut if k[0] == 'join']:
                if k[1][:n] == h:
                    del loop_mut[k]
                else:
                    for st, t in list(loop_mut[k].items()):
                        if t[:n] == h:
                            del loop_mut[k][st]
            pend = [p for p in pend if p[:n] != h]
            for k in [k for k in done if k[:n] == h]:
                del done[k]
            pend.append(h)
            # alternatives branching off before the head stay scheduled
            for a in run.alts:
                if a[:n] != h or len(a) <= n:
                    if a not in pend and a not in done:
                        pend.append(a)
            continue
        except EndPath as e:
            outcome, val = 'end:' + e.why, None
        except Limit as e:
            outcome, val = 'limit', str(e)
            res.limits.append(str(e))
        except PyExc as e:
            outcome, val = 'raise', e
        except GenClose:
            outcome = 'genclose'
        except Ctl as e:
            outcome, val = 'ctl', e
        except RecursionError:
            outcome = 'limit'
            res.limits.append('recursion')
        except Exception as e:          # the analyser itself could not follow this path
            outcome, val = 'engine', e
            tb = e.__traceback__
            while tb.tb_next is not None:
                tb = tb.tb_next
            res.errors.append(f'{type(e).__name__}: {e} ({tb.tb_frame.f_code.co_name}:{tb.tb_lineno}) at {run.at()}')
        res.n_explored += 1
        pend.extend(run.alts)
        res.visited |= run.visited
        if outcome == 'infeasible':
            res.n_infeasible += 1
            done[tuple(run.taken)] = None
            continue
        done[tuple(run.taken)] = Path(run, outcome, val, getattr(run, 'setup', None))
    res.paths = [p for p in done.values() if p is not None]
    for p in res.paths:
        res.notes.extend(p.run.notes)
    res.restarts = restarts
    return res


def in_big_stack(f):
    out = []

    def go():
        try:
            out.append(('ok', f()))
        except BaseException as e:
            out.append(('err', e))
    t = threading.Thread(target=go)
    t.start()
    t.join()
    k, v = out[0]
    if k == 'err':
        raise v
    return v
