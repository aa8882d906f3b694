"""C01: per-file results are published atomically."""
from .common import *

META = dict(
    technique='path-sensitive effect and typestate analysis of the workers (open, write, close, rename), with an error injected at every effect',
    level_note='Every path of the workers reached from parse_projects.run and to_repr.run, loops widened to any number of files; lexing and '
               'conversion are opaque lists. Trusts the models of open/gzip/pickle/os and that rename is atomic within one directory.',
    explanation='Abstract interpretation of both stages from their entry points. For each file opened for writing below a result directory, '
                'the typestate opened -> written -> closed without error -> renamed is checked on every path, including paths where any single '
                'effect of the worker raises an error.',
)


def check(ctx):
    ctx.rule('a name below a result directory that is opened for writing is a temporary one: it is renamed on some path and never is itself '
             'a rename target; a rename happens only after the renamed file was written and closed on the same path without an error')
    for name, mod, what, nargs in STAGES:
        for inject in (False, True):
            o = opts(bpe_hook, gather_hook, config_hook, exists_default=nothing_else_cached(what), inject=inject, inject_kinds=('open', 'write', 'read', 'work', 'close', 'mkdir', 'stat'))
            res = ctx.explore(name + (' with injected errors' if inject else ''), stage_entry(ctx, mod, nargs), o)
            judge(ctx, name, res, what, inject)


def judge(ctx, name, res, what, inject):
    dsts, srcs, opened = set(), set(), {}
    for p in res.paths:
        root = getattr(p.run, 'dirs', {}).get(what)
        if root is None:
            continue
        for e in p.ev('rename'):
            if below(e.dst, root) is not None:
                dsts.add(canon(e.dst))
                srcs.add(canon(e.src))
    n = 0
    for p in res.paths:
        root = getattr(p.run, 'dirs', {}).get(what)
        if root is None:
            continue
        state = {}
        for e in p.events[p.run.n0:]:
            if e.kind == 'open' and e.writing and below(e.path, root) is not None:
                q = canon(e.path)
                n += 1
                if q in dsts:
                    ctx.violation(e, 'opens a result file under its final name: a half-written file is visible there', p)
                elif q not in srcs:
                    ctx.violation(e, 'writes a file among the results that is never renamed into place: it appears under its name before it is complete', p)
                else:
                    ctx.ok(e.where())
                state[q] = dict(open=e, written=False, closed=None, bad=False, mode=e.mode)
            elif e.kind == 'write' and e.path is not None and canon(e.path) in state:
                s = state[canon(e.path)]
                s['written'] = True
                if s.get('renamed'):
                    ctx.violation(e, 'content is written after the file has been renamed to its final name', p)
            elif e.kind == 'close' and e.path is not None and canon(e.path) in state:
                s = state[canon(e.path)]
                if s.get('renamed'):
                    ctx.violation(e, 'the file is closed (and its last content written out) only after it has been renamed to its final name', p)
                s['closed'] = True
                s['bad'] = s['bad'] or e.exc not in (False, None)
            if e.inject:
                for s in state.values():
                    if not s.get('renamed') and (not s['closed'] or e.kind == 'close'):
                        s['bad'] = True
            if e.kind == 'copy' and e.get('dst') is not None and below(e.dst, root) is not None:
                if canon(e.dst) in dsts or canon(e.dst) not in srcs:
                    ctx.violation(e, 'a result is copied to its final name, which is not atomic', p)
            if e.kind == 'rename' and below(e.dst, root) is not None:
                s = state.get(canon(e.src))
                n += 1
                if s is None:
                    if below(e.src, root) is not None and not any(canon(x.path) == canon(e.src) for x in p.ev('open')):
                        ctx.violation(e, 'a file this worker has not written in this run is renamed to a final name', p)
                    continue
                if elems_in(e.dst) - elems_in(e.src):
                    ctx.violation(s['open'], 'the temporary name does not depend on the file: workers overwrite each other', p)
                if not s['closed']:
                    ctx.violation(e, 'the file is renamed to its final name while it is still open: content may still be unwritten', p)
                elif s['bad']:
                    ctx.violation(e, 'the file is renamed to its final name although an error interrupted writing it', p)
                elif not s['written']:
                    ctx.violation(e, 'the file is renamed to its final name although nothing was written into it', p)
                else:
                    ctx.ok(e.where())
                s['renamed'] = True
    if n == 0:
        ctx.undecided(f'{name}: no result file is written on any path')
