"""C02: a stage is marked complete only when every file is done."""
from .common import *

META = dict(
    technique='path-sensitive effect-order analysis: the completion marker against the work of each stage, with an error injected at every effect',
    level_note='All paths of parse_projects.run, to_repr.run and the file-list walk, any number of files (loops widened). Marker paths are '
               'taken from what the readiness test of the code queries. Trusts the pool and generator models.',
    explanation='Abstract interpretation of the stages; the write that makes the completion marker appear is ordered against every effect of '
                'the stage and against injected errors; every way through the per-file work must publish the result or find it present.',
)
KINDS = ('open', 'write', 'read', 'work', 'close', 'mkdir', 'rename')


def marker_paths(ctx, run, target):
    """Paths, other than the target, whose existence the readiness test asks for."""
    n = len(run.events)
    f = ctx.maybe(run, 'pipeline.dataset', 'is_path_ready')
    if f is None:
        raise AnchorMissing('codeprep.pipeline.dataset.is_path_ready')
    with quietly(run):
        run.call(f, [target])
    out = [canon(e.path) for e in run.events[n:] if e.kind == 'query']
    return [p for p in out if p != canon(target)]


def check(ctx):
    ctx.rule('after the completion marker of a stage appears the stage changes none of its results; no injected error precedes the marker on '
             'a path; no pool task is abandoned or has its error dropped; on each path that handles a file and reaches the marker the result '
             'was renamed into place, found to exist, or its source reported missing')
    for name, mod, what, nargs in STAGES:
        base = stage_entry(ctx, mod, nargs)

        def entry(run, what=what, mod=mod, nargs=nargs):
            ds = mk_dataset(ctx, run)
            run.dirs = {k: canon(path_of(run, ds, k)) for k in ('original', 'parsed', 'preprocessed')}
            run.marks = marker_paths(ctx, run, path_of(run, ds, what))
            run.n0 = len(run.events)
            return run.call(ctx.get(run, mod, 'run'), [ds, NONE][:nargs], {})
        for inject in (False, True):
            o = opts(bpe_hook, gather_hook, config_hook, inject=inject, inject_kinds=KINDS,
                     exists_default=nothing_else_cached(what))
            res = ctx.explore(name + (' with injected errors' if inject else ''), entry, o)
            judge(ctx, name, res, what)
    filelist(ctx)


def mark_index(p):
    for e in p.events[p.run.n0:]:
        if e.kind == 'open' and e.writing and canon(e.path) in p.run.marks or \
                e.kind in ('rename', 'copy') and e.get('dst') is not None and canon(e.dst) in p.run.marks:
            return e
    return None


def pos(key):
    return key.split('#')[0]


def common_judge(ctx, p, m, roots, what):
    under = lambda q: q is not None and any(below(q, r) is not None for r in roots)
    for e in p.events[p.run.n0:m.i]:
        if e.inject:
            ctx.violation(m, f'the {what} is marked complete although an error occurred before ({e.kind} at {e.where()})', p,
                          key=f'{m.fn}: {what} marked complete after an error in {e.fn}')
        elif e.kind == 'errors_dropped':
            ctx.violation(m, f'the {what} is marked complete although errors of pool workers are dropped', p)
        elif e.kind == 'abandoned':
            ctx.violation(m, f'the {what} is marked complete although pool tasks may not have run to the end', p)
    for e in p.events[m.i:]:
        tgt = [e.get('path')] if e.kind == 'open' and e.writing or e.kind == 'write' else \
            [e.get('src'), e.get('dst')] if e.kind in ('rename', 'copy') else []
        if any(under(q) for q in tgt):
            ctx.violation(e, f'the {what} is changed after it has been marked complete', p)
    ctx.ok(m.where())


def judge(ctx, name, res, what):
    work, finals = set(), set()
    for p in res.paths:
        if hasattr(p.run, 'marks'):
            for e in p.ev('rename'):
                if below(e.dst, p.run.dirs[what]) is not None and e.loops:
                    work.add(pos(e.loops[0]))
                    finals.add(canon(e.dst))
    marks = 0
    for p in res.paths:
        if not hasattr(p.run, 'marks'):
            continue
        root = p.run.dirs[what]
        m = mark_index(p)
        if m is None:
            continue
        marks += 1
        common_judge(ctx, p, m, [root], name + ' stage')
        evs = p.events[p.run.n0:m.i]
        loops = [e for e in evs if e.kind == 'loop' and pos(e.key) in work]
        for e in evs:
            if e.kind == 'break' and any(pos(k) in work for k in e.loops) and not any(x.kind == 'exhausted' for x in evs):
                if any(x.kind == 'rename' and set(x.loops) & set(e.loops) for q in res.paths for x in q.ev('rename')):
                    ctx.violation(e, f'the {name} stage leaves the loop over the files early and is still marked complete', p)
        if loops:
            done = [e for e in evs if e.kind == 'rename' and below(e.dst, root) is not None and e.loops]
            there = [e for e in evs if e.kind == 'query' and e.kind_ in ('exists', 'isfile') and e.get('answer') is True and
                     elems_in(e.path) and below(e.path, root) is not None and canon(e.path) in finals]
            gone = [e for e in evs if e.kind == 'caught' and e.get('exc') == 'FileNotFoundError']
            if done or gone or there:
                ctx.ok(loops[0].where())
            else:
                ctx.violation(last_in(evs, loops), f'a file can be skipped without a result while the {name} stage is marked complete', p)
            for l in loops:
                d = strip_order(l.desc)
                if isinstance(d, T) and d.op in ('slice', 'islice'):
                    ctx.violation(l, f'the {name} stage only handles a part of the files', p)
            if any(e.kind == 'truncated' and e.i < m.i for e in evs):
                t = [e for e in evs if e.kind == 'truncated'][0]
                if any(l.i > t.i for l in loops):
                    ctx.violation(t, f'the {name} stage only handles a part of the files', p)
    if not marks:
        ctx.undecided(f'{name}: no completion marker is written on any path')


def last_in(evs, loops):
    x = [e for e in evs if any(l.key in e.loops for l in loops)]
    return x[-1] if x else loops[-1]


def filelist(ctx):
    def mk(consumer):
        def entry(run):
            ds = mk_dataset(ctx, run)
            folder = run.getattr(ds, 'path_to_file_list_folder')
            run.dirs = {'list': canon(folder)}
            run.marks = marker_paths(ctx, run, folder)
            run.n0 = len(run.events)
            it = run.call(run.getattr(ds, 'get_all_files'), [])
            return consumer(run, it)
        return entry

    def all_(run, it):
        run.iterate(it, lambda x: NONE)
        return NONE

    def one(run, it):
        def first(x):
            run.got = True
            raise GenClose(token)
        token = object()
        try:
            run.iterate(it, first)
        except GenClose:
            pass
        return NONE
    for nm, cons, inject in (('file list', all_, False), ('file list with injected errors', all_, True), ('file list abandoned', one, False)):
        o = Opts(call_hook=hooks(stamp_hook), sepfree=sepfree, inject=inject, inject_kinds=KINDS + ('walk',),
                 exists_default=lambda run, k, p: False if hasattr(run, 'dirs') and k == 'exists' else None)
        res = ctx.explore(nm, mk(cons), o)
        marks = 0
        for p in res.paths:
            if not hasattr(p.run, 'marks'):
                continue
            m = mark_index(p)
            if cons is one and getattr(p.run, 'got', False):
                if m is not None:
                    ctx.violation(m, 'the file list is marked complete although its consumer stopped before the end', p)
                else:
                    ctx.ok()
                continue
            if m is None:
                continue
            marks += 1
            common_judge(ctx, p, m, [p.run.dirs['list']], 'file list')
            still = {}
            for e in p.events[p.run.n0:m.i]:
                if e.kind == 'open' and e.writing and below(e.path, p.run.dirs['list']) is not None:
                    still[e.file.serial if e.get('file') is not None else canon(e.path)] = e
                if e.kind == 'close':
                    still.pop(e.file.serial if e.get('file') is not None else canon(e.path), None)
            for e in still.values():
                ctx.violation(m, 'the file list is marked complete while it is still being written', p)
        if cons is all_ and not marks:
            ctx.undecided('file list: no completion marker is written on any path')
