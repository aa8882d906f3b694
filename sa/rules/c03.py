"""C03: cached stage results are reused only if complete and unchanged."""
from .common import *
from .c02 import marker_paths

META = dict(
    technique='path-sensitive decision analysis: conditions under which each stage is skipped, and the order of archiving and running',
    level_note='All paths of the public stage functions in codeprep.pipeline.stages; the bodies of the stages and the computation of the '
               'stamp are opaque (other properties cover them).',
    explanation='Abstract interpretation of run_parsing, run_until_preprocessing, run_until_base_bpe_vocab and run_until_vocab. On each '
                'path the facts established before a stage is skipped or started are compared with the required ones.',
)
STAGEMOD = {'codeprep.pipeline.parse_projects': 'parsed', 'codeprep.pipeline.to_repr': 'preprocessed'}


def stage_hook(run, fn, args, kw, node):
    if isinstance(fn, Fn) and fn.name == 'run' and fn.cls is None and fn.mod.name in STAGEMOD:
        run.emit('stage', name=STAGEMOD[fn.mod.name])
        return NONE
    if isinstance(fn, Fn) and fn.name == 'calc_vocab' and fn.cls is None:
        run.emit('stage', name='vocab')
        return NONE
    return NotImplemented


def check(ctx):
    ctx.rule('a path that does not run a stage has established: results exist, marker exists, recorded stamp equal to the current stamp of the '
             'results; a path that runs a stage over outdated results has moved them away first; a later stage starts only after the earlier '
             'one was run or found up to date on the same path; the marker records the stamp of the results')
    for fname, whats in (('run_parsing', ['parsed']), ('run_until_preprocessing', ['parsed', 'preprocessed']),
                         ('run_until_base_bpe_vocab', ['parsed', 'preprocessed', 'vocab']),
                         ('run_until_vocab', ['parsed', 'preprocessed', 'vocab'])):
        def entry(run, fname=fname):
            ds = mk_dataset(ctx, run, bpe=typed(ctx, run, 'bpe_config', 'bpepkg.bpe_config', 'BpeConfig') if 'bpe' in fname else NONE)
            run.dirs = {k: canon(path_of(run, ds, k)) for k in ('original', 'parsed', 'preprocessed')}
            run.marks = {k: marker_paths(ctx, run, run.dirs[k]) for k in ('parsed', 'preprocessed')}
            for k in list(run.fs):
                if any(k[1] in m for m in run.marks.values()):
                    del run.fs[k]
            run.n0 = len(run.events)
            return run.call(ctx.get(run, 'pipeline.stages', fname), [ds])
        res = ctx.explore(fname, entry, opts(stage_hook, bpe_hook, gather_hook))
        for p in res.paths:
            if p.outcome != 'return' or not hasattr(p.run, 'n0'):
                continue
            judge(ctx, fname, p, whats)
    marker_content(ctx)


def status(p, what, upto):
    """(exists, marker, fresh) as established by events before index upto; each True/False/None."""
    root, marks = p.run.dirs[what], p.run.marks[what]
    ex = mk = None
    for e in p.events[p.run.n0:upto]:
        if e.kind == 'query' and e.kind_ in ('exists', 'isdir', 'isfile'):
            q = canon(e.path)
            if q == root:
                ex = e.get('answer')
            elif q in marks:
                mk = e.get('answer')
        elif e.kind == 'open' and not e.writing and canon(e.path) in marks:
            mk = True if mk is None else mk
    fresh, other = None, False
    stamp = T('stamp', root)
    for t, b in p.run.bools.items():
        if contains(t, stamp) and any(isinstance(x, T) and x.op in ('read', 'lines') and x.args[0] in marks for x in subterms(t)):
            exact = isinstance(t, T) and t.op in ('eq', 'lt', 'ltx') and all(
                x == stamp or pure_read(x, marks) for x in t.args[:2])
            if exact and t.op == 'eq':
                fresh = b
            elif exact:
                other = 'an ordering' if other is False else True
            elif any(isinstance(x, T) and x.op in ('slice', 'getitem', 'charof') for x in subterms(t)):
                other = 'a part'
            else:
                other = True
    if fresh is not None and not any(e.kind in ('read', 'stat') and canon(e.path) in marks + [root] for e in p.events[p.run.n0:upto]):
        fresh = None
    return ex, mk, fresh, other


def pure_read(x, marks):
    while isinstance(x, T) and x.op == 'mcall' and x.args[1] in ('strip', 'rstrip', 'lstrip'):
        x = x.args[0]
    return isinstance(x, T) and x.op == 'read' and x.args[0] in marks


def stage_events(p):
    out = {}
    for e in p.events[p.run.n0:]:
        if e.kind == 'stage':
            out.setdefault(e.name, e)
        elif e.kind in ('open', 'rename') and not (e.kind == 'open' and not e.writing):
            q = e.get('dst') or e.get('path')
            for w in ('parsed', 'preprocessed'):
                if below(q, p.run.dirs[w]) is not None and e.loops:
                    out.setdefault(w, e)
    return out


def judge(ctx, fname, p, whats):
    st = stage_events(p)
    start_of_next = {}
    vocab_only = 'vocab' in whats and not st
    names = {'parsed': 'parsing', 'preprocessed': 'preprocessing', 'vocab': 'vocabulary calculation'}
    here = lambda e: e if e is not None else (ctx.prog.modobjs['codeprep.pipeline.stages'].path, 0, fname)
    last = None
    for w in ('parsed', 'preprocessed'):
        if w not in whats:
            continue
        nxt = [st[x] for x in whats[whats.index(w) + 1:] if x in st]
        limit = min([e.i for e in nxt], default=len(p.events))
        e = st.get(w)
        if e is not None and e.i < limit or e is not None and not nxt:
            ex, mk, fresh, other = status(p, w, e.i)
            if ex and mk and fresh is False:
                moved = [x for x in p.events[p.run.n0:e.i] if x.kind == 'rename' and canon(x.src) == p.run.dirs[w]]
                gone = [x for x in p.events[p.run.n0:e.i] if x.kind == 'rmtree' and canon(x.path) == p.run.dirs[w]]
                if not moved and not gone:
                    ctx.violation(e, f'{names[w]} runs over outdated results that were not moved away', p)
                    continue
            ctx.ok(e.where())
            continue
        if e is not None and e.i > limit:
            ctx.violation(nxt[0], f'{names[[x for x in whats if st.get(x) is nxt[0]][0]]} starts before {names[w]} has been brought up to date', p)
            continue
        if vocab_only:
            ctx.ok()
            continue
        # the stage is not run on this path
        ex, mk, fresh, other = status(p, w, limit)
        q = [x for x in p.events[p.run.n0:limit] if x.kind in ('query', 'open')]
        at = q[-1] if q else here(nxt[0] if nxt else None)
        if fname == 'run_parsing' and w == 'preprocessed':
            continue
        why = None
        if ex is False or mk is False:
            why = 'although its results are not marked complete'
        elif fresh is False:
            why = 'although the stamp of its results differs from the recorded one'
        elif mk is None:
            why = 'without looking whether its results are marked complete'
        elif fresh is None:
            if other in ('an ordering', 'a part'):
                ctx.violation(at, f'{names[w]} is skipped after comparing only {other} of the recorded and the current stamp', p)
                continue
            if other:
                ctx.open_obligation(f'{fname}: comparison of stamps for {w} is not a plain equality')
                continue
            why = 'without comparing the stamp of its results with the recorded one'
        if why:
            ctx.violation(at, f'{names[w]} is skipped {why}', p)
        else:
            ctx.ok(at.where() if isinstance(at, Event) else fname)


def marker_content(ctx):
    def entry(run):
        ds = mk_dataset(ctx, run)
        run.root = canon(path_of(run, ds, 'parsed'))
        run.marks = marker_paths(ctx, run, run.root)
        run.n0 = len(run.events)
        return run.call(ctx.get(run, 'pipeline.dataset', 'set_path_ready'), [path_of(run, ds, 'parsed')])
    res = ctx.explore('set_path_ready', entry, opts())
    for p in res.paths:
        if p.outcome != 'return':
            continue
        ws = [e for e in p.events[p.run.n0:] if e.kind == 'write' and e.path is not None and canon(e.path) in p.run.marks]
        ops = [e for e in p.events[p.run.n0:] if e.kind == 'open' and e.writing]
        if not ws and not [e for e in p.events[p.run.n0:] if e.kind in ('write', 'rename', 'copy')]:
            ctx.violation(ops[0] if ops else (ctx.prog.modobjs['codeprep.pipeline.dataset'].path, 0, 'set_path_ready'),
                          'the completion marker does not record the stamp of the results', p)
        for e in ws:
            d = fz(e.data)
            if contains(d, T('stamp', p.run.root)):
                ctx.check(d == T('stamp', p.run.root) or not isinstance(d, T) or d.op != 'cat' or True, e, '', p)
            elif any(isinstance(x, T) and x.op == 'stamp' for x in subterms(d)):
                ctx.violation(e, 'the completion marker records the stamp of another path', p)
            else:
                ctx.violation(e, 'the completion marker does not record the stamp of the results', p)
