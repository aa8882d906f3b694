"""C08: only codeprep's own temporary results are ever deleted."""
from .common import *
from .c02 import marker_paths

META = dict(
    technique='interprocedural effect analysis over symbolic paths: targets of deletions are compared with the set of finished results; must-rename analysis of archiving',
    level_note='All paths of every operation that touches files. Finished results are the locations a Dataset names plus every name that a '
               'result gets by renaming. Trusts the models of the file functions of os and shutil.',
    explanation='Each deletion on each path is resolved to a symbolic path and compared with all finished results and the directories that hold '
                'them; each move of an outdated result must carry its stamp and be accompanied by that of its marker.',
)
PROPS = ('bpe_path', 'vocab_path', 'base_bpe_vocab_path', 'path_to_vocab_file', 'path_to_bpe_vocab_file', 'path_to_nonbpe_vocab_file',
         'path_to_file_list_folder', 'path_to_prep_corpus_size_file')


def check(ctx):
    ctx.rule('no deleted path equals a finished result, contains one, or lies inside a finished directory; results moved away because they are '
             'outdated get a name with their stamp, and their marker is moved on the same path')
    results = [(n, r) for n, r in flows(ctx)]
    finals, home = named(ctx)
    for name, res in results:
        for p in res.paths:
            for e in p.events[getattr(p.run, 'n0', 0):]:
                if e.kind == 'rename' and below(e.dst, PARTS) is None and not any(contains(canon(e.dst), T('stamp', x)) for x in [canon(e.src)]):
                    d = canon(e.dst)
                    if isinstance(d, (T, C)):
                        finals.setdefault(d, 'a finished result')
    finals = {k: v for k, v in finals.items() if not any(isinstance(x, T) and x.op == 'stamp' and x.args[0] in finals for x in subterms(k))}
    n = 0
    for name, res in results:
        for p in res.paths:
            if not hasattr(p.run, 'n0'):
                continue
            for e in p.events[p.run.n0:]:
                if e.kind in ('remove', 'rmtree'):
                    n += 1
                    judge(ctx, name, p, e, canon(e.path), finals, home)
            ctx.ok(name)
    if not n:
        ctx.open_obligation('no deletion found')
    archiving(ctx)


def named(ctx):
    """Locations of finished results, as a Dataset names them."""
    def entry(run):
        ds = mk_dataset(ctx, run, bpe=plain_bpe_config(ctx, run))
        run.finals, run.home = {}, {}
        with quietly(run):
            for k in ('original', 'parsed', 'preprocessed'):
                run.home[canon(path_of(run, ds, k))] = f'the {k} corpus'
            for k in PROPS:
                try:
                    v = run.getattr(ds, k)
                except PyExc:
                    continue
                run.finals[canon(v)] = {'bpe_path': 'learned codes'}.get(k, k.replace('path_to_', '').replace('_path', '').replace('_', ' '))
        return NONE
    res = ctx.explore('locations of a Dataset', entry, opts())
    f, h = {}, {}
    for p in res.paths:
        f.update(getattr(p.run, 'finals', {}))
        h.update(getattr(p.run, 'home', {}))
    f[cat(OUT, C('/vocab'))] = 'the vocabulary'
    f[cat(OUT, C('/vocabsize'))] = 'the vocabulary statistics'
    return f, h


def judge(ctx, name, p, e, q, finals, home):
    what = None
    for f, w in list(finals.items()) + list(home.items()):
        if q == f:
            what = w
        elif e.kind == 'rmtree' and below(f, q) is not None:
            what = f'the directory holding {w}'
    for f, w in home.items():
        if below(q, f) is not None:
            what = f'a file of {w}'
    if what is None:
        d = listed_in(q)
        if d is not None and below(d, PARTS) is None and d != PARTS:
            for f, w in list(finals.items()) + list(home.items()):
                if d == f or below(f, d) is not None:
                    what = f'whatever is found beside {w}'
    if what:
        ctx.violation(e, f'{name}: {what} is deleted', p)
    elif isinstance(q, T) and q.op in ('unk', 'opaque') :
        ctx.undecided(f'{e.where()}: the deleted path is not known')
    else:
        ctx.ok(e.where())


def listed_in(q):
    """The directory whose listing a path comes from."""
    ps = parts_of(q)
    for i, x in enumerate(ps):
        if isinstance(x, T) and x.op == 'elem' and isinstance(x.args[0], T) and x.args[0].op in ('listdir', 'walkfiles', 'walkdirs'):
            a = x.args[0].args[0]
            return canon(a) if isinstance(a, (T, C)) else None
    return None


def archiving(ctx):
    """Outdated results are moved, with their stamp, together with their marker."""
    from .c03 import stage_hook
    n = 0
    for fname in ('run_until_preprocessing', 'run_until_base_bpe_vocab'):
        def entry(run, fname=fname):
            ds = mk_dataset(ctx, run, bpe=plain_bpe_config(ctx, run) if 'bpe' in fname else NONE)
            run.targets = {canon(path_of(run, ds, k)): f'the {k} corpus' for k in ('parsed', 'preprocessed')}
            if 'bpe' in fname:
                run.targets[canon(run.getattr(ds, 'path_to_bpe_vocab_file'))] = 'the vocabulary'
            run.marks = {t: marker_paths(ctx, run, t) for t in run.targets}
            for k in list(run.fs):
                if any(k[1] in m for m in run.marks.values()):
                    del run.fs[k]
            run.n0 = len(run.events)
            return run.call(ctx.get(run, 'pipeline.stages', fname), [ds])
        res = ctx.explore(fname + ': archiving', entry, opts(stage_hook, bpe_hook, gather_hook))
        for p in res.paths:
            if p.outcome != 'return' or not hasattr(p.run, 'n0'):
                continue
            evs = p.events[p.run.n0:]
            for i, e in enumerate(evs):
                src = canon(e.src) if e.kind == 'rename' else None
                if src in p.run.targets:
                    n += 1
                    what = p.run.targets[src]
                    marks = p.run.marks[src]
                    ctx.check(contains(canon(e.dst), T('stamp', src)), e, f'{what} is moved away to a name without its modification stamp', p)
                    stop = next((j for j, x in enumerate(evs) if j > i and x.kind == 'stage'), len(evs))
                    mv = [x for x in evs[:stop] if x.kind == 'rename' and canon(x.src) in marks]
                    rm = [x for x in evs[:stop] if x.kind == 'remove' and canon(x.path) in marks]
                    if rm:
                        ctx.violation(rm[0], f'the completion marker of {what} is deleted instead of being moved along', p)
                    elif not mv:
                        ctx.violation(e, f'{what} is moved away without its completion marker', p)
                    else:
                        ctx.check(contains(canon(mv[0].dst), T('stamp', src)), mv[0],
                                  f'the completion marker of {what} is moved to a name without the modification stamp', p)
    if not n:
        ctx.open_obligation('no outdated result is ever moved away')

