"""C35: a failed or empty vocabulary calculation is reported."""
from .common import *

META = dict(
    technique='path-sensitive abstract interpretation: what is known about the existence of the vocabulary at every normal end',
    level_note='All paths of the calculation, from scratch and from partial results, with the merging processes replaced by processes that may or may not '
               'have produced the vocabulary; and all paths of the stages through a failing calculation.',
    explanation='On every path on which the calculation returns normally, the path condition has to imply that the vocabulary file exists after the processes have ended. '
                'With no files the calculation must end with an error, and errors must pass through the stages that call it.',
)


def check(ctx):
    ctx.rule('the vocabulary calculation returns normally only where the existence of the vocabulary has been established after the merging processes have ended')
    ctx.rule('without files the calculation ends with an error and starts no process')
    ctx.rule('an error of the calculation is not swallowed by a stage')
    for what in ('scratch', 'load'):
        calculation(ctx, what)
    empty(ctx)
    stages_(ctx)


def ended(run, fn, args, kw, node):
    """A merging process may leave anything behind."""
    if isinstance(fn, Fn) and fn.name == 'run' and fn.cls is not None and is_process_class(run, fn.cls):
        run.emit('stage', name='merger')
        run.fs_drop_below(OUT)
        run.merged = len(run.events)
        return NONE
    return NotImplemented


def calculation(ctx, what):
    o = vocab_opts(what)
    vocab = vocab_paths(None)['vocab']

    def ex(run, kind, p):
        q = canon(p)
        if below(q, OUT) is not None and kind in ('exists', 'isfile') and below(q, PARTS) is not None and isinstance(below(q, PARTS), C):
            return what != 'scratch'
        return None
    o.exists_default = ex
    o.call_hook = ended
    res = ctx.explore(f'calc_vocab, {what}', vocab_entry(ctx), o)
    n = 0
    for p in res.paths:
        if p.outcome != 'return':
            ctx.ok()
            continue
        n += 1
        m = getattr(p.run, 'merged', None)
        join = max([i for i, e in enumerate(p.events) if e.kind in ('procjoin',)] or [-1])
        q = canon(vocab)
        known = p.run.fs.get(('exists', q)) is True or p.run.fs.get(('isfile', q)) is True
        seen = [i for i, e in enumerate(p.events) if e.kind in ('query', 'stat', 'open', 'read') and e.path is not None and canon(e.path) == q]
        at = entry_fn(ctx, p)
        if m is None:
            started = any(e.kind == 'procstart' for e in p.events)
            ctx.check(known or started, at, f'{what}: returns normally without a vocabulary and without calculating it', p, key='nothing done')
            continue
        ctx.check(known, at, f'{what}: returns normally although the vocabulary may not have been produced', p, key='not checked')
        if known and seen:
            if join < 0 and any(e.kind == 'procstart' for e in p.events):
                ctx.violation(p.events[max(seen)], f'{what}: the existence of the vocabulary is checked without waiting for the processes', p, key='not joined')
                continue
            ctx.check(max(seen) > join, p.events[max(seen)], f'{what}: the existence of the vocabulary is checked before the processes have ended', p, key='too early')
    if not n:
        ctx.undecided(f'{what}: no normal end')


def entry_fn(ctx, p):
    return ctx.get(p.run, 'pipeline.vocab', 'calc_vocab')


def empty(ctx):
    for kind in ('list', 'iterator'):
        def entry(run):
            run.n0 = 0
            fs = run.new_list([])
            if kind == 'iterator':
                fs = run.b_iter([fs], {}, None)
            return run.call(ctx.get(run, 'pipeline.vocab', 'calc_vocab'), [sym('PREP', 'str'), fs, OUT])
        o = vocab_opts('scratch', loop_zero=True)
        vocab = canon(vocab_paths(None)['vocab'])
        o.exists_default = lambda run, k, p: False if k in ('exists', 'isfile') and canon(p) == vocab else None
        res = ctx.explore(f'calc_vocab without files ({kind})', entry, o)
        for p in res.paths:
            read = any(e.kind in ('listdir', 'walk') and canon(e.path) == PARTS for e in p.events)
            if read:
                continue            # continued from partial results
            at = entry_fn(ctx, p)
            if p.outcome == 'return':
                ctx.violation(at, 'without files the vocabulary calculation reports success', p, key='empty')
                continue
            if p.outcome != 'raise':
                continue
            st = [e for e in p.events if e.kind == 'procstart']
            ctx.check(not st, st[0] if st else at, 'without files merging processes are started', p, key='empty started')
            if p.value.name() == 'SystemExit':
                code = p.value.args_[0] if p.value.args_ else NONE
                ctx.check(not (isinstance(code, C) and code.v in (0, None, False)), at, 'without files the program ends with a success code', p, key='exit code')


def stages_(ctx):
    for name in ('run_until_vocab', 'run_until_base_bpe_vocab'):
        def failing(run, fn, args, kw, node):
            if isinstance(fn, Fn) and fn.cls is None and fn.name == 'calc_vocab':
                run.failed = True
                raise PyExc('RuntimeError', (), None, node)
            if isinstance(fn, Fn) and fn.cls is None and fn.mod.name.endswith('stages') and fn.name == 'run_until_preprocessing':
                run.emit('stage', name=fn.name)
                return NONE
            return NotImplemented

        def entry(run):
            with quietly(run):
                ds = mk_dataset(ctx, run, bpe=plain_bpe_config(ctx, run))
            return run.call(ctx.get(run, 'pipeline.stages', name), [ds])
        res = ctx.explore(f'{name}, failing calculation', entry, opts(failing, max_paths=300))
        n = 0
        for p in res.paths:
            if not getattr(p.run, 'failed', False):
                continue
            n += 1
            ctx.check(p.outcome != 'return', ctx.get(p.run, 'pipeline.stages', name), f'{name} reports success although the calculation has failed', p, key='swallowed')
        if not n:
            ctx.undecided(f'{name}: the calculation is not reached')
