"""C30: BPE learning checks its configuration first, and uses the fixed base configuration."""
import itertools
from .common import *
from . import c10

META = dict(
    technique='effect analysis (what may happen before the configuration is checked) and decision tables by constant propagation over all configurations',
    level_note='Exhaustive over all values of the parameters of both kinds of configuration. The directories created together with the dataset object, before '
               'learning is started, are not results.',
    explanation='For every BPE configuration the start of learning is explored: an unsupported one has to be refused without any file effect. For every supported one '
                'the preprocessing configuration is computed and compared with the base configuration; the predicate for collecting excluded tokens is '
                'computed for all preprocessing configurations.',
)
BASES = dict(CASE=('yes', 'no', 'prefix'), WORD_END=(True, False), BASE=('all', 'code', 'java'), UNICODE=('yes', 'no', 'bytes'))
PREP = dict(EN_ONLY='uU', COM='0c', STR='01E2K', SPLIT='0F123s456789', TABS_NEWLINES='s0', CASE='ul')
WANT = dict(COM='0', STR='E', SPLIT='F', TABS_NEWLINES='s', CASE='u')
EFFECTS = ('open', 'write', 'read', 'rename', 'remove', 'rmtree', 'mkdir', 'copy', 'walk', 'listdir', 'stage', 'pool', 'procstart')


def all_of(d):
    for vs in itertools.product(*d.values()):
        yield dict(zip(d, vs))


def check(ctx):
    ctx.rule('learning with an unsupported configuration raises before any file is looked at, read or written and before any stage runs')
    ctx.rule('learning with a supported configuration is not refused')
    ctx.rule('a supported configuration is preprocessed with the base configuration')
    ctx.rule('the base configurations, and no others, are those for which tokens excluded from BPE are collected')
    ctx.rule('tokens excluded from BPE are collected by every worker iff the configuration is a base configuration (unless they have been collected before)')
    ctx.rule('the command line passes the options for learning on unchanged and preprocesses with the configuration belonging to them')
    for kw in all_of(BASES):
        learning(ctx, kw)
    predicate(ctx)
    collecting(ctx)
    cli(ctx)


def learning(ctx, kw):
    got = {}

    def stage(run, fn, args, k, node):
        if isinstance(fn, Fn) and fn.cls is None and fn.mod.name.endswith('pipeline.stages'):
            run.emit('stage', name=fn.name)
            run.reached = True
            return NONE
        if isinstance(fn, Fn) and fn.cls is None and fn.name == '_load_vocab_dict':
            return run.alloc(HDict([], [T('vocab')]))
        if isinstance(fn, Fn) and fn.cls is None and fn.name == 'load_nonbpe_vocab':
            return run.alloc(HSet([('s', T('nonbpe'))]))
        return NotImplemented

    def entry(run):
        cfg = plain_bpe_config(ctx, run, **kw)
        with quietly(run):
            ds = mk_dataset(ctx, run, bpe=plain_bpe_config(ctx, run))
        got['f'] = ctx.get(run, 'pipeline.bpelearner', 'run')
        run.call(run.getattr(cfg, 'to_prep_config'), [])
        run.start = len(run.events)
        return run.call(got['f'], [ds, C(10), cfg])
    what = ', '.join(f'{k}={v}' for k, v in kw.items())
    supported = not kw['WORD_END'] and kw['UNICODE'] != 'bytes' and kw['CASE'] != 'prefix'

    def ex(run, kind, p):
        if supported and hasattr(run, 'start') and not run.quiet:
            raise EndPath('learning has started')
        return False

    def ext(run, nm, args, k, node):
        if nm in ('os.walk', 'os.listdir', 'os.scandir', 'glob.glob'):
            ex(run, 'list', None)
        return NotImplemented
    res = ctx.explore(f'learning with {what}', entry, opts(stage, learn_hook, exists_default=ex, ext_hook=ext, max_paths=40), note=False)
    for p in res.paths:
        if 'f' not in got or not hasattr(p.run, 'start'):
            # the configuration itself cannot be made
            if p.outcome == 'raise' and kw['CASE'] == 'yes':
                ctx.violation(ctx_cls(ctx), f'{what}: the configuration is refused', p, key='refused')
            else:
                ctx.ok()
            continue
        evs = [e for e in p.events[p.run.start:] if e.kind in EFFECTS]
        if supported:
            if p.outcome == 'raise' and p.value.name() == 'BpeConfigNotSupported':
                ctx.violation(got['f'], f'{what}: a supported configuration is refused', p, key='refused')
            else:
                ctx.ok(got['f'])
            continue
        if not ctx.check(not evs, evs[0] if evs else got['f'], f'{what}: {evs and evs[0].kind} before the unsupported configuration is refused', p, key='effect'):
            continue
        ctx.check(p.outcome == 'raise' and p.value.name() == 'BpeConfigNotSupported', got['f'],
                  f'{what}: the unsupported configuration is not refused ({p.outcome} {p.value!r})', p, key='accepted')
    if supported and kw['CASE'] == 'yes':
        config_of(ctx, kw, what)


def ctx_cls(ctx):
    return ('codeprep/bpepkg/bpe_config.py', 1, 'BpeConfig')


def config_of(ctx, kw, what):
    got = {}

    def entry(run):
        cfg = plain_bpe_config(ctx, run, **kw)
        got['f'] = run.getattr(cfg, 'to_prep_config')
        return Tup([*[C(x) for x in (c10.values(ctx, run, run.call(got['f'], [])) or ())]])
    res = ctx.explore(f'base configuration of {what}', entry, Opts(max_paths=10), note=False)
    for p in res.paths:
        fn = getattr(got.get('f'), 'fn', None) or ctx_cls(ctx)
        if p.outcome != 'return' or not isinstance(p.value, Tup):
            ctx.undecided(f'{what}: {p.outcome}')
            continue
        have = dict(zip(c10.PARAMS, [x.v for x in p.value.items]))
        want = dict(WANT, EN_ONLY='U' if kw['UNICODE'] == 'no' else 'u')
        bad = {k: have.get(k) for k in want if have.get(k) != want[k]}
        ctx.check(not bad, fn, f'{what}: preprocessed with {bad}, expected {({k: want[k] for k in bad})}', p, key='base configuration')


def predicate(ctx):
    for kw in all_of(PREP):
        got = {}

        def entry(run):
            c = base_prep_config(ctx, run, **kw)
            got['f'] = run.getattr(c, 'is_base_bpe_config')
            return run.call(got['f'], [])
        res = ctx.explore(f'predicate {kw}', entry, Opts(max_paths=10), note=False)
        what = ''.join(kw.values())
        for p in res.paths:
            if p.outcome != 'return':
                continue        # no such configuration
            v = p.value
            if not isinstance(v, C):
                ctx.undecided(f'{what}: {v!r}')
                continue
            want = all(kw[k] == WANT[k] for k in WANT)
            ctx.check(bool(v.v) == want, got['f'].fn, f'configuration {what} is {"" if v.v else "not "}taken for a base configuration', p, key='predicate')


def collecting(ctx):
    """to_repr.run: the metadata directory handed to the workers."""
    for kw in (dict(), dict(COM='c'), dict(STR='1'), dict(SPLIT='1'), dict(TABS_NEWLINES='0'), dict(CASE='l', SPLIT='1'), dict(EN_ONLY='U')):
        for have in (True, False):
            other = nothing_else_cached('preprocessed')
            got = {}

            def entry(run):
                with quietly(run):
                    ds = mk_dataset(ctx, run, pc=base_prep_config(ctx, run, **kw), bpe=plain_bpe_config(ctx, run))
                    got['path'] = canon(run.getattr(ds, 'path_to_nonbpe_vocab_file'))
                    run.dirs = {k: canon(path_of(run, ds, k)) for k in ('parsed', 'preprocessed')}
                got['f'] = ctx.get(run, 'pipeline.to_repr', 'run')
                return run.call(got['f'], [ds, NONE])

            def saved(run, fn, args, k, node):
                if isinstance(fn, Fn) and fn.name == 'save_metadata':
                    run.emit('metadata', args=[fz(a) for a in args])
                    return NONE
                return NotImplemented

            def ex(run, kind, p):
                if canon(p) == got.get('path'):
                    return have
                return other(run, kind, p)
            base = all(kw.get(k, WANT[k]) == WANT[k] for k in WANT)
            if base and have:
                continue        # collecting them again would be harmless
            what = f'configuration {"".join(dict(dict(EN_ONLY="u"), **dict(WANT, **kw)).values())}, tokens {"already" if have else "not yet"} collected'
            res = ctx.explore(what, entry, opts(saved, gather_hook, exists_default=ex, max_paths=1500))
            judge(ctx, what, res, got, base and not have)


def judge(ctx, what, res, got, want):
    for p in res.paths:
        if p.outcome != 'return':
            continue
        wrote = [e for e in p.events if e.kind in ('write', 'open') and e.kind == 'open' and e.writing and e.worker]
        meta = [e for e in p.events if e.kind == 'metadata']
        gath = [e for e in p.events if e.kind == 'gather']
        if want:
            ctx.check(bool(gath), got['f'], f'{what}: the excluded tokens are not gathered', p, key='not gathered')
            if wrote:
                done = [e for e in p.events if e.kind == 'rename' and e.worker]
                ctx.check(bool(meta) or not done, (done or wrote)[-1], f'{what}: a file is preprocessed without saving its excluded tokens', p, key='not saved')
        else:
            ctx.check(not gath and not meta, (gath + meta + [got['f']])[0], f'{what}: excluded tokens are collected', p, key='collected')


def cli(ctx):
    flags = {'--bytes': (False, True), '--no-unicode': (False, True), '--word-end': (False, True), '--legacy': (False, True)}
    for fl in all_of(flags):
        if fl['--bytes'] and fl['--no-unicode']:
            continue
        got = {}

        def sink(run, fn, args, kw, node):
            if not isinstance(fn, Fn):
                return NotImplemented
            if fn.name == 'create' and fn.cls is not None and fn.cls.name == 'Dataset':
                a = dict(zip([x.arg for x in fn.node.args.args][-len(args):] if len(args) > 6 else c10.params_of(fn), args))
                a.update(kw)
                run.prep = c10.values(ctx, run, a.get('prep_config'))
                run.dsb = bvalues(ctx, run, a.get('bpe_config'))
                return typed(ctx, run, 'the dataset', 'pipeline.dataset', 'Dataset')
            if fn.cls is None and fn.mod.name.endswith('pipeline.bpelearner'):
                a = dict(zip(c10.params_of(fn), args))
                a.update(kw)
                run.given = bvalues(ctx, run, a.get('bpe_config'))
                run.n = fz(a.get('n_merges', NONE))
                return NONE
            return NotImplemented

        def entry(run):
            args = {'--path': C('/data/x'), '--ext': NONE, '--id': C('mine'), '<n-merges>': C('10'), '--verbose': FALSE,
                    '--no-case': FALSE, '--case-prefix': FALSE, **{k: C(v) for k, v in fl.items()}}
            got['f'] = ctx.get(run, 'cli.impl', 'handle_learnbpe')
            return run.call(got['f'], [run.alloc(HDict([(C(k), v) for k, v in args.items()], []))])
        what = 'learn-bpe ' + ' '.join(k for k in fl if fl[k])
        res = ctx.explore(what, entry, opts(sink, exists_default=lambda run, k, p: True, max_paths=200), note=False)
        want = dict(CASE='yes', WORD_END=fl['--word-end'], UNICODE='no' if fl['--no-unicode'] else 'bytes' if fl['--bytes'] else 'yes')
        for p in res.paths:
            r = p.run
            if p.outcome != 'return' or not hasattr(r, 'given'):
                if p.outcome == 'return' and hasattr(r, 'prep'):
                    ctx.violation(got['f'], f'{what}: nothing is learned', p, key='not learned')
                continue
            for b, where in ((r.given, 'learning'), (getattr(r, 'dsb', None), 'the dataset')):
                if b is None:
                    ctx.undecided(f'{what}: configuration of {where}')
                    continue
                bad = {k: b[k] for k in want if b[k] != want[k]}
                ctx.check(not bad, got['f'], f'{what}: {where} gets {bad}', p, key='cli')
            ctx.check(r.n in (C(10), T('toint', C('10'))), got['f'], f'{what}: {r.n!r} merges', p, key='cli n')
            if fl['--bytes'] or fl['--word-end']:
                continue
            wp = dict(WANT, EN_ONLY='U' if fl['--no-unicode'] else 'u')
            have = dict(zip(c10.PARAMS, r.prep or ()))
            bad = {k: have.get(k) for k in wp if have.get(k) != wp[k]}
            ctx.check(not bad, got['f'], f'{what}: the dataset is preprocessed with {bad}', p, key='cli base')


def bvalues(ctx, run, b):
    if b is None or is_const(b, None):
        return None
    out = {}
    with quietly(run):
        E = ctx.get(run, 'bpepkg.bpe_config', 'BpeParam')
        for k in BASES:
            v = run.call(run.getattr(b, 'get_param_value'), [run.getattr(E, k)])
            out[k] = v.v if isinstance(v, C) else repr(v)
    return out
