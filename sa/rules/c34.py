"""C34: the BPE data in use is replaced only by completely loaded data."""
from .world import *
from . import c10

META = dict(
    technique='path-sensitive abstract interpretation with an error injected at every open and every read, and with malformed contents',
    level_note='Every failing operation during loading of custom and predefined codes, with earlier data and without, with and without the request to reload.',
    explanation='Data A is loaded, then codes B are loaded along every path, including those on which an operation fails. Afterwards the data in use has to be A '
                'with its content unchanged if loading failed or was not asked for, and completely B if it succeeded.',
)
KINDS = ('custom', 'predefined')


def content(tag, bad=None):
    return {'merges': 'broken\n' if bad == 'merges' else f'{tag}x {tag}y 3\n{tag}z {tag}w 2\n',
            'merges_cache': f'{tag}only\n' if bad == 'cache' else f'{tag}word\t{tag}w ord\n'}


def check(ctx):
    ctx.rule('a failing operation while BPE data is loaded leaves the data in use as it was, object and content')
    ctx.rule('after loading, the data in use consists of the new merges and the new cache only')
    ctx.rule('without a request to reload, data in use is kept; without data in use, it is loaded')
    for kind in KINDS:
        for before in (True, False):
            for force in (True, False, None):
                for bad in (None, 'merges', 'cache', 'nonbpe'):
                    if bad == 'nonbpe' and kind != 'custom' or bad == 'cache' and kind == 'custom':
                        continue
                    load(ctx, kind, before, force, bad)


def snapshot(run, d):
    if d is None or is_const(d, None):
        return None
    out = []
    with quietly(run):
        m = run.getattr(d, 'merges')
        if isinstance(m, HObj):
            ms = []
            run.iterate(m, lambda x: ms.append(x))
            out.append(tuple(repr(fz(run.getattr(x, 'pair'))) for x in ms))
        else:
            out.append(repr(fz(m)))
        c = run.getattr(d, 'merges_cache')
        out.append(tuple(sorted((repr(fz(k)), repr(fz(v))) for k, v in c.pairs)) if isinstance(c, HDict) else repr(fz(c)))
    return tuple(out)


def load(ctx, kind, before, force, bad):
    got = {}
    tag = {}

    def read(run, f, how):
        s = repr(canon(f.path))
        c = content(run.tag, bad if run.tag == 'B' else None)
        for k in ('merges_cache', 'merges'):
            if k + '.txt' in s:
                w = World({'x': c[k]}, f.path)
                w.rel = lambda r, p: 'x'
                return w.read(run, f, how)
        return NotImplemented

    def nonbpe(run, fn, args, kw, node):
        if isinstance(fn, Fn) and fn.cls is None and fn.mod.name.endswith('vocabloader') and fn.name == 'nonbpe':
            if bad == 'nonbpe' and run.tag == 'B':
                raise PyExc('FileNotFoundError', (), None, node)
            return run.new_list([C(run.tag + 'nonbpe')])
        return NotImplemented

    def cfg(run):
        if kind == 'custom':
            cls = ctx.get(run, 'pipeline.bperegistry', 'CustomBpeConfig')
            c = run.call(cls, [C('id'), C(0), C('/codes/' + run.tag + '/merges.txt'), C('/codes/' + run.tag + '/merges_cache.txt')])
            return base_prep_config(ctx, run, SPLIT='9'), c
        return base_prep_config(ctx, run, SPLIT='4' if run.tag == 'A' else '5'), NONE

    def entry(run):
        get = ctx.get(run, 'pipeline.to_repr', 'get_global_bpe_data_if_available')
        f = got['f'] = ctx.get(run, 'pipeline.to_repr', 'init_bpe_data')
        run.tag = 'A'
        if before:
            inj, run.opts.inject = run.opts.inject, False
            run.opts.fork_raises = False
            a, b = cfg(run)
            run.call(f, [a, b])
            run.opts.inject = inj
            run.opts.fork_raises = True
        old = run.call(get, [])
        run.old = snapshot(run, old)
        run.tag = 'B'
        a, b = cfg(run)
        run.failed = False
        try:
            run.call(f, [a, b], {} if force is None else {'force_reinit': C(force)})
        except PyExc as e:
            run.failed = e.name()
        new = run.call(get, [])
        run.same = new is old or fz(new) == fz(old)
        run.new = snapshot(run, new)
        return NONE
    what = f'{kind} codes, {"data" if before else "no data"} in use, force_reinit={force}' + (f', broken {bad}' if bad else '')
    res = ctx.explore(what, entry, Opts(inject=True, inject_kinds=('open', 'read'), call_hook=nonbpe, read_hook=read, exists_default=lambda r, k, p: True,
                                        sepfree=sepfree, max_paths=200), note=False)
    for p in res.paths:
        r = p.run
        if p.outcome != 'return':
            ctx.undecided(f'{what}: {p.outcome} {p.value!r}')
            continue
        if r.failed:
            at = next((e for e in p.events if e.kind == 'setglobal'), got['f']) if before is False else \
                next((e for e in reversed(p.events) if e.kind == 'setglobal'), got['f'])
            ctx.check(r.same and r.new == r.old, at, f'{what}: after loading has failed with {r.failed}, the data in use is {r.new} instead of {r.old}', p, key='failed')
        elif before and force is False:
            ctx.check(r.same and r.new == r.old, got['f'], f'{what}: the data in use is replaced', p, key='kept')
        elif bad == 'nonbpe':
            ctx.undecided(f'{what}: not used')
        else:
            text = repr(r.new)
            ok = r.new is not None and "'A" not in text and "'Bx'" in text and "'Bz'" in text and 'None' not in text and \
                (kind == 'custom' and "'Bnonbpe'" in text or kind == 'predefined' and "'Bword'" in text)
            ctx.check(ok, got['f'], f'{what}: the data in use after loading is {r.new}', p, key='loaded')
