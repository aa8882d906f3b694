"""C33: BPE splitting gives exactly the word back."""
from .vecs import *

META = dict(
    technique='abstract interpretation over strings of abstract characters (value sets per character, trace partitioning), merges and cache symbolic',
    level_note='All words of up to three arbitrary non-blank characters with every set of merges in every order, with and without an entry in the cache; longer words '
               'with restricted merges; words around the length limits in the code without merges.',
    explanation='The splitting function is evaluated on words of symbolic characters. Whether a pair is among the merges, its priority, and whether the word is cached is '
                'decided along each path. The concatenation of the subwords has to be the word. Cache entries are built from symbolic splits and have to map a word to its own split.',
    assumptions=['a cached split is a split of the escaped word between its units, which is what the rule about cache entries establishes'],
)


def check(ctx):
    ctx.rule('the concatenation of the subwords equals the word, whatever the merges, if the word is not cached')
    ctx.rule('the same holds if the cache has a split of the escaped word')
    ctx.rule('an entry of the cache maps the concatenation of a split to that split')
    ctx.rule('every entry the loaders put into the cache maps a word to parts that concatenate to it')
    body = ALL - BLANK
    jobs = []
    for n in (0, 1, 2, 3):
        jobs.append(('miss', f'any{n}', [body] * n, 'all' if n < 3 else 'first'))
        jobs.append(('hit', f'any{n}', [body] * n, None))
    jobs.append(('miss', 'any4', [body] * 4, 'first'))
    jobs.append(('hit', 'any4', [body] * 4, None))
    at, ab = frozenset('@'), body - {'@'}
    for n in (4, 5):
        for ds in ([ab] * n, [at] * n, [ab, at] * (n // 2), [at, ab] * (n // 2), [at] * (n - 1) + [ab]):
            jobs.append(('miss', f'mix{n}', ds, 'first'))
    for n in sorted({20, 64} | set(thresholds(ctx, ['codeprep.bpepkg'], 5, 6000))):
        jobs.append(('miss', f'long{n}', [ab] * n, 'none'))
        jobs.append(('miss', f'longat{n}', [at] * n, 'none'))
        if n <= 100:
            jobs.append(('miss', f'long{n}', [ab] * n, 'rounds'))
    jobs.append(('loaded', None, None, None))
    for n in (1, 2, 3):
        jobs.append(('cache', f'any{n}', [body] * n, None))
    ctx.parallel(jobs, work)


def cuts(run, cs):
    """Any split between the units (an escaped character is one unit)."""
    units, i = [], 0
    while i < len(cs):
        if i + 1 < len(cs) and run.cheq(cs[i], C('@')):
            units.append(cs[i:i + 2])
            i += 2
        else:
            units.append(cs[i:i + 1])
            i += 1
    parts = [units[0]]
    for u in units[1:]:
        if run.choose(2, 'the cached split cuts here') == 0:
            parts.append(u)
        else:
            parts[-1] = parts[-1] + u
    return [mkvec(p) for p in parts]


def work(ctx, job):
    mode, name, doms, merges = job
    if mode == 'loaded':
        return loaded(ctx)
    w = text('s', doms)
    if mode == 'cache':
        return entries(ctx, name, w)
    CACHE = sym('CACHE', 'dict')
    lookups = {}

    def decide_hook(run, t):
        if t.op == 'in' and t.args[1] == CACHE:
            run.looked = True
            return mode == 'hit'
        if t.op == 'in':
            if merges == 'none':
                return False
            if merges == 'first' and run.__dict__.get('nin', 0) >= (5 if len(doms) < 4 else 3):
                return False
            run.nin = run.__dict__.get('nin', 0) + 1
            if merges == 'rounds':
                return run.nin % 7 == 3 and run.nin < 400
        if merges == 'rounds' and t.op in ('lt', 'eq', 'ltx'):
            return t.op != 'eq'
        return None

    def mcall(run, recv, m, args, kw, node):
        if recv == CACHE and m in ('get', '__getitem__', '__contains__'):
            if m == '__contains__':
                return C(run.decide(T('in', fz(args[0]), CACHE)))
            if m == 'get' and not run.decide(T('in', fz(args[0]), CACHE), 'word cached'):
                return args[1] if len(args) > 1 else NONE
            return entry_of(run, args[0])
        return NotImplemented

    def entry_of(run, k):
        if '_hit' not in run.__dict__:
            cs = run.vecs(k)
            run.__dict__['_hit'] = (k, cuts(run, cs))
        return run.new_list(run.__dict__['_hit'][1])

    def ext(run, n, args, kw, node):
        if n.split('.')[-1] == 'tqdm':
            return run.alloc(XObj('progress'))
        return NotImplemented

    def entry(run):
        f = ctx.get(run, 'bpepkg.bpe_encode', 'get_bpe_subwords')
        D = ctx.get(run, 'bpepkg.bpe_encode', 'BpeData')
        with quietly(run):
            data = run.call(D, [CACHE, typed(ctx, run, 'MERGES', 'bpepkg.merge', 'MergeList')])
        old = run.getitem

        def getitem(o, k, node=None):
            if o == CACHE:
                return entry_of(run, k)
            return old(o, k, node)
        run.getitem = getitem
        return run.call(f, [w, data])

    o = vec_opts(decide_hook=decide_hook, mcall_hook=mcall, ext_hook=ext, max_paths=6000)
    res = ctx.explore(f'{mode}:{name}:{merges}', entry, o, note=False)
    if res.errors or res.limits:
        ctx.undecided(f'{mode}:{name}: {(list(res.errors) + list(res.limits))[0]}'[:300])
    for p in res.paths:
        judge(ctx, p, w, f'{mode}:{name}')


def judge(ctx, p, w, what):
    fn = anchor(ctx)
    run = p.run
    if p.outcome == 'raise':
        ctx.violation(fn, f'splitting {vstr(run, w)} fails with {p.value.name()}', p, key=f'raise:{p.value.name()}')
        return
    if p.outcome != 'return':
        return
    parts = plain(p.value)
    if parts is None or any(vec(x) is None for x in parts):
        ctx.undecided(f'{what}: the subwords were not followed ({str(p.value)[:100]})')
        return
    r = same(run, mkvec([c for x in parts for c in vec(x)]), w)
    if r is None:
        ctx.undecided(f'{what}: the subwords were not followed ({str(parts)[:100]})')
    else:
        ctx.check(r, fn, f'{vstr(run, w)} is split into {", ".join(vstr(run, x) for x in parts)}', p, key=what.split(':')[0])


def entries(ctx, name, w):
    """create_bpe_cache on a learned split of an escaped word."""
    def entry(run):
        f = ctx.get(run, 'bpepkg.bpe_learn', 'create_bpe_cache')
        esc = ctx.get(run, 'bpepkg.bpe_encode', 'escape')
        with quietly(run):
            e = run.call(esc, [w], {'merged': TRUE})
        parts = cuts(run, run.vecs(e))
        run.parts_, run.esc_ = parts, e
        key = parts[0]
        for x in parts[1:]:
            key = cat(key, C(' '), x)
        return run.call(f, [run.alloc(HDict([(key, sym('freq', 'int'))]))])
    res = ctx.explore(f'cache:{name}', entry, vec_opts(), note=False)
    if res.errors or res.limits:
        ctx.undecided(f'cache:{name}: {(list(res.errors) + list(res.limits))[0]}'[:300])
    fn = anchor(ctx, 'bpepkg.bpe_learn', 'create_bpe_cache')
    for p in res.paths:
        run = p.run
        if p.outcome == 'raise':
            ctx.violation(fn, f'building a cache entry fails with {p.value.name()}', p, key='cacheraise')
            continue
        if p.outcome != 'return' or not isinstance(p.value, HDict) or p.value.opaque:
            ctx.undecided(f'cache:{name}: the cache built was not followed')
            continue
        prs = p.value.pairs
        if len(prs) != 1:
            ctx.violation(fn, f'one split word gives {len(prs)} cache entries', p, key='cachecount')
            continue
        k, v = prs[0]
        ps = plain(v)
        if vec(k) is None or ps is None or any(vec(x) is None for x in ps):
            ctx.undecided(f'cache:{name}: the cache built was not followed')
            continue
        ok = same(run, k, run.esc_) and len(ps) == len(run.parts_) and all(same(run, a, b) for a, b in zip(ps, run.parts_))
        ctx.check(ok, fn, f'the split {", ".join(vstr(run, x) for x in run.parts_)} is cached as {vstr(run, k)} -> {", ".join(vstr(run, x) for x in ps)}', p, key='cacheentry')


def loaded(ctx):
    """What init_bpe_data adds to the cache for words that are not to be split."""
    from .world import World

    def entry(run):
        f = ctx.get(run, 'pipeline.to_repr', 'init_bpe_data')
        cc = typed(ctx, run, 'CUSTOM', 'pipeline.bperegistry', 'CustomBpeConfig')
        run.call(f, [prep_config(ctx, run), cc, TRUE])
        g = ctx.get(run, 'pipeline.to_repr', 'get_global_bpe_data_if_available')
        return run.getattr(run.call(g, []), 'merges_cache')

    def hook(run, fn, args, kw, node):
        if isinstance(fn, Fn) and fn.name == 'nonbpe' and fn.mod.name.endswith('vocabloader'):
            return run.alloc(HSet([('e', sym('NB1', 'str')), ('e', sym('NB2', 'str'))]))
        if isinstance(fn, Fn) and fn.name == 'read_bpe_cache':
            return run.alloc(HDict())
        if isinstance(fn, Fn) and fn.name == 'read_merges':
            return typed(ctx, run, 'MERGES', 'bpepkg.merge', 'MergeList')
        return NotImplemented
    res = ctx.explore('loaded', entry, opts(hook), note=False)
    if res.errors or res.limits:
        ctx.undecided(f'loaded: {(list(res.errors) + list(res.limits))[0]}'[:300])
    fn = anchor(ctx, 'pipeline.to_repr', 'init_bpe_data')
    for p in res.paths:
        if p.outcome != 'return' or not isinstance(p.value, HDict):
            continue
        for k, v in p.value.pairs:
            ps = plain(v)
            if ps is None or any(not isinstance(x, (C, T)) for x in ps):
                ctx.undecided('loaded: a cache entry was not followed')
                continue
            c = cat(*ps) if ps else C('')
            if c == k:
                ctx.ok(fn)
            elif all(isinstance(y, C) or y.op == 'sym' for x in ps for y in parts_of(x)):
                ctx.violation(fn, f'the cache maps {k!r} to {ps!r}', p, key='loaded')
            else:
                ctx.undecided(f'loaded: cache entry {k!r} -> {ps!r}'[:200])


def anchor(ctx, mod='bpepkg.bpe_encode', name='get_bpe_subwords'):
    memo = ctx.__dict__.setdefault('anchors_', {})
    if (mod, name) not in memo:
        def e(run):
            memo[mod, name] = ctx.get(run, mod, name)
            return NONE
        ctx.explore('anchor', e, note=False)
    return memo[mod, name]
