"""C27: asking for n merges applies exactly the first n merges of a long enough list."""
from .world import *

META = dict(
    technique='constant propagation through the registry, the loading of codes and the learning over given states of the directory of results',
    level_note='Sets of up to four existing results (with unfinished ones and other directories beside them) and every number of merges from 1 to beyond the largest one. '
               'Contents of merge files are constants that tell the files and lines apart.',
    explanation='For each set of existing results and each number, the merges that are loaded are computed and compared with the first n lines of a file with at least n; '
                'the cache that is loaded has to be that of exactly n merges. For learning, the merges that are written are compared with the largest existing '
                'result not exceeding n followed by the new ones.',
)
SETS = ((), (2,), (1, 3), (3, 2, 10), (10, 9), (4, 1, 2, 3), (2, 20, 100), (12,), (110,), (100, 21))
OTHERS = ('part_vocab', '5.part', '1.part', '12abc')


def pair(m, i):
    return (f'x{m}_{i}', f'y{i}')


def mtext(m):
    return ''.join(f'{a} {b} {1000 - i}\n' for i, (a, b) in ((i, pair(m, i)) for i in range(m)))


def result_dir(base, m):
    return {f'{base}{m}/merges.txt': mtext(m), f'{base}{m}/merges_cache.txt': f'cached{m}\tca ched{m}\n',
            f'{base}{m}/vocab_res.txt': f'word{m}\t{m}\n', f'{base}{m}/bpe_vocab_reassembled.txt': f'w{m} @\t{m}\n'}


def tree_of(ms, base):
    tree = {base + 'part_vocab': None}
    for m in ms:
        tree.update(result_dir(base, m))
    for o in OTHERS:
        tree[base + o + '/merges.txt'] = 'wrong file 1\n' * 20
        tree[base + o + '/merges_cache.txt'] = 'wrong\twrong\n'
        tree[base + o + '/vocab_res.txt'] = 'wrong\t1\n'
    return tree


def pairs_of(run, ml):
    """The merges of a merge list: [(first, second, priority)]"""
    out = []
    with quietly(run):
        run.iterate(ml, lambda m: out.append(m))
        res = []
        for m in out:
            p = run.getattr(m, 'pair')
            x = [a.v if isinstance(a, C) else repr(a) for a in p.items]
            pr = run.getattr(m, 'priority')
            res.append((*x, pr.v if isinstance(pr, C) else repr(pr)))
    return res


def both(run, data):
    c = run.getattr(data, 'merges_cache')
    return Tup([pairs_of(run, run.getattr(data, 'merges')), [x.v for x in leaves(run, c)] if isinstance(c, HDict) else None])


def no_vocab(run, fn, args, kw, node):
    if isinstance(fn, Fn) and fn.cls is None and fn.mod.name.endswith('vocabloader') and fn.name == 'nonbpe':
        return run.new_list([])
    return NotImplemented


def check(ctx):
    ctx.rule('n merges are the first n lines of a file with at least n, in order; without such a file the codes are refused')
    ctx.rule('the cache that is loaded is the one of exactly n merges')
    ctx.rule('predefined codes are all merges, and the cache, of the number and the case they are named after')
    ctx.rule('the vocabulary after n merges is read from the result of exactly n merges')
    ctx.rule('learning n merges writes the largest existing result of at most n merges followed by the merges learned after it, at most n - its number')
    for ms in SETS:
        for n in [*range(1, 12), *(x for x in ms if x > 11), 101]:
            loading(ctx, ms, n)
            learning(ctx, ms, n)
    predefined(ctx)


def loading(ctx, ms, n):
    base = 'ds_1/'
    tree = {}
    for d, name in (('ds-2_3/', f'ds-{n}'), ('ds_1/', 'ds'), ('ds0_1/', 'ds_1'), ('x_1/', 'xds'), ('DS_1/', 'DS')):
        tree.update(tree_of(ms, base) if d == base else {k: v.replace('x', 'o').replace('cached', 'other') if v else v
                                                       for k, v in tree_of((n,), d).items()})
        tree[d + '.name'] = name
    got = {}

    def entry(run):
        w = run.w = World(dict(tree))
        w.root = ctx.get(run, 'config', 'USER_BPE_DIR')
        run.opts = w.opts(call_hook=no_vocab)
        cls = ctx.get(run, 'pipeline.bperegistry', 'CustomBpeConfig')
        got['f'] = ctx.get(run, 'pipeline.to_repr', 'init_bpe_data')
        cfg = run.call(run.getattr(cls, 'from_id'), [C(f'ds-{n}')])
        run.call(got['f'], [base_prep_config(ctx, run, SPLIT='9'), cfg])
        d = run.call(ctx.get(run, 'pipeline.to_repr', 'get_global_bpe_data_if_available'), [])
        return both(run, d)

    what = f'{n} merges, existing results {list(ms)}'
    res = ctx.explore(what, entry, Opts(sepfree=sepfree, max_paths=30), note=False)
    judge(ctx, what, res, ms, n, got, True)
    if not any(m >= n for m in ms):
        return

    def vocab(run):
        w = World(dict(tree))
        w.root = ctx.get(run, 'config', 'USER_BPE_DIR')
        run.opts = w.opts()
        return run.call(ctx.get(run, 'pipeline.vocabloader', 'bpe'), [C('ds'), C(n)])
    res = ctx.explore(what + ': vocabulary', vocab, Opts(sepfree=sepfree, max_paths=30), note=False)
    for p in res.paths:
        at = p.ev('read')[-1] if p.ev('read') else got['f']
        if p.outcome == 'raise':
            ctx.check(n not in ms, at, f'{what}: the vocabulary is refused ({p.value!r})', p, key='vocabulary')
            continue
        words = [k for k in (0,) if isinstance(p.value, (HDict, HList, HSet))]
        ks = sorted(str(x.v) for x in leaves(p.run, p.value)) if words else None
        if ks is None:
            ctx.undecided(f'{what}: vocabulary {p.value!r}')
            continue
        ctx.check(f'word{n}' in ks and n in ms, at, f'{what}: the vocabulary is {ks}', p, key='vocabulary')

    def load(run):
        w = World(dict(tree))
        w.root = ctx.get(run, 'config', 'USER_BPE_DIR')
        run.opts = w.opts()
        got['f'] = ctx.get(run, 'pipeline.bperegistry', 'load_bpe_merges')
        return Tup([pairs_of(run, run.call(got['f'], [C('ds'), C(n)])), None])
    res = ctx.explore(what + ': merges', load, Opts(sepfree=sepfree, max_paths=30), note=False)
    judge(ctx, what, res, ms, n, got, False)


def leaves(run, v):
    out = []
    with quietly(run):
        run.iterate(v, lambda x: out.append(x))
    return [x for x in out if isinstance(x, C)]


def judge(ctx, what, res, ms, n, got, cache):
    if not res.paths:
        ctx.undecided(f'{what}: not evaluated')
    for p in res.paths:
        if p.outcome == 'raise':
            ctx.check(not any(m >= n for m in ms), got['f'], f'{what}: refused ({p.value!r})', p, key='refused')
            if not any(m >= n for m in ms) and p.value.name() != 'InvalidBpeCodesIdError':
                ctx.violation(got['f'], f'{what}: fails with {p.value.name()} instead of being refused', p, key='not refused')
            continue
        if p.outcome != 'return':
            ctx.undecided(f'{what}: {p.outcome}')
            continue
        have, keys = p.value.items
        at = next((e for e in reversed(p.events) if e.kind == 'read'), got['f'])
        good = [[(*pair(m, i), i) for i in range(n)] for m in ms if m >= n]
        ctx.check(have in good, at, f'{what}: the merges applied are {have}', p, key='merges')
        if not cache:
            continue
        if keys is None:
            ctx.undecided(f'{what}: cache not constant')
            continue
        ctx.check(all(k == f'cached{n}' and n in ms for k in keys), at, f'{what}: the cache has the entries {keys}', p, key='cache')


def learning(ctx, ms, n):
    """bpelearner.run with the learning of merges replaced by `asked` (or fewer) new merges."""
    for fewer in (0, 1):
        got = {}

        def new_merges(run, fn, args, kw, node):
            if isinstance(fn, Fn) and fn.cls is None and fn.name == 'do_merges':
                k = args[1] if len(args) > 1 else list(kw.values())[-1]
                if not isinstance(k, C):
                    return NotImplemented
                run.asked = k.v
                with quietly(run):
                    ml = run.call(ctx.get(run, 'bpepkg.merge', 'MergeList'), [])
                    M = ctx.get(run, 'bpepkg.merge', 'Merge')
                    for i in range(max(0, k.v - fewer)):
                        run.call(run.getattr(ml, 'append'), [run.call(M, [Tup([C(f'new{i}'), C('z')])], {'freq': C(5), 'priority': C(i)})])
                run.made = max(0, k.v - fewer)
                run.vocab_from = fz(args[0])
                return Tup([run.alloc(HDict([(C('a@'), C(1))], [])), ml])
            if isinstance(fn, Fn) and fn.cls is None and fn.name == 'run_until_base_bpe_vocab':
                run.from_scratch = True
                return NONE
            if isinstance(fn, Fn) and fn.cls is None and fn.name == 'load_nonbpe_vocab':
                return run.alloc(HSet([]))
            if isinstance(fn, Fn) and fn.cls is None and fn.name == '_load_vocab_dict':
                run.vocabs = getattr(run, 'vocabs', []) + [canon(args[0])]
                return run.alloc(HDict([(C('a @'), C(1))], []))
            return NotImplemented

        def entry(run):
            ds = mk_dataset(ctx, run, bpe=plain_bpe_config(ctx, run))
            w = run.w = World(tree_of(ms, ''), run.getattr(ds, 'bpe_path'))
            old = run.opts
            run.opts = w.opts(call_hook=hooks(new_merges, stamp_hook), exists_default=lambda r, k, p: False)
            got['f'] = ctx.get(run, 'pipeline.bpelearner', 'run')
            return run.call(got['f'], [ds, C(n), plain_bpe_config(ctx, run)])
        what = f'learning {n} merges, existing results {list(ms)}' + (', no more merges possible' if fewer else '')
        res = ctx.explore(what, entry, Opts(call_hook=stamp_hook, sepfree=sepfree, max_paths=60, exists_default=lambda r, k, p: True), note=False)
        done = max([m for m in ms if m <= n] or [0])
        if not res.paths:
            ctx.undecided(f'{what}: not evaluated')
        for p in res.paths:
            if p.outcome != 'return':
                if p.outcome == 'raise' and p.value.name() == 'FileNotFoundError':
                    at = next((e for e in reversed(p.events) if e.kind == 'read'), got['f'])
                    ctx.violation(at, f'{what}: a result that does not exist is read', p, key='missing')
                else:
                    ctx.undecided(f'{what}: {p.outcome} {p.value!r}')
                continue
            asked = getattr(p.run, 'asked', None)
            if asked is None:
                if done == n:
                    ctx.ok(got['f'])
                else:
                    ctx.violation(got['f'], f'{what}: nothing is learned', p, key='nothing')
                continue
            ctx.check(asked == n - done, got['f'], f'{what}: {asked} more merges are learned from the {done} existing ones', p, key='asked')
            vs = [v for v in getattr(p.run, 'vocabs', []) if v is not None]
            rels = [p.run.w.rel(p.run, v) for v in vs]
            from_res = [r for r in rels if r is not None]
            want = [f'{done}/bpe_vocab_reassembled.txt'] if done else []
            ctx.check(from_res == want and bool(getattr(p.run, 'from_scratch', False)) == (not done), got['f'],
                      f'{what}: continues with the vocabulary of {from_res or "the base"}', p, key='vocabulary')
            written(ctx, what, p, ms, done, got)


def written(ctx, what, p, ms, done, got):
    made = getattr(p.run, 'made', 0)
    total = done + made
    ren = [e for e in p.events if e.kind == 'rename' and p.run.w.rel(p.run, e.dst) is not None]
    lines = []
    at = got['f']
    for e in p.events:
        if e.kind == 'write' and e.path is not None:
            r = p.run.w.rel(p.run, e.path)
            if r is not None and r.endswith('/merges.txt'):
                at = e
                d = fz(e.data)
                lines.append(d.v if isinstance(d, C) else None)
    if total in ms:
        ctx.check(not ren and not lines, at, f'{what}: the existing result of {total} merges is written again', p, key='again')
        return
    if None in lines:
        ctx.undecided(f'{what}: written merges not constant')
        return
    have = [tuple(x.split(' ')[:2]) for x in ''.join(lines).splitlines()]
    want = [pair(done, i) for i in range(done)] + [(f'new{i}', 'z') for i in range(made)]
    ctx.check(have == want, at, f'{what}: the merges written are {have}, expected {want}', p, key='written')
    to = {p.run.w.rel(p.run, e.dst) for e in ren}
    if to:
        ctx.check(to == {str(total)}, ren[-1], f'{what}: {total} merges are saved as {sorted(to)}', p, key='saved as')
    else:
        ctx.undecided(f'{what}: no publishing seen')


def text(run, s, f, how):
    w = World({'x': s}, f.path)
    w.rel = lambda run, p: 'x'
    return w.read(run, f, how)


def predefined(ctx):
    for split, name in (('4', '5k'), ('5', '1k'), ('6', '10k'), ('8', '0')):
        for case in ('u', 'l'):
            got = {}

            def entry(run):
                cfg = base_prep_config(ctx, run, SPLIT=split, CASE=case)
                got['f'] = ctx.get(run, 'pipeline.to_repr', 'init_bpe_data')
                run.call(got['f'], [cfg, NONE])
                return both(run, run.call(ctx.get(run, 'pipeline.to_repr', 'get_global_bpe_data_if_available'), []))

            def read(run, f, how):
                p = canon(f.path)
                s = repr(p)
                if 'merges_cache.txt' in s:
                    run.rc = p
                    return text(run, 'cached\tca ched\n', f, how)
                if 'merges.txt' in s:
                    run.rm = p
                    return text(run, mtext(3), f, how)
                return NotImplemented
            what = f'predefined codes {name}, case {case}'
            res = ctx.explore(what, entry, Opts(read_hook=read, sepfree=sepfree, max_paths=20), note=False)
            for p in res.paths:
                if p.outcome != 'return':
                    if 'f' in got:
                        ctx.violation(got['f'], f'{what}: {p.value!r}', p, key='predefined')
                    continue        # the configuration is rejected
                cd = 'case' if case == 'u' else 'nocase'
                for which, path in (('merges', getattr(p.run, 'rm', None)), ('cache', getattr(p.run, 'rc', None))):
                    if path is None:
                        ctx.check(which == 'cache', got['f'], f'{what}: no merges are read', p, key='predefined')
                        continue
                    last = path.args[-1] if isinstance(path, T) and path.op == 'cat' else path
                    if not isinstance(last, C) or not isinstance(last.v, str):
                        ctx.undecided(f'{what}: {path!r}')
                        continue
                    parts = last.v.split('/')
                    ctx.check(parts[-3:-1] == [cd, name], got['f'], f'{what}: the {which} is read from {path!r}', p, key='predefined')
                ml = p.value.items[0]
                ctx.check(ml == [(*pair(3, i), i) for i in range(3)], got['f'], f'{what}: not all merges are used: {ml}', p, key='all')
