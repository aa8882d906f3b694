"""C09: result locations depend on every input that affects the results."""
from .common import *

META = dict(
    technique='symbolic dependency analysis of location terms (every input must occur in an untruncated position) plus constant propagation over inputs that differ in one value',
    level_note='For all inputs: each input symbol occurs in the location term under injective operators only. Concretely: constants differing in '
               'one input (each parameter value of each configuration, long names, stamps differing in one digit, extension sets) give different '
               'constants. Ambiguity of the concatenation of names containing the separators is not decided.',
    explanation='The location of each kind of result is computed as a symbolic term from the symbols of all inputs, and as a constant for each of '
                'a family of constant inputs.',
)
SUB = dict(parsed='the parsed corpus', preprocessed='the preprocessed corpus')
BASE = ('name', 'stamp', 'exts')
FULL = BASE + ('prep', 'custom')
NEEDS = {
    'parsed': BASE, 'path_to_file_list_folder': BASE,
    'preprocessed': FULL, 'vocab_path': FULL, 'path_to_vocab_file': FULL, 'path_to_prep_corpus_size_file': FULL,
    'bpe_path': BASE + ('bpe',), 'base_bpe_vocab_path': BASE + ('bpeprep',), 'path_to_bpe_vocab_file': BASE + ('bpeprep',),
    'path_to_nonbpe_vocab_file': BASE + ('bpeprep',),
}
WHAT = {'parsed': 'parsed corpus', 'preprocessed': 'preprocessed corpus', 'path_to_file_list_folder': 'cached file list', 'vocab_path': 'vocabulary',
        'path_to_vocab_file': 'vocabulary', 'path_to_prep_corpus_size_file': 'cached corpus size', 'bpe_path': 'learned codes',
        'base_bpe_vocab_path': 'vocabulary for learning', 'path_to_bpe_vocab_file': 'vocabulary for learning',
        'path_to_nonbpe_vocab_file': 'list of tokens excluded from BPE'}
INPUT = dict(name='the name of the dataset', stamp='the modification stamp', exts='the extensions', prep='the preprocessing configuration',
             custom='the custom BPE codes', id='the id of the custom BPE codes', n='the number of merges', bpe='the BPE configuration',
             bpeprep='the BPE configuration')
INJECTIVE = ('cat', 'join', 'str', 'enc', 'dec', 'os.path.basename', 'list', 'sorted', 'set', 'spread', 'fmt', 'tup', 'rep', 'elem', 'mcall',
             'setof', 'sortedof', 'it', 'abspath', 'frozenset')
LOSSY = ('slice', 'charof', 'hash', 'len', 'int', 'bin', 'getitem', 'os.path.splitext', 'root', 'ext', 'lower', 'upper')


def locate(ctx, run, ds):
    run.loc = {}
    with quietly(run):
        for k in NEEDS:
            v = path_of(run, ds, k) if k in SUB else run.getattr(ds, k)
            run.loc[k] = canon(v)


def check(ctx):
    ctx.rule('each input a kind of result depends on occurs in the term of its location, not below a truncating operator; constant inputs that '
             'differ in one of these inputs give different locations; different kinds of results have different locations')
    symbolic(ctx)
    constant(ctx)


def occurrences(t, x, path=()):
    if t == x:
        yield path
        return
    if isinstance(t, T):
        for i, a in enumerate(t.args):
            if isinstance(a, (T, C, tuple)):
                for r in occurrences(a, x, path + ((t.op, t, i),)) if isinstance(a, (T, C)) else ():
                    yield r


def lossy(path):
    for op, t, i in path:
        if op == 'mcall':
            m = t.args[1]
            if str(m.v if isinstance(m, C) else m) in ('split', 'encode', 'decode', 'join', 'replace'):
                continue
            return True
        if op in LOSSY:
            return True
        if op == 'fmt' and any(isinstance(a, C) and '.' in str(a.v) for a in t.args[1:]):
            return True
    return False


def symbolic(ctx):
    DS, EX = sym('DATASET', 'str'), sym('exts', 'str')
    for over in (False, True):
        def entry(run, over=over):
            cu = typed(ctx, run, 'custom', 'pipeline.bperegistry', 'CustomBpeConfig')
            run.truth = (run.decide(EX, 'extensions given'), run.decide(cu, 'custom BPE codes given'))
            ds = mk_dataset(ctx, run, exts=EX, custom=cu if run.truth[1] else NONE, bpe=plain_bpe_config(ctx, run), overridden=sym('OVER', 'str') if over else NONE)
            run.cu, run.pc = cu, run.getattr(ds, 'prep_config')
            locate(ctx, run, ds)
            return NONE
        res = ctx.explore('locations' + (' with an output path' if over else ''), entry, opts())
        done = 0
        for p in res.paths:
            if not hasattr(p.run, 'loc'):
                continue
            have_e, have_c = p.run.truth
            for k, need in NEEDS.items():
                t = p.run.loc[k]
                for i in need:
                    xs = {'name': [T('os.path.basename', DS)], 'stamp': [T('stamp', DS)], 'exts': [EX] if have_e is not False else [],
                          'prep': [T('str', p.run.pc)],
                          'custom': [T('attr', p.run.cu, 'merge_list_id'), T('attr', p.run.cu, 'n_merges')] if have_c is not False else []}.get(i, [])
                    for j, x in enumerate(xs):
                        done += 1
                        site = f'codeprep/pipeline/dataset.py: {k} / {i}'
                        label = INPUT[i] if i != 'custom' else INPUT['id' if j == 0 else 'n']
                        ways = list(occurrences(t, x))
                        if not ways and i == 'name':
                            ways = list(occurrences(t, DS))
                            ways = [w for w in ways if not any(op == 'stamp' for op, _, _ in w)]
                        at = anchor(ctx, k)
                        if not ways:
                            alt = contains(t, x)
                            if alt or i == 'prep' and contains(t, p.run.pc):
                                ctx.undecided(f'{k}: {label} occurs in an unknown form')
                            else:
                                ctx.violation(at, f'the location of the {WHAT[k]} does not depend on {label}: results computed for another one are reused', p)
                        elif all(lossy(w) for w in ways):
                            ctx.violation(at, f'the location of the {WHAT[k]} depends only on a part of {label}', p)
                        else:
                            ctx.ok(site)
            kinds = {}
            for k in ('parsed', 'preprocessed', 'vocab_path', 'path_to_file_list_folder', 'path_to_prep_corpus_size_file', 'bpe_path'):
                o = kinds.setdefault(p.run.loc[k], k)
                ctx.check(o == k, anchor(ctx, k), f'the {WHAT[k]} and the {WHAT[o]} share one location', p)
        if not done:
            ctx.open_obligation('no location could be computed symbolically')


def anchor(ctx, k):
    return ('codeprep/pipeline/dataset.py', 0, 'Dataset.' + k)


PCBASE = dict(EN_ONLY='u', COM='c', STR='1', SPLIT='1', TABS_NEWLINES='s', CASE='u')


def constant(ctx):
    cases = {}
    base = dict(path='/data/project', stamp='20-01-02T03-04-05', exts='java|c', pc=dict(PCBASE), custom=('codes', 100), bpe=None)

    def add(inp, **kw):
        cases.setdefault(inp, []).append({**base, **kw})
    add('name', path='/data/project2')
    add('name', path='/data/' + 'x' * 120 + 'a')
    add('name', path='/data/' + 'x' * 120 + 'b')
    add('name', path='/data/Project')
    add('name', path='/data/project.git')
    for s in ('20-01-02T03-04-06', '20-01-02T03-05-05', '20-01-03T03-04-05', '20-02-02T03-04-05', '21-01-02T03-04-05', '20-01-02T04-04-05'):
        add('stamp', stamp=s)
    for x in ('java', 'c', 'java|c|py', 'java|C', None, 'java|cc', 'a|b|c|d|e|f|g|h|i|j|k', 'a|b|c|d|e|f|g|h|i|j|l', '|'.join('e%d' % i for i in range(40)),
              '|'.join('e%d' % i for i in range(39))):
        add('exts', exts=x)
    for k, vs in dict(EN_ONLY='U', COM='0', STR='0', SPLIT='23s', TABS_NEWLINES='0', CASE='l').items():
        for v in vs:
            add('prep', pc=dict(PCBASE, **{k: v}))
    for st in 'ABYZabyz29':
        add('prep', pc=dict(PCBASE, STR=st))
    add('id', custom=('codes2', 100))
    add('id', custom=('Codes', 100))
    add('id', custom=('x' * 120 + 'a', 100))
    add('id', custom=('x' * 120 + 'b', 100))
    add('id', custom=None)
    for n in (10, 1000, 101, 1001, 10000):
        add('n', custom=('codes', n))
    bb = dict(CASE='yes', WORD_END=False, BASE='all', UNICODE='yes')
    for w in (False, True):
        for u in ('yes', 'no', 'bytes'):
            add('bpe', bpe=dict(bb, WORD_END=w, UNICODE=u))
    add('bpeprep', bpe=dict(bb))
    add('bpeprep', bpe=dict(bb, UNICODE='no'))
    one = {}

    def loc(case):
        key = repr(case)
        if key not in one:
            def hook(run, fn, args, kw, node):
                if isinstance(fn, Fn) and fn.name == 'get_timestamp':
                    return C(case['stamp'])
                return NotImplemented

            def entry(run):
                K = ctx.get(run, 'pipeline.bperegistry', 'CustomBpeConfig')
                with quietly(run):
                    pc = mk_enum_config(ctx, run, 'prepconfig', 'PrepConfig', 'PrepParam', case['pc'])
                    cu = run.call(K, [C(case['custom'][0]), C(case['custom'][1]), C('codes'), C('cache')]) if case['custom'] else NONE
                    bpe = mk_enum_config(ctx, run, 'bpepkg.bpe_config', 'BpeConfig', 'BpeParam', case['bpe'] or bb)
                ds = mk_dataset(ctx, run, path=C(case['path']), pc=pc, exts=C(case['exts']), custom=cu, bpe=bpe)
                locate(ctx, run, ds)
                return NONE
            res = ctx.explore('constant inputs', entry, Opts(call_hook=hook, sepfree=sepfree), note=False)
            ls = [p.run.loc for p in res.paths if hasattr(p.run, 'loc')]
            one[key] = ls[0] if len(ls) == 1 else None
        return one[key]
    undecided = 0
    for k, need in NEEDS.items():
        names = [x for i in need for x in (('id', 'n') if i == 'custom' else (i,))]
        for i in names:
            group = ([base] if i not in ('bpe', 'bpeprep') else []) + cases[i]
            seen = {}
            for c in group:
                l = loc(c)
                if l is None:
                    undecided += 1
                    continue
                o = seen.setdefault(l[k], c)
                diff = [x for x in c if c[x] != o[x]]
                if diff and o is not c:
                    d = diff[0]
                    ctx.violation(anchor(ctx, k), f'the location of the {WHAT[k]} is the same for {short(o[d])} and {short(c[d])} ({INPUT[i]})', None)
                else:
                    ctx.ok(f'{k} / {i} (constants)')
    if undecided:
        ctx.undecided(f'{undecided} locations could not be computed as constants')


def short(v):
    s = repr(v)
    return s if len(s) < 60 else s[:20] + '..' + s[-20:]
