"""C44: the corpus functions run what was asked for and describe what they produced."""
import re
from .common import *

META = dict(
    technique='abstract interpretation of the corpus functions with the pipeline stages as recorded effects',
    level_note='All four corpus functions and preprocess_corpus, with and without vocabulary, caching and an output path; path, extensions and output path are any strings.',
    explanation='Each function is evaluated up to the pipeline stages. The dataset handed to the stages has to be built from the arguments, the stages have to include the vocabulary '
                'exactly if it was asked for, and the description returned has to refer to the preprocessed files, the vocabulary and the corpus size of that dataset.',
)
FUNS = {'nosplit': [{}, {'full_strings': TRUE}], 'chars': [{}], 'basic': [{}, {'split_numbers': TRUE}], 'bpe': [{}]}


def check(ctx):
    ctx.rule('the dataset handed to the stages has the path, extensions, output path and caching of the arguments')
    ctx.rule('the vocabulary is computed exactly if asked for, for the dataset that is preprocessed')
    ctx.rule('the description returned refers to the preprocessed files and the vocabulary of that dataset, and gives no vocabulary if none was asked for')
    ctx.rule('the corpus size is kept in the file of that dataset and counts its preprocessed files')
    for name, opts_ in FUNS.items():
        for kw in opts_:
            for vocab in (None, True, False):
                for suppress in (None, True, False):
                    for out in (None, 'given'):
                        for ext in (None, 'given'):
                            one(ctx, name, kw, vocab, suppress, out, ext)


def listing(run, it):
    out = []
    run.iterate(it, lambda x: out.append(re.sub(r'#\d+|:\d+', '', repr(fz(run.fspath(x) if not isinstance(x, (C, T)) else x)))))
    return out


def stage_hook(run, fn, args, kw, node):
    if isinstance(fn, Fn) and fn.cls is None and fn.mod.name == 'codeprep.pipeline.stages' and fn.name.startswith('run_'):
        ds = args[0] if args else kw.get('dataset')
        run.emit('stage', name=fn.name, dataset=ds)
        return NONE
    if isinstance(fn, Fn) and fn.cls is None and fn.name == '_load_vocab_dict':
        run.emit('vocabread', path=args[0] if args else list(kw.values())[0])
        return sym('VOCAB')
    return NotImplemented


def one(ctx, name, given, vocab, suppress, out, ext):
    P, O, X = sym('CORPUS', 'str'), sym('OUT', 'str'), sym('EXT', 'str')
    what = f'{name}({", ".join([k for k in given] + [f"calc_vocab={vocab}"] * (vocab is not None) + [f"suppress_caching={suppress}"] * (suppress is not None) + ["output_path"] * bool(out) + ["extensions"] * bool(ext))})'

    def entry(run):
        f = ctx.get(run, 'api.corpus', name)
        kw = dict(given)
        if vocab is not None:
            kw['calc_vocab'] = C(vocab)
        if suppress is not None:
            kw['suppress_caching'] = C(suppress)
        if out:
            run.assume(run.truthy(O), True)
            kw['output_path'] = O
        if ext:
            run.assume(run.truthy(X), True)
            kw['extensions'] = X
        args = [P] + ([C('1k')] if name == 'bpe' else [])
        r = run.call(f, args, kw)
        run.stages = p = [e for e in run.events if e.kind == 'stage']
        if not p:
            return r
        ds = p[-1].dataset
        g = lambda o, *names: g(run.getattr(o, names[0]), *names[1:]) if names else o
        run.info = {}
        for k, v in [('dataset', lambda: g(ds, 'preprocessed', 'path')), ('prep', lambda: g(r, 'path_to_prep_dataset')), ('vocab', lambda: g(r, 'path_to_vocab')),
                     ('vocabfile', lambda: g(ds, 'path_to_vocab_file')), ('original', lambda: g(ds, 'original', 'path')), ('suppress', lambda: g(ds, 'suppress_caching'))]:
            run.info[k] = v()
        # the same dataset, made from the arguments
        D = ctx.get(run, 'pipeline.dataset', 'Dataset')
        with quietly(run):
            ref = run.call(run.getattr(D, 'create'), [P, g(ds, 'prep_config'), X if ext else NONE, NONE],
                           {'overriden_path_to_prep_dataset': O if out else run.call(Ext('os.getcwd'), []), 'suppress_caching': C(bool(suppress))})
            run.ref = {'dataset': g(ref, 'preprocessed', 'path'), 'original': g(ref, 'original', 'path'), 'exts': g(ref, '_normalized_extension_list')}
        run.exts = g(ds, '_normalized_extension_list')
        n = len(run.events)
        run.loaded = None
        try:
            run.call(run.getattr(r, 'load_vocab'), [])
            run.loaded = [e.path for e in run.events[n:] if e.kind == 'vocabread']
        except PyExc as e:
            run.loaded = e.name()
        run.listed = {'': listing(run, run.call(run.getattr(r, 'get_file_iterator'), []))}
        run.again = listing(run, run.call(run.getattr(r, 'get_file_iterator'), []))
        for k in ('preprocessed', 'parsed', 'original'):
            run.listed[k] = listing(run, run.call(run.getattr(run.getattr(ds, k), 'file_iterator'), []))
        n = len(run.events)
        run.call(run.getattr(r, 'get_corpus_size'), [])
        run.size = [e for e in run.events[n:] if e.kind == 'open' and e.path is not None]
        run.sizefile = g(ds, 'path_to_prep_corpus_size_file')
        return r

    o = opts(stage_hook, max_paths=200, exists_default=lambda r, k, p: True)
    res = ctx.explore(what, entry, o, note=False)
    if res.errors or res.limits:
        ctx.undecided(f'{what}: {(list(res.errors) + list(res.limits))[0]}'[:300])
    fn = anchor(ctx, name)
    for p in res.paths:
        run = p.run
        if p.outcome == 'raise':
            if p.value.name() in ('AttributeError', 'TypeError', 'NameError', 'UnboundLocalError', 'KeyError', 'AssertionError'):
                ctx.violation(fn, f'{what}: fails with {p.value.name()}', p, key='raise')
            else:
                ctx.undecided(f'{what}: fails with {p.value.name()}')
            continue
        if p.outcome != 'return':
            continue
        want = 'run_until_vocab' if vocab else 'run_until_preprocessing'
        names = [e.name for e in run.stages]
        if not names:
            ctx.violation(fn, f'{what}: no stage is run', p, key='stage')
            continue
        if set(names) <= {'run_until_vocab', 'run_until_preprocessing', 'run_until_base_bpe_vocab', 'run_until_parsing'}:
            ctx.check(want in names and ('run_until_vocab' in names) == bool(vocab), fn, f'{what}: the stages run are {names}', p, key='stage')
        else:
            ctx.undecided(f'{what}: unknown stages {names}')
        i = {k: canon(v) if isinstance(v, (C, T)) else v for k, v in run.info.items()}
        for k, a, b in [('preprocessed path', i['prep'], i['dataset']), ('preprocessed path', i['dataset'], canon(run.ref['dataset'])),
                        ('dataset', i['original'], canon(run.ref['original'])), ('extensions', fz(run.exts), fz(run.ref['exts'])),
                        ('vocabulary', i['vocab'], i['vocabfile'] if vocab else NONE), ('suppress_caching', i['suppress'], C(bool(suppress)))]:
            ctx.check(a == b, fn, f'{what}: the {k} is {a!r} instead of {b!r}'[:400], p, key=k)
        if vocab:
            ctx.check(isinstance(run.loaded, list) and [canon(x) for x in run.loaded] == [i['vocabfile']], fn,
                      f'{what}: the vocabulary is loaded from {run.loaded!r} instead of {i["vocabfile"]!r}'[:300], p, key='load')
        else:
            ctx.check(run.loaded == 'ValueError', fn, f'{what}: loading the vocabulary that was not asked for gives {run.loaded!r}'[:300], p, key='noload')
        l = run.listed
        if l[''] and l[''] == l['preprocessed']:
            ctx.ok(fn)
            ctx.check(bool(run.again), fn, f'{what}: the files of the description can be listed only once', p, key='again')
        elif l[''] and l[''] in (l['parsed'], l['original']):
            ctx.violation(fn, f'{what}: the files of the description are not the preprocessed ones but {l[""][:2]}'[:400], p, key='files')
        elif l['']:
            ctx.undecided(f'{what}: the files of the description were not followed'[:200])
        sf = canon(run.sizefile)
        reads = [e for e in run.size if not e.writing]
        if reads:
            last = canon(reads[-1].path)
            ctx.check(last == sf, fn, f'{what}: the corpus size is read from {last!r} instead of {sf!r}'[:300], p, key='size')


def anchor(ctx, name):
    memo = ctx.__dict__.setdefault('anchors_', {})
    if name not in memo:
        def e(run):
            memo[name] = ctx.get(run, 'api.corpus', name)
            return NONE
        ctx.explore('anchor', e, note=False)
    return memo[name]
