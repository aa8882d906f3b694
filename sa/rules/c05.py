"""C05: vocabulary, non-BPE list and corpus size files are all-or-nothing."""
from .common import *

META = dict(
    technique='path-sensitive effect and typestate analysis of files published by renaming, with an error injected at every effect',
    level_note='All paths of calc_vocab (from scratch, resumed, merging), gather_non_bpe_vocab, get_corpus_size and the preprocessing stage; '
               'contents are opaque. Trusts the models of files, queues, pools and processes and that rename is atomic.',
    explanation='Each file whose mere existence later runs accept is followed through open, write, close and rename on every path, including '
                'paths on which any single effect raises an error; orders between the files of one result are checked on the same paths.',
)
KINDS = ('open', 'write', 'close', 'rename', 'work', 'remove', 'rmtree')


def check(ctx):
    ctx.rule('no final name of these files is opened for writing; a rename to a final name comes after the renamed file was written and closed '
             'without an error; the statistics get their final name before the vocabulary; the tokens of a file for the excluded list are stored '
             'and closed before the preprocessed file gets its final name; partial excluded lists are removed only after the list is published')
    vp = vocab_paths(ctx)
    for inject in (False, True):
        sfx = ' with injected errors' if inject else ''
        res = ctx.explore('calc_vocab: merging' + sfx, vocab_entry(ctx),
                          vocab_opts('merge', inject=inject, inject_kinds=('open', 'write', 'close', 'rename')), max_paths=6000)
        # only the final files
        publish_judge(ctx, res, lambda p, q: q == vp['vocab'], 'the vocabulary')
        publish_judge(ctx, res, lambda p, q: q == vp['size'], 'the vocabulary statistics')
        for p in res.paths:
            stats = None
            for e in p.events:
                if e.kind == 'rename' and canon(e.dst) == vp['size']:
                    stats = e
                if e.kind == 'rename' and canon(e.dst) == vp['vocab']:
                    ctx.check(stats is not None, e, 'the vocabulary gets its final name before its statistics are complete', p)
        gather(ctx, inject, sfx)
        size(ctx, inject, sfx)
        worker(ctx, inject, sfx)


def gather(ctx, inject, sfx):
    def entry(run):
        ds = mk_dataset(ctx, run, bpe=plain_bpe_config(ctx, run))
        run.final = canon(run.getattr(ds, 'path_to_nonbpe_vocab_file'))
        run.n0 = len(run.events)
        return run.call(ctx.get(run, 'pipeline.vocabloader', 'gather_non_bpe_vocab'), [ds])
    res = ctx.explore('gather_non_bpe_vocab' + sfx, entry, Opts(sepfree=sepfree, call_hook=stamp_hook, inject=inject, inject_kinds=KINDS, loop_zero=False))
    publish_judge(ctx, res, lambda p, q: q == p.run.final, 'the list of tokens excluded from BPE')
    for p in res.paths:
        if not hasattr(p.run, 'n0'):
            continue
        read, done = set(), False
        for e in p.events[p.run.n0:]:
            if e.kind in ('listdir', 'walk'):
                read.add(canon(e.path))
            if e.kind == 'rename' and canon(e.dst) == p.run.final:
                done = True
            if e.kind in ('rmtree', 'remove') and any(canon(e.path) == r or below(e.path, r) is not None for r in read):
                ctx.check(done, e, 'the stored excluded tokens are deleted before the complete list has been published', p)


def size(ctx, inject, sfx):
    def entry(run):
        ds = mk_dataset(ctx, run)
        P = ctx.get(run, 'api.corpus', 'PreprocessedCorpus')
        with quietly(run):
            pc = run.call(P, [run.getattr(ds, 'preprocessed'), NONE])
        run.final = canon(run.getattr(ds, 'path_to_prep_corpus_size_file'))
        run.n0 = len(run.events)
        return run.call(run.getattr(pc, 'get_corpus_size'), [])
    res = ctx.explore('get_corpus_size' + sfx, entry, opts(inject=inject, inject_kinds=KINDS, loop_zero=False))
    publish_judge(ctx, res, lambda p, q: q == p.run.final, 'the corpus size')
    for p in res.paths:
        if not hasattr(p.run, 'n0'):
            continue
        evs = p.events[p.run.n0:]
        pub = [e for e in evs if e.kind == 'rename' and canon(e.dst) == p.run.final]
        for e in pub:
            bad = [x for x in evs[:evs.index(e)] if x.inject or x.kind in ('errors_dropped', 'abandoned')]
            ctx.check(not bad, e, 'the corpus size is stored although counting was interrupted or its errors dropped', p)


def base_hook(run, fn, args, kw, node):
    if isinstance(fn, Fn) and fn.cls is not None and fn.name in ('is_bpe', 'is_base_bpe_config') and isinstance(args[0], T):
        return C(fn.name == 'is_base_bpe_config')
    return NotImplemented


def worker(ctx, inject, sfx):
    def entry(run):
        ds = mk_dataset(ctx, run, bpe=plain_bpe_config(ctx, run))
        run.ds = ds
        run.dirs = {k: canon(path_of(run, ds, k)) for k in ('original', 'parsed', 'preprocessed')}
        run.nonbpe = canon(run.getattr(ds, 'path_to_nonbpe_vocab_file'))
        run.n0 = len(run.events)
        return run.call(ctx.get(run, 'pipeline.to_repr', 'run'), [ds, NONE])

    def ex(run, kind, path):
        if hasattr(run, 'nonbpe'):
            q = canon(path)
            if q == run.nonbpe:
                return False
            return kind == 'exists' and q == run.dirs['parsed']
        return None
    o = opts(base_hook, bpe_hook, gather_hook, inject=inject, inject_kinds=KINDS, loop_zero=False, exists_default=ex)
    res = ctx.explore('to_repr' + sfx, entry, o)
    n = 0
    for p in res.paths:
        if not hasattr(p.run, 'n0'):
            continue
        evs = p.events[p.run.n0:]
        stored, openm = None, {}
        for e in evs:
            if e.kind == 'open' and e.writing:
                openm[canon(e.path)] = [e, False, False]
            if e.kind == 'write' and e.path is not None and canon(e.path) in openm and \
                    any(isinstance(x, T) and x.op == 'metadata_of' for x in subterms(fz(e.data))):
                openm[canon(e.path)][1] = True
            if e.kind == 'close' and e.path is not None and canon(e.path) in openm and not e.inject and e.exc in (False, None):
                openm[canon(e.path)][2] = True
            if e.kind == 'rename':
                if canon(e.src) in openm:
                    openm[canon(e.dst)] = openm.pop(canon(e.src))
                if e.loops and below(e.dst, p.run.dirs['preprocessed']) is not None:
                    n += 1
                    good = [q for q, v in openm.items() if v[1] and v[2] and below(q, p.run.dirs['preprocessed']) is None]
                    ctx.check(bool(good), e, 'a preprocessed file appears before the tokens it contributes to the list of tokens excluded '
                                             'from BPE have been stored', p)
                    for q in good:
                        if not (elems_in(e.dst) & elems_in(q)):
                            ctx.violation(openm[q][0], 'the stored excluded tokens of different files overwrite each other', p)
    if not n:
        ctx.open_obligation('no preprocessed file is published while excluded tokens are collected')
