"""C16: what is written to disk is read back unchanged."""
from .world import *

META = dict(
    technique='symbolic evaluation of every writer followed by its readers over the same abstract file content (term algebra of escaping, splitting and joining), '
              'and constant propagation of tokens made of separators, escapes and line breaks',
    level_note='Tokens are unknown texts about which only the absence of blanks is assumed; a second evaluation uses constant tokens that contain all kinds of line breaks, '
               'separators, quotes, backslashes and non-ASCII text. File lists are evaluated with constant names.',
    explanation='For each format the content that the writer produces is kept as a term; the readers are evaluated on that term, split into lines and columns only where the '
                'separator provably does not occur in the unknown parts. What they return is compared with what was given to the writer.',
    assumptions=["the codec 'unicode-escape' is invertible and its output contains only printable ASCII", 'tokens contain no blank (C13, C23)'],
)
TOK = [f'W{i}' for i in range(6)]
NASTY = ['a\nb', 'c\td', '\\n', '\\', '\x85é\u2028日😀', '\r\x1c"\'%s{}@#,:;|=']
FREQ = (1234567, 89, 10, 3)


def toks(const):
    return [C(x) for x in NASTY] if const else [sym(x, 'str') for x in TOK]


def is_tok(t):
    return isinstance(t, T) and t.op == 'sym' and t.args[0] in TOK


def tokfree(run, t, sep):
    if is_tok(t):
        if sep == ' ':
            return True
        if isinstance(sep, str):
            run.__dict__.setdefault('unsafe', []).append((t, sep, len(run.events)))
            return False
    return sepfree(run, t, sep)


def known(run, t):
    """Different unknown tokens are not equal, and not empty."""
    if isinstance(t, T) and t.op == 'eq':
        a, b = t.args
        ta, tb = [{x for x in subterms(x) if is_tok(x)} if isinstance(x, T) else set() for x in (a, b)]
        if ta != tb:
            return False
    if isinstance(t, T) and t.op == 'truthy' and is_tok(t.args[0]):
        return True
    return None


def given(run, f, how):
    """What has been written, as lines."""
    t = written(run, f.path)
    if t is None:
        return NotImplemented
    if 'b' in str(getattr(f.mode, 'v', f.mode)) or f.kind != 'plain':
        return NotImplemented
    if isinstance(t, C) and isinstance(t.v, str):
        t = C(t.v.replace('\r\n', '\n').replace('\r', '\n'))
    if how == 'all':
        return t
    ls = run.splitcat(t, '\n', None)
    if ls is None:
        run.unsplit = (f.path, t)
        return NotImplemented
    ls = [cat(x, C('\n')) for x in ls[:-1]] + ([ls[-1]] if ls[-1] != C('') else [])
    if how == 'lines':
        return run.new_list(ls)
    if how == 'line':
        return ls[f.nread - 1] if f.nread <= len(ls) else C('')
    return NotImplemented


def ascii_file(run, f):
    t = written(run, f.path)
    return t is not None and all(isinstance(x, C) and isinstance(x.v, str) and x.v.isascii() or isinstance(x, T) and (x.op == 'lit' or x.op == 'str') for x in parts_of(t))


def produced(run, d, dirs=False):
    """Names of the files (directories) below d that have been written."""
    out = []
    for e in run.events:
        p = e.path if e.kind == 'open' and e.writing else e.dst if e.kind == 'rename' else None
        if p is None:
            continue
        r = below(p, d)
        if r is not None and e.kind == 'rename' and below(e.src, d) in out:
            out.remove(below(e.src, d))
        if r is not None and r not in out:
            out.append(r)
    return out


def listing(run, nm, args, kw, node):
    if nm == 'os.listdir' and args:
        r = produced(run, args[0])
        if r:
            return run.new_list([C(x) if isinstance(x, str) else x for x in r])
    if nm == 'platform.system':
        return C('Linux')
    return NotImplemented


def o(*hs, **kw):
    kw.setdefault('read_hook', given)
    kw.setdefault('exists_default', lambda r, k, p: False)
    return Opts(call_hook=hooks(*hs, stamp_hook), ascii_file=ascii_file, ext_hook=kw.pop('ext_hook', listing), sepfree=tokfree, decide_hook=known, nonempty=lambda run, t: is_tok(t),
                edgefree=lambda run, t, side, chars: is_tok(t) and chars is not None and set(chars) == {' '}, max_paths=60, **kw)


def value(run, v):
    """Plain Python data of terms."""
    if isinstance(v, (HDict, HSet, HList, Lazy)) or isinstance(v, XObj) and v.name in ('Counter', 'defaultdict'):
        if isinstance(v, HDict):
            if v.opaque:
                return ('opaque',)
            return {k: value(run, x) for k, x in v.pairs}
        out = []
        if isinstance(v, Lazy):
            run.iterate(v, lambda x: out.append(x))
        else:
            with quietly(run):
                run.iterate(v, lambda x: out.append(x))
        out = [value(run, x) for x in out]
        return frozenset(out) if isinstance(v, HSet) else tuple(out)
    if isinstance(v, Tup):
        return tuple(value(run, x) for x in v.items)
    return v


def terms_of(v):
    if isinstance(v, dict):
        for k, x in v.items():
            yield from terms_of(k)
            yield from terms_of(x)
    elif isinstance(v, (tuple, frozenset)):
        for x in v:
            yield from terms_of(x)
    else:
        yield v


def definite(v):
    """The value is made of tokens, constants and (un)escaping alone."""
    return all(isinstance(t, C) or isinstance(t, T) and all(not isinstance(x, T) or x.op in ('sym', 'cat', 'lit', 'unlit') for x in subterms(t)) and
               all(x.op != 'sym' or is_tok(x) for x in subterms(t) if isinstance(x, T)) for t in terms_of(v))


def text(v):
    if isinstance(v, dict):
        return '{' + ', '.join(f'{text(k)}: {text(x)}' for k, x in v.items()) + '}'
    if isinstance(v, (tuple, frozenset)):
        return '[' + ', '.join(sorted(map(text, v)) if isinstance(v, frozenset) else map(text, v)) + ']'
    return repr(v.v) if isinstance(v, C) else repr(v)


def judge(ctx, what, res, f):
    """Every path returns pairs (name, expected, actual)."""
    if not res.paths:
        ctx.undecided(f'{what}: not evaluated')
    for p in res.paths:
        rd = p.ev('read')
        at = rd[-1] if rd else f
        bad = [(t, s, n) for t, s, n in getattr(p.run, 'unsafe', []) if s in ('\n', '\t')]
        for t, s, n in bad[:1]:
            e = next((x for x in reversed(p.events[:n]) if x.kind in ('read', 'open')), at)
            ctx.violation(e, f'{what}: a token that contains {s!r} is stored as it is, but the content is split at {s!r}', p, key='separator')
        if bad:
            continue
        if p.outcome == 'raise':
            if p.value.name() in ('ValueError', 'IndexError', 'KeyError', 'UnicodeDecodeError', 'FileNotFoundError', 'TypeError') and p.value.name() not in getattr(p.run, 'expected', ()):
                ctx.violation(at, f'{what}: reading fails ({p.value!r})', p, key='fails')
            else:
                ctx.undecided(f'{what}: {p.value!r}')
            continue
        if p.outcome != 'return':
            ctx.undecided(f'{what}: {p.outcome}')
            continue
        for name, want, have in p.run.pairs:
            at = next((e for e in reversed(rd) if name.split()[-1] in repr(e.path)), at)
            if want == have:
                ctx.ok(at)
            elif definite(have) and definite(want):
                ctx.violation(at, f'{what}: {name}: {text(have)[:300]} is read, {text(want)[:300]} was to be stored', p, key=name)
            else:
                ctx.undecided(f'{what}: {name}: {text(have)[:200]}, expected {text(want)[:200]}')


def check(ctx):
    ctx.rule('what a reader returns for the content a writer produced equals what the writer was given, for all tokens without blanks')
    for const in (False, True):
        learned(ctx, const)
        excluded(ctx, const)
        corpus(ctx, const)
    names(ctx)


def learned(ctx, const):
    """Merges, cache, resulting vocabulary and split vocabulary of learned codes."""
    w = toks(const)
    what = 'learned codes' + (' (constants)' if const else '')
    sp = C(' ')
    vocab = {cat(w[0], sp, w[1]): C(FREQ[0]), w[2]: C(FREQ[1]), cat(w[3], sp, w[1], sp, w[4]): C(FREQ[2])}
    merges = [(w[0], w[1], FREQ[0]), (w[3], w[4], FREQ[2]), (w[5], w[2], FREQ[3])]
    got = {}

    def learn(run, fn, args, kw, node):
        if not isinstance(fn, Fn) or fn.cls is not None:
            return NotImplemented
        if fn.name == 'do_merges':
            n = len(run.asked)
            run.asked.append(value(run, args[0]))
            with quietly(run):
                ml = run.call(ctx.get(run, 'bpepkg.merge', 'MergeList'), [])
                M = ctx.get(run, 'bpepkg.merge', 'Merge')
                for i, (a, b, f) in enumerate(merges if n == 0 else []):
                    run.call(run.getattr(ml, 'append'), [run.call(M, [Tup([a, b])], {'freq': C(f), 'priority': C(i)})])
            return Tup([run.alloc(HDict(list(vocab.items()), [])), ml])
        if fn.name == 'get_base_vocab' and fn.mod.name.endswith('bpelearner'):
            return Tup([run.alloc(HDict([], [])), run.alloc(HDict([], []))])
        if fn.name == 'load_nonbpe_vocab':
            return run.alloc(HSet([]))
        if fn.name == 'nonbpe' and fn.mod.name.endswith('vocabloader'):
            return run.alloc(HSet([]))
        if fn.name == 'get_bpe_dir' and fn.mod.name.endswith('bperegistry'):
            return run.outdir
        if fn.name == 'get_max_merges' and fn.mod.name.endswith('bperegistry'):
            return C(3) if run.asked else NONE
        return NotImplemented

    def entry(run):
        run.asked = []
        ds = mk_dataset(ctx, run, bpe=plain_bpe_config(ctx, run))
        got['f'] = f = ctx.get(run, 'pipeline.bpelearner', 'run')
        run.call(f, [ds, C(3), plain_bpe_config(ctx, run)])
        run.pairs = []
        ren = [e for e in run.events if e.kind == 'rename']
        if not ren:
            raise EndPath('nothing published')
        run.outdir = ren[-1].dst
        file = {}
        for e in run.events:
            if e.kind == 'open' and e.writing:
                n = e.path.args[-1] if isinstance(e.path, T) and e.path.op == 'cat' else e.path
                if isinstance(n, C):
                    file[n.v.rsplit('/', 1)[-1]] = 1
        reg = 'pipeline.bperegistry'
        mf, cf = (run.pathjoin(run.outdir, ctx.get(run, reg, n)) for n in ('MERGES_FILE_NAME', 'MERGES_CACHE_FILE_NAME'))
        for n, cache in ((0, cf), (2, NONE)):
            cfg = run.call(ctx.get(run, reg, 'CustomBpeConfig'), [C('id'), C(n), mf, cache])
            run.call(ctx.get(run, 'pipeline.to_repr', 'init_bpe_data'), [base_prep_config(ctx, run, SPLIT='9'), cfg])
            d = run.call(ctx.get(run, 'pipeline.to_repr', 'get_global_bpe_data_if_available'), [])
            ms = []
            with quietly(run):
                run.iterate(run.getattr(d, 'merges'), lambda m: ms.append(tuple(value(run, run.getattr(m, x)) for x in ('pair', 'freq', 'priority'))))
            k = n or len(merges)
            run.pairs.append(('the merges', tuple(((a, b), C(f), C(i)) for i, (a, b, f) in enumerate(merges[:k])), tuple(ms)))
            if n == 0:
                run.pairs.append(('the cached splits merges_cache', {cat(w[0], w[1]): (w[0], w[1]), w[2]: (w[2],), cat(w[3], w[1], w[4]): (w[3], w[1], w[4])},
                                  value(run, run.getattr(d, 'merges_cache'))))
        v = run.call(ctx.get(run, 'pipeline.vocabloader', 'bpe'), [C('id'), C(3)])
        run.pairs.append(('the vocabulary vocab_res', {w[0]: C(FREQ[0]), w[1]: C(FREQ[0] + FREQ[2]), w[2]: C(FREQ[1]), w[3]: C(FREQ[2]), w[4]: C(FREQ[2])}, value(run, v)))
        run.call(f, [ds, C(4), plain_bpe_config(ctx, run)])
        run.pairs.append(('the words split so far reassembled', dict(vocab), run.asked[1] if len(run.asked) > 1 else ()))
        return NONE
    res = ctx.explore(what, entry, o(learn))
    judge(ctx, what, res, got.get('f'))


def given_tokens(ctx, w):
    def h(run, fn, args, kw, node):
        if isinstance(fn, Fn) and fn.name == 'to_repr' and fn.cls is None and fn.mod.name.startswith('codeprep.pipeline'):
            with quietly(run):
                md = run.call(ctx.get(run, 'preprocess.metadata', 'PreprocessingMetadata'), [],
                              {'nonprocessable_tokens': run.alloc(HSet([('e', w[4]), ('e', w[5])]))})
            return Tup([run.new_list([w[0], w[4], w[1], w[0], w[5], w[2]]), md])
        return NotImplemented
    return h


def one_file(run, f, how):
    if how == 'load':
        return run.new_list([])
    return given(run, f, how)


def excluded(ctx, const):
    w = toks(const)
    what = 'tokens excluded from BPE' + (' (constants)' if const else '')
    got = {}

    def resolve(run, fn, args, kw, node):
        if isinstance(fn, Fn) and fn.cls is None:
            if fn.name == 'get_base_vocab_dir':
                return run.basedir
            if fn.name == 'run_until_base_bpe_vocab':
                return NONE
            if fn.name == '_load_vocab_dict':
                return run.alloc(HDict([(x, C(1)) for x in w], []))
            if fn.name == 'separate_vocabs':
                run.excl = value(run, args[1] if len(args) > 1 else list(kw.values())[-1])
                return NotImplemented
        return NotImplemented

    def entry(run):
        ds = mk_dataset(ctx, run, bpe=plain_bpe_config(ctx, run))
        final = run.getattr(ds, 'path_to_nonbpe_vocab_file')
        part = cat(canon(final), C('_part'))
        work = ctx.get(run, 'pipeline.to_repr', 'preprocess_and_write')
        run.call(work, [Tup([sym('SRC', 'bytes'), encode(cat(path_of(run, ds, 'preprocessed'), C('/a.prep'))), run.getattr(ds, 'prep_config'), part])])
        got['f'] = f = ctx.get(run, 'pipeline.vocabloader', 'gather_non_bpe_vocab')
        run.call(f, [ds])
        run.pairs = []
        ph = value(run, ctx.get(run, 'preprocess.placeholders', 'placeholders'))
        want = frozenset([w[4], w[5], *ph.values()])
        base, other = run.call(ctx.get(run, 'pipeline.bpelearner', 'get_base_vocab'), [ds]).items
        if hasattr(run, 'excl'):
            run.pairs.append(('read when learning codes', want, run.excl))
        run.pairs.append(('left for learning', {x: C(1) for x in w[:4]}, value(run, base)))
        run.pairs.append(('kept out of learning', {x: C(1) for x in w[4:]}, value(run, other)))
        run.basedir = strip_name(canon(final))
        v = run.call(ctx.get(run, 'pipeline.vocabloader', 'nonbpe'), [C('id')])
        run.pairs.append(('read when using codes', want, value(run, v)))
        return NONE
    res = ctx.explore(what, entry, o(resolve, given_tokens(ctx, w), read_hook=one_file))
    judge(ctx, what, res, got.get('f'))


def strip_name(p):
    ps = list(p.args) if isinstance(p, T) and p.op == 'cat' else [p]
    if isinstance(ps[-1], C):
        ps[-1] = C(ps[-1].v.rsplit('/', 1)[0])
    return cat(*ps)


def corpus(ctx, const):
    """Preprocessed files, vocabulary and corpus size."""
    w = toks(const)
    what = 'a preprocessed corpus' + (' (constants)' if const else '')
    got = {}
    names_ = ('a.prep', 'b.prep')

    def entry(run):
        ds = mk_dataset(ctx, run)
        pre = path_of(run, ds, 'preprocessed')
        files = [encode(cat(pre, C('/' + n))) for n in names_]
        got['f'] = work = ctx.get(run, 'pipeline.to_repr', 'preprocess_and_write')
        for x in files:
            run.call(work, [Tup([sym('SRC', 'bytes'), x, run.getattr(ds, 'prep_config'), NONE])])
        pv = run.call(ctx.get(run, 'pipeline.vocab', 'create_and_dump_partial_vocab'), [Tup([run.new_list(list(files)), C('/dump'), C(0)])])
        out = cat(C('/out/'), C('vocab'))
        run.call(run.getattr(pv, 'write_vocab'), [out])
        run.files_ = files
        pc = run.call(ctx.get(run, 'api.corpus', 'PreprocessedCorpus'), [run.getattr(ds, 'preprocessed'), out])
        v = run.call(run.getattr(pc, 'load_vocab'), [])
        run.pairs = [('the vocabulary vocab', {w[0]: C(4), w[4]: C(2), w[1]: C(2), w[5]: C(2), w[2]: C(2)}, value(run, v))]
        for t in ('first', 'second'):
            n = run.call(run.getattr(pc, 'get_corpus_size'), [])
            run.pairs.append((f'the size ({t} time) corpus_size', C(12), n))
        return NONE

    def files_of(run, fn, args, kw, node):
        if isinstance(fn, Fn) and fn.name == 'file_iterator' and hasattr(run, 'files_'):
            return run.new_list(list(run.files_))
        return NotImplemented
    n0 = lambda r, k, p: True if k != 'isdir' and any(e.kind == 'rename' and canon(e.dst) == canon(p) for e in r.events) else False
    res = ctx.explore(what, entry, o(files_of, given_tokens(ctx, w), read_hook=one_file, exists_default=n0))
    judge(ctx, what, res, got.get('f'))


def names(ctx):
    """Cached file lists."""
    from .c22 import TREES, ROOT
    for name, tree in TREES.items():
        if tree is None:
            continue
        for dirs in (False, True):
            got = {}
            what = f'file list, {name}'

            def entry(run):
                w = World(dict(tree), C(ROOT))
                run.opts = w.opts(call_hook=stamp_hook, read_hook=read_back, max_steps=2000000,
                                  exists_default=lambda r, k, p: any(e.kind == 'open' and e.writing and canon(e.path) == canon(p) for e in r.events))
                ds = mk_dataset(ctx, run, path=C(ROOT))
                got['f'] = g = run.getattr(ds, 'get_all_files')
                a = value(run, run.call(g, [], {'return_dirs_instead_of_regular_files': C(dirs)}))
                n = len(run.events)
                b = value(run, run.call(g, [], {'return_dirs_instead_of_regular_files': C(dirs)}))
                if any(e.kind == 'walk' for e in run.events[n:]):
                    raise EndPath('listed again')
                run.pairs = [('the list', a, b)]
                return NONE
            res = ctx.explore(what, entry, Opts(sepfree=sepfree, max_steps=2000000, max_paths=10), note=False)
            judge(ctx, what, res, got.get('f'))
