"""Set-ups shared by the rules."""
import fnmatch
from ..rulekit import *

WRITE_KINDS = ('write', 'open', 'rename', 'remove', 'rmtree', 'mkdir', 'copy')


class quietly:
    """Set-up code: existence queries have a fixed answer, and its events are dropped."""

    def __init__(self, run, answer=True, keep=False):
        self.run, self.answer, self.keep = run, answer, keep

    def __enter__(self):
        self.n = len(self.run.events)
        self.old = self.run.opts.exists_default
        a = self.answer
        self.run.opts.exists_default = lambda run, k, p: a
        return self

    def __exit__(self, *a):
        self.run.opts.exists_default = self.old
        self.run.setup_events = self.run.events[self.n:]
        return False


def typed(ctx, run, name, mod, cls, ty=None):
    v = sym(name, ty)
    run.tclass[v] = ctx.get(run, mod, cls)
    return v


def prep_config(ctx, run, name='prep_config'):
    return typed(ctx, run, name, 'prepconfig', 'PrepConfig')


def mk_dataset(ctx, run, path=None, pc=None, exts=NONE, custom=NONE, bpe=NONE, overridden=NONE, suppress=FALSE):
    D = ctx.get(run, 'pipeline.dataset', 'Dataset')
    path = path if path is not None else sym('DATASET', 'str')
    pc = pc if pc is not None else prep_config(ctx, run)
    with quietly(run):
        return run.call(run.getattr(D, 'create'), [path, pc, exts, custom],
                        {'bpe_config': bpe, 'overriden_path_to_prep_dataset': overridden, 'suppress_caching': suppress})


def path_of(run, ds, what):
    return run.getattr(run.getattr(ds, what), 'path')


def stamp_hook(run, fn, args, kw, node):
    """The modification stamp of a path as one symbol (property C32 looks inside)."""
    if isinstance(fn, Fn) and fn.name == 'get_timestamp' and len(args) + len(kw) == 1:
        p = canon((args or list(kw.values()))[0])
        run.emit('stat', path=p, name='stamp')
        t = T('stamp', p)
        SYMTY[t] = 'str'
        return t
    return NotImplemented


def hooks(*hs):
    def h(run, fn, args, kw, node):
        for x in hs:
            r = x(run, fn, args, kw, node)
            if r is not NotImplemented:
                return r
        return NotImplemented
    return h


def parse_hook(run, fn, args, kw, node):
    """Lexing of a file as one opaque list of tokens."""
    if isinstance(fn, Fn) and fn.name == 'convert_text' and fn.cls is None:
        a = list(args) + [v for _, v in sorted(kw.items())]
        run.emit('work', eff=True, what='convert_text')
        t = T('parsed', *[fz(x) for x in a])
        return run.alloc(HList([('s', t)]))
    return NotImplemented


def repr_hook(run, fn, args, kw, node):
    """The conversion of parsed tokens as one opaque list of strings, plus metadata."""
    if isinstance(fn, Fn) and fn.name == 'to_repr' and fn.cls is None and fn.mod.name.startswith('codeprep.pipeline'):
        a = [fz(x) for x in args] + [fz(v) for _, v in sorted(kw.items())]
        run.emit('work', eff=True, what='to_repr')
        r = T('represented', *a)
        md = T('metadata_of', r)
        for m in run.prog.modobjs.values():
            if m.name == 'codeprep.preprocess.metadata':
                try:
                    run.tclass[md] = run.global_get(m, 'PreprocessingMetadata')
                except PyExc:
                    pass
        return Tup([run.alloc(HList([('s', r)])), md])
    return NotImplemented


def files_hook(run, fn, args, kw, node):
    """The file list of a dataset as one opaque sequence (property C31 looks inside)."""
    if isinstance(fn, Fn) and fn.name == 'get_all_files' and fn.cls is not None:
        rest = [fz(x) for x in args[1:]] + [T('kw', k, fz(v)) for k, v in sorted(kw.items())]
        run.emit('filelist', of=args[0])
        t = T('allfiles', *rest)
        SYMTY[T('elem', t)] = 'bytes'
        return t
    return NotImplemented


def read_hook_fn(run, fn, args, kw, node):
    """Reading and decoding one source file (property C25 looks inside)."""
    if isinstance(fn, Fn) and fn.name == 'read_file_contents' and len(args) + len(kw) == 1:
        p = canon((args or list(kw.values()))[0])
        run.maybe_raise('FileNotFoundError', node)
        run.emit('read', eff=True, path=p, file=None, how='source')
        l = T('sourcelines', p)
        return Tup([l, (args or list(kw.values()))[0]])
    return NotImplemented


PIPE = hooks(stamp_hook, parse_hook, repr_hook, files_hook, read_hook_fn)


def sepfree(run, t, sep):
    if sep in ('/', b'/'):
        while isinstance(t, T) and t.op in ('enc', 'dec'):
            t = t.args[0]
        return isinstance(t, T) and (t.op in ('stamp', 'os.path.basename') or t.op == 'sym' and SYMTY.get(('nosep', t.args[0])))
    return None


def opts(*extra, **kw):
    return Opts(call_hook=hooks(*extra, stamp_hook, parse_hook, repr_hook, files_hook, read_hook_fn), sepfree=sepfree, **kw)


def below(path, root):
    """The part of path below root, or None."""
    return strip_prefix(canon(path), cat(canon(root), C('/')))


def elems_in(v):
    return {x for x in subterms(v) if isinstance(x, T) and x.op == 'elem'}


STAGES = (('parse', 'pipeline.parse_projects', 'parsed', 1), ('to_repr', 'pipeline.to_repr', 'preprocessed', 2))


def stage_entry(ctx, mod, nargs, **dskw):
    def entry(run):
        ds = mk_dataset(ctx, run, **dskw)
        run.ds = ds
        run.n0 = len(run.events)
        f = ctx.get(run, mod, 'run')
        run.dirs = {k: canon(path_of(run, ds, k)) for k in ('original', 'parsed', 'preprocessed')}
        return run.call(f, [ds, NONE][:nargs], {})
    return entry


def bpe_hook(run, fn, args, kw, node):
    """Loading BPE data (properties C10, C27 and C34 look inside)."""
    if isinstance(fn, Fn) and fn.name == 'init_bpe_data' and fn.cls is None:
        run.emit('initbpe', args=list(args), kw=dict(kw))
        return NONE
    return NotImplemented


def gather_hook(run, fn, args, kw, node):
    """Gathering the non-BPE vocabulary (property C05 looks inside)."""
    if isinstance(fn, Fn) and fn.name == 'gather_non_bpe_vocab' and fn.cls is None:
        run.emit('gather', args=list(args), kw=dict(kw))
        return NONE
    return NotImplemented


def config_hook(run, fn, args, kw, node):
    """Questions to a symbolic preprocessing configuration as single facts."""
    if isinstance(fn, Fn) and fn.cls is not None and fn.name in ('is_bpe', 'is_base_bpe_config') and isinstance(args[0], T):
        return T('truthy', T('pcfact', C(fn.name), args[0]))
    return NotImplemented


def nothing_else_cached(what):
    """Only existence queries below the results of this stage are open; nothing else is there yet."""
    def f(run, kind, path):
        d = getattr(run, 'dirs', None)
        if d is None:
            return None
        if below(path, d[what]) is not None:
            return None
        if kind == 'isfile':
            return False
        return kind == 'exists' and canon(path) in (d['parsed'],) or False
    return f


def opaque_fn(*names):
    """Calls of these functions give one opaque value that depends on the arguments only."""
    names = set(names)

    def h(run, fn, args, kw, node):
        if isinstance(fn, Fn) and fn.cls is None and fn.name in names:
            run.emit('work', eff=True, what=fn.name)
            return T('result_of', C(fn.name), *[fz(a) for a in args], *[T('kw', k, fz(v)) for k, v in sorted(kw.items())])
        return NotImplemented
    return h


def learn_hook(run, fn, args, kw, node):
    """The merge learning loop: a vocabulary and a merge list (properties C36 and C37 are about its content)."""
    if isinstance(fn, Fn) and fn.cls is None and fn.name == 'do_merges':
        run.emit('work', eff=True, what='do_merges')
        ml = T('learned', *[fz(a) for a in args])
        m = run.prog.modobjs.get('codeprep.bpepkg.merge')
        if m is not None:
            run.tclass[ml] = run.global_get(m, 'MergeList')
        return Tup([run.alloc(HDict([], [T('learned_vocab', *[fz(a) for a in args])])), ml])
    if isinstance(fn, Fn) and fn.cls is None and fn.name == 'run_until_base_bpe_vocab':
        run.emit('stage', name='base_bpe_vocab')
        return NONE
    if isinstance(fn, Fn) and fn.cls is None and fn.name == '_load_vocab_dict':
        run.emit('read', eff=True, path=args[0], file=None, how='vocab')
        return run.alloc(HDict([], [T('vocab_in', canon(args[0]))]))
    if isinstance(fn, Fn) and fn.cls is None and fn.name == 'separate_vocabs':
        return Tup([run.alloc(HDict([], [T('part_of_vocab', C(i), *[fz(a) for a in args])])) for i in (0, 1)])
    if isinstance(fn, Fn) and fn.cls is None and fn.name in ('create_resulting_vocab', 'create_bpe_cache'):
        run.emit('work', eff=True, what=fn.name)
        return run.alloc(HDict([], [T('result_of', C(fn.name), *[fz(a) for a in args])]))
    return NotImplemented


def mk_enum_config(ctx, run, mod, cls, enum, values):
    """A configuration object with known parameter values, built by its own constructor."""
    K = ctx.get(run, mod, cls)
    E = ctx.get(run, mod, enum)
    d = run.alloc(HDict([(run.getattr(E, k), C(v)) for k, v in values.items()]))
    return run.call(K, [d])


def plain_bpe_config(ctx, run, **kw):
    v = dict(CASE='yes', WORD_END=False, BASE='all', UNICODE='yes')
    v.update(kw)
    with quietly(run):
        return mk_enum_config(ctx, run, 'bpepkg.bpe_config', 'BpeConfig', 'BpeParam', v)


def base_prep_config(ctx, run, **kw):
    v = dict(EN_ONLY='u', COM='0', STR='E', SPLIT='F', TABS_NEWLINES='s', CASE='u')
    v.update(kw)
    with quietly(run):
        return mk_enum_config(ctx, run, 'prepconfig', 'PrepConfig', 'PrepParam', v)


# ---------------------------------------------------------------- vocabulary calculation
def is_process_class(run, k):
    return isinstance(k, Cls) and any('Process' in str(getattr(b, 'name', '')) for b in run.mro(k))


def skip_mergers(run, fn, args, kw, node):
    """What a merging process does, left out."""
    if isinstance(fn, Fn) and fn.name == 'run' and fn.cls is not None and is_process_class(run, fn.cls):
        run.emit('stage', name='merger')
        return NONE
    return NotImplemented


def no_unfinished(run, nm, args, kw, node):
    if nm == 'platform.system' and run.opts.inject:
        return C('Linux')
    if nm.endswith(('.dump', '.dumps')) and args:
        with quietly(run):
            try:
                i = run.getattr(args[0], 'id')
            except PyExc:
                i = None
        run.dumped = getattr(run, 'dumped', []) + [(len(run.events), args[0], i)]
    if nm.startswith('fnmatch.') or nm == 'fnmatch':            # only finished partial results are there
        pat = canon(args[1]) if len(args) > 1 else None
        return C(not isinstance(pat, C) or fnmatch.fnmatch('12345.partvocab', pat.v))
    return NotImplemented


OUT = sym('OUT', 'str')
PARTS = cat(OUT, C('/part_vocab'))


def vocab_entry(ctx):
    def entry(run):
        run.n0 = len(run.events)
        return run.call(ctx.get(run, 'pipeline.vocab', 'calc_vocab'), [sym('PREP', 'str'), sym('files'), OUT])
    return entry


def vocab_paths(ctx):
    """The paths the vocabulary calculation takes for its results: those it asks for before anything else."""
    return dict(vocab=cat(OUT, C('/vocab')), size=cat(OUT, C('/vocabsize')))


def idfree(run, t, sep):
    """Ids of partial vocabularies are made of digits."""
    if sep in ('/', '.', '_'):
        x = t.args[0] if isinstance(t, T) and t.op == 'str' else t
        if isinstance(x, T) and (x.op == 'attr' and x.args[1] == 'id' or x.op == 'nondet'):
            return True
        if isinstance(x, T) and x.op == 'join' and x.args[0] in (C(''), ''):
            return True
    return sepfree(run, t, sep)


def vocab_opts(what, **kw):
    """what: scratch (nothing computed before), load (partial results exist), merge (the merging processes)."""
    final = vocab_paths(None)['vocab']

    def ex(run, kind, p):
        q = canon(p)
        if below(q, OUT) is not None and q not in (final, cat(OUT, C('/vocabsize'))) and not elems_in(q) and kind in ('exists', 'isfile'):
            if q == cat(OUT, C('/part_vocab')):
                return None if what == 'scratch' else True
            if below(q, PARTS) is not None and isinstance(below(q, PARTS), C):
                return what != 'scratch'
        if q == final and what != 'merge':
            return False
        if what == 'merge' and q in (final, cat(OUT, C('/vocabsize'))) and not run.events_since('procstart'):
            return False
        return None
    kw.setdefault('sepfree', idfree)
    kw.setdefault('loop_zero', False)
    kw.setdefault('exists_default', ex)
    o = Opts(**kw)
    if what != 'merge':
        o.call_hook = skip_mergers
    if what != 'load':
        o.ext_hook = no_unfinished
    return o


def publish_judge(ctx, res, targets, what, err_ok=False, require=True):
    """Typestate of files published by renaming: targets(p, path) names the final files."""
    n = 0
    for p in res.paths:
        if not hasattr(p.run, 'n0'):
            continue
        state, err = {}, None
        for e in p.events[p.run.n0:]:
            if e.inject:
                err = e
            if e.kind == 'open' and e.writing:
                q = canon(e.path)
                if targets(p, q):
                    n += 1
                    ctx.violation(e, f'{what} is opened for writing under its final name: later runs accept it although it may be incomplete', p)
                state[q] = dict(closed=False, bad=False, written=False, renamed=False)
            elif e.kind == 'write' and e.path is not None and canon(e.path) in state:
                s = state[canon(e.path)]
                s['written'] = True
                if s['renamed']:
                    ctx.violation(e, f'{what}: content is written after the file got its final name', p)
            elif e.kind == 'close' and e.path is not None and canon(e.path) in state:
                s = state[canon(e.path)]
                if s['renamed']:
                    ctx.violation(e, f'{what}: the file is closed only after it got its final name', p)
                s['closed'] = True
                s['bad'] = s['bad'] or e.exc not in (False, None)
            if e.inject:
                for s in state.values():
                    if not s['closed'] or e.kind == 'close':
                        s['bad'] = True
            if e.kind == 'copy' and e.get('dst') is not None and targets(p, canon(e.dst)):
                n += 1
                ctx.violation(e, f'{what} is copied to its final name, which is not atomic', p)
            if e.kind == 'rename' and targets(p, canon(e.dst)):
                n += 1
                s = state.get(canon(e.src))
                if s is None:
                    ctx.violation(e, f'{what}: a file not written in this run gets its final name', p)
                elif not s['closed']:
                    ctx.violation(e, f'{what}: the file gets its final name while it is still open', p)
                elif s['bad']:
                    ctx.violation(e, f'{what}: the file gets its final name although an error interrupted writing it', p)
                elif not s['written'] and not p.run.opts.loop_zero:
                    ctx.violation(e, f'{what}: the file gets its final name although nothing was written into it', p)
                else:
                    ctx.ok(e.where())
                if s is not None:
                    s['renamed'] = True
    if not n and require:
        ctx.open_obligation(f'{what}: not published on any path')
    return n


# ---------------------------------------------------------------- everything that touches files
MUTATORS = ('os.utime', 'os.chmod', 'os.chown', 'os.lchown', 'os.truncate', 'os.symlink', 'os.link', 'os.mkfifo', 'os.mknod', 'os.removedirs',
            'os.renames', 'shutil.copymode', 'shutil.copystat', 'shutil.chown', 'os.setxattr', 'os.removexattr')


def drain(run, it):
    run.iterate(it, lambda x: NONE)
    return NONE


def flows(ctx, only=None, tune=None, max_paths=6000):
    """The explorations that together reach every effect on files, as (name, result)."""
    DS = sym('DATASET', 'str')

    def dirs(run, ds):
        run.dirs = {k: canon(path_of(run, ds, k)) for k in ('original', 'parsed', 'preprocessed')}
        run.ds = ds
        run.n0 = len(run.events)

    def create(run):
        run.n0 = len(run.events)
        D = ctx.get(run, 'pipeline.dataset', 'Dataset')
        return run.call(run.getattr(D, 'create'), [DS, prep_config(ctx, run), NONE, NONE], {'bpe_config': plain_bpe_config(ctx, run)})

    def listing(which):
        def f(run):
            ds = mk_dataset(ctx, run)
            dirs(run, ds)
            return drain(run, run.call(run.getattr(ds, 'get_all_files'), [C(which)]))
        return f

    def stamp(run):
        run.n0 = len(run.events)
        return run.call(ctx.get(run, 'dirutils', 'get_timestamp'), [DS])

    def walk(run):
        run.n0 = len(run.events)
        return drain(run, run.call(ctx.get(run, 'dirutils', 'walk'), [encode(DS)]))

    def source(run):
        run.n0 = len(run.events)
        return run.call(ctx.get(run, 'fileutils', 'read_file_contents'), [encode(cat(DS, C('/'), sym('rel', 'str')))])

    def gather(run):
        ds = mk_dataset(ctx, run, bpe=plain_bpe_config(ctx, run))
        dirs(run, ds)
        return run.call(ctx.get(run, 'pipeline.vocabloader', 'gather_non_bpe_vocab'), [ds])

    def size(run):
        ds = mk_dataset(ctx, run)
        with quietly(run):
            pc = run.call(ctx.get(run, 'api.corpus', 'PreprocessedCorpus'), [run.getattr(ds, 'preprocessed'), NONE])
        dirs(run, ds)
        return run.call(run.getattr(pc, 'get_corpus_size'), [])

    def stages_(fname):
        def f(run):
            ds = mk_dataset(ctx, run, bpe=plain_bpe_config(ctx, run) if 'bpe' in fname else NONE)
            dirs(run, ds)
            return run.call(ctx.get(run, 'pipeline.stages', fname), [ds])
        return f

    def learn(run):
        bc = plain_bpe_config(ctx, run)
        ds = mk_dataset(ctx, run, bpe=bc)
        dirs(run, ds)
        return run.call(ctx.get(run, 'pipeline.bpelearner', 'run'), [ds, sym('n_merges', 'int'), bc])

    def assign(run):
        bc = plain_bpe_config(ctx, run)
        ds = mk_dataset(ctx, run, bpe=bc)
        dirs(run, ds)
        return run.call(run.getattr(ds, 'assign_bpe_codes_id'), [bc, sym('given_id', 'str')])
    from .c03 import stage_hook
    plain = lambda **kw: Opts(sepfree=sepfree, call_hook=stamp_hook, **kw)
    todo = [
        ('Dataset.create', create, plain()),
        ('get_all_files', listing(False), plain()),
        ('get_all_files (directories)', listing(True), plain()),
        ('get_timestamp', stamp, Opts(sepfree=sepfree)),
        ('walk', walk, Opts(sepfree=sepfree)),
        ('read_file_contents', source, Opts(sepfree=sepfree)),
        ('parse_projects.run', stage_entry(ctx, 'pipeline.parse_projects', 1), opts(exists_default=nothing_else_cached('parsed'))),
        ('to_repr.run', stage_entry(ctx, 'pipeline.to_repr', 2), opts(bpe_hook, gather_hook, config_hook, exists_default=nothing_else_cached('preprocessed'))),
        ('gather_non_bpe_vocab', gather, plain(loop_zero=False)),
        ('get_corpus_size', size, opts(loop_zero=False)),
        ('run_until_base_bpe_vocab', stages_('run_until_base_bpe_vocab'), opts(stage_hook, bpe_hook, gather_hook)),
        ('run_until_vocab', stages_('run_until_vocab'), opts(stage_hook, bpe_hook, gather_hook)),
        ('bpelearner.run', learn, opts(learn_hook, loop_zero=False)),
        ('assign_bpe_codes_id', assign, opts()),
        ('calc_vocab: from scratch', vocab_entry(ctx), vocab_opts('scratch')),
        ('calc_vocab: merging', vocab_entry(ctx), vocab_opts('merge')),
        ('calc_vocab: resuming', vocab_entry(ctx), vocab_opts('load')),
    ]
    for name, entry, o in todo:
        if only is None or name in only:
            if tune:
                tune(name, o)
            yield name, ctx.explore(name, entry, o, max_paths=max_paths)


FILE_EFFECTS = ('open', 'write', 'rename', 'remove', 'rmtree', 'mkdir', 'copy')


def touched(e):
    """Paths an event changes."""
    if e.kind == 'open':
        return [canon(e.path)] if e.writing else []
    if e.kind in ('write', 'remove', 'rmtree', 'mkdir'):
        return [canon(e.path)] if e.get('path') is not None else []
    if e.kind == 'rename':
        return [canon(e.src), canon(e.dst)]
    if e.kind == 'copy':
        return [canon(e.dst)] if e.get('dst') is not None else []
    if e.kind == 'extcall' and (e.get('name') or e.get('f')) in MUTATORS:
        return [canon(a) for a in (e.get('args') or []) if isinstance(a, (T, C))]
    return []
