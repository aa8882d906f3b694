"""C22: one result file per source file, at the same relative place, found again by the next stage."""
from .world import *

META = dict(
    technique='constant propagation of file names through all stages over given directory trees, and comparison of the files written with the files read',
    level_note='Each of a set of trees whose names invite confusion (names that contain the suffixes or extensions of others, equal names in different directories, spaces, dots, '
               'bytes that are no text), with several lists of extensions, single files included. The directories of the results are symbols. '
               'Lexing and token conversion are opaque.',
    explanation='The public corpus function is followed through parsing, preprocessing, vocabulary and size calculation with a given tree; per file the names it reads and the '
                'final name it produces are collected, and compared between the stages.',
    assumptions=['os.path functions, os.walk, repr and ast.literal_eval behave as documented'],
)
ROOT = '/data/set'
TREES = {
    'similar names': {'a': 'x', 'a.java': 'x', 'a.py': 'x', 'a.java.java': 'x', 'a.parsed': 'x', 'a.java.parsed': 'x', 'a.prep': 'x', 'a.java.prep': 'x', 'a.part': 'x', 'A.java': 'x',
                      '.a.java': 'x', 'a..java': 'x', 'a.javа': 'x'},
    'equal names in directories': {'a.java': 'x', 'd/a.java': 'x', 'd.a/a.java': 'x', 'd/d/a.java': 'x', 'd.java/a.java': 'x', 'e/d/a.java': 'x', 'd_a.java': 'x', 'd-a.java': 'x', 'da.java': 'x',
                                   'set/a.java': 'x', 'data/set/a.java': 'x'},
    'odd names': {'a b.java': 'x', 'a  b.java': 'x', 'a_b.java': 'x', "q'\".java": 'x', 'back\\slash.java': 'x', '\udcff.java': 'x', '\udcfe.java': 'x', 'é.java': 'x', 'l\nb.java': 'x', '.. /x.java': 'x',
                  '...java': 'x', '-x.java': 'x', ' a.java': 'x', 'a.java ': 'x', '%41.java': 'x', '~.java': 'x'},
    'deep': {'a/b/c/d/e/f/g.java': 'x', 'a/b/c/d/e/f.java': 'x', 'a/b.java': 'x', 'a.b/c.java': 'x'},
    'a single file': None,
}
EXTS = (None, 'java', 'py|java')


def vocab_hook(run, fn, args, kw, node):
    """Calculating a vocabulary takes the files it is given (C06, C20 look inside)."""
    if isinstance(fn, Fn) and fn.name == 'calc_vocab' and fn.cls is None and fn.mod.name.startswith('codeprep.pipeline'):
        got = []
        for a in [*args, *kw.values()]:
            if isinstance(a, (Lazy, HList)):
                run.iterate(a, lambda x: got.append(canon(x)))
        run.vocab_files = got
        run.emit('stage', name='vocab')
        return NONE
    return NotImplemented


def text(v):
    """A path as text, bytes that are no text as surrogates, without steps to the same directory."""
    v = text_(v)
    parts = list(v.args) if isinstance(v, T) and v.op == 'cat' else [v]
    parts = [C(x.v.replace('/./', '/').replace('/./', '/')) if isinstance(x, C) and isinstance(x.v, str) else x for x in parts]
    return cat(*parts)


def text_(v):
    v = canon(v)
    if isinstance(v, C) and isinstance(v.v, bytes):
        return C(v.v.decode('utf-8', 'surrogateescape'))
    if isinstance(v, T) and v.op == 'cat':
        return cat(*[text_(a) for a in v.args])
    if isinstance(v, T) and v.op in ('enc', 'dec'):
        return text_(v.args[0])
    return v


def shape(path, rel):
    """(directory, suffix) if path = directory / rel suffix."""
    p = text(path)
    parts = list(p.args) if isinstance(p, T) and p.op == 'cat' else [p]
    if not isinstance(parts[-1], C) or not isinstance(parts[-1].v, str):
        return None
    c = parts[-1].v
    i = c.rfind('/' + rel)
    if i < 0 or '/' in c[i + 1 + len(rel):]:
        return None
    return cat(*parts[:-1], C(c[:i])), c[i + 1 + len(rel):]


def given_parse(run, fn, args, kw, node):
    if isinstance(fn, Fn) and fn.name == 'convert_text' and fn.cls is None:
        return run.new_list([T('parsed', *[fz(x) for x in [*args, *kw.values()]])])
    return NotImplemented


def given_repr(run, fn, args, kw, node):
    if isinstance(fn, Fn) and fn.name == 'to_repr' and fn.cls is None and fn.mod.name.startswith('codeprep.pipeline'):
        r = T('represented', *[fz(x) for x in [*args, *kw.values()]])
        SYMTY[r] = 'str'
        return Tup([run.new_list([r]), sym('METADATA')])
    return NotImplemented


def given_source(run, fn, args, kw, node):
    if isinstance(fn, Fn) and fn.name == 'read_file_contents' and len(args) + len(kw) == 1:
        p = (args or list(kw.values()))[0]
        t = T('source', canon(p))
        SYMTY[t] = 'str'
        return Tup([run.new_list([t]), p])
    return NotImplemented


def given_text(run, f, how):
    r = read_back(run, f, how)
    if isinstance(r, (T, C, HList)) and not (isinstance(r, T) and contains_repr(r)):
        return r
    if f.kind == 'plain' and how in ('all', 'line', 'lines') and written(run, f.path) is not None:
        l = C('a b\n' if how != 'line' or f.nread <= 1 else '')
        return run.new_list([l]) if how == 'lines' else l
    return r


def contains_repr(r):
    return any(isinstance(x, T) and x.op == 'represented' for x in subterms(r))


def machine(run, nm, args, kw, node):
    if nm == 'platform.system':
        return C('Linux')
    if nm in ('os.cpu_count', 'multiprocessing.cpu_count'):
        return C(4)
    return NotImplemented


def work(ctx, j):
    name, exts = j
    tree = TREES[name]
    single = tree is None
    root = '/data/one.java' if single else ROOT
    tree = {'': 'text'} if single else World(dict(tree)).tree
    got = {}

    def entry(run):
        w = World({}, C(root))
        w.tree = tree
        call = hooks(stamp_hook, given_parse, given_repr, given_source, bpe_hook, gather_hook, vocab_hook)

        def ex(run, kind, p):
            if p == root:
                return None
            return False
        run.opts = w.opts(call_hook=call, read_hook=given_text, exists_default=ex, ext_hook=machine, max_steps=3000000)
        f = got['f'] = ctx.get(run, 'api.corpus', 'nosplit')
        run.n0 = len(run.events)
        pc = run.call(f, [C(root)], {'extensions': C(exts) if exts else NONE, 'calc_vocab': TRUE, 'output_path': C('/results')})
        run.n1 = len(run.events)
        run.call(run.getattr(pc, 'get_corpus_size'), [])
        return NONE

    what = f'{name}, {"all files" if not exts else "extensions " + exts}'
    res = ctx.explore(what, entry, Opts(max_paths=40, max_steps=3000000, sepfree=sepfree), note=False)
    fs = sorted(p for p, v in tree.items() if v is not None and (not exts or any(p.rsplit('/')[-1].endswith('.' + x) for x in exts.split('|'))))
    if single:
        fs = ['one.java']
    done = 0
    for p in res.paths:
        if p.outcome != 'return' or not hasattr(p.run, 'n1'):
            at = [e for e in p.events if e.kind in ('open', 'rename', 'read') and e.fn]
            ctx.violation(at[-1] if at else got['f'], f'{what}: ends with {p.value!r}', p, key='raise') if p.outcome == 'raise' else ctx.undecided(f'{what}: {p.outcome}')
            continue
        done += judge(ctx, what, p, fs, got, root)
    if not done:
        ctx.undecided(f'{what}: nothing to compare')


def judge(ctx, what, p, fs, got, root):
    moves = {}
    for e in p.events:
        if e.kind == 'rename':
            moves.setdefault(text(e.src), (text(e.dst), e))
    single = len(fs) == 1 and fs[0] == 'one.java'
    parsed, prep = [], []           # (source or parsed file, result, event)
    for e in p.events:
        if e.kind != 'write':
            continue
        f, at = moves.get(text(e.path), (text(e.path), e))
        srcs = {x.args[0] for x in subterms(e.data) if isinstance(x, T) and x.op == 'source'}
        for s in srcs:
            s = text(s)
            r = posixpath.relpath(s.v, root) if isinstance(s, C) and not single else 'one.java' if single and s == C(root) else None
            parsed.append((r, f, at))
    of = {d: s for s, d, _ in parsed}
    for e in p.events:
        if e.kind != 'write':
            continue
        f, at = moves.get(text(e.path), (text(e.path), e))
        for x in subterms(e.data):
            if isinstance(x, T) and x.op == 'represented':
                from_ = {text(y) for y in subterms(x) if isinstance(y, (T, C))} & set(of)
                prep += [(of[d], f, at) for d in sorted(from_, key=repr)]
                if not from_:
                    prep.append((None, f, at))
    n = 0
    for stage, pairs in (('parsing', parsed), ('preprocessing', prep)):
        at0 = pairs[0][2] if pairs else got['f']
        pairs = list(dict.fromkeys(pairs))
        for s in fs:
            ds = sorted({repr(d) for x, d, _ in pairs if x == s})
            at = next((e for x, d, e in pairs if x == s), at0)
            ctx.check(len(ds) == 1, at, f'{what}: {stage} gives {len(ds)} result files for {s!r}', p, key=f'{stage}: count')
        unknown = [x for x in pairs if x[0] not in fs]
        ctx.check(not unknown, unknown[0][2] if unknown else at0, f'{what}: {stage} makes {unknown[0][1] if unknown else 0!r} from {unknown[0][0] if unknown else 0!r}', p, key=f'{stage}: other')
        seen = {}
        for s, d, e in pairs:
            n += 1
            other = seen.setdefault(d, s)
            ctx.check(other == s, e, f'{what}: {stage} gives {s!r} and {other!r} the same result file', p, key=f'{stage}: shared')
        shapes = {}
        for s, d, e in pairs:
            if s is None:
                continue
            sh = shape(d, s)
            if sh is None:
                ctx.violation(e, f'{what}: {stage} puts the result of {s!r} at {d!r}, not at the same relative place with a suffix', p, key=f'{stage}: place')
                continue
            shapes.setdefault(sh, (s, e))
        if len(shapes) > 1:
            (x, (s, e)), (y, (s2, _)) = list(shapes.items())[-1], list(shapes.items())[0]
            ctx.violation(e, f'{what}: {stage} puts the results of {s!r} and {s2!r} at {x!r} and {y!r}', p, key=f'{stage}: suffix')
        elif shapes:
            ctx.check(list(shapes)[0][1] != '', at0, f'{what}: {stage} adds no suffix', p, key=f'{stage}: no suffix')
    finals, temps = {d: s for s, d, _ in parsed + prep}, {}
    for e in p.events:
        if e.kind == 'rename' and text(e.dst) in finals:
            s, t = finals[text(e.dst)], text(e.src)
            other = temps.setdefault(t, s)
            ctx.check(other == s and finals.get(t, s) == s, e, f'{what}: {s!r} and {other if other != s else finals.get(t)!r} are written through the same file', p, key='shared temporary file')
    results = sorted({repr(d) for _, d, _ in prep})
    vocab = getattr(p.run, 'vocab_files', None)
    size = [text(e.path) for e in p.events[p.run.n1:] if e.kind == 'open' and not e.writing and (not isinstance(e.path, Heap))]
    size = [x for x in size if repr(x) in results or strip_prefix(x, cat(prefix_of(prep), C('/'))) is not None]
    for k, used in (('vocabulary', vocab), ('size', size)):
        if used is None:
            ctx.undecided(f'{what}: files used for the {k} not found')
            continue
        used = sorted(repr(text(x)) for x in used)
        lost, extra = [x for x in results if x not in used], [x for x in used if x not in results]
        rep = [x for x in used if used.count(x) > 1]
        ev = [e for e in p.events if e.kind == ('stage' if k == 'vocabulary' else 'open') and e.i >= (0 if k == 'vocabulary' else p.run.n1) and e.fn]
        ctx.check(not lost and not extra and not rep, ev[0] if ev else got['f'],
                  f'{what}: the calculation of the {k} ' + '; '.join(f'{t} {x[:3]}' for t, x in (('leaves out', lost), ('also takes', extra), ('takes repeatedly', rep)) if x), p,
                  key=f'{k}: files')
    return n


def prefix_of(pairs):
    for s, d, _ in pairs:
        sh = shape(d, s) if s else None
        if sh:
            return sh[0]
    return C('\0')


def check(ctx):
    ctx.rule('parsing and preprocessing give every selected file exactly one result, named like the file with one suffix added, at the same relative place')
    ctx.rule('no two files share a result')
    ctx.rule('preprocessing reads the results of parsing, and vocabulary and size are calculated from exactly the results of preprocessing, each once')
    ctx.parallel([(n, e) for n in TREES for e in EXTS], work)
