"""C31: the recorded file list is the list of the files that match."""
from .world import *

META = dict(
    technique='constant propagation through listing, recording and reading the record, over given directory trees',
    level_note='Each of a set of trees (nested, hidden, linked, oddly named entries, names with line breaks, quotes and bytes that are no text) with each of several lists of extensions. '
               'Trees of other shapes are covered as far as the code treats all entries of a kind alike.',
    explanation='The files (and directories) that are yielded are compared with those of the tree that match; the lists written on the way are then read by the '
                'code that reads them, and have to give the same names, once for a complete listing and once for a listing of directories.',
    assumptions=['os.walk, os.path.islink, repr and ast.literal_eval behave as documented'],
)
ROOT = '/data/set'
TREES = {
    'a few files': ({'a.java': 'x', 'b.py': 'x', 'c.txt': 'x', 'xjava': 'x', 'd.javax': 'x', 'e.java.txt': 'x', 'f.tar.py': 'x', 'noext': 'x'}, ()),
    'nested directories': ({'a.java': 'x', 'd1/b.java': 'x', 'd1/a.java': 'x', 'd1/d2/c.py': 'x', 'd1/d2/d3/a.java': 'x', 'd5/f.txt': 'x', 'd5/g.java': 'x', 'e': None, 'd6.java/x.py': 'x',
                            'd6.java/e.java': None}, ()),
    'hidden and odd names': ({'.h.java': 'x', '.git/HEAD.py': 'x', 'nöt ascii/fïle.java': 'x', 'a b.java': 'x', " 'q\"\\.java": 'x', 'line\nbreak/l\nb.java': 'x', '\udcff\udc80.java': 'x',
                              'tab\t\r.py': 'x', '__pycache__/a.py': 'x', 'node_modules/m.java': 'x', '#x~.java': 'x', 'b\'x\'.py': 'x', 'big.JAVA': 'x', '-.java': 'x', '\u2028.java': 'x',
                              'test.java.part': 'x', 'x.parsed': 'x', 'x.java.prep': 'x'}, ()),
    'links': ({'a.java': 'x', 'la.java': 'x', 'd1/lb.py': 'x', 'd1/b.py': 'x', 'ld/c.java': 'x', 'ld/lc.java': 'x', 'ld/d/e.java': 'x', 'le': None}, ('la.java', 'd1/lb.py', 'ld', 'ld/lc.java', 'le')),
    'many entries': ({**{f'd{i}/f{j}.java': 'x' for i in range(8) for j in range(15)}, **{f'g{i}.py': 'x' for i in range(60)}}, ()),
    'an empty root': ({}, ()),
    'no file': ({'d1/d2': None, 'd3': None}, ()),
}
EXTS = (None, ('java',), ('java', 'py'), ('py', 'txt', 'java'), ('c',), ('java.txt',))


def collect(run, it):
    out = []
    run.iterate(it, lambda x: out.append(canon(x)))
    return out


def norm(v):
    if isinstance(v, C) and isinstance(v.v, (bytes, str)):
        s = v.v.decode('utf-8', 'surrogateescape') if isinstance(v.v, bytes) else v.v
        return posixpath.normpath(s)
    return None


def job(ctx, name, exts, dirs_first):
    tree, links = TREES[name] if name in TREES else ({}, ())
    tree = {'': 'text'} if name == 'a single file' else World(tree).tree
    root = '/data/one.java' if name == 'a single file' else ROOT
    got = {}

    def entry(run):
        w = World({}, C(root), links)
        w.tree = tree
        run.opts = w.opts(call_hook=stamp_hook, read_hook=read_back, exists_default=lambda run, k, p: False)
        run.tree_root = root
        ds = mk_dataset(ctx, run, path=C(root), exts=C('|'.join(exts)) if exts else NONE)
        run.opts = w.opts(call_hook=stamp_hook, read_hook=read_back, exists_default=lambda run, k, p: False, max_steps=3000000)
        f = run.getattr(ds, 'get_all_files')
        got['f'] = f.fn if hasattr(f, 'fn') else f
        kw = {'return_dirs_instead_of_regular_files': TRUE} if dirs_first else {}
        first = collect(run, run.call(f, [], kw))
        n = len(run.events)
        second = collect(run, run.call(f, [], {}))
        third = collect(run, run.call(f, [], {'return_dirs_instead_of_regular_files': TRUE}))
        return first, second, third, n

    what = f'{name}, {"all files" if not exts else "extensions " + "|".join(exts)}' + (', directories listed first' if dirs_first else '')
    res = ctx.explore(what, entry, Opts(max_paths=16, max_steps=3000000), note=False)
    ds = sorted(p for p, v in tree.items() if v is None and p)
    fs = sorted(p for p, v in tree.items() if v is not None and p not in links and (not exts or any(p.rsplit('/')[-1].endswith('.' + x) for x in exts)))
    if name == 'a single file':
        fs, ds = ['one.java'], []
    used = 0
    for p in res.paths:
        ats = [e for e in p.events if e.kind in ('walk', 'write', 'listdir', 'read') and e.fn]
        at = ats[-1] if ats else (got.get('f') if hasattr(got.get('f'), 'node') else ('codeprep.pipeline.dataset', 0, 'get_all_files'))
        if p.outcome != 'return':
            ctx.violation(at, f'{what}: listing ends with {p.value!r}', p, key='raise')
            continue
        first, second, third, n = p.value
        recorded = not any(e.kind == 'walk' and e.i >= n for e in p.events) if any(e.kind == 'walk' for e in p.events) else True
        used += recorded
        for k, vs, want in (('first', first, ds if dirs_first else fs), ('recorded', second, fs), ('recorded directories', third, ds)):
            names = [norm(v) for v in vs]
            if None in names:
                ctx.undecided(f'{what}: {k}: a name is {vs[names.index(None)]!r}')
                continue
            lost, extra = [x for x in want if x not in names], [x for x in names if x not in want]
            twice = sorted({x for x in names if names.count(x) > 1})
            ctx.check(not lost and not extra and not twice, at,
                      f'{what}, {k} listing: ' + '; '.join(f'{t} {x[:4]!r}' for t, x in (('left out', lost), ('added', extra), ('repeated', twice)) if x), p,
                      key=f'{k}:{bool(lost)}{bool(extra)}{bool(twice)}')
    if not used:
        ctx.undecided(f'{what}: the recorded lists are not used on any path')


def work(ctx, j):
    job(ctx, *j)


def check(ctx):
    ctx.rule('a listing yields every file of the dataset that matches the extensions and is no link, each once, and nothing else')
    ctx.rule('the recorded list, read by the code that reads it, gives exactly the files the listing has yielded, whether files or directories were asked for')
    ctx.rule('directories and files are recorded in separate lists')
    jobs = [(n, e, d) for n in TREES for e in EXTS for d in (False, True)]
    jobs += [('a single file', e, d) for e in (None, ('java',)) for d in (False, True)]
    ctx.parallel(jobs, work)
