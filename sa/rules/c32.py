"""C32: every entry of a dataset takes part in its modification stamp."""
from .world import *

META = dict(
    technique='constant propagation of modification times through the computation of the stamp, over given directory trees',
    level_note='Each entry of each of a set of trees (nested, hidden, empty, linked, oddly named directories and files, single files, many entries) is made the newest in turn. '
               'Trees of other shapes are covered as far as the walk treats all entries of a kind alike.',
    explanation='The stamp is computed by constant propagation with one entry of the tree newer than all others; its value has to be the time of that entry, '
                'for every entry up to the documented number, and the text of the stamp has to contain the date and the time down to seconds.',
    assumptions=['os.walk, os.listdir and os.path.getmtime behave as documented; links to single files are left open by the property'],
)
ROOT = '/data/set'
TREES = {
    'nested directories': ({'a.java': 'x', 'd1/b.java': 'x', 'd1/d2/c.py': 'x', 'd1/d2/d3/d4/e.txt': 'x', 'd5/f.java': 'x', 'd5/g.java': 'x', 'z.java': 'x'}, ()),
    'only directories at the top': ({'d1/d2/a.java': 'x', 'd1/d3/b.java': 'x', 'd0/c.java': 'x'}, ()),
    'hidden and oddly named entries': ({'.hidden.java': 'x', '.git/HEAD': 'x', 'no_extension': 'x', 'd.java/e': 'x', 'nöt ascii/fïle.java': 'x', '__pycache__/a.pyc': 'x',
                                        'node_modules/m.js': 'x', '~': 'x', 'a b/c d': 'x', '_d/f.lastmodif': 'x', 'build/x.class': 'x', 'test/t.py': 'x', 'empty.java': ''}, ()),
    'empty directories': ({'e1': None, 'd1/e2': None, 'd1/a.java': 'x', 'd2/d3/e3': None, '.e4': None}, ()),
    'one empty directory': ({'e1': None}, ()),
    'one directory with one file': ({'e1/a.java': 'x'}, ()),
    'one file in the root': ({'a.java': 'x'}, ()),
    'an empty root': ({}, ()),
    'linked directories': ({'a.java': 'x', 'link1/b.java': 'x', 'link1/d/c.java': 'x', 'd1/link2/e.java': 'x', 'd1/f.java': 'x', 'link3': None}, ('link1', 'd1/link2', 'link3')),
    'only a linked directory': ({'link/a.java': 'x', 'link/d/b.java': 'x'}, ('link',)),
}
LIMIT = 1000       # the number of entries that are taken into account
DIRECTIVES = (('%y', '%Y', '%s', '%c', '%x', '%D'), ('%m', '%b', '%B', '%j', '%s', '%c', '%x', '%D'), ('%d', '%j', '%s', '%c', '%x', '%D'),
              ('%H', '%s', '%c', '%X', '%T'), ('%M', '%s', '%c', '%X', '%T'), ('%S', '%s', '%c', '%X', '%T'))


def consts_in(v, out):
    if isinstance(v, C):
        out.append(v.v)
    elif isinstance(v, T):
        for a in v.args:
            consts_in(a, out)
    elif isinstance(v, (Tup, tuple, list)):
        for a in (v.items if isinstance(v, Tup) else v):
            consts_in(a, out)
    return out


def stamp(ctx, what, tree, links, newest, got, root=ROOT, old=1577880000):
    times = {p: old + 100 * i for i, p in enumerate(sorted(tree))}
    new = old + 50000000
    times[newest] = new

    def entry(run):
        w = World({}, C(ROOT), links, times)
        w.tree = tree
        run.opts = w.opts(max_steps=3000000)
        got['f'] = ctx.get(run, 'dirutils', 'get_timestamp')
        return run.call(got['f'], [C(root)])

    res = ctx.explore(what, entry, Opts(max_paths=8, max_steps=3000000), note=False)
    for p in res.paths:
        where = f'{what}, {newest or "the root"} is the newest entry'
        ats = p.ev('stat', 'walk', 'listdir')
        at = ats[-1] if ats and ats[-1].fn else got['f']
        if p.outcome != 'return':
            ctx.violation(got['f'], f'{where}: no stamp is computed ({p.value!r})', p, key='raise:' + kind_of(tree, newest))
            continue
        cs = consts_in(p.value, [])
        nums = [c for c in cs if isinstance(c, (int, float)) and not isinstance(c, bool) and c >= old]
        if new in nums:
            ctx.ok('newest')
        elif nums:
            ctx.violation(at, f'{where}: the stamp is computed from the time of '
                          f'{[k for k, t in sorted(times.items()) if t == max(nums)] or "another entry"}', p, key='left out:' + kind_of(tree, newest))
        else:
            ctx.undecided(f'{where}: the stamp {p.value!r} is not decided')
        fmts = [c for c in cs if isinstance(c, str) and '%' in c]
        if fmts:
            ctx.check(all(any(d in ''.join(fmts) for d in ds) for ds in DIRECTIVES), got['f'],
                      f'{where}: the stamp has the form {fmts}, which leaves out a part of the date or time', p, key='format')
        elif 'isoformat' not in repr(p.value) and 'timestamp' not in repr(p.value):
            ctx.undecided(f'{where}: form of the stamp {p.value!r} is not decided')


def kind_of(tree, p):
    return 'root' if not p else 'directory' if tree[p] is None else 'file'


def work(ctx, name):
    got = {}
    if name in TREES:
        tree, links = TREES[name]
        tree = World(tree).tree
        for p in sorted(tree):
            stamp(ctx, name, tree, links, p, got)
            if name == 'nested directories':
                stamp(ctx, name + ' (path ending in /)', tree, links, p, got, ROOT + '/')
        return
    if name == 'a single file':
        return stamp(ctx, name, {'': 'text'}, (), '', got)
    n = int(name)
    flat = World({f'f{i:06d}.java': 'x' for i in range(n)}).tree
    mixed = {}
    for i in range(n):
        mixed[f'd{i // 40:04d}/f{i % 40:02d}.java' if i % 40 else f'd{i // 40:04d}'] = 'x' if i % 40 else None
    for what, tree in (('files in the root', flat), ('files in directories', World(mixed).tree)):
        ps = sorted(p for p in tree if p)
        for p in ([ps[0], ps[len(ps) // 2], ps[-1]] if n < 200 else [ps[-1]]):
            stamp(ctx, f'{n} {what}', tree, (), p, got)


def check(ctx):
    ctx.rule('the time the stamp is computed from is that of the newest entry, whichever entry it is')
    ctx.rule('the text of the stamp contains year, month, day, hour, minute and second')
    jobs = [*TREES, 'a single file', '35', '150', str(LIMIT - 1)]
    ctx.parallel(jobs, work)

