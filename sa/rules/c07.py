"""C07: the input dataset is never modified."""
from .common import *

META = dict(
    technique='interprocedural effect analysis over symbolic paths: no path of any operation has a write effect at or below the dataset',
    level_note='All paths of every operation that touches files, the dataset path being a symbol; the contents of files are opaque. '
               'Trusts the models of the file functions of os, shutil, gzip and builtins.',
    explanation='Each creation, write, renaming, deletion of a file or directory on each path is resolved to a symbolic path and compared with '
                'the path of the dataset.',
)


def check(ctx):
    ctx.rule('no path written, created, renamed or deleted equals the dataset path, lies below it, or comes from listing it')
    root = canon(sym('DATASET', 'str'))
    inside = lambda q: q == root or below(q, root) is not None or \
        any(isinstance(x, T) and x.op == 'elem' and x.args[0] == T('walk', root) for x in ())
    n = 0
    for name, res in flows(ctx):
        for p in res.paths:
            if not hasattr(p.run, 'n0'):
                continue
            for e in p.events[p.run.n0:]:
                for q in touched(e):
                    n += 1
                    if inside(q):
                        ctx.violation(e, f'{name}: a file or directory of the dataset is changed ({e.kind})', p)
                    elif any(isinstance(x, T) and x.op in ('walkfiles', 'walkdirs', 'listdir', 'walkroot') and contains(x, root) for x in subterms(q)) \
                            and not anchored(q):
                        ctx.violation(e, f'{name}: a path found by listing the dataset is changed ({e.kind})', p)
                    else:
                        ctx.ok(e.where())
            ctx.ok(name)
    if not n:
        ctx.open_obligation('no write effect was found at all')


def anchored(q):
    """The path starts below a directory of codeprep's own."""
    first = parts_of(q)[0]
    return isinstance(first, T) and first.op == 'sym' and first.args[0] != 'DATASET' or isinstance(first, C) and str(first.v).startswith('/')
