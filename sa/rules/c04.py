"""C04: learned BPE codes appear all at once or not at all."""
from .common import *

META = dict(
    technique='path-sensitive effect and typestate analysis of saving learned codes, plus constant propagation of the temporary name through the code that selects learned directories',
    level_note='All paths of bpelearner.run with an error injected at every effect; learning itself and loaded vocabularies are opaque. Trusts '
               'the file-system models and that renaming a directory is atomic.',
    explanation='Every file created below the BPE directory of a dataset must lie in a directory that is renamed to its final name after all files '
                'in it are closed; the temporary name is run through the selection of learned directories by constant propagation.',
)


def entry_of(ctx):
    def entry(run):
        ds = mk_dataset(ctx, run, bpe=plain_bpe_config(ctx, run))
        run.bpe = canon(run.getattr(ds, 'bpe_path'))
        run.n0 = len(run.events)
        return run.call(ctx.get(run, 'pipeline.bpelearner', 'run'), [ds, sym('n_merges', 'int'), plain_bpe_config(ctx, run)])
    return entry


def check(ctx):
    ctx.rule('files below the BPE directory are created only in a directory that is later renamed; the rename comes after all its files are closed and '
             'never after an error; nothing is created below the final name; the temporary name is not selected as learned codes')
    pairs = {}
    n = 0
    for inject in (False, True):
        o = opts(learn_hook, inject=inject, loop_zero=False, inject_kinds=('open', 'write', 'close', 'mkdir', 'work'))
        res = ctx.explore('learn' + (' with injected errors' if inject else ''), entry_of(ctx), o)
        finals = set()
        for p in res.paths:
            for e in p.ev('rename'):
                if hasattr(p.run, 'bpe') and below(e.dst, p.run.bpe) is not None:
                    finals.add((canon(e.src), canon(e.dst)))
        srcs = {s for s, _ in finals}
        dsts = {d for _, d in finals}
        for p in res.paths:
            if not hasattr(p.run, 'bpe'):
                continue
            opened, err, done = {}, None, {}
            for e in p.events[p.run.n0:]:
                if e.inject:
                    err = e
                if e.kind == 'mkdir' and below(e.path, p.run.bpe) is not None:
                    n += 1
                    if canon(e.path) in dsts or (canon(e.path) not in srcs and not any(below(e.path, s) for s in srcs)):
                        ctx.violation(e, 'the directory of learned codes is created under its final name before its files are written', p)
                    else:
                        ctx.ok(e.where())
                elif e.kind == 'open' and e.writing and below(e.path, p.run.bpe) is not None:
                    n += 1
                    q = canon(e.path)
                    home = [s for s in srcs if below(q, s) is not None]
                    if q in srcs:       # single file published by its own rename, inside which directory?
                        home = [q]
                    if not home:
                        ctx.violation(e, 'a file of the learned codes is created directly in the directory with the final name', p)
                    elif q in done or any(below(q, d) is not None for d in done):
                        ctx.violation(e, 'a file of the learned codes is written after the directory got its final name', p)
                    else:
                        ctx.ok(e.where())
                    opened[q] = e
                elif e.kind == 'close' and e.path is not None:
                    if canon(e.path) in opened:
                        opened.pop(canon(e.path))
                        for s, d in done.items():
                            if below(e.path, s) is not None:
                                ctx.violation(e, 'a file of the learned codes is completed only after the directory got its final name', p)
                elif e.kind == 'rename' and below(e.dst, p.run.bpe) is not None:
                    n += 1
                    s, d = canon(e.src), canon(e.dst)
                    pairs[(s, d)] = (e, p)
                    openf = [q for q in opened if below(q, s) is not None or q == s]
                    if err is not None:
                        ctx.violation(e, f'the directory gets its final name although an error interrupted saving ({err.kind} at {err.where()})', p,
                                      key=f'{e.fn}: final name after error in {err.fn}')
                    elif openf:
                        ctx.violation(e, 'the directory gets its final name while one of its files is still open', p)
                    elif any(below(s, x) is not None for x in dsts):
                        ctx.violation(e, 'files are moved one by one into the directory with the final name', p)
                    else:
                        ctx.ok(e.where())
                    done[s] = e
    if not n:
        ctx.open_obligation('no file of learned codes is written on any path')
    names(ctx, pairs)


def names(ctx, pairs):
    seen = set()
    for (s, d), (e, p) in pairs.items():
        bpe = p.run.bpe
        x, y = below(d, bpe), below(s, bpe)
        if x is None or y is None:
            continue
        name = replace_term(y, x, C('900'))
        if isinstance(x, T) and x.op == 'cat':
            rest = strip_prefix(y, x)
            name = cat(C('900'), rest) if rest is not None else name
        if not isinstance(name, C) or not isinstance(name.v, str) or '/' in name.v:
            ctx.undecided(f'temporary name {y!r}: not a constant pattern')
            continue

        def walk(run, nm, args, kw, node):
            if nm == 'os.walk':
                return run.b_iter([run.new_list([Tup([args[0], run.new_list([C('7'), name]), run.new_list([])])])], {}, node)
            if nm == 'os.listdir':
                return run.new_list([C('7'), name])
            return NotImplemented
        if name in seen:
            continue
        seen.add(name)
        for fn in ('get_max_merges', 'get_min_merges'):
            def entry(run, fn=fn):
                return run.call(ctx.get(run, 'pipeline.bperegistry', fn), [bpe])
            r = ctx.explore(f'{fn} with an unfinished directory present', entry, Opts(ext_hook=walk, exists_default=lambda run, k, q: True, sepfree=sepfree))
            for q in r.paths:
                if q.outcome != 'return':
                    continue
                if q.value == C(7):
                    ctx.ok(e.where())
                elif isinstance(q.value, C) and q.value.v == 900:
                    ctx.violation(e, f'the unfinished directory name {name.v!r} is selected as learned codes by {fn}', q)
                elif fn == 'get_min_merges' and isinstance(q.value, C) and q.value.v == 7:
                    ctx.ok()
                else:
                    ctx.open_obligation(f'{fn}: selection of {name.v!r} is not a constant')
