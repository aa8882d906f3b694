"""C21: worker processes do not influence each other or the result."""
from .c22 import given_parse, given_repr, given_source, given_text, vocab_hook, machine, text, ROOT
from .world import *

META = dict(
    technique='interprocedural effect analysis per task given to a worker process (paths touched, shared state changed), and comparison of the final contents under constant propagation '
              'for different orders of the files and kinds of machine',
    level_note='Given trees with equal names in different directories; every public corpus function with and without BPE; machines with several processors, with one, '
               'and without processes. Contents of files are symbolic; lexing and token conversion are opaque (C15 follows them).',
    explanation='The calls given to pools are followed one by one. For each the paths it reads, tests, writes, renames or removes are collected, and every write to objects older than the call '
                'or to module-level data is reported; paths written by one task must not be used by another.',
)
TREE = {'a.java': 'x', 'b.java': 'x', 'a.py': 'x', 'd/a.java': 'x', 'd/b.java': 'x', 'd/e/a.java': 'x', 'd/e/b.java': 'x', 'e/a.java': 'x', 'e/b.java': 'x'}
WRITES = ('write', 'rename', 'remove', 'rmtree', 'copy')
MACHINES = (('Linux', 4), ('Linux', 1), ('Linux', None), ('Darwin', 4), ('Windows', 8))
CALLS = (('nosplit', (), {}), ('basic', (), {}), ('chars', (), {}), ('bpe', ('10k',), {}), ('bpe', ('1k',), {'no_unicode': True}),
         ('nosplit', (), {'full_strings': True, 'no_com': True, 'max_str_length': 14}))      # what BPE is learned from


def on(system, cpus):
    def f(run, nm, args, kw, node):
        if nm in ('platform.system', 'sys.platform'):
            return C(system)
        if nm in ('os.cpu_count', 'multiprocessing.cpu_count'):
            return C(cpus)
        return NotImplemented
    return f


def pid_once(t):
    """Process ids are the same in all calls made by one process."""
    if isinstance(t, T):
        if t.op == 'nondet' and 'getpid' in str(t.args[0]):
            return C('<pid>')
        if t.op == 'cat':
            return cat(*[pid_once(a) for a in t.args])
        return T(t.op, *[pid_once(a) for a in t.args])
    return t


def where(v):
    return pid_once(text(v))


def unnumbered(t):
    """Objects without the numbers they have on one path."""
    if isinstance(t, T):
        if t.op == 'obj':
            return T('obj', t.args[0])
        return T(t.op, *[unnumbered(a) for a in t.args])
    return t


def touches(e):
    """((path, 'w' or 'r') ...) of an event."""
    k = e.kind
    if k == 'open':
        return [(e.path, 'w' if e.writing else 'r')]
    if k == 'write':
        return [(e.path, 'w')]
    if k in ('rename', 'copy'):
        return [(e.src, 'w' if k == 'rename' else 'r'), (e.dst, 'w')]
    if k in ('remove', 'rmtree'):
        return [(e.path, 'w')]
    if k in ('query', 'stat', 'read', 'listdir', 'walk'):
        return [(e.path, 'r')]
    return []


def tasks_of(p):
    """[(pool number, {task: its events})]"""
    out, npool = {}, 0
    for e in p.events:
        if e.kind == 'pooltasks':
            npool += 1
        if e.task is not None and npool:
            out.setdefault(npool, {}).setdefault(e.task, []).append(e)
    return out


def check(ctx):
    ctx.rule('a task uses no path that another task of the same pool writes; directories several tasks make may exist already')
    ctx.rule('a task changes no object it shares with other tasks and no program-wide data')
    ctx.rule('BPE data is loaded before the first task, and not by a task')
    ctx.rule('the final results are the same for all orders of files and all numbers of processes, and contain nothing that depends on time, process or random numbers')
    jobs = [(c, m, o) for c in range(len(CALLS)) for m in range(len(MACHINES)) for o in ((0, 1, 2) if m < 2 else (0,))]
    ctx.parallel([[j for j in jobs if j[0] == c] for c in range(len(CALLS))], per_call)
    ctx.parallel(['vocab'], partial_vocabs)


def ordered(o):
    ks = sorted(TREE)
    return ks if o == 0 else ks[::-1] if o == 1 else ks[3:] + ks[:3]


def per_call(ctx, jobs):
    base = None
    for j in jobs:
        r = one(ctx, j)
        if r is None:
            continue
        what, final, at, p = r
        if base is None:
            base = r
            continue
        bad = False
        for f in sorted(set(final) | set(base[1]), key=repr):
            a, b = base[1].get(f), final.get(f)
            if a != b:
                bad = True
                e = at.get(f) or base[2].get(f)
                ctx.violation(e, f'{what}: the final content of {f} is {show(b)}; {base[0]}: {show(a)}', p, key=f'result {CALLS[j[0]][0]}')
                break
        if not bad:
            ctx.ok(f'{what}: {len(final)} results as with {base[0]}')


def show(t):
    return 'missing' if t is None else str(t)[:150]


def one(ctx, j):
    (fname, pos, kw), m, o = CALLS[j[0]], MACHINES[j[1]], j[2]
    got = {}

    def entry(run):
        w = World({k: TREE[k] for k in ordered(o)}, C(ROOT))
        w.tree = {k: v for k, v in sorted(w.tree.items(), key=lambda x: x[1] is None)} if o else w.tree
        call = hooks(stamp_hook, given_parse, given_repr, given_source, bpe_hook, gather_hook, vocab_hook)
        dirs = {d.rsplit('/')[-1] for d, v in w.tree.items() if v is None}
        run.opts = w.opts(call_hook=call, read_hook=given_text, exists_default=lambda run, kind, p: None if p == ROOT else False, ext_hook=on(*m), max_steps=3000000)
        run.opts.mkdir_race = lambda run, p: bool(run.worker)
        f = got['f'] = ctx.get(run, 'api.corpus', fname)
        run.n0 = len(run.events)
        pc = run.call(f, [C(ROOT), *map(C, pos)], {'output_path': C('/results'), 'calc_vocab': TRUE, **{k: C(v) for k, v in kw.items()}})
        run.n1 = len(run.events)
        run.call(run.getattr(pc, 'get_corpus_size'), [])
        return NONE
    what = f'{fname}{pos or ""}{kw or ""} on {m[0]}/{m[1]}, order {o}'
    res = ctx.explore(what, entry, Opts(max_paths=20, max_steps=3000000, sepfree=sepfree), note=False)
    if res.errors or res.limits:
        ctx.undecided(f'{what}: {(list(res.errors) + list(res.limits))[0]}'[:300])
    out = None
    for p in res.paths:
        if p.outcome == 'raise' and getattr(p.value, 'name', None) and p.value.name() == 'FileExistsError':
            e = [e for e in p.events if e.kind == 'mkdir'][-1]
            ctx.violation(e, f'{what}: when another worker has just made the directory {text(e.path)}, this fails', p, key='mkdir')
            continue
        if p.outcome == 'raise':
            at = [e for e in p.events if e.fn]
            ctx.violation(at[-1] if at else got['f'], f'{what}: ends with {p.value!r}', p, key='raise')
            continue
        if p.outcome != 'return':
            ctx.undecided(f'{what}: {p.outcome}')
            continue
        independent(ctx, what, p)
        loaded(ctx, what, p, fname == 'bpe', m, got)
        out = (what, *finals(ctx, what, p), p)
    return out


def independent(ctx, what, p):
    n = 0
    for pool, tasks in tasks_of(p).items():
        n += len(tasks)
        writer = {}
        for t, evs in tasks.items():
            for e in evs:
                for q, how in touches(e):
                    if how == 'w':
                        writer.setdefault(where(q), {}).setdefault(t, e)
        made = {where(e.path) for evs in tasks.values() for e in evs if e.kind == 'mkdir'}
        bad = False
        for t, evs in tasks.items():
            for e in evs:
                for q, how in touches(e):
                    q = where(q)
                    if q in made and how == 'r':
                        continue
                    others = [x for u, x in writer.get(q, {}).items() if u != t]
                    if others:
                        x = others[0]
                        bad = True
                        ctx.violation(e, f'{what}: {e.kind} of {q} by one task, which another task changes ({x.kind} at {x.mod}:{x.line})', p, key=f'shared path {e.kind}')
                    elif e.kind in ('rmtree', 'rename') and how == 'w':
                        under = [u for u in writer if below(u, q) is not None and set(writer[u]) - {t}]
                        if under:
                            bad = True
                            ctx.violation(e, f'{what}: {e.kind} of {q} by one task affects {under[0]}, which another task writes', p, key=f'shared directory {e.kind}')
        for t, evs in tasks.items():
            for e in evs:
                if e.kind == 'mutate' and isinstance(e.obj, Heap) and (e.obj.serial is None or e.obj.serial <= t[1]):
                    if isinstance(e.obj, XObj):
                        continue
                    tag = f' (belongs to {e.obj.shared})' if e.obj.shared else ''
                    ctx.violation(e, f'{what}: a task changes {e.obj!r}{tag}, which it shares with others: {e.how} {e.field}', p, key='shared object')
                    bad = True
                elif e.kind == 'setglobal':
                    ctx.violation(e, f'{what}: a task sets the module-level variable {e.mod_}.{e.d["name"]}', p, key='shared variable')
                    bad = True
                elif e.kind == 'setclassattr':
                    ctx.violation(e, f'{what}: a task sets the class attribute {e.cls}.{e.d["name"]}', p, key='shared attribute')
                    bad = True
        if not bad:
            ctx.ok(f'{what}: pool {pool} with {len(tasks)} tasks')
    return n


def loaded(ctx, what, p, bpe, m, got):
    inits = [e for e in p.events if e.kind == 'initbpe']
    for e in inits:
        ctx.check(e.task is None, e, f'{what}: BPE data is loaded by a task', p, key='BPE data in task')
    if bpe:
        first = [e for e in p.events if e.kind == 'write' and any(isinstance(x, T) and x.op == 'represented' for x in subterms(e.data))]
        pools = [e for e in p.events if e.kind == 'pool' and first and e.i < first[0].i]
        used = pools[-1] if pools and first and first[0].task is not None else first[0] if first else None
        if used is None:
            return ctx.undecided(f'{what}: no token conversion found')
        before = [e for e in inits if e.i < used.i]
        ctx.check(bool(before), used, f'{what}: BPE data is not loaded before {"the worker processes are started" if used.kind == "pool" else "tokens are converted"}', p, key='BPE data before')


def finals(ctx, what, p):
    """{final path: content} of what the stages write, and where."""
    moves = {where(e.src): where(e.dst) for e in p.events if e.kind == 'rename'}
    final, at = {}, {}
    for e in p.events:
        if e.kind != 'write':
            continue
        q = where(e.path)
        while q in moves:
            q = moves[q]
        if not any(isinstance(x, T) and x.op in ('represented', 'parsed') for x in subterms(e.data)):
            continue
        final[q] = unnumbered(written(p.run, q))
        at[q] = e
        for t, n in ((final[q], 'content'), (q, 'name')):
            if t is not None:
                nd = [x for x in subterms(t) if isinstance(x, T) and x.op in ('nondet', 'hash', 'id') or isinstance(x, C) and isinstance(x.v, str) and '<pid>' in x.v]
                ctx.check(not nd, e, f'{what}: the {n} of the result {q} depends on {nd and nd[0]}', p, key=f'nondet {n}')
    if not final:
        ctx.undecided(f'{what}: no results found')
    return final, at


def partial_vocabs(ctx, _):
    """The tasks that count the words of groups of files."""
    res = ctx.explore('partial vocabularies', vocab_entry(ctx), vocab_opts('scratch', max_paths=200))
    n = 0
    for p in res.paths:
        for pool, tasks in tasks_of(p).items():
            for t, evs in tasks.items():
                for e in evs:
                    if e.kind == 'setglobal':
                        ctx.violation(e, f'counting words: a task sets the module-level variable {e.mod_}.{e.d["name"]}', p, key='vocab variable')
                    if e.kind == 'mutate' and isinstance(e.obj, Heap) and e.obj.shared and not isinstance(e.obj, XObj):
                        ctx.violation(e, f'counting words: a task changes {e.obj!r} (belongs to {e.obj.shared}): {e.how} {e.field}', p, key='vocab object')
                    for q, how in touches(e):
                        if how != 'w':
                            continue
                        n += 1
                        own = [x for x in subterms(where(q)) if isinstance(x, T) and (x.op == 'elem' or x.op == 'nondet')]
                        ctx.check(bool(own), e, f'counting words: every task writes to the same file {where(q)}', p, key='vocab path')
    if not n:
        ctx.undecided('counting words: nothing written by tasks')
