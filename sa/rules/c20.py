"""C20: merging partial vocabularies neither loses nor duplicates counts."""
from .world import *
from .c21 import on

META = dict(
    technique='lock-region (atomicity) analysis of the counters shared by the merging processes, typestate of the vocabularies taken from queues, '
              'and constant propagation of word counts through scheduling and merging',
    level_note='Given files with known words, between 1 and 45 of them, and 1 to 4 merging processes; processes are followed one after the other, so that what depends on their interleaving '
               'is decided by the rules on lock regions and on taken vocabularies, not by schedules. Trusts the models of queues and locks.',
    explanation='From the files to the written vocabulary every word count is propagated as a constant and compared with the sum over the files. All uses of shared counters are grouped by the '
                'region of the lock that protects them; decisions that lead to different effects may use only values read where they are changed.',
)


def clock(run, nm):
    run.ticks = getattr(run, 'ticks', 0) + 1
    return run.ticks


def given(system, cpus):
    m = on(system, cpus)

    def f(run, nm, args, kw, node):
        if nm == 'time.time':
            return C(1000.5 + clock(run, nm))
        if nm.split('.')[0] in ('random', 'secrets'):
            return C(10 ** 6 + clock(run, nm))
        if nm == 'os.getpid':
            return C(100 + (run.task[0] if run.task else 0))
        return m(run, nm, args, kw, node)
    return f


def entry_for(ctx, files, cpus, system='Linux', got=None, small=None, **kw):
    def entry(run):
        w = World(dict(files), C('/prep'))
        run.decided = []

        def decide(run, t):
            if run.task is not None:
                run.decided.append((t, run.task, len(run.events)))
            return None

        def rd(run, f, how):
            return read_back(run, f, how)
        run.opts = w.opts(exists_default=lambda run, kind, p: False, ext_hook=given(system, cpus), read_hook=rd, decide_hook=decide,
                          max_steps=6000000, unroll_forever=400, fork_raises=False, **kw)
        f = ctx.get(run, 'pipeline.vocab', 'calc_vocab')
        if got is not None:
            got['f'] = f
        if small:
            with quietly(run):
                m = f.mod
                for name, v in small.items():
                    if name in run.prog.mods[m.name].bind:
                        run.gframe(m).d[name] = C(v)
        run.n0 = len(run.events)
        return run.call(f, [C('/prep'), run.new_list([C(('/prep/' + x).encode()) for x in files]), C('/out')])
    return entry


def tree(k, kind):
    if kind == 0:
        return {f'f{i}': f'w{i} common w{i} x\n' for i in range(k)}
    if kind == 1:
        return {f'f{i}': ''.join(f'w{j} ' for j in range(i % 4)) + 'z' + ('\n' if i % 2 else '\nw0 z\n') for i in range(k)}
    return {f'f{i}': 'only\n' * (1 + i % 3) for i in range(k)}


def expected(files):
    n = {}
    for t in files.values():
        for w in t.replace('\n', ' ').split():
            n[w] = n.get(w, 0) + 1
    return n


def check(ctx):
    ctx.rule('the counts written are the sums of the counts of the files')
    ctx.rule('for each group of n partial vocabularies n-1 merges are scheduled, before one end mark for each merging process')
    ctx.rule('a value that several merging processes use to decide what to do is read in the same lock region in which it is changed, and never changed outside')
    ctx.rule('a merging process that gives up puts back the vocabularies it has taken, where it has taken them from')
    ctx.rule('what the merging processes share is shared between processes')
    ctx.parallel([(k, 2, 'Linux', t, dict(MAX_INIT_PARTIAL_VOCABS=m, N_CHUNKS=c)) for k in (1, 5, 12, 13) for m, c in ((4, 3), (5, 5), (6, 1)) for t in (0, 1)], sums)
    jobs = [(k, n, 'Linux', t) for k in (1, 2, 3, 19, 20, 21, 45) for n, t in ((1, 0), (2, 1), (4, 2), (3, 0))] + [(3, 8, 'Darwin', 0), (25, 8, 'Darwin', 1), (61, 2, 'Windows', 1)]
    ctx.parallel(jobs, sums)
    ctx.parallel([(45, 3), (3, 2), (25, 2)], regions)
    ctx.parallel([(45, 2, i) for i in (0, 1, 2, 3, 4, 5, 7, 9)] + [(24, 1, 1), (24, 1, 0)], giving_up)


def counts(t):
    """Word counts in the text of a vocabulary."""
    if not isinstance(t, C) or not isinstance(t.v, str):
        return None
    out = {}
    for l in t.v.split('\n')[:-1]:
        w, _, n = l.partition('\t')
        if not n.isdigit() or w in out:
            return None
        out[w] = int(n)
    return out


def readings(p):
    return [e for e in p.events if e.kind == 'read' and e.task is not None]


def sums(ctx, j):
    k, n, system, kind = j[:4]
    small = j[4] if len(j) > 4 else None
    files = tree(k, kind)
    what = f'{k} files, {n} processors, {system}' + (f', {small}' if small else '')
    got = {}
    res = ctx.explore(what, entry_for(ctx, files, n, system, got, small), Opts(max_paths=30, max_steps=6000000, sepfree=sepfree), note=False)
    want = expected(files)
    for p in res.paths:
        at = [e for e in p.events if e.kind == 'write']
        if p.outcome == 'raise':
            died = [e for e in p.events if e.kind == 'workerdied']
            ctx.violation(died[0] if died else at[-1] if at else got['f'], f'{what}: ends with {died[0].exc if died else p.value!r}', p, key='raise')
            continue
        if p.outcome != 'return':
            ctx.undecided(f'{what}: {p.outcome} {p.value!r}')
            continue
        t = written(p.run, C('/out/vocab'))
        c = counts(t)
        w = [e for e in at if 'vocab' in str(e.path) and 'part_vocab' not in str(e.path) and 'vocabsize' not in str(e.path)]
        if c is None:
            if t is None:
                ctx.violation(got['f'], f'{what}: no vocabulary is written', p, key='none')
            else:
                ctx.undecided(f'{what}: written vocabulary not recognised: {str(t)[:200]}')
            continue
        if c != want:
            bad = next(x for x in sorted(set(c) | set(want)) if c.get(x) != want.get(x))
            ctx.violation(w[-1] if w else got['f'], f'{what}: the count of {bad!r} is {c.get(bad)}, but the word occurs {want.get(bad)} times', p, key='sum')
        else:
            ctx.ok(f'{what}: {len(c)} words')
        schedule(ctx, what, p)


def schedule(ctx, what, p):
    started = [e for e in p.events if e.kind == 'procstart']
    if not started:
        return
    puts, first = {}, started[0].i
    for e in p.events[:first]:
        if e.kind == 'qput' and e.task is None:
            puts.setdefault(e.q.serial if isinstance(e.q, Heap) else e.q, []).append(e)
    vocabs = {q: es for q, es in puts.items() if all(isinstance(e.val, (HObj, Tup)) for e in es)}
    plans = [es for q, es in puts.items() if q not in vocabs and len({repr(e.val) for e in es}) != 1]
    same = [es for q, es in puts.items() if q not in vocabs and len({repr(e.val) for e in es}) == 1]
    if not vocabs:
        return ctx.undecided(f'{what}: no queues of vocabularies found')
    seen = {}
    for q, es in vocabs.items():
        for e in es:
            if isinstance(e.val, HObj):
                ctx.check(e.val.serial not in seen, e, f'{what}: a partial vocabulary is scheduled twice', p, key='scheduled twice')
                seen[e.val.serial] = e
    sizes = sorted(len(es) - 1 for es in vocabs.values() if len(es) > 1)
    if not sizes or len(plans) != 1:
        return
    plan = [e.val for e in plans[0]]
    if not all(isinstance(v, C) for v in plan):
        return
    end = plan[-1]
    marks = [v for v in plan if v == end]
    work = {}
    for v in plan:
        if v != end:
            work[v] = work.get(v, 0) + 1
    at = plans[0][-1]
    ctx.check(sorted(work.values()) == sizes, at, f'{what}: groups of {sorted(len(es) for es in vocabs.values())} partial vocabularies need {sum(sizes)} merges, scheduled are {sum(work.values())}', p,
              key='merges scheduled')
    ctx.check(len(marks) == len(started) and plan[-len(marks):] == marks, at, f'{what}: {len(started)} merging processes, but {len(marks)} end marks at the end', p, key='end marks')


def reach(o, seen):
    """Objects reachable from o without passing through a queue."""
    if not isinstance(o, (Heap, Tup)) or id(o) in seen:
        return
    seen[id(o)] = o
    if isinstance(o, XObj):
        if o.name != 'queue':
            for v in o.fields.values():
                reach(v, seen)
    elif isinstance(o, HObj):
        for v in o.fields.values():
            reach(v, seen)
    elif isinstance(o, Tup):
        for v in o.items:
            reach(v, seen)
    elif isinstance(o, (HList, HSet)):
        for s in o.segs:
            if s[0] == 'e':
                reach(s[1], seen)
    elif isinstance(o, HDict):
        for k, v in o.pairs:
            reach(k, seen)
            reach(v, seen)


def obj_of(e):
    return e.d.get('q') if e.kind in ('qget', 'qput') else e.d.get('obj')


def regions(ctx, j):
    k, n = j
    files = tree(k, 0)
    what = f'{k} files, {n} processes'
    # shared state that is no shared state
    res = ctx.explore(what + ', shared state', entry_for(ctx, files, n), Opts(max_paths=30, max_steps=6000000, sepfree=sepfree), note=False)
    for p in res.paths:
        shared_state(ctx, what, p)
    # decisions
    res = ctx.explore(what + ', decisions', entry_for(ctx, {a: files[a] for a in list(files)[:23 if k > 20 else k]}, 2, opaque_sizes=True), Opts(max_paths=600, max_steps=6000000, sepfree=sepfree), note=False)
    sig, dec = [], {}
    for p in res.paths:
        got = {}
        for t, task, i in getattr(p.run, 'decided', ()):
            for x in subterms(t):
                e = next((e for e in p.events[:i] if e.kind == 'sharedget' and e.val == x), None) if isinstance(x, T) and x.op in ('qsize', 'qempty', 'shvalue') else None
                if e is None:
                    continue
                ok = changed_in_region(p, e)
                dec.setdefault((e.mod, e.line, e.stack), []).append((p, e, ok, task, i))
    n_ok = 0
    for key, uses in dec.items():
        bad = [u for u in uses if not u[2]]
        if not bad:
            n_ok += len(uses)
            continue
        sigs = {signature(p, task, i) for p, e, ok, task, i in bad}
        if len(sigs) > 1:
            p, e, ok, task, i = bad[0]
            ctx.violation(e, f'{what}: what a merging process does depends on a shared value that is not changed in the lock region in which it is read, so two processes may both find it', p, key='check then act')
        else:
            n_ok += len(uses)
    if n_ok:
        ctx.ok(f'{what}: {n_ok} decisions on shared values')
    elif k > 20:
        ctx.undecided(f'{what}: no decision on a shared value found')


def signature(p, task, i):
    return tuple((e.kind, e.line) for e in p.events[i:] if e.task == task and e.kind in ('qget', 'qput', 'open', 'write', 'rename', 'remove', 'rmtree') and not e.locks)


def changed_in_region(p, e):
    """Is the shared object whose value event e reads changed in the same lock region?"""
    if not e.locks:
        return False
    L = e.locks[-1]
    evs = p.events
    a = e.i
    while a > 0 and not (evs[a].kind == 'lock' and evs[a].d['obj'] is L):
        a -= 1
    b = e.i
    while b < len(evs) and not (evs[b].kind == 'unlock' and evs[b].d['obj'] is L):
        b += 1
    o = e.obj
    return any(x.kind in ('qget', 'qput', 'mutate') and obj_of(x) is o for x in evs[a:b])


def shared_state(ctx, what, p):
    started = [e for e in p.events if e.kind == 'procstart']
    if len(started) < 2:
        return
    first = started[0].i
    from_procs = []
    for e in started:
        s = {}
        reach(e.obj, s)
        from_procs.append(s)
    common = {i: o for i, o in from_procs[0].items() if any(i in s for s in from_procs[1:])}
    serials = {o.serial: o for o in common.values() if isinstance(o, Heap)}
    for o in serials.values():
        if isinstance(o, XObj) and o.name in ('queue', 'multiprocessing.Lock', 'mpvalue'):
            ctx.check(o.root == 'multiprocessing', started[0], f'{what}: the merging processes share a {o.name.split(".")[-1]} of module {o.root}, which only threads can share', p, key='not shared')
            ctx.check(not o.many, started[0], f'{what}: a semaphore that admits several processes serves as a lock', p, key='semaphore')
    bad = False
    for e in p.events[first:]:
        if e.task is None:
            continue
        if e.kind == 'mutate' and isinstance(e.obj, Heap) and e.obj.serial in serials and not (isinstance(e.obj, XObj) and e.obj.name in ('mpvalue', 'queue', 'logger', 'tqdm')):
            ctx.violation(e, f'{what}: a merging process changes {e.obj!r}, of which every process has its own copy', p, key='own copy')
            bad = True
        if e.kind in ('sharedget', 'qget', 'qput') or e.kind == 'mutate' and isinstance(e.obj, XObj) and e.obj.name == 'mpvalue':
            o = obj_of(e)
            if not isinstance(o, XObj):
                continue
            owner = [h for h in common.values() if isinstance(h, HObj) and any(v is o for v in h.fields.values())]
            locks = [v for h in owner for v in h.fields.values() if isinstance(v, XObj) and v.name == 'multiprocessing.Lock']
            if o.name == 'mpvalue' and e.kind == 'mutate' and not e.locks:
                ctx.violation(e, f'{what}: a merging process changes a shared value without holding a lock', p, key='no lock')
                bad = True
            if locks and e.kind in ('qget', 'qput') and not any(l in locks for l in e.locks):
                ctx.violation(e, f'{what}: a merging process changes a shared counter without holding its lock', p, key='no lock')
                bad = True
    if not bad:
        ctx.ok(f'{what}: shared state')


def giving_up(ctx, j):
    """A get that runs into its timeout: the i-th time a merging process takes a vocabulary."""
    k, n, nth = j
    files = tree(k, 0)
    what = f'{k} files, {n} processes, {nth + 1}. vocabulary cannot be taken in time'

    def empty(run, q):
        if run.task is None or not q.items.segs or not all(s[0] == 'e' and isinstance(s[1], HObj) for s in q.items.segs):
            return False
        run.nvocabs = getattr(run, 'nvocabs', 0) + 1
        return run.nvocabs == nth + 1
    res = ctx.explore(what, entry_for(ctx, files, n, queue_empty=empty), Opts(max_paths=30, max_steps=6000000, sepfree=sepfree), note=False)
    for p in res.paths:
        out, gave = {}, None
        for e in p.events:
            if e.task is None or e.kind not in ('qget', 'qput') or not isinstance(e.q, XObj):
                continue
            if e.kind == 'qget' and e.d.get('val') is None and gave is None:
                gave = e
            if gave is not None and e.task != gave.task:
                continue
            v = e.d.get('val')
            if not isinstance(v, HObj):
                continue
            if e.kind == 'qget':
                out[v.serial] = e
            elif v.serial in out:
                ctx.check(out[v.serial].q is e.q, e, f'{what}: a vocabulary is put back into another queue than it was taken from', p, key='other queue')
                del out[v.serial]
        if gave is None:
            ctx.undecided(f'{what}: no such case')
            continue
        mine = {s: e for s, e in out.items() if e.task == gave.task and not merged(p, e, gave)}
        for s, e in mine.items():
            ctx.violation(e, f'{what}: the vocabulary it has taken before is not put back', p, key='not put back')
        if not mine:
            ctx.ok(what)


def merged(p, e, gave):
    """Has the vocabulary taken by e been added to another one before the failed get?"""
    later = [x for x in p.events[e.i:gave.i] if x.task == e.task and x.kind == 'qput' and isinstance(x.d.get('val'), HObj)]
    return bool(later)
